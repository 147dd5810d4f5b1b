@unit modified_BFS_CSC
@src utils/sparse_utilities.cpp
@ns sym_lib
@name modified_BFS_CSC
@props P13
@uses wbfs
@ghost
out: Seq<bool>
@opts complex
@requires
n >= 0,  window_in(Lp@, Li@, n as int, out), out.len() == n, marks_in(out, old(visited)@), old(visited)@.len() >= n, sees(window(Lp@, Li@, n as int, out), old(visited)@), old(visited)@.len() <= i32::MAX, old(inDegree)@.len() <= i32::MAX, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), levelSet@.len() <= i32::MAX, Li@.len() <= i32::MAX,
srcs_ok(window(Lp@, Li@, n as int, out), levelSet@.subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int)), degs_start(window(Lp@, Li@, n as int, out), old(inDegree)@), node2partition@.len() >= n, forall|v: int| #[trigger] inw(window(Lp@, Li@, n as int, out), v) ==> 0 <= node2partition@[v] < old(newLeveledParList)@.len(),
@ensures
lists_ordered(window(Lp@, Li@, n as int, out), newLeveledParList@, old(newLeveledParList)@, node2partition@), marks_after(out, old(visited)@, visited@), visited@.len() == old(visited)@.len(), inDegree@.len() == old(inDegree)@.len(), newLeveledParList@.len() == old(newLeveledParList)@.len(),
@entry

let ghost d = window(Lp@, Li@, n as int, out); let ghost VV = visited@; let ghost sl = levelSet@.subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int); let ghost L0 = newLeveledParList@; let ghost PT = node2partition@;
let ghost mut q: Seq<i32> = seq![]; let ghost mut k: int = 0; let ghost mut c: int = 0; let ghost mut cur: int = -1; let ghost mut r0: int = 0; let ghost mut u: ISet<int> = wb_all(d);
proof { window_start(Lp@, Li@, n as int, out); eff_init(out, VV); wb_init(d, sl, inDegree@); lists_init(L0, PT, q); }
@pre 1
proof { assert(queue@ =~= q.subrange(k, q.len() as int)); }
@loop 1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == Lp@, d.g == Li@, Li@.len() <= i32::MAX, levelSet@.len() <= i32::MAX, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == levelSet@.subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == VV.len(), VV.len() >= n, d.out == out, out.len() == n, kept(out, VV, visited@), sees(d, VV), marks_in(out, VV), inDegree@.len() == old(inDegree)@.len(),
    c == ii - levelPtr@[bfsLevel as int], 0 <= c <= sl.len(), k == q.len(), wb(d, sl, c, q, k, -1, 0, eff(out, visited@), inDegree@, u),
decreases sl.len() - c,
@head 1
proof { wb_source(d, sl, c, q, k, eff(out, visited@), inDegree@, u); lists_ext(newLeveledParList@, L0, PT, q, k, sl[c]); q_front(q, k, sl[c]); assert(sl[c] == levelSet@[ii as int]); q = q.push(sl[c]); c = c + 1; }
@loop 1.1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == Lp@, d.g == Li@, Li@.len() <= i32::MAX, levelSet@.len() <= i32::MAX, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == levelSet@.subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == VV.len(), VV.len() >= n, d.out == out, out.len() == n, kept(out, VV, visited@), sees(d, VV), marks_in(out, VV), inDegree@.len() == old(inDegree)@.len(),
    c == ii + 1 - levelPtr@[bfsLevel as int], 0 <= c <= sl.len(), wb(d, sl, c, q, k, -1, 0, eff(out, visited@), inDegree@, u), 0 <= k <= q.len(),
decreases n - k,
@head 1.1
proof { wb_len(d, sl, c, q, k, -1, 0, eff(out, visited@), inDegree@, u); wb_pop(d, sl, c, q, k, eff(out, visited@), inDegree@, u); q_front(q, k, 0i32); eff_set(d, VV, visited@, q[k] as int); cur = q[k] as int; r0 = d.p[cur] as int; }
@after push_i\(newLeveledParList, .*
proof { lists_put(LB, L0, PT, q, k, newLeveledParList@); k = k + 1; }
@before push_i\(newLeveledParList, .*
let ghost LB = newLeveledParList@;
@loop 1.1.1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == Lp@, d.g == Li@, Li@.len() <= i32::MAX, levelSet@.len() <= i32::MAX, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == levelSet@.subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == VV.len(), VV.len() >= n, d.out == out, out.len() == n, kept(out, VV, visited@), sees(d, VV), marks_in(out, VV), inDegree@.len() == old(inDegree)@.len(),
    cur >= 0, cur == popedNode, r0 == r, 0 <= r, wb(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u),
decreases d.p[cur + 1] - r0,
@head 1.1.1
let ghost V0 = visited@; let ghost D0 = inDegree@; let ghost Q0 = queue@;
proof { wb_at(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u); wb_len(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u); wb_read(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u);
    let w = d.g[r0]; eff_at(d, VV, visited@, r0); let go = D0[w as int] - 1 == 1 && !V0[w as int]; q_front(q, k, w); if go { lists_ext(newLeveledParList@, L0, PT, q, k, w); }
    q = q_after(q, w, go); u = u.remove(r0); r0 = r0 + 1; }
@post 1.1.1
proof { wb_len(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u); wb_end(d, sl, c, q, k, cur, r0, eff(out, visited@), inDegree@, u); }
@exit
proof { assert(c == sl.len()); wb_done(d, sl, q, eff(out, visited@), inDegree@, u); eff_done(d, VV, visited@); assert(window_order(d, q) && lists_are(newLeveledParList@, L0, PT, q, q.len() as int)); }
