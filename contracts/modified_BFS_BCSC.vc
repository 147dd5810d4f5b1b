@unit modified_BFS_BCSC
@src utils/sparse_utilities.cpp
@ns sym_lib
@name modified_BFS_BCSC
@props P13
@uses wbfs bgraph
@opts complex
@requires
n >= 0, blocks_ok(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), Li@.len() < i32::MAX, forall|x: int| 0 <= x < levelSet@.len() ==> #[trigger] levelSet@[x] < n,  window_in(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, old(visited)@), old(visited)@.len() <= i32::MAX, old(inDegree)@.len() <= i32::MAX, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), levelSet@.len() <= i32::MAX, Li@.len() <= i32::MAX,
srcs_ok(window(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, old(visited)@), i32s(levelSet@).subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int)), degs_start(window(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, old(visited)@), old(inDegree)@), node2partition@.len() >= n, forall|v: int| #[trigger] inw(window(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, old(visited)@), v) ==> 0 <= node2partition@[v] < old(newLeveledParList)@.len(),
@ensures
lists_ordered(window(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, old(visited)@), newLeveledParList@, old(newLeveledParList)@, node2partition@), forall|v: int| 0 <= v < n ==> #[trigger] visited@[v], visited@.len() == old(visited)@.len(), inDegree@.len() == old(inDegree)@.len(), newLeveledParList@.len() == old(newLeveledParList)@.len(),
@entry
let ghost b = Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int };
let ghost d = window(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, visited@); let ghost sl = i32s(levelSet@).subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int); let ghost L0 = newLeveledParList@; let ghost PT = node2partition@;
let ghost mut q: Seq<i32> = seq![]; let ghost mut k: int = 0; let ghost mut c: int = 0; let ghost mut cur: int = -1; let ghost mut r0: int = 0; let ghost mut u: ISet<int> = wb_all(d);
proof { window_start(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: n as int }), n as int, visited@); wb_init(d, sl, inDegree@); lists_init(L0, PT, q); }
@pre 1
proof { assert(queue@ =~= q.subrange(k, q.len() as int)); }
@loop 1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == bptr(b), d.g == bset(b), Li@.len() < i32::MAX, levelSet@.len() <= i32::MAX, forall|x: int| 0 <= x < levelSet@.len() ==> #[trigger] levelSet@[x] < n, blocks_ok(b), b.ip == Li_ptr@, b.li == Li@, b.sc == sup2col@, b.cs == col2sup@, b.n == n, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == i32s(levelSet@).subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == old(visited)@.len(), inDegree@.len() == old(inDegree)@.len(),
    c == ii - levelPtr@[bfsLevel as int], 0 <= c <= sl.len(), k == q.len(), wb(d, sl, c, q, k, -1, 0, visited@, inDegree@, u),
decreases sl.len() - c,
@head 1
proof { wb_source(d, sl, c, q, k, visited@, inDegree@, u); lists_ext(newLeveledParList@, L0, PT, q, k, sl[c]); q_front(q, k, sl[c]); assert(sl[c] == levelSet@[ii as int]); q = q.push(sl[c]); c = c + 1; }
@loop 1.1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == bptr(b), d.g == bset(b), Li@.len() < i32::MAX, levelSet@.len() <= i32::MAX, forall|x: int| 0 <= x < levelSet@.len() ==> #[trigger] levelSet@[x] < n, blocks_ok(b), b.ip == Li_ptr@, b.li == Li@, b.sc == sup2col@, b.cs == col2sup@, b.n == n, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == i32s(levelSet@).subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == old(visited)@.len(), inDegree@.len() == old(inDegree)@.len(),
    c == ii + 1 - levelPtr@[bfsLevel as int], 0 <= c <= sl.len(), wb(d, sl, c, q, k, -1, 0, visited@, inDegree@, u), 0 <= k <= q.len(),
decreases n - k,
@head 1.1
proof { wb_len(d, sl, c, q, k, -1, 0, visited@, inDegree@, u); wb_pop(d, sl, c, q, k, visited@, inDegree@, u); q_front(q, k, 0i32); cur = q[k] as int; r0 = d.p[cur] as int; }
@after push_i\(newLeveledParList, .*
proof { lists_put(LB, L0, PT, q, k, newLeveledParList@); k = k + 1; }
@before push_i\(newLeveledParList, .*
let ghost LB = newLeveledParList@;
@before let mut curCol: .*
proof { bcol(b, cur); wb_skip(d, sl, c, q, k, cur, r0, visited@, inDegree@, u); u = u.remove(r0); r0 = r0 + 1; }
@loop 1.1.1
invariant d.n == n, n >= 0, n < i32::MAX, d.p == bptr(b), d.g == bset(b), Li@.len() < i32::MAX, levelSet@.len() <= i32::MAX, forall|x: int| 0 <= x < levelSet@.len() ==> #[trigger] levelSet@[x] < n, blocks_ok(b), b.ip == Li_ptr@, b.li == Li@, b.sc == sup2col@, b.cs == col2sup@, b.n == n, PT == node2partition@, forall|v: int| #[trigger] inw(d, v) ==> 0 <= PT[v] < L0.len(), PT.len() >= n, 0 <= bfsLevel, bfsLevel + 1 < levelPtr@.len(), levelPtr@.len() <= i32::MAX, 0 <= levelPtr@[bfsLevel as int] <= levelPtr@[bfsLevel + 1] <= levelSet@.len(), sl == i32s(levelSet@).subrange(levelPtr@[bfsLevel as int] as int, levelPtr@[bfsLevel + 1] as int),
    newLeveledParList@.len() == L0.len(), lists_are(newLeveledParList@, L0, PT, q, k), queue@ == q.subrange(k, q.len() as int), visited@.len() == old(visited)@.len(), inDegree@.len() == old(inDegree)@.len(),
    cur >= 0, cur == popedNode, curCol == b.sc[cur], nxtCol == b.sc[cur + 1], 0 <= nxtCol < Li_ptr@.len(), be(b, cur) <= Li@.len(), bs(b, cur) < r <= be(b, cur), cur < n, be(b, cur) == Li_ptr@[nxtCol as int], r0 == bp(b, cur) + (r - bs(b, cur)), wb(d, sl, c, q, k, cur, r0, visited@, inDegree@, u),
decreases d.p[cur + 1] - r0,
@head 1.1.1
let ghost V0 = visited@; let ghost D0 = inDegree@; let ghost Q0 = queue@;
proof { bedge(b, cur, r as int); bcol(b, cur); wb_at(d, sl, c, q, k, cur, r0, visited@, inDegree@, u); wb_len(d, sl, c, q, k, cur, r0, visited@, inDegree@, u); wb_read(d, sl, c, q, k, cur, r0, visited@, inDegree@, u);
    let w = d.g[r0]; let go = D0[w as int] - 1 == 1 && !V0[w as int]; q_front(q, k, w); if go { lists_ext(newLeveledParList@, L0, PT, q, k, w); }
    q = q_after(q, w, go); u = u.remove(r0); r0 = r0 + 1; }
@post 1.1.1
proof { bcol(b, cur); wb_len(d, sl, c, q, k, cur, r0, visited@, inDegree@, u); wb_end(d, sl, c, q, k, cur, r0, visited@, inDegree@, u); }
@exit
proof { assert(c == sl.len()); wb_done(d, sl, q, visited@, inDegree@, u); assert(window_order(d, q) && lists_are(newLeveledParList@, L0, PT, q, q.len() as int)); }
