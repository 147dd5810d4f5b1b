@unit levelset_bcsc
@src utils/sparse_inspector.cpp
@ns sym_lib
@name build_levelSet_BCSC
@props P01
@uses bgraph
@opts complex isolate
@rlimit 60
@requires
blockNo < i32::MAX,
blocks_ok(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: blockNo as int }),
acyclic(bptr(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: blockNo as int }), bset(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: blockNo as int }), blockNo as int),
@ensures
0 <= res <= blockNo,
block_levels(Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: blockNo as int }, levelPtr@, levelSet@, res as int),
levelPtr@.len() == blockNo + 1, levelSet@.len() == blockNo,
@entry
let ghost N = blockNo as int;
let ghost d = Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N };
let ghost p = bptr(d);
let ghost g = bset(d);
let ghost E = bp(d, N);
proof { bgraph_wf(d); }
let ghost mut dead: Seq<bool> = Seq::new(E as nat, |e: int| false);
let ghost mut lv: Seq<int> = Seq::new(N as nat, |v: int| -1int);
let ghost mut pos: Seq<int> = Seq::new(N as nat, |v: int| -1int);
@loop 1
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    0 <= i <= blockNo, inDegree@.len() == blockNo, visited@.len() == blockNo, forall|v: int| 0 <= v < N ==> #[trigger] inDegree@[v] == 0, forall|v: int| 0 <= v < N ==> #[trigger] visited@[v] == false,
decreases blockNo - i,
@loop 2
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    1 <= s <= blockNo + 1, inDegree@.len() == blockNo,
    forall|e: int| 0 <= e < E ==> #[trigger] dead[e] == false,
    forall|v: int| 0 <= v < N ==> #[trigger] inDegree@[v] == live(g, dead, bp(d, s - 1), v),
decreases blockNo + 1 - s,
@head 2
let ghost b = s - 1;
proof { bcol(d, b); }
@loop 2.1
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    forall|e: int| 0 <= e < E ==> #[trigger] dead[e] == false, be(d, b) <= Li@.len(),
    inDegree@.len() == blockNo, b == s - 1, 0 <= b < N, bs(d, b) <= r <= be(d, b), be(d, b) == Li_ptr@[nxtCol as int], 0 <= nxtCol < Li_ptr@.len(),
    forall|v: int| 0 <= v < N ==> #[trigger] inDegree@[v] == live(g, dead, bp(d, b) + (r - bs(d, b)), v),
decreases be(d, b) - r,
@head 2.1
proof { bcount(d, dead, b, r as int); }
let ghost r0 = r as int;
let ghost ind0 = inDegree@;
@end 2.1
proof {
    assert(r == r0 + 1);
    assert forall|v: int| 0 <= v < N implies #[trigger] inDegree@[v] == live(g, dead, bp(d, b) + (r - bs(d, b)), v) by {
        assert(ind0[v] == live(g, dead, bp(d, b) + (r0 - bs(d, b)), v)); assert(bp(d, b) + (r0 - bs(d, b)) + 1 == bp(d, b) + (r - bs(d, b)));
        assert(live(g, dead, bp(d, b) + (r0 - bs(d, b)) + 1, v) == live(g, dead, bp(d, b) + (r0 - bs(d, b)), v) + (if v == tgt(d, r0) { 1int } else { 0int }));
    }
}
@pre 3
proof { lset_init(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@); }
@loop 3
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    levelPtr@.len() == N + 1, levelSet@.len() == N, forall|q: int| 0 <= q < N ==> #[trigger] levelSet@[q] < N, visited@.len() == N, inDegree@.len() == N, lv.len() == N, pos.len() == N, node2Level@.len() == N,
    N > 0 ==> end < N, 0 <= begin <= N, begin <= end ==> 0 <= end < N && lv[begin as int] < 0, 0 <= cur_level <= N,
    forall|v: int| 0 <= v < N && (v < begin || v > end) ==> #[trigger] lv[v] >= 0,
    lstate(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int),
decreases N + 1 - cur_level,
@head 3
proof { scan_begin(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int); }
@loop 3.1
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    levelPtr@.len() == N + 1, levelSet@.len() == N, forall|q: int| 0 <= q < N ==> #[trigger] levelSet@[q] < N, visited@.len() == N, inDegree@.len() == N, lv.len() == N, pos.len() == N, node2Level@.len() == N,
    begin <= i <= end + 1, 0 <= begin <= end < N, 0 <= cur_level <= N,
    forall|v: int| 0 <= v < N && (v < begin || v > end) ==> #[trigger] lv[v] >= 0,
    sstate(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int),
decreases end + 1 - i,
@head 3.1
proof {
    scan_facts(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int);
    if inDegree@[i as int] == 1 && !visited@[i as int] {
        scan_hit(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int);
        i32s_upd(levelSet@, cur_levelCol as int, i as usize, i);
        lv = lv.update(i as int, cur_level as int);
        pos = pos.update(i as int, cur_levelCol as int);
    }
}
@post 3.1
proof { scan_end(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int, end + 1); lev_room(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int, begin as int, end + 1); }
@loop 3.2
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    0 <= begin <= end + 1, end < N, inDegree@.len() == N,
    forall|v: int| 0 <= v < N ==> (#[trigger] inDegree@[v] == 1 <==> lv[v] >= 0), lv.len() == N,
    forall|v: int| 0 <= v < begin ==> #[trigger] lv[v] >= 0,
ensures
    begin > end || inDegree@[begin as int] != 1,
decreases end + 1 - begin,
@loop 3.3
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    0 <= begin <= end + 1, end < N, inDegree@.len() == N,
    forall|v: int| 0 <= v < N ==> (#[trigger] inDegree@[v] == 1 <==> lv[v] >= 0), lv.len() == N,
    forall|v: int| end < v < N ==> #[trigger] lv[v] >= 0,
decreases end + 1,
@pre 3.4
let ghost c = cur_level as int;
let ghost m = cur_levelCol as int;
@loop 3.4
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    levelPtr@.len() == N + 1, levelSet@.len() == N, forall|q: int| 0 <= q < N ==> #[trigger] levelSet@[q] < N, inDegree@.len() == N,
    levelPtr@[c - 1] <= l, c == cur_level, 0 < c <= N,
    kstate(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int, 0, 0),
decreases levelPtr@[c] - l,
@head 3.4
proof { kill_col(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int); }
let ghost b = levelSet@[l as int] as int;
proof {
    assert(levelSet@[l as int] < N); assert(i32s(levelSet@)[l as int] == b);
    bcol(d, b);
    kill_edge(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int, b, p[b] as int);
}
@loop 3.4.1
invariant
    N == blockNo, blockNo < i32::MAX, d == (Bg { ip: Li_ptr@, li: Li@, sc: sup2col@, cs: col2sup@, n: N }), p == bptr(d), g == bset(d), E == bp(d, N), blocks_ok(d), acyclic(p, g, N), dead.len() == E, E < i32::MAX,
    inDegree@.len() == N, 0 <= b < N, lv[b] >= 0, pos[b] == l, bs(d, b) < j <= be(d, b), be(d, b) <= Li@.len(), be(d, b) == Li_ptr@[nxtCol as int], 0 <= nxtCol < Li_ptr@.len(), p[b] == bp(d, b), p[b + 1] == bp(d, b + 1), bp(d, b + 1) == bp(d, b) + (be(d, b) - bs(d, b)),
    kstate(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int, b, bp(d, b) + (j - bs(d, b))),
decreases be(d, b) - j,
@head 3.4.1
proof {
    bedge(d, b, j as int);
    kill_edge(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int, b, bp(d, b) + (j - bs(d, b)));
    dead = dead.update(bp(d, b) + (j - bs(d, b)), true);
}
@post 3.4.1
proof { kill_next(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int, b); }
@post 3.4
proof { kill_col(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int); kill_end(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, c, m, l as int); }
@exit
proof { lset_done(p, g, N, dead, lv, pos, inDegree@, visited@, i32s(levelSet@), levelPtr@, cur_level as int, cur_levelCol as int); }
