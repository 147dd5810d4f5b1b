@unit build_level_set_tree
@src utils/sparse_inspector.cpp
@ns sym_lib
@name build_level_set_tree
@props P02
@uses tlevel
@opts complex isolate
@requires
1 <= n <= i32::MAX - 1, forest(inTree@, n as int), old(levelPtr)@.len() >= n + 1, old(levelSet)@.len() >= n,
@ensures
tree_levels(inTree@, n as int, levelPtr@, levelSet@, res as int),
@entry
let ghost T = inTree@; let ghost N = n as int;
let ghost mut pos: Seq<int> = Seq::new(n as nat, |k: int| 0int);
let ghost mut u: int = 0; let ghost mut w: int = 0; let ghost mut m0: int = 0;
let ghost mut ndec: int = 0;
@loop 1
invariant
    T == inTree@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), 0 <= k <= n, nChild@.len() == n, forall|v: int| 0 <= v < n ==> #[trigger] nChild@[v] == cnt(T, k as int, v),
decreases n - k,
@head 1
proof { if T[k as int] >= 0 { cnt_bounds(T, k as int, T[k as int] as int); } }
@pre 2
proof { bt_init(T, N, visited@, levelSet@, levelPtr@, pos);
    assert(deg_is(masked(T, N, 0), nChild@, N)) by { assert forall|v: int| 0 <= v < N implies #[trigger] nChild@[v] == cnt(masked(T, N, 0), N, v) by { assert forall|x: int| 0 <= x < N implies #[trigger] T[x] == masked(T, N, 0)[x] by { tlev_ge0(T, N, x); } cnt_ext(T, masked(T, N, 0), N, v); } } }
@loop 2
invariant_except_break
    bt(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, curLevelCnt as int, 0), deg_is(masked(T, N, curLevel as int), nChild@, N), todo_in(visited@, N, begin as int, end as int), curLevelCnt < n, levelPtr@[curLevel as int] == curLevelCnt, begin <= end,
invariant
    T == inTree@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), visited@.len() == n, nChild@.len() == n,
ensures
    bt(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, N, 0), levelPtr@[curLevel as int] == n,
decreases n - curLevelCnt,
@head 2
proof { let x = nv_find(visited@, N); u = some_at(T, N, curLevel as int, x); assert(!visited@[u]); m0 = curLevelCnt as int; bt_scan(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, m0, begin as int, end as int); }
@loop 2.1
invariant
    T == inTree@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), visited@.len() == n, nChild@.len() == n, 0 <= begin <= i <= end + 1, end < n, begin <= u <= end, tlev(T, N, u) == curLevel, m0 <= curLevelCnt, u < i ==> m0 < curLevelCnt, m0 < n,
    bt(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, curLevelCnt as int, i as int), deg_is(masked(T, N, curLevel as int), nChild@, N), todo_in(visited@, N, begin as int, end as int), levelPtr@[curLevel as int] == m0,
decreases end + 1 - i,
@head 2.1
let ghost v0 = visited@;
proof { ready(T, N, curLevel as int, i as int); assert(nChild@[i as int] == cnt(masked(T, N, curLevel as int), N, i as int)); if tlev(T, N, i as int) == curLevel { bt_hit(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, curLevelCnt as int, i as int); pos = pos.update(i as int, curLevelCnt as int); } else { bt_miss(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, curLevelCnt as int, i as int); assert(visited@[i as int] == (tlev(T, N, i as int) < curLevel)); } }
@pre 2.2
proof { w = nv_find(visited@, N); }
@after curLevel = .*
proof { bt_next(T, N, visited@, levelSet@, levelPtr@, levelPtr@.update(curLevel as int, curLevelCnt), pos, curLevel - 1, curLevelCnt as int, end + 1, begin as int); }
@loop 2.2
invariant
    N == n, forest(T, N), visited@.len() == n, nChild@.len() == n, 0 <= begin <= w < n, curLevel >= 1, !visited@[w], bt_vis(T, N, visited@, curLevel as int, 0), deg_is(masked(T, N, curLevel - 1), nChild@, N), todo_in(visited@, N, begin as int, end as int),
decreases n - begin,
@head 2.2
proof { ready(T, N, curLevel - 1, begin as int); ready(T, N, curLevel - 1, w); assert(visited@[begin as int]); assert(nChild@[begin as int] == cnt(masked(T, N, curLevel - 1), N, begin as int)); assert(begin != w); }
@loop 2.3
invariant
    N == n, forest(T, N), visited@.len() == n, nChild@.len() == n, 0 <= begin <= w <= end < n, curLevel >= 1, !visited@[w], bt_vis(T, N, visited@, curLevel as int, 0), deg_is(masked(T, N, curLevel - 1), nChild@, N), todo_in(visited@, N, begin as int, end as int),
decreases end,
@head 2.3
proof { ready(T, N, curLevel - 1, end as int); assert(visited@[end as int]); assert(nChild@[end as int] == cnt(masked(T, N, curLevel - 1), N, end as int)); assert(end != w); }
@pre 2.4
proof { drop_begin(T, N, visited@, levelSet@, levelPtr@, pos, curLevel - 1, curLevelCnt as int); }
@loop 2.4
invariant
    T == inTree@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), visited@.len() == n, nChild@.len() == n, 1 <= curLevel <= n, levelPtr@[curLevel as int] == curLevelCnt, levelPtr@[curLevel - 1] <= l <= curLevelCnt <= n, 0 <= l, 
    bt(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int, curLevelCnt as int, 0), deg_is(dropped(T, N, pos, curLevel - 1, l as int), nChild@, N),
decreases curLevelCnt - l,
@head 2.4
let ghost n0 = nChild@;
proof { drop_step(T, N, visited@, levelSet@, levelPtr@, pos, curLevel - 1, curLevelCnt as int, l as int, nChild@, if T[levelSet@[l as int] as int] >= 0 { nChild@.update(T[levelSet@[l as int] as int] as int, (nChild@[T[levelSet@[l as int] as int] as int] - 1) as i32) } else { nChild@ }); }
@tail 2
proof { drop_end(T, N, visited@, levelSet@, levelPtr@, pos, curLevel - 1, curLevelCnt as int); }
@exit
proof { bt_done(T, N, visited@, levelSet@, levelPtr@, pos, curLevel as int); }
