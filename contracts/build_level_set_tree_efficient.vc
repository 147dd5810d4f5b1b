@unit build_level_set_tree_efficient
@src utils/sparse_inspector.cpp
@ns sym_lib
@name build_level_set_tree_efficient
@props P02
@uses tlevel
@opts complex isolate
@requires
1 <= n <= i32::MAX - 1, forest(tree@, n as int), counts(tree@, nChild1@, n as int), old(levelPtr)@.len() >= n + 1, old(levelPtr)@[0] == 0, old(levelPtr)@[1] == 0, old(levelSet)@.len() >= n, old(node2level)@.len() >= n, forall|v: int| 0 <= v < n ==> #[trigger] old(node2level)@[v] == 0,
@ensures
tree_levels(tree@, n as int, levelPtr@, levelSet@, res as int), is_lev(tree@, node2level@, n as int),
@entry
let ghost T = tree@; let ghost C = nChild1@; let ghost N = n as int;
let ghost mut NL: Seq<i32> = T;
@pre 1
proof { nl_init(T, C, node2level@, N); cnt_bounds(C, 0, 0); }
@loop 1
invariant
    T == tree@, C == nChild1@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), counts(T, C, N), 0 <= i <= n, levelPtr@.len() >= n + 1, levelSet@.len() >= n, levelPtr@[0] == 0,
    nl_at(T, C, node2level@, N, i as int, maxLen as int), levelPtr@[1] == cnt(C, i as int, 0), forall|k: int| 0 <= k < i && C[k] == 0 ==> levelSet@[#[trigger] cnt(C, k, 0)] == k,
decreases n - i,
@head 1
let ghost s0 = levelSet@;
proof { cnt_bounds(C, i as int, 0); if C[i as int] != 0 { nl_skip(T, C, node2level@, N, i as int, maxLen as int); } else { walk_begin(T, C, node2level@, N, i as int, maxLen as int); if T[i as int] < 0 { walk_top(T, C, node2level@, N, i as int, maxLen as int, i as int, 0); } } }
@loop 1.1
invariant_except_break
    nl_walk(T, C, node2level@, N, i as int, maxLen as int, node as int, level as int), T[node as int] < 0 ==> nl_done(T, C, node2level@, N, i as int, maxLen as int, level as int),
invariant
    T == tree@, C == nChild1@, N == n, 1 <= n <= i32::MAX - 1, forest(T, N), counts(T, C, N), 0 <= i < n, 0 <= node < n, 0 <= level < n,
ensures
    nl_done(T, C, node2level@, N, i as int, maxLen as int, level as int),
decreases n - node,
@head 1.1
let ghost node0 = node as int;
proof { tlev_up(T, N, node0); tlev_bound(T, N, T[node0] as int); assert(node2level@[T[node0] as int] <= tlev(T, N, T[node0] as int)); assert(node2level@[node0] <= tlev(T, N, node0));
    if level + 1 < node2level@[T[node0] as int] { walk_stop(T, C, node2level@, N, i as int, maxLen as int, node0, level as int); } else { walk_step(T, C, node2level@, N, i as int, maxLen as int, node0, level as int); } }
@tail 1.1
proof { if T[node as int] < 0 { walk_top(T, C, node2level@, N, i as int, maxLen as int, node as int, level as int); } }
@tail 1
proof { assert forall|k: int| 0 <= k < i + 1 && C[k] == 0 implies levelSet@[#[trigger] cnt(C, k, 0)] == k by { cnt_bounds(C, k, 0); cnt_mono(C, k, i as int, 0); if k < i { cnt_strict(C, k, i as int); } } }
@post 1
proof { NL = node2level@; nl_final(T, C, NL, N, maxLen as int); zero_cnt(C, NL, N, N); }
@pre 2
proof { assert forall|v: int| 0 <= v < n implies #[trigger] level_cnt@[v] == cnt(NL, 0, v) by { } }
@loop 2
invariant
    N == n, 1 <= n <= i32::MAX - 1, NL == node2level@, NL.len() >= n, 0 <= j <= n, level_cnt@.len() == n, forall|v: int| 0 <= v < n ==> 0 <= #[trigger] NL[v] < n, forall|v: int| 0 <= v < n ==> #[trigger] level_cnt@[v] == cnt(NL, j as int, v),
decreases n - j,
@head 2
proof { cnt_bounds(NL, j as int, NL[j as int] as int); }
@pre 3
proof { start_mono(NL, N, 0, 1); assert(start(NL, N, 1) == cnt(NL, N, 0)) by { assert(start(NL, N, 0) == 0); } }
@loop 3
invariant
    N == n, 1 <= n <= i32::MAX - 1, NL == node2level@, 1 <= num_levels <= n, levelPtr@.len() >= n + 1, 2 <= k, k <= num_levels + 1 || k == 2, level_cnt@.len() == n, levelPtr@[0] == 0, levelPtr@[1] == start(NL, N, 1),
    forall|v: int| 1 <= v < k ==> #[trigger] levelPtr@[v] == start(NL, N, v),
    forall|v: int| k - 1 <= v < n ==> #[trigger] level_cnt@[v] == cnt(NL, N, v), forall|v: int| 1 <= v < k - 1 ==> #[trigger] level_cnt@[v] == 0,
decreases num_levels + 1 - k,
@head 3
proof { cnt_bounds(NL, N, k - 1); start_any(NL, N, k as int, N); start_any(NL, N, k - 1, N); assert(start(NL, N, k as int) == start(NL, N, k - 1) + cnt(NL, N, k - 1)); }
@pre 4
proof {
    assert forall|v: int| 0 <= v <= num_levels implies #[trigger] levelPtr@[v] == start(NL, N, v) by { if v == 0 { } }
    assert forall|k: int| 0 <= k < N && NL[k] == 0 implies levelSet@[#[trigger] slot(NL, N, k)] == k by { zero_cnt(C, NL, N, k); zero_slot(NL, N, k); assert(C[k] == 0); }
    assert forall|v: int| 1 <= v < num_levels implies #[trigger] level_cnt@[v] == cnt(NL, 0, v) by { }
}
@loop 4
invariant
    N == n, 1 <= n <= i32::MAX - 1, NL == node2level@, NL.len() >= n, 0 <= l <= n, 1 <= num_levels <= n, levelPtr@.len() >= n + 1, level_cnt@.len() == n, levelSet@.len() >= n, forall|v: int| 0 <= v < n ==> 0 <= #[trigger] NL[v] < num_levels,
    forall|v: int| 0 <= v <= num_levels ==> #[trigger] levelPtr@[v] == start(NL, N, v), forall|v: int| 1 <= v < num_levels ==> #[trigger] level_cnt@[v] == cnt(NL, l as int, v),
    forall|k: int| 0 <= k < N && (NL[k] == 0 || k < l) ==> levelSet@[#[trigger] slot(NL, N, k)] == k,
decreases n - l,
@head 4
proof { let v = NL[l as int] as int; cnt_bounds(NL, l as int, v); cnt_mono(NL, l as int, N, v); slot_in(NL, N, l as int, N); assert(levelPtr@[v] == start(NL, N, v)); start_any(NL, N, v, N);
    slot_inj_all(NL, N, N); assert forall|k: int| 0 <= k < N implies 0 <= #[trigger] slot(NL, N, k) < N by { slot_in(NL, N, k, N); } }
@exit
proof { tl_done(T, NL, N, levelPtr@, levelSet@, maxLen as int); }
