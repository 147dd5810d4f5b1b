@unit fs_csr_groups
@src src/group_utils.cpp
@ns sym_lib
@name fs_csr_inspector_dep
@sig (int, int *, int *, int *, int *, int *
@props P10
@uses deps
@requires
groups_in(groupPtr@, groupSet@, gInv@, ngroup as int, Lp@.len() - 1), gwf(Lp@, Li@, Lp@.len() - 1), forall|c: int| 0 <= c < Lp@.len() - 1 ==> #[trigger] Lp@[c] < Lp@[c + 1], old(DAG)@.len() >= ngroup, Lp@.len() <= i32::MAX,
@ensures
DAG@.len() == old(DAG)@.len(),
forall|v: int, w: i32| 0 <= v < DAG@.len() ==> #[trigger] times(DAG@, v, w) == times(old(DAG)@, v, w) + dep_g(groupPtr@, groupSet@, gInv@, Lp@, Li@, ngroup as int, true, v, w as int),
@entry
let ghost d0 = DAG@; let ghost n = Lp@.len() - 1;
proof { at_init(DAG@, groupPtr@, groupSet@, gInv@, Lp@, Li@, 0, 0, true); }
@loop 1
invariant
    0 <= i <= ngroup, groups_in(groupPtr@, groupSet@, gInv@, ngroup as int, n), gwf(Lp@, Li@, n), forall|c: int| 0 <= c < n ==> #[trigger] Lp@[c] < Lp@[c + 1], DAG@.len() >= ngroup, n == Lp@.len() - 1, n < i32::MAX,
    at_g(DAG@, d0, groupPtr@, groupSet@, gInv@, Lp@, Li@, i as int, true),
decreases ngroup - i,
@head 1
let ghost d1 = DAG@;
proof { at_init(DAG@, groupPtr@, groupSet@, gInv@, Lp@, Li@, i as int, groupPtr@[i as int] as int, true); assert(groupPtr@[0] <= groupPtr@[i as int]); assert(groupPtr@[i as int] <= groupPtr@[i + 1]); assert(groupPtr@[i + 1] <= groupPtr@[ngroup as int]); }
@loop 1.1
invariant
    0 <= i < ngroup, groups_in(groupPtr@, groupSet@, gInv@, ngroup as int, n), gwf(Lp@, Li@, n), forall|c: int| 0 <= c < n ==> #[trigger] Lp@[c] < Lp@[c + 1], DAG@.len() >= ngroup, n == Lp@.len() - 1, n < i32::MAX, 0 <= groupPtr@[i as int] <= j <= groupPtr@[i + 1], groupPtr@[i + 1] <= groupPtr@[ngroup as int],
    at_m(DAG@, d1, groupSet@, gInv@, Lp@, Li@, i as int, groupPtr@[i as int] as int, j as int, true),
decreases groupPtr@[i + 1] - j,
@head 1.1
let ghost d2 = DAG@;
proof { assert(0 <= groupSet@[j as int] < n); let r = groupSet@[j as int] as int; assert(Lp@[0] <= Lp@[r]); assert(Lp@[r] < Lp@[r + 1]); assert(Lp@[r + 1] <= Lp@[n]); at_init(DAG@, groupPtr@, groupSet@, gInv@, Lp@, Li@, i as int, first_e(Lp@, r, true), true); }
@loop 1.1.1
invariant
    0 <= i < ngroup, groups_in(groupPtr@, groupSet@, gInv@, ngroup as int, n), gwf(Lp@, Li@, n), forall|c: int| 0 <= c < n ==> #[trigger] Lp@[c] < Lp@[c + 1], DAG@.len() >= ngroup, n == Lp@.len() - 1, n < i32::MAX, 0 <= groupPtr@[i as int] <= j < groupPtr@[i + 1], iidx == groupSet@[j as int], 0 <= iidx < n, 0 <= Lp@[iidx as int] <= k <= Lp@[iidx + 1] - 1, Lp@[iidx + 1] <= Lp@[n],
    at_e(DAG@, d2, gInv@, Li@, i as int, Lp@[iidx as int] as int, k as int, true),
decreases Lp@[iidx + 1] - k,
@head 1.1.1
let ghost d3 = DAG@;
proof { assert(0 <= Li@[k as int] < n); assert(0 <= gInv@[Li@[k as int] as int] < ngroup); }
@tail 1.1.1
proof { at_e_step(d3, DAG@, d2, gInv@, Li@, i, Lp@[iidx as int] as int, k as int, true, sid); }
@tail 1.1
proof { at_m_step(DAG@, d2, d1, groupSet@, gInv@, Lp@, Li@, i as int, groupPtr@[i as int] as int, j as int, true); }
@tail 1
proof { at_g_step(DAG@, d1, d0, groupPtr@, groupSet@, gInv@, Lp@, Li@, i as int, true); }
@exit
proof { reveal(at_g); }
