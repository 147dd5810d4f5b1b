@unit getFinalScheduleDAG
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name getFinalScheduleDAG
@props P11
@uses gdag
@requires
sched_shape(final_level_no as int, final_level_ptr@, final_part_ptr@, n as int), 0 <= n < i32::MAX, is_perm(final_node_ptr@, n as int), gwf(orig_DAG_ptr@, orig_DAG_set@, n as int),
@ensures
group_ptr@.len() == *final(ngroups) + 1, group_ptr@[0] == 0, rises(group_ptr@), group_ptr@[*final(ngroups) as int] == n, group_set@.len() == n,
forall|k: int| 0 <= k < n ==> #[trigger] group_set@[k] == final_node_ptr@[k],
forall|j: int| 0 <= j < final_level_ptr@[final_level_no as int] ==> #[trigger] part_kept(group_ptr@, final_part_ptr@, j),
exists|inv: Seq<i32>| #[trigger] group_graph(DAG_ptr@, DAG_set@, group_ptr@, group_set@, inv, orig_DAG_ptr@, orig_DAG_set@, *final(ngroups) as int),
@pre 1
proof { reveal(parts_kept); assert(final_level_ptr@[0] <= final_level_ptr@[final_level_no as int]); }
@loop 1
invariant
    0 <= i1 <= final_level_no, sched_shape(final_level_no as int, final_level_ptr@, final_part_ptr@, n as int), n < i32::MAX, is_perm(final_node_ptr@, n as int), group_set@.len() == n, group_ptr@.len() > 0, parts_kept(group_ptr@, final_part_ptr@, final_level_ptr@[i1 as int] as int), node_cnt == final_part_ptr@[final_level_ptr@[i1 as int] as int], group_ptr@.last() == node_cnt,
    forall|k: int| 0 <= k < node_cnt ==> #[trigger] group_set@[k] == final_node_ptr@[k],
decreases final_level_no - i1,
@head 1
proof { assert(final_level_ptr@[0] <= final_level_ptr@[i1 as int]); assert(final_level_ptr@[i1 as int] <= final_level_ptr@[i1 + 1]); assert(final_level_ptr@[i1 + 1] <= final_level_ptr@[final_level_no as int]); }
@loop 1.1
invariant
    0 <= i1 < final_level_no, sched_shape(final_level_no as int, final_level_ptr@, final_part_ptr@, n as int), n < i32::MAX, is_perm(final_node_ptr@, n as int), group_set@.len() == n, 0 <= final_level_ptr@[i1 as int] <= j1 <= final_level_ptr@[i1 + 1], final_level_ptr@[i1 + 1] <= final_level_ptr@[final_level_no as int], group_ptr@.len() > 0,
    parts_kept(group_ptr@, final_part_ptr@, j1 as int), node_cnt == final_part_ptr@[j1 as int], group_ptr@.last() == node_cnt,
    forall|k: int| 0 <= k < node_cnt ==> #[trigger] group_set@[k] == final_node_ptr@[k],
decreases final_level_ptr@[i1 + 1] - j1,
@head 1.1
let ghost g0 = group_ptr@;
proof { let m = final_level_ptr@[final_level_no as int] as int; assert(final_part_ptr@[0] <= final_part_ptr@[j1 as int]); assert(final_part_ptr@[j1 as int] <= final_part_ptr@[j1 + 1]); assert(final_part_ptr@[j1 + 1] <= final_part_ptr@[m]); }
@loop 1.1.1
invariant
    0 <= final_part_ptr@[j1 as int] <= k1 <= final_part_ptr@[j1 + 1], final_part_ptr@[j1 + 1] <= n, 0 <= j1 < final_part_ptr@.len() - 1, n < i32::MAX, is_perm(final_node_ptr@, n as int), group_set@.len() == n, node_cnt == k1,
    forall|k: int| 0 <= k < node_cnt ==> #[trigger] group_set@[k] == final_node_ptr@[k],
decreases final_part_ptr@[j1 + 1] - k1,
@tail 1.1
proof { parts_step(g0, group_ptr@, final_part_ptr@, j1 as int); }
@post 1
proof {
    reveal(parts_kept);
    rises_len(group_ptr@);
    assert(is_perm(group_set@, n as int)) by {
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] group_set@[a] != #[trigger] group_set@[b] by { assert(final_node_ptr@[a] != final_node_ptr@[b]); }
    }
}
