@unit Group_DAG
@src src/group_utils.cpp
@ns sym_lib
@name Group_DAG
@props P11 P10
@uses gdag
@requires
groups_in(groupPtr@, groupSet@, groupInv@, ngroup as int, DAG@.len() as int), forall|v: int, k: int| 0 <= v < DAG@.len() && 0 <= k < DAG@[v]@.len() ==> 0 <= #[trigger] DAG@[v]@[k] < DAG@.len(),
@ensures
res@.len() == ngroup, forall|g: int| 0 <= g < ngroup ==> strict((#[trigger] res@[g])@) && res@[g]@.to_set() == yset(DAG@, groupSet@, groupInv@, g, groupPtr@[g] as int, groupPtr@[g + 1] as int),
@entry
let ghost n = DAG@.len() as int;
@loop 1
invariant
    0 <= i <= ngroup, groups_in(groupPtr@, groupSet@, groupInv@, ngroup as int, n), n == DAG@.len(), forall|v: int, k: int| 0 <= v < n && 0 <= k < DAG@[v]@.len() ==> 0 <= #[trigger] DAG@[v]@[k] < n, gDAG@.len() == i,
    forall|g: int| 0 <= g < i ==> strict((#[trigger] gDAG@[g])@) && gDAG@[g]@.to_set() == yset(DAG@, groupSet@, groupInv@, g, groupPtr@[g] as int, groupPtr@[g + 1] as int),
decreases ngroup - i,
@head 1
let ghost mut l2: Seq<i32> = Seq::empty();
proof { assert(groupPtr@[0] <= groupPtr@[i as int]); assert(groupPtr@[i as int] <= groupPtr@[i + 1]); assert(groupPtr@[i + 1] <= groupPtr@[ngroup as int]); }
@pre 1.1
proof { assert(tarray@.to_set() =~= Set::<i32>::empty()); }
@loop 1.1
invariant
    0 <= i < ngroup, groups_in(groupPtr@, groupSet@, groupInv@, ngroup as int, n), n == DAG@.len(), forall|v: int, k: int| 0 <= v < n && 0 <= k < DAG@[v]@.len() ==> 0 <= #[trigger] DAG@[v]@[k] < n, 0 <= groupPtr@[i as int] <= j <= groupPtr@[i + 1], groupPtr@[i + 1] <= groupPtr@[ngroup as int],
    tarray@.to_set() == yset(DAG@, groupSet@, groupInv@, i as int, groupPtr@[i as int] as int, j as int),
decreases groupPtr@[i + 1] - j,
@head 1.1
let ghost ys = yset(DAG@, groupSet@, groupInv@, i as int, groupPtr@[i as int] as int, j as int);
proof { assert(0 <= groupSet@[j as int] < n); assert(ys.union(Set::<i32>::empty()) =~= ys); }
@loop 1.1.1
invariant
    0 <= i < ngroup, groups_in(groupPtr@, groupSet@, groupInv@, ngroup as int, n), n == DAG@.len(), forall|v: int, k: int| 0 <= v < n && 0 <= k < DAG@[v]@.len() ==> 0 <= #[trigger] DAG@[v]@[k] < n, 0 <= idx < n, 0 <= _r1 <= DAG@[idx as int]@.len(),
    tarray@.to_set() == ys.union(xset(groupInv@, DAG@[idx as int]@, i as int, _r1 as int)),
decreases DAG@[idx as int]@.len() - _r1,
@head 1.1.1
let ghost t0 = tarray@; let ghost k0 = _r1 as int;
proof { assert(0 <= DAG@[idx as int]@[k0] < n); }
@end 1.1.1
proof {
    push_set(t0, groupInv@[DAG@[idx as int]@[k0] as int]);
    assert(ys.union(xset(groupInv@, DAG@[idx as int]@, i as int, k0)).insert(groupInv@[DAG@[idx as int]@[k0] as int]) =~= ys.union(xset(groupInv@, DAG@[idx as int]@, i as int, k0).insert(groupInv@[DAG@[idx as int]@[k0] as int])));
}
@post 1.1
proof { l2 = tarray@; }
@before dedup(&mut tarray);
proof { perm_set(tarray@, l2); }
