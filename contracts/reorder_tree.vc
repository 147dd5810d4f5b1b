@unit reorder_tree
@src utils/lfactor_creation.cpp
@ns sym_lib
@name reorder_tree
@props P16
@uses perm
@requires
n >= 0,
n <= old(parent)@.len(), n <= old(Wi)@.len(),
is_perm(Post@, n as int), is_perm(ipost@, n as int), inverses(ipost@, Post@, n as int),
forall|k: int| 0 <= k < n ==> -1 <= #[trigger] old(parent)@[k] < n,
@ensures
final(parent)@.len() == old(parent)@.len(),
// v's parent w becomes ipost[v]'s parent ipost[w]; roots stay roots
forall|v: int| 0 <= v < n ==> final(parent)@[ipost@[v] as int] == (if #[trigger] old(parent)@[v] == -1 { -1 } else { ipost@[old(parent)@[v] as int] as int }),
forall|k: int| n <= k < old(parent)@.len() ==> #[trigger] final(parent)@[k] == old(parent)@[k],
@lib
pub open spec fn relab(par: Seq<i32>, ip: Seq<i32>, v: int) -> int { if par[v] == -1 { -1 } else { ip[par[v] as int] as int } }
@loop 1
invariant
    0 <= newchild <= n, parent@ == old(parent)@, Wi@.len() == old(Wi)@.len(),
    forall|k: int| 0 <= k < newchild ==> #[trigger] Wi@[k] == relab(old(parent)@, ipost@, Post@[k] as int),
decreases n - newchild,
@loop 2
invariant
    0 <= k <= n, parent@.len() == old(parent)@.len(), Wi@.len() == old(Wi)@.len(),
    forall|j: int| 0 <= j < n ==> #[trigger] Wi@[j] == relab(old(parent)@, ipost@, Post@[j] as int),
    forall|j: int| 0 <= j < k ==> #[trigger] parent@[j] == Wi@[j],
    forall|j: int| n <= j < old(parent)@.len() ==> #[trigger] parent@[j] == old(parent)@[j],
decreases n - k,
@exit
proof {
    assert forall|v: int| 0 <= v < n implies parent@[ipost@[v] as int] == (if #[trigger] old(parent)@[v] == -1 { -1 } else { ipost@[old(parent)@[v] as int] as int }) by {
        let q = ipost@[v] as int;
        assert(Post@[q] == v);
        assert(Wi@[q] == relab(old(parent)@, ipost@, Post@[q] as int));
    }
}
