@unit compute_subtree_cost
@src utils/sparse_utilities.cpp
@ns sym_lib
@name compute_subtree_cost
@props P02
@uses tree
@requires
n >= 0, forest(tree@, n as int), weight@.len() >= n,
@ensures
res@.len() == n,
forall|v: int| 0 <= v < n ==> #[trigger] res@[v] == scost(tree@, weight@, v, v),
@loop 1
invariant
    0 <= i <= n, subTreeCost@.len() == n,
    forall|v: int| 0 <= v < i ==> #[trigger] subTreeCost@[v] == weight@[v],
decreases n - i,
@loop 2
invariant
    0 <= i <= n, subTreeCost@.len() == n,
    forall|v: int| 0 <= v < n ==> #[trigger] subTreeCost@[v] == scost(tree@, weight@, v, i as int),
decreases n - i,
@exit
proof { assert forall|v: int| 0 <= v < n implies #[trigger] subTreeCost@[v] == scost(tree@, weight@, v, v) by { scost_stop(tree@, weight@, v, n as int); } }
