@unit get_tree_height_bruteforce
@src utils/sparse_utilities.cpp
@ns sym_lib
@name get_tree_height_bruteforce
@props P02
@uses tree
@callee get_node_depth=get_node_depth
@requires
forest(tree@, n as int),
weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int),
@ensures
forall|v: int| 0 <= v < n ==> #[trigger] pathlen(tree@, weight@, n as int, v) <= res,
(res == 0 && forall|v: int| 0 <= v < n ==> #[trigger] pathlen(tree@, weight@, n as int, v) <= 0) || exists|v: int| 0 <= v < n && #[trigger] pathlen(tree@, weight@, n as int, v) == res,
@loop 1
invariant
    0 <= i <= n, forest(tree@, n as int), weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int),
    forall|v: int| 0 <= v < i ==> #[trigger] pathlen(tree@, weight@, n as int, v) <= maxLen,
    maxLen == 0 || exists|v: int| 0 <= v < n && #[trigger] pathlen(tree@, weight@, n as int, v) == maxLen,
decreases n - i,
@tail 1
assert(pathlen(tree@, weight@, n as int, i as int) == ltmp);
