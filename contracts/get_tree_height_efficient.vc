@unit get_tree_height_efficient
@src utils/sparse_utilities.cpp
@ns sym_lib
@name get_tree_height_efficient
@props P02
@uses tree
@opts complex
@requires
n >= 0, forest(tree@, n as int), counts(tree@, nChild1@, n as int), weight@.len() == 0,
@ensures
forall|v: int| 0 <= v < n ==> #[trigger] depth(tree@, n as int, v) <= res,
res == 0 || exists|v: int| 0 <= v < n && #[trigger] depth(tree@, n as int, v) == res,
@loop 1
invariant
    0 <= i <= n, forest(tree@, n as int), counts(tree@, nChild1@, n as int), weight@.len() == 0, touch@.len() == n,
    0 <= maxLen < n || maxLen == 0,
    forall|v: int| 0 <= v < n && touch@[v] != 0 ==> #[trigger] touch@[v] + depth(tree@, n as int, v) <= maxLen,
    forall|v: int| 0 <= v < i && nChild1@[v] == 0 ==> #[trigger] depth(tree@, n as int, v) <= maxLen,
    maxLen == 0 || exists|v: int| 0 <= v < n && #[trigger] depth(tree@, n as int, v) == maxLen,
decreases n - i,
@head 1
proof { depth_bound(tree@, n as int, i as int); }
@loop 1.1
invariant_except_break
    level + depth(tree@, n as int, node as int) == depth(tree@, n as int, i as int),
invariant
    0 <= i < n, i <= node < n, touch@.len() == n, 0 <= level < n, level <= depth(tree@, n as int, i as int), depth(tree@, n as int, i as int) < n,
    forall|v: int| 0 <= v < n && touch@[v] != 0 ==> #[trigger] touch@[v] + depth(tree@, n as int, v) <= maxLen || touch@[v] + depth(tree@, n as int, v) <= depth(tree@, n as int, i as int),
ensures
    level == depth(tree@, n as int, i as int) || (level <= maxLen && depth(tree@, n as int, i as int) <= maxLen),
decreases n - node,
@head 1.1
proof { depth_bound(tree@, n as int, tree@[node as int] as int); }
@exit
proof { leaf_bound_all(tree@, nChild1@, n as int, maxLen as int); }
