@unit tree_to_csc
@src utils/sparse_utilities.cpp
@ns sym_lib
@name tree_to_csc
@props P22
@uses csc tree
@requires
1 <= n < i32::MAX, forest(tree@, n as int),
@ensures
res.n == n, res.m == n, res.p@.len() == n + 1, res.i@.len() == n, res.nnz == res.p@[n as int],
forall|v: int| 0 <= v <= n ==> #[trigger] res.p@[v] == start(tree@, n as int, v),
forall|l: int| 0 <= l < n && tree@[l] >= 0 ==> res.i@[#[trigger] slot(tree@, n as int, l)] == l,
forall|v: int, q: int| 0 <= v < n && res.p@[v] <= q < res.p@[v + 1] ==> #[trigger] in_bucket(tree@, res.i@, v, q),
@after populate_children\(.*
proof { start_any(tree@, n as int, n as int, n as int); }
