@unit diagonal
@src utils/sparse_utilities.cpp
@ns sym_lib
@name diagonal
@props P22
@uses csc
@requires
1 <= n < i32::MAX,
@ensures
res.n == n, res.m == n, res.nnz == n, res.p@.len() == n + 1, res.i@.len() == n, res.x@.len() == n,
forall|k: int| 0 <= k <= n ==> #[trigger] res.p@[k] == k,
forall|k: int| 0 <= k < n ==> #[trigger] res.i@[k] == k,
forall|k: int| 0 <= k < n ==> #[trigger] res.x@[k] == val,
@loop 1
invariant
    0 <= i <= n, A.n == n, A.m == n, A.nnz == n, A.p@.len() == n + 1, A.i@.len() == n, A.x@.len() == n,
    forall|k: int| 0 <= k <= i ==> #[trigger] A.p@[k] == k,
    forall|k: int| 0 <= k < i ==> #[trigger] A.i@[k] == k,
    forall|k: int| 0 <= k < i ==> #[trigger] A.x@[k] == val,
decreases n - i,
