@unit copy_sparse
@src utils/sparse_utilities.cpp
@ns sym_lib
@name copy_sparse
@props P22
@uses builders
@requires
1 <= A.n < i32::MAX, A.nnz < i32::MAX, A.p@.len() > A.n, A.i@.len() >= A.nnz, A.x@.len() == 0 || A.x@.len() == A.nnz,
@ensures
same_csc(res, *A),
@loop 1
invariant
    0 <= i <= A.n + 1, clone.m == A.m, clone.n == A.n, clone.nnz == A.nnz, clone.p@.len() == A.n + 1, clone.i@.len() == A.nnz, clone.x@.len() == A.x@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] clone.p@[k] == A.p@[k],
decreases A.n + 1 - i,
@loop 2
invariant
    0 <= j <= A.nnz, clone.m == A.m, clone.n == A.n, clone.nnz == A.nnz, clone.p@.len() == A.n + 1, clone.i@.len() == A.nnz, clone.x@.len() == A.x@.len(),
    forall|k: int| 0 <= k <= A.n ==> #[trigger] clone.p@[k] == A.p@[k],
    forall|k: int| 0 <= k < j ==> #[trigger] clone.i@[k] == A.i@[k],
    forall|k: int| 0 <= k < j && A.x@.len() > 0 ==> #[trigger] clone.x@[k] == A.x@[k],
decreases A.nnz - j,
