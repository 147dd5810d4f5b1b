@unit compute_nnz_per_col
@src utils/sparse_utilities.cpp
@ns sym_lib
@name compute_nnz_per_col
@props P19
@uses csc
@requires
A.n < i32::MAX, A.n > 0 ==> mono(A.p@, A.n as int), A.p@.len() > A.n, old(nnz_cnt)@.len() >= A.n,
@ensures
nnz_cnt@.len() == old(nnz_cnt)@.len(),
forall|c: int| 0 <= c < A.n ==> #[trigger] nnz_cnt@[c] == i2f_s(A.p@[c + 1] - A.p@[c]),
@loop 1
invariant
    0 <= i <= A.n, nnz_cnt@.len() == old(nnz_cnt)@.len(),
    forall|c: int| 0 <= c < i ==> #[trigger] nnz_cnt@[c] == i2f_s(A.p@[c + 1] - A.p@[c]),
decreases A.n - i,
