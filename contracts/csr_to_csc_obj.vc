@unit csr_to_csc_obj
@src utils/sparse_utilities.cpp
@ns sym_lib
@name csr_to_csc
@sig CSC *(CSR *)
@props P14
@uses transp csc
@requires
wfr(*A), A.m < i32::MAX, 1 <= A.n < i32::MAX, A.p@[A.m as int] < i32::MAX, A.x@.len() >= A.p@[A.m as int],
forall|e: int| 0 <= e < A.p@[A.m as int] ==> 0 <= #[trigger] A.i@[e] < A.n,
@ensures
res.m == A.m, res.n == A.n, res.nnz == A.p@[A.m as int], res.stype == A.stype, res.is_pattern == false,
is_transpose(A.p@, A.i@, A.m as int, res.p@, res.i@, A.n as int),
tr_vals(A.i@, A.x@, A.p@[A.m as int] as int, res.x@, A.p@[A.m as int] as int),
