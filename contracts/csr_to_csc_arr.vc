@unit csr_to_csc_arr
@src utils/sparse_utilities.cpp
@ns sym_lib
@name csr_to_csc
@sig int (int, int, int *, int *, double *, int *&, int *&, double *&)
@props P14
@uses transp
@requires
0 <= nrow < i32::MAX, 0 <= ncol < i32::MAX, ptrs(Ap@, nrow as int), Ap@[nrow as int] < i32::MAX, Ai@.len() >= Ap@[nrow as int], Ax@.len() >= Ap@[nrow as int],
forall|e: int| 0 <= e < Ap@[nrow as int] ==> 0 <= #[trigger] Ai@[e] < ncol,
@ensures
res == 0, colptr@.len() == ncol + 1, rowind@.len() == Ap@[nrow as int], values@.len() == Ap@[nrow as int],
is_transpose(Ap@, Ai@, nrow as int, colptr@, rowind@, ncol as int),
tr_vals(Ai@, Ax@, Ap@[nrow as int] as int, values@, Ap@[nrow as int] as int),
