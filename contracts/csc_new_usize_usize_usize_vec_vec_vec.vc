@unit csc_new_usize_usize_usize_vec_vec_vec
@src utils/sparse_utilities.cpp
@ns sym_lib
@name CSC
@cls CSC
@kind ctor
@sig void (size_t, size_t, size_t, int *, int *, double *)
@ensures
res.m == M, res.n == N, res.nnz == NNZ, res.p@ == Ap@, res.i@ == Ai@, res.x@ == Ax@,
res.is_pattern == false, res.pre_alloc == true,
