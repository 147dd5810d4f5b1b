@unit csc_new_usize_usize_usize_vec_vec_i32
@src utils/sparse_utilities.cpp
@ns sym_lib
@name CSC
@cls CSC
@kind ctor
@sig void (size_t, size_t, size_t, int *, int *, int)
@ensures
res.m == M, res.n == N, res.nnz == NNZ, res.p@ == Ap@, res.i@ == Ai@, res.x@.len() == 0,
res.is_pattern == true, res.pre_alloc == true, res.stype == st,
