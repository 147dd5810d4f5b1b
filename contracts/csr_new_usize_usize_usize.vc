@unit csr_new_usize_usize_usize
@src utils/sparse_utilities.cpp
@ns sym_lib
@name CSR
@cls CSR
@kind ctor
@sig void (size_t, size_t, size_t)
@requires
M < 0xffff_ffff_ffff_ffff,
@ensures
res.m == M, res.n == N, res.nnz == NNZ, res.pre_alloc == false,
res.p@.len() == (if M > 0 { M + 1 } else { 0int }),
forall|k: int| 0 <= k < res.p@.len() ==> #[trigger] res.p@[k] == 0,
res.i@.len() == NNZ,
forall|k: int| 0 <= k < res.i@.len() ==> #[trigger] res.i@[k] == 0,
res.x@.len() == NNZ,
res.is_pattern == false, res.stype == 0,
