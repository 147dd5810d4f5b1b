@unit csc_new_usize_usize_usize_bool
@src utils/sparse_utilities.cpp
@ns sym_lib
@name CSC
@cls CSC
@kind ctor
@sig void (size_t, size_t, size_t, bool)
@requires
N < 0xffff_ffff_ffff_ffff,
@ensures
res.m == M, res.n == N, res.nnz == NNZ, res.pre_alloc == false,
res.p@.len() == (if N > 0 { N + 1 } else { 0int }),
forall|k: int| 0 <= k < res.p@.len() ==> #[trigger] res.p@[k] == 0,
res.i@.len() == NNZ,
forall|k: int| 0 <= k < res.i@.len() ==> #[trigger] res.i@[k] == 0,
res.x@.len() == (if ip { 0int } else { NNZ as int }),
res.is_pattern == ip,
res.stype == 0,
