@unit bcscmatrix_new_csc_i32_vec
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name BCSCMatrix
@cls BCSCMatrix
@kind ctor
@sig void (CSC *, int, int *)
@props P25
@uses bfill snodes
@requires
0 < A.n < i32::MAX, lowcols(A.p@, A.i@, A.n as int), A.x@.len() >= A.p@[A.n as int], 0 < nodes, supernodes@.len() == nodes + 1,
bl_ok(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: supernodes@, m: nodes as int }),

bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: supernodes@, m: nodes as int }, nodes as int) <= i32::MAX,
@ensures
res.M.n == A.n, res.M.m == A.m, res.M.nodes == nodes, res.M.supernodes@ == supernodes@,
stored(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: supernodes@, m: nodes as int }, A.x@, res.M),
@entry
proof { bl_ends(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: supernodes@, m: nodes as int }); }
@before b_generate\(.*
proof { assert(this.M.supernodes@ =~= supernodes@); }
