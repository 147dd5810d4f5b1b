@unit bcscmatrix_new_csc
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name BCSCMatrix
@cls BCSCMatrix
@kind ctor
@sig void (CSC *)
@props P25
@uses bfill snodes
@requires
0 < A.n < i32::MAX, gwf(A.p@, A.i@, A.n as int), lowcols(A.p@, A.i@, A.n as int), A.x@.len() >= A.p@[A.n as int],

forall|s: Seq<i32>, m: int| #[trigger] sn_lo(Sn { p: A.p@, i: A.i@, n: A.n as int, lim: A.n as int }, s, m) ==> bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: s, m }, m) <= i32::MAX,
@ensures
res.M.n == A.n, res.M.m == A.m,
sn_lo(Sn { p: A.p@, i: A.i@, n: A.n as int, lim: A.n as int }, res.M.supernodes@, res.M.nodes as int),
stored(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: res.M.supernodes@, m: res.M.nodes as int }, A.x@, res.M),
bl_ok(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: res.M.supernodes@, m: res.M.nodes as int }),
@before b_generate\(.*
let ghost d = Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int };
proof { assert(bl_ok(d)) by { reveal(bl_ok); reveal(sn_ok); } }
