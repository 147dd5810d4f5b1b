@unit b_generate
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name generateBCSC
@props P25
@uses bfill
@requires
0 < A.n < i32::MAX, A.n == old(this).M.n, bl_ok(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }), lowcols(A.p@, A.i@, A.n as int), A.x@.len() >= A.p@[A.n as int],
bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int) <= i32::MAX,
@ensures
stored(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, A.x@, final(this).M),
final(this).M.n == old(this).M.n, final(this).M.m == old(this).M.m, final(this).M.supernodes@ == old(this).M.supernodes@, final(this).M.nodes == old(this).M.nodes,
@entry
let ghost d = Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int };
proof { bl_ends(d); bat_mono(d, 0, d.m); }
