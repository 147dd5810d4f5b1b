@unit b_calcSize
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name calcSize
@props P25
@uses blocks
@opts complex isolate spinoff
@requires
A.n < i32::MAX, A.n == old(this).M.n, bl_ok(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }),
bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int) <= i32::MAX,
@ensures
at_all(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, final(this).M.p@),
res == bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int),
final(this).M == (BCSC { p: final(this).M.p, ..old(this).M }),
@entry
let ghost d = Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int };
proof { bl_ends(d); }
@pre 1
proof { at_init(d, this.M.p@); }
@loop 1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), this.M == (BCSC { p: this.M.p, ..old(this).M }), n == d.n, bl_ok(d), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), temprows@.len() == d.n, bat(d, d.m) <= i32::MAX, d.p[d.n] <= d.i.len(), 0 <= i <= d.m, nnz == bat(d, i as int), nomark(in_block@, d.n), at_upto(d, this.M.p@, i as int), this.M.p@.len() == d.n + 1,
decreases d.m - i,
@head 1
let ghost lo = d.p[d.sn[i as int] as int] as int; let ghost hi = d.p[d.sn[i + 1] as int] as int;
proof { bl_at(d, i as int); at_step(d, this.M.p@, i as int, nnz); mk_init(d.i, lo, in_block@, d.n, temprows@); bat_part(d, i as int, lo); }
@loop 1.1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), this.M == (BCSC { p: this.M.p, ..old(this).M }), n == d.n, bl_ok(d), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), temprows@.len() == d.n, bat(d, d.m) <= i32::MAX, d.p[d.n] <= d.i.len(), 0 <= i < d.m, at_upto(d, this.M.p@, i + 1), this.M.p@.len() == d.n + 1, lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], vals_in(d.i, lo, hi, d.n), width == bw(d, i as int), width > 0, d.sn[i as int] <= j <= d.sn[i + 1], mk(d.i, lo, d.p[j as int] as int, in_block@, d.n), head_is(temprows@, fst(d.i, lo, d.p[j as int] as int)), nrow == fst(d.i, lo, d.p[j as int] as int).len(), nnz == bat(d, i as int) + width * nrow,
decreases d.sn[i + 1] - j,
@head 1.1
proof { bl_at(d, i as int); bl_col(d, i as int, j as int); }
@loop 1.1.1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), this.M == (BCSC { p: this.M.p, ..old(this).M }), n == d.n, bl_ok(d), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), temprows@.len() == d.n, bat(d, d.m) <= i32::MAX, d.p[d.n] <= d.i.len(), 0 <= i < d.m, at_upto(d, this.M.p@, i + 1), this.M.p@.len() == d.n + 1, lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], vals_in(d.i, lo, hi, d.n), width == bw(d, i as int), width > 0, 0 <= d.sn[i as int] <= j < d.sn[i + 1] <= d.n, 0 <= lo <= d.p[j as int] <= p <= d.p[j + 1] <= hi, mk(d.i, lo, p as int, in_block@, d.n), head_is(temprows@, fst(d.i, lo, p as int)), nrow == fst(d.i, lo, p as int).len(), nnz == bat(d, i as int) + width * nrow,
decreases d.p[j + 1] - p,
@head 1.1.1
proof { bl_at(d, i as int); mk_step(d.i, lo, p as int, in_block@, d.n, temprows@); bat_part(d, i as int, p as int); bat_part(d, i as int, p + 1); }
@post 1.1
proof { assert(d.p[j as int] == hi); mr_init(d.i, lo, hi, in_block@, d.n); fst_ok(d.i, lo, hi, d.n); }
@loop 1.2
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), this.M == (BCSC { p: this.M.p, ..old(this).M }), n == d.n, bl_ok(d), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), temprows@.len() == d.n, bat(d, d.m) <= i32::MAX, d.p[d.n] <= d.i.len(), 0 <= i < d.m, at_upto(d, this.M.p@, i + 1), this.M.p@.len() == d.n + 1, lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], vals_in(d.i, lo, hi, d.n), width == bw(d, i as int), width > 0, 0 <= j <= nrow, nrow == bnr(d, i as int), nrow <= d.n, mrest(in_block@, d.n, brow(d, i as int), j as int), head_is(temprows@, brow(d, i as int)), nnz == bat(d, i as int) + bw(d, i as int) * nrow,
    forall|a: int| 0 <= a < brow(d, i as int).len() ==> 0 <= #[trigger] brow(d, i as int)[a] < d.n,
decreases nrow - j,
@head 1.2
proof { mr_step(in_block@, d.n, brow(d, i as int), temprows@, j as int); }
@post 1.2
proof { mr_done(in_block@, d.n, brow(d, i as int)); }
@post 1
proof { at_step(d, this.M.p@, d.m, nnz); }
@exit
proof { at_done(d, this.M.p@); }
