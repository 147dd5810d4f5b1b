@unit b_createFormat
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name createFormat
@props P25
@uses bfill
@opts complex isolate spinoff
@requires
A.n < i32::MAX, bl_ok(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }), lowcols(A.p@, A.i@, A.n as int), A.x@.len() >= A.p@[A.n as int],
bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int) <= i32::MAX,
old(this).M.nrows@.len() >= old(this).M.nodes,
old(this).M.i@.len() >= bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int),
old(this).M.x@.len() >= bat(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, old(this).M.nodes as int),
@ensures
rows_are(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, final(this).M.nrows@, old(this).M.nodes as int),
blocks_are(Bl { p: A.p@, i: A.i@, n: A.n as int, sn: old(this).M.supernodes@, m: old(this).M.nodes as int }, A.x@, final(this).M.i@, final(this).M.x@),
final(this).M == (BCSC { i: final(this).M.i, x: final(this).M.x, nrows: final(this).M.nrows, ..old(this).M }),
final(this).M.nrows@.len() == old(this).M.nrows@.len(), final(this).M.i@.len() == old(this).M.i@.len(), final(this).M.x@.len() == old(this).M.x@.len(),
@entry
let ghost d = Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }; let ghost ax = A.x@;
proof { bl_ends(d); bat_mono(d, 0, d.m); }
@pre 1
proof { fi_init(d, ax, this.M.i@, this.M.x@); rw_init(d, this.M.nrows@); }
@loop 1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), 0 <= i <= d.m, queue@.len() == 0, nomark(in_block@, d.n), rows_upto(d, this.M.nrows@, i as int), filled(d, ax, this.M.i@, this.M.x@, i as int, 0, 0), counter == exi(d, i as int, 0, 0).len(),
decreases d.m - i,
@head 1
let ghost lo = d.p[d.sn[i as int] as int] as int; let ghost hi = d.p[d.sn[i + 1] as int] as int;
proof { bl_at(d, i as int); mk_init(d.i, lo, in_block@, d.n, tempvec@); assert(queue@ =~= fst(d.i, lo, lo)); }
@loop 1.1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], 0 <= i < d.m, vals_in(d.i, lo, hi, d.n), 0 <= d.sn[i as int] < d.sn[i + 1] <= d.n, 0 <= lo <= hi, rows_upto(d, this.M.nrows@, i as int), filled(d, ax, this.M.i@, this.M.x@, i as int, 0, 0), counter == exi(d, i as int, 0, 0).len(), d.sn[i as int] <= j <= d.sn[i + 1], mk(d.i, lo, d.p[j as int] as int, in_block@, d.n), queue@ == fst(d.i, lo, d.p[j as int] as int), nrow == queue@.len(),
decreases d.sn[i + 1] - j,
@head 1.1
proof { bl_at(d, i as int); bl_col(d, i as int, j as int); }
@loop 1.1.1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], 0 <= i < d.m, vals_in(d.i, lo, hi, d.n), 0 <= d.sn[i as int] < d.sn[i + 1] <= d.n, 0 <= lo <= hi, rows_upto(d, this.M.nrows@, i as int), filled(d, ax, this.M.i@, this.M.x@, i as int, 0, 0), counter == exi(d, i as int, 0, 0).len(), d.sn[i as int] <= j < d.sn[i + 1], lo <= d.p[j as int] <= p <= d.p[j + 1] <= hi <= d.p[d.n], mk(d.i, lo, p as int, in_block@, d.n), queue@ == fst(d.i, lo, p as int), nrow == queue@.len(),
decreases d.p[j + 1] - p,
@head 1.1.1
proof { mk_step0(d.i, lo, p as int, in_block@, d.n); fst_ok(d.i, lo, p + 1, d.n); fst_ok(d.i, lo, p as int, d.n); }
@post 1.1
proof { assert(d.p[j as int] == hi); bl_at(d, i as int); po_init(d.i, lo, hi, tempvec@, in_block@, d.n); rw_step(d, this.M.nrows@, i as int, nrow); }
@loop 1.2
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], 0 <= i < d.m, vals_in(d.i, lo, hi, d.n), 0 <= d.sn[i as int] < d.sn[i + 1] <= d.n, 0 <= lo <= hi, rows_upto(d, this.M.nrows@, i + 1), filled(d, ax, this.M.i@, this.M.x@, i as int, 0, 0), counter == exi(d, i as int, 0, 0).len(), 0 <= temp_cnt, pops(brow(d, i as int), tempvec@, temp_cnt as int, queue@, in_block@, d.n),
decreases queue@.len(),
@head 1.2
proof { pq_least(queue@); po_step(brow(d, i as int), tempvec@, temp_cnt as int, queue@, in_block@, d.n); }
@post 1.2
proof { po_done(d, i as int, tempvec@, temp_cnt as int, queue@, in_block@); }
@loop 1.3
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], 0 <= i < d.m, vals_in(d.i, lo, hi, d.n), 0 <= d.sn[i as int] < d.sn[i + 1] <= d.n, 0 <= lo <= hi, rows_upto(d, this.M.nrows@, i + 1), queue@.len() == 0, nomark(in_block@, d.n), temp_cnt == srow(d, i as int).len(), head_is(tempvec@, srow(d, i as int)), d.sn[i as int] <= j <= d.sn[i + 1], filled(d, ax, this.M.i@, this.M.x@, i as int, j - d.sn[i as int], 0), counter == exi(d, i as int, j - d.sn[i as int], 0).len(),
decreases d.sn[i + 1] - j,
@head 1.3
let ghost u = j - d.sn[i as int];
proof { bl_at(d, i as int); bl_col(d, i as int, j as int); ix_init(d, i as int, j as int); }
@loop 1.3.1
invariant
    d == (Bl { p: A.p@, i: A.i@, n: A.n as int, sn: this.M.supernodes@, m: this.M.nodes as int }), ax == A.x@, this.M == (BCSC { i: this.M.i, x: this.M.x, nrows: this.M.nrows, ..old(this).M }), n == d.n, bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), A.x@.len() >= d.p[d.n], bat(d, d.m) <= i32::MAX, tempvec@.len() == d.n, this.M.nrows@.len() == old(this).M.nrows@.len(), this.M.nrows@.len() >= d.m, this.M.i@.len() == old(this).M.i@.len(), this.M.x@.len() == old(this).M.x@.len(), lo == d.p[d.sn[i as int] as int], hi == d.p[d.sn[i + 1] as int], 0 <= i < d.m, vals_in(d.i, lo, hi, d.n), 0 <= d.sn[i as int] < d.sn[i + 1] <= d.n, 0 <= lo <= hi, rows_upto(d, this.M.nrows@, i + 1), queue@.len() == 0, nomark(in_block@, d.n), temp_cnt == srow(d, i as int).len(), head_is(tempvec@, srow(d, i as int)), d.sn[i as int] <= j < d.sn[i + 1], u == j - d.sn[i as int], 0 <= p <= temp_cnt, ixat(d, i as int, j as int, p as int, index as int), filled(d, ax, this.M.i@, this.M.x@, i as int, u, p as int), counter == exi(d, i as int, u, p as int).len(),
decreases temp_cnt - p,
@head 1.3.1
let ghost r0 = srow(d, i as int)[p as int]; let ghost y0 = cval(d, ax, j as int, r0 as int);
proof { ix_at(d, ax, i as int, j as int, p as int, index as int); fi_step(d, ax, this.M.i@, this.M.x@, i as int, u, p as int, counter as int, r0, y0); bat_mono(d, i + 1, d.m); assert(tempvec@[p as int] == r0 && p < tempvec@.len()) by { reveal(head_is); } }
@post 1.3.1
proof { fi_col(d, ax, this.M.i@, this.M.x@, i as int, u); }
@post 1.3
proof { assert(j - d.sn[i as int] == bw(d, i as int)); fi_blk(d, ax, this.M.i@, this.M.x@, i as int); }
@exit
proof { rw_done(d, this.M.nrows@, d.m); fi_done(d, ax, this.M.i@, this.M.x@); }
