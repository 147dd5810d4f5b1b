@unit b_compressed_BCSC_to_CSC
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name compressed_BCSC_to_CSC
@props P25
@uses blocks
@opts complex isolate spinoff
@requires
bg_ok(Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }),
@ensures
bgraph_is(Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }, res),
forall|k: int| 0 <= k < this.M.nodes ==> #[trigger] res.i@.subrange(res.p@[k] as int, res.p@[k + 1] as int) == cadj(Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }, k),
@entry
let ghost d = Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }; let ghost v = bval(d);
proof { bg_ends(d); }
@pre 1
proof { sups_init(d, supers@); }
@loop 1
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, 0 <= i <= d.m, counter == d.sn[i as int], 0 <= counter, sups(d, supers@, counter as int),
decreases d.m - i,
@head 1
proof { sn_at(d.sn, d.m, d.n, i as int); assert(supers@.len() == d.n) by { reveal(sups); } }
@loop 1.1
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, 0 <= i < d.m, 0 <= d.sn[i as int] <= counter <= d.sn[i + 1] <= d.n, sups(d, supers@, counter as int), supers@.len() == d.n,
decreases d.sn[i + 1] - counter,
@head 1.1
proof { sups_step(d, supers@, counter as int, i); }
@loop 2
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, 0 <= i <= d.m, count == 0, nnz == csize(d, i as int), nomark(inplace@, d.m),
decreases d.m - i,
@head 2
let ghost lo = d.bp[i as int] as int;
proof { bg_at(d, i as int); mk_init(v, lo, inplace@, d.m, temp@); }
@loop 2.1
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, 0 <= i < d.m, lo == d.bp[i as int], 0 <= lo, bend(d, i as int) <= i32::MAX, lo + d.lr[i as int] == bend(d, i as int), 0 <= r <= d.lr[i as int], mk(v, lo, lo + r, inplace@, d.m), head_is(temp@, fst(v, lo, lo + r)), count == fst(v, lo, lo + r).len(), nnz == csize(d, i as int) + count, vals_in(v, lo, bend(d, i as int), d.m),
decreases d.lr[i as int] - r,
@head 2.1
proof { bg_at(d, i as int); sups_val(d, supers@, i as int, lo + r); mk_step(v, lo, lo + r, inplace@, d.m, temp@); fst_mono(v, lo, lo + r + 1, bend(d, i as int)); }
@post 2.1
proof { mr_init(v, lo, bend(d, i as int), inplace@, d.m); fst_ok(v, lo, bend(d, i as int), d.m); }
@loop 2.2
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, 0 <= i < d.m, 0 <= j <= count, count == cadj(d, i as int).len(), count <= d.m, mrest(inplace@, d.m, cadj(d, i as int), j as int), head_is(temp@, cadj(d, i as int)), nnz == csize(d, i as int) + count, forall|a: int| 0 <= a < cadj(d, i as int).len() ==> 0 <= #[trigger] cadj(d, i as int)[a] < d.m,
decreases count - j,
@head 2.2
proof { mr_step(inplace@, d.m, cadj(d, i as int), temp@, j as int); }
@post 2.2
proof { mr_done(inplace@, d.m, cadj(d, i as int)); }
@post 2
proof { cs_mono(d, 0, d.m); }
@pre 3
proof { out_init(d, Acsc.p@, Acsc.i@); }
@loop 3
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, Acsc.p@.len() == d.m + 1, Acsc.m == d.m, Acsc.n == d.m, Acsc.nnz == csize(d, d.m), Acsc.i@.len() == csize(d, d.m), 0 <= j <= d.m, p == j + 1, count == 0, i == csize(d, j as int), nomark(inplace@, d.m), outs(d, Acsc.p@, Acsc.i@, j as int, 0),
decreases d.m - j,
@head 3
let ghost lo = d.bp[j as int] as int;
proof { bg_at(d, j as int); mk_init(v, lo, inplace@, d.m, temp@); out_ptr(d, Acsc.p@, Acsc.i@, j as int, 0, Acsc.p@[j as int]); }
@loop 3.1
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, Acsc.p@.len() == d.m + 1, Acsc.m == d.m, Acsc.n == d.m, Acsc.nnz == csize(d, d.m), Acsc.i@.len() == csize(d, d.m), 0 <= j < d.m, p == j + 1, lo == d.bp[j as int], 0 <= lo, bend(d, j as int) <= i32::MAX, lo + d.lr[j as int] == bend(d, j as int), 0 <= r <= d.lr[j as int], mk(v, lo, lo + r, inplace@, d.m), head_is(temp@, fst(v, lo, lo + r)), count == fst(v, lo, lo + r).len(), i == csize(d, j as int) + count, vals_in(v, lo, bend(d, j as int), d.m),
    outs(d, Acsc.p@, Acsc.i@, j as int, count as int), Acsc.p@[p as int] == i,
decreases d.lr[j as int] - r,
@head 3.1
proof {
    bg_at(d, j as int); sups_val(d, supers@, j as int, lo + r); mk_step(v, lo, lo + r, inplace@, d.m, temp@); fst_mono(v, lo, lo + r + 1, bend(d, j as int));
    let row = v[lo + r]; out_ptr(d, Acsc.p@, Acsc.i@, j as int, count as int, (Acsc.p@[p as int] + 1) as i32); if !inplace@[row as int] { out_step(d, Acsc.p@.update(p as int, (Acsc.p@[p as int] + 1) as i32), Acsc.i@, j as int, lo + r, row); }
}
@post 3.1
proof { mr_init(v, lo, bend(d, j as int), inplace@, d.m); fst_ok(v, lo, bend(d, j as int), d.m); out_next(d, Acsc.p@, Acsc.i@, j as int); }
@loop 3.2
invariant
    d == (Bg { sn: this.M.supernodes@, m: this.M.nodes as int, n: this.M.n as int, bp: this.M.p@, lr: this.M.nrows@, bi: this.M.i@ }), v == bval(d), nodes == d.m, bg_ok(d), sn_ok(d.sn, d.m, d.n), 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sups(d, supers@, d.n), temp@.len() == d.m, inplace@.len() == d.m, Acsc.p@.len() == d.m + 1, Acsc.m == d.m, Acsc.n == d.m, Acsc.nnz == csize(d, d.m), Acsc.i@.len() == csize(d, d.m), 0 <= j < d.m, p == j + 1, 0 <= k <= count, count == cadj(d, j as int).len(), count <= d.m, mrest(inplace@, d.m, cadj(d, j as int), k as int), head_is(temp@, cadj(d, j as int)), i == csize(d, j + 1), forall|a: int| 0 <= a < cadj(d, j as int).len() ==> 0 <= #[trigger] cadj(d, j as int)[a] < d.m, outs(d, Acsc.p@, Acsc.i@, j + 1, 0),
decreases count - k,
@head 3.2
proof { mr_step(inplace@, d.m, cadj(d, j as int), temp@, k as int); }
@post 3.2
proof { mr_done(inplace@, d.m, cadj(d, j as int)); }
@post 3
proof { out_done(d, Acsc); }
