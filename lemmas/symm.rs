//@uses addm symt half transp
// ---------------------------------------------------------------- symmetrising a general matrix: half of the mean of it and its transpose
pub open spec fn sym_half(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    forall|c: int, r: int| 0 <= c < n && 0 <= r < n ==> (#[trigger] has(tp, ti, c, r) <==> side_of(r, c, lower) && (has(p, i, c, r) || has(p, i, r, c)))
}
pub proof fn tr_has(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>, m: int)
    requires ptrs(p, n), i.len() >= p[n], is_transpose(p, i, n, tp, ti, m), forall|e: int| 0 <= e < p[n] ==> 0 <= #[trigger] i[e] < m,
    ensures forall|c: int, r: int| 0 <= c < m && 0 <= r < n ==> (#[trigger] has(tp, ti, c, r) <==> has(p, i, r, c)),
{
    let ne = p[n] as int;
    assert forall|c: int, r: int| 0 <= c < m && 0 <= r < n && has(p, i, r, c) implies #[trigger] has(tp, ti, c, r) by {
        let e = choose|e: int| has_at(p, i, r, c, e);
        assert(in_col(p, r, e));
        src_is(p, n, r, e);
        slot_in(i, ne, e, m);
        let q = slot(i, ne, e);
        assert(tp[c] == start(i, ne, c)); assert(tp[c + 1] == start(i, ne, c + 1));
        assert(has_at(tp, ti, c, r, q));
    }
    assert forall|c: int, r: int| 0 <= c < m && 0 <= r < n && #[trigger] has(tp, ti, c, r) implies has(p, i, r, c) by {
        let q = choose|q: int| has_at(tp, ti, c, r, q);
        assert(tr_from(p, i, n, ti, c, q));
        let e = choose|e: int| 0 <= e < p[n] && i[e] == c && #[trigger] slot(i, p[n] as int, e) == q && ti[q] == src(p, n, e);
        src_ex(p, n, e);
        assert(has_at(p, i, r, c, e));
    }
}
pub proof fn occ_has(p: Seq<i32>, i: Seq<i32>, c: int, v: int)
    ensures occurs(i, p[c] as int, p[c + 1] as int, v) <==> has(p, i, c, v),
{
    if occurs(i, p[c] as int, p[c + 1] as int, v) { let f = choose|f: int| p[c] <= f < p[c + 1] && #[trigger] i[f] == v; assert(has_at(p, i, c, v, f)); }
    if has(p, i, c, v) { let e = choose|e: int| has_at(p, i, c, v, e); assert(p[c] <= e < p[c + 1] && i[e] == v); }
}
pub proof fn sum_has(a: CSC, b: CSC, al: F64, be: F64, srt: bool, r: CSC)
    requires is_sum(a, b, al, be, srt, r),
    ensures forall|c: int, v: int| 0 <= c < b.n && 0 <= v < a.m ==> (#[trigger] has(r.p@, r.i@, c, v) <==> has(a.p@, a.i@, c, v) || has(b.p@, b.i@, c, v)),
        forall|e: int| 0 <= e < r.p@[b.n as int] ==> 0 <= #[trigger] r.i@[e] < a.m,
{
    assert forall|c: int, v: int| 0 <= c < b.n && 0 <= v < a.m implies (#[trigger] has(r.p@, r.i@, c, v) <==> has(a.p@, a.i@, c, v) || has(b.p@, b.i@, c, v)) by {
        occ_has(a.p@, a.i@, c, v); occ_has(b.p@, b.i@, c, v);
        assert(add_col(a, b, al, be, a.m as int, srt, r.i@, r.x@, pat2(a, b), r.p@[c] as int, r.p@[c + 1] as int, c));
        if either(a.p@, a.i@, b.p@, b.i@, c, v) { assert(among(r.i@, r.p@[c] as int, r.p@[c + 1] as int, v)); let q = choose|q: int| r.p@[c] <= q < r.p@[c + 1] && #[trigger] r.i@[q] == v; assert(has_at(r.p@, r.i@, c, v, q)); }
        if has(r.p@, r.i@, c, v) { let q = choose|q: int| has_at(r.p@, r.i@, c, v, q); assert(row_ok(a.p@, a.i@, b.p@, b.i@, a.m as int, c, r.i@[q] as int)); }
    }
    assert forall|e: int| 0 <= e < r.p@[b.n as int] implies 0 <= #[trigger] r.i@[e] < a.m by {
        src_ex(r.p@, b.n as int, e);
        let c = src(r.p@, b.n as int, e);
        assert(add_col(a, b, al, be, a.m as int, srt, r.i@, r.x@, pat2(a, b), r.p@[c] as int, r.p@[c + 1] as int, c));
        assert(row_ok(a.p@, a.i@, b.p@, b.i@, a.m as int, c, r.i@[e] as int));
    }
}
pub proof fn half_has(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>)
    requires ptrs(p, n), i.len() >= p[n], is_half(p, i, n, lower, tp, ti),
    ensures forall|c: int, r: int| 0 <= c < n ==> (#[trigger] has(tp, ti, c, r) <==> side_of(r, c, lower) && has(p, i, c, r)),
{
    assert forall|c: int, r: int| 0 <= c < n && side_of(r, c, lower) && has(p, i, c, r) implies #[trigger] has(tp, ti, c, r) by {
        let e = choose|e: int| has_at(p, i, c, r, e);
        half_place(p, i, n, lower, c, e);
        assert(half_at(p, i, n, lower, ti, e));
        assert(p[0] <= p[c] <= e); assert(p[c + 1] <= p[n]);
        hc_mono(p, i, n, lower, p[c] as int, e); hc_mono(p, i, n, lower, e + 1, p[c + 1] as int);
        assert(tp[c] == hc(p, i, n, lower, p[c] as int)); assert(tp[c + 1] == hc(p, i, n, lower, p[c + 1] as int));
        assert(has_at(tp, ti, c, r, hc(p, i, n, lower, e)));
    }
    assert forall|c: int, r: int| 0 <= c < n && #[trigger] has(tp, ti, c, r) implies side_of(r, c, lower) && has(p, i, c, r) by {
        let q = choose|q: int| has_at(tp, ti, c, r, q);
        assert(tp[0] <= tp[c]); assert(tp[c + 1] <= tp[n]);
        assert(half_from(p, i, n, lower, ti, q));
        let e = choose|e: int| 0 <= e < p[n] && #[trigger] in_half(p, i, n, lower, e) && hc(p, i, n, lower, e) == q && ti[q] == i[e];
        src_ex(p, n, e);
        let d = src(p, n, e);
        if d < c { assert(p[d + 1] <= p[c]); hc_mono(p, i, n, lower, e + 1, p[c] as int); assert(tp[c] == hc(p, i, n, lower, p[c] as int)); }
        if d > c { assert(p[c + 1] <= p[d]); assert(0 <= p[0] <= p[c + 1]); hc_mono(p, i, n, lower, p[c + 1] as int, e); assert(tp[c + 1] == hc(p, i, n, lower, p[c + 1] as int)); }
        assert(has_at(p, i, c, r, e));
    }
}
pub open spec fn mean_half(a: CSC, t: CSC, u: CSC, h: F64, lower: bool, r: CSC) -> bool {
    is_transpose(a.p@, a.i@, a.n as int, t.p@, t.i@, a.n as int) && (!a.is_pattern ==> tr_vals(a.i@, a.x@, a.nnz as int, t.x@, a.nnz as int))
    && is_sum(a, t, h, h, true, u) && is_half(u.p@, u.i@, a.n as int, lower, r.p@, r.i@) && (!a.is_pattern ==> half_vals(u.p@, u.i@, u.x@, a.n as int, lower, r.x@, u.p@[a.n as int] as int))
}
pub proof fn mean_sym(a: CSC, t: CSC, u: CSC, h: F64, lower: bool, r: CSC)
    requires gwf(a.p@, a.i@, a.n as int), a.m == a.n, t.n == a.n, mean_half(a, t, u, h, lower, r),
    ensures sym_half(a.p@, a.i@, a.n as int, lower, r.p@, r.i@),
{
    let n = a.n as int;
    tr_has(a.p@, a.i@, n, t.p@, t.i@, n);
    sum_has(a, t, h, h, true, u);
    half_has(u.p@, u.i@, n, lower, r.p@, r.i@);
    assert forall|c: int, v: int| 0 <= c < n && 0 <= v < n implies (#[trigger] has(r.p@, r.i@, c, v) <==> side_of(v, c, lower) && (has(a.p@, a.i@, c, v) || has(a.p@, a.i@, v, c))) by {
        assert(has(u.p@, u.i@, c, v) <==> has(a.p@, a.i@, c, v) || has(t.p@, t.i@, c, v));
        assert(has(t.p@, t.i@, c, v) <==> has(a.p@, a.i@, v, c));
    }
}
