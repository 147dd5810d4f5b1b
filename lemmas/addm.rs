//@uses full pack
// ---------------------------------------------------------------- adding two sparse matrices column by column
pub open spec fn occurs(i: Seq<i32>, lo: int, e: int, v: int) -> bool { exists|f: int| lo <= f < e && #[trigger] i[f] == v }
// what the accumulator of row v holds after the entries lo..e; `seen`: the row had been met before
pub open spec fn acc(i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, v: int, seen: bool, z: F64) -> F64
    decreases e - lo
{
    if e <= lo { z }
    else if i[e - 1] == v {
        if seen || occurs(i, lo, e - 1, v) { fadd_s(acc(i, x, b, lo, e - 1, v, seen, z), fmul_s(b, x[e - 1])) } else { fmul_s(b, x[e - 1]) }
    } else { acc(i, x, b, lo, e - 1, v, seen, z) }
}
// a row met in the range does not depend on what was left in the accumulator
pub proof fn acc_fresh(i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, v: int, y: F64, z: F64)
    requires occurs(i, lo, e, v),
    ensures acc(i, x, b, lo, e, v, false, y) == acc(i, x, b, lo, e, v, false, z),
    decreases e - lo
{
    if e > lo {
        if i[e - 1] == v { if occurs(i, lo, e - 1, v) { acc_fresh(i, x, b, lo, e - 1, v, y, z); } }
        else {
            let f = choose|f: int| lo <= f < e && #[trigger] i[f] == v;
            assert(lo <= f < e - 1);
            acc_fresh(i, x, b, lo, e - 1, v, y, z);
        }
    }
}
pub proof fn acc_none(i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, v: int, seen: bool, z: F64)
    requires !occurs(i, lo, e, v),
    ensures acc(i, x, b, lo, e, v, seen, z) == z,
    decreases e - lo
{ if e > lo { assert(i[e - 1] != v); assert(!occurs(i, lo, e - 1, v)) by { if occurs(i, lo, e - 1, v) { let f = choose|f: int| lo <= f < e - 1 && #[trigger] i[f] == v; assert(lo <= f < e); } } acc_none(i, x, b, lo, e - 1, v, seen, z); } }
pub proof fn occurs_step(i: Seq<i32>, lo: int, e: int)
    requires lo <= e,
    ensures forall|v: int| #[trigger] occurs(i, lo, e + 1, v) <==> occurs(i, lo, e, v) || i[e] == v,
{
    assert forall|v: int| occurs(i, lo, e, v) || i[e] == v implies #[trigger] occurs(i, lo, e + 1, v) by {
        if occurs(i, lo, e, v) { let f = choose|f: int| lo <= f < e && #[trigger] i[f] == v; assert(lo <= f < e + 1 && i[f] == v); }
    }
    assert forall|v: int| #[trigger] occurs(i, lo, e + 1, v) implies occurs(i, lo, e, v) || i[e] == v by { let f = choose|f: int| lo <= f < e + 1 && #[trigger] i[f] == v; if f < e { assert(lo <= f < e && i[f] == v); } }
}
// entries lo..e of a column have been scattered: w marks the rows met, the new ones were appended to ci from nz0 on
pub open spec fn w_at(w: Seq<i32>, w0: Seq<i32>, mark: int, i: Seq<i32>, lo: int, e: int, v: int) -> bool { w[v] == (if occurs(i, lo, e, v) { mark } else { w0[v] as int }) }
pub open spec fn x_at(xs: Seq<F64>, xs0: Seq<F64>, w0: Seq<i32>, mark: int, i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, v: int) -> bool { xs[v] == acc(i, x, b, lo, e, v, w0[v] >= mark, xs0[v]) }
pub open spec fn new_at(ci: Seq<i32>, w0: Seq<i32>, mark: int, i: Seq<i32>, lo: int, e: int, m: int, q: int) -> bool { 0 <= ci[q] < m && w0[ci[q] as int] < mark && occurs(i, lo, e, ci[q] as int) }
pub open spec fn among(ci: Seq<i32>, a: int, b: int, v: int) -> bool { exists|q: int| a <= q < b && #[trigger] ci[q] == v }
pub open spec fn distinct(ci: Seq<i32>, a: int, b: int) -> bool { forall|q: int, r: int| a <= q < r < b ==> #[trigger] ci[q] != #[trigger] ci[r] }
pub open spec fn scattered(w: Seq<i32>, w0: Seq<i32>, mark: int, i: Seq<i32>, lo: int, e: int, m: int, ci: Seq<i32>, nz0: int, nz: int) -> bool {
    w.len() == m && nz0 <= nz <= nz0 + (e - lo)
    && (forall|v: int| 0 <= v < m ==> #[trigger] w_at(w, w0, mark, i, lo, e, v))
    && (forall|q: int| nz0 <= q < nz ==> #[trigger] new_at(ci, w0, mark, i, lo, e, m, q))
    && distinct(ci, nz0, nz)
    && (forall|v: int| 0 <= v < m && w0[v] < mark && #[trigger] occurs(i, lo, e, v) ==> among(ci, nz0, nz, v))
}
pub open spec fn xscattered(xs: Seq<F64>, xs0: Seq<F64>, w0: Seq<i32>, mark: int, i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, m: int) -> bool {
    xs.len() == m && forall|v: int| 0 <= v < m ==> #[trigger] x_at(xs, xs0, w0, mark, i, x, b, lo, e, v)
}
pub proof fn scat_init(w: Seq<i32>, mark: int, i: Seq<i32>, lo: int, m: int, ci: Seq<i32>, nz: int)
    requires w.len() == m,
    ensures scattered(w, w, mark, i, lo, lo, m, ci, nz, nz),
{ }
pub proof fn scat_step(w: Seq<i32>, w1: Seq<i32>, w0: Seq<i32>, mark: int, i: Seq<i32>, lo: int, e: int, m: int, ci: Seq<i32>, ci1: Seq<i32>, nz0: int, nz: int, nz1: int)
    requires scattered(w, w0, mark, i, lo, e, m, ci, nz0, nz), lo <= e, 0 <= i[e] < m, i32::MIN <= mark <= i32::MAX, 0 <= nz0, nz < ci.len(), forall|v: int| 0 <= v < m ==> #[trigger] w0[v] <= mark,
        w[i[e] as int] < mark ==> w1 == w.update(i[e] as int, mark as i32) && ci1 == ci.update(nz, i[e]) && nz1 == nz + 1,
        w[i[e] as int] >= mark ==> w1 == w && ci1 == ci && nz1 == nz,
    ensures scattered(w1, w0, mark, i, lo, e + 1, m, ci1, nz0, nz1), w[i[e] as int] >= mark <==> (w0[i[e] as int] >= mark || occurs(i, lo, e, i[e] as int)),
{
    occurs_step(i, lo, e);
    let r = i[e] as int;
    assert(w_at(w, w0, mark, i, lo, e, r));
    assert forall|v: int| 0 <= v < m implies #[trigger] w_at(w1, w0, mark, i, lo, e + 1, v) by { assert(w_at(w, w0, mark, i, lo, e, v)); assert(occurs(i, lo, e + 1, v) <==> occurs(i, lo, e, v) || i[e] == v); assert(w0[v] <= mark); }
    assert forall|q: int| nz0 <= q < nz1 implies #[trigger] new_at(ci1, w0, mark, i, lo, e + 1, m, q) by {
        if q < nz { assert(new_at(ci, w0, mark, i, lo, e, m, q)); assert(occurs(i, lo, e + 1, ci[q] as int)); }
        else { assert(occurs(i, lo, e + 1, r)); }
    }
    assert forall|q: int, s: int| nz0 <= q < s < nz1 implies #[trigger] ci1[q] != #[trigger] ci1[s] by {
        assert(new_at(ci, w0, mark, i, lo, e, m, q));
        if s < nz { assert(ci[q] != ci[s]); } else { assert(w_at(w, w0, mark, i, lo, e, ci[q] as int)); }
    }
    assert forall|v: int| 0 <= v < m && w0[v] < mark && #[trigger] occurs(i, lo, e + 1, v) implies among(ci1, nz0, nz1, v) by {
        if occurs(i, lo, e, v) {
            let q = choose|q: int| nz0 <= q < nz && #[trigger] ci[q] == v;
            assert(ci1[q] == v);
        } else { assert(w_at(w, w0, mark, i, lo, e, v)); assert(ci1[nz] == v); }
    }
}
pub proof fn xscat_step(xs: Seq<F64>, xs1: Seq<F64>, xs0: Seq<F64>, w0: Seq<i32>, mark: int, i: Seq<i32>, x: Seq<F64>, b: F64, lo: int, e: int, m: int, again: bool)
    requires xscattered(xs, xs0, w0, mark, i, x, b, lo, e, m), lo <= e, 0 <= i[e] < m, again <==> (w0[i[e] as int] >= mark || occurs(i, lo, e, i[e] as int)),
        again ==> xs1 == xs.update(i[e] as int, fadd_s(xs[i[e] as int], fmul_s(b, x[e]))), !again ==> xs1 == xs.update(i[e] as int, fmul_s(b, x[e])),
    ensures xscattered(xs1, xs0, w0, mark, i, x, b, lo, e + 1, m),
{
    assert forall|v: int| 0 <= v < m implies #[trigger] x_at(xs1, xs0, w0, mark, i, x, b, lo, e + 1, v) by { assert(x_at(xs, xs0, w0, mark, i, x, b, lo, e, v)); }
}
// ---------------------------------------------------------------- one column of the sum
pub open spec fn either(ap: Seq<i32>, ai: Seq<i32>, bp: Seq<i32>, bi: Seq<i32>, c: int, v: int) -> bool { occurs(ai, ap[c] as int, ap[c + 1] as int, v) || occurs(bi, bp[c] as int, bp[c + 1] as int, v) }
pub open spec fn row_ok(ap: Seq<i32>, ai: Seq<i32>, bp: Seq<i32>, bi: Seq<i32>, m: int, c: int, v: int) -> bool { 0 <= v < m && either(ap, ai, bp, bi, c, v) }
pub open spec fn sum_rows(ap: Seq<i32>, ai: Seq<i32>, bp: Seq<i32>, bi: Seq<i32>, m: int, ci: Seq<i32>, lo: int, hi: int, c: int) -> bool {
    distinct(ci, lo, hi)
    && (forall|q: int| lo <= q < hi ==> row_ok(ap, ai, bp, bi, m, c, #[trigger] ci[q] as int))
    && (forall|v: int| 0 <= v < m && #[trigger] either(ap, ai, bp, bi, c, v) ==> among(ci, lo, hi, v))
}
pub open spec fn asc(ci: Seq<i32>, lo: int, hi: int) -> bool { forall|q: int, r: int| lo <= q <= r < hi ==> #[trigger] ci[q] <= #[trigger] ci[r] }
pub open spec fn sumv(a: CSC, b: CSC, al: F64, be: F64, c: int, v: int, z: F64) -> F64 {
    acc(b.i@, b.x@, be, b.p@[c] as int, b.p@[c + 1] as int, v, occurs(a.i@, a.p@[c] as int, a.p@[c + 1] as int, v), acc(a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, v, false, z))
}
pub open spec fn val_at(a: CSC, b: CSC, al: F64, be: F64, c: int, ci: Seq<i32>, cx: Seq<F64>, q: int) -> bool { cx[q] == sumv(a, b, al, be, c, ci[q] as int, f64_zero_s()) }
pub open spec fn sum_vals(a: CSC, b: CSC, al: F64, be: F64, ci: Seq<i32>, cx: Seq<F64>, lo: int, hi: int, c: int) -> bool { forall|q: int| lo <= q < hi ==> #[trigger] val_at(a, b, al, be, c, ci, cx, q) }
pub proof fn sumv_fresh(a: CSC, b: CSC, al: F64, be: F64, c: int, v: int, z: F64)
    requires either(a.p@, a.i@, b.p@, b.i@, c, v),
    ensures sumv(a, b, al, be, c, v, z) == sumv(a, b, al, be, c, v, f64_zero_s()),
{
    if occurs(a.i@, a.p@[c] as int, a.p@[c + 1] as int, v) { acc_fresh(a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, v, z, f64_zero_s()); }
    else { acc_fresh(b.i@, b.x@, be, b.p@[c] as int, b.p@[c + 1] as int, v, acc(a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, v, false, z), acc(a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, v, false, f64_zero_s())); }
}
pub proof fn add_join(a: CSC, b: CSC, m: int, c: int, w0: Seq<i32>, w1: Seq<i32>, w2: Seq<i32>, ci1: Seq<i32>, ci2: Seq<i32>, nz0: int, nz1: int, nz2: int)
    requires forall|v: int| 0 <= v < m ==> 0 <= #[trigger] w0[v] <= c, w0.len() == m,
        scattered(w1, w0, c + 1, a.i@, a.p@[c] as int, a.p@[c + 1] as int, m, ci1, nz0, nz1), scattered(w2, w1, c + 1, b.i@, b.p@[c] as int, b.p@[c + 1] as int, m, ci2, nz1, nz2),
        forall|q: int| 0 <= q < nz1 ==> #[trigger] ci2[q] == ci1[q], 0 <= nz0,
    ensures sum_rows(a.p@, a.i@, b.p@, b.i@, m, ci2, nz0, nz2, c), forall|v: int| 0 <= v < m ==> 0 <= #[trigger] w2[v] <= c + 1,
        forall|v: int| 0 <= v < m ==> (#[trigger] w1[v] >= c + 1 <==> occurs(a.i@, a.p@[c] as int, a.p@[c + 1] as int, v)),
{
    let la = a.p@[c] as int; let ea = a.p@[c + 1] as int; let lb = b.p@[c] as int; let eb = b.p@[c + 1] as int;
    assert forall|v: int| 0 <= v < m implies 0 <= #[trigger] w1[v] <= c + 1 && (w1[v] >= c + 1 <==> occurs(a.i@, la, ea, v)) by { assert(w_at(w1, w0, c + 1, a.i@, la, ea, v)); assert(0 <= w0[v] <= c); }
    assert forall|v: int| 0 <= v < m implies 0 <= #[trigger] w2[v] <= c + 1 by { assert(w_at(w2, w1, c + 1, b.i@, lb, eb, v)); assert(0 <= w1[v] <= c + 1); }
    assert forall|q: int| nz0 <= q < nz2 implies row_ok(a.p@, a.i@, b.p@, b.i@, m, c, #[trigger] ci2[q] as int) by {
        if q < nz1 { assert(new_at(ci1, w0, c + 1, a.i@, la, ea, m, q)); } else { assert(new_at(ci2, w1, c + 1, b.i@, lb, eb, m, q)); }
    }
    assert forall|q: int, r: int| nz0 <= q < r < nz2 implies #[trigger] ci2[q] != #[trigger] ci2[r] by {
        if r < nz1 { assert(ci1[q] != ci1[r]); }
        else { assert(new_at(ci2, w1, c + 1, b.i@, lb, eb, m, r)); if q < nz1 { assert(new_at(ci1, w0, c + 1, a.i@, la, ea, m, q)); assert(w1[ci2[r] as int] < c + 1); assert(w1[ci2[q] as int] >= c + 1); } }
    }
    assert forall|v: int| 0 <= v < m && #[trigger] either(a.p@, a.i@, b.p@, b.i@, c, v) implies among(ci2, nz0, nz2, v) by {
        assert(0 <= w0[v] <= c);
        if occurs(a.i@, la, ea, v) { assert(among(ci1, nz0, nz1, v)); let q = choose|q: int| nz0 <= q < nz1 && #[trigger] ci1[q] == v; assert(ci2[q] == v); }
        else { assert(w1[v] < c + 1); assert(among(ci2, nz1, nz2, v)); let q = choose|q: int| nz1 <= q < nz2 && #[trigger] ci2[q] == v; assert(ci2[q] == v); }
    }
}
// what the accumulator holds after both scatters
pub proof fn add_xjoin(a: CSC, b: CSC, al: F64, be: F64, m: int, c: int, w0: Seq<i32>, w1: Seq<i32>, x0: Seq<F64>, x1: Seq<F64>, x2: Seq<F64>)
    requires forall|v: int| 0 <= v < m ==> 0 <= #[trigger] w0[v] <= c,
        forall|v: int| 0 <= v < m ==> (#[trigger] w1[v] >= c + 1 <==> occurs(a.i@, a.p@[c] as int, a.p@[c + 1] as int, v)),
        xscattered(x1, x0, w0, c + 1, a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, m), xscattered(x2, x1, w1, c + 1, b.i@, b.x@, be, b.p@[c] as int, b.p@[c + 1] as int, m),
    ensures forall|v: int| 0 <= v < m && #[trigger] either(a.p@, a.i@, b.p@, b.i@, c, v) ==> x2[v] == sumv(a, b, al, be, c, v, f64_zero_s()),
{
    assert forall|v: int| 0 <= v < m && #[trigger] either(a.p@, a.i@, b.p@, b.i@, c, v) implies x2[v] == sumv(a, b, al, be, c, v, f64_zero_s()) by {
        assert(x_at(x1, x0, w0, c + 1, a.i@, a.x@, al, a.p@[c] as int, a.p@[c + 1] as int, v));
        assert(x_at(x2, x1, w1, c + 1, b.i@, b.x@, be, b.p@[c] as int, b.p@[c + 1] as int, v));
        assert(0 <= w0[v] <= c); assert(w1[v] >= c + 1 <==> occurs(a.i@, a.p@[c] as int, a.p@[c + 1] as int, v));
        sumv_fresh(a, b, al, be, c, v, x0[v]);
    }
}
// sorting the rows of a column
pub proof fn sort_rows(ap: Seq<i32>, ai: Seq<i32>, bp: Seq<i32>, bi: Seq<i32>, m: int, s: Seq<i32>, t: Seq<i32>, lo: int, hi: int, c: int)
    requires sum_rows(ap, ai, bp, bi, m, s, lo, hi, c), perm_range(t, s, lo, hi), 0 <= lo <= hi <= s.len(),
    ensures sum_rows(ap, ai, bp, bi, m, t, lo, hi, c),
{
    let a = t.subrange(lo, hi); let b = s.subrange(lo, hi);
    let o = multiset_order(a, b);
    let u = multiset_order(b, a);
    assert forall|q: int, r: int| lo <= q < r < hi implies #[trigger] t[q] != #[trigger] t[r] by {
        assert(a[q - lo] == b[o[q - lo]] && a[r - lo] == b[o[r - lo]]);
        assert(o[q - lo] != o[r - lo]);
        let x = lo + o[q - lo]; let y = lo + o[r - lo];
        assert(s[x] == a[q - lo] && s[y] == a[r - lo]);
        if x < y { assert(s[x] != s[y]); } else { assert(s[y] != s[x]); }
    }
    assert forall|q: int| lo <= q < hi implies row_ok(ap, ai, bp, bi, m, c, #[trigger] t[q] as int) by { assert(a[q - lo] == b[o[q - lo]]); assert(0 <= o[q - lo] < b.len()); assert(row_ok(ap, ai, bp, bi, m, c, s[lo + o[q - lo]] as int)); }
    assert forall|v: int| 0 <= v < m && #[trigger] either(ap, ai, bp, bi, c, v) implies among(t, lo, hi, v) by {
        assert(among(s, lo, hi, v));
        let q = choose|q: int| lo <= q < hi && #[trigger] s[q] == v;
        assert(b[q - lo] == a[u[q - lo]]); assert(0 <= u[q - lo] < a.len());
        assert(t[lo + u[q - lo]] == v);
    }
}
pub open spec fn cend(cp: Seq<i32>, j: int, nz: int, c: int) -> int { if c + 1 < j { cp[c + 1] as int } else { nz } }
pub open spec fn add_col(a: CSC, b: CSC, al: F64, be: F64, m: int, srt: bool, ci: Seq<i32>, cx: Seq<F64>, pat: bool, lo: int, hi: int, c: int) -> bool {
    0 <= lo <= hi && sum_rows(a.p@, a.i@, b.p@, b.i@, m, ci, lo, hi, c) && (srt ==> asc(ci, lo, hi)) && (!pat ==> sum_vals(a, b, al, be, ci, cx, lo, hi, c))
}
pub proof fn add_frame(a: CSC, b: CSC, al: F64, be: F64, m: int, srt: bool, ci: Seq<i32>, cx: Seq<F64>, ci1: Seq<i32>, cx1: Seq<F64>, pat: bool, lo: int, hi: int, c: int)
    requires add_col(a, b, al, be, m, srt, ci, cx, pat, lo, hi, c), forall|q: int| lo <= q < hi ==> #[trigger] ci1[q] == ci[q], !pat ==> forall|q: int| lo <= q < hi ==> #[trigger] cx1[q] == cx[q],
    ensures add_col(a, b, al, be, m, srt, ci1, cx1, pat, lo, hi, c),
{
    assert forall|v: int| 0 <= v < m && #[trigger] either(a.p@, a.i@, b.p@, b.i@, c, v) implies among(ci1, lo, hi, v) by { assert(among(ci, lo, hi, v)); let q = choose|q: int| lo <= q < hi && #[trigger] ci[q] == v; assert(ci1[q] == v); }
    assert forall|q: int| lo <= q < hi implies row_ok(a.p@, a.i@, b.p@, b.i@, m, c, #[trigger] ci1[q] as int) by { assert(row_ok(a.p@, a.i@, b.p@, b.i@, m, c, ci[q] as int)); }
    if !pat { assert forall|q: int| lo <= q < hi implies #[trigger] val_at(a, b, al, be, c, ci1, cx1, q) by { assert(val_at(a, b, al, be, c, ci, cx, q)); } }
}
// the sum of two matrices: every column holds each row met in either once, with the combined value
pub open spec fn pat2(a: CSC, b: CSC) -> bool { a.is_pattern || b.is_pattern }
pub open spec fn is_sum(a: CSC, b: CSC, al: F64, be: F64, srt: bool, r: CSC) -> bool {
    ptrs(r.p@, b.n as int) && r.p@[b.n as int] <= r.i@.len()
    && (forall|c: int| 0 <= c < b.n ==> #[trigger] add_col(a, b, al, be, a.m as int, srt, r.i@, r.x@, pat2(a, b), r.p@[c] as int, r.p@[c + 1] as int, c))
}
