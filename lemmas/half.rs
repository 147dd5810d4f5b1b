//@uses graph count csc
// ---------------------------------------------------------------- one half of a square pattern, and the completion of a half
pub open spec fn side_of(r: int, c: int, lower: bool) -> bool { if lower { r >= c } else { r <= c } }
// entry e of the pattern lies in the wanted half
pub open spec fn in_half(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, e: int) -> bool { side_of(i[e] as int, src(p, n, e), lower) }
// wanted entries among the first e
pub open spec fn hc(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, e: int) -> int
    decreases e
{ if e <= 0 { 0 } else { hc(p, i, n, lower, e - 1) + (if in_half(p, i, n, lower, e - 1) { 1int } else { 0int }) } }
pub proof fn hc_mono(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= hc(p, i, n, lower, a) <= hc(p, i, n, lower, b) <= b, hc(p, i, n, lower, b) - hc(p, i, n, lower, a) <= b - a,
    decreases b
{ if a < b { hc_mono(p, i, n, lower, a, b - 1); } else if b > 0 { hc_mono(p, i, n, lower, b - 1, b - 1); } }
pub open spec fn half_at(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, ti: Seq<i32>, e: int) -> bool {
    in_half(p, i, n, lower, e) ==> ti[hc(p, i, n, lower, e)] == i[e]
}
pub open spec fn half_x(p: Seq<i32>, i: Seq<i32>, x: Seq<F64>, n: int, lower: bool, tx: Seq<F64>, e: int) -> bool {
    in_half(p, i, n, lower, e) ==> tx[hc(p, i, n, lower, e)] == x[e]
}
pub open spec fn half_from(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, ti: Seq<i32>, q: int) -> bool {
    exists|e: int| 0 <= e < p[n] && #[trigger] in_half(p, i, n, lower, e) && hc(p, i, n, lower, e) == q && ti[q] == i[e]
}
// the result holds the wanted entries, in order, column by column, and nothing else
pub open spec fn is_half(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    ptrs(tp, n) && ti.len() >= tp[n]
    && (forall|c: int| 0 <= c <= n ==> #[trigger] tp[c] == hc(p, i, n, lower, p[c] as int))
    && (forall|e: int| 0 <= e < p[n] ==> #[trigger] half_at(p, i, n, lower, ti, e))
    && (forall|q: int| 0 <= q < tp[n] ==> #[trigger] half_from(p, i, n, lower, ti, q))
    && (forall|c: int, q: int| 0 <= c < n && tp[c] <= q < tp[c + 1] ==> side_of(#[trigger] ti[q] as int, c, lower) || !#[trigger] in_col(tp, c, q))
}
pub open spec fn half_vals(p: Seq<i32>, i: Seq<i32>, x: Seq<F64>, n: int, lower: bool, tx: Seq<F64>, k: int) -> bool {
    forall|e: int| 0 <= e < k ==> #[trigger] half_x(p, i, x, n, lower, tx, e)
}
// the q-th wanted entry
proof fn hc_occ(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, k: int, q: int) -> (e: int)
    requires k >= 0, 0 <= q < hc(p, i, n, lower, k),
    ensures 0 <= e < k, in_half(p, i, n, lower, e), hc(p, i, n, lower, e) == q,
    decreases k
{ if hc(p, i, n, lower, k - 1) > q { hc_occ(p, i, n, lower, k - 1, q) } else { k - 1 } }
pub proof fn half_finish(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>)
    requires ptrs(p, n), i.len() >= p[n], tp.len() > n, ti.len() >= hc(p, i, n, lower, p[n] as int),
        forall|c: int| 0 <= c <= n ==> #[trigger] tp[c] == hc(p, i, n, lower, p[c] as int),
        forall|e: int| 0 <= e < p[n] ==> #[trigger] half_at(p, i, n, lower, ti, e),
    ensures is_half(p, i, n, lower, tp, ti),
{
    assert forall|a: int, b: int| 0 <= a <= b <= n implies #[trigger] tp[a] <= #[trigger] tp[b] by { assert(p[a] <= p[b]); assert(p[0] <= p[a]); hc_mono(p, i, n, lower, p[a] as int, p[b] as int); }
    assert(tp[0] == hc(p, i, n, lower, p[0] as int));
    assert forall|q: int| 0 <= q < tp[n] implies #[trigger] half_from(p, i, n, lower, ti, q) by {
        assert(p[0] <= p[n]);
        let e = hc_occ(p, i, n, lower, p[n] as int, q);
        assert(half_at(p, i, n, lower, ti, e));
    }
    assert forall|c: int, q: int| 0 <= c < n && tp[c] <= q < tp[c + 1] implies side_of(#[trigger] ti[q] as int, c, lower) || !#[trigger] in_col(tp, c, q) by {
        assert(tp[c + 1] <= tp[n]);
        assert(tp[0] <= tp[c]);
        assert(half_from(p, i, n, lower, ti, q));
        let e = choose|e: int| 0 <= e < p[n] && #[trigger] in_half(p, i, n, lower, e) && hc(p, i, n, lower, e) == q && ti[q] == i[e];
        src_ex(p, n, e);
        let d = src(p, n, e);
        if d < c { assert(p[d + 1] <= p[c]); hc_mono(p, i, n, lower, e + 1, p[c] as int); assert(tp[c] == hc(p, i, n, lower, p[c] as int)); }
        if d > c { assert(p[c + 1] <= p[d]); assert(0 <= p[0] <= p[c + 1]); hc_mono(p, i, n, lower, p[c + 1] as int, e); assert(tp[c + 1] == hc(p, i, n, lower, p[c + 1] as int)); }
    }
}
// position e of column c: its slot is free and inside
pub proof fn half_place(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, c: int, e: int)
    requires ptrs(p, n), i.len() >= p[n], 0 <= c < n, p[c] <= e < p[c + 1],
    ensures src(p, n, e) == c, 0 <= e < p[n], in_half(p, i, n, lower, e) == side_of(i[e] as int, c, lower),
        0 <= hc(p, i, n, lower, e) <= hc(p, i, n, lower, e + 1) <= hc(p, i, n, lower, p[n] as int) <= p[n],
        hc(p, i, n, lower, e + 1) == hc(p, i, n, lower, e) + (if side_of(i[e] as int, c, lower) { 1int } else { 0int }),
        forall|f: int| 0 <= f < e && in_half(p, i, n, lower, f) ==> #[trigger] hc(p, i, n, lower, f) < hc(p, i, n, lower, e),
{
    assert(in_col(p, c, e));
    src_is(p, n, c, e);
    hc_mono(p, i, n, lower, e, e + 1); hc_mono(p, i, n, lower, e + 1, p[n] as int);
    assert forall|f: int| 0 <= f < e && in_half(p, i, n, lower, f) implies #[trigger] hc(p, i, n, lower, f) < hc(p, i, n, lower, e) by { hc_mono(p, i, n, lower, f + 1, e); }
}
