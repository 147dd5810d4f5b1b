//@uses graph count
// ---------------------------------------------------------------- compressed transposition: entry e = (row i[e], column src(e)) goes to slot(i, E, e)
pub proof fn src_mono(p: Seq<i32>, n: int, e: int, f: int)
    requires ptrs(p, n), 0 <= e <= f < p[n],
    ensures src(p, n, e) <= src(p, n, f),
{ src_ex(p, n, e); src_ex(p, n, f); let a = src(p, n, e); let b = src(p, n, f); if a > b { assert(p[b + 1] <= p[a]); } }
pub open spec fn tr_from(p: Seq<i32>, i: Seq<i32>, n: int, ti: Seq<i32>, v: int, q: int) -> bool {
    exists|e: int| 0 <= e < p[n] && i[e] == v && #[trigger] slot(i, p[n] as int, e) == q && ti[q] == src(p, n, e)
}
pub open spec fn sorted_in(tp: Seq<i32>, ti: Seq<i32>, v: int) -> bool {
    forall|q: int, r: int| tp[v] <= q <= r < tp[v + 1] ==> #[trigger] ti[q] <= #[trigger] ti[r]
}
pub open spec fn tr_done(p: Seq<i32>, i: Seq<i32>, n: int, ti: Seq<i32>, k: int) -> bool {
    forall|e: int| 0 <= e < k ==> ti[#[trigger] slot(i, p[n] as int, e)] == src(p, n, e)
}
pub open spec fn is_transpose(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>, m: int) -> bool {
    let ne = p[n] as int;
    ptrs(tp, m) && tp[m] == ne && ti.len() >= ne
    && (forall|v: int| 0 <= v <= m ==> #[trigger] tp[v] == start(i, ne, v))
    && (forall|e: int| 0 <= e < ne ==> 0 <= #[trigger] slot(i, ne, e) < ne)
    && tr_done(p, i, n, ti, ne)
    && (forall|v: int, q: int| 0 <= v < m && tp[v] <= q < tp[v + 1] ==> #[trigger] tr_from(p, i, n, ti, v, q))
    && (forall|v: int| 0 <= v < m ==> #[trigger] sorted_in(tp, ti, v))
    && (forall|q: int| 0 <= q < ne ==> 0 <= #[trigger] ti[q] < n)
}
pub open spec fn tr_vals(i: Seq<i32>, x: Seq<F64>, ne: int, tx: Seq<F64>, k: int) -> bool {
    forall|e: int| 0 <= e < k ==> tx[#[trigger] slot(i, ne, e)] == x[e]
}
pub proof fn tr_finish(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>, m: int)
    requires ptrs(p, n), i.len() >= p[n], forall|e: int| 0 <= e < p[n] ==> 0 <= #[trigger] i[e] < m, m >= 0, tp.len() > m, ti.len() >= p[n],
        forall|v: int| 0 <= v <= m ==> #[trigger] tp[v] == start(i, p[n] as int, v), tr_done(p, i, n, ti, p[n] as int),
    ensures is_transpose(p, i, n, tp, ti, m),
{
    let ne = p[n] as int;
    start_le(i, ne, m);
    assert forall|a: int, b: int| 0 <= a <= b <= m implies #[trigger] tp[a] <= #[trigger] tp[b] by { start_mono(i, ne, a, b); }
    assert forall|e: int| 0 <= e < ne implies 0 <= #[trigger] slot(i, ne, e) < ne by { slot_in(i, ne, e, m); }
    assert forall|v: int, q: int| 0 <= v < m && tp[v] <= q < tp[v + 1] implies #[trigger] tr_from(p, i, n, ti, v, q) by {
        let e = occ(i, ne, v, q - start(i, ne, v));
        assert(slot(i, ne, e) == q);
    }
    assert forall|v: int| 0 <= v < m implies #[trigger] sorted_in(tp, ti, v) by {
        assert forall|q: int, r: int| tp[v] <= q <= r < tp[v + 1] implies #[trigger] ti[q] <= #[trigger] ti[r] by {
            assert(tr_from(p, i, n, ti, v, q)); assert(tr_from(p, i, n, ti, v, r));
            let e = choose|e: int| 0 <= e < p[n] && i[e] == v && #[trigger] slot(i, p[n] as int, e) == q && ti[q] == src(p, n, e);
            let f = choose|e: int| 0 <= e < p[n] && i[e] == v && #[trigger] slot(i, p[n] as int, e) == r && ti[r] == src(p, n, e);
            if f < e { slot_inj(i, ne, f, e, m); }
            src_mono(p, n, e, f);
        }
    }
    assert forall|q: int| 0 <= q < ne implies 0 <= #[trigger] ti[q] < n by { let e = slot_onto(i, ne, q, m); assert(slot(i, ne, e) == q); src_ex(p, n, e); }
}
// placing entry e (next in order) keeps the earlier ones
pub proof fn tr_place(p: Seq<i32>, i: Seq<i32>, n: int, m: int, c: int, e: int)
    requires ptrs(p, n), i.len() >= p[n], forall|e: int| 0 <= e < p[n] ==> 0 <= #[trigger] i[e] < m, 0 <= c < n, p[c] <= e < p[c + 1],
    ensures src(p, n, e) == c, 0 <= e < p[n], 0 <= i[e] < m, 0 <= slot(i, p[n] as int, e) < p[n], 0 <= cnt(i, e, i[e] as int) <= e,
        0 <= start(i, p[n] as int, i[e] as int) <= p[n],
        forall|f: int| 0 <= f < e ==> #[trigger] slot(i, p[n] as int, f) != slot(i, p[n] as int, e) && 0 <= slot(i, p[n] as int, f) < p[n],
{
    let ne = p[n] as int;
    assert(p[c + 1] <= p[n]);
    assert(p[0] <= p[c]);
    src_is(p, n, c, e);
    slot_in(i, ne, e, m);
    cnt_bounds(i, e, i[e] as int);
    assert forall|f: int| 0 <= f < e implies #[trigger] slot(i, ne, f) != slot(i, ne, e) && 0 <= slot(i, ne, f) < ne by { slot_inj(i, ne, f, e, m); slot_in(i, ne, f, m); }
}
