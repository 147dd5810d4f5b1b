//@uses cc porder pack
// an aggregated schedule: windows of levels, in every window parts that hold whole components
// ---- what a level set gives about windows of its levels
pub ghost struct Lv { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub lev: Seq<i32>, pub lp: Seq<i32>, pub ls: Seq<i32>, pub c: int }
#[verifier::opaque]
pub open spec fn lv_ok(d: Lv) -> bool { dag_in(d.p, d.g, d.n) && level_result_nl(d.p, d.g, d.n, d.lp, d.ls, d.lev, d.c) }
pub open spec fn wn(d: Lv, lb: int, ub: int) -> Win { cc_win(d.p, d.g, d.n, d.lev, lb, ub, d.lp, d.ls) }
pub open spec fn in_lv(d: Lv, q: int) -> bool { d.lp[d.lev[d.ls[q] as int] as int] <= q < d.lp[d.lev[d.ls[q] as int] + 1] }
pub proof fn lv_mk(d: Lv)
    requires dag_in(d.p, d.g, d.n), level_result_nl(d.p, d.g, d.n, d.lp, d.ls, d.lev, d.c),
    ensures lv_ok(d),
{ reveal(lv_ok); }
pub proof fn lv_sizes(d: Lv)
    requires lv_ok(d),
    ensures 0 <= d.c <= d.n < i32::MAX, d.lp.len() > d.c, d.lp[0] == 0, d.lp[d.c] == d.n, d.ls.len() >= d.n, d.lev.len() >= d.n, gwf(d.p, d.g, d.n), d.p[d.n] < i32::MAX, levelled(d.p, d.g, d.n, d.lev), dag_in(d.p, d.g, d.n),
        forall|v: int| 0 <= v < d.n ==> 0 <= #[trigger] d.lev[v] < d.c,
{
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c));
    assert forall|e: int| 0 <= e < d.p[d.n] && #[trigger] d.g[e] != src(d.p, d.n, e) implies d.lev[src(d.p, d.n, e)] < d.lev[d.g[e] as int] by { src_ex(d.p, d.n, e); assert(lv[src(d.p, d.n, e)] < lv[d.g[e] as int]); }
}
pub proof fn lv_mono(d: Lv, a: int, b: int)
    requires lv_ok(d), 0 <= a <= b <= d.c,
    ensures 0 <= d.lp[a] <= d.lp[b] <= d.n,
{
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(d.lp[0] <= d.lp[a] && d.lp[a] <= d.lp[b] && d.lp[b] <= d.lp[d.c]);
}
pub proof fn lv_pos(d: Lv, q: int)
    requires lv_ok(d), 0 <= q < d.n,
    ensures 0 <= d.ls[q] < d.n, 0 <= d.lev[d.ls[q] as int] < d.c, in_lv(d, q), forall|r: int| 0 <= r < d.n && r != q ==> #[trigger] d.ls[r] != d.ls[q],
{
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(0 <= d.ls[q] < d.n && pos[d.ls[q] as int] == q); assert(d.lev[d.ls[q] as int] == lv[d.ls[q] as int]);
    assert forall|r: int| 0 <= r < d.n && r != q implies #[trigger] d.ls[r] != d.ls[q] by { assert(pos[d.ls[r] as int] == r); }
}
pub proof fn lv_at(d: Lv, v: int) -> (q: int)
    requires lv_ok(d), 0 <= v < d.n,
    ensures 0 <= q < d.n, d.ls[q] == v, d.lp[d.lev[v] as int] <= q < d.lp[d.lev[v] + 1],
{
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(lv[v] >= 0); pos[v]
}
pub proof fn lv_pred(d: Lv, v: int) -> (e: int)
    requires lv_ok(d), 0 <= v < d.n, d.lev[v] > 0,
    ensures 0 <= e < d.p[d.n], d.g[e] == v, 0 <= src(d.p, d.n, e) < d.n, d.lev[src(d.p, d.n, e)] == d.lev[v] - 1,
{
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(lv[v] > 0); assert(has_pred_at(d.p, d.g, d.n, lv, v, lv[v] - 1));
    let e = choose|e: int| 0 <= e < d.p[d.n] && #[trigger] d.g[e] == v && src(d.p, d.n, e) != v && lv[src(d.p, d.n, e)] == lv[v] - 1;
    src_ex(d.p, d.n, e); e
}
// positions of a window are the positions of its levels
pub proof fn lv_win(d: Lv, lb: int, ub: int)
    requires lv_ok(d), 0 <= lb <= ub <= d.c,
    ensures win_ok(wn(d, lb, ub)), 0 <= d.lp[lb] <= d.lp[ub] <= d.n, wn(d, lb, ub).k == d.lp[ub] - d.lp[lb], wn(d, lb, ub).nodes.len() == d.lp[ub] - d.lp[lb],
        forall|x: int| 0 <= x < wn(d, lb, ub).k ==> #[trigger] wn(d, lb, ub).nodes[x] == d.ls[d.lp[lb] + x],
{
    lv_sizes(d); lv_mono(d, lb, ub); let w = wn(d, lb, ub); let o = d.lp[lb] as int;
    assert forall|x: int| 0 <= x < w.k implies 0 <= #[trigger] w.nodes[x] < w.n && inwin(w, w.nodes[x] as int) by {
        lv_pos(d, o + x); let l = d.lev[d.ls[o + x] as int] as int;
        if l < lb { lv_mono(d, l + 1, lb); } if l >= ub { lv_mono(d, ub, l); }
    }
    assert forall|x: int, y: int| 0 <= x < y < w.k implies #[trigger] w.nodes[x] != #[trigger] w.nodes[y] by { lv_pos(d, o + x); assert(d.ls[o + y] != d.ls[o + x]); }
    assert forall|v: int| 0 <= v < w.n && #[trigger] inwin(w, v) implies member(w, v) by {
        let q = lv_at(d, v); let l = d.lev[v] as int; lv_mono(d, lb, l); lv_mono(d, l + 1, ub); assert(w.nodes[q - o] == v);
    }
}
// ---- labels are canonical: the label of a node is the first position of its component
pub proof fn cc_same(w: Win, np: Seq<i32>, np0: Seq<i32>, mp: Seq<i32>, mp0: Seq<i32>)
    requires win_ok(w), is_cc(w, np, np0), is_cc(w, mp, mp0),
    ensures forall|i: int| 0 <= i < w.k ==> #[trigger] f(w, np, i) == f(w, mp, i),
{
    assert forall|i: int| 0 <= i < w.k implies #[trigger] f(w, np, i) == f(w, mp, i) by { cc_below(w, np, np0, mp, mp0, i); cc_below(w, mp, mp0, np, np0, i); }
}
pub open spec fn lab_of(w: Win, np: Seq<i32>) -> Seq<int> { Seq::new(w.n as nat, |v: int| np[v] as int) }
proof fn cc_resp(w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), is_cc(w, np, np0),
    ensures resp(w, lab_of(w, np)),
{
    let lab = lab_of(w, np);
    assert forall|e: int| #[trigger] wedge(w, e) implies lab[src(w.p, w.n, e)] == lab[w.g[e] as int] by { assert(esame(w, np, e)); src_ex(w.p, w.n, e); }
}
proof fn cc_below(w: Win, np: Seq<i32>, np0: Seq<i32>, mp: Seq<i32>, mp0: Seq<i32>, i: int)
    requires win_ok(w), is_cc(w, np, np0), is_cc(w, mp, mp0), 0 <= i < w.k,
    ensures f(w, mp, i) <= f(w, np, i),
{
    cc_resp(w, mp, mp0); let lab = lab_of(w, mp); assert(glued(w, np, lab)); let r = f(w, np, i); assert(lab_ok(w, np, i));
    assert(0 <= w.nodes[i] < w.n); assert(0 <= w.nodes[r] < w.n); assert(lab[w.nodes[i] as int] == lab[w.nodes[r] as int]); assert(lab_ok(w, mp, r));
}
pub open spec fn some_cc(w: Win, np: Seq<i32>) -> bool { exists|np0: Seq<i32>| is_cc(w, np, np0) }
pub open spec fn ncomp(w: Win) -> int { let np = choose|np: Seq<i32>| some_cc(w, np); rootcnt(w, np, w.k) }
proof fn rootcnt_same(w: Win, np: Seq<i32>, mp: Seq<i32>, l: int)
    requires forall|i: int| 0 <= i < w.k ==> #[trigger] f(w, np, i) == f(w, mp, i),
    ensures rootcnt(w, np, l) == rootcnt(w, mp, l),
    decreases l
{ if l > 0 { rootcnt_same(w, np, mp, l - 1); if l - 1 < w.k { assert(f(w, np, l - 1) == f(w, mp, l - 1)); } } }
pub proof fn ncomp_is(w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), is_cc(w, np, np0),
    ensures ncomp(w) == rootcnt(w, np, w.k), 0 <= ncomp(w) <= w.k,
{
    assert(some_cc(w, np)); let mp = choose|np: Seq<i32>| some_cc(w, np); assert(some_cc(w, mp)); let mp0 = choose|mp0: Seq<i32>| is_cc(w, mp, mp0);
    cc_same(w, np, np0, mp, mp0); rootcnt_same(w, np, mp, w.k); rootcnt_le(w, np, 0, w.k);
}
// the same window listed in a longer array
pub proof fn win_conv(w: Win, v: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), v.p == w.p, v.g == w.g, v.n == w.n, v.lev == w.lev, v.lb == w.lb, v.ub == w.ub, v.k == w.k, v.nodes.len() >= w.k, forall|x: int| 0 <= x < w.k ==> #[trigger] v.nodes[x] == w.nodes[x],
    ensures win_ok(v), is_cc(v, np, np0) ==> is_cc(w, np, np0),
{
    assert forall|x: int| 0 <= x < v.k implies 0 <= #[trigger] v.nodes[x] < v.n && inwin(v, v.nodes[x] as int) by { assert(v.nodes[x] == w.nodes[x]); assert(0 <= w.nodes[x] < w.n && inwin(w, w.nodes[x] as int)); }
    assert forall|x: int, y: int| 0 <= x < y < v.k implies #[trigger] v.nodes[x] != #[trigger] v.nodes[y] by { assert(w.nodes[x] != w.nodes[y]); }
    assert forall|u: int| member(w, u) implies #[trigger] member(v, u) by { let x = choose|x: int| 0 <= x < w.k && w.nodes[x] == u; assert(v.nodes[x] == u); }
    assert forall|u: int| 0 <= u < v.n && #[trigger] inwin(v, u) implies member(v, u) by { assert(inwin(w, u)); }
    if is_cc(v, np, np0) {
        assert forall|i: int| 0 <= i < w.k implies #[trigger] f(w, np, i) == f(v, np, i) by { assert(v.nodes[i] == w.nodes[i]); }
        assert forall|i: int| 0 <= i < w.k implies #[trigger] lab_ok(w, np, i) by { assert(lab_ok(v, np, i)); assert(f(w, np, i) == f(v, np, i)); }
        assert forall|i: int| 0 <= i < w.k implies #[trigger] is_root(w, np, i) by { assert(is_root(v, np, i)); assert(lab_ok(v, np, i)); assert(f(w, np, i) == f(v, np, i)); assert(f(w, np, f(w, np, i)) == f(v, np, f(v, np, i))); }
        assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued(w, np, lab) by {
            assert forall|e: int| #[trigger] wedge(v, e) implies lab[src(v.p, v.n, e)] == lab[v.g[e] as int] by { assert(wedge(w, e)); }
            assert(resp(v, lab)); assert(glued(v, np, lab));
            assert forall|i: int| 0 <= i < w.k implies lab[w.nodes[i] as int] == lab[w.nodes[#[trigger] f(w, np, i)] as int] by { assert(f(w, np, i) == f(v, np, i)); assert(lab_ok(v, np, i)); assert(v.nodes[i] == w.nodes[i]); assert(v.nodes[f(v, np, i)] == w.nodes[f(v, np, i)]); }
        }
        assert forall|u: int| 0 <= u < np.len() && !member(w, u) implies #[trigger] np[u] == np0[u] by { if member(v, u) { let x = choose|x: int| 0 <= x < v.k && v.nodes[x] == u; assert(w.nodes[x] == u); } }
        assert forall|e: int| #[trigger] wedge(w, e) implies esame(w, np, e) by { assert(wedge(v, e)); assert(esame(v, np, e)); }
    }
}
// only the labels outside the window tie a result to the labels before it
pub proof fn cc_base(w: Win, np: Seq<i32>, np0: Seq<i32>, mp0: Seq<i32>)
    requires is_cc(w, np, np0), mp0.len() == np0.len(), forall|v: int| 0 <= v < np0.len() && !member(w, v) ==> #[trigger] np0[v] == mp0[v],
    ensures is_cc(w, np, mp0),
{ assert forall|v: int| 0 <= v < np.len() && !member(w, v) implies #[trigger] np[v] == mp0[v] by { assert(np[v] == np0[v]); } }
pub open spec fn minus(n: int) -> Seq<i32> { Seq::new(n as nat, |v: int| -1i32) }
pub proof fn prior_zero(w: Win, np: Seq<i32>)
    requires win_ok(w), np.len() == w.n, forall|v: int| 0 <= v < w.n ==> #[trigger] np[v] == -1,
    ensures prior_ok(w, np, 0),
{ assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued_to(w, np, lab, 0) by { } assert forall|i: int| 0 <= i < w.k implies np[#[trigger] w.nodes[i] as int] == -1 by { assert(0 <= w.nodes[i] < w.n); } }
// the labels of the window lb..ub serve as a start for lb..ub2
pub proof fn lv_prior(d: Lv, lb: int, ub: int, ub2: int, np: Seq<i32>, np0: Seq<i32>)
    requires lv_ok(d), 0 <= lb <= ub <= ub2 <= d.c, is_cc(wn(d, lb, ub), np, np0), np.len() == d.n, forall|v: int| 0 <= v < d.n && !member(wn(d, lb, ub), v) ==> #[trigger] np0[v] == -1,
    ensures prior_ok(wn(d, lb, ub2), np, wn(d, lb, ub).k), is_cc(wn(d, lb, ub), np, minus(d.n)), forall|v: int| 0 <= v < d.n && !member(wn(d, lb, ub2), v) ==> #[trigger] np[v] == -1,
{
    lv_win(d, lb, ub); lv_win(d, lb, ub2); lv_mono(d, ub, ub2); let w1 = wn(d, lb, ub); let w = wn(d, lb, ub2); cc_base(w1, np, np0, minus(d.n));
    assert forall|i: int| 0 <= i < w1.k implies w1.nodes[i] == #[trigger] w.nodes[i] by { assert(w1.nodes[i] == d.ls[d.lp[lb] + i]); assert(w.nodes[i] == d.ls[d.lp[lb] + i]); }
    prior_from_cc(w1, w, np, minus(d.n));
}
// a window with more levels has no more components
pub proof fn ncomp_grow(d: Lv, lb: int, ub: int, np: Seq<i32>, np0: Seq<i32>, mp: Seq<i32>, mp0: Seq<i32>)
    requires lv_ok(d), 0 <= lb < ub, ub + 1 <= d.c, is_cc(wn(d, lb, ub), np, np0), is_cc(wn(d, lb, ub + 1), mp, mp0),
    ensures ncomp(wn(d, lb, ub + 1)) <= ncomp(wn(d, lb, ub)),
{
    lv_win(d, lb, ub); lv_win(d, lb, ub + 1); lv_mono(d, ub, ub + 1); let v = wn(d, lb, ub); let w = wn(d, lb, ub + 1); ncomp_is(v, np, np0); ncomp_is(w, mp, mp0);
    assert forall|i: int| 0 <= i < v.k implies v.nodes[i] == #[trigger] w.nodes[i] by { assert(v.nodes[i] == d.ls[d.lp[lb] + i]); assert(w.nodes[i] == d.ls[d.lp[lb] + i]); }
    lv_sizes(d);
    assert forall|i: int| 0 <= i < v.k && #[trigger] f(w, mp, i) == i implies f(v, np, i) == i by {
        cc_resp(w, mp, mp0); let lab = lab_of(w, mp);
        assert forall|e: int| #[trigger] wedge(v, e) implies lab[src(v.p, v.n, e)] == lab[v.g[e] as int] by { assert(wedge(w, e)); }
        assert(resp(v, lab)); assert(glued(v, np, lab)); let r = f(v, np, i); assert(lab_ok(v, np, i)); assert(lab[v.nodes[i] as int] == lab[v.nodes[r] as int]);
        assert(v.nodes[i] == w.nodes[i]); assert(v.nodes[r] == w.nodes[r]); assert(0 <= w.nodes[i] < w.n); assert(0 <= w.nodes[r] < w.n); assert(lab_ok(w, mp, r)); assert(f(w, mp, r) == f(w, mp, i));
    }
    assert forall|i: int| v.k <= i < w.k implies #[trigger] f(w, mp, i) != i by {
        let q = d.lp[lb] + i; lv_pos(d, q); let x = d.ls[q] as int; let l = d.lev[x] as int; assert(w.nodes[i] == x); if l < ub { lv_mono(d, l + 1, ub); } assert(inwin(w, x)); assert(l == ub);
        let e = lv_pred(d, x); let u = src(d.p, d.n, e); assert(inwin(w, u)); assert(inwin(v, u)); assert(wedge(w, e)); assert(esame(w, mp, e)); assert(member(v, u));
        let j = choose|j: int| 0 <= j < v.k && v.nodes[j] == u; assert(w.nodes[j] == u); assert(lab_ok(w, mp, j));
    }
    root_grow(v, w, np, mp, w.k);  rootcnt_le(v, np, v.k, w.k);
}
proof fn root_grow(v: Win, w: Win, np: Seq<i32>, mp: Seq<i32>, l: int)
    requires 0 <= l <= w.k, v.k <= w.k, forall|i: int| 0 <= i < v.k && #[trigger] f(w, mp, i) == i ==> f(v, np, i) == i, forall|i: int| v.k <= i < w.k ==> #[trigger] f(w, mp, i) != i,
    ensures rootcnt(w, mp, l) <= rootcnt(v, np, l),
    decreases l
{ if l > 0 { root_grow(v, w, np, mp, l - 1); if f(w, mp, l - 1) == l - 1 { assert(l - 1 < v.k); } } }
// ---- sorting the nodes of a window by component
pub open spec fn cneq(w: Win, np: Seq<i32>, m: int, l: int) -> int
    decreases m
{ if m <= 0 { 0 } else { cneq(w, np, m - 1, l) + (if f(w, np, m - 1) == l { 1int } else { 0int }) } }
pub open spec fn cbase(w: Win, np: Seq<i32>, l: int) -> int
    decreases l
{ if l <= 0 { 0 } else { cbase(w, np, l - 1) + cneq(w, np, w.k, l - 1) } }
pub open spec fn vcnt(np: Seq<i32>, m: int, l: int) -> int
    decreases m
{ if m <= 0 { 0 } else { vcnt(np, m - 1, l) + (if np[m - 1] == l { 1int } else { 0int }) } }
pub open spec fn cpos(w: Win, np: Seq<i32>, i: int) -> int { cbase(w, np, f(w, np, i)) + cneq(w, np, i, f(w, np, i)) }
pub proof fn cneq_le(w: Win, np: Seq<i32>, a: int, b: int, l: int)
    requires a <= b,
    ensures 0 <= cneq(w, np, a, l) <= cneq(w, np, b, l), b >= 0 ==> cneq(w, np, b, l) <= b,
    decreases b
{ if b > 0 { if a < b { cneq_le(w, np, a, b - 1, l); } else { cneq_le(w, np, b - 1, b - 1, l); } } }
pub proof fn cbase_le(w: Win, np: Seq<i32>, a: int, b: int)
    requires a <= b, w.k >= 0,
    ensures 0 <= cbase(w, np, a) <= cbase(w, np, b),
    decreases b
{ if b > 0 { cneq_le(w, np, 0, w.k, b - 1); if a < b { cbase_le(w, np, a, b - 1); } else { cbase_le(w, np, b - 1, b - 1); } } }
pub open spec fn amongw(w: Win, m: int, v: int) -> bool { exists|i: int| 0 <= i < m && w.nodes[i] == v }
pub open spec fn amf(w: Win, np: Seq<i32>, m: int, l: int) -> spec_fn(int) -> int { |v: int| if amongw(w, m, v) && np[v] == l { 1int } else { 0int } }
pub open spec fn labf(np: Seq<i32>, l: int) -> spec_fn(int) -> int { |v: int| if np[v] == l { 1int } else { 0int } }
proof fn vcnt_sum(np: Seq<i32>, m: int, l: int)
    ensures vcnt(np, m, l) == sum(labf(np, l), m),
    decreases m
{ if m > 0 { vcnt_sum(np, m - 1, l); } }
proof fn cneq_sum(w: Win, np: Seq<i32>, m: int, l: int)
    requires win_ok(w), 0 <= m <= w.k,
    ensures cneq(w, np, m, l) == sum(amf(w, np, m, l), w.n),
    decreases m
{
    if m == 0 { sum_zero(amf(w, np, 0, l), w.n); }
    else {
        cneq_sum(w, np, m - 1, l); let a = amf(w, np, m - 1, l); let b = amf(w, np, m, l); let j = w.nodes[m - 1] as int; assert(0 <= w.nodes[m - 1] < w.n);
        assert forall|v: int| 0 <= v < w.n && v != j implies #[trigger] a(v) == b(v) by {
            if amongw(w, m, v) { let i = choose|i: int| 0 <= i < m && w.nodes[i] == v; assert(i != m - 1); assert(amongw(w, m - 1, v)); }
            if amongw(w, m - 1, v) { let i = choose|i: int| 0 <= i < m - 1 && w.nodes[i] == v; assert(amongw(w, m, v)); }
        }
        assert(!amongw(w, m - 1, j)) by { if amongw(w, m - 1, j) { let i = choose|i: int| 0 <= i < m - 1 && w.nodes[i] == j; assert(w.nodes[i] != w.nodes[m - 1]); } }
        assert(amongw(w, m, j)); sum_point(a, b, w.n, j);
    }
}
// counting labels over the nodes is counting them over the window
pub proof fn vcnt_is(w: Win, np: Seq<i32>, l: int)
    requires win_ok(w), is_cc(w, np, minus(w.n)), np.len() == w.n, l >= 0,
    ensures vcnt(np, w.n, l) == cneq(w, np, w.k, l),
{
    vcnt_sum(np, w.n, l); cneq_sum(w, np, w.k, l); let a = labf(np, l); let b = amf(w, np, w.k, l);
    assert forall|v: int| 0 <= v < w.n implies #[trigger] a(v) == b(v) by { if np[v] == l { if !member(w, v) { assert(np[v] == minus(w.n)[v]); } let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(amongw(w, w.k, v)); } }
    sum_eq(a, b, w.n);
}
// a label is used exactly by the roots
pub proof fn cneq_root(w: Win, np: Seq<i32>, np0: Seq<i32>, l: int)
    requires win_ok(w), is_cc(w, np, np0), l >= 0,
    ensures cneq(w, np, w.k, l) > 0 <==> l < w.k && f(w, np, l) == l, cneq(w, np, w.k, l) >= 0,
{
    cneq_le(w, np, 0, w.k, l);
    if l < w.k && f(w, np, l) == l { cneq_le(w, np, l + 1, w.k, l); cneq_le(w, np, 0, l, l); }
    if cneq(w, np, w.k, l) > 0 { let i = cneq_some(w, np, w.k, l); assert(lab_ok(w, np, i)); assert(is_root(w, np, i)); }
}
proof fn cneq_some(w: Win, np: Seq<i32>, m: int, l: int) -> (i: int)
    requires cneq(w, np, m, l) > 0,
    ensures 0 <= i < m, f(w, np, i) == l,
    decreases m
{ if f(w, np, m - 1) == l { m - 1 } else { cneq_some(w, np, m - 1, l) } }
pub open spec fn labsum(w: Win, np: Seq<i32>, m: int) -> spec_fn(int) -> int { |l: int| cneq(w, np, m, l) }
proof fn labs_all(w: Win, np: Seq<i32>, np0: Seq<i32>, m: int, n: int)
    requires win_ok(w), is_cc(w, np, np0), 0 <= m <= w.k, n >= w.k,
    ensures sum(labsum(w, np, m), n) == m,
    decreases m
{
    if m == 0 { assert forall|l: int| 0 <= l < n implies #[trigger] labsum(w, np, 0)(l) == 0 by { } sum_zero(labsum(w, np, 0), n); }
    else { labs_all(w, np, np0, m - 1, n); let a = labsum(w, np, m - 1); let b = labsum(w, np, m); assert(lab_ok(w, np, m - 1)); let j = f(w, np, m - 1);
        assert forall|l: int| 0 <= l < n && l != j implies #[trigger] a(l) == b(l) by { } sum_point(a, b, n, j); }
}
proof fn cbase_sum(w: Win, np: Seq<i32>, l: int)
    ensures cbase(w, np, l) == sum(labsum(w, np, w.k), l),
    decreases l
{ if l > 0 { cbase_sum(w, np, l - 1); } }
pub proof fn cbase_all(w: Win, np: Seq<i32>, np0: Seq<i32>, l: int)
    requires win_ok(w), is_cc(w, np, np0), l >= w.k,
    ensures cbase(w, np, l) == w.k,
{ cbase_sum(w, np, l); labs_all(w, np, np0, w.k, l); }
pub proof fn cpos_in(w: Win, np: Seq<i32>, np0: Seq<i32>, i: int)
    requires win_ok(w), is_cc(w, np, np0), 0 <= i < w.k,
    ensures 0 <= cbase(w, np, f(w, np, i)) <= cpos(w, np, i) < cbase(w, np, f(w, np, i) + 1) <= w.k, 0 <= f(w, np, i) <= i,
{
    assert(lab_ok(w, np, i)); let l = f(w, np, i); cneq_le(w, np, i + 1, w.k, l); cneq_le(w, np, 0, i, l); cbase_le(w, np, 0, l); cbase_all(w, np, np0, w.k); cbase_le(w, np, l + 1, w.k);
}
pub proof fn cpos_inj(w: Win, np: Seq<i32>, np0: Seq<i32>, i: int, j: int)
    requires win_ok(w), is_cc(w, np, np0), 0 <= i < j < w.k,
    ensures cpos(w, np, i) != cpos(w, np, j), f(w, np, i) == f(w, np, j) ==> cpos(w, np, i) < cpos(w, np, j),
{
    cpos_in(w, np, np0, i); cpos_in(w, np, np0, j); let a = f(w, np, i); let b = f(w, np, j);
    if a == b { cneq_le(w, np, i + 1, j, a); } else if a < b { cbase_le(w, np, a + 1, b); } else { cbase_le(w, np, b + 1, a); }
}
// counting
#[verifier::opaque]
pub open spec fn cntv(w: Win, np: Seq<i32>, c: Seq<i32>, m: int) -> bool { c.len() == w.n + 1 && c[0] == 0 && forall|l: int| 1 <= l <= w.n ==> #[trigger] c[l] == vcnt(np, m, l - 1) }
pub proof fn vcnt_le(np: Seq<i32>, m: int, l: int)
    ensures 0 <= vcnt(np, m, l), m >= 0 ==> vcnt(np, m, l) <= m,
    decreases m
{ if m > 0 { vcnt_le(np, m - 1, l); } }
pub proof fn lab_range(w: Win, np: Seq<i32>, v: int)
    requires win_ok(w), is_cc(w, np, minus(w.n)), 0 <= v < w.n,
    ensures np.len() == w.n, np[v] == -1 || 0 <= np[v] < w.k, w.k <= w.n,
{
    win_fits(w);
    if !member(w, v) { assert(np[v] == minus(w.n)[v]); } else { let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(lab_ok(w, np, i)); }
}
pub proof fn cntv_init(w: Win, np: Seq<i32>, c: Seq<i32>)
    requires w.n >= 0, c.len() == w.n + 1, forall|l: int| 0 <= l < c.len() ==> #[trigger] c[l] == 0,
    ensures cntv(w, np, c, 0),
{ reveal(cntv); }
pub proof fn cntv_step(w: Win, np: Seq<i32>, c: Seq<i32>, m: int)
    requires cntv(w, np, c, m), win_ok(w), is_cc(w, np, minus(w.n)), 0 <= m < w.n,
    ensures c.len() == w.n + 1, np.len() == w.n, np[m] == -1 ==> cntv(w, np, c, m + 1), np[m] != -1 ==> 0 <= np[m] < w.n && 0 <= c[np[m] + 1] < w.n && cntv(w, np, c.update(np[m] + 1, (c[np[m] + 1] + 1) as i32), m + 1),
{
    reveal(cntv); lab_range(w, np, m); let l0 = np[m] as int;
    if l0 != -1 { vcnt_le(np, m, l0); assert(c[l0 + 1] == vcnt(np, m, l0)); let c2 = c.update(l0 + 1, (c[l0 + 1] + 1) as i32);
        assert forall|l: int| 1 <= l <= w.n implies #[trigger] c2[l] == vcnt(np, m + 1, l - 1) by { assert(c[l] == vcnt(np, m, l - 1)); } }
}
// prefix sums
#[verifier::opaque]
pub open spec fn scanv(w: Win, np: Seq<i32>, c: Seq<i32>, i: int) -> bool {
    c.len() == w.n + 1 && (forall|l: int| 0 <= l <= i && l <= w.n ==> #[trigger] c[l] == cbase(w, np, l)) && (forall|l: int| i < l <= w.n ==> #[trigger] c[l] == cneq(w, np, w.k, l - 1))
}
pub proof fn scanv_init(w: Win, np: Seq<i32>, c: Seq<i32>)
    requires cntv(w, np, c, w.n), win_ok(w), is_cc(w, np, minus(w.n)), np.len() == w.n,
    ensures scanv(w, np, c, 1), c.len() == w.n + 1,
{
    reveal(cntv); reveal(scanv);
    assert forall|l: int| 1 <= l <= w.n implies #[trigger] c[l] == cneq(w, np, w.k, l - 1) by { vcnt_is(w, np, l - 1); }
    if w.n >= 1 { assert(cbase(w, np, 1) == cbase(w, np, 0) + cneq(w, np, w.k, 0)); assert(c[1] == cneq(w, np, w.k, 0)); }
}
pub proof fn scanv_step(w: Win, np: Seq<i32>, c: Seq<i32>, i: int)
    requires scanv(w, np, c, i), 1 <= i < w.n, win_ok(w), is_cc(w, np, minus(w.n)),
    ensures c.len() == w.n + 1, 0 <= c[i] <= w.k, 0 <= c[i + 1], c[i] + c[i + 1] <= w.k, scanv(w, np, c.update(i + 1, (c[i + 1] + c[i]) as i32), i + 1),
{
    reveal(scanv); win_fits(w); cbase_le(w, np, 0, i + 1); cbase_all(w, np, minus(w.n), w.n); cbase_le(w, np, i + 1, w.n); cneq_le(w, np, 0, w.k, i);
    assert(c[i] == cbase(w, np, i)); assert(c[i + 1] == cneq(w, np, w.k, i)); cbase_le(w, np, 0, i);
}
pub proof fn scanv_end(w: Win, np: Seq<i32>, c: Seq<i32>, i: int)
    requires scanv(w, np, c, i), i >= w.n,
    ensures ctr(w, np, c, 0), c.len() == w.n + 1, forall|l: int| 0 <= l <= w.n ==> #[trigger] c[l] == cbase(w, np, l),
{ reveal(scanv); reveal(ctr); }
// parts: one for every label in use
#[verifier::opaque]
pub open spec fn pptr(w: Win, np: Seq<i32>, p: Seq<i32>, i: int) -> bool {
    p.len() == rootcnt(w, np, i) + 1 && p[0] == 0 && p.last() == cbase(w, np, i) && (forall|a: int, b: int| 0 <= a <= b < p.len() ==> #[trigger] p[a] <= #[trigger] p[b])
    && forall|l: int| 0 <= l < i && l < w.k && #[trigger] f(w, np, l) == l ==> pt_at(w, np, p, l)
}
pub open spec fn pt_at(w: Win, np: Seq<i32>, p: Seq<i32>, l: int) -> bool { let r = rootcnt(w, np, l); 0 <= r && r + 1 < p.len() && p[r] == cbase(w, np, l) && p[r + 1] == cbase(w, np, l + 1) }
pub proof fn pptr_init(w: Win, np: Seq<i32>, p: Seq<i32>)
    requires p.len() == 1, p[0] == 0,
    ensures pptr(w, np, p, 0),
{ reveal(pptr); }
pub proof fn pptr_step(w: Win, np: Seq<i32>, p: Seq<i32>, i: int, c0: i32, c1: i32)
    requires pptr(w, np, p, i), win_ok(w), is_cc(w, np, minus(w.n)), 0 <= i < w.n, c0 == cbase(w, np, i), c1 == cbase(w, np, i + 1),
    ensures pptr(w, np, if c1 != c0 { p.push(c1) } else { p }, i + 1),
{
    reveal(pptr); cneq_root(w, np, minus(w.n), i); rootcnt_le(w, np, 0, i); cbase_le(w, np, i, i + 1); let p2 = if c1 != c0 { p.push(c1) } else { p };
    assert(p.last() == c0);
    assert forall|a: int, b: int| 0 <= a <= b < p2.len() implies #[trigger] p2[a] <= #[trigger] p2[b] by { if b < p.len() { assert(p[a] <= p[b]); } else if a < p.len() { assert(p[a] <= p[p.len() - 1]); } }
    assert forall|l: int| 0 <= l < i + 1 && l < w.k && #[trigger] f(w, np, l) == l implies pt_at(w, np, p2, l) by { if l < i { assert(pt_at(w, np, p, l)); } }
}
// filling in
#[verifier::opaque]
pub open spec fn ctr(w: Win, np: Seq<i32>, c: Seq<i32>, i: int) -> bool { c.len() == w.n + 1 && forall|l: int| 0 <= l <= w.n ==> #[trigger] c[l] == cbase(w, np, l) + cneq(w, np, i, l) }
#[verifier::opaque]
pub open spec fn scat(w: Win, np: Seq<i32>, s: Seq<i32>, i: int) -> bool { s.len() == w.k && forall|j: int| 0 <= j < i ==> s[#[trigger] cpos(w, np, j)] == w.nodes[j] }
pub proof fn scat_init(w: Win, np: Seq<i32>, s: Seq<i32>)
    requires s.len() == w.k,
    ensures scat(w, np, s, 0),
{ reveal(scat); }
pub proof fn scat_step(w: Win, np: Seq<i32>, c: Seq<i32>, s: Seq<i32>, i: int)
    requires ctr(w, np, c, i), scat(w, np, s, i), win_ok(w), is_cc(w, np, minus(w.n)), 0 <= i < w.k,
    ensures 0 <= w.nodes[i] < w.n, np.len() == w.n, 0 <= np[w.nodes[i] as int] < w.n, c.len() == w.n + 1, s.len() == w.k, 0 <= c[np[w.nodes[i] as int] as int] < w.k,
        ctr(w, np, c.update(np[w.nodes[i] as int] as int, (c[np[w.nodes[i] as int] as int] + 1) as i32), i + 1), scat(w, np, s.update(c[np[w.nodes[i] as int] as int] as int, w.nodes[i]), i + 1),
{
    reveal(ctr); reveal(scat); win_fits(w); assert(0 <= w.nodes[i] < w.n); cpos_in(w, np, minus(w.n), i); let l0 = f(w, np, i); assert(c[l0] == cpos(w, np, i));
    let c2 = c.update(l0, (c[l0] + 1) as i32); let s2 = s.update(c[l0] as int, w.nodes[i]);
    assert forall|l: int| 0 <= l <= w.n implies #[trigger] c2[l] == cbase(w, np, l) + cneq(w, np, i + 1, l) by { assert(c[l] == cbase(w, np, l) + cneq(w, np, i, l)); }
    assert forall|j: int| 0 <= j < i + 1 implies s2[#[trigger] cpos(w, np, j)] == w.nodes[j] by { if j < i { cpos_inj(w, np, minus(w.n), j, i); cpos_in(w, np, minus(w.n), j); } }
}
// ---- one window of the schedule: s lists its nodes, part q is b[q] .. b[q + 1]
pub open spec fn toi(s: Seq<i32>) -> Seq<int> { Seq::new(s.len(), |x: int| s[x] as int) }
pub open spec fn bnds(k: int, b: Seq<int>) -> bool { b.len() >= 1 && b[0] == 0 && b[b.len() - 1] == k && forall|i: int, j: int| 0 <= i <= j < b.len() ==> #[trigger] b[i] <= #[trigger] b[j] }
pub open spec fn lists_once(w: Win, s: Seq<i32>) -> bool { s.len() == w.k && (forall|x: int| 0 <= x < w.k ==> member(w, #[trigger] s[x] as int)) && forall|x: int, y: int| 0 <= x < y < w.k ==> #[trigger] s[x] != #[trigger] s[y] }
pub open spec fn prt(b: Seq<int>, q: int, x: int) -> bool { 0 <= q && q + 1 < b.len() && b[q] <= x < b[q + 1] }
pub open spec fn together(s: Seq<i32>, b: Seq<int>, u: int, v: int) -> bool { exists|q: int, x: int, y: int| #[trigger] prt(b, q, x) && #[trigger] prt(b, q, y) && s[x] == u && s[y] == v }
pub open spec fn before(s: Seq<i32>, b: Seq<int>, u: int, v: int) -> bool { exists|q: int, x: int, y: int| #[trigger] prt(b, q, x) && #[trigger] prt(b, q, y) && s[x] == u && s[y] == v && x < y }
#[verifier::opaque]
pub open spec fn wset(w: Win, s: Seq<i32>, b: Seq<int>) -> bool { bnds(w.k, b) && lists_once(w, s) && forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) ==> together(s, b, src(w.p, w.n, e), w.g[e] as int) }
#[verifier::opaque]
pub open spec fn wsched(w: Win, s: Seq<i32>, b: Seq<int>) -> bool { bnds(w.k, b) && lists_once(w, s) && forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) ==> before(s, b, src(w.p, w.n, e), w.g[e] as int) }
pub proof fn order_onto(o: Seq<int>, n: int, j: int)
    requires order_of(o, n), 0 <= j < n,
    ensures exists|k: int| 0 <= k < n && #[trigger] o[k] == j,
{
    if !(exists|k: int| 0 <= k < n && #[trigger] o[k] == j) {
        let t = o.push(j);
        assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies #[trigger] t[x] != #[trigger] t[y] by { if x == n { assert(o[y] != j); } else if y == n { assert(o[x] != j); } else { assert(o[x] != o[y]); } }
        assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < n by { if x < n { assert(t[x] == o[x]); } }
        distinct_len(t, n);
    }
}
pub proof fn lv_order(d: Lv, lb: int, ub: int, a: int, b: int)
    requires lv_ok(d), 0 <= lb <= ub <= d.c, 0 <= a < wn(d, lb, ub).k, 0 <= b < wn(d, lb, ub).k, d.lev[wn(d, lb, ub).nodes[a] as int] < d.lev[wn(d, lb, ub).nodes[b] as int],
    ensures a < b,
{ lv_win(d, lb, ub); let o = d.lp[lb] as int; lv_pos(d, o + a); lv_pos(d, o + b); lv_sizes(d); lv_mono(d, d.lev[d.ls[o + a] as int] + 1, d.lev[d.ls[o + b] as int] as int); }
// every component in its own part, in the order of the levels
pub proof fn comp_sched(d: Lv, lb: int, ub: int, np: Seq<i32>, p: Seq<i32>, s: Seq<i32>)
    requires lv_ok(d), 0 <= lb <= ub <= d.c, is_cc(wn(d, lb, ub), np, minus(d.n)), scat(wn(d, lb, ub), np, s, wn(d, lb, ub).k), pptr(wn(d, lb, ub), np, p, d.n),
    ensures wsched(wn(d, lb, ub), s, toi(p)), p.len() == ncomp(wn(d, lb, ub)) + 1, p.len() >= 1, p.last() == wn(d, lb, ub).k, s.len() == wn(d, lb, ub).k,
{
    let w = wn(d, lb, ub); lv_win(d, lb, ub); lv_sizes(d); win_fits(w); ncomp_is(w, np, minus(d.n)); rootcnt_le(w, np, w.k, w.n); rootcnt_le(w, np, 0, w.n); reveal(pptr); reveal(scat); cbase_all(w, np, minus(d.n), w.n); let b = toi(p); reveal(wsched);
    let o = Seq::new(w.k as nat, |i: int| cpos(w, np, i));
    assert forall|i: int| 0 <= i < w.k implies 0 <= #[trigger] o[i] < w.k by { cpos_in(w, np, minus(d.n), i); }
    assert forall|i: int, j: int| 0 <= i < w.k && 0 <= j < w.k && i != j implies #[trigger] o[i] != #[trigger] o[j] by { if i < j { cpos_inj(w, np, minus(d.n), i, j); } else { cpos_inj(w, np, minus(d.n), j, i); } }
    assert(order_of(o, w.k));
    assert forall|x: int| 0 <= x < w.k implies member(w, #[trigger] s[x] as int) by { order_onto(o, w.k, x); let i = choose|i: int| 0 <= i < w.k && #[trigger] o[i] == x; assert(s[cpos(w, np, i)] == w.nodes[i]); }
    assert forall|x: int, y: int| 0 <= x < y < w.k implies #[trigger] s[x] != #[trigger] s[y] by {
        order_onto(o, w.k, x); let i = choose|i: int| 0 <= i < w.k && #[trigger] o[i] == x; order_onto(o, w.k, y); let j = choose|j: int| 0 <= j < w.k && #[trigger] o[j] == y;
        assert(s[cpos(w, np, i)] == w.nodes[i]); assert(s[cpos(w, np, j)] == w.nodes[j]); if i < j { assert(w.nodes[i] != w.nodes[j]); } else { assert(w.nodes[j] != w.nodes[i]); }
    }
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies #[trigger] b[i] <= #[trigger] b[j] by { assert(p[i] <= p[j]); }
    assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies before(s, b, src(w.p, w.n, e), w.g[e] as int) by {
        src_ex(w.p, w.n, e); let u = src(w.p, w.n, e); let v = w.g[e] as int; assert(member(w, u)); assert(member(w, v)); assert(esame(w, np, e));
        let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == u; let j = choose|j: int| 0 <= j < w.k && w.nodes[j] == v; lv_order(d, lb, ub, i, j);
        cpos_inj(w, np, minus(d.n), i, j); cpos_in(w, np, minus(d.n), i); cpos_in(w, np, minus(d.n), j); let l = f(w, np, i); assert(lab_ok(w, np, i)); assert(is_root(w, np, i)); assert(f(w, np, l) == l); assert(pt_at(w, np, p, l));
        let x = cpos(w, np, i); let y = cpos(w, np, j); let q = rootcnt(w, np, l); assert(s[x] == u); assert(s[y] == v); assert(prt(b, q, x)); assert(prt(b, q, y));
    }
}
// ---- parts joined to the parts of the cores
pub open spec fn least2(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn chunk_ok(c: Seq<i32>, cores: int, parts: int) -> bool { c.len() == cores + 1 && c[0] == 0 && c[cores] >= parts && forall|i: int, j: int| 0 <= i <= j <= cores ==> #[trigger] c[i] <= #[trigger] c[j] }
pub open spec fn joined(b: Seq<int>, c: Seq<i32>, j: int) -> int { b[least2(c[j] as int, b.len() - 1)] }
pub proof fn chunk_at(c: Seq<i32>, cores: int, parts: int, i: int)
    requires chunk_ok(c, cores, parts), 0 <= i <= cores, 0 <= parts,
    ensures 0 <= c[i], c[0] == 0, 0 <= least2(c[i] as int, parts) <= parts,
{ assert(c[0] <= c[i]); }
proof fn chunk_find(c: Seq<i32>, cores: int, q: int, m: int) -> (t: int)
    requires c.len() == cores + 1, c[0] == 0, 0 <= q, 0 < m <= cores, c[m] > q,
    ensures 0 <= t < m, c[t] <= q < c[t + 1],
    decreases m
{ if c[m - 1] <= q { m - 1 } else { chunk_find(c, cores, q, m - 1) } }
pub proof fn join_sched(w: Win, s: Seq<i32>, b: Seq<int>, c: Seq<i32>, cores: int, b2: Seq<int>)
    requires wsched(w, s, b), chunk_ok(c, cores, b.len() - 1), cores >= 1, b2.len() == cores + 1, forall|i: int| 0 <= i <= cores ==> #[trigger] b2[i] == joined(b, c, i),
    ensures wsched(w, s, b2), wset(w, s, b2),
{
    reveal(wsched); reveal(wset); let m = b.len() - 1;
    assert forall|i: int, j: int| 0 <= i <= j < b2.len() implies #[trigger] b2[i] <= #[trigger] b2[j] by { chunk_at(c, cores, m, i); chunk_at(c, cores, m, j); assert(c[i] <= c[j]); assert(b[least2(c[i] as int, m)] <= b[least2(c[j] as int, m)]); }
    chunk_at(c, cores, m, 0); assert(b2[0] == joined(b, c, 0)); assert(b2[cores] == joined(b, c, cores));
    assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies before(s, b2, src(w.p, w.n, e), w.g[e] as int) && together(s, b2, src(w.p, w.n, e), w.g[e] as int) by {
        assert(before(s, b, src(w.p, w.n, e), w.g[e] as int));
        let (q, x, y) = choose|q: int, x: int, y: int| #[trigger] prt(b, q, x) && #[trigger] prt(b, q, y) && s[x] == src(w.p, w.n, e) && s[y] == w.g[e] && x < y;
        let t = chunk_find(c, cores, q, cores); chunk_at(c, cores, m, t); chunk_at(c, cores, m, t + 1); assert(b2[t] == joined(b, c, t)); assert(b2[t + 1] == joined(b, c, t + 1)); assert(b[least2(c[t] as int, m)] <= b[q]); assert(b[q + 1] <= b[least2(c[t + 1] as int, m)]);
        assert(prt(b2, t, x)); assert(prt(b2, t, y));
    }
}
pub proof fn join_bnds(w: Win, s: Seq<i32>, b: Seq<int>)
    requires wset(w, s, b),
    ensures bnds(w.k, b), s.len() == w.k, lists_once(w, s),
{ reveal(wset); }
// ---- ordering the nodes inside the parts
#[verifier::opaque]
pub open spec fn moved_in(t: Seq<i32>, s: Seq<i32>, lo: int, hi: int) -> bool { t.len() == s.len() && (forall|x: int| 0 <= x < s.len() && !(lo <= x < hi) ==> #[trigger] t[x] == s[x]) && exists|o: Seq<int>| reorder(t.subrange(lo, hi), s.subrange(lo, hi), o) }
pub proof fn moved_sort(t: Seq<i32>, s: Seq<i32>, lo: int, hi: int)
    requires perm_range(t, s, lo, hi), 0 <= lo <= hi <= s.len(),
    ensures moved_in(t, s, lo, hi),
{ reveal(moved_in); let o = multiset_order(t.subrange(lo, hi), s.subrange(lo, hi)); }
#[verifier::opaque]
pub open spec fn srt(s: Seq<i32>, b: Seq<int>, q: int, key: Seq<i32>) -> bool { forall|r: int, x: int, y: int| 0 <= r < q && #[trigger] prt(b, r, x) && #[trigger] prt(b, r, y) && x < y ==> key[s[x] as int] <= key[s[y] as int] }
pub proof fn srt_init(s: Seq<i32>, b: Seq<int>, key: Seq<i32>)
    ensures srt(s, b, 0, key),
{ reveal(srt); }
pub proof fn srt_step(w: Win, s: Seq<i32>, t: Seq<i32>, b: Seq<int>, q: int, key: Seq<i32>)
    requires wset(w, s, b), srt(s, b, q, key), 0 <= q, q + 1 < b.len(), moved_in(t, s, b[q], b[q + 1]), forall|x: int, y: int| b[q] <= x <= y < b[q + 1] ==> key[#[trigger] t[x] as int] <= key[#[trigger] t[y] as int],
    ensures wset(w, t, b), srt(t, b, q + 1, key),
{
    reveal(wset); reveal(srt); reveal(moved_in); let lo = b[q]; let hi = b[q + 1]; assert(b[0] <= b[q]); assert(b[q] <= b[q + 1]); assert(b[q + 1] <= b[b.len() - 1]);
    let ta = t.subrange(lo, hi); let sa = s.subrange(lo, hi); let o = choose|o: Seq<int>| reorder(ta, sa, o);
    assert forall|x: int| lo <= x < hi implies #[trigger] t[x] == s[lo + o[x - lo]] && 0 <= o[x - lo] < hi - lo by { assert(ta[x - lo] == sa[o[x - lo]]); }
    assert forall|x: int| 0 <= x < w.k implies member(w, #[trigger] t[x] as int) by { if lo <= x < hi { assert(member(w, s[lo + o[x - lo]] as int)); } else { assert(t[x] == s[x]); } }
    assert forall|x: int, y: int| 0 <= x < y < w.k implies #[trigger] t[x] != #[trigger] t[y] by {
        let x2 = if lo <= x < hi { lo + o[x - lo] } else { x }; let y2 = if lo <= y < hi { lo + o[y - lo] } else { y }; assert(t[x] == s[x2]); assert(t[y] == s[y2]);
        if lo <= x < hi && lo <= y < hi { assert(o[x - lo] != o[y - lo]); } assert(x2 != y2); if x2 < y2 { assert(s[x2] != s[y2]); } else { assert(s[y2] != s[x2]); }
    }
    assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies together(t, b, src(w.p, w.n, e), w.g[e] as int) by {
        assert(together(s, b, src(w.p, w.n, e), w.g[e] as int));
        let (r, x, y) = choose|r: int, x: int, y: int| #[trigger] prt(b, r, x) && #[trigger] prt(b, r, y) && s[x] == src(w.p, w.n, e) && s[y] == w.g[e];
        if r == q {
            order_onto(o, hi - lo, x - lo); let x2 = choose|k: int| 0 <= k < hi - lo && #[trigger] o[k] == x - lo; order_onto(o, hi - lo, y - lo); let y2 = choose|k: int| 0 <= k < hi - lo && #[trigger] o[k] == y - lo;
            assert(t[lo + x2] == s[x]); assert(t[lo + y2] == s[y]); assert(prt(b, q, lo + x2)); assert(prt(b, q, lo + y2));
        } else { prt_apart(w.k, b, q, r, x); prt_apart(w.k, b, q, r, y); assert(t[x] == s[x]); assert(t[y] == s[y]); }
    }
    assert forall|r: int, x: int, y: int| 0 <= r < q + 1 && #[trigger] prt(b, r, x) && #[trigger] prt(b, r, y) && x < y implies key[t[x] as int] <= key[t[y] as int] by { if r < q { prt_apart(w.k, b, q, r, x); prt_apart(w.k, b, q, r, y); assert(t[x] == s[x]); assert(t[y] == s[y]); } }
}
proof fn prt_apart(k: int, b: Seq<int>, q: int, r: int, x: int)
    requires bnds(k, b), 0 <= q, q + 1 < b.len(), prt(b, r, x), r != q,
    ensures !(b[q] <= x < b[q + 1]), 0 <= x < k,
{ assert(b[0] <= b[r]); assert(b[r + 1] <= b[b.len() - 1]); if r < q { assert(b[r + 1] <= b[q]); } else { assert(b[q + 1] <= b[r]); } }
// a key that grows along every edge
pub open spec fn key_ok(p: Seq<i32>, g: Seq<i32>, n: int, key: Seq<i32>) -> bool { forall|e: int| 0 <= e < p[n] && #[trigger] g[e] != src(p, n, e) ==> key[src(p, n, e)] < key[g[e] as int] }
pub proof fn srt_done(w: Win, s: Seq<i32>, b: Seq<int>, key: Seq<i32>)
    requires wset(w, s, b), srt(s, b, b.len() - 1, key), key_ok(w.p, w.g, w.n, key), win_ok(w),
    ensures wsched(w, s, b),
{
    reveal(wset); reveal(srt); reveal(wsched);
    assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies before(s, b, src(w.p, w.n, e), w.g[e] as int) by {
        assert(together(s, b, src(w.p, w.n, e), w.g[e] as int)); let u = src(w.p, w.n, e); let v = w.g[e] as int;
        let (r, x, y) = choose|r: int, x: int, y: int| #[trigger] prt(b, r, x) && #[trigger] prt(b, r, y) && s[x] == u && s[y] == v;
        if y < x { assert(key[s[y] as int] <= key[s[x] as int]); assert(key[u] < key[v]); } assert(x != y);
    }
}
// ---- the whole schedule
// window boundaries
pub open spec fn wm_pre(d: Lv, wm: Seq<i32>) -> bool { wm.len() >= 1 && wm[0] == 0 && wm.last() <= d.c && forall|i: int, j: int| 0 <= i < j < wm.len() ==> #[trigger] wm[i] < #[trigger] wm[j] }
pub open spec fn wm_ok(d: Lv, wm: Seq<i32>) -> bool { wm_pre(d, wm) && wm.last() == d.c }
pub proof fn wm_at(d: Lv, wm: Seq<i32>, q: int)
    requires wm_pre(d, wm), 0 <= q, q + 1 < wm.len(),
    ensures 0 <= wm[q] < wm[q + 1] <= d.c,
{ if q > 0 { assert(wm[0] < wm[q]); } if q + 1 < wm.len() - 1 { assert(wm[q + 1] < wm[wm.len() - 1]); } }
pub open spec fn rel(pp: Seq<i32>, a: int, b: int) -> Seq<int> { Seq::new((b - a + 1) as nat, |j: int| pp[a + j] - pp[a]) }
pub open spec fn piece(d: Lv, wm: Seq<i32>, q: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>) -> bool {
    pp[lp[q] as int] == d.lp[wm[q] as int] && pp[lp[q + 1] as int] == d.lp[wm[q + 1] as int]
    && wsched(wn(d, wm[q] as int, wm[q + 1] as int), nd.subrange(d.lp[wm[q] as int] as int, d.lp[wm[q + 1] as int] as int), rel(pp, lp[q] as int, lp[q + 1] as int))
}
#[verifier::opaque]
pub open spec fn upto(d: Lv, wm: Seq<i32>, m: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>) -> bool {
    0 <= m < wm.len() && lp.len() == m + 1 && lp[0] == 0 && (forall|i: int, j: int| 0 <= i <= j <= m ==> #[trigger] lp[i] <= #[trigger] lp[j])
    && pp.len() == lp[m] + 1 && pp[0] == 0 && pp[lp[m] as int] == d.lp[wm[m] as int] && nd.len() == d.lp[wm[m] as int]
    && (forall|i: int, j: int| 0 <= i <= j < pp.len() ==> #[trigger] pp[i] <= #[trigger] pp[j])
    && forall|q: int| 0 <= q < m ==> #[trigger] piece(d, wm, q, lp, pp, nd)
}
pub proof fn upto_init(d: Lv, wm: Seq<i32>, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>)
    requires lv_ok(d), wm_pre(d, wm), lp.len() == 1, lp[0] == 0, pp.len() == 1, pp[0] == 0, nd.len() == 0,
    ensures upto(d, wm, 0, lp, pp, nd),
{ reveal(upto); lv_sizes(d); }
pub proof fn upto_facts(d: Lv, wm: Seq<i32>, m: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>)
    requires upto(d, wm, m, lp, pp, nd), lv_ok(d), wm_pre(d, wm),
    ensures lp.len() == m + 1, 0 <= lp[m] == pp.len() - 1, pp.last() == d.lp[wm[m] as int], nd.len() == d.lp[wm[m] as int], 0 <= d.lp[wm[m] as int] <= d.n,
{ reveal(upto); assert(lp[0] <= lp[m]); if m == 0 { } else { assert(wm[0] < wm[m]); } if m < wm.len() - 1 { assert(wm[m] < wm[wm.len() - 1]); } lv_mono(d, wm[m] as int, d.c); }
// the parts of one more window, shifted behind the earlier ones
pub open spec fn more(pp: Seq<i32>, b: Seq<int>, m: int) -> Seq<i32> { pp + Seq::new((m - 1) as nat, |j: int| (pp.last() + b[j + 1]) as i32) }
pub proof fn more_step(pp: Seq<i32>, b: Seq<int>, m: int, x: i32)
    requires 1 <= m, x == pp.last() + b[m],
    ensures more(pp, b, m).push(x) == more(pp, b, m + 1), more(pp, b, 1) == pp,
{ assert(more(pp, b, m).push(x) =~= more(pp, b, m + 1)); assert(more(pp, b, 1) =~= pp); }
pub proof fn more_one(pp: Seq<i32>, b: Seq<int>)
    ensures more(pp, b, 1) == pp,
{ assert(more(pp, b, 1) =~= pp); }
pub proof fn upto_step(d: Lv, wm: Seq<i32>, m: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, s: Seq<i32>, b: Seq<int>, lp2: Seq<i32>, pp2: Seq<i32>, nd2: Seq<i32>)
    requires upto(d, wm, m, lp, pp, nd), lv_ok(d), wm_pre(d, wm), 0 <= m, m + 1 < wm.len(), wsched(wn(d, wm[m] as int, wm[m + 1] as int), s, b), lp2.len() == m + 2, lp2.drop_last() == lp, lp2.last() == lp[m] + b.len() - 1, pp2 == more(pp, b, b.len() as int), nd2 == nd + s,
    ensures upto(d, wm, m + 1, lp2, pp2, nd2),
{
    upto_facts(d, wm, m, lp, pp, nd); reveal(upto); wm_at(d, wm, m); let lb = wm[m] as int; let ub = wm[m + 1] as int; let w = wn(d, lb, ub); lv_win(d, lb, ub); let o = d.lp[lb] as int; let z = lp[m] as int;
    assert(bnds(w.k, b) && lists_once(w, s)) by { reveal(wsched); }
    assert forall|i: int| 0 <= i <= m implies #[trigger] lp2[i] == lp[i] by { assert(lp2.drop_last()[i] == lp[i]); }
    assert(lp2[m + 1] == z + b.len() - 1);
    assert forall|i: int, j: int| 0 <= i <= j <= m + 1 implies #[trigger] lp2[i] <= #[trigger] lp2[j] by { if j <= m { assert(lp[i] <= lp[j]); } else if i <= m { assert(lp[i] <= lp[m]); } }
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] pp2[z + j] == o + b[j] by { assert(b[0] <= b[j]); assert(b[j] <= b[b.len() - 1]); if j > 0 { assert(pp2[z + j] == (pp.last() + b[j - 1 + 1]) as i32); } else { assert(pp2[z] == pp[z]); } }
    assert forall|j: int| 0 <= j <= z implies #[trigger] pp2[j] == pp[j] by { }
    assert(pp2.len() == z + b.len());
    assert(pp2[z + (b.len() - 1)] == d.lp[ub]);
    assert forall|i: int, j: int| 0 <= i <= j < pp2.len() implies #[trigger] pp2[i] <= #[trigger] pp2[j] by {
        if j <= z { assert(pp[i] <= pp[j]); } else { let j0 = j - z; assert(pp2[z + j0] == o + b[j0]); if i <= z { assert(pp[i] <= pp[z]); assert(b[0] <= b[j0]); } else { let i0 = i - z; assert(pp2[z + i0] == o + b[i0]); assert(b[i0] <= b[j0]); } }
    }
    assert forall|q: int| 0 <= q < m + 1 implies #[trigger] piece(d, wm, q, lp2, pp2, nd2) by {
        wm_at(d, wm, q); lv_mono(d, wm[q] as int, wm[q + 1] as int);
        if q < m {
            assert(piece(d, wm, q, lp, pp, nd)); assert(lp[q] <= lp[q + 1] && lp[q + 1] <= lp[m]); assert(lp[0] <= lp[q]);
            if q + 1 < m { assert(wm[q + 1] < wm[m]); } lv_mono(d, wm[q + 1] as int, lb);
            assert(nd2.subrange(d.lp[wm[q] as int] as int, d.lp[wm[q + 1] as int] as int) =~= nd.subrange(d.lp[wm[q] as int] as int, d.lp[wm[q + 1] as int] as int));
            assert(rel(pp2, lp2[q] as int, lp2[q + 1] as int) =~= rel(pp, lp[q] as int, lp[q + 1] as int));
        } else {
            assert(nd2.subrange(o, d.lp[ub] as int) =~= s);
            let r = rel(pp2, lp2[m] as int, lp2[m + 1] as int);
            assert forall|j: int| 0 <= j < b.len() implies r[j] == b[j] by { assert(pp2[z + j] == o + b[j]); assert(pp2[z + 0] == o + b[0]); }
            assert(r =~= b); assert(pp2[z + 0] == o + b[0]);
        }
    }
}
// a schedule: every node once; a dependence leads to a later level or stays in its part with the predecessor first
pub open spec fn at_lvl(lp: Seq<i32>, pp: Seq<i32>, q: int, x: int) -> bool { pp[lp[q] as int] <= x < pp[lp[q + 1] as int] }
pub open spec fn at_part(pp: Seq<i32>, q: int, x: int) -> bool { pp[q] <= x < pp[q + 1] }
pub open spec fn later_lvl(nl: int, lp: Seq<i32>, pp: Seq<i32>, x: int, y: int) -> bool { exists|a: int, b: int| 0 <= a < b < nl && #[trigger] at_lvl(lp, pp, a, x) && #[trigger] at_lvl(lp, pp, b, y) }
pub open spec fn same_prt(pp: Seq<i32>, x: int, y: int) -> bool { exists|q: int| 0 <= q < pp.len() - 1 && #[trigger] at_part(pp, q, x) && at_part(pp, q, y) }
pub open spec fn dep_met(nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, u: int, v: int) -> bool {
    exists|x: int, y: int| 0 <= x < y < nd.len() && #[trigger] nd[x] == u && #[trigger] nd[y] == v && (later_lvl(nl, lp, pp, x, y) || same_prt(pp, x, y))
}
pub open spec fn valid_sched(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>) -> bool {
    0 <= nl && lp.len() == nl + 1 && lp[0] == 0 && (forall|i: int, j: int| 0 <= i <= j <= nl ==> #[trigger] lp[i] <= #[trigger] lp[j])
    && pp.len() == lp[nl] + 1 && pp[0] == 0 && pp.last() == n && (forall|i: int, j: int| 0 <= i <= j < pp.len() ==> #[trigger] pp[i] <= #[trigger] pp[j])
    && nd.len() == n && is_perm(nd, n)
    && forall|e: int| 0 <= e < p[n] && #[trigger] g[e] != src(p, n, e) ==> dep_met(nl, lp, pp, nd, src(p, n, e), g[e] as int)
}
pub open spec fn few_parts(nl: int, lp: Seq<i32>, cores: int) -> bool { forall|q: int| 0 <= q < nl ==> #[trigger] lp[q + 1] - lp[q] <= cores }
proof fn wm_find(d: Lv, wm: Seq<i32>, m: int, x: int) -> (q: int)
    requires lv_ok(d), wm_pre(d, wm), 0 <= m < wm.len(), 0 <= x < d.lp[wm[m] as int],
    ensures 0 <= q < m, d.lp[wm[q] as int] <= x < d.lp[wm[q + 1] as int],
    decreases m
{ if m == 0 { lv_sizes(d); 0 } else if d.lp[wm[m - 1] as int] <= x { m - 1 } else { wm_find(d, wm, m - 1, x) } }
// the node at a position of window q
proof fn nd_at(d: Lv, wm: Seq<i32>, m: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, q: int, x: int)
    requires lv_ok(d), wm_ok(d, wm), upto(d, wm, m, lp, pp, nd), 0 <= q < m, d.lp[wm[q] as int] <= x < d.lp[wm[q + 1] as int], m < wm.len(),
    ensures 0 <= x < nd.len(), 0 <= nd[x] < d.n, wm[q] <= d.lev[nd[x] as int] < wm[q + 1], lists_once(wn(d, wm[q] as int, wm[q + 1] as int), nd.subrange(d.lp[wm[q] as int] as int, d.lp[wm[q + 1] as int] as int)),
{
    reveal(upto); assert(piece(d, wm, q, lp, pp, nd)); wm_at(d, wm, q); let w = wn(d, wm[q] as int, wm[q + 1] as int); lv_win(d, wm[q] as int, wm[q + 1] as int);
    let o = d.lp[wm[q] as int] as int; let s = nd.subrange(o, d.lp[wm[q + 1] as int] as int); assert(lists_once(w, s)) by { reveal(wsched); }
    if q + 1 < m { assert(wm[q + 1] < wm[m]); } upto_facts(d, wm, m, lp, pp, nd); if m < wm.len() - 1 { assert(wm[m] < wm[wm.len() - 1]); } lv_mono(d, wm[q + 1] as int, wm[m] as int);
    assert(s[x - o] == nd[x]); assert(member(w, s[x - o] as int)); let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == s[x - o]; assert(0 <= w.nodes[i] < w.n && inwin(w, w.nodes[i] as int));
}
pub proof fn upto_done(d: Lv, wm: Seq<i32>, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>)
    requires lv_ok(d), wm_ok(d, wm), upto(d, wm, wm.len() - 1, lp, pp, nd),
    ensures valid_sched(d.p, d.g, d.n, wm.len() - 1, lp, pp, nd),
{
    let m = wm.len() - 1; reveal(upto); lv_sizes(d); upto_facts(d, wm, m, lp, pp, nd);
    assert forall|x: int| 0 <= x < d.n implies 0 <= #[trigger] nd[x] < d.n by { let q = wm_find(d, wm, m, x); nd_at(d, wm, m, lp, pp, nd, q, x); }
    assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] nd[x] != #[trigger] nd[y] by {
        let q = wm_find(d, wm, m, x); nd_at(d, wm, m, lp, pp, nd, q, x); let r = wm_find(d, wm, m, y); nd_at(d, wm, m, lp, pp, nd, r, y);
        if q == r { let o = d.lp[wm[q] as int] as int; let s = nd.subrange(o, d.lp[wm[q + 1] as int] as int); lv_win(d, wm[q] as int, wm[q + 1] as int); wm_at(d, wm, q); assert(s[x - o] == nd[x]); assert(s[y - o] == nd[y]); if x < y { assert(s[x - o] != s[y - o]); } else { assert(s[y - o] != s[x - o]); } }
        else if q < r { if q + 1 < r { assert(wm[q + 1] < wm[r]); } } else { if r + 1 < q { assert(wm[r + 1] < wm[q]); } }
    }
    perm_onto_all(nd, d.n);
    assert forall|e: int| 0 <= e < d.p[d.n] && #[trigger] d.g[e] != src(d.p, d.n, e) implies dep_met(m, lp, pp, nd, src(d.p, d.n, e), d.g[e] as int) by { upto_dep(d, wm, lp, pp, nd, e); }
}
proof fn upto_dep(d: Lv, wm: Seq<i32>, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, e: int)
    requires lv_ok(d), wm_ok(d, wm), upto(d, wm, wm.len() - 1, lp, pp, nd), 0 <= e < d.p[d.n], d.g[e] != src(d.p, d.n, e), nd.len() == d.n, is_perm(nd, d.n),
    ensures dep_met(wm.len() - 1, lp, pp, nd, src(d.p, d.n, e), d.g[e] as int),
{
    let m = wm.len() - 1; lv_sizes(d); src_ex(d.p, d.n, e); let u = src(d.p, d.n, e); let v = d.g[e] as int; assert(d.lev[u] < d.lev[v]);
    perm_onto(nd, d.n, u); perm_onto(nd, d.n, v); let x = choose|i: int| 0 <= i < d.n && #[trigger] nd[i] == u; let y = choose|i: int| 0 <= i < d.n && #[trigger] nd[i] == v;
    upto_facts(d, wm, m, lp, pp, nd);
    let q = wm_find(d, wm, m, x); nd_at(d, wm, m, lp, pp, nd, q, x); let r = wm_find(d, wm, m, y); nd_at(d, wm, m, lp, pp, nd, r, y); wm_at(d, wm, q); wm_at(d, wm, r);
    assert(piece(d, wm, q, lp, pp, nd) && piece(d, wm, r, lp, pp, nd)) by { reveal(upto); }
    if r < q { if r + 1 < q { assert(wm[r + 1] < wm[q]); } }
    if q < r {
        if q + 1 < r { assert(wm[q + 1] < wm[r]); } lv_mono(d, wm[q + 1] as int, wm[r] as int);
        assert(at_lvl(lp, pp, q, x)); assert(at_lvl(lp, pp, r, y)); assert(later_lvl(m, lp, pp, x, y)); assert(nd[x] == u && nd[y] == v);
    } else {
        let lb = wm[q] as int; let ub = wm[q + 1] as int; let w = wn(d, lb, ub); let o = d.lp[lb] as int; let s = nd.subrange(o, d.lp[ub] as int); let z = lp[q] as int; let b = rel(pp, z, lp[q + 1] as int); lv_win(d, lb, ub); lv_mono(d, ub, d.c);
        assert(wedge(w, e)); assert(before(s, b, u, v)) by { reveal(wsched); } assert(bnds(w.k, b)) by { reveal(wsched); }
        let (t, x1, y1) = choose|t: int, x1: int, y1: int| #[trigger] prt(b, t, x1) && #[trigger] prt(b, t, y1) && s[x1] == u && s[y1] == v && x1 < y1;
        assert(0 <= z && z <= lp[q + 1] && lp[q + 1] < pp.len()) by { reveal(upto); assert(lp[0] <= lp[q]); assert(lp[q] <= lp[q + 1]); assert(lp[q + 1] <= lp[m]); }
        assert(b[0] <= b[t]); assert(b[t + 1] <= b[b.len() - 1]); assert(b[t] == pp[z + t] - o); assert(b[t + 1] == pp[z + (t + 1)] - o);
        assert(nd[o + x1] == u); assert(nd[o + y1] == v); assert(at_part(pp, z + t, o + x1)); assert(at_part(pp, z + t, o + y1)); assert(same_prt(pp, o + x1, o + y1));
    }
}
pub proof fn wm_len(d: Lv, wm: Seq<i32>)
    requires lv_ok(d), wm_pre(d, wm),
    ensures wm.len() - 1 <= d.c,
{ wm_below(d, wm, wm.len() - 1); }
proof fn wm_below(d: Lv, wm: Seq<i32>, q: int)
    requires wm_pre(d, wm), 0 <= q < wm.len(),
    ensures q <= wm[q],
    decreases q
{ if q > 0 { wm_below(d, wm, q - 1); assert(wm[q - 1] < wm[q]); } }
pub open spec fn chunks_ok(d: Lv, wm: Seq<i32>, cs: Seq<Vec<i32>>, cores: int) -> bool { cs.len() >= wm.len() - 1 && forall|q: int| 0 <= q && q + 1 < wm.len() ==> chunk_ok((#[trigger] cs[q])@, cores, ncomp(wn(d, wm[q] as int, wm[q + 1] as int))) }
// order by number
pub open spec fn ident(n: int) -> Seq<i32> { Seq::new(n as nat, |v: int| v as i32) }
pub proof fn topo_key(p: Seq<i32>, g: Seq<i32>, n: int, o: Seq<i32>, iv: Seq<i32>)
    requires gwf(p, g, n), topological(p, g, n, o), inverses(iv, o, n),
    ensures key_ok(p, g, n, iv),
{
    assert forall|e: int| 0 <= e < p[n] && #[trigger] g[e] != src(p, n, e) implies iv[src(p, n, e)] < iv[g[e] as int] by {
        src_ex(p, n, e); let u = src(p, n, e); let x = iv[u] as int; assert(0 <= x < n && o[x] == u); assert(in_col(p, o[x] as int, e)); assert(comes_later(n, o, x, g[e] as int));
        let y = choose|y: int| x < y < n && #[trigger] o[y] == g[e]; assert(iv[o[y] as int] == y);
    }
}
// position in the order, sort, write back
#[verifier::opaque]
pub open spec fn gotk(s: Seq<i32>, iv: Seq<i32>, a: Seq<i32>, lo: int, c: int) -> bool { forall|x: int| 0 <= x < c ==> #[trigger] a[x] == iv[s[lo + x] as int] }
#[verifier::opaque]
pub open spec fn putk(s: Seq<i32>, t: Seq<i32>, o: Seq<i32>, a: Seq<i32>, lo: int, c: int) -> bool { t.len() == s.len() && (forall|x: int| 0 <= x < s.len() && !(lo <= x < lo + c) ==> #[trigger] t[x] == s[x]) && (forall|x: int| 0 <= x < c ==> t[lo + x] == o[#[trigger] a[x] as int]) }
pub proof fn gotk_init(s: Seq<i32>, iv: Seq<i32>, a: Seq<i32>, lo: int)
    ensures gotk(s, iv, a, lo, 0),
{ reveal(gotk); }
pub proof fn gotk_step(s: Seq<i32>, iv: Seq<i32>, a: Seq<i32>, lo: int, c: int)
    requires gotk(s, iv, a, lo, c), 0 <= c < a.len(),
    ensures gotk(s, iv, a.update(c, iv[s[lo + c] as int]), lo, c + 1),
{ reveal(gotk); }
pub proof fn putk_init(s: Seq<i32>, o: Seq<i32>, a: Seq<i32>, lo: int)
    ensures putk(s, s, o, a, lo, 0),
{ reveal(putk); }
pub proof fn putk_step(s: Seq<i32>, t: Seq<i32>, o: Seq<i32>, a: Seq<i32>, lo: int, c: int)
    requires putk(s, t, o, a, lo, c), 0 <= c, 0 <= lo, lo + c < s.len(),
    ensures putk(s, t.update(lo + c, o[a[c] as int]), o, a, lo, c + 1), t.len() == s.len(),
{ reveal(putk); let t2 = t.update(lo + c, o[a[c] as int]); assert forall|x: int| 0 <= x < c + 1 implies t2[lo + x] == o[#[trigger] a[x] as int] by { if x < c { assert(t[lo + x] == o[a[x] as int]); } } }
pub proof fn node_in(w: Win, s: Seq<i32>, b: Seq<int>, x: int)
    requires wset(w, s, b), win_ok(w), 0 <= x < w.k,
    ensures 0 <= s[x] < w.n, s.len() == w.k,
{ reveal(wset); assert(member(w, s[x] as int)); let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == s[x]; assert(0 <= w.nodes[i] < w.n); }
pub proof fn part_in(w: Win, s: Seq<i32>, b: Seq<int>, q: int)
    requires wset(w, s, b), 0 <= q, q + 1 < b.len(),
    ensures 0 <= b[q] <= b[q + 1] <= w.k, s.len() == w.k,
{ reveal(wset); assert(b[0] <= b[q]); assert(b[q] <= b[q + 1]); assert(b[q + 1] <= b[b.len() - 1]); }
pub proof fn sortk(w: Win, s: Seq<i32>, b: Seq<int>, q: int, iv: Seq<i32>, o: Seq<i32>, a: Seq<i32>, a2: Seq<i32>)
    requires wset(w, s, b), win_ok(w), 0 <= q, q + 1 < b.len(), inverses(iv, o, w.n), gotk(s, iv, a, b[q], b[q + 1] - b[q]), perm_range(a2, a, 0, b[q + 1] - b[q]), a.len() == w.n,
    ensures forall|x: int| 0 <= x < b[q + 1] - b[q] ==> 0 <= #[trigger] a2[x] < w.n && 0 <= o[a2[x] as int] < w.n,
{
    reveal(gotk); part_in(w, s, b, q); win_fits(w); let c = b[q + 1] - b[q]; let r = multiset_order(a2.subrange(0, c), a.subrange(0, c));
    assert forall|x: int| 0 <= x < c implies 0 <= #[trigger] a2[x] < w.n && 0 <= o[a2[x] as int] < w.n by { assert(a2.subrange(0, c)[x] == a.subrange(0, c)[r[x]]); let z = r[x]; assert(a[z] == iv[s[b[q] + z] as int]); node_in(w, s, b, b[q] + z); assert(0 <= iv[s[b[q] + z] as int] < w.n); }
}
pub proof fn putk_done(w: Win, s: Seq<i32>, t: Seq<i32>, b: Seq<int>, q: int, iv: Seq<i32>, o: Seq<i32>, a: Seq<i32>, a2: Seq<i32>)
    requires wset(w, s, b), win_ok(w), 0 <= q, q + 1 < b.len(), inverses(iv, o, w.n), gotk(s, iv, a, b[q], b[q + 1] - b[q]), perm_range(a2, a, 0, b[q + 1] - b[q]), a.len() == w.n, putk(s, t, o, a2, b[q], b[q + 1] - b[q]),
        forall|x: int, y: int| 0 <= x <= y < b[q + 1] - b[q] ==> #[trigger] a2[x] <= #[trigger] a2[y],
    ensures moved_in(t, s, b[q], b[q + 1]), forall|x: int, y: int| b[q] <= x <= y < b[q + 1] ==> iv[#[trigger] t[x] as int] <= iv[#[trigger] t[y] as int],
{
    reveal(gotk); reveal(putk); reveal(moved_in); part_in(w, s, b, q); win_fits(w); let lo = b[q]; let hi = b[q + 1]; let c = hi - lo; let r = multiset_order(a2.subrange(0, c), a.subrange(0, c)); let ta = t.subrange(lo, hi); let sa = s.subrange(lo, hi);
    assert forall|x: int| 0 <= x < c implies t[lo + x] == s[lo + r[x]] && iv[t[lo + x] as int] == #[trigger] a2[x] && 0 <= r[x] < c by {
        assert(a2.subrange(0, c)[x] == a.subrange(0, c)[r[x]]); let z = r[x]; assert(a[z] == iv[s[lo + z] as int]); node_in(w, s, b, lo + z); let v = s[lo + z] as int; assert(o[iv[v] as int] == v); assert(t[lo + x] == o[a2[x] as int]);
    }
    assert forall|x: int| 0 <= x < ta.len() implies #[trigger] ta[x] == sa[#[trigger] r[x]] by { let z = a2[x]; assert(t[lo + x] == s[lo + r[x]]); }
    assert(reorder(ta, sa, r));
    assert forall|x: int, y: int| lo <= x <= y < hi implies iv[#[trigger] t[x] as int] <= iv[#[trigger] t[y] as int] by { let x0 = x - lo; let y0 = y - lo; assert(a2[x0] <= a2[y0]); assert(t[lo + x0] == s[lo + r[x0]]); assert(t[lo + y0] == s[lo + r[y0]]); assert(iv[t[lo + x0] as int] == a2[x0]); assert(iv[t[lo + y0] as int] == a2[y0]); }
}
pub proof fn keyed(w: Win, s: Seq<i32>, t: Seq<i32>, b: Seq<int>, q: int)
    requires wset(w, s, b), win_ok(w), 0 <= q, q + 1 < b.len(), moved_in(t, s, b[q], b[q + 1]), forall|x: int, y: int| b[q] <= x <= y < b[q + 1] ==> #[trigger] t[x] <= #[trigger] t[y],
    ensures forall|x: int, y: int| b[q] <= x <= y < b[q + 1] ==> ident(w.n)[#[trigger] t[x] as int] <= ident(w.n)[#[trigger] t[y] as int],
{
    reveal(moved_in); part_in(w, s, b, q); let lo = b[q]; let hi = b[q + 1]; let ta = t.subrange(lo, hi); let sa = s.subrange(lo, hi); let o = choose|o: Seq<int>| reorder(ta, sa, o);
    assert forall|x: int| lo <= x < hi implies 0 <= #[trigger] t[x] < w.n by { assert(ta[x - lo] == sa[o[x - lo]]); node_in(w, s, b, lo + o[x - lo]); }
}
#[verifier::opaque]
pub open spec fn inc(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
#[verifier::opaque]
pub open spec fn stored(d: Lv, wm: Seq<i32>, cs: Seq<Vec<i32>>, cores: int) -> bool { forall|q: int| 0 <= q && q + 1 < wm.len() ==> chunk_ok((#[trigger] cs[q])@, cores, ncomp(wn(d, wm[q] as int, wm[q + 1] as int))) }

// the schedule of the first windows does not change when another window is added
pub proof fn upto_ext(d: Lv, wm: Seq<i32>, m: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, c: i32)
    requires upto(d, wm, m, lp, pp, nd), m == wm.len() - 1,
    ensures upto(d, wm.push(c), m, lp, pp, nd),
{
    reveal(upto); let wm2 = wm.push(c);
    assert forall|q: int| 0 <= q < m implies #[trigger] piece(d, wm2, q, lp, pp, nd) by { assert(piece(d, wm, q, lp, pp, nd)); assert(wm2[q] == wm[q]); assert(wm2[q + 1] == wm[q + 1]); }
}
