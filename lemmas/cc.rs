//@uses graph perm
// connected components inside a window of levels: nodes lists the k members, a label is an index into nodes
pub ghost struct Win { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub lev: Seq<i32>, pub lb: int, pub ub: int, pub nodes: Seq<i32>, pub k: int }
pub open spec fn inwin(w: Win, v: int) -> bool { w.lb <= w.lev[v] < w.ub }
pub open spec fn member(w: Win, v: int) -> bool { exists|i: int| 0 <= i < w.k && w.nodes[i] == v }
pub open spec fn win_ok(w: Win) -> bool {
    gwf(w.p, w.g, w.n) && w.lev.len() >= w.n && 0 <= w.k <= w.nodes.len() && w.k < i32::MAX && w.n < i32::MAX
    && (forall|i: int| 0 <= i < w.k ==> 0 <= #[trigger] w.nodes[i] < w.n && inwin(w, w.nodes[i] as int))
    && (forall|i: int, j: int| 0 <= i < j < w.k ==> #[trigger] w.nodes[i] != #[trigger] w.nodes[j])
    && (forall|v: int| 0 <= v < w.n && #[trigger] inwin(w, v) ==> member(w, v))
}
// the edge e joins two nodes of the window
pub open spec fn wedge(w: Win, e: int) -> bool { 0 <= e < w.p[w.n] && inwin(w, src(w.p, w.n, e)) && inwin(w, w.g[e] as int) }
// a labelling of the nodes that is constant along every edge of the window
pub open spec fn resp(w: Win, lab: Seq<int>) -> bool { lab.len() == w.n && forall|e: int| #[trigger] wedge(w, e) ==> lab[src(w.p, w.n, e)] == lab[w.g[e] as int] }
pub open spec fn f(w: Win, np: Seq<i32>, i: int) -> int { np[w.nodes[i] as int] as int }
// every labelling that is constant along edges gives a node and its representative the same value
pub open spec fn glued(w: Win, np: Seq<i32>, lab: Seq<int>) -> bool { forall|i: int| 0 <= i < w.k ==> lab[w.nodes[i] as int] == lab[w.nodes[#[trigger] f(w, np, i)] as int] }
pub open spec fn lab_ok(w: Win, np: Seq<i32>, i: int) -> bool { 0 <= f(w, np, i) <= i }
pub open spec fn cc_state(w: Win, np: Seq<i32>, np0: Seq<i32>) -> bool {
    np.len() == np0.len() && np.len() >= w.n
    && (forall|i: int| 0 <= i < w.k ==> #[trigger] lab_ok(w, np, i))
    && (forall|lab: Seq<int>| #[trigger] resp(w, lab) ==> glued(w, np, lab))
    && (forall|v: int| 0 <= v < np.len() && !member(w, v) ==> #[trigger] np[v] == np0[v])
}
pub open spec fn is_root(w: Win, np: Seq<i32>, i: int) -> bool { f(w, np, f(w, np, i)) == f(w, np, i) }
pub open spec fn stars(w: Win, np: Seq<i32>, m: int) -> bool { forall|i: int| 0 <= i < m ==> #[trigger] is_root(w, np, i) }
// every window edge in the columns of the first m nodes has equal labels at both ends
pub open spec fn esame(w: Win, np: Seq<i32>, e: int) -> bool { np[src(w.p, w.n, e)] == np[w.g[e] as int] }
pub open spec fn same_upto(w: Win, np: Seq<i32>, m: int) -> bool {
    forall|i: int, e: int| 0 <= i < m && #[trigger] in_col(w.p, w.nodes[i] as int, e) && inwin(w, w.g[e] as int) ==> np[w.nodes[i] as int] == np[w.g[e] as int]
}
pub open spec fn same_col(w: Win, np: Seq<i32>, u: int, r: int) -> bool {
    forall|e: int| w.p[u] <= e < r && inwin(w, #[trigger] w.g[e] as int) ==> np[u] == np[w.g[e] as int]
}
pub open spec fn fsum(w: Win, np: Seq<i32>, m: int) -> int
    decreases m
{ if m <= 0 { 0 } else { fsum(w, np, m - 1) + f(w, np, m - 1) } }
// exactly the connected components of the window: same label across every edge, never the same label without a path
pub open spec fn is_cc(w: Win, np: Seq<i32>, np0: Seq<i32>) -> bool {
    cc_state(w, np, np0) && stars(w, np, w.k) && forall|e: int| #[trigger] wedge(w, e) ==> esame(w, np, e)
}
pub proof fn fsum_ge(w: Win, np: Seq<i32>, np0: Seq<i32>, m: int)
    requires cc_state(w, np, np0), m <= w.k,
    ensures fsum(w, np, m) >= 0,
    decreases m
{ if m > 0 { fsum_ge(w, np, np0, m - 1); assert(lab_ok(w, np, m - 1)); } }
pub proof fn fsum_upd(w: Win, np: Seq<i32>, h: int, val: i32, m: int)
    requires win_ok(w), np.len() >= w.n, 0 <= h < w.k, m <= w.k,
    ensures fsum(w, np.update(w.nodes[h] as int, val), m) == fsum(w, np, m) + (if h < m { val - np[w.nodes[h] as int] } else { 0 }),
    decreases m
{ if m > 0 { fsum_upd(w, np, h, val, m - 1); let q = m - 1; assert(0 <= w.nodes[q] < w.n); assert(0 <= w.nodes[h] < w.n); if q < h { assert(w.nodes[q] != w.nodes[h]); } else if h < q { assert(w.nodes[h] != w.nodes[q]); } } }
pub proof fn f_upd(w: Win, np: Seq<i32>, h: int, val: i32)
    requires win_ok(w), np.len() >= w.n, 0 <= h < w.k,
    ensures forall|i: int| 0 <= i < w.k ==> #[trigger] f(w, np.update(w.nodes[h] as int, val), i) == (if i == h { val as int } else { f(w, np, i) }),
{
    assert forall|i: int| 0 <= i < w.k implies #[trigger] f(w, np.update(w.nodes[h] as int, val), i) == (if i == h { val as int } else { f(w, np, i) }) by {
        assert(0 <= w.nodes[i] < w.n); assert(0 <= w.nodes[h] < w.n); if i < h { assert(w.nodes[i] != w.nodes[h]); } else if h < i { assert(w.nodes[h] != w.nodes[i]); }
    }
}
// start: every node its own component
pub proof fn cc_init(w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), np.len() == np0.len(), np.len() >= w.n, forall|i: int| 0 <= i < w.k ==> #[trigger] np[w.nodes[i] as int] == i, forall|v: int| 0 <= v < np.len() && !member(w, v) ==> #[trigger] np[v] == np0[v],
    ensures cc_state(w, np, np0), stars(w, np, w.k),
{
    assert forall|i: int| 0 <= i < w.k implies f(w, np, i) == i by { assert(np[w.nodes[i] as int] == i); }
    assert forall|i: int| 0 <= i < w.k implies #[trigger] is_root(w, np, i) by { }
    assert forall|i: int| 0 <= i < w.k implies #[trigger] lab_ok(w, np, i) by { }
    assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued(w, np, lab) by { }
}
// hooking the larger of two labels at the ends of an edge
pub proof fn cc_hook(w: Win, np: Seq<i32>, np0: Seq<i32>, i: int, e: int, hi: i32, lo: i32)
    requires win_ok(w), cc_state(w, np, np0), 0 <= i < w.k, in_col(w.p, w.nodes[i] as int, e), inwin(w, w.g[e] as int),
        (hi == np[w.nodes[i] as int] && lo == np[w.g[e] as int]) || (lo == np[w.nodes[i] as int] && hi == np[w.g[e] as int]), lo < hi, np[w.nodes[hi as int] as int] == hi,
    ensures 0 <= hi < w.k, 0 <= lo, cc_state(w, np.update(w.nodes[hi as int] as int, lo), np0), fsum(w, np.update(w.nodes[hi as int] as int, lo), w.k) < fsum(w, np, w.k),
{
    let u = w.nodes[i] as int; let v = w.g[e] as int; let h = hi as int;
    assert(0 <= w.nodes[i] < w.n); assert(w.p[0] <= w.p[u]); assert(w.p[u + 1] <= w.p[w.n]); src_is(w.p, w.n, u, e);
    assert(0 <= w.g[e] < w.n); assert(member(w, v)); let j = choose|j: int| 0 <= j < w.k && w.nodes[j] == v;
    assert(lab_ok(w, np, i)); assert(lab_ok(w, np, j)); assert(f(w, np, i) == np[u] && f(w, np, j) == np[v]);
    assert(0 <= lo < hi < w.k);
    let q = np.update(w.nodes[h] as int, lo);
    fsum_upd(w, np, h, lo, w.k); f_upd(w, np, h, lo);
    assert forall|x: int| 0 <= x < w.k implies #[trigger] lab_ok(w, q, x) by { assert(lab_ok(w, np, x)); assert(f(w, q, x) == (if x == h { lo as int } else { f(w, np, x) })); }
    assert(wedge(w, e));
    assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued(w, q, lab) by {
        assert(glued(w, np, lab)); assert(lab[u] == lab[v]);
        assert(lab[w.nodes[i] as int] == lab[w.nodes[f(w, np, i)] as int]); assert(lab[w.nodes[j] as int] == lab[w.nodes[f(w, np, j)] as int]);
        assert forall|x: int| 0 <= x < w.k implies lab[w.nodes[x] as int] == lab[w.nodes[#[trigger] f(w, q, x)] as int] by { assert(lab[w.nodes[x] as int] == lab[w.nodes[f(w, np, x)] as int]); }
    }
    assert forall|x: int| 0 <= x < q.len() && !member(w, x) implies #[trigger] q[x] == np0[x] by { assert(np[x] == np0[x]); assert(member(w, w.nodes[h] as int)); }
}
pub proof fn cc_edge(w: Win, np: Seq<i32>, np0: Seq<i32>, i: int, e: int)
    requires win_ok(w), cc_state(w, np, np0), 0 <= i < w.k, in_col(w.p, w.nodes[i] as int, e),
    ensures 0 <= w.nodes[i] < w.n, 0 <= e < w.p[w.n], 0 <= w.g[e] < w.n, 0 <= np[w.nodes[i] as int] < w.k,
        inwin(w, w.g[e] as int) ==> 0 <= np[w.g[e] as int] < w.k,
        inwin(w, w.g[e] as int) && stars(w, np, w.k) ==> np[w.nodes[np[w.nodes[i] as int] as int] as int] == np[w.nodes[i] as int] && np[w.nodes[np[w.g[e] as int] as int] as int] == np[w.g[e] as int],
{
    let u = w.nodes[i] as int; let v = w.g[e] as int;
    assert(0 <= w.nodes[i] < w.n); assert(w.p[0] <= w.p[u]); assert(w.p[u + 1] <= w.p[w.n]); assert(0 <= w.g[e] < w.n); assert(lab_ok(w, np, i));
    if inwin(w, v) { assert(member(w, v)); let j = choose|j: int| 0 <= j < w.k && w.nodes[j] == v; assert(lab_ok(w, np, j)); if stars(w, np, w.k) { assert(is_root(w, np, i)); assert(is_root(w, np, j)); } }
}
// shortening a path
pub proof fn cc_jump(w: Win, np: Seq<i32>, np0: Seq<i32>, i: int)
    requires win_ok(w), cc_state(w, np, np0), 0 <= i < w.k, stars(w, np, i),
    ensures 0 <= w.nodes[i] < w.n, 0 <= np[w.nodes[i] as int] <= i, 0 <= w.nodes[np[w.nodes[i] as int] as int] < w.n, 0 <= np[w.nodes[np[w.nodes[i] as int] as int] as int] <= np[w.nodes[i] as int],
        ({ let q = np.update(w.nodes[i] as int, np[w.nodes[np[w.nodes[i] as int] as int] as int]); cc_state(w, q, np0) && stars(w, q, i) && fsum(w, q, w.k) <= fsum(w, np, w.k) }),
{
    let j = f(w, np, i); assert(lab_ok(w, np, i)); assert(0 <= w.nodes[i] < w.n); assert(0 <= w.nodes[j] < w.n); assert(lab_ok(w, np, j));
    let val = np[w.nodes[j] as int]; let q = np.update(w.nodes[i] as int, val);
    fsum_upd(w, np, i, val, w.k); f_upd(w, np, i, val);
    assert forall|x: int| 0 <= x < w.k implies #[trigger] lab_ok(w, q, x) by { assert(lab_ok(w, np, x)); assert(f(w, q, x) == (if x == i { val as int } else { f(w, np, x) })); }
    assert forall|x: int| 0 <= x < i implies #[trigger] is_root(w, q, x) by { assert(is_root(w, np, x)); assert(lab_ok(w, np, x)); assert(f(w, q, x) == f(w, np, x)); }
    assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued(w, q, lab) by {
        assert(glued(w, np, lab));
        assert forall|x: int| 0 <= x < w.k implies lab[w.nodes[x] as int] == lab[w.nodes[#[trigger] f(w, q, x)] as int] by { assert(lab[w.nodes[x] as int] == lab[w.nodes[f(w, np, x)] as int]); assert(lab[w.nodes[j] as int] == lab[w.nodes[f(w, np, j)] as int]); }
    }
    assert forall|x: int| 0 <= x < q.len() && !member(w, x) implies #[trigger] q[x] == np0[x] by { assert(np[x] == np0[x]); assert(member(w, w.nodes[i] as int)); }
}
pub proof fn cc_done(w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), cc_state(w, np, np0), stars(w, np, w.k), same_upto(w, np, w.k),
    ensures is_cc(w, np, np0),
{
    assert forall|e: int| #[trigger] wedge(w, e) implies esame(w, np, e) by {
        src_ex(w.p, w.n, e); let u = src(w.p, w.n, e); assert(member(w, u)); let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == u; assert(in_col(w.p, w.nodes[i] as int, e));
    }
}
// the cost of every component after the first m nodes, added in the order of the list
pub open spec fn cc_cost(w: Win, np: Seq<i32>, c0: Seq<F64>, nc: Seq<F64>, m: int) -> Seq<F64>
    decreases m
{ if m <= 0 { c0 } else { let c = cc_cost(w, np, c0, nc, m - 1); let l = f(w, np, m - 1); c.update(l, fadd_s(c[l], nc[w.nodes[m - 1] as int])) } }
// labels of an earlier, smaller window of the same nodes (the first m of them)
pub open spec fn prior_ok(w: Win, np: Seq<i32>, m: int) -> bool {
    0 <= m <= w.k && np.len() == w.n
    && (forall|i: int| 0 <= i < m ==> #[trigger] lab_ok(w, np, i) && is_root(w, np, i))
    && (forall|i: int| m <= i < w.k ==> np[#[trigger] w.nodes[i] as int] == -1)
    && (forall|v: int| 0 <= v < w.n && !member(w, v) ==> #[trigger] np[v] == -1)
    && (forall|lab: Seq<int>| #[trigger] resp(w, lab) ==> glued_to(w, np, lab, m))
}
pub open spec fn glued_to(w: Win, np: Seq<i32>, lab: Seq<int>, m: int) -> bool { forall|i: int| 0 <= i < m ==> lab[w.nodes[i] as int] == lab[w.nodes[#[trigger] f(w, np, i)] as int] }
// the labels of an earlier call are such labels
pub proof fn prior_from_cc(w1: Win, w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), win_ok(w1), is_cc(w1, np, np0), w1.k <= w.k, w1.p == w.p, w1.g == w.g, w1.n == w.n, w1.lev == w.lev, w1.lb == w.lb, w1.ub <= w.ub, np.len() == w.n, forall|i: int| 0 <= i < w1.k ==> w1.nodes[i] == #[trigger] w.nodes[i],
        forall|v: int| 0 <= v < w.n ==> #[trigger] np0[v] == -1,
    ensures prior_ok(w, np, w1.k),
{
    let m = w1.k;
    assert forall|i: int| 0 <= i < m implies #[trigger] lab_ok(w, np, i) && is_root(w, np, i) by { assert(w1.nodes[i] == w.nodes[i]); assert(lab_ok(w1, np, i)); assert(is_root(w1, np, i)); let j = f(w1, np, i); assert(w1.nodes[j] == w.nodes[j]); }
    assert forall|i: int| m <= i < w.k implies np[#[trigger] w.nodes[i] as int] == -1 by { let v = w.nodes[i] as int; assert(!member(w1, v)) by { if member(w1, v) { let j = choose|j: int| 0 <= j < w1.k && w1.nodes[j] == v; assert(w1.nodes[j] == w.nodes[j]); assert(w.nodes[j] != w.nodes[i]); } } assert(np[v] == np0[v]); }
    assert forall|v: int| 0 <= v < w.n && !member(w, v) implies #[trigger] np[v] == -1 by { assert(!member(w1, v)) by { if member(w1, v) { let j = choose|j: int| 0 <= j < w1.k && w1.nodes[j] == v; assert(w1.nodes[j] == w.nodes[j]); assert(member(w, v)); } } assert(np[v] == np0[v]); }
    assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued_to(w, np, lab, m) by {
        assert(resp(w1, lab)) by { assert forall|e: int| #[trigger] wedge(w1, e) implies lab[src(w1.p, w1.n, e)] == lab[w1.g[e] as int] by { assert(wedge(w, e)); } }
        assert(glued(w1, np, lab));
        assert forall|i: int| 0 <= i < m implies lab[w.nodes[i] as int] == lab[w.nodes[#[trigger] f(w, np, i)] as int] by { assert(w1.nodes[i] == w.nodes[i]); let j = f(w1, np, i); assert(lab_ok(w1, np, i)); assert(w1.nodes[j] == w.nodes[j]); }
    }
}
pub proof fn win_fits(w: Win)
    requires win_ok(w),
    ensures w.k <= w.n,
{
    let t = Seq::new(w.k as nat, |x: int| w.nodes[x] as int);
    assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies #[trigger] t[x] != #[trigger] t[y] by { if x < y { assert(w.nodes[x] != w.nodes[y]); } else { assert(w.nodes[y] != w.nodes[x]); } }
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < w.n by { assert(0 <= w.nodes[x] < w.n); }
    distinct_len(t, w.n);
}
// new nodes become their own components, the earlier labels stay
pub proof fn cc_join(w: Win, np: Seq<i32>, np0: Seq<i32>, m: int)
    requires win_ok(w), prior_ok(w, np0, m), np.len() == np0.len(), forall|i: int| m <= i < w.k ==> np[#[trigger] w.nodes[i] as int] == i, forall|i: int| 0 <= i < m ==> np[#[trigger] w.nodes[i] as int] == np0[w.nodes[i] as int], forall|v: int| 0 <= v < np.len() && !member(w, v) ==> #[trigger] np[v] == np0[v],
    ensures cc_state(w, np, np0), stars(w, np, w.k),
{
    assert forall|i: int| 0 <= i < w.k implies #[trigger] lab_ok(w, np, i) && is_root(w, np, i) && f(w, np, i) == (if i < m { f(w, np0, i) } else { i }) by {
        if i < m { assert(lab_ok(w, np0, i) && is_root(w, np0, i)); assert(np[w.nodes[i] as int] == np0[w.nodes[i] as int]); let j = f(w, np0, i); assert(np[w.nodes[j] as int] == np0[w.nodes[j] as int]); }
        else { assert(np[w.nodes[i] as int] == i); }
    }
    assert forall|i: int| 0 <= i < w.k implies #[trigger] is_root(w, np, i) by { assert(lab_ok(w, np, i)); }
    assert forall|lab: Seq<int>| #[trigger] resp(w, lab) implies glued(w, np, lab) by { assert(glued_to(w, np0, lab, m));
        assert forall|i: int| 0 <= i < w.k implies lab[w.nodes[i] as int] == lab[w.nodes[#[trigger] f(w, np, i)] as int] by { assert(lab_ok(w, np, i)); if i < m { assert(f(w, np0, i) == f(w, np, i)); } } }
}
// number of components whose representative comes before position l
pub open spec fn rootcnt(w: Win, np: Seq<i32>, l: int) -> int
    decreases l
{ if l <= 0 { 0 } else { rootcnt(w, np, l - 1) + (if l - 1 < w.k && f(w, np, l - 1) == l - 1 { 1int } else { 0int }) } }
pub proof fn rootcnt_le(w: Win, np: Seq<i32>, a: int, b: int)
    requires a <= b,
    ensures 0 <= rootcnt(w, np, a) <= rootcnt(w, np, b), b >= 0 ==> rootcnt(w, np, b) <= b, a >= w.k ==> rootcnt(w, np, b) == rootcnt(w, np, a),
    decreases b
{ if b > 0 { if a < b { rootcnt_le(w, np, a, b - 1); } else { rootcnt_le(w, np, b - 1, b - 1); } } }
pub open spec fn used(np: Seq<i32>, m: int, l: int) -> bool { exists|v: int| 0 <= v < m && #[trigger] np[v] == l }
// a label is in use exactly when it names its own representative
pub proof fn used_is_root(w: Win, np: Seq<i32>, np0: Seq<i32>, l: int)
    requires win_ok(w), is_cc(w, np, np0), prior_ok(w, np0, 0) || exists|m: int| prior_ok(w, np0, m), l >= 0,
    ensures used(np, w.n, l) <==> l < w.k && f(w, np, l) == l,
{
    let m = choose|m: int| prior_ok(w, np0, m);
    if used(np, w.n, l) {
        let v = choose|v: int| 0 <= v < w.n && #[trigger] np[v] == l;
        if !member(w, v) { assert(np[v] == np0[v]); assert(np0[v] == -1); assert(false); }
        let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(lab_ok(w, np, i)); assert(is_root(w, np, i));
    }
    if l < w.k && f(w, np, l) == l { assert(0 <= w.nodes[l] < w.n); assert(np[w.nodes[l] as int] == l); }
}
// the cost of every component in the compacted numbering, and the total, in the order of the list
pub open spec fn cc_acc(w: Win, np: Seq<i32>, c0: Seq<F64>, nc: Seq<F64>, m: int) -> Seq<F64>
    decreases m
{ if m <= 0 { c0 } else { let c = cc_acc(w, np, c0, nc, m - 1); let l = rootcnt(w, np, f(w, np, m - 1)); c.update(l, fadd_s(c[l], nc[w.nodes[m - 1] as int])) } }
pub open spec fn cost_to(w: Win, t0: F64, nc: Seq<F64>, m: int) -> F64
    decreases m
{ if m <= 0 { t0 } else { fadd_s(cost_to(w, t0, nc, m - 1), nc[w.nodes[m - 1] as int]) } }
// inside one level there is no edge between different nodes
pub open spec fn levelled(p: Seq<i32>, g: Seq<i32>, n: int, lev: Seq<i32>) -> bool { forall|e: int| 0 <= e < p[n] && #[trigger] g[e] != src(p, n, e) ==> lev[src(p, n, e)] < lev[g[e] as int] }
pub proof fn one_level(w: Win, np: Seq<i32>, np0: Seq<i32>)
    requires win_ok(w), w.ub == w.lb + 1, levelled(w.p, w.g, w.n, w.lev), np.len() == np0.len(), np.len() >= w.n, forall|i: int| 0 <= i < w.k ==> #[trigger] np[w.nodes[i] as int] == i, forall|v: int| 0 <= v < np.len() && !member(w, v) ==> #[trigger] np[v] == np0[v],
    ensures is_cc(w, np, np0), forall|l: int| 0 <= l <= w.k ==> #[trigger] rootcnt(w, np, l) == l,
{
    cc_init(w, np, np0);
    assert forall|e: int| #[trigger] wedge(w, e) implies esame(w, np, e) by { let q = w.g[e]; }
    assert forall|l: int| 0 <= l <= w.k implies #[trigger] rootcnt(w, np, l) == l by { all_roots(w, np, l); }
}
proof fn all_roots(w: Win, np: Seq<i32>, l: int)
    requires 0 <= l <= w.k, forall|i: int| 0 <= i < w.k ==> #[trigger] np[w.nodes[i] as int] == i,
    ensures rootcnt(w, np, l) == l,
    decreases l
{ if l > 0 { all_roots(w, np, l - 1); assert(np[w.nodes[l - 1] as int] == l - 1); } }
pub open spec fn cc_win(p: Seq<i32>, g: Seq<i32>, n: int, lev: Seq<i32>, lb: int, ub: int, lp: Seq<i32>, ls: Seq<i32>) -> Win {
    Win { p: p, g: g, n: n, lev: lev, lb: lb, ub: ub, nodes: ls.subrange(lp[lb] as int, lp[ub] as int), k: lp[ub] - lp[lb] }
}
