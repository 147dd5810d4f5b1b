//@uses sums count
// parents come after their children; a negative entry marks a root
pub open spec fn forest(t: Seq<i32>, n: int) -> bool {
    n >= 0 && t.len() >= n && forall|v: int| 0 <= v < n ==> (#[trigger] t[v] < 0 || v < t[v] < n)
}
pub open spec fn depth(t: Seq<i32>, n: int, v: int) -> int
    decreases n - v
{ if v < 0 || v >= n || t[v] <= v || t[v] >= n { 0 } else { 1 + depth(t, n, t[v] as int) } }
// weight of the path from v to its root
pub open spec fn pw(t: Seq<i32>, w: Seq<i32>, n: int, v: int) -> int
    decreases n - v
{ if v < 0 || v >= n { 0 } else if t[v] <= v || t[v] >= n { w[v] as int } else { w[v] + pw(t, w, n, t[v] as int) } }
pub open spec fn weights_ok(t: Seq<i32>, w: Seq<i32>, n: int) -> bool {
    w.len() >= n && (forall|v: int| 0 <= v < n ==> 0 <= #[trigger] w[v]) && forall|v: int| 0 <= v < n ==> #[trigger] pw(t, w, n, v) <= i32::MAX
}
pub proof fn depth_bound(t: Seq<i32>, n: int, v: int)
    requires forest(t, n), 0 <= v < n,
    ensures 0 <= depth(t, n, v) < n - v,
    decreases n - v
{ if t[v] >= 0 { depth_bound(t, n, t[v] as int); } }
pub proof fn pw_ge0(t: Seq<i32>, w: Seq<i32>, n: int, v: int)
    requires forest(t, n), weights_ok(t, w, n), 0 <= v < n,
    ensures 0 <= pw(t, w, n, v),
    decreases n - v
{ if t[v] >= 0 { pw_ge0(t, w, n, t[v] as int); } }
// level of a node: one more than the latest of its children
pub open spec fn lev_upto(t: Seq<i32>, n: int, v: int, k: int) -> int
    decreases v, 1int, k
{
    if k <= 0 || k > v { 0 } else {
        let r = lev_upto(t, n, v, k - 1);
        if t[k - 1] == v { let c = 1 + tlev(t, n, k - 1); if c > r { c } else { r } } else { r }
    }
}
pub open spec fn tlev(t: Seq<i32>, n: int, v: int) -> int
    decreases v, 2int, 0int
{ if v < 0 { 0 } else { lev_upto(t, n, v, v) } }
// child counts
pub open spec fn counts(t: Seq<i32>, c: Seq<i32>, n: int) -> bool {
    c.len() >= n && forall|v: int| 0 <= v < n ==> #[trigger] c[v] == cnt(t, n, v)
}
// a bound for the depth of every leaf bounds every depth
pub proof fn leaf_bound(t: Seq<i32>, c: Seq<i32>, n: int, m: int, v: int)
    requires forest(t, n), counts(t, c, n), 0 <= v < n,
        forall|u: int| 0 <= u < n && c[u] == 0 ==> #[trigger] depth(t, n, u) <= m,
    ensures depth(t, n, v) <= m,
    decreases v
{
    if c[v] != 0 {
        cnt_bounds(t, n, v);
        let k = occ(t, n, v, 0);
        assert(t[k] == v);
        leaf_bound(t, c, n, m, k);
    }
}
pub proof fn leaf_bound_all(t: Seq<i32>, c: Seq<i32>, n: int, m: int)
    requires forest(t, n), counts(t, c, n),
        forall|u: int| 0 <= u < n && c[u] == 0 ==> #[trigger] depth(t, n, u) <= m,
    ensures forall|u: int| 0 <= u < n ==> #[trigger] depth(t, n, u) <= m,
{
    assert forall|u: int| 0 <= u < n implies #[trigger] depth(t, n, u) <= m by { leaf_bound(t, c, n, m, u); }
}
pub proof fn leaf_boundw(t: Seq<i32>, c: Seq<i32>, w: Seq<i32>, n: int, m: int, v: int)
    requires forest(t, n), counts(t, c, n), 0 <= v < n, weights_ok(t, w, n),
        forall|u: int| 0 <= u < n && c[u] == 0 ==> #[trigger] pw(t, w, n, u) <= m,
    ensures pw(t, w, n, v) <= m,
    decreases v
{
    if c[v] != 0 {
        cnt_bounds(t, n, v);
        let k = occ(t, n, v, 0);
        assert(t[k] == v);
        assert(0 <= w[k]);
        leaf_boundw(t, c, w, n, m, k);
    }
}
pub open spec fn pathlen(t: Seq<i32>, w: Seq<i32>, n: int, v: int) -> int { if w.len() > 0 { pw(t, w, n, v) } else { depth(t, n, v) } }
pub open spec fn in_bucket(t: Seq<i32>, c: Seq<i32>, v: int, q: int) -> bool { 0 <= c[q] < t.len() && t[c[q] as int] == v }
// cost of v with the subtrees of its first k nodes added, in order
pub open spec fn scost(t: Seq<i32>, w: Seq<F64>, v: int, k: int) -> F64
    decreases v, k
{
    if k <= 0 || v < 0 { w[v] } else if t[k - 1] == v && k - 1 < v { fadd_s(scost(t, w, v, k - 1), scost(t, w, k - 1, k - 1)) } else { scost(t, w, v, k - 1) }
}
pub proof fn scost_stop(t: Seq<i32>, w: Seq<F64>, v: int, k: int)
    requires 0 <= v <= k,
    ensures scost(t, w, v, k) == scost(t, w, v, v),
    decreases k
{ if k > v { scost_stop(t, w, v, k - 1); } }
