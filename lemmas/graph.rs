//@uses sums
// a graph in compressed form: the entries e with p[c] <= e < p[c+1] are the edges c -> i[e]
pub open spec fn ptrs(p: Seq<i32>, n: int) -> bool {
    n >= 0 && p.len() > n && p[0] == 0 && forall|a: int, b: int| 0 <= a <= b <= n ==> #[trigger] p[a] <= #[trigger] p[b]
}
pub open spec fn gwf(p: Seq<i32>, i: Seq<i32>, n: int) -> bool {
    ptrs(p, n) && i.len() >= p[n] && forall|e: int| 0 <= e < p[n] ==> 0 <= #[trigger] i[e] < n
}
pub open spec fn in_col(p: Seq<i32>, c: int, e: int) -> bool { p[c] <= e < p[c + 1] }
pub open spec fn src(p: Seq<i32>, n: int, e: int) -> int { choose|c: int| 0 <= c < n && in_col(p, c, e) }
pub proof fn src_ex(p: Seq<i32>, n: int, e: int)
    requires ptrs(p, n), 0 <= e < p[n],
    ensures 0 <= src(p, n, e) < n, in_col(p, src(p, n, e), e),
{ let c = src_find(p, n, e); }
proof fn src_find(p: Seq<i32>, n: int, e: int) -> (c: int)
    requires n >= 0, p.len() > n, p[0] <= e < p[n],
    ensures 0 <= c < n, in_col(p, c, e),
    decreases n
{ if n == 0 { 0 } else if e >= p[n - 1] { n - 1 } else { src_find(p, n - 1, e) } }
pub proof fn src_is(p: Seq<i32>, n: int, c: int, e: int)
    requires ptrs(p, n), 0 <= c < n, in_col(p, c, e),
    ensures src(p, n, e) == c, 0 <= e < p[n],
{
    assert(p[0] <= p[c]); assert(p[c + 1] <= p[n]);
    src_ex(p, n, e);
    let d = src(p, n, e);
    if d < c { assert(p[d + 1] <= p[c]); } else if c < d { assert(p[c + 1] <= p[d]); }
}
pub open spec fn is_diag(p: Seq<i32>, i: Seq<i32>, v: int, e: int) -> bool { in_col(p, v, e) && i[e] == v }
// exactly one diagonal entry per node
pub open spec fn diag1(p: Seq<i32>, i: Seq<i32>, n: int) -> bool {
    (forall|v: int| 0 <= v < n ==> #[trigger] has_diag(p, i, v))
    && forall|v: int, e: int, f: int| 0 <= v < n && #[trigger] is_diag(p, i, v, e) && #[trigger] is_diag(p, i, v, f) ==> e == f
}
pub open spec fn has_diag(p: Seq<i32>, i: Seq<i32>, v: int) -> bool { exists|e: int| is_diag(p, i, v, e) }
pub open spec fn diag(p: Seq<i32>, i: Seq<i32>, v: int) -> int { choose|e: int| is_diag(p, i, v, e) }
pub open spec fn dag_in(p: Seq<i32>, i: Seq<i32>, n: int) -> bool { gwf(p, i, n) && diag1(p, i, n) && n < i32::MAX && p[n] < i32::MAX }
// the node's own entry comes first
pub open spec fn diag_first(p: Seq<i32>, i: Seq<i32>, n: int) -> bool {
    forall|v: int| 0 <= v < n ==> #[trigger] p[v] < p[v + 1] && i[p[v] as int] == v
}
// an order of the nodes that every edge respects
pub open spec fn ranked(p: Seq<i32>, i: Seq<i32>, n: int, rk: Seq<int>) -> bool {
    rk.len() == n && forall|e: int| 0 <= e < p[n] && i[e] != src(p, n, e) ==> rk[#[trigger] src(p, n, e)] < rk[i[e] as int]
}
pub open spec fn acyclic(p: Seq<i32>, i: Seq<i32>, n: int) -> bool { exists|rk: Seq<int>| ranked(p, i, n, rk) }

// number of live entries with target v among the first k
pub open spec fn live(i: Seq<i32>, dead: Seq<bool>, k: int, v: int) -> int
    decreases k
{ if k <= 0 { 0 } else { live(i, dead, k - 1, v) + (if i[k - 1] == v && !dead[k - 1] { 1int } else { 0int }) } }
pub proof fn live_bounds(i: Seq<i32>, dead: Seq<bool>, k: int, v: int)
    requires k >= 0,
    ensures 0 <= live(i, dead, k, v) <= k,
    decreases k
{ if k > 0 { live_bounds(i, dead, k - 1, v); } }
pub proof fn live_same(i: Seq<i32>, d: Seq<bool>, e: Seq<bool>, k: int, v: int)
    requires forall|q: int| 0 <= q < k && i[q] == v ==> d[q] == #[trigger] e[q],
    ensures live(i, d, k, v) == live(i, e, k, v),
    decreases k
{ if k > 0 { live_same(i, d, e, k - 1, v); if i[k - 1] == v { assert(d[k - 1] == e[k - 1]); } } }
// killing one live entry lowers the count of its target by one
pub proof fn live_kill(i: Seq<i32>, d: Seq<bool>, k: int, q: int, v: int)
    requires 0 <= q < k <= d.len(), !d[q],
    ensures live(i, d.update(q, true), k, v) == live(i, d, k, v) - (if i[q] == v { 1int } else { 0int }),
    decreases k
{
    if q == k - 1 { live_same(i, d, d.update(q, true), k - 1, v); }
    else { live_kill(i, d, k - 1, q, v); }
}
pub proof fn live_kill_all(i: Seq<i32>, d: Seq<bool>, k: int, q: int)
    requires 0 <= q < k <= d.len(), !d[q],
    ensures forall|v: int| #[trigger] live(i, d.update(q, true), k, v) == live(i, d, k, v) - (if i[q] == v { 1int } else { 0int }),
{
    assert forall|v: int| #[trigger] live(i, d.update(q, true), k, v) == live(i, d, k, v) - (if i[q] == v { 1int } else { 0int }) by { live_kill(i, d, k, q, v); }
}
pub proof fn live_one(i: Seq<i32>, d: Seq<bool>, k: int, q: int)
    requires 0 <= q < k, !d[q],
    ensures live(i, d, k, i[q] as int) >= 1,
    decreases k
{ live_bounds(i, d, k - 1, i[q] as int); if q < k - 1 { live_one(i, d, k - 1, q); } }
pub proof fn live_two(i: Seq<i32>, d: Seq<bool>, k: int, q: int, r: int)
    requires 0 <= q < r < k, !d[q], !d[r], i[q] == i[r],
    ensures live(i, d, k, i[q] as int) >= 2,
    decreases k
{ live_bounds(i, d, k - 1, i[q] as int); if r < k - 1 { live_two(i, d, k - 1, q, r); } else { live_one(i, d, k - 1, q); } }
// one entry only
pub proof fn live_only(i: Seq<i32>, d: Seq<bool>, k: int, q: int)
    requires 0 <= q < k, !d[q], forall|r: int| 0 <= r < k && r != q && #[trigger] i[r] == i[q] ==> d[r],
    ensures live(i, d, k, i[q] as int) == 1,
    decreases k
{ if q < k - 1 { live_only(i, d, k - 1, q); assert(i[k - 1] == i[q] ==> d[k - 1]); } else { live_none(i, d, k - 1, i[q] as int); } }
pub proof fn live_none(i: Seq<i32>, d: Seq<bool>, k: int, v: int)
    requires forall|r: int| 0 <= r < k && #[trigger] i[r] == v ==> d[r],
    ensures live(i, d, k, v) == 0,
    decreases k
{ if k > 0 { live_none(i, d, k - 1, v); assert(i[k - 1] == v ==> d[k - 1]); } }

// ---------------------------------------------------------------- state of the level-set construction
// lv: level of a node (-1: none yet); entries out of nodes of levels below c, diagonals excepted, are dead
pub open spec fn dead_upto(p: Seq<i32>, i: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, c: int) -> bool {
    dead.len() == p[n] && lv.len() == n
    && forall|e: int| 0 <= e < p[n] ==> #[trigger] dead[e] == (i[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] < c)
}
pub open spec fn degs(i: Seq<i32>, dead: Seq<bool>, m: int, deg: Seq<i32>, n: int) -> bool {
    deg.len() == n && forall|v: int| 0 <= v < n ==> #[trigger] deg[v] == live(i, dead, m, v)
}
// a node of degree one has all its predecessors in earlier levels, and conversely
pub open spec fn preds_below(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, v: int, c: int) -> bool {
    forall|e: int| 0 <= e < p[n] && #[trigger] i[e] == v && src(p, n, e) != v ==> 0 <= lv[src(p, n, e)] < c
}
pub proof fn deg_one(p: Seq<i32>, i: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, c: int, deg: Seq<i32>, v: int)
    requires gwf(p, i, n), diag1(p, i, n), dead_upto(p, i, n, dead, lv, c), degs(i, dead, p[n] as int, deg, n), 0 <= v < n,
    ensures deg[v] >= 1, deg[v] == 1 <==> preds_below(p, i, n, lv, v, c),
{
    assert(has_diag(p, i, v));
    let q = diag(p, i, v);
    assert(is_diag(p, i, v, q));
    src_is(p, n, v, q);
    assert(!dead[q]);
    live_one(i, dead, p[n] as int, q);
    if deg[v] == 1 {
        assert forall|e: int| 0 <= e < p[n] && #[trigger] i[e] == v && src(p, n, e) != v implies 0 <= lv[src(p, n, e)] < c by {
            if !dead[e] {
                if e < q { live_two(i, dead, p[n] as int, e, q); } else { live_two(i, dead, p[n] as int, q, e); }
            }
        }
    }
    if preds_below(p, i, n, lv, v, c) {
        assert forall|r: int| 0 <= r < p[n] && r != q && #[trigger] i[r] == i[q] implies dead[r] by {
            src_ex(p, n, r);
            if src(p, n, r) == v { assert(is_diag(p, i, v, r)); }
        }
        live_only(i, dead, p[n] as int, q);
    }
}
pub proof fn deg_one_all(p: Seq<i32>, i: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, c: int, deg: Seq<i32>)
    requires gwf(p, i, n), diag1(p, i, n), dead_upto(p, i, n, dead, lv, c), degs(i, dead, p[n] as int, deg, n),
    ensures forall|v: int| 0 <= v < n ==> #[trigger] deg[v] >= 1 && (deg[v] == 1 <==> preds_below(p, i, n, lv, v, c)),
{
    assert forall|v: int| 0 <= v < n implies #[trigger] deg[v] >= 1 && (deg[v] == 1 <==> preds_below(p, i, n, lv, v, c)) by { deg_one(p, i, n, dead, lv, c, deg, v); }
}
// in an acyclic graph some node without a level has all its predecessors in levels
pub proof fn progress(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, c: int, rk: Seq<int>, w: int) -> (v: int)
    requires gwf(p, i, n), ranked(p, i, n, rk), lv.len() == n, 0 <= w < n, lv[w] < 0, forall|u: int| 0 <= u < n ==> #[trigger] lv[u] < c,
    ensures 0 <= v < n, lv[v] < 0, preds_below(p, i, n, lv, v, c),
{
    let v = least(lv, rk, n, w);
    assert forall|e: int| 0 <= e < p[n] && #[trigger] i[e] == v && src(p, n, e) != v implies 0 <= lv[src(p, n, e)] < c by {
        src_ex(p, n, e);
        assert(lv[src(p, n, e)] < c);
    }
    v
}
proof fn least(lv: Seq<int>, rk: Seq<int>, n: int, w: int) -> (v: int)
    requires 0 <= w < n, lv[w] < 0, lv.len() == n, rk.len() == n,
    ensures 0 <= v < n, lv[v] < 0, forall|u: int| 0 <= u < n && lv[u] < 0 ==> #[trigger] rk[u] >= rk[v],
{ least_upto(lv, rk, n, w, n) }
proof fn least_upto(lv: Seq<int>, rk: Seq<int>, n: int, w: int, k: int) -> (v: int)
    requires 0 <= w < n, lv[w] < 0, lv.len() == n, rk.len() == n, 0 <= k <= n,
    ensures 0 <= v < n, lv[v] < 0, forall|u: int| 0 <= u < k && lv[u] < 0 ==> #[trigger] rk[u] >= rk[v],
    decreases k
{
    if k == 0 { w } else {
        let v = least_upto(lv, rk, n, w, k - 1);
        if lv[k - 1] < 0 && rk[k - 1] < rk[v] { k - 1 } else { v }
    }
}
// the first m entries of ls list, level after level, exactly the nodes that have a level
pub open spec fn listed(ls: Seq<i32>, lp: Seq<i32>, lv: Seq<int>, pos: Seq<int>, n: int, c: int, m: int) -> bool {
    ls.len() >= n && lv.len() == n && pos.len() == n && 0 <= m <= n
    && (forall|q: int| 0 <= q < m ==> 0 <= #[trigger] ls[q] < n && pos[ls[q] as int] == q && lv[ls[q] as int] >= 0)
    && (forall|v: int| 0 <= v < n && #[trigger] lv[v] >= 0 ==> 0 <= pos[v] < m && ls[pos[v]] == v)
    && (forall|v: int| 0 <= v < n && 0 <= #[trigger] lv[v] < c ==> lp[lv[v]] <= pos[v] < lp[lv[v] + 1])
}
// the result: c levels that list every node once, every edge forward, every node right after its latest predecessor
pub open spec fn levels_ok(p: Seq<i32>, i: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, lv: Seq<int>, pos: Seq<int>, c: int) -> bool {
    0 <= c <= n && lp.len() > c && lp[0] == 0 && lp[c] == n
    && (forall|a: int, b: int| 0 <= a <= b <= c ==> #[trigger] lp[a] <= #[trigger] lp[b])
    && listed(ls, lp, lv, pos, n, c, n)
    && (forall|v: int| 0 <= v < n ==> 0 <= #[trigger] lv[v] < c)
    && (forall|e: int| 0 <= e < p[n] && i[e] != src(p, n, e) ==> lv[#[trigger] src(p, n, e)] < lv[i[e] as int])
    && (forall|v: int| 0 <= v < n && #[trigger] lv[v] > 0 ==> has_pred_at(p, i, n, lv, v, lv[v] - 1))
}
pub open spec fn has_pred_at(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, v: int, l: int) -> bool {
    exists|e: int| 0 <= e < p[n] && #[trigger] i[e] == v && src(p, n, e) != v && lv[src(p, n, e)] == l
}
pub open spec fn level_result(p: Seq<i32>, i: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int) -> bool {
    exists|lv: Seq<int>, pos: Seq<int>| levels_ok(p, i, n, lp, ls, lv, pos, c)
}
pub open spec fn nlev(lv: Seq<int>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nlev(lv, k - 1) + (if lv[k - 1] >= 0 { 1int } else { 0int }) } }
pub proof fn nlev_le(lv: Seq<int>, k: int)
    requires k >= 0,
    ensures 0 <= nlev(lv, k) <= k,
    decreases k
{ if k > 0 { nlev_le(lv, k - 1); } }
pub proof fn nlev_lt(lv: Seq<int>, k: int, w: int)
    requires 0 <= w < k, lv[w] < 0,
    ensures 0 <= nlev(lv, k) < k,
    decreases k
{ nlev_le(lv, k - 1); if w < k - 1 { nlev_lt(lv, k - 1, w); } }
pub proof fn nlev_upd(lv: Seq<int>, k: int, w: int, x: int)
    requires 0 <= w < lv.len(), 0 <= k <= lv.len(), lv[w] < 0, x >= 0,
    ensures nlev(lv.update(w, x), k) == nlev(lv, k) + (if w < k { 1int } else { 0int }),
    decreases k
{ if k > 0 { nlev_upd(lv, k - 1, w, x); } }
pub proof fn nlev_all(lv: Seq<int>, k: int)
    requires k >= 0, forall|v: int| 0 <= v < k ==> #[trigger] lv[v] >= 0,
    ensures nlev(lv, k) == k,
    decreases k
{ if k > 0 { nlev_all(lv, k - 1); assert(lv[k - 1] >= 0); } }
pub proof fn nlev_none(lv: Seq<int>, k: int)
    requires k >= 0, forall|v: int| 0 <= v < k ==> #[trigger] lv[v] < 0,
    ensures nlev(lv, k) == 0,
    decreases k
{ if k > 0 { nlev_none(lv, k - 1); assert(lv[k - 1] < 0); } }
// levels grow; edges into placed nodes come from earlier levels; every placed node has a predecessor one level below
pub open spec fn placed(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>) -> bool {
    lv.len() == n
    && (forall|e: int| 0 <= e < p[n] && i[e] != src(p, n, e) && lv[i[e] as int] >= 0 ==> 0 <= lv[#[trigger] src(p, n, e)] < lv[i[e] as int])
    && (forall|v: int| 0 <= v < n && #[trigger] lv[v] > 0 ==> has_pred_at(p, i, n, lv, v, lv[v] - 1))
}
// unplaced nodes were not ready one level ago
pub open spec fn unready(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, c: int) -> bool {
    forall|v: int| 0 <= v < n && #[trigger] lv[v] < 0 ==> !preds_below(p, i, n, lv, v, c)
}
// placing node w in level c
pub proof fn place(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, c: int, w: int)
    requires gwf(p, i, n), placed(p, i, n, lv), 0 <= w < n, lv[w] < 0, c >= 0, preds_below(p, i, n, lv, w, c), c > 0 ==> !preds_below(p, i, n, lv, w, c - 1),
    ensures placed(p, i, n, lv.update(w, c)),
{
    let l2 = lv.update(w, c);
    assert forall|e: int| 0 <= e < p[n] && i[e] != src(p, n, e) && l2[i[e] as int] >= 0 implies 0 <= l2[#[trigger] src(p, n, e)] < l2[i[e] as int] by {
        src_ex(p, n, e);
        if i[e] == w { assert(0 <= lv[src(p, n, e)] < c); }
    }
    assert forall|v: int| 0 <= v < n && #[trigger] l2[v] > 0 implies has_pred_at(p, i, n, l2, v, l2[v] - 1) by {
        if v == w {
            let e = choose|e: int| 0 <= e < p[n] && #[trigger] i[e] == w && src(p, n, e) != w && !(0 <= lv[src(p, n, e)] < c - 1);
            assert(0 <= lv[src(p, n, e)] < c);
            src_ex(p, n, e);
            assert(i[e] == w && src(p, n, e) != w && l2[src(p, n, e)] == c - 1);
        } else {
            assert(has_pred_at(p, i, n, lv, v, lv[v] - 1));
            let e = choose|e: int| 0 <= e < p[n] && #[trigger] i[e] == v && src(p, n, e) != v && lv[src(p, n, e)] == lv[v] - 1;
            src_ex(p, n, e);
            assert(i[e] == v && src(p, n, e) != v && l2[src(p, n, e)] == l2[v] - 1);
        }
    }
}
// an entry placed in level c does not make others ready for level c
pub proof fn below_upd(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, v: int, c: int, w: int)
    requires gwf(p, i, n), lv.len() == n, 0 <= w < n, lv[w] < 0,
    ensures preds_below(p, i, n, lv.update(w, c), v, c) == preds_below(p, i, n, lv, v, c), preds_below(p, i, n, lv.update(w, c), v, c - 1) == preds_below(p, i, n, lv, v, c - 1),
{
    let l2 = lv.update(w, c);
    assert forall|e: int| 0 <= e < p[n] implies #[trigger] i[e] == i[e] && (0 <= l2[src(p, n, e)] < c <==> 0 <= lv[src(p, n, e)] < c) && (0 <= l2[src(p, n, e)] < c - 1 <==> 0 <= lv[src(p, n, e)] < c - 1) by { src_ex(p, n, e); }
    if preds_below(p, i, n, lv, v, c) { assert(preds_below(p, i, n, l2, v, c)); }
    if preds_below(p, i, n, l2, v, c) { assert(preds_below(p, i, n, lv, v, c)); }
    if preds_below(p, i, n, lv, v, c - 1) { assert(preds_below(p, i, n, l2, v, c - 1)); }
    if preds_below(p, i, n, l2, v, c - 1) { assert(preds_below(p, i, n, lv, v, c - 1)); }
}
pub proof fn below_upd_all(p: Seq<i32>, i: Seq<i32>, n: int, lv: Seq<int>, c: int, w: int)
    requires gwf(p, i, n), lv.len() == n, 0 <= w < n, lv[w] < 0,
    ensures forall|v: int| #[trigger] preds_below(p, i, n, lv.update(w, c), v, c) == preds_below(p, i, n, lv, v, c),
        forall|v: int| #[trigger] preds_below(p, i, n, lv.update(w, c), v, c - 1) == preds_below(p, i, n, lv, v, c - 1),
{
    assert forall|v: int| #[trigger] preds_below(p, i, n, lv.update(w, c), v, c) == preds_below(p, i, n, lv, v, c) by { below_upd(p, i, n, lv, v, c, w); }
    assert forall|v: int| #[trigger] preds_below(p, i, n, lv.update(w, c), v, c - 1) == preds_below(p, i, n, lv, v, c - 1) by { below_upd(p, i, n, lv, v, c, w); }
}
pub open spec fn level_result_nl(p: Seq<i32>, i: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, nl: Seq<i32>, c: int) -> bool {
    exists|lv: Seq<int>, pos: Seq<int>| levels_ok(p, i, n, lp, ls, lv, pos, c) && nl.len() >= n && forall|v: int| 0 <= v < n ==> #[trigger] nl[v] == lv[v]
}
