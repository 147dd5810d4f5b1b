//@uses tree perm
// the levels of a forest: every node once, on the level one past its last child
pub open spec fn tree_levels(t: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int) -> bool {
    0 <= c && lp.len() > c && lp[0] == 0 && lp[c] == n && (forall|a: int, b: int| 0 <= a <= b <= c ==> #[trigger] lp[a] <= #[trigger] lp[b])
    && is_perm(ls, n) && forall|l: int, x: int| 0 <= l < c && #[trigger] in_col_t(lp, l, x) ==> tlev(t, n, ls[x] as int) == l
}
pub open spec fn in_col_t(lp: Seq<i32>, l: int, x: int) -> bool { lp[l] <= x < lp[l + 1] }
pub proof fn lev_child(t: Seq<i32>, n: int, v: int, m: int, u: int)
    requires 0 <= u < m <= v < n, t[u] == v,
    ensures lev_upto(t, n, v, m) >= 1 + tlev(t, n, u),
    decreases m
{ if m - 1 != u { lev_child(t, n, v, m - 1, u); } }
pub proof fn lev_wit(t: Seq<i32>, n: int, v: int, m: int) -> (u: int)
    requires 0 <= m <= v < n,
    ensures 0 <= lev_upto(t, n, v, m), lev_upto(t, n, v, m) > 0 ==> 0 <= u < m && t[u] == v && lev_upto(t, n, v, m) == 1 + tlev(t, n, u),
    decreases v, 0int, m
{
    if m <= 0 { 0 } else {
        let w = lev_wit(t, n, v, m - 1);
        let r = lev_upto(t, n, v, m - 1);
        if t[m - 1] == v && 1 + tlev(t, n, m - 1) > r { tlev_ge0(t, n, m - 1); m - 1 } else { w }
    }
}
pub proof fn tlev_ge0(t: Seq<i32>, n: int, v: int)
    requires 0 <= v < n,
    ensures 0 <= tlev(t, n, v),
    decreases v, 1int, 0int
{ let u = lev_wit(t, n, v, v); }
pub proof fn tlev_up(t: Seq<i32>, n: int, u: int)
    requires forest(t, n), 0 <= u < n, t[u] >= 0,
    ensures tlev(t, n, t[u] as int) >= 1 + tlev(t, n, u), 0 <= tlev(t, n, u), u < t[u] < n,
{ lev_child(t, n, t[u] as int, t[u] as int, u); tlev_ge0(t, n, u); }
pub proof fn tlev_wit(t: Seq<i32>, n: int, v: int) -> (u: int)
    requires forest(t, n), 0 <= v < n,
    ensures 0 <= tlev(t, n, v), tlev(t, n, v) > 0 ==> 0 <= u < v && t[u] == v && tlev(t, n, v) == 1 + tlev(t, n, u),
{ lev_wit(t, n, v, v) }
pub proof fn tlev_bound(t: Seq<i32>, n: int, v: int)
    requires forest(t, n), 0 <= v < n,
    ensures 0 <= tlev(t, n, v) <= v,
    decreases v
{ let u = tlev_wit(t, n, v); if tlev(t, n, v) > 0 { tlev_bound(t, n, u); } }
// ---- the quick construction: every leaf pushes its distance up its path
pub open spec fn started(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, i: int, v: int) -> bool { nl[v] > 0 || (v < i && c[v] == 0) }
pub open spec fn pushed(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, v: int) -> bool { started(t, c, nl, i, v) && t[v] >= 0 ==> nl[t[v] as int] >= nl[v] + 1 }
pub open spec fn nl_low(t: Seq<i32>, nl: Seq<i32>, n: int) -> bool { forall|v: int| 0 <= v < n ==> 0 <= #[trigger] nl[v] <= tlev(t, n, v) }
pub open spec fn nl_at(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int) -> bool {
    nl.len() >= n && nl_low(t, nl, n) && (forall|v: int| 0 <= v < n ==> #[trigger] pushed(t, c, nl, n, i, v)) && (forall|v: int| 0 <= v < n ==> #[trigger] nl[v] <= m)
    && 0 <= m && (m == 0 || exists|v: int| 0 <= v < n && #[trigger] nl[v] == m)
}
// on the way up from leaf i: at node with level l
pub open spec fn nl_walk(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int, node: int, l: int) -> bool {
    nl.len() >= n && nl_low(t, nl, n) && (forall|v: int| 0 <= v < n && v != node ==> #[trigger] pushed(t, c, nl, n, i + 1, v)) && (forall|v: int| 0 <= v < n ==> #[trigger] nl[v] <= m || nl[v] <= l)
    && 0 <= m && (m == 0 || exists|v: int| 0 <= v < n && #[trigger] nl[v] >= m) && 0 <= node < n && nl[node] == l && (node == i || nl[node] > 0)
}
pub proof fn walk_begin(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int)
    requires forest(t, n), counts(t, c, n), nl_at(t, c, nl, n, i, m), 0 <= i < n, c[i] == 0,
    ensures nl_walk(t, c, nl, n, i, m, i, 0),
{
    assert(cnt(t, n, i) == 0);
    cnt_zero_none(t, n, i);
    let u = tlev_wit(t, n, i);
    assert(nl[i] == 0);
    assert forall|v: int| 0 <= v < n && v != i implies #[trigger] pushed(t, c, nl, n, i + 1, v) by { assert(pushed(t, c, nl, n, i, v)); }
}
pub proof fn walk_step(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int, node: int, l: int)
    requires forest(t, n), n <= i32::MAX, nl_walk(t, c, nl, n, i, m, node, l), t[node] >= 0, l + 1 >= nl[t[node] as int],
    ensures nl_walk(t, c, nl.update(t[node] as int, (l + 1) as i32), n, i, m, t[node] as int, l + 1), l + 1 < n,
{
    let p = t[node] as int;
    tlev_up(t, n, node); tlev_bound(t, n, p);
    let n2 = nl.update(p, (l + 1) as i32);
    assert forall|v: int| 0 <= v < n && v != p implies #[trigger] pushed(t, c, n2, n, i + 1, v) by {
        if v != node { assert(pushed(t, c, nl, n, i + 1, v)); }
        if t[v] >= 0 { tlev_up(t, n, v); }
    }
    assert forall|v: int| 0 <= v < n implies 0 <= #[trigger] n2[v] <= tlev(t, n, v) by { }
    if m != 0 { let v = choose|v: int| 0 <= v < n && #[trigger] nl[v] >= m; assert(n2[v] >= m); }
}
pub proof fn walk_stop(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int, node: int, l: int)
    requires forest(t, n), n <= i32::MAX, nl_walk(t, c, nl, n, i, m, node, l), t[node] >= 0, l + 1 < nl[t[node] as int],
    ensures nl_done(t, c, nl, n, i, m, l + 1), l + 1 < n,
{
    tlev_up(t, n, node); tlev_bound(t, n, t[node] as int);
    assert forall|v: int| 0 <= v < n implies #[trigger] pushed(t, c, nl, n, i + 1, v) by { }
}
pub proof fn walk_top(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int, node: int, l: int)
    requires forest(t, n), nl_walk(t, c, nl, n, i, m, node, l), t[node] < 0,
    ensures nl_done(t, c, nl, n, i, m, l),
{
    assert forall|v: int| 0 <= v < n implies #[trigger] pushed(t, c, nl, n, i + 1, v) by { }
}
// the walk from leaf i is over; the deepest level is m or l, whichever is more
pub open spec fn nl_done(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int, l: int) -> bool {
    0 <= l && nl_at(t, c, nl, n, i + 1, if l > m { l } else { m })
}
pub proof fn nl_init(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int)
    requires forest(t, n), nl.len() >= n, forall|v: int| 0 <= v < n ==> #[trigger] nl[v] == 0,
    ensures nl_at(t, c, nl, n, 0, 0),
{ assert forall|v: int| 0 <= v < n implies 0 <= #[trigger] nl[v] <= tlev(t, n, v) by { tlev_ge0(t, n, v); } }
pub proof fn nl_skip(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, i: int, m: int)
    requires nl_at(t, c, nl, n, i, m), c[i] != 0,
    ensures nl_at(t, c, nl, n, i + 1, m),
{ assert forall|v: int| 0 <= v < n implies #[trigger] pushed(t, c, nl, n, i + 1, v) by { assert(pushed(t, c, nl, n, i, v)); } }
pub open spec fn is_lev(t: Seq<i32>, nl: Seq<i32>, n: int) -> bool { nl.len() >= n && forall|v: int| 0 <= v < n ==> #[trigger] nl[v] == tlev(t, n, v) }
proof fn nl_full(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, m: int, v: int)
    requires forest(t, n), counts(t, c, n), nl_at(t, c, nl, n, n, m), 0 <= v < n,
    ensures nl[v] == tlev(t, n, v),
    decreases v
{
    let u = tlev_wit(t, n, v);
    if tlev(t, n, v) > 0 {
        nl_full(t, c, nl, n, m, u);
        assert(pushed(t, c, nl, n, n, u));
        let w = tlev_wit(t, n, u);
        if c[u] == 0 { } else {
            cnt_bounds(t, n, u);
            let k = occ(t, n, u, 0);
            tlev_up(t, n, k);
        }
    }
}
pub proof fn nl_final(t: Seq<i32>, c: Seq<i32>, nl: Seq<i32>, n: int, m: int)
    requires forest(t, n), counts(t, c, n), nl_at(t, c, nl, n, n, m), n >= 1,
    ensures is_lev(t, nl, n), forall|v: int| 0 <= v < n ==> 0 <= #[trigger] nl[v] <= m, m < n, forall|k: int| 0 <= k < n ==> (c[k] == 0) == (#[trigger] nl[k] == 0),
{
    assert forall|v: int| 0 <= v < n implies #[trigger] nl[v] == tlev(t, n, v) by { nl_full(t, c, nl, n, m, v); }
    if m > 0 { let v = choose|v: int| 0 <= v < n && #[trigger] nl[v] == m; tlev_bound(t, n, v); }
    assert forall|k: int| 0 <= k < n implies (c[k] == 0) == (#[trigger] nl[k] == 0) by {
        let u = tlev_wit(t, n, k);
        if c[k] == 0 { assert(cnt(t, n, k) == 0); cnt_zero_none(t, n, k); }
        else { cnt_bounds(t, n, k); let x = occ(t, n, k, 0); tlev_up(t, n, x); }
    }
}
pub proof fn zero_cnt(c: Seq<i32>, nl: Seq<i32>, n: int, k: int)
    requires 0 <= k <= n, forall|x: int| 0 <= x < n ==> (c[x] == 0) == (#[trigger] nl[x] == 0),
    ensures cnt(c, k, 0) == cnt(nl, k, 0),
    decreases k
{ if k > 0 { zero_cnt(c, nl, n, k - 1); assert((c[k - 1] == 0) == (nl[k - 1] == 0)); } }
pub proof fn zero_slot(nl: Seq<i32>, n: int, k: int)
    requires 0 <= k < n, nl[k] == 0,
    ensures slot(nl, n, k) == cnt(nl, k, 0),
{ }
// counting sort by level
pub proof fn tl_done(t: Seq<i32>, nl: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, m: int)
    requires forest(t, n), is_lev(t, nl, n), 0 <= m < n, lp.len() > m + 1, ls.len() >= n, forall|v: int| 0 <= v < n ==> 0 <= #[trigger] nl[v] <= m,
        forall|k: int| 0 <= k <= m + 1 ==> #[trigger] lp[k] == start(nl, n, k), forall|k: int| 0 <= k < n ==> ls[#[trigger] slot(nl, n, k)] == k,
    ensures tree_levels(t, n, lp, ls, m + 1),
{
    start_le(nl, n, m + 1);
    assert forall|a: int, b: int| 0 <= a <= b <= m + 1 implies #[trigger] lp[a] <= #[trigger] lp[b] by { start_mono(nl, n, a, b); }
    assert(lp[0] == start(nl, n, 0));
    assert(lp[m + 1] == n);
    assert forall|q: int| 0 <= q < n implies 0 <= #[trigger] ls[q] < n && slot(nl, n, ls[q] as int) == q by { let k = slot_onto(nl, n, q, m + 1); assert(ls[slot(nl, n, k)] == k); }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] ls[a] != #[trigger] ls[b] by { }
    assert forall|l: int, x: int| 0 <= l < m + 1 && #[trigger] in_col_t(lp, l, x) implies tlev(t, n, ls[x] as int) == l by {
        assert(lp[l] == start(nl, n, l)); assert(lp[l + 1] == start(nl, n, l + 1));
        start_any(nl, n, l, m + 1); start_any(nl, n, l + 1, m + 1);
        let k = ls[x] as int;
        slot_in(nl, n, k, m + 1);
        if nl[k] < l { start_mono(nl, n, nl[k] + 1, l); } else if nl[k] > l { start_mono(nl, n, l + 1, nl[k] as int); }
    }
}
// ---- the level-by-level construction
pub open spec fn nv(vis: Seq<bool>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nv(vis, k - 1) + if vis[k - 1] { 1int } else { 0 } } }
pub proof fn nv_le(vis: Seq<bool>, k: int)
    requires 0 <= k,
    ensures 0 <= nv(vis, k) <= k,
    decreases k
{ if k > 0 { nv_le(vis, k - 1); } }
pub proof fn nv_set(vis: Seq<bool>, k: int, v: int)
    requires 0 <= v < vis.len(), !vis[v], 0 <= k <= vis.len(),
    ensures nv(vis.update(v, true), k) == nv(vis, k) + if v < k { 1int } else { 0 },
    decreases k
{ if k > 0 { nv_set(vis, k - 1, v); } }
pub proof fn nv_find(vis: Seq<bool>, k: int) -> (v: int)
    requires nv(vis, k) < k,
    ensures 0 <= v < k, !vis[v],
    decreases k
{ if k <= 0 { 0 } else if !vis[k - 1] { k - 1 } else { nv_find(vis, k - 1) } }
pub proof fn nv_full(vis: Seq<bool>, k: int, v: int)
    requires nv(vis, k) == k, 0 <= v < k,
    ensures vis[v],
    decreases k
{ nv_le(vis, k - 1); if v < k - 1 { nv_full(vis, k - 1, v); } }
pub proof fn nv_zero(vis: Seq<bool>, k: int)
    requires 0 <= k <= vis.len(), forall|v: int| 0 <= v < vis.len() ==> !#[trigger] vis[v],
    ensures nv(vis, k) == 0,
    decreases k
{ if k > 0 { nv_zero(vis, k - 1); assert(!vis[k - 1]); } }
pub open spec fn masked(t: Seq<i32>, n: int, c: int) -> Seq<i32> { Seq::new(n as nat, |v: int| if tlev(t, n, v) < c { -1i32 } else { t[v] }) }
pub proof fn ready(t: Seq<i32>, n: int, c: int, v: int)
    requires forest(t, n), 0 <= v < n, 0 <= c,
    ensures (cnt(masked(t, n, c), n, v) == 0) == (tlev(t, n, v) <= c), 0 <= cnt(masked(t, n, c), n, v) <= n,
{
    let s = masked(t, n, c);
    cnt_bounds(s, n, v);
    if cnt(s, n, v) == 0 {
        cnt_zero_none(s, n, v);
        let u = tlev_wit(t, n, v);
        if tlev(t, n, v) > c { assert(s[u] != v); }
    } else {
        let k = occ(s, n, v, 0);
        assert(s[k] == v);
        tlev_up(t, n, k);
    }
}
pub proof fn cnt_drop(s: Seq<i32>, n: int, k: int, v: int)
    requires 0 <= k < s.len(), v >= 0, n <= s.len(),
    ensures cnt(s.update(k, -1i32), n, v) == cnt(s, n, v) - (if k < n && s[k] == v { 1int } else { 0 }),
    decreases n
{ if n > 0 { cnt_drop(s, n - 1, k, v); } }
pub proof fn some_at(t: Seq<i32>, n: int, c: int, v: int) -> (u: int)
    requires forest(t, n), 0 <= v < n, 0 <= c <= tlev(t, n, v),
    ensures 0 <= u < n, tlev(t, n, u) == c,
    decreases v
{ if tlev(t, n, v) == c { v } else { let w = tlev_wit(t, n, v); some_at(t, n, c, w) } }
// levels below c are complete; of level c the nodes below i
pub open spec fn bt_vis(t: Seq<i32>, n: int, vis: Seq<bool>, c: int, i: int) -> bool { vis.len() >= n && forall|v: int| 0 <= v < n ==> #[trigger] vis[v] == (tlev(t, n, v) < c || (tlev(t, n, v) == c && v < i)) }
pub open spec fn bt_pos(n: int, vis: Seq<bool>, ls: Seq<i32>, pos: Seq<int>, m: int) -> bool {
    ls.len() >= n && pos.len() >= n && vis.len() >= n && m == nv(vis, n) && 0 <= m <= n
    && (forall|x: int| 0 <= x < m ==> 0 <= #[trigger] ls[x] < n && pos[ls[x] as int] == x && vis[ls[x] as int])
    && forall|v: int| 0 <= v < n && #[trigger] vis[v] ==> 0 <= pos[v] < m && ls[pos[v]] == v
}
pub open spec fn bt_lev(t: Seq<i32>, n: int, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int) -> bool {
    lp.len() > n && 0 <= c <= n && c <= lp[c] <= m && lp[0] == 0 && (forall|a: int, b: int| 0 <= a <= b <= c ==> #[trigger] lp[a] <= #[trigger] lp[b])
    && (forall|l: int, x: int| 0 <= l < c && #[trigger] in_col_t(lp, l, x) ==> tlev(t, n, ls[x] as int) == l)
    && forall|x: int| lp[c] <= x < m ==> tlev(t, n, #[trigger] ls[x] as int) == c
}
pub open spec fn bt(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int, i: int) -> bool {
    bt_vis(t, n, vis, c, i) && bt_pos(n, vis, ls, pos, m) && bt_lev(t, n, ls, lp, c, m)
}
pub open spec fn todo_in(vis: Seq<bool>, n: int, b: int, e: int) -> bool { 0 <= b && e < n && forall|v: int| 0 <= v < n && !#[trigger] vis[v] ==> b <= v <= e }
pub proof fn bt_init(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>)
    requires forest(t, n), vis.len() == n, ls.len() >= n, lp.len() > n, lp[0] == 0, pos.len() >= n, forall|v: int| 0 <= v < n ==> !#[trigger] vis[v],
    ensures bt(t, n, vis, ls, lp, pos, 0, 0, 0), todo_in(vis, n, 0, n - 1),
{ nv_zero(vis, n); assert forall|v: int| 0 <= v < n implies #[trigger] vis[v] == (tlev(t, n, v) < 0 || (tlev(t, n, v) == 0 && v < 0)) by { tlev_ge0(t, n, v); } }
pub proof fn bt_scan(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int, b: int, e: int)
    requires bt(t, n, vis, ls, lp, pos, c, m, 0), todo_in(vis, n, b, e),
    ensures bt(t, n, vis, ls, lp, pos, c, m, b),
{ assert forall|v: int| 0 <= v < n implies #[trigger] vis[v] == (tlev(t, n, v) < c || (tlev(t, n, v) == c && v < b)) by { } }
pub proof fn bt_hit(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int, i: int)
    requires bt(t, n, vis, ls, lp, pos, c, m, i), 0 <= i < n <= i32::MAX, tlev(t, n, i) == c,
    ensures m < n, !vis[i], bt(t, n, vis.update(i, true), ls.update(m, i as i32), lp, pos.update(i, m), c, m + 1, i + 1),
{
    assert(!vis[i]);
    if m == n { nv_full(vis, n, i); }
    nv_set(vis, n, i);
    let v2 = vis.update(i, true); let l2 = ls.update(m, i as i32); let p2 = pos.update(i, m);
    assert(bt_vis(t, n, v2, c, i + 1));
    assert(bt_pos(n, v2, l2, p2, m + 1));
    assert(bt_lev(t, n, l2, lp, c, m + 1)) by {
        assert forall|l: int, x: int| 0 <= l < c && #[trigger] in_col_t(lp, l, x) implies tlev(t, n, l2[x] as int) == l by { assert(lp[l + 1] <= lp[c]); }
    }
}
pub proof fn bt_miss(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int, i: int)
    requires bt(t, n, vis, ls, lp, pos, c, m, i), 0 <= i < n, tlev(t, n, i) != c,
    ensures bt(t, n, vis, ls, lp, pos, c, m, i + 1),
{ }
pub proof fn bt_next(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, lp2: Seq<i32>, pos: Seq<int>, c: int, m: int, i: int, b: int)
    requires bt(t, n, vis, ls, lp, pos, c, m, i), c < m <= n <= i32::MAX, lp2 == lp.update(c + 1, m as i32), todo_in(vis, n, b, i - 1) || i >= n,
    ensures bt(t, n, vis, ls, lp2, pos, c + 1, m, 0),
{
    assert forall|v: int| 0 <= v < n implies #[trigger] vis[v] == (tlev(t, n, v) < c + 1 || (tlev(t, n, v) == c + 1 && v < 0)) by { }
    assert forall|l: int, x: int| 0 <= l < c + 1 && #[trigger] in_col_t(lp2, l, x) implies tlev(t, n, ls[x] as int) == l by {
        if l < c { assert(in_col_t(lp, l, x)); }
    }
}
pub proof fn bt_done(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int)
    requires bt(t, n, vis, ls, lp, pos, c, n, 0), lp[c] == n,
    ensures tree_levels(t, n, lp, ls, c),
{ assert(is_perm(ls, n)); }
// edges of the last level dropped so far
pub open spec fn dropped(t: Seq<i32>, n: int, pos: Seq<int>, c: int, l: int) -> Seq<i32> { Seq::new(n as nat, |v: int| if tlev(t, n, v) < c || (tlev(t, n, v) == c && pos[v] < l) { -1i32 } else { t[v] }) }
pub open spec fn deg_is(s: Seq<i32>, nch: Seq<i32>, n: int) -> bool { nch.len() >= n && forall|v: int| 0 <= v < n ==> #[trigger] nch[v] == cnt(s, n, v) }
pub proof fn drop_begin(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int)
    requires bt(t, n, vis, ls, lp, pos, c + 1, m, 0), 0 <= c,
    ensures dropped(t, n, pos, c, lp[c] as int) == masked(t, n, c), lp[c] <= lp[c + 1] <= m,
{
    assert(lp[c] <= lp[c + 1]);
    assert forall|v: int| 0 <= v < n && tlev(t, n, v) == c implies pos[v] >= lp[c] by { assert(vis[v]); low_pos(t, n, ls, lp, c + 1, m, pos[v], c); }
    assert(dropped(t, n, pos, c, lp[c] as int) =~= masked(t, n, c));
}
// a position before lp[c] holds a node of an earlier level
proof fn low_pos(t: Seq<i32>, n: int, ls: Seq<i32>, lp: Seq<i32>, d: int, m: int, x: int, c: int)
    requires bt_lev(t, n, ls, lp, d, m), 0 <= c < d, 0 <= x,
    ensures x < lp[c] ==> tlev(t, n, ls[x] as int) < c, x >= lp[c + 1] && x < lp[d] ==> tlev(t, n, ls[x] as int) > c,
{
    if x < lp[c] { let l = lev_of(lp, c, x); assert(in_col_t(lp, l, x)); }
    if x >= lp[c + 1] && x < lp[d] { let l = lev_of(lp, d, x); assert(in_col_t(lp, l, x)); if l <= c { assert(lp[l + 1] <= lp[c + 1]); } }
}
proof fn lev_of(lp: Seq<i32>, c: int, x: int) -> (l: int)
    requires 0 <= c, lp[0] <= x < lp[c],
    ensures 0 <= l < c, in_col_t(lp, l, x),
    decreases c
{ if c == 0 { 0 } else if x >= lp[c - 1] { c - 1 } else { lev_of(lp, c - 1, x) } }
pub proof fn drop_step(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int, l: int, nch: Seq<i32>, n2: Seq<i32>)
    requires bt(t, n, vis, ls, lp, pos, c + 1, m, 0), 0 <= c, lp[c] <= l < lp[c + 1], deg_is(dropped(t, n, pos, c, l), nch, n), forest(t, n), n <= i32::MAX,
        n2 == (if t[ls[l] as int] >= 0 { nch.update(t[ls[l] as int] as int, (nch[t[ls[l] as int] as int] - 1) as i32) } else { nch }),
    ensures deg_is(dropped(t, n, pos, c, l + 1), n2, n), 0 <= ls[l] < n, t[ls[l] as int] >= 0 ==> 0 <= t[ls[l] as int] < n && 1 <= nch[t[ls[l] as int] as int] <= n,
{
    let s = dropped(t, n, pos, c, l);
    assert(0 <= ls[l] < n && pos[ls[l] as int] == l);
    let k = ls[l] as int;
    assert(in_col_t(lp, c, l));
    let s2 = dropped(t, n, pos, c, l + 1);
    assert(s2 =~= s.update(k, -1i32)) by {
        assert forall|v: int| 0 <= v < n implies s2[v] == s.update(k, -1i32)[v] by { if v != k && tlev(t, n, v) == c { assert(vis[v]); assert(ls[pos[v]] == v); } }
    }
    assert(s[k] == t[k]);
    if t[k] >= 0 { cnt_strict(s, k, n); cnt_bounds(s, k, t[k] as int); cnt_bounds(s, n, t[k] as int); assert(nch[t[k] as int] == cnt(s, n, t[k] as int)); }
    assert forall|v: int| 0 <= v < n implies #[trigger] n2[v] == cnt(s2, n, v) by { cnt_drop(s, n, k, v); assert(nch[v] == cnt(s, n, v)); }
}
pub proof fn drop_end(t: Seq<i32>, n: int, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, pos: Seq<int>, c: int, m: int)
    requires bt(t, n, vis, ls, lp, pos, c + 1, m, 0), 0 <= c, lp[c + 1] == m,
    ensures dropped(t, n, pos, c, m) == masked(t, n, c + 1),
{
    assert forall|v: int| 0 <= v < n && tlev(t, n, v) == c implies pos[v] < m by { assert(vis[v]); }
    assert(dropped(t, n, pos, c, m) =~= masked(t, n, c + 1));
}
