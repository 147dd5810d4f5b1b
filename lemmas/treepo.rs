//@uses ccend postorder perm
// ---- three arrays kept in one: heads (n + 1), nexts (n), stack (n)
pub open spec fn hd(a: Seq<i32>, n: int) -> Seq<i32> { a.subrange(0, n + 1) }
pub open spec fn nxs(a: Seq<i32>, n: int) -> Seq<i32> { a.subrange(n + 1, 2 * n + 1) }
pub open spec fn pst(a: Seq<i32>, n: int) -> Seq<i32> { a.subrange(2 * n + 1, a.len() as int) }
pub proof fn put_hd(a: Seq<i32>, n: int, i: int, x: i32)
    requires 0 <= i <= n, a.len() == 3 * n + 1,
    ensures hd(a.update(i, x), n) == hd(a, n).update(i, x), nxs(a.update(i, x), n) == nxs(a, n), pst(a.update(i, x), n) == pst(a, n),
{ let b = a.update(i, x); assert(hd(b, n) =~= hd(a, n).update(i, x)); assert(nxs(b, n) =~= nxs(a, n)); assert(pst(b, n) =~= pst(a, n)); }
pub proof fn put_nx(a: Seq<i32>, n: int, i: int, x: i32)
    requires 0 <= i < n, a.len() == 3 * n + 1,
    ensures nxs(a.update(n + 1 + i, x), n) == nxs(a, n).update(i, x), hd(a.update(n + 1 + i, x), n) == hd(a, n), pst(a.update(n + 1 + i, x), n) == pst(a, n),
{ let b = a.update(n + 1 + i, x); assert(nxs(b, n) =~= nxs(a, n).update(i, x)); assert(hd(b, n) =~= hd(a, n)); assert(pst(b, n) =~= pst(a, n)); }
pub proof fn put_ps(a: Seq<i32>, n: int, i: int, x: i32)
    requires 0 <= i < n, a.len() == 3 * n + 1,
    ensures pst(a.update(2 * n + 1 + i, x), n) == pst(a, n).update(i, x), hd(a.update(2 * n + 1 + i, x), n) == hd(a, n), nxs(a.update(2 * n + 1 + i, x), n) == nxs(a, n),
{ let b = a.update(2 * n + 1 + i, x); assert(pst(b, n) =~= pst(a, n).update(i, x)); assert(hd(b, n) =~= hd(a, n)); assert(nxs(b, n) =~= nxs(a, n)); }
// ---- child lists under construction: the nodes of d are linked, the latest first
pub open spec fn lk_prev(t: Seq<i32>, nx: Seq<i32>, d: Set<int>, i: int, j: int) -> bool { d.contains(i) && t[i] == t[j] && nx[i] == j }
pub open spec fn lk_ok(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, d: Set<int>, m: int, j: int) -> bool {
    0 <= j < n && 0 <= t[j] < n && -m <= rk[j] <= 0 && (nx[j] == -1 || (d.contains(nx[j] as int) && rk[j] < rk[nx[j] as int] && t[nx[j] as int] == t[j]))
    && (h[t[j] as int] == j || exists|i: int| #[trigger] lk_prev(t, nx, d, i, j))
}
pub open spec fn hd_ok(t: Seq<i32>, h: Seq<i32>, d: Set<int>, v: int) -> bool { h[v] == -1 || (d.contains(h[v] as int) && t[h[v] as int] == v) }
#[verifier::opaque]
pub open spec fn kl(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, d: Set<int>, m: int) -> bool {
    forest(t, n) && n <= i32::MAX && m >= 0 && rk.len() == n && h.len() >= n && nx.len() >= n && (forall|v: int| 0 <= v < n ==> #[trigger] hd_ok(t, h, d, v)) && forall|j: int| #[trigger] d.contains(j) ==> lk_ok(t, rk, h, nx, n, d, m, j)
}
pub proof fn kl_init(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int)
    requires forest(t, n), n <= i32::MAX, rk.len() == n, h.len() >= n, nx.len() >= n, forall|v: int| 0 <= v < n ==> #[trigger] h[v] == -1,
    ensures kl(t, rk, h, nx, n, Set::empty(), 0),
{ reveal(kl); }
pub proof fn kl_put(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, d: Set<int>, m: int, j: int)
    requires kl(t, rk, h, nx, n, d, m), !d.contains(j), 0 <= j < n, t[j] >= 0,
    ensures 0 <= t[j] < n, h.len() >= n, nx.len() >= n, rk.len() == n, kl(t, rk.update(j, -(m + 1)), h.update(t[j] as int, j as i32), nx.update(j, h[t[j] as int]), n, d.insert(j), m + 1),
{
    reveal(kl); let rk2 = rk.update(j, -(m + 1)); let h2 = h.update(t[j] as int, j as i32); let nx2 = nx.update(j, h[t[j] as int]); let d2 = d.insert(j);
    assert(hd_ok(t, h, d, t[j] as int)); assert(j < t[j] < n);
    assert forall|v: int| 0 <= v < n implies #[trigger] hd_ok(t, h2, d2, v) by { assert(hd_ok(t, h, d, v)); }
    assert forall|i: int| #[trigger] d2.contains(i) implies lk_ok(t, rk2, h2, nx2, n, d2, m + 1, i) by {
        if i == j { if h[t[j] as int] != -1 { assert(lk_ok(t, rk, h, nx, n, d, m, h[t[j] as int] as int)); } }
        else {
            assert(lk_ok(t, rk, h, nx, n, d, m, i));
            if nx[i] != -1 { assert(nx[i] != j); }
            if h[t[i] as int] == i { if t[i] == t[j] { assert(lk_prev(t, nx2, d2, j, i)); } }
            else { let q = choose|q: int| #[trigger] lk_prev(t, nx, d, q, i); assert(lk_prev(t, nx2, d2, q, i)); }
        }
    }
}
// every child of every node is in its list
#[verifier::opaque]
pub open spec fn kids_in(t: Seq<i32>, h: Seq<i32>, nx: Seq<i32>, n: int) -> bool { forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 ==> kid_in(t, h, nx, n, j) }
pub open spec fn kp(t: Seq<i32>, nx: Seq<i32>, n: int, i: int, j: int) -> bool { 0 <= i < n && t[i] == t[j] && nx[i] == j }
pub open spec fn kid_in(t: Seq<i32>, h: Seq<i32>, nx: Seq<i32>, n: int, j: int) -> bool { h[t[j] as int] == j || exists|i: int| #[trigger] kp(t, nx, n, i, j) }
#[verifier::opaque]
pub open spec fn rk_from(t: Seq<i32>, rk: Seq<int>, n: int, m: int) -> bool { forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 ==> rk[j] >= -m }
pub proof fn kl_done(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, d: Set<int>, m: int)
    requires kl(t, rk, h, nx, n, d, m), forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 ==> d.contains(j),
    ensures kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), forest(t, n), n <= i32::MAX,
{
    reveal(kl); reveal(kids_in); reveal(rk_from);
    assert forall|v: int| 0 <= v < n implies #[trigger] head_ok(t, h, v) by { assert(hd_ok(t, h, d, v)); if h[v] != -1 { assert(lk_ok(t, rk, h, nx, n, d, m, h[v] as int)); assert(t[h[v] as int] >= 0); } }
    assert forall|j: int| 0 <= j < n implies #[trigger] next_ok(t, rk, nx, n, j) by { if t[j] >= 0 { assert(lk_ok(t, rk, h, nx, n, d, m, j)); if nx[j] != -1 { assert(lk_ok(t, rk, h, nx, n, d, m, nx[j] as int)); } } }
    assert forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 implies kid_in(t, h, nx, n, j) by { assert(lk_ok(t, rk, h, nx, n, d, m, j)); if h[t[j] as int] != j { let q = choose|q: int| #[trigger] lk_prev(t, nx, d, q, j); assert(lk_ok(t, rk, h, nx, n, d, m, q)); assert(kp(t, nx, n, q, j)); } }
    assert forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 implies rk[j] >= -m by { assert(lk_ok(t, rk, h, nx, n, d, m, j)); }
}
// ---- buckets by weight
pub open spec fn wbkt(wt: Seq<i32>, n: int, j: int) -> int { let w = if 0 > wt[j] { 0 } else { wt[j] as int }; if w < n - 1 { w } else { n - 1 } }
pub open spec fn inb(t: Seq<i32>, wt: Seq<i32>, n: int, j: int, w: int) -> bool { t[j] >= 0 && wbkt(wt, n, j) == w }
pub open spec fn lastb(t: Seq<i32>, wt: Seq<i32>, n: int, c: int, w: int) -> int
    decreases c
{ if c <= 0 { -1 } else if inb(t, wt, n, c - 1, w) { c - 1 } else { lastb(t, wt, n, c - 1, w) } }
pub proof fn lastb_is(t: Seq<i32>, wt: Seq<i32>, n: int, c: int, w: int)
    ensures -1 <= lastb(t, wt, n, c, w), c >= 0 ==> lastb(t, wt, n, c, w) < c, lastb(t, wt, n, c, w) >= 0 ==> inb(t, wt, n, lastb(t, wt, n, c, w), w), forall|i: int| lastb(t, wt, n, c, w) < i < c && i >= 0 ==> !#[trigger] inb(t, wt, n, i, w),
    decreases c
{ if c > 0 && !inb(t, wt, n, c - 1, w) { lastb_is(t, wt, n, c - 1, w); } }
#[verifier::opaque]
pub open spec fn wh_ok(t: Seq<i32>, wt: Seq<i32>, n: int, wh: Seq<i32>, c: int) -> bool { wh.len() >= n && forall|w: int| 0 <= w < n ==> #[trigger] wh[w] == lastb(t, wt, n, c, w) }
// nodes below c that are not linked yet still point to the one before them in their bucket
#[verifier::opaque]
pub open spec fn wn_ok(t: Seq<i32>, wt: Seq<i32>, n: int, nx: Seq<i32>, c: int, d: Set<int>) -> bool { nx.len() >= n && forall|i: int| 0 <= i < c && t[i] >= 0 && !d.contains(i) ==> #[trigger] nx[i] == lastb(t, wt, n, i, wbkt(wt, n, i)) }
pub proof fn wh_init(t: Seq<i32>, wt: Seq<i32>, n: int, wh: Seq<i32>, nx: Seq<i32>)
    requires wh.len() >= n, nx.len() >= n, forall|w: int| 0 <= w < n ==> #[trigger] wh[w] == -1,
    ensures wh_ok(t, wt, n, wh, 0), wn_ok(t, wt, n, nx, 0, Set::empty()),
{ reveal(wh_ok); reveal(wn_ok); }
pub proof fn wh_step(t: Seq<i32>, wt: Seq<i32>, n: int, wh: Seq<i32>, nx: Seq<i32>, j: int)
    requires wh_ok(t, wt, n, wh, j), wn_ok(t, wt, n, nx, j, Set::empty()), 0 <= j < n, n <= i32::MAX,
    ensures 0 <= wbkt(wt, n, j) < n, wh.len() >= n, nx.len() >= n, t[j] >= 0 ==> wh_ok(t, wt, n, wh.update(wbkt(wt, n, j), j as i32), j + 1) && wn_ok(t, wt, n, nx.update(j, wh[wbkt(wt, n, j)]), j + 1, Set::empty()),
        t[j] < 0 ==> wh_ok(t, wt, n, wh, j + 1) && wn_ok(t, wt, n, nx, j + 1, Set::empty()),
{ reveal(wh_ok); reveal(wn_ok); }
#[verifier::opaque]
pub open spec fn d_is(t: Seq<i32>, wt: Seq<i32>, n: int, d: Set<int>, w: int, c: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] d.contains(i) <==> t[i] >= 0 && (wbkt(wt, n, i) > w || wbkt(wt, n, i) == w && i >= c)) }
pub proof fn d_init(t: Seq<i32>, wt: Seq<i32>, n: int)
    ensures d_is(t, wt, n, Set::empty(), n - 1, n),
{ reveal(d_is); }
// a bucket is finished
pub proof fn d_next(t: Seq<i32>, wt: Seq<i32>, n: int, d: Set<int>, w: int, c: int)
    requires d_is(t, wt, n, d, w, c), lastb(t, wt, n, c, w) == -1,
    ensures d_is(t, wt, n, d, w - 1, n),
{ reveal(d_is); lastb_is(t, wt, n, c, w); assert forall|i: int| 0 <= i < n implies (#[trigger] d.contains(i) <==> t[i] >= 0 && (wbkt(wt, n, i) > w - 1 || wbkt(wt, n, i) == w - 1 && i >= n)) by { if i < c { assert(!inb(t, wt, n, i, w)); } } }
// one node of the bucket
pub proof fn d_take(t: Seq<i32>, wt: Seq<i32>, n: int, d: Set<int>, w: int, c: int, nx: Seq<i32>, x: i32)
    requires d_is(t, wt, n, d, w, c), 0 <= lastb(t, wt, n, c, w), c <= n, wn_ok(t, wt, n, nx, n, d),
    ensures ({ let j = lastb(t, wt, n, c, w); 0 <= j < c && j < n && t[j] >= 0 && !d.contains(j) && nx.len() >= n && nx[j] == lastb(t, wt, n, j, w) && d_is(t, wt, n, d.insert(j), w, j) && wn_ok(t, wt, n, nx.update(j, x), n, d.insert(j)) }),
{
    reveal(d_is); reveal(wn_ok); lastb_is(t, wt, n, c, w); let j = lastb(t, wt, n, c, w); let d2 = d.insert(j); assert(inb(t, wt, n, j, w));
    assert forall|i: int| 0 <= i < n implies (#[trigger] d2.contains(i) <==> t[i] >= 0 && (wbkt(wt, n, i) > w || wbkt(wt, n, i) == w && i >= j)) by { if j < i < c { assert(!inb(t, wt, n, i, w)); } if i == j { } else { assert(d.contains(i) == d2.contains(i)); } }
}
pub proof fn d_all(t: Seq<i32>, wt: Seq<i32>, n: int, d: Set<int>)
    requires d_is(t, wt, n, d, -1, n),
    ensures forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 ==> d.contains(j),
{ reveal(d_is); assert forall|j: int| 0 <= j < n && #[trigger] t[j] >= 0 implies d.contains(j) by { assert(wbkt(wt, n, j) >= 0); } }
// ---- the order written: root after root
pub open spec fn top(t: Seq<i32>, n: int, v: int) -> int
    decreases n - v
{ if 0 <= v < n && v < t[v] < n { top(t, n, t[v] as int) } else { v } }
pub proof fn top_is(t: Seq<i32>, n: int, v: int, r: int)
    requires forest(t, n), 0 <= v < n, 0 <= r < n, under(t, n, v, r), t[r] < 0,
    ensures top(t, n, v) == r,
    decreases n - v
{ if v != r { top_is(t, n, t[v] as int, r); } }
pub proof fn top_root(t: Seq<i32>, n: int, v: int)
    requires forest(t, n), 0 <= v < n,
    ensures 0 <= top(t, n, v) < n, t[top(t, n, v)] < 0, under(t, n, v, top(t, n, v)),
    decreases n - v
{ if t[v] >= 0 { assert(t[v] < 0 || v < t[v] < n); top_root(t, n, t[v] as int); } }
pub open spec fn all_to(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, j: int) -> Seq<int>
    decreases j
{ if j <= 0 { seq![] } else if t[j - 1] < 0 { all_to(t, rk, h, nx, j - 1) + po(rk, h, nx, j - 1) } else { all_to(t, rk, h, nx, j - 1) } }
pub proof fn po_frame(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, h2: Seq<i32>, nx: Seq<i32>, n: int, v: int)
    requires kid_lists(t, rk, h, nx, n), kid_lists(t, rk, h2, nx, n), 0 <= v < n, forall|u: int| 0 <= u < n && #[trigger] under(t, n, u, v) ==> h[u] == h2[u],
    ensures po(rk, h, nx, v) == po(rk, h2, nx, v),
    decreases v, 1int, 0int
{ assert(under(t, n, v, v)); assert(head_ok(t, h, v)); if h[v] >= 0 { pol_frame(t, rk, h, h2, nx, n, v, h[v] as int); } }
proof fn pol_frame(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, h2: Seq<i32>, nx: Seq<i32>, n: int, b: int, j: int)
    requires kid_lists(t, rk, h, nx, n), kid_lists(t, rk, h2, nx, n), 0 <= j < b < n, t[j] == b, forall|u: int| 0 <= u < n && #[trigger] under(t, n, u, b) ==> h[u] == h2[u],
    ensures pol(rk, h, nx, b, j) == pol(rk, h2, nx, b, j),
    decreases b, 0int, -rk[j]
{
    assert(next_ok(t, rk, nx, n, j));
    assert forall|u: int| 0 <= u < n && #[trigger] under(t, n, u, j) implies h[u] == h2[u] by { under_upx(t, n, u, j, b); }
    po_frame(t, rk, h, h2, nx, n, j);
    if nx[j] != -1 { assert(t[nx[j] as int] == b); assert(t[nx[j] as int] < 0 || nx[j] < t[nx[j] as int] < n); pol_frame(t, rk, h, h2, nx, n, b, nx[j] as int); }
}
proof fn under_upx(t: Seq<i32>, n: int, v: int, j: int, b: int)
    requires forest(t, n), 0 <= v < n, under(t, n, v, j), 0 <= j < b < n, t[j] == b,
    ensures under(t, n, v, b),
    decreases n - v
{ if v != j { under_upx(t, n, t[v] as int, j, b); } else { assert(under(t, n, b, b)); } }
proof fn under_le(t: Seq<i32>, n: int, v: int, r: int)
    requires under(t, n, v, r),
    ensures v <= r,
    decreases n - v
{ if v != r { under_le(t, n, t[v] as int, r); } }
proof fn under_two(t: Seq<i32>, n: int, v: int, a: int, b: int)
    requires under(t, n, v, a), under(t, n, v, b),
    ensures under(t, n, a, b) || under(t, n, b, a),
    decreases n - v
{ if v != a && v != b { under_two(t, n, t[v] as int, a, b); } }
// siblings have no common descendant
proof fn sib_apart(t: Seq<i32>, n: int, v: int, a: int, b: int, p: int)
    requires forest(t, n), under(t, n, v, a), under(t, n, v, b), a != b, 0 <= a < n, 0 <= b < n, t[a] == p, t[b] == p, p >= 0,
    ensures false,
{
    assert(t[a] < 0 || a < t[a] < n); assert(t[b] < 0 || b < t[b] < n);
    under_two(t, n, v, a, b);
    if under(t, n, a, b) { assert(under(t, n, p, b)); under_le(t, n, p, b); } else { assert(under(t, n, p, a)); under_le(t, n, p, a); }
}
proof fn pol_has(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, b: int, j: int, x: int) -> (q: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= j < b < n, t[j] == b, 0 <= x < pol(rk, h, nx, b, j).len(),
    ensures 0 <= q < b, t[q] == b, rk[q] >= rk[j], under(t, n, pol(rk, h, nx, b, j)[x], q), 0 <= pol(rk, h, nx, b, j)[x] < n,
    decreases -rk[j]
{
    assert(next_ok(t, rk, nx, n, j)); let l = po(rk, h, nx, j).len();
    if x < l { po_range(t, rk, h, nx, n, j, x); j } else { assert(t[nx[j] as int] < 0 || nx[j] < t[nx[j] as int] < n); pol_has(t, rk, h, nx, n, b, nx[j] as int, x - l) }
}
pub proof fn po_distinct(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, v: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= v < n,
    ensures po(rk, h, nx, v).no_duplicates(),
    decreases v, 1int, 0int
{
    assert(head_ok(t, h, v)); let l = pol(rk, h, nx, v, h[v] as int); let s = po(rk, h, nx, v);
    if h[v] >= 0 { pol_distinct(t, rk, h, nx, n, v, h[v] as int); }
    assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by {
        if x < l.len() { let q = pol_has(t, rk, h, nx, n, v, h[v] as int, x); under_le(t, n, l[x], q); }
        if y < l.len() { let q = pol_has(t, rk, h, nx, n, v, h[v] as int, y); under_le(t, n, l[y], q); }
        if x < l.len() && y < l.len() { assert(l[x] != l[y]); }
    }
}
proof fn pol_distinct(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, b: int, j: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= j < b < n, t[j] == b,
    ensures pol(rk, h, nx, b, j).no_duplicates(),
    decreases b, 0int, -rk[j]
{
    assert(next_ok(t, rk, nx, n, j)); let a = po(rk, h, nx, j); let s = pol(rk, h, nx, b, j); po_distinct(t, rk, h, nx, n, j);
    if nx[j] != -1 {
        let k = nx[j] as int; assert(t[k] < 0 || k < t[k] < n); pol_distinct(t, rk, h, nx, n, b, k); let r = pol(rk, h, nx, b, k);
        assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < r.len() implies a[x] != r[y] by { po_range(t, rk, h, nx, n, j, x); let q = pol_has(t, rk, h, nx, n, b, k, y); if a[x] == r[y] { sib_apart(t, n, a[x], j, q, b); } }
        assert(s =~= a + r);
        assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by {
            if x < a.len() && y < a.len() { assert(a[x] != a[y]); } else if x >= a.len() && y >= a.len() { assert(r[x - a.len()] != r[y - a.len()]); } else if x < a.len() { assert(a[x] != r[y - a.len()]); } else { assert(a[y] != r[x - a.len()]); }
        }
    } else { assert(s =~= a); }
}
pub proof fn all_range(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, j: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= j <= n,
    ensures all_to(t, rk, h, nx, j).no_duplicates(), forall|x: int| 0 <= x < all_to(t, rk, h, nx, j).len() ==> 0 <= #[trigger] all_to(t, rk, h, nx, j)[x] < n && top(t, n, all_to(t, rk, h, nx, j)[x]) < j, all_to(t, rk, h, nx, j).len() <= n,
    decreases j
{
    if j > 0 {
        all_range(t, rk, h, nx, n, j - 1); let a = all_to(t, rk, h, nx, j - 1); let s = all_to(t, rk, h, nx, j);
        if t[j - 1] < 0 {
            let r = po(rk, h, nx, j - 1); po_distinct(t, rk, h, nx, n, j - 1);
            assert forall|x: int| 0 <= x < r.len() implies 0 <= #[trigger] r[x] < n && top(t, n, r[x]) == j - 1 by { po_range(t, rk, h, nx, n, j - 1, x); top_is(t, n, r[x], j - 1); }
            assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < n && top(t, n, s[x]) < j by { if x < a.len() { assert(s[x] == a[x]); } else { assert(s[x] == r[x - a.len()]); } }
            assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by {
                if x < a.len() && y < a.len() { assert(a[x] != a[y]); } else if x >= a.len() && y >= a.len() { assert(r[x - a.len()] != r[y - a.len()]); } else if x < a.len() { assert(top(t, n, a[x]) < j - 1); assert(top(t, n, r[y - a.len()]) == j - 1); } else { assert(top(t, n, a[y]) < j - 1); assert(top(t, n, r[x - a.len()]) == j - 1); }
            }
        }
    }
    distinct_len(all_to(t, rk, h, nx, j), n);
}
// ---- every node's subtree is the run of entries that ends with it
pub open spec fn seg_at(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, s: Seq<int>, x: int) -> bool { let z = po(rk, h, nx, s[x]).len(); z <= x + 1 && forall|y: int| 0 <= y < z ==> s[x + 1 - z + y] == #[trigger] po(rk, h, nx, s[x])[y] }
#[verifier::opaque]
pub open spec fn segs(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, s: Seq<int>) -> bool { forall|x: int| 0 <= x < s.len() ==> #[trigger] seg_at(rk, h, nx, s, x) }
proof fn seg_cat(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, a: Seq<int>, b: Seq<int>)
    requires segs(rk, h, nx, a), segs(rk, h, nx, b),
    ensures segs(rk, h, nx, a + b),
{
    reveal(segs); let s = a + b;
    assert forall|x: int| 0 <= x < s.len() implies #[trigger] seg_at(rk, h, nx, s, x) by { if x < a.len() { assert(seg_at(rk, h, nx, a, x)); } else { assert(seg_at(rk, h, nx, b, x - a.len())); let z = po(rk, h, nx, s[x]).len(); assert forall|y: int| 0 <= y < z implies s[x + 1 - z + y] == #[trigger] po(rk, h, nx, s[x])[y] by { assert(b[x - a.len() + 1 - z + y] == po(rk, h, nx, b[x - a.len()])[y]); } } }
}
proof fn seg_none(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>)
    ensures segs(rk, h, nx, seq![]),
{ reveal(segs); }
pub proof fn seg_po(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, v: int)
    ensures segs(rk, h, nx, po(rk, h, nx, v)),
    decreases v, 1int, 0int
{
    if v < 0 { seg_none(rk, h, nx); assert(po(rk, h, nx, v) =~= seq![]); }
    else {
        let l = pol(rk, h, nx, v, h[v] as int); seg_pol(rk, h, nx, v, h[v] as int); let s = po(rk, h, nx, v); reveal(segs);
        assert forall|x: int| 0 <= x < s.len() implies #[trigger] seg_at(rk, h, nx, s, x) by { if x < l.len() { assert(seg_at(rk, h, nx, l, x)); let z = po(rk, h, nx, l[x]).len(); assert forall|y: int| 0 <= y < z implies s[x + 1 - z + y] == #[trigger] po(rk, h, nx, s[x])[y] by { assert(l[x + 1 - z + y] == po(rk, h, nx, l[x])[y]); } } }
    }
}
proof fn seg_pol(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, b: int, j: int)
    ensures segs(rk, h, nx, pol(rk, h, nx, b, j)),
    decreases b, 0int, -rk[j]
{
    if j < 0 || j >= b { seg_none(rk, h, nx); assert(pol(rk, h, nx, b, j) =~= seq![]); }
    else {
        seg_po(rk, h, nx, j);
        if 0 <= nx[j] < b && rk[j] < rk[nx[j] as int] <= 0 { seg_pol(rk, h, nx, b, nx[j] as int); seg_cat(rk, h, nx, po(rk, h, nx, j), pol(rk, h, nx, b, nx[j] as int)); }
        else { seg_none(rk, h, nx); seg_cat(rk, h, nx, po(rk, h, nx, j), seq![]); }
    }
}
pub proof fn seg_all(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, j: int)
    ensures segs(rk, h, nx, all_to(t, rk, h, nx, j)),
    decreases j
{ if j <= 0 { seg_none(rk, h, nx); } else { seg_all(t, rk, h, nx, j - 1); if t[j - 1] < 0 { seg_po(rk, h, nx, j - 1); seg_cat(rk, h, nx, all_to(t, rk, h, nx, j - 1), po(rk, h, nx, j - 1)); } } }
// ---- nothing is left out
proof fn kid_off(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, j: int) -> (o: int)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), 0 <= j < n, t[j] >= 0,
    ensures ({ let b = t[j] as int; let l = pol(rk, h, nx, b, h[b] as int); let r = pol(rk, h, nx, b, j); o >= 0 && o + r.len() == l.len() && forall|y: int| 0 <= y < r.len() ==> l[o + y] == #[trigger] r[y] }),
    decreases rk[j] + m
{
    reveal(kids_in); reveal(rk_from); let b = t[j] as int; assert(kid_in(t, h, nx, n, j));
    if h[b] == j { 0 } else {
        let i = choose|i: int| #[trigger] kp(t, nx, n, i, j); assert(next_ok(t, rk, nx, n, i)); assert(t[i] < 0 || i < t[i] < n); assert(t[j] < 0 || j < t[j] < n);
        let o = kid_off(t, rk, h, nx, n, m, i); let a = po(rk, h, nx, i); let s = pol(rk, h, nx, b, i); let r = pol(rk, h, nx, b, j); let l = pol(rk, h, nx, b, h[b] as int);
        assert(s =~= a + r);
        assert forall|y: int| 0 <= y < r.len() implies l[o + a.len() + y] == #[trigger] r[y] by { assert(s[a.len() + y] == r[y]); assert(l[o + (a.len() + y)] == s[a.len() + y]); }
        o + a.len()
    }
}
proof fn kid_at(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, j: int) -> (x: int)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), 0 <= j < n, t[j] >= 0,
    ensures 0 <= x < po(rk, h, nx, t[j] as int).len(), po(rk, h, nx, t[j] as int)[x] == j,
{
    assert(t[j] < 0 || j < t[j] < n); let b = t[j] as int; let o = kid_off(t, rk, h, nx, n, m, j); let r = pol(rk, h, nx, b, j); let l = pol(rk, h, nx, b, h[b] as int); let a = po(rk, h, nx, j);
    assert(next_ok(t, rk, nx, n, j)); assert(a[a.len() - 1] == j); assert(r[a.len() - 1] == j); assert(l[o + (a.len() - 1)] == r[a.len() - 1]); o + a.len() - 1
}
pub proof fn po_has(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, u: int, v: int) -> (x: int)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), 0 <= u < n, 0 <= v < n, under(t, n, u, v),
    ensures 0 <= x < po(rk, h, nx, v).len(), po(rk, h, nx, v)[x] == u,
    decreases n - u
{
    let s = po(rk, h, nx, v);
    if u == v { s.len() - 1 } else {
        let p = t[u] as int; let y = po_has(t, rk, h, nx, n, m, p, v); seg_po(rk, h, nx, v); reveal(segs); assert(seg_at(rk, h, nx, s, y)); let z = po(rk, h, nx, p).len();
        let x = kid_at(t, rk, h, nx, n, m, u); assert(s[y + 1 - z + x] == po(rk, h, nx, p)[x]); y + 1 - z + x
    }
}
proof fn all_sub(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, j: int, r: int, x: int) -> (y: int)
    requires 0 <= r < j <= n, t[r] < 0, 0 <= x < po(rk, h, nx, r).len(),
    ensures 0 <= y < all_to(t, rk, h, nx, j).len(), all_to(t, rk, h, nx, j)[y] == po(rk, h, nx, r)[x],
    decreases j
{ if r == j - 1 { all_to(t, rk, h, nx, j - 1).len() + x } else { all_sub(t, rk, h, nx, n, j - 1, r, x) } }
pub proof fn all_has(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, u: int) -> (y: int)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), 0 <= u < n,
    ensures 0 <= y < all_to(t, rk, h, nx, n).len(), all_to(t, rk, h, nx, n)[y] == u,
{ top_root(t, n, u); let r = top(t, n, u); let x = po_has(t, rk, h, nx, n, m, u, r); all_sub(t, rk, h, nx, n, n, r, x) }
pub open spec fn at_of(s: Seq<int>, u: int) -> int { choose|x: int| 0 <= x < s.len() && #[trigger] s[x] == u }
pub proof fn at_is(s: Seq<int>, x: int)
    requires s.no_duplicates(), 0 <= x < s.len(),
    ensures at_of(s, s[x]) == x,
{ let y = at_of(s, s[x]); assert(0 <= y < s.len() && s[y] == s[x]); if y != x { assert(s[y] != s[x]); } }
pub open spec fn fo_of(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int) -> Fo { let s = all_to(t, rk, h, nx, n); Fo { n: n, par: t, pos: Seq::new(n as nat, |u: int| at_of(s, u)), fs: Seq::new(n as nat, |u: int| at_of(s, u) - po(rk, h, nx, u).len() + 1) } }
// u is in the run of v exactly when it is below v
proof fn run_of(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, u: int, v: int)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), 0 <= u < n, 0 <= v < n, n <= i32::MAX,
    ensures ({ let f = fo_of(t, rk, h, nx, n); 0 <= f.fs[v] <= f.pos[v] < n && (dsc(f, u, v) <==> under(t, n, u, v)) && (under(t, n, u, v) ==> f.fs[v] <= f.fs[u]) }), all_to(t, rk, h, nx, n).len() <= n,
{
    let f = fo_of(t, rk, h, nx, n); let s = all_to(t, rk, h, nx, n); all_range(t, rk, h, nx, n, n);
    let y = all_has(t, rk, h, nx, n, m, v); at_is(s, y); let x = all_has(t, rk, h, nx, n, m, u); at_is(s, x);
    seg_all(t, rk, h, nx, n); reveal(segs); assert(seg_at(rk, h, nx, s, y)); assert(seg_at(rk, h, nx, s, x)); let z = po(rk, h, nx, v).len();
    if dsc(f, u, v) { let q = x - (y + 1 - z); assert(s[y + 1 - z + q] == po(rk, h, nx, v)[q]); po_range(t, rk, h, nx, n, v, q); }
    if under(t, n, u, v) {
        let q = po_has(t, rk, h, nx, n, m, u, v); assert(s[y + 1 - z + q] == po(rk, h, nx, v)[q]); at_is(s, y + 1 - z + q);
        seg_po(rk, h, nx, v); assert(seg_at(rk, h, nx, po(rk, h, nx, v), q));
    }
}
pub proof fn po_done(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, m: int, post: Seq<i32>)
    requires kid_lists(t, rk, h, nx, n), kids_in(t, h, nx, n), rk_from(t, rk, n, m), n <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, post.len() >= n, forall|x: int| 0 <= x < all_to(t, rk, h, nx, n).len() ==> post[x] == #[trigger] all_to(t, rk, h, nx, n)[x],
    ensures all_to(t, rk, h, nx, n).len() == n, postordered(t, post, n), is_perm(post, n),
{
    let f = fo_of(t, rk, h, nx, n); let s = all_to(t, rk, h, nx, n); all_range(t, rk, h, nx, n, n);
    // n different nodes are listed
    let w = Seq::new(n as nat, |u: int| at_of(s, u));
    assert forall|u: int| 0 <= u < n implies 0 <= #[trigger] w[u] < s.len() && s[w[u]] == u by { let y = all_has(t, rk, h, nx, n, m, u); at_is(s, y); }
    assert forall|x: int, y: int| 0 <= x < w.len() && 0 <= y < w.len() && x != y implies w[x] != w[y] by { assert(s[w[x]] == x); assert(s[w[y]] == y); }
    distinct_len(w, s.len() as int);
    assert(fo_ok(f)) by {
        reveal(fo_ok);
        assert forall|u: int| 0 <= u < n implies #[trigger] fo_up(f, u) by { if t[u] != -1 { assert(t[u] >= -1); assert(t[u] < 0 || u < t[u] < n); assert(under(t, n, t[u] as int, t[u] as int)); assert(under(t, n, u, t[u] as int)); run_of(t, rk, h, nx, n, m, u, t[u] as int); assert(w[u] != w[t[u] as int]); } }
        assert forall|u: int| 0 <= u < n implies #[trigger] fo_in(f, u) by { run_of(t, rk, h, nx, n, m, u, u); }
        assert forall|u: int, v: int| 0 <= u < v && v < n implies #[trigger] f.pos[u] != #[trigger] f.pos[v] by { assert(w[u] != w[v]); }
        assert forall|u: int, v: int| #[trigger] dsc(f, u, v) && u != v implies f.par[u] != -1 && dsc(f, f.par[u] as int, v) by { run_of(t, rk, h, nx, n, m, u, v); run_of(t, rk, h, nx, n, m, t[u] as int, v); }
    }
    assert(fo_list(f, post)) by { reveal(fo_list); assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] post[k] < n && f.pos[post[k] as int] == k by { assert(post[k] == s[k]); at_is(s, k); } }
    assert(postordered(t, post, n)) by { reveal(postordered); }
    assert forall|x: int, y: int| 0 <= x < y < n implies post[x] != post[y] by { assert(s[x] != s[y]); }
    assert forall|x: int| 0 <= x < n implies 0 <= #[trigger] post[x] < n by { assert(post[x] == s[x]); }
}
