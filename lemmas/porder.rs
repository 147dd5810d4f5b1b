//@uses graph perm
// depth-first postorder of an acyclic graph whose columns start with the node's own entry
pub ghost struct Po { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub rk: Seq<int> }
#[verifier::opaque]
pub open spec fn po_ok(d: Po) -> bool { dag_in(d.p, d.g, d.n) && diag_first(d.p, d.g, d.n) && ranked(d.p, d.g, d.n, d.rk) }
pub open spec fn succ_e(d: Po, v: int, e: int) -> bool { d.p[v] < e < d.p[v + 1] }
// every node comes before its successors
pub open spec fn topological(p: Seq<i32>, g: Seq<i32>, n: int, o: Seq<i32>) -> bool {
    is_perm(o, n) && forall|x: int, e: int| 0 <= x < n && #[trigger] in_col(p, o[x] as int, e) && g[e] != o[x] ==> comes_later(n, o, x, g[e] as int)
}
pub open spec fn comes_later(n: int, o: Seq<i32>, x: int, v: int) -> bool { exists|y: int| x < y < n && #[trigger] o[y] == v }
pub open spec fn has_pred(d: Po, v: int) -> bool { exists|u: int, e: int| 0 <= u < d.n && #[trigger] succ_e(d, u, e) && d.g[e] == v }
// an entry before position m (not a node's own one) points at v
pub open spec fn pred_upto(d: Po, i: int, m: int, v: int) -> bool { exists|u: int, e: int| 0 <= u <= i && #[trigger] succ_e(d, u, e) && e < m && d.g[e] == v }
pub proof fn po_col(d: Po, v: int)
    requires po_ok(d), 0 <= v < d.n,
    ensures 0 <= d.p[v] < d.p[v + 1] <= d.p[d.n], d.p[d.n] <= d.g.len(), d.p[d.n] < i32::MAX, d.g[d.p[v] as int] == v,
        forall|e: int| #[trigger] succ_e(d, v, e) ==> 0 <= d.g[e] < d.n && d.g[e] != v && d.rk[v] < d.rk[d.g[e] as int],
{
    reveal(po_ok); assert(d.p[v] < d.p[v + 1] && d.g[d.p[v] as int] == v); assert(d.p[0] <= d.p[v]); assert(d.p[v + 1] <= d.p[d.n]);
    assert forall|e: int| #[trigger] succ_e(d, v, e) implies 0 <= d.g[e] < d.n && d.g[e] != v && d.rk[v] < d.rk[d.g[e] as int] by {
        assert(0 <= d.g[e] < d.n); assert(in_col(d.p, v, e)); src_is(d.p, d.n, v, e);
        if d.g[e] == v { assert(is_diag(d.p, d.g, v, e)); assert(is_diag(d.p, d.g, v, d.p[v] as int)); }
    }
}
// stack, then the part of the order already written
pub open spec fn all_of(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int) -> Seq<i32> { st + o.subrange(d.n - cnt, d.n) }
#[verifier::opaque]
pub open spec fn later_than(d: Po, o: Seq<i32>, cnt: int, x: int) -> bool { forall|e: int| #[trigger] succ_e(d, o[x] as int, e) ==> comes_later(d.n, o, x, d.g[e] as int) }
pub open spec fn known(d: Po, leaves: Seq<i32>, lo: int, v: int) -> bool { has_pred(d, v) || exists|x: int| lo <= x < leaves.len() && #[trigger] leaves[x] == v }
#[verifier::opaque]
pub open spec fn post(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int) -> bool {
    po_ok(d) && o.len() == d.n && vis.len() == d.n && 0 <= cnt && cnt + st.len() <= d.n
    && (forall|x: int| 0 <= x < all_of(d, st, o, cnt).len() ==> 0 <= #[trigger] all_of(d, st, o, cnt)[x] < d.n)
    && all_of(d, st, o, cnt).no_duplicates()
    && (forall|v: int| 0 <= v < d.n ==> (#[trigger] vis[v] <==> all_of(d, st, o, cnt).contains(v as i32)))
    && (forall|x: int, y: int| 0 <= x < y < st.len() ==> d.rk[#[trigger] st[x] as int] < d.rk[#[trigger] st[y] as int])
    && (forall|x: int| d.n - cnt <= x < d.n ==> #[trigger] later_than(d, o, cnt, x))
    && (forall|v: int| 0 <= v < d.n && #[trigger] vis[v] ==> known(d, leaves, lo, v))
}
pub proof fn post_init(d: Po, st: Seq<i32>, o: Seq<i32>, vis: Seq<bool>, leaves: Seq<i32>)
    requires po_ok(d), st.len() == 0, o.len() == d.n, vis.len() == d.n, forall|v: int| 0 <= v < d.n ==> !#[trigger] vis[v],
    ensures post(d, st, o, 0, vis, leaves, leaves.len() as int),
{ reveal(post); assert(all_of(d, st, o, 0) =~= Seq::<i32>::empty()); }
pub proof fn post_top(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int)
    requires post(d, st, o, cnt, vis, leaves, lo), st.len() > 0,
    ensures 0 <= st.last() < d.n, cnt < d.n, o.len() == d.n, vis.len() == d.n, cnt + st.len() <= d.n, cnt >= 0,
        0 <= d.p[st.last() as int] < d.p[st.last() + 1] <= d.p[d.n], d.p[d.n] <= d.g.len(), d.p[d.n] < i32::MAX, forall|e: int| d.p[st.last() as int] < e < d.p[st.last() + 1] ==> 0 <= #[trigger] d.g[e] < d.n,
{
    reveal(post); assert(all_of(d, st, o, cnt)[st.len() - 1] == st.last()); po_col(d, st.last() as int);
    assert forall|e: int| d.p[st.last() as int] < e < d.p[st.last() + 1] implies 0 <= #[trigger] d.g[e] < d.n by { assert(succ_e(d, st.last() as int, e)); }
}
proof fn ins_contains(a: Seq<i32>, b: Seq<i32>, k: int, c: i32, v: i32)
    requires 0 <= k <= a.len(), b.len() == a.len() + 1, forall|x: int| 0 <= x < b.len() ==> #[trigger] b[x] == (if x < k { a[x] } else if x == k { c } else { a[x - 1] }),
    ensures b.contains(v) <==> v == c || a.contains(v),
{
    if v == c { assert(b[k] == c); }
    if a.contains(v) { let x = choose|x: int| 0 <= x < a.len() && a[x] == v; if x < k { assert(b[x] == v); } else { assert(b[x + 1] == v); } }
    if b.contains(v) && v != c { let x = choose|x: int| 0 <= x < b.len() && b[x] == v; if x < k { assert(a[x] == v); } else if x > k { assert(a[x - 1] == v); } }
}
// a node not seen before goes on the stack
pub proof fn post_push(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int, c: i32, lo2: int)
    requires post(d, st, o, cnt, vis, leaves, lo), 0 <= c < d.n, !vis[c as int], 0 <= lo2 <= lo,
        st.len() > 0 ==> d.rk[st.last() as int] < d.rk[c as int], known(d, leaves, lo2, c as int),
    ensures post(d, st.push(c), o, cnt, vis.update(c as int, true), leaves, lo2),
{
    reveal(post); let a = all_of(d, st, o, cnt); let b = all_of(d, st.push(c), o, cnt); let k = st.len() as int; let s2 = st.push(c); let v2 = vis.update(c as int, true);
    assert(!a.contains(c)); assert(b.len() == a.len() + 1);
    assert forall|x: int| 0 <= x < b.len() implies #[trigger] b[x] == (if x < k { a[x] } else if x == k { c } else { a[x - 1] }) by { }
    assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && x != y implies b[x] != b[y] by {
        let x2 = if x < k { x } else { x - 1 }; let y2 = if y < k { y } else { y - 1 };
        if x == k { assert(a[y2] == b[y]); assert(a.contains(a[y2])); } else if y == k { assert(a[x2] == b[x]); assert(a.contains(a[x2])); } else { assert(a[x2] != a[y2]); }
    }
    assert forall|x: int| 0 <= x < b.len() implies 0 <= #[trigger] b[x] < d.n by { if x < k { assert(0 <= a[x] < d.n); } else if x > k { assert(0 <= a[x - 1] < d.n); } }
    assert forall|v: int| 0 <= v < d.n implies (#[trigger] v2[v] <==> b.contains(v as i32)) by {
        reveal(po_ok); let w = v as i32; assert(w == v); assert(vis[v] <==> a.contains(v as i32)); ins_contains(a, b, k, c, w); assert(v2[v] == (v == c || vis[v])); assert(b.contains(w) <==> w == c || a.contains(w));
    }
    assert forall|x: int, y: int| 0 <= x < y < s2.len() implies d.rk[#[trigger] s2[x] as int] < d.rk[#[trigger] s2[y] as int] by { if y == k { if x < k - 1 { assert(d.rk[st[x] as int] < d.rk[st[k - 1] as int]); } } else { assert(d.rk[st[x] as int] < d.rk[st[y] as int]); } }
    assert forall|v: int| 0 <= v < d.n && #[trigger] v2[v] implies known(d, leaves, lo2, v) by { if v != c { assert(vis[v]); assert(known(d, leaves, lo, v)); if !has_pred(d, v) { let x = choose|x: int| lo <= x < leaves.len() && #[trigger] leaves[x] == v; assert(leaves[x] == v); } } }
    // room
    let t = Seq::new(b.len(), |x: int| b[x] as int);
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < d.n by { assert(0 <= b[x] < d.n); }
    assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies #[trigger] t[x] != #[trigger] t[y] by { assert(b[x] != b[y]); }
    distinct_len(t, d.n);
}
// all successors of the top are visited: it leaves the stack and gets the last free position
pub proof fn post_pop(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int)
    requires post(d, st, o, cnt, vis, leaves, lo), st.len() > 0, forall|e: int| #[trigger] succ_e(d, st.last() as int, e) ==> vis[d.g[e] as int],
    ensures post(d, st.drop_last(), o.update(d.n - 1 - cnt, st.last()), cnt + 1, vis, leaves, lo),
{
    post_top(d, st, o, cnt, vis, leaves, lo); reveal(post); let s2 = st.drop_last(); let o2 = o.update(d.n - 1 - cnt, st.last()); let a = all_of(d, st, o, cnt); let h = st.last();
    assert(all_of(d, s2, o2, cnt + 1) =~= a) by {
        let b = all_of(d, s2, o2, cnt + 1); assert(b.len() == a.len());
        assert forall|x: int| 0 <= x < b.len() implies b[x] == a[x] by { if x >= s2.len() { let y = x - s2.len(); assert(b[x] == o2[d.n - cnt - 1 + y]); if y == 0 { assert(a[x] == st[x]); } else { assert(a[x] == o[d.n - cnt + (y - 1)]); } } }
    }
    po_col(d, h as int);
    assert forall|x: int| d.n - (cnt + 1) <= x < d.n implies #[trigger] later_than(d, o2, cnt + 1, x) by { reveal(later_than);
        if x == d.n - 1 - cnt {
            assert forall|e: int| #[trigger] succ_e(d, o2[x] as int, e) implies comes_later(d.n, o2, x, d.g[e] as int) by {
                let w = d.g[e]; assert(succ_e(d, h as int, e)); assert(vis[w as int]); assert(a.contains(w)); let z = choose|z: int| 0 <= z < a.len() && a[z] == w;
                if z < st.len() { assert(st[z] == w); if z < st.len() - 1 { assert(d.rk[st[z] as int] < d.rk[st[st.len() - 1] as int]); } assert(false); }
                let y = d.n - cnt + (z - st.len()); assert(o[y] == w); assert(o2[y] == w);
            }
        } else {
            assert(later_than(d, o, cnt, x));
            assert forall|e: int| #[trigger] succ_e(d, o2[x] as int, e) implies comes_later(d.n, o2, x, d.g[e] as int) by { assert(succ_e(d, o[x] as int, e)); let y = choose|y: int| x < y < d.n && #[trigger] o[y] == d.g[e]; assert(o2[y] == d.g[e]); }
        }
    }
    assert forall|x: int, y: int| 0 <= x < y < s2.len() implies d.rk[#[trigger] s2[x] as int] < d.rk[#[trigger] s2[y] as int] by { assert(d.rk[st[x] as int] < d.rk[st[y] as int]); }
}
// a node without predecessors that was not started from yet is not visited
pub proof fn leaf_new(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int)
    requires post(d, st, o, cnt, vis, leaves, lo), 0 < lo <= leaves.len(), 0 <= leaves[lo - 1] < d.n, !has_pred(d, leaves[lo - 1] as int), forall|x: int, y: int| 0 <= x < y < leaves.len() ==> #[trigger] leaves[x] < #[trigger] leaves[y],
    ensures !vis[leaves[lo - 1] as int], known(d, leaves, lo - 1, leaves[lo - 1] as int),
{ reveal(post); let v = leaves[lo - 1] as int; if vis[v] { assert(known(d, leaves, lo, v)); } }
pub proof fn post_done(d: Po, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, st: Seq<i32>)
    requires post(d, st, o, cnt, vis, leaves, 0), st.len() == 0, forall|v: int| 0 <= v < d.n && !#[trigger] has_pred(d, v) ==> vis[v],
    ensures topological(d.p, d.g, d.n, o), cnt == d.n,
{
    reveal(post); let a = all_of(d, st, o, cnt); assert(a =~= o.subrange(d.n - cnt, d.n));
    assert forall|v: int| 0 <= v < d.n implies #[trigger] vis[v] by { all_seen(d, o, cnt, vis, leaves, v, st); }
    let t = Seq::new(a.len(), |x: int| a[x] as int);
    vstd::set_lib::lemma_int_range(0, d.n); let r = vstd::set_lib::set_int_range(0, d.n);
    assert(r.subset_of(t.to_set())) by { assert forall|v: int| r.contains(v) implies #[trigger] t.to_set().contains(v) by { assert(vis[v]); let x = choose|x: int| 0 <= x < a.len() && a[x] == v as i32; assert(t[x] == v); } }
    t.lemma_cardinality_of_set(); vstd::set_lib::lemma_len_subset(r, t.to_set());
    assert(cnt == d.n); assert(a =~= o);
    assert forall|x: int| 0 <= x < d.n implies 0 <= #[trigger] o[x] < d.n by { assert(0 <= a[x] < d.n); }
    assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] o[x] != #[trigger] o[y] by { assert(a[x] != a[y]); }
    assert forall|x: int, e: int| 0 <= x < d.n && #[trigger] in_col(d.p, o[x] as int, e) && d.g[e] != o[x] implies comes_later(d.n, o, x, d.g[e] as int) by {
        reveal(later_than); po_col(d, o[x] as int); assert(later_than(d, o, cnt, x)); assert(succ_e(d, o[x] as int, e));
    }
}
proof fn all_seen(d: Po, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, v: int, st: Seq<i32>)
    requires post(d, st, o, cnt, vis, leaves, 0), st.len() == 0, forall|v: int| 0 <= v < d.n && !#[trigger] has_pred(d, v) ==> vis[v], 0 <= v < d.n,
    ensures vis[v],
    decreases rank_of(d, v)
{
    reveal(post);
    if has_pred(d, v) {
        let (u, e) = choose|u: int, e: int| 0 <= u < d.n && #[trigger] succ_e(d, u, e) && d.g[e] == v;
        po_col(d, u); rank_less(d, u, v); all_seen(d, o, cnt, vis, leaves, u, st);
        let a = all_of(d, st, o, cnt); assert(a.contains(u as i32)); let x = choose|x: int| 0 <= x < a.len() && a[x] == u as i32; let z = d.n - cnt + x; assert(o[z] == u);
        reveal(later_than); assert(later_than(d, o, cnt, z)); assert(succ_e(d, o[z] as int, e)); let y = choose|y: int| z < y < d.n && #[trigger] o[y] == v; assert(a[y - (d.n - cnt)] == v as i32);
    }
}
// number of nodes of smaller rank
spec fn rank_of(d: Po, v: int) -> nat { low(d, v, d.n) }
spec fn low(d: Po, v: int, m: int) -> nat
    decreases m
{ if m <= 0 { 0 } else { low(d, v, m - 1) + (if d.rk[m - 1] < d.rk[v] { 1nat } else { 0nat }) } }
proof fn low_mono(d: Po, u: int, v: int, m: int)
    requires d.rk[u] < d.rk[v],
    ensures low(d, u, m) <= low(d, v, m), 0 <= u < m ==> low(d, u, m) < low(d, v, m),
    decreases m
{ if m > 0 { low_mono(d, u, v, m - 1); } }
proof fn rank_less(d: Po, u: int, v: int)
    requires 0 <= u < d.n, d.rk[u] < d.rk[v],
    ensures rank_of(d, u) < rank_of(d, v),
{ low_mono(d, u, v, d.n); }
pub open spec fn in_leaves(l: Seq<i32>, lo: int, v: int) -> bool { exists|x: int| lo <= x < l.len() && #[trigger] l[x] == v }
pub proof fn post_room(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, leaves: Seq<i32>, lo: int)
    requires post(d, st, o, cnt, vis, leaves, lo),
    ensures 0 <= cnt, cnt + st.len() <= d.n,
{ reveal(post); }
pub proof fn pred_next(d: Po, i: int, v: int)
    requires po_ok(d), 0 <= i < d.n,
    ensures pred_upto(d, i - 1, d.p[i] as int, v) == pred_upto(d, i, d.p[i] + 1, v),
{
    if pred_upto(d, i, d.p[i] + 1, v) { let (u, e) = choose|u: int, e: int| 0 <= u <= i && #[trigger] succ_e(d, u, e) && e < d.p[i] + 1 && d.g[e] == v; if u < i { po_le(d, u + 1, i); assert(succ_e(d, u, e)); } }
    if pred_upto(d, i - 1, d.p[i] as int, v) { let (u, e) = choose|u: int, e: int| 0 <= u <= i - 1 && #[trigger] succ_e(d, u, e) && e < d.p[i] && d.g[e] == v; assert(succ_e(d, u, e)); }
}
pub proof fn po_le(d: Po, a: int, b: int)
    requires po_ok(d), 0 <= a <= b <= d.n,
    ensures d.p[a] <= d.p[b],
{ reveal(po_ok); assert(d.p[a] <= d.p[b]); }
pub proof fn pred_more(d: Po, i: int, m: int, v: int)
    requires succ_e(d, i, m), po_ok(d), 0 <= i < d.n,
    ensures pred_upto(d, i, m + 1, v) == (pred_upto(d, i, m, v) || d.g[m] == v),
{
    if pred_upto(d, i, m + 1, v) { let (u, e) = choose|u: int, e: int| 0 <= u <= i && #[trigger] succ_e(d, u, e) && e < m + 1 && d.g[e] == v; assert(e == m || pred_upto(d, i, m, v)); }
    if pred_upto(d, i, m, v) { let (u, e) = choose|u: int, e: int| 0 <= u <= i && #[trigger] succ_e(d, u, e) && e < m && d.g[e] == v; assert(succ_e(d, u, e)); }
}
pub proof fn pred_all(d: Po, v: int)
    requires po_ok(d),
    ensures pred_upto(d, d.n - 1, d.p[d.n] as int, v) == has_pred(d, v),
{
    if has_pred(d, v) { let (u, e) = choose|u: int, e: int| 0 <= u < d.n && #[trigger] succ_e(d, u, e) && d.g[e] == v; po_le(d, u + 1, d.n); assert(succ_e(d, u, e)); }
    if pred_upto(d, d.n - 1, d.p[d.n] as int, v) { let (u, e) = choose|u: int, e: int| 0 <= u <= d.n - 1 && #[trigger] succ_e(d, u, e) && e < d.p[d.n] && d.g[e] == v; assert(succ_e(d, u, e)); }
}

// the nodes without predecessor, ascending
#[verifier::opaque]
pub open spec fn leaves_ok(d: Po, l: Seq<i32>) -> bool {
    l.len() <= d.n && (forall|x: int, y: int| 0 <= x < y < l.len() ==> #[trigger] l[x] < #[trigger] l[y]) && (forall|x: int| 0 <= x < l.len() ==> 0 <= #[trigger] l[x] < d.n && !has_pred(d, l[x] as int))
    && (forall|v: int| 0 <= v < d.n && !#[trigger] has_pred(d, v) ==> in_leaves(l, 0, v))
}
#[verifier::opaque]
pub open spec fn started(vis: Seq<bool>, l: Seq<i32>, lo: int) -> bool { forall|x: int| lo <= x < l.len() ==> vis[#[trigger] l[x] as int] }
#[verifier::opaque]
pub open spec fn po_pre(p: Seq<i32>, g: Seq<i32>, n: int) -> bool { dag_in(p, g, n) && diag_first(p, g, n) && acyclic(p, g, n) }
pub proof fn po_start(p: Seq<i32>, g: Seq<i32>, n: int)
    requires po_pre(p, g, n),
    ensures po_ok(Po { p: p, g: g, n: n, rk: choose|rk: Seq<int>| ranked(p, g, n, rk) }), n < i32::MAX, p.len() > n, p[0] == 0, n >= 0, p[n] < i32::MAX,
{ reveal(po_pre); reveal(po_ok); }
pub proof fn leaf_fresh(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, l: Seq<i32>, lo: int)
    requires post(d, st, o, cnt, vis, l, lo), leaves_ok(d, l), 0 < lo <= l.len(), st.len() == 0, started(vis, l, lo),
    ensures 0 <= l[lo - 1] < d.n, post(d, st.push(l[lo - 1]), o, cnt, vis.update(l[lo - 1] as int, true), l, lo - 1), started(vis.update(l[lo - 1] as int, true), l, lo - 1), cnt + 1 <= d.n, 0 <= cnt, vis.len() == d.n,
{
    reveal(leaves_ok); reveal(started); leaf_new(d, st, o, cnt, vis, l, lo); post_push(d, st, o, cnt, vis, l, lo, l[lo - 1], lo - 1);
    post_room(d, st.push(l[lo - 1]), o, cnt, vis.update(l[lo - 1] as int, true), l, lo - 1); reveal(post);
}
pub proof fn started_more(v1: Seq<bool>, c: int, l: Seq<i32>, lo: int, d: Po)
    requires started(v1, l, lo), 0 <= c < d.n, v1.len() == d.n, 0 <= lo, leaves_ok(d, l),
    ensures started(v1.update(c, true), l, lo),
{ reveal(started); reveal(leaves_ok); }
pub proof fn leaves_all(d: Po, st: Seq<i32>, o: Seq<i32>, cnt: int, vis: Seq<bool>, l: Seq<i32>)
    requires post(d, st, o, cnt, vis, l, 0), st.len() == 0, leaves_ok(d, l), started(vis, l, 0),
    ensures topological(d.p, d.g, d.n, o), cnt == d.n,
{
    assert forall|v: int| 0 <= v < d.n && !#[trigger] has_pred(d, v) implies vis[v] by { reveal(leaves_ok); reveal(started); assert(in_leaves(l, 0, v)); let x = choose|x: int| 0 <= x < l.len() && #[trigger] l[x] == v; assert(vis[l[x] as int]); }
    post_done(d, o, cnt, vis, l, st);
}
#[verifier::opaque]
pub open spec fn deg_is(d: Po, deg: Seq<i32>, i: int, m: int) -> bool { deg.len() == d.n && forall|v: int| 0 <= v < d.n ==> 0 <= #[trigger] deg[v] <= m && (deg[v] != 0 <==> pred_upto(d, i, m, v)) }
pub proof fn deg_init(d: Po, deg: Seq<i32>)
    requires po_ok(d), deg.len() == d.n, forall|v: int| 0 <= v < d.n ==> #[trigger] deg[v] == 0,
    ensures deg_is(d, deg, -1, 0),
{ reveal(deg_is); }
pub proof fn deg_col(d: Po, deg: Seq<i32>, i: int)
    requires po_ok(d), 0 <= i < d.n, deg_is(d, deg, i - 1, d.p[i] as int),
    ensures deg_is(d, deg, i, d.p[i] + 1), 0 <= d.p[i] < d.p[i + 1] <= d.p[d.n], d.p[d.n] < i32::MAX, d.p[d.n] <= d.g.len(),
{ po_col(d, i); reveal(deg_is); assert forall|v: int| 0 <= v < d.n implies 0 <= #[trigger] deg[v] <= d.p[i] + 1 && (deg[v] != 0 <==> pred_upto(d, i, d.p[i] + 1, v)) by { pred_next(d, i, v); } }
pub proof fn deg_step(d: Po, deg: Seq<i32>, i: int, m: int)
    requires po_ok(d), 0 <= i < d.n, d.p[i] < m < d.p[i + 1], deg_is(d, deg, i, m),
    ensures 0 <= d.g[m] < d.n, 0 <= deg[d.g[m] as int] <= m, deg.len() == d.n, m < i32::MAX, forall|w: i32| w == deg[d.g[m] as int] + 1 ==> deg_is(d, #[trigger] deg.update(d.g[m] as int, w), i, m + 1),
{
    po_col(d, i); assert(succ_e(d, i, m)); reveal(deg_is);
    assert forall|w: i32| w == deg[d.g[m] as int] + 1 implies deg_is(d, #[trigger] deg.update(d.g[m] as int, w), i, m + 1) by {
        let e2 = deg.update(d.g[m] as int, w);
        assert forall|v: int| 0 <= v < d.n implies 0 <= #[trigger] e2[v] <= m + 1 && (e2[v] != 0 <==> pred_upto(d, i, m + 1, v)) by { pred_more(d, i, m, v); assert(0 <= deg[v] <= m); }
    }
}
pub proof fn deg_done(d: Po, deg: Seq<i32>, v: int)
    requires po_ok(d), deg_is(d, deg, d.n - 1, d.p[d.n] as int), 0 <= v < d.n,
    ensures deg[v] != 0 <==> has_pred(d, v),
{ reveal(deg_is); pred_all(d, v); }
#[verifier::opaque]
pub open spec fn leaves_upto(d: Po, l: Seq<i32>, i: int) -> bool {
    l.len() <= i && (forall|x: int, y: int| 0 <= x < y < l.len() ==> #[trigger] l[x] < #[trigger] l[y]) && (forall|x: int| 0 <= x < l.len() ==> 0 <= #[trigger] l[x] < i && !has_pred(d, l[x] as int))
    && (forall|v: int| 0 <= v < i && !#[trigger] has_pred(d, v) ==> in_leaves(l, 0, v))
}
pub proof fn leaves_step(d: Po, l: Seq<i32>, i: int, c: i32)
    requires leaves_upto(d, l, i), 0 <= i < d.n, c == i,
    ensures has_pred(d, i) ==> leaves_upto(d, l, i + 1), !has_pred(d, i) ==> leaves_upto(d, l.push(c), i + 1),
{
    reveal(leaves_upto); let l2 = l.push(c); assert(l2[l2.len() - 1] == i);
    assert forall|v: int| 0 <= v < i && !#[trigger] has_pred(d, v) implies in_leaves(l2, 0, v) by { assert(in_leaves(l, 0, v)); let x = choose|x: int| 0 <= x < l.len() && #[trigger] l[x] == v; assert(l2[x] == v); }
}
pub proof fn leaves_zero(d: Po, l: Seq<i32>) requires l.len() == 0, ensures leaves_upto(d, l, 0) { reveal(leaves_upto); }
pub proof fn leaves_end(d: Po, l: Seq<i32>) requires leaves_upto(d, l, d.n), ensures leaves_ok(d, l), l.len() <= d.n { reveal(leaves_upto); reveal(leaves_ok); }
