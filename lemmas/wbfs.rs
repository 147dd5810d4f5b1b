//@uses graph perm
// breadth-first order of the nodes of a window (the others are marked in out): a node is taken when its last predecessor in the window is
pub ghost struct Wb { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub rk: Seq<int>, pub out: Seq<bool> }
#[verifier::opaque]
pub open spec fn wb_ok(d: Wb) -> bool { gwf(d.p, d.g, d.n) && ranked(d.p, d.g, d.n, d.rk) && d.out.len() >= d.n && d.n < i32::MAX && d.p[d.n] < i32::MAX }
pub open spec fn inw(d: Wb, v: int) -> bool { 0 <= v < d.n && !d.out[v] }
pub open spec fn wsrc(d: Wb, e: int) -> int { src(d.p, d.n, e) }
// entries of u among the first k that lead to v from another node
pub open spec fn cu(d: Wb, u: ISet<int>, k: int, v: int) -> int
    decreases k
{ if k <= 0 { 0 } else { cu(d, u, k - 1, v) + (if u.contains(k - 1) && d.g[k - 1] == v && wsrc(d, k - 1) != v { 1int } else { 0int }) } }
pub open spec fn tot(u: ISet<int>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { tot(u, k - 1) + (if u.contains(k - 1) { 1int } else { 0int }) } }
pub open spec fn wb_all(d: Wb) -> ISet<int> { ISet::new(|e: int| 0 <= e < d.p[d.n] && inw(d, wsrc(d, e))) }
// number of entries that lead to v from other nodes of the window
pub open spec fn wpre(d: Wb, v: int) -> int { cu(d, wb_all(d), d.p[d.n] as int, v) }
pub proof fn cu_rm(d: Wb, u: ISet<int>, k: int, v: int, e: int)
    requires u.contains(e), e >= 0,
    ensures cu(d, u.remove(e), k, v) == cu(d, u, k, v) - (if e < k && d.g[e] == v && wsrc(d, e) != v { 1int } else { 0int }),
    decreases k
{ if k > 0 { cu_rm(d, u, k - 1, v, e); } }
proof fn tot_rm(u: ISet<int>, k: int, e: int)
    requires u.contains(e), e >= 0,
    ensures tot(u.remove(e), k) == tot(u, k) - (if e < k { 1int } else { 0int }),
    decreases k
{ if k > 0 { tot_rm(u, k - 1, e); } }
pub proof fn tot_le(u: ISet<int>, k: int)
    requires k >= 0,
    ensures 0 <= tot(u, k) <= k,
    decreases k
{ if k > 0 { tot_le(u, k - 1); } }
proof fn tot_has(u: ISet<int>, k: int, e: int)
    requires 0 <= e < k, u.contains(e),
    ensures tot(u, k) >= 1,
    decreases k
{ tot_le(u, k - 1); if e < k - 1 { tot_has(u, k - 1, e); } }
pub proof fn cu_ge(d: Wb, u: ISet<int>, k: int, v: int)
    ensures cu(d, u, k, v) >= 0,
    decreases k
{ if k > 0 { cu_ge(d, u, k - 1, v); } }
proof fn cu_mono(d: Wb, u: ISet<int>, w: ISet<int>, k: int, v: int)
    requires forall|e: int| #[trigger] u.contains(e) ==> w.contains(e),
    ensures cu(d, u, k, v) <= cu(d, w, k, v),
    decreases k
{ if k > 0 { cu_mono(d, u, w, k - 1, v); } }
pub proof fn cu_has(d: Wb, u: ISet<int>, k: int, v: int, e: int)
    requires 0 <= e < k, u.contains(e), d.g[e] == v, wsrc(d, e) != v,
    ensures cu(d, u, k, v) >= 1,
    decreases k
{ cu_ge(d, u, k - 1, v); if e < k - 1 { cu_has(d, u, k - 1, v, e); } }
pub proof fn cu_find(d: Wb, u: ISet<int>, k: int, v: int) -> (e: int)
    requires cu(d, u, k, v) >= 1,
    ensures 0 <= e < k, u.contains(e), d.g[e] == v, wsrc(d, e) != v,
    decreases k
{ if u.contains(k - 1) && d.g[k - 1] == v && wsrc(d, k - 1) != v { k - 1 } else { cu_find(d, u, k - 1, v) } }
pub open spec fn popped(q: Seq<i32>, k: int, v: int) -> bool { exists|x: int| 0 <= x < k && #[trigger] q[x] == v }
pub open spec fn begun(sl: Seq<i32>, c: int, v: int) -> bool { exists|x: int| 0 <= x < c && #[trigger] sl[x] == v }
pub open spec fn edge_to(d: Wb, e: int, v: int) -> bool { 0 <= e < d.p[d.n] && d.g[e] == v && inw(d, wsrc(d, e)) && wsrc(d, e) != v }
// every predecessor in the window comes before
#[verifier::opaque]
pub open spec fn in_order(d: Wb, q: Seq<i32>) -> bool { forall|x: int, e: int| 0 <= x < q.len() && #[trigger] edge_to(d, e, q[x] as int) ==> popped(q, x, wsrc(d, e)) }
pub open spec fn ready(d: Wb, sl: Seq<i32>, c: int, u: ISet<int>, v: int) -> bool { cu(d, u, d.p[d.n] as int, v) == 0 && (wpre(d, v) > 0 || begun(sl, c, v)) }
#[verifier::opaque]
pub open spec fn unread(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, u: ISet<int>) -> bool {
    forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q, k, wsrc(d, e)) || (wsrc(d, e) == cur && e >= r))
}
#[verifier::opaque]
pub open spec fn degs_left(d: Wb, q: Seq<i32>, k: int, deg: Seq<i32>, u: ISet<int>) -> bool {
    deg.len() >= d.n && (forall|v: int| inw(d, v) && !popped(q, k, v) ==> #[trigger] deg[v] == 1 + cu(d, u, d.p[d.n] as int, v)) && forall|v: int| 0 <= v < d.n ==> #[trigger] deg[v] >= tot(u, d.p[d.n] as int) - d.p[d.n]
}
#[verifier::opaque]
pub open spec fn vis_is(d: Wb, q: Seq<i32>, k: int, vis: Seq<bool>) -> bool { vis.len() == d.out.len() && forall|v: int| 0 <= v < d.n ==> (#[trigger] vis[v] <==> d.out[v] || popped(q, k, v)) }
#[verifier::opaque]
pub open spec fn q_is(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, u: ISet<int>) -> bool { forall|v: int| #[trigger] inw(d, v) ==> (q.contains(v as i32) <==> ready(d, sl, c, u, v)) }
#[verifier::opaque]
pub open spec fn srcs_ok(d: Wb, sl: Seq<i32>) -> bool {
    sl.no_duplicates() && (forall|x: int| 0 <= x < sl.len() ==> inw(d, #[trigger] sl[x] as int) && wpre(d, sl[x] as int) == 0) && forall|v: int| #[trigger] inw(d, v) && wpre(d, v) == 0 ==> sl.contains(v as i32)
}
#[verifier::opaque]
pub open spec fn q_in(d: Wb, q: Seq<i32>) -> bool { q.no_duplicates() && forall|x: int| 0 <= x < q.len() ==> inw(d, #[trigger] q[x] as int) }
pub open spec fn wb(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>) -> bool {
    wb_ok(d) && srcs_ok(d, sl) && 0 <= c <= sl.len() && 0 <= k <= q.len() && q_in(d, q) && in_order(d, q) && unread(d, q, k, cur, r, u) && degs_left(d, q, k, deg, u) && vis_is(d, q, k, vis) && q_is(d, sl, c, q, u)
    && (cur >= 0 ==> 0 <= cur < d.n && popped(q, k, cur) && inw(d, cur) && d.p[cur] <= r <= d.p[cur + 1])
}
#[verifier::opaque]
pub open spec fn degs_start(d: Wb, deg: Seq<i32>) -> bool { deg.len() >= d.n && (forall|v: int| #[trigger] inw(d, v) ==> deg[v] == 1 + wpre(d, v)) && forall|v: int| 0 <= v < d.n ==> #[trigger] deg[v] >= 0 }
pub proof fn wb_init(d: Wb, sl: Seq<i32>, deg: Seq<i32>)
    requires wb_ok(d), srcs_ok(d, sl), degs_start(d, deg),
    ensures wb(d, sl, 0, seq![], 0, -1, 0, d.out, deg, wb_all(d)),
{
    reveal(q_in); reveal(in_order); reveal(unread); reveal(degs_left); reveal(vis_is); reveal(q_is); reveal(degs_start); reveal(wb_ok);
    assert(ptrs(d.p, d.n)); assert(d.p[0] <= d.p[d.n]); tot_le(wb_all(d), d.p[d.n] as int);
    assert forall|v: int| inw(d, v) && !popped(seq![], 0, v) implies #[trigger] deg[v] == 1 + cu(d, wb_all(d), d.p[d.n] as int, v) by { assert(inw(d, v)); }
}
pub proof fn wsrc_in(d: Wb, e: int)
    requires wb_ok(d), 0 <= e < d.p[d.n],
    ensures 0 <= wsrc(d, e) < d.n, d.p[wsrc(d, e)] <= e < d.p[wsrc(d, e) + 1], 0 <= d.g[e] < d.n,
{ reveal(wb_ok); src_ex(d.p, d.n, e); }
pub proof fn wb_len(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, cur, r, vis, deg, u),
    ensures q.len() <= d.n, vis.len() >= d.n, deg.len() >= d.n, vis.len() == d.out.len(), d.p.len() > d.n, d.n < i32::MAX, d.n >= 0,
        k < q.len() ==> inw(d, q[k] as int) && 0 <= d.p[q[k] as int] <= d.p[q[k] + 1] <= d.p[d.n], d.p[d.n] <= d.g.len(), d.p[d.n] < i32::MAX,
        cur >= 0 ==> 0 <= d.p[cur] <= d.p[cur + 1] <= d.p[d.n] && cur < d.n,
{
    reveal(q_in); reveal(wb_ok); reveal(degs_left); reveal(vis_is);
    distinct_len_i32(q, d.n);
    assert(d.p[0] <= d.p[d.n]);
    if k < q.len() { assert(inw(d, q[k] as int)); assert(d.p[0] <= d.p[q[k] as int]); assert(d.p[q[k] + 1] <= d.p[d.n]); }
    if cur >= 0 { assert(d.p[0] <= d.p[cur]); assert(d.p[cur + 1] <= d.p[d.n]); }
}
proof fn distinct_len_i32(q: Seq<i32>, n: int)
    requires q.no_duplicates(), n >= 0, forall|x: int| 0 <= x < q.len() ==> 0 <= #[trigger] q[x] < n,
    ensures q.len() <= n,
{
    let s = Seq::new(q.len(), |x: int| q[x] as int);
    assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by { assert(q[x] != q[y]); }
    distinct_len(s, n);
}
pub proof fn pop_push(q: Seq<i32>, k: int, w: i32, v: int)
    requires 0 <= k <= q.len(),
    ensures popped(q.push(w), k, v) == popped(q, k, v),
{
    if popped(q, k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] q[x] == v; assert(q.push(w)[x] == v); }
    if popped(q.push(w), k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] q.push(w)[x] == v; assert(q[x] == v); }
}
proof fn q_push(d: Wb, q: Seq<i32>, w: i32)
    requires q_in(d, q), in_order(d, q), inw(d, w as int), !q.contains(w), forall|e: int| #[trigger] edge_to(d, e, w as int) ==> popped(q, q.len() as int, wsrc(d, e)),
    ensures q_in(d, q.push(w)), in_order(d, q.push(w)),
{
    reveal(q_in); reveal(in_order); let q2 = q.push(w);
    assert forall|x: int, e: int| 0 <= x < q2.len() && #[trigger] edge_to(d, e, q2[x] as int) implies popped(q2, x, wsrc(d, e)) by {
        pop_push(q, x, w, wsrc(d, e));
        if x < q.len() { assert(q2[x] == q[x]); assert(edge_to(d, e, q[x] as int)); }
    }
}
proof fn rest_push(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>, w: i32)
    requires 0 <= k <= q.len(), unread(d, q, k, cur, r, u), degs_left(d, q, k, deg, u), vis_is(d, q, k, vis),
    ensures unread(d, q.push(w), k, cur, r, u), degs_left(d, q.push(w), k, deg, u), vis_is(d, q.push(w), k, vis), forall|v: int| #[trigger] popped(q.push(w), k, v) == popped(q, k, v),
{
    reveal(unread); reveal(degs_left); reveal(vis_is); let q2 = q.push(w);
    assert forall|v: int| #[trigger] popped(q2, k, v) == popped(q, k, v) by { pop_push(q, k, w, v); }
    assert forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q2, k, wsrc(d, e)) || (wsrc(d, e) == cur && e >= r)) by { pop_push(q, k, w, wsrc(d, e)); }
    assert forall|v: int| inw(d, v) && !popped(q2, k, v) implies #[trigger] deg[v] == 1 + cu(d, u, d.p[d.n] as int, v) by { pop_push(q, k, w, v); }
    assert forall|v: int| 0 <= v < d.n implies (#[trigger] vis[v] <==> d.out[v] || popped(q2, k, v)) by { pop_push(q, k, w, v); }
}
// the next source is begun
pub proof fn wb_source(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, -1, 0, vis, deg, u), c < sl.len(),
    ensures wb(d, sl, c + 1, q.push(sl[c]), k, -1, 0, vis, deg, u),
{
    let w = sl[c]; let q2 = q.push(w);
    assert(inw(d, w as int) && wpre(d, w as int) == 0) by { reveal(srcs_ok); }
    assert forall|e: int| #[trigger] u.contains(e) implies wb_all(d).contains(e) by { reveal(unread); }
    cu_mono(d, u, wb_all(d), d.p[d.n] as int, w as int); cu_ge(d, u, d.p[d.n] as int, w as int);
    assert(!begun(sl, c, w as int)) by { reveal(srcs_ok); if begun(sl, c, w as int) { let x = choose|x: int| 0 <= x < c && #[trigger] sl[x] == w; assert(sl[x] != sl[c]); } }
    assert(!q.contains(w)) by { reveal(q_is); assert(inw(d, w as int)); assert(w as int as i32 == w); }
    assert forall|e: int| #[trigger] edge_to(d, e, w as int) implies popped(q, q.len() as int, wsrc(d, e)) by { cu_has(d, wb_all(d), d.p[d.n] as int, w as int, e); }
    q_push(d, q, w); rest_push(d, q, k, -1, 0, vis, deg, u, w);
    assert(q_is(d, sl, c + 1, q2, u)) by {
        reveal(q_is);
        assert forall|v: int| #[trigger] inw(d, v) implies (q2.contains(v as i32) <==> ready(d, sl, c + 1, u, v)) by {
            reveal(wb_ok); assert((v as i32) as int == v); assert(q.contains(v as i32) <==> ready(d, sl, c, u, v)); contains_push(q, w, v as i32);
            if begun(sl, c, v) { let x = choose|x: int| 0 <= x < c && #[trigger] sl[x] == v; assert(sl[x] == v); assert(begun(sl, c + 1, v)); }
            if begun(sl, c + 1, v) { let x = choose|x: int| 0 <= x < c + 1 && #[trigger] sl[x] == v; assert(sl[x] == v); if x < c { assert(begun(sl, c, v)); } }
            if v == w { assert(sl[c] == v); assert(begun(sl, c + 1, v)); }
        }
    }
}
pub proof fn contains_push(q: Seq<i32>, w: i32, v: i32)
    ensures q.push(w).contains(v) <==> v == w || q.contains(v),
{
    let q2 = q.push(w);
    if v == w { assert(q2[q.len() as int] == v); }
    if q.contains(v) { let x = choose|x: int| 0 <= x < q.len() && q[x] == v; assert(q2[x] == v); }
    if q2.contains(v) && v != w { let x = choose|x: int| 0 <= x < q2.len() && q2[x] == v; assert(q[x] == v); }
}
pub proof fn popped_next(q: Seq<i32>, k: int, v: int)
    requires 0 <= k < q.len(),
    ensures popped(q, k + 1, v) <==> v == q[k] || popped(q, k, v),
{
    if popped(q, k + 1, v) && v != q[k] { let x = choose|x: int| 0 <= x < k + 1 && #[trigger] q[x] == v; assert(q[x] == v && x < k); }
    if popped(q, k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] q[x] == v; assert(q[x] == v); }
    if v == q[k] { assert(q[k] == v); }
}
// the front of the queue is taken
pub proof fn wb_pop(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, -1, 0, vis, deg, u), k < q.len(),
    ensures inw(d, q[k] as int), wb(d, sl, c, q, k + 1, q[k] as int, d.p[q[k] as int] as int, vis.update(q[k] as int, true), deg, u),
{
    let v0 = q[k] as int; let r = d.p[v0] as int; let vis2 = vis.update(v0, true);
    assert(inw(d, v0)) by { reveal(q_in); }
    assert(!popped(q, k, v0)) by { reveal(q_in); if popped(q, k, v0) { let x = choose|x: int| 0 <= x < k && #[trigger] q[x] == v0; assert(q[x] != q[k]); } }
    assert(unread(d, q, k + 1, v0, r, u)) by {
        reveal(unread);
        assert forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q, k + 1, wsrc(d, e)) || (wsrc(d, e) == v0 && e >= r)) by { popped_next(q, k, wsrc(d, e)); if 0 <= e < d.p[d.n] { wsrc_in(d, e); } }
    }
    assert(degs_left(d, q, k + 1, deg, u)) by { reveal(degs_left); assert forall|v: int| inw(d, v) && !popped(q, k + 1, v) implies #[trigger] deg[v] == 1 + cu(d, u, d.p[d.n] as int, v) by { popped_next(q, k, v); } }
    assert(vis_is(d, q, k + 1, vis2)) by { reveal(vis_is); reveal(wb_ok); assert forall|v: int| 0 <= v < d.n implies (#[trigger] vis2[v] <==> d.out[v] || popped(q, k + 1, v)) by { popped_next(q, k, v); assert(vis[v] <==> d.out[v] || popped(q, k, v)); } }
    popped_next(q, k, v0); reveal(wb_ok); assert(d.p[v0] <= d.p[v0 + 1]);
}
// facts about the entry about to be read
pub proof fn wb_at(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, cur, r, vis, deg, u), cur >= 0, r < d.p[cur + 1],
    ensures 0 <= r < d.p[d.n], d.p[d.n] <= d.g.len(), 0 <= d.g[r] < d.n, wsrc(d, r) == cur, u.contains(r), deg[d.g[r] as int] > i32::MIN, d.g[r] < deg.len(), d.g[r] < vis.len(),
        vis[d.g[r] as int] ==> true, d.g[r] == cur ==> vis[cur],
{
    wb_len(d, sl, c, q, k, cur, r, vis, deg, u); reveal(wb_ok); assert(in_col(d.p, cur, r)); src_is(d.p, d.n, cur, r); wsrc_in(d, r);
    assert(u.contains(r)) by { reveal(unread); }
    assert(deg[d.g[r] as int] > i32::MIN) by { reveal(degs_left); tot_has(u, d.p[d.n] as int, r); }
    assert(vis[cur]) by { reveal(vis_is); }
}
pub proof fn unread_step(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, u: ISet<int>)
    requires wb_ok(d), unread(d, q, k, cur, r, u), 0 <= r < d.p[d.n], wsrc(d, r) == cur, popped(q, k, cur),
    ensures unread(d, q, k, cur, r + 1, u.remove(r)),
{ reveal(unread); }
pub open spec fn q_after(q: Seq<i32>, w: i32, go: bool) -> Seq<i32> { if go { q.push(w) } else { q } }
// one entry is read: its target may become ready
pub proof fn wb_read(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, cur, r, vis, deg, u), cur >= 0, r < d.p[cur + 1],
    ensures ({ let w = d.g[r]; let dg = (deg[w as int] - 1) as i32; wb(d, sl, c, q_after(q, w, dg == 1 && !vis[w as int]), k, cur, r + 1, vis, deg.update(w as int, dg), u.remove(r)) }),
{
    wb_at(d, sl, c, q, k, cur, r, vis, deg, u); wb_len(d, sl, c, q, k, cur, r, vis, deg, u);
    let m = d.p[d.n] as int; let w = d.g[r]; let dg = (deg[w as int] - 1) as i32; let go = dg == 1 && !vis[w as int]; let u2 = u.remove(r); let deg2 = deg.update(w as int, dg);
    unread_step(d, q, k, cur, r, u);
    tot_rm(u, m, r);
    assert forall|v: int| #[trigger] cu(d, u2, m, v) == cu(d, u, m, v) - (if w == v && cur != v { 1int } else { 0int }) by { cu_rm(d, u, m, v, r); }
    assert(vis[w as int] <==> d.out[w as int] || popped(q, k, w as int)) by { reveal(vis_is); }
    assert forall|e: int| #[trigger] u.contains(e) implies wb_all(d).contains(e) by { reveal(unread); }
    assert(w as int as i32 == w);
    let fresh = inw(d, w as int) && w != cur;
    if fresh {
        cu_has(d, u, m, w as int, r); cu_mono(d, u, wb_all(d), m, w as int);
        assert(!ready(d, sl, c, u, w as int));
        assert(!q.contains(w)) by { reveal(q_is); assert(inw(d, w as int)); }
        assert(!popped(q, k, w as int)) by { if popped(q, k, w as int) { let x = choose|x: int| 0 <= x < k && #[trigger] q[x] == w; assert(q[x] == w); } }
        assert(deg[w as int] == 1 + cu(d, u, m, w as int)) by { reveal(degs_left); }
    } else { assert(!go); }
    assert(degs_left(d, q, k, deg2, u2)) by {
        reveal(degs_left);
        assert forall|v: int| inw(d, v) && !popped(q, k, v) implies #[trigger] deg2[v] == 1 + cu(d, u2, m, v) by { assert(deg[v] == 1 + cu(d, u, m, v)); }
        assert forall|v: int| 0 <= v < d.n implies #[trigger] deg2[v] >= tot(u2, m) - m by { assert(deg[v] >= tot(u, m) - m); }
    }
    if go {
        assert(fresh); assert(cu(d, u2, m, w as int) == 0);
        assert forall|e: int| #[trigger] edge_to(d, e, w as int) implies popped(q, q.len() as int, wsrc(d, e)) by {
            assert(!u2.contains(e)) by { if u2.contains(e) { cu_has(d, u2, m, w as int, e); } }
            assert(popped(q, k, wsrc(d, e))) by { reveal(unread); }
            let x = choose|x: int| 0 <= x < k && #[trigger] q[x] == wsrc(d, e); assert(q[x] == wsrc(d, e));
        }
        q_push(d, q, w); rest_push(d, q, k, cur, r + 1, vis, deg2, u2, w);
        assert(popped(q.push(w), k, cur));
    }
    let q2 = q_after(q, w, go);
    assert(q_is(d, sl, c, q2, u2)) by {
        reveal(q_is);
        assert forall|v: int| #[trigger] inw(d, v) implies (q2.contains(v as i32) <==> ready(d, sl, c, u2, v)) by {
            assert((v as i32) as int == v); assert(q.contains(v as i32) <==> ready(d, sl, c, u, v)); contains_push(q, w, v as i32);
            if v == w { if fresh { cu_ge(d, u2, m, v); } else { assert(cur == v); assert(q2 == q); assert(cu(d, u2, m, v) == cu(d, u, m, v)); } } else { assert(cu(d, u2, m, v) == cu(d, u, m, v)); }
        }
    }
}
// a node's own entry is passed over
pub proof fn wb_skip(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, cur, r, vis, deg, u), cur >= 0, r < d.p[cur + 1], d.g[r] == cur,
    ensures wb(d, sl, c, q, k, cur, r + 1, vis, deg, u.remove(r)),
{
    wb_at(d, sl, c, q, k, cur, r, vis, deg, u); wb_len(d, sl, c, q, k, cur, r, vis, deg, u);
    let m = d.p[d.n] as int; let u2 = u.remove(r);
    unread_step(d, q, k, cur, r, u); tot_rm(u, m, r);
    assert forall|v: int| #[trigger] cu(d, u2, m, v) == cu(d, u, m, v) by { cu_rm(d, u, m, v, r); }
    assert(degs_left(d, q, k, deg, u2)) by { reveal(degs_left);
        assert forall|v: int| inw(d, v) && !popped(q, k, v) implies #[trigger] deg[v] == 1 + cu(d, u2, m, v) by { assert(deg[v] == 1 + cu(d, u, m, v)); }
        assert forall|v: int| 0 <= v < d.n implies #[trigger] deg[v] >= tot(u2, m) - m by { assert(deg[v] >= tot(u, m) - m); } }
    assert(q_is(d, sl, c, q, u2)) by { reveal(q_is); assert forall|v: int| #[trigger] inw(d, v) implies (q.contains(v as i32) <==> ready(d, sl, c, u2, v)) by { assert(q.contains(v as i32) <==> ready(d, sl, c, u, v)); assert(cu(d, u2, m, v) == cu(d, u, m, v)); } }
}
// a node's entries are all read
pub proof fn wb_end(d: Wb, sl: Seq<i32>, c: int, q: Seq<i32>, k: int, cur: int, r: int, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, c, q, k, cur, r, vis, deg, u), cur >= 0, r >= d.p[cur + 1],
    ensures wb(d, sl, c, q, k, -1, 0, vis, deg, u),
{
    assert(unread(d, q, k, -1, 0, u)) by {
        reveal(unread);
        assert forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q, k, wsrc(d, e)) || (wsrc(d, e) == -1 && e >= 0)) by { if 0 <= e < d.p[d.n] { wsrc_in(d, e); } }
    }
}
// a topological order of the nodes of the window
#[verifier::opaque]
pub open spec fn window_order(d: Wb, o: Seq<i32>) -> bool { q_in(d, o) && in_order(d, o) && forall|v: int| #[trigger] inw(d, v) ==> o.contains(v as i32) }
proof fn least_left(d: Wb, q: Seq<i32>, k: int, v: int) -> (w: int)
    requires 0 <= v < k <= d.n, inw(d, v), !q.contains(v as i32),
    ensures 0 <= w < k, inw(d, w), !q.contains(w as i32), forall|x: int| 0 <= x < k && #[trigger] inw(d, x) && !q.contains(x as i32) ==> d.rk[w] <= d.rk[x],
    decreases k
{
    if exists|x: int| 0 <= x < k - 1 && #[trigger] inw(d, x) && !q.contains(x as i32) {
        let x = choose|x: int| 0 <= x < k - 1 && #[trigger] inw(d, x) && !q.contains(x as i32); let w = least_left(d, q, k - 1, x);
        if inw(d, k - 1) && !q.contains((k - 1) as i32) && d.rk[k - 1] < d.rk[w] { k - 1 } else { w }
    } else { v }
}
pub proof fn wb_done(d: Wb, sl: Seq<i32>, q: Seq<i32>, vis: Seq<bool>, deg: Seq<i32>, u: ISet<int>)
    requires wb(d, sl, sl.len() as int, q, q.len() as int, -1, 0, vis, deg, u),
    ensures window_order(d, q), forall|v: int| 0 <= v < d.n ==> #[trigger] vis[v],
{
    assert forall|v: int| #[trigger] inw(d, v) implies q.contains(v as i32) by {
        if !q.contains(v as i32) {
            reveal(wb_ok);
            let w = least_left(d, q, d.n, v); let m = d.p[d.n] as int; cu_ge(d, u, m, w); cu_ge(d, wb_all(d), m, w);
            assert(!ready(d, sl, sl.len() as int, u, w)) by { reveal(q_is); }
            if cu(d, u, m, w) == 0 {
                assert(sl.contains(w as i32)) by { reveal(srcs_ok); }
                let x = choose|x: int| 0 <= x < sl.len() && sl[x] == w as i32; assert(sl[x] == w); assert(begun(sl, sl.len() as int, w));
            } else {
                let e = cu_find(d, u, m, w); let s = wsrc(d, e);
                assert(0 <= e < m && inw(d, s) && !popped(q, q.len() as int, s)) by { reveal(unread); wsrc_in(d, e); }
                assert(!q.contains(s as i32)) by { if q.contains(s as i32) { let x = choose|x: int| 0 <= x < q.len() && q[x] == s as i32; assert(q[x] == s); } }
                assert(d.rk[src(d.p, d.n, e)] < d.rk[d.g[e] as int]);
            }
        }
    }
    reveal(window_order);
    assert forall|v: int| 0 <= v < d.n implies #[trigger] vis[v] by { reveal(vis_is); reveal(wb_ok); if !d.out[v] { assert(inw(d, v)); let x = choose|x: int| 0 <= x < q.len() && q[x] == v as i32; assert(q[x] == v); } }
}
// ---- each partition's list gets its own nodes, in order
pub open spec fn picked(q: Seq<i32>, pt: Seq<i32>, x: int, k: int) -> Seq<i32>
    decreases k
{ if k <= 0 { seq![] } else if pt[q[k - 1] as int] == x { picked(q, pt, x, k - 1).push(q[k - 1]) } else { picked(q, pt, x, k - 1) } }
#[verifier::opaque]
pub open spec fn lists_are(l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>, q: Seq<i32>, k: int) -> bool { l.len() == l0.len() && forall|x: int| 0 <= x < l.len() ==> (#[trigger] l[x])@ == l0[x]@ + picked(q, pt, x, k) }
pub proof fn lists_init(l: Seq<Vec<i32>>, pt: Seq<i32>, q: Seq<i32>)
    ensures lists_are(l, l, pt, q, 0),
{ reveal(lists_are); assert forall|x: int| 0 <= x < l.len() implies (#[trigger] l[x])@ == l[x]@ + picked(q, pt, x, 0) by { assert(l[x]@ =~= l[x]@ + picked(q, pt, x, 0)); } }
proof fn picked_ext(q: Seq<i32>, q2: Seq<i32>, pt: Seq<i32>, x: int, k: int)
    requires forall|y: int| 0 <= y < k ==> #[trigger] q[y] == q2[y],
    ensures picked(q, pt, x, k) == picked(q2, pt, x, k),
    decreases k
{ if k > 0 { picked_ext(q, q2, pt, x, k - 1); assert(q[k - 1] == q2[k - 1]); } }
pub proof fn lists_ext(l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>, q: Seq<i32>, k: int, w: i32)
    requires lists_are(l, l0, pt, q, k), 0 <= k <= q.len(),
    ensures lists_are(l, l0, pt, q.push(w), k),
{ reveal(lists_are); assert forall|x: int| 0 <= x < l.len() implies (#[trigger] l[x])@ == l0[x]@ + picked(q.push(w), pt, x, k) by { picked_ext(q, q.push(w), pt, x, k); } }
pub proof fn lists_put(l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>, q: Seq<i32>, k: int, l2: Seq<Vec<i32>>)
    requires lists_are(l, l0, pt, q, k), 0 <= k < q.len(), l2.len() == l.len(), 0 <= pt[q[k] as int] < l.len(), l2[pt[q[k] as int] as int]@ == l[pt[q[k] as int] as int]@.push(q[k]), forall|x: int| 0 <= x < l.len() && x != pt[q[k] as int] ==> #[trigger] l2[x] == l[x],
    ensures lists_are(l2, l0, pt, q, k + 1),
{
    reveal(lists_are);
    assert forall|x: int| 0 <= x < l2.len() implies (#[trigger] l2[x])@ == l0[x]@ + picked(q, pt, x, k + 1) by { assert(l[x]@ == l0[x]@ + picked(q, pt, x, k)); if x == pt[q[k] as int] { assert(l2[x]@ =~= l0[x]@ + picked(q, pt, x, k + 1)); } }
}
pub open spec fn window(p: Seq<i32>, g: Seq<i32>, n: int, out: Seq<bool>) -> Wb { Wb { p: p, g: g, n: n, rk: choose|rk: Seq<int>| ranked(p, g, n, rk), out: out } }
pub open spec fn window_in(p: Seq<i32>, g: Seq<i32>, n: int, out: Seq<bool>) -> bool { gwf(p, g, n) && acyclic(p, g, n) && out.len() >= n && n < i32::MAX && p[n] < i32::MAX }
pub proof fn window_start(p: Seq<i32>, g: Seq<i32>, n: int, out: Seq<bool>)
    requires window_in(p, g, n, out),
    ensures wb_ok(window(p, g, n, out)),
{ reveal(wb_ok); }
// the nodes of the window go to their partitions' lists in one topological order
pub open spec fn lists_ordered(d: Wb, l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>) -> bool { exists|o: Seq<i32>| #[trigger] window_order(d, o) && lists_are(l, l0, pt, o, o.len() as int) }
pub proof fn q_front(q: Seq<i32>, k: int, w: i32)
    requires 0 <= k <= q.len(),
    ensures q.push(w).subrange(k, (q.len() + 1) as int) == q.subrange(k, q.len() as int).push(w), k < q.len() ==> q.subrange(k, q.len() as int).remove(0) == q.subrange(k + 1, q.len() as int) && q.subrange(k, q.len() as int)[0] == q[k],
{ assert(q.push(w).subrange(k, (q.len() + 1) as int) =~= q.subrange(k, q.len() as int).push(w)); if k < q.len() { assert(q.subrange(k, q.len() as int).remove(0) =~= q.subrange(k + 1, q.len() as int)); } }
// marks that may be missing outside the window, as long as every node an entry of the window leads to is marked
#[verifier::opaque]
pub open spec fn eff(out: Seq<bool>, vis: Seq<bool>) -> Seq<bool> { Seq::new(out.len(), |v: int| out[v] || vis[v]) }
#[verifier::opaque]
pub open spec fn kept(out: Seq<bool>, v0: Seq<bool>, vis: Seq<bool>) -> bool { vis.len() == v0.len() && forall|v: int| 0 <= v < out.len() && #[trigger] out[v] ==> vis[v] == v0[v] }
pub open spec fn wtgt(d: Wb, e: int) -> int { d.g[e] as int }
#[verifier::opaque]
pub open spec fn sees(d: Wb, v0: Seq<bool>) -> bool { forall|e: int| 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && d.out[#[trigger] wtgt(d, e)] ==> v0[wtgt(d, e)] }
#[verifier::opaque]
pub open spec fn marks_in(out: Seq<bool>, v0: Seq<bool>) -> bool { v0.len() >= out.len() && forall|v: int| 0 <= v < out.len() && #[trigger] v0[v] ==> out[v] }
#[verifier::opaque]
pub open spec fn marks_after(out: Seq<bool>, v0: Seq<bool>, vis: Seq<bool>) -> bool { vis.len() == v0.len() && forall|v: int| 0 <= v < out.len() ==> #[trigger] vis[v] == (v0[v] || !out[v]) }
pub proof fn eff_init(out: Seq<bool>, v0: Seq<bool>)
    requires marks_in(out, v0),
    ensures eff(out, v0) == out, kept(out, v0, v0),
{ reveal(eff); reveal(kept); reveal(marks_in); assert(eff(out, v0) =~= out) by { assert forall|v: int| 0 <= v < out.len() implies eff(out, v0)[v] == out[v] by { if v0[v] {} } } }
pub proof fn eff_set(d: Wb, v0: Seq<bool>, vis: Seq<bool>, x: int)
    requires kept(d.out, v0, vis), inw(d, x), d.out.len() == d.n, vis.len() >= d.n,
    ensures kept(d.out, v0, vis.update(x, true)), eff(d.out, vis.update(x, true)) == eff(d.out, vis).update(x, true),
{ reveal(eff); reveal(kept); assert(eff(d.out, vis.update(x, true)) =~= eff(d.out, vis).update(x, true)); }
pub proof fn eff_at(d: Wb, v0: Seq<bool>, vis: Seq<bool>, e: int)
    requires kept(d.out, v0, vis), sees(d, v0), 0 <= e < d.p[d.n], inw(d, wsrc(d, e)), d.out.len() == d.n, 0 <= d.g[e] < d.n,
    ensures eff(d.out, vis)[d.g[e] as int] == vis[d.g[e] as int],
{ reveal(eff); reveal(kept); reveal(sees); if d.out[wtgt(d, e)] { assert(v0[wtgt(d, e)]); } }
pub proof fn eff_done(d: Wb, v0: Seq<bool>, vis: Seq<bool>)
    requires kept(d.out, v0, vis), marks_in(d.out, v0), d.out.len() == d.n, forall|v: int| 0 <= v < d.n ==> #[trigger] eff(d.out, vis)[v],
    ensures marks_after(d.out, v0, vis),
{ reveal(eff); reveal(kept); reveal(marks_in); reveal(marks_after); assert forall|v: int| 0 <= v < d.out.len() implies #[trigger] vis[v] == (v0[v] || !d.out[v]) by { assert(eff(d.out, vis)[v]); if v0[v] {} if d.out[v] {} } }
