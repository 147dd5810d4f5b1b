//@uses count perm graph
// groups of nodes, listed anew in the order of their smallest member
pub ghost struct Gt { pub n: int, pub ng: int, pub gp: Seq<i32>, pub gs: Seq<i32> }
#[verifier::opaque]
pub open spec fn gt_ok(d: Gt) -> bool {
    1 <= d.n < i32::MAX && 0 <= d.ng <= d.n && d.gp.len() == d.ng + 1 && ptrs(d.gp, d.ng) && d.gp[d.ng] == d.n && (forall|g: int| 0 <= g < d.ng ==> #[trigger] d.gp[g] < d.gp[g + 1])
    && d.gs.len() == d.n && is_perm(d.gs, d.n)
}
pub open spec fn gt_min(gs: Seq<i32>, a: int, b: int, c: int) -> int
    decreases b - a
{ if b <= a { c } else { let r = gt_min(gs, a, b - 1, c); if gs[b - 1] < r { gs[b - 1] as int } else { r } } }
pub open spec fn gt_mn(d: Gt, g: int) -> int { gt_min(d.gs, d.gp[g] as int, d.gp[g + 1] as int, d.n) }
// the smallest member of the group of each listed node
#[verifier::opaque]
pub open spec fn gt_key(d: Gt) -> Seq<i32> { Seq::new(d.n as nat, |x: int| gt_mn(d, src(d.gp, d.ng, x)) as i32) }
pub proof fn gt_grp(d: Gt, g: int)
    requires gt_ok(d), 0 <= g < d.ng,
    ensures 0 <= d.gp[g] < d.gp[g + 1] <= d.n, d.gp.len() == d.ng + 1, d.gs.len() == d.n, d.n < i32::MAX, d.gp[0] == 0, d.gp[d.ng] == d.n, gt_min(d.gs, d.gp[g] as int, d.gp[g] as int, d.n) == d.n,
{ reveal(gt_ok); assert(d.gp[0] <= d.gp[g]); assert(d.gp[g + 1] <= d.gp[d.ng]); }
pub proof fn gt_node(d: Gt, x: int)
    requires gt_ok(d), 0 <= x < d.n,
    ensures d.gs.len() == d.n, 0 <= d.gs[x] < d.n,
{ reveal(gt_ok); }
proof fn gt_min_wit(d: Gt, a: int, b: int, c: int) -> (x: int)
    requires 0 <= a < b <= d.gs.len(), forall|y: int| a <= y < b ==> #[trigger] d.gs[y] < c,
    ensures a <= x < b, d.gs[x] == gt_min(d.gs, a, b, c), forall|y: int| a <= y < b ==> gt_min(d.gs, a, b, c) <= #[trigger] d.gs[y],
    decreases b - a
{
    assert(d.gs[b - 1] < c);
    if b - 1 == a { assert(gt_min(d.gs, a, a, c) == c); assert(gt_min(d.gs, a, b, c) == d.gs[a]); a }
    else { let x = gt_min_wit(d, a, b - 1, c); if d.gs[b - 1] < gt_min(d.gs, a, b - 1, c) { b - 1 } else { x } }
}
pub proof fn gt_min_is(d: Gt, g: int) -> (x: int)
    requires gt_ok(d), 0 <= g < d.ng,
    ensures d.gp[g] <= x < d.gp[g + 1], d.gs[x] == gt_mn(d, g), 0 <= gt_mn(d, g) < d.n, forall|y: int| d.gp[g] <= y < d.gp[g + 1] ==> gt_mn(d, g) <= #[trigger] d.gs[y],
{ gt_grp(d, g); reveal(gt_ok); gt_min_wit(d, d.gp[g] as int, d.gp[g + 1] as int, d.n) }
pub proof fn gt_key_at(d: Gt, g: int, x: int)
    requires gt_ok(d), 0 <= g < d.ng, d.gp[g] <= x < d.gp[g + 1],
    ensures gt_key(d).len() == d.n, gt_key(d)[x] == gt_mn(d, g), 0 <= gt_mn(d, g) < d.n, 0 <= x < d.n,
{ gt_grp(d, g); reveal(gt_key); reveal(gt_ok); src_is(d.gp, d.ng, g, x); let w = gt_min_is(d, g); }
pub proof fn gt_in(d: Gt, x: int) -> (g: int)
    requires gt_ok(d), 0 <= x < d.n,
    ensures 0 <= g < d.ng, d.gp[g] <= x < d.gp[g + 1], gt_key(d).len() == d.n, gt_key(d)[x] == gt_mn(d, g), 0 <= gt_mn(d, g) < d.n,
{ reveal(gt_ok); src_ex(d.gp, d.ng, x); let g = src(d.gp, d.ng, x); gt_key_at(d, g, x); g }
pub proof fn gt_keys(d: Gt)
    requires gt_ok(d),
    ensures gt_key(d).len() == d.n, forall|x: int| 0 <= x < d.n ==> 0 <= #[trigger] gt_key(d)[x] < d.n,
{ reveal(gt_key); reveal(gt_ok); assert forall|x: int| 0 <= x < d.n implies 0 <= #[trigger] gt_key(d)[x] < d.n by { let g = gt_in(d, x); } }
pub proof fn gt_distinct(d: Gt, g: int, h: int)
    requires gt_ok(d), 0 <= g < d.ng, 0 <= h < d.ng, gt_mn(d, g) == gt_mn(d, h),
    ensures g == h,
{
    let x = gt_min_is(d, g); let y = gt_min_is(d, h); gt_grp(d, g); gt_grp(d, h); reveal(gt_ok); assert(x == y);
    if g < h { assert(d.gp[g + 1] <= d.gp[h]); } else if h < g { assert(d.gp[h + 1] <= d.gp[g]); }
}
// ---- numbering the nodes, counting the groups
#[verifier::opaque]
pub open spec fn gt_gid(d: Gt, gid: Seq<i32>, x: int) -> bool { gid.len() == d.n && forall|y: int| 0 <= y < x ==> gid[#[trigger] d.gs[y] as int] == gt_key(d)[y] }
#[verifier::opaque]
pub open spec fn gt_sz(d: Gt, sz: Seq<i32>, x: int) -> bool { sz.len() == d.n + 1 && sz[0] == 0 && forall|v: int| 0 <= v < d.n ==> #[trigger] sz[v + 1] == cnt(gt_key(d), x, v) }
pub proof fn gt_start(d: Gt, gid: Seq<i32>, sz: Seq<i32>)
    requires gt_ok(d), gid.len() == d.n, sz.len() == d.n + 1, forall|v: int| 0 <= v < sz.len() ==> #[trigger] sz[v] == 0,
    ensures gt_gid(d, gid, 0), gt_sz(d, sz, 0), d.gp.len() == d.ng + 1, d.gp[0] == 0, d.gs.len() == d.n, 0 <= d.ng <= d.n, 1 <= d.n < i32::MAX,
{ reveal(gt_gid); reveal(gt_sz); reveal(gt_ok); }
pub proof fn gt_gid_step(d: Gt, gid: Seq<i32>, g: int, x: int)
    requires gt_ok(d), 0 <= g < d.ng, d.gp[g] <= x < d.gp[g + 1], gt_gid(d, gid, x),
    ensures gt_gid(d, gid.update(d.gs[x] as int, gt_mn(d, g) as i32), x + 1), gid.len() == d.n, 0 <= d.gs[x] < d.n, d.gs.len() == d.n, 0 <= x < d.n,
{ gt_key_at(d, g, x); reveal(gt_gid); reveal(gt_ok); }
proof fn gt_run(s: Seq<i32>, a: int, b: int, m: int, v: int)
    requires 0 <= a <= b, forall|x: int| a <= x < b ==> #[trigger] s[x] == m,
    ensures cnt(s, b, v) == cnt(s, a, v) + (if v == m { b - a } else { 0 }),
    decreases b
{ if a < b { assert(s[b - 1] == m); gt_run(s, a, b - 1, m, v); } }
// no earlier group has the same smallest member
proof fn gt_fresh(d: Gt, g: int)
    requires gt_ok(d), 0 <= g < d.ng,
    ensures cnt(gt_key(d), d.gp[g] as int, gt_mn(d, g)) == 0,
{
    assert forall|x: int| 0 <= x < d.gp[g] implies #[trigger] gt_key(d)[x] != gt_mn(d, g) by {
        gt_grp(d, g); let h = gt_in(d, x); if gt_mn(d, h) == gt_mn(d, g) { gt_distinct(d, h, g); }
    }
    cnt_none(gt_key(d), d.gp[g] as int, gt_mn(d, g));
}
// position of an entry among the entries of its key
pub proof fn gt_rank(d: Gt, g: int, x: int, v: int)
    requires gt_ok(d), 0 <= g < d.ng, d.gp[g] <= x <= d.gp[g + 1],
    ensures cnt(gt_key(d), x, v) == cnt(gt_key(d), d.gp[g] as int, v) + (if v == gt_mn(d, g) { x - d.gp[g] } else { 0 }), cnt(gt_key(d), x, gt_mn(d, g)) == x - d.gp[g],
{
    gt_grp(d, g);
    assert forall|y: int| d.gp[g] <= y < x implies #[trigger] gt_key(d)[y] == gt_mn(d, g) by { gt_key_at(d, g, y); }
    gt_run(gt_key(d), d.gp[g] as int, x, gt_mn(d, g), v); gt_run(gt_key(d), d.gp[g] as int, x, gt_mn(d, g), gt_mn(d, g)); gt_fresh(d, g);
}
pub proof fn gt_sz_step(d: Gt, sz: Seq<i32>, g: int)
    requires gt_ok(d), 0 <= g < d.ng, gt_sz(d, sz, d.gp[g] as int),
    ensures gt_sz(d, sz.update(gt_mn(d, g) + 1, (d.gp[g + 1] - d.gp[g]) as i32), d.gp[g + 1] as int), sz.len() == d.n + 1, 0 <= gt_mn(d, g) < d.n, 0 <= d.gp[g] < d.gp[g + 1] <= d.n < i32::MAX,
{
    reveal(gt_sz); gt_grp(d, g); let x = gt_min_is(d, g); let s2 = sz.update(gt_mn(d, g) + 1, (d.gp[g + 1] - d.gp[g]) as i32); let e = d.gp[g + 1] as int;
    assert forall|v: int| 0 <= v < d.n implies #[trigger] s2[v + 1] == cnt(gt_key(d), e, v) by { gt_rank(d, g, e, v); assert(sz[v + 1] == cnt(gt_key(d), d.gp[g] as int, v)); }
}
// ---- running sums
#[verifier::opaque]
pub open spec fn gt_pre(d: Gt, sz: Seq<i32>, i: int) -> bool {
    sz.len() == d.n + 1 && (forall|v: int| 0 <= v <= i && v <= d.n ==> #[trigger] sz[v] == start(gt_key(d), d.n, v)) && forall|v: int| i < v <= d.n ==> #[trigger] sz[v] == cnt(gt_key(d), d.n, v - 1)
}
pub proof fn gt_pre_init(d: Gt, gid: Seq<i32>, sz: Seq<i32>)
    requires gt_ok(d), gt_sz(d, sz, d.gp[d.ng] as int),
    ensures gt_pre(d, sz, 1),
{
    reveal(gt_sz); reveal(gt_pre); reveal(gt_ok); let k = gt_key(d);
    assert(start(k, d.n, 1) == start(k, d.n, 0) + cnt(k, d.n, 0)); assert(sz[0int + 1] == cnt(k, d.n, 0));
    assert forall|v: int| 1 < v <= d.n implies #[trigger] sz[v] == cnt(k, d.n, v - 1) by { assert(sz[(v - 1) + 1] == cnt(k, d.n, v - 1)); }
}
pub proof fn gt_pre_step(d: Gt, sz: Seq<i32>, i: int)
    requires gt_ok(d), 1 <= i < d.n, gt_pre(d, sz, i),
    ensures sz.len() == d.n + 1, 0 <= sz[i] + sz[i + 1] <= d.n < i32::MAX, sz[i] >= 0, sz[i + 1] >= 0, gt_pre(d, sz.update(i + 1, (sz[i + 1] + sz[i]) as i32), i + 1),
{
    reveal(gt_pre); let k = gt_key(d); reveal(gt_ok); start_any(k, d.n, i + 1, d.n); start_any(k, d.n, i, d.n); cnt_bounds(k, d.n, i);
    assert(start(k, d.n, i + 1) == start(k, d.n, i) + cnt(k, d.n, i)); assert(sz[i] == start(k, d.n, i)); assert(sz[i + 1] == cnt(k, d.n, i));
}
// ---- new boundaries
#[verifier::opaque]
pub open spec fn gt_ptr(d: Gt, gp2: Seq<i32>, bv: Seq<int>, i: int) -> bool {
    gp2.len() == bv.len() + 1 && gp2[0] == 0 && gp2[bv.len() as int] == start(gt_key(d), d.n, i)
    && (forall|j: int| 0 <= j < bv.len() ==> 0 <= #[trigger] bv[j] < i && gp2[j] == start(gt_key(d), d.n, bv[j]) && gp2[j + 1] == start(gt_key(d), d.n, bv[j] + 1) && cnt(gt_key(d), d.n, bv[j]) > 0)
    && (forall|j: int, k: int| 0 <= j < k < bv.len() ==> #[trigger] bv[j] < #[trigger] bv[k])
    && forall|v: int| 0 <= v < i && cnt(gt_key(d), d.n, v) > 0 ==> #[trigger] bv.contains(v)
}
pub proof fn gt_ptr_init(d: Gt, gp2: Seq<i32>)
    requires gt_ok(d), gp2.len() == 1, gp2[0] == 0,
    ensures gt_ptr(d, gp2, seq![], 0),
{ reveal(gt_ptr); }
pub proof fn gt_ptr_step(d: Gt, sz: Seq<i32>, gp2: Seq<i32>, bv: Seq<int>, i: int)
    requires gt_ok(d), gt_pre(d, sz, d.n), gt_ptr(d, gp2, bv, i), 0 <= i < d.n,
    ensures sz.len() == d.n + 1, sz[i + 1] != sz[i] ==> gt_ptr(d, gp2.push(sz[i + 1]), bv.push(i), i + 1), sz[i + 1] == sz[i] ==> gt_ptr(d, gp2, bv, i + 1),
{
    reveal(gt_pre); reveal(gt_ptr); let k = gt_key(d); reveal(gt_ok); cnt_bounds(k, d.n, i);
    assert(start(k, d.n, i + 1) == start(k, d.n, i) + cnt(k, d.n, i)); assert(sz[i] == start(k, d.n, i)); assert(sz[i + 1] == start(k, d.n, i + 1));
    if sz[i + 1] != sz[i] {
        let b2 = bv.push(i); let g2 = gp2.push(sz[i + 1]);
        assert forall|j: int| 0 <= j < b2.len() implies 0 <= #[trigger] b2[j] < i + 1 && g2[j] == start(k, d.n, b2[j]) && g2[j + 1] == start(k, d.n, b2[j] + 1) && cnt(k, d.n, b2[j]) > 0 by { if j < bv.len() { assert(bv[j] < i); } }
        assert forall|v: int| 0 <= v < i + 1 && cnt(k, d.n, v) > 0 implies #[trigger] b2.contains(v) by { if v < i { assert(bv.contains(v)); let j = bv.index_of(v); assert(b2[j] == v); } else { assert(b2[bv.len() as int] == i); } }
    } else {
        assert forall|v: int| 0 <= v < i + 1 && cnt(k, d.n, v) > 0 implies #[trigger] bv.contains(v) by { if v == i { assert(false); } }
    }
}
// ---- placing the nodes
#[verifier::opaque]
pub open spec fn gt_cur(d: Gt, sz: Seq<i32>, i: int) -> bool { sz.len() == d.n + 1 && forall|v: int| 0 <= v < d.n ==> #[trigger] sz[v] == start(gt_key(d), d.n, v) + cnt(gt_key(d), i, v) }
#[verifier::opaque]
pub open spec fn gt_put(d: Gt, u: Seq<i32>, i: int) -> bool { u.len() == d.n && forall|k: int| 0 <= k < i ==> u[#[trigger] slot(gt_key(d), d.n, k)] == d.gs[k] }
pub proof fn gt_put_init(d: Gt, sz: Seq<i32>, u: Seq<i32>)
    requires gt_ok(d), gt_pre(d, sz, d.n), u.len() == d.n,
    ensures gt_cur(d, sz, 0), gt_put(d, u, 0),
{ reveal(gt_pre); reveal(gt_cur); reveal(gt_put); }
pub proof fn gt_put_step(d: Gt, gid: Seq<i32>, sz: Seq<i32>, u: Seq<i32>, i: int)
    requires gt_ok(d), gt_gid(d, gid, d.gp[d.ng] as int), gt_cur(d, sz, i), gt_put(d, u, i), 0 <= i < d.n,
    ensures d.gs.len() == d.n, 0 <= d.gs[i] < d.n, gid.len() == d.n, sz.len() == d.n + 1, u.len() == d.n, 0 <= gid[d.gs[i] as int] < d.n, 0 <= sz[gid[d.gs[i] as int] as int] < d.n < i32::MAX,
        gt_cur(d, sz.update(gid[d.gs[i] as int] as int, (sz[gid[d.gs[i] as int] as int] + 1) as i32), i + 1), gt_put(d, u.update(sz[gid[d.gs[i] as int] as int] as int, d.gs[i]), i + 1),
{
    gt_keys(d); reveal(gt_gid); reveal(gt_cur); reveal(gt_put); reveal(gt_ok); let k = gt_key(d); let v = k[i] as int; assert(gid[d.gs[i] as int] == v); slot_in(k, d.n, i, d.n); assert(sz[v] == slot(k, d.n, i));
    let s2 = sz.update(v, (sz[v] + 1) as i32); let u2 = u.update(sz[v] as int, d.gs[i]);
    assert forall|w: int| 0 <= w < d.n implies #[trigger] s2[w] == start(k, d.n, w) + cnt(k, i + 1, w) by { assert(sz[w] == start(k, d.n, w) + cnt(k, i, w)); }
    assert forall|x: int| 0 <= x < i + 1 implies u2[#[trigger] slot(k, d.n, x)] == d.gs[x] by { slot_in(k, d.n, x, d.n); if x < i { slot_inj(k, d.n, x, i, d.n); assert(u[slot(k, d.n, x)] == d.gs[x]); } }
}
// ---- result: the same groups, each listed as before, in the order of their smallest members
pub open spec fn gt_same(d: Gt, gp2: Seq<i32>, gs2: Seq<i32>, j: int, g: int) -> bool { 0 <= g < d.ng && gp2[j + 1] - gp2[j] == d.gp[g + 1] - d.gp[g] && forall|t: int| 0 <= t < d.gp[g + 1] - d.gp[g] ==> gs2[gp2[j] + t] == #[trigger] d.gs[d.gp[g] + t] }
pub open spec fn gt_result(d: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>) -> bool {
    gp2.len() == d.ng + 1 && gp2[0] == 0 && gp2[d.ng] == d.n && gs2.len() == d.n && is_perm(gs2, d.n) && ord.len() == d.ng
    && (forall|j: int| 0 <= j < d.ng ==> gt_same(d, gp2, gs2, j, #[trigger] ord[j]))
    && forall|j: int, k: int| 0 <= j < k < d.ng ==> gt_mn(d, #[trigger] ord[j]) < gt_mn(d, #[trigger] ord[k])
}
proof fn gt_val(d: Gt, v: int) -> (g: int)
    requires gt_ok(d), cnt(gt_key(d), d.n, v) > 0,
    ensures 0 <= g < d.ng, gt_mn(d, g) == v,
{ let k = occ(gt_key(d), d.n, v, 0); gt_in(d, k) }
pub open spec fn gt_of(d: Gt, v: int) -> int { choose|g: int| 0 <= g < d.ng && gt_mn(d, g) == v }
proof fn gt_len(d: Gt, gp2: Seq<i32>, bv: Seq<int>)
    requires gt_ok(d), gt_ptr(d, gp2, bv, d.n),
    ensures bv.len() == d.ng,
{
    reveal(gt_ptr); let k = gt_key(d); reveal(gt_ok);
    let t = Seq::new(bv.len(), |j: int| gt_of(d, bv[j]));
    assert forall|j: int| 0 <= j < t.len() implies 0 <= #[trigger] t[j] < d.ng && gt_mn(d, t[j]) == bv[j] by { assert(cnt(k, d.n, bv[j]) > 0); let g = gt_val(d, bv[j]); }
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { if t[a] == t[b] { assert(bv[a] == bv[b]); if a < b { assert(bv[a] < bv[b]); } else { assert(bv[b] < bv[a]); } } } }
    distinct_len(t, d.ng);
    let u = Seq::new(d.ng as nat, |g: int| bv.index_of(gt_mn(d, g)));
    assert forall|g: int| 0 <= g < u.len() implies 0 <= #[trigger] u[g] < bv.len() && bv[u[g]] == gt_mn(d, g) by { gt_grp(d, g); let x = gt_min_is(d, g); gt_rank(d, g, d.gp[g + 1] as int, gt_mn(d, g)); cnt_mono(k, d.gp[g + 1] as int, d.n, gt_mn(d, g)); assert(bv.contains(gt_mn(d, g))); }
    assert(u.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < u.len() && a != b implies u[a] != u[b] by { if u[a] == u[b] { gt_distinct(d, a, b); } } }
    distinct_len(u, bv.len() as int);
}
pub proof fn gt_done(d: Gt, gp2: Seq<i32>, bv: Seq<int>, gs2: Seq<i32>) -> (ord: Seq<int>)
    requires gt_ok(d), gt_ptr(d, gp2, bv, d.n), gt_put(d, gs2, d.n),
    ensures gt_result(d, gp2, gs2, ord),
{
    gt_len(d, gp2, bv); gt_keys(d); reveal(gt_ptr); reveal(gt_put); let k = gt_key(d); start_le(k, d.n, d.n);
    let ord = Seq::new(bv.len(), |j: int| gt_of(d, bv[j]));
    assert forall|j: int| 0 <= j < d.ng implies 0 <= #[trigger] ord[j] < d.ng && gt_mn(d, ord[j]) == bv[j] by { assert(cnt(k, d.n, bv[j]) > 0); let g = gt_val(d, bv[j]); }
    assert forall|j: int| 0 <= j < d.ng implies gt_same(d, gp2, gs2, j, #[trigger] ord[j]) by {
        let g = ord[j]; gt_grp(d, g); let a = d.gp[g] as int; let b = d.gp[g + 1] as int; let v = bv[j];
        assert(gp2[j] == start(k, d.n, v)); assert(gp2[j + 1] == start(k, d.n, v) + cnt(k, d.n, v));
        gt_all(d, g);
        assert forall|t: int| 0 <= t < b - a implies gs2[gp2[j] + t] == #[trigger] d.gs[a + t] by { gt_key_at(d, g, a + t); gt_rank(d, g, a + t, v); assert(slot(k, d.n, a + t) == gp2[j] + t); }
    }
    assert(is_perm(gs2, d.n)) by {
        reveal(gt_ok);
        assert forall|q: int| 0 <= q < d.n implies 0 <= #[trigger] gs2[q] < d.n by { let x = slot_onto(k, d.n, q, d.n); assert(gs2[slot(k, d.n, x)] == d.gs[x]); }
        assert forall|q: int, r: int| 0 <= q < d.n && 0 <= r < d.n && q != r implies #[trigger] gs2[q] != #[trigger] gs2[r] by {
            let x = slot_onto(k, d.n, q, d.n); let y = slot_onto(k, d.n, r, d.n); assert(gs2[slot(k, d.n, x)] == d.gs[x]); assert(gs2[slot(k, d.n, y)] == d.gs[y]); assert(x != y);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < d.ng implies gt_mn(d, #[trigger] ord[i]) < gt_mn(d, #[trigger] ord[j]) by { assert(bv[i] < bv[j]); }
    ord
}
// all entries with the key of a group are the members of the group
proof fn gt_all(d: Gt, g: int)
    requires gt_ok(d), 0 <= g < d.ng,
    ensures cnt(gt_key(d), d.n, gt_mn(d, g)) == d.gp[g + 1] - d.gp[g],
{ gt_grp(d, g); gt_rank(d, g, d.gp[g + 1] as int, gt_mn(d, g)); gt_rest(d, g, d.n); }
proof fn gt_rest(d: Gt, g: int, m: int)
    requires gt_ok(d), 0 <= g < d.ng, d.gp[g + 1] <= m <= d.n,
    ensures cnt(gt_key(d), m, gt_mn(d, g)) == cnt(gt_key(d), d.gp[g + 1] as int, gt_mn(d, g)),
    decreases m
{ if m > d.gp[g + 1] { gt_grp(d, g); gt_rest(d, g, m - 1); let h = gt_in(d, m - 1); if gt_mn(d, h) == gt_mn(d, g) { gt_distinct(d, h, g); } } }
// position x of the new list lies in new group j
pub open spec fn gt_pos(gp2: Seq<i32>, j: int, x: int) -> bool { gp2[j] <= x < gp2[j + 1] }
pub proof fn gt_ptrs(d: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>)
    requires gt_ok(d), gt_result(d, gp2, gs2, ord),
    ensures ptrs(gp2, d.ng), forall|j: int| 0 <= j < d.ng ==> #[trigger] gp2[j] < gp2[j + 1],
{
    reveal(gt_ok);
    assert forall|j: int| 0 <= j < d.ng implies #[trigger] gp2[j] < gp2[j + 1] by { assert(gt_same(d, gp2, gs2, j, ord[j])); gt_grp(d, ord[j]); }
    assert forall|a: int, b: int| 0 <= a <= b <= d.ng implies #[trigger] gp2[a] <= #[trigger] gp2[b] by { gt_asc(gp2, d.ng, a, b); }
}
proof fn gt_asc(s: Seq<i32>, n: int, a: int, b: int)
    requires 0 <= a <= b <= n, forall|j: int| 0 <= j < n ==> #[trigger] s[j] < s[j + 1],
    ensures s[a] <= s[b],
    decreases b - a
{ if a < b { gt_asc(s, n, a, b - 1); assert(s[b - 1] < s[b - 1 + 1]); } }
