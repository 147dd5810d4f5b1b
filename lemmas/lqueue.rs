//@uses lset perm
// level sets built with a queue of ready nodes
pub ghost struct Lq { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub dead: Seq<bool>, pub lv: Seq<int>, pub pos: Seq<int> }
pub open spec fn vis_of(lv: Seq<int>) -> Seq<bool> { Seq::new(lv.len(), |v: int| lv[v] >= 0) }
// the queue holds exactly the nodes without a level whose only live entry is their own
#[verifier::opaque]
pub open spec fn qu(lv: Seq<int>, deg: Seq<i32>, q: Seq<i32>, n: int) -> bool {
    lv.len() == n && deg.len() == n && q.no_duplicates()
    && (forall|x: int| 0 <= x < q.len() ==> 0 <= #[trigger] q[x] < n && lv[q[x] as int] < 0 && deg[q[x] as int] == 1)
    && (forall|v: int| 0 <= v < n && lv[v] < 0 && #[trigger] deg[v] == 1 ==> q.contains(v as i32))
}
#[verifier::opaque]
pub open spec fn qtop(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>) -> bool {
    lstate(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m) && c <= m && d.n < i32::MAX && qu(d.lv, deg, q, d.n)
}
#[verifier::opaque]
pub open spec fn qcol(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>) -> bool {
    lbase(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m) && c <= lp[c] <= m && d.n < i32::MAX
    && (forall|v: int| 0 <= v < d.n ==> #[trigger] d.lv[v] <= c)
    && (forall|v: int| 0 <= v < d.n && #[trigger] d.lv[v] == c ==> lp[c] <= d.pos[v])
    && qu(d.lv, deg, q, d.n)
}
#[verifier::opaque]
pub open spec fn qkill(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>, l: int, cc: int, j: int) -> bool {
    kstate(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l, cc, j) && c <= m && d.n < i32::MAX && qu(d.lv, deg, q, d.n)
}
pub proof fn qu_len(lv: Seq<int>, deg: Seq<i32>, q: Seq<i32>, n: int)
    requires qu(lv, deg, q, n), n >= 0,
    ensures q.len() <= n,
{
    reveal(qu);
    let t = Seq::new(q.len(), |x: int| q[x] as int);
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < n by { assert(0 <= q[x] < n); }
    assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies #[trigger] t[x] != #[trigger] t[y] by { assert(q[x] != q[y]); }
    distinct_len(t, n);
}
// the queue while the ready nodes are first put into it: nodes below i
#[verifier::opaque]
pub open spec fn qfirst(deg: Seq<i32>, q: Seq<i32>, i: int) -> bool {
    q.no_duplicates() && (forall|x: int| 0 <= x < q.len() ==> 0 <= #[trigger] q[x] < i && deg[q[x] as int] == 1)
    && (forall|v: int| 0 <= v < i && #[trigger] deg[v] == 1 ==> q.contains(v as i32))
}
pub proof fn qfirst_init(deg: Seq<i32>, q: Seq<i32>)
    requires q.len() == 0,
    ensures qfirst(deg, q, 0),
{ reveal(qfirst); }
pub proof fn qfirst_step(deg: Seq<i32>, q: Seq<i32>, i: int)
    requires qfirst(deg, q, i), 0 <= i < deg.len(), i < i32::MAX,
    ensures deg[i] == 1 ==> qfirst(deg, q.push(i as i32), i + 1), deg[i] != 1 ==> qfirst(deg, q, i + 1),
{
    reveal(qfirst);
    if deg[i] == 1 {
        let r = q.push(i as i32);
        assert forall|v: int| 0 <= v < i + 1 && #[trigger] deg[v] == 1 implies r.contains(v as i32) by {
            if v == i { assert(r[q.len() as int] == i); } else { assert(q.contains(v as i32)); let x = choose|x: int| 0 <= x < q.len() && q[x] == v as i32; assert(r[x] == v as i32); }
        }
    }
}
pub proof fn q_init(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, q: Seq<i32>)
    requires gwf(d.p, d.g, d.n), diag1(d.p, d.g, d.n), lp.len() > d.n, ls.len() >= d.n, lp[0] == 0, d.lv.len() == d.n, d.pos.len() == d.n, d.dead.len() == d.p[d.n], deg.len() == d.n, d.n < i32::MAX,
        forall|v: int| 0 <= v < d.n ==> #[trigger] d.lv[v] == -1, forall|e: int| 0 <= e < d.p[d.n] ==> #[trigger] d.dead[e] == false,
        forall|v: int| 0 <= v < d.n ==> #[trigger] deg[v] == live(d.g, d.dead, d.p[d.n] as int, v), qfirst(deg, q, d.n),
    ensures qtop(d, deg, ls, lp, 0, 0, q),
{
    reveal(qtop); reveal(qu); reveal(qfirst);
    lset_init(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp);
}
pub proof fn q_begin(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>)
    requires qtop(d, deg, ls, lp, c, m, q),
    ensures qcol(d, deg, ls, lp, c, m, q), q.len() <= d.n, 0 <= c <= m, lp[c] == m, d.n < i32::MAX, lp.len() > d.n, d.n >= 0, m <= d.n, q.len() > 0 ==> m < d.n,
{
    reveal(qtop); reveal(lstate); reveal(qcol); qu_len(d.lv, deg, q, d.n); nlev_le(d.lv, d.n);
    if q.len() > 0 { reveal(qu); assert(d.lv[q[0] as int] < 0); nlev_lt(d.lv, d.n, q[0] as int); }
}
proof fn base_take(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, i: int)
    requires lbase(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m), 0 <= i < d.n < i32::MAX, d.lv[i] < 0, deg[i] == 1,
    ensures lbase(d.p, d.g, d.n, d.dead, d.lv.update(i, c), d.pos.update(i, m), deg, vis_of(d.lv.update(i, c)), ls.update(m, i as i32), lp, c, m + 1), m < d.n,
{
    let lv = d.lv; let pos = d.pos; let p = d.p; let g = d.g; let n = d.n; let dead = d.dead;
    nlev_lt(lv, n, i); deg_one(p, g, n, dead, lv, c, deg, i); place(p, g, n, lv, c, i); below_upd_all(p, g, n, lv, c, i); nlev_upd(lv, n, i, c);
    let l2 = lv.update(i, c); let p2 = pos.update(i, m); let s2 = ls.update(m, i as i32); let v2 = vis_of(l2);
    assert(dead_upto(p, g, n, dead, l2, c)) by {
        assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= l2[src(p, n, e)] < c) by { src_ex(p, n, e); }
    }
    assert(listed(s2, lp, l2, p2, n, c, m + 1));
    if c > 0 {
        assert forall|v: int| 0 <= v < n && #[trigger] l2[v] < 0 implies !preds_below(p, g, n, l2, v, c - 1) by { assert(lv[v] < 0); assert(preds_below(p, g, n, l2, v, c - 1) == preds_below(p, g, n, lv, v, c - 1)); }
        assert(unready(p, g, n, l2, c - 1));
    }
}
pub proof fn q_take(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>)
    requires qcol(d, deg, ls, lp, c, m, q), q.len() > 0,
    ensures 0 <= q[0] < d.n, ls.len() >= d.n, 0 <= m < d.n, 0 <= c < d.n, d.lv.len() == d.n, d.pos.len() == d.n,
        qcol(Lq { lv: d.lv.update(q[0] as int, c), pos: d.pos.update(q[0] as int, m), ..d }, deg, ls.update(m, q[0]), lp, c, m + 1, q.subrange(1, q.len() as int)),
{
    reveal(qcol); assert(0 <= q[0] < d.n && d.lv[q[0] as int] < 0 && deg[q[0] as int] == 1) by { reveal(qu); }
    let i = q[0] as int; base_take(d, deg, ls, lp, c, m, i);
    qu_take(d.lv, deg, q, d.n, c);
}
proof fn qu_take(lv: Seq<int>, deg: Seq<i32>, q: Seq<i32>, n: int, c: int)
    requires qu(lv, deg, q, n), q.len() > 0, c >= 0, n < i32::MAX,
    ensures qu(lv.update(q[0] as int, c), deg, q.subrange(1, q.len() as int), n),
{
    reveal(qu); let l2 = lv.update(q[0] as int, c); let r = q.subrange(1, q.len() as int); assert(0 <= q[0] < n);
    assert forall|x: int| 0 <= x < r.len() implies 0 <= #[trigger] r[x] < n && l2[r[x] as int] < 0 && deg[r[x] as int] == 1 by { assert(r[x] == q[x + 1]); assert(q[x + 1] != q[0]); }
    assert forall|v: int| 0 <= v < n && l2[v] < 0 && #[trigger] deg[v] == 1 implies r.contains(v as i32) by {
        assert(v != q[0]); assert(lv[v] < 0); assert(q.contains(v as i32)); let x = choose|x: int| 0 <= x < q.len() && q[x] == v as i32;
        if x == 0 { assert(v as i32 == q[0]); assert(v as i32 == v); }
        assert(r[x - 1] == v as i32);
    }
    assert forall|x: int, y: int| 0 <= x < r.len() && 0 <= y < r.len() && x != y implies r[x] != r[y] by { assert(q[x + 1] != q[y + 1]); }
}
pub proof fn q_level(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>)
    requires qcol(d, deg, ls, lp, c, m, q), q.len() == 0, lp[c] < m, c < d.n,
    ensures qkill(d, deg, ls, lp.update(c + 1, m as i32), c + 1, m, q, lp[c] as int, 0, 0), 0 <= m <= d.n, lp.len() > d.n,
{
    reveal(qcol); reveal(sstate); reveal(qkill);
    let vis = vis_of(d.lv);
    deg_one_all(d.p, d.g, d.n, d.dead, d.lv, c, deg);
    assert forall|v: int| 0 <= v < d.n && #[trigger] preds_below(d.p, d.g, d.n, d.lv, v, c) implies d.lv[v] >= 0 by { assert(deg[v] == 1); reveal(qu); if d.lv[v] < 0 { assert(q.contains(v as i32)); } }
    assert(sstate(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis, ls, lp, c, m, 0, d.n));
    scan_end(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis, ls, lp, c, m, 0, d.n);
}
pub proof fn q_kcol(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>, l: int)
    requires qkill(d, deg, ls, lp, c, m, q, l, 0, 0), diag_first(d.p, d.g, d.n),
    ensures lp.len() > d.n, ls.len() >= d.n, 0 <= lp[c - 1] <= l <= lp[c] <= d.n, lp[c] == m, 0 < c <= d.n, d.lv.len() == d.n, d.pos.len() == d.n, deg.len() == d.n,
        l < lp[c] ==> 0 <= ls[l] < d.n && d.lv[ls[l] as int] >= 0 && d.pos[ls[l] as int] == l && 0 <= d.p[ls[l] as int] < d.p[ls[l] + 1] <= d.p[d.n]
            && d.p.len() > d.n && qkill(d, deg, ls, lp, c, m, q, l, ls[l] as int, d.p[ls[l] as int] + 1),
{
    reveal(qkill); kill_col(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l);
    assert(0 < c <= d.n && gwf(d.p, d.g, d.n) && d.lv.len() == d.n && deg.len() == d.n && d.pos.len() == d.n) by { reveal(kstate); }
    if l < lp[c] {
        let cc = ls[l] as int;
        assert(d.p[cc] < d.p[cc + 1] && d.g[d.p[cc] as int] == cc);
        assert(d.p[0] <= d.p[cc]); assert(d.p[cc + 1] <= d.p[d.n]);
        kill_edge(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l, cc, d.p[cc] as int);
    }
}
pub open spec fn q_after(deg: Seq<i32>, q: Seq<i32>, w: i32) -> Seq<i32> { if deg[w as int] == 2 { q.push(w) } else { q } }
proof fn edge_facts(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int, cc: int, j: int)
    requires kstate(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l, cc, j), diag_first(d.p, d.g, d.n), 0 <= cc < d.n, d.p[cc] < j < d.p[cc + 1], d.lv[cc] >= 0, d.pos[cc] == l, 0 <= d.g[j] < d.n,
    ensures deg[d.g[j] as int] >= 2, d.lv[d.g[j] as int] < 0, d.g[j] != cc,
{
    let w = d.g[j] as int; let p = d.p; let g = d.g; let n = d.n;
    let k = d.p[cc] as int;
    assert(p[cc] < p[cc + 1] && g[k] == cc);
    assert(diag1(p, g, n) && degs(g, d.dead, p[n] as int, deg, n) && gwf(p, g, n)) by { reveal(kstate); }
    assert(in_col(p, cc, j)); src_is(p, n, cc, j);
    if w == cc { assert(is_diag(p, g, cc, j)); assert(is_diag(p, g, cc, k)); }
    // the node's own entry is live as well
    assert(has_diag(p, g, w)); let e = diag(p, g, w); assert(is_diag(p, g, w, e)); src_is(p, n, w, e);
    assert(!d.dead[e]) by { reveal(kstate); assert(d.dead[e] == d.dead[e]); }
    assert(!d.dead[j]) by { reveal(kstate); assert(d.dead[j] == d.dead[j]); }
    if e < j { live_two(g, d.dead, p[n] as int, e, j); } else { live_two(g, d.dead, p[n] as int, j, e); }
    assert(deg[w] >= 2);
    assert(d.lv[w] < 0) by { reveal(kstate); if d.lv[w] >= 0 { assert(d.lv[src(p, n, j)] < d.lv[w]); assert(d.lv[w] < c);
        // then the source sits in an earlier level, not in the one being removed
        assert(lp[d.lv[cc]] <= d.pos[cc] < lp[d.lv[cc] + 1]); assert(lp[d.lv[cc] + 1] <= lp[c - 1]); } }
}
pub proof fn q_kedge(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>, l: int, cc: int, j: int)
    requires qkill(d, deg, ls, lp, c, m, q, l, cc, j), diag_first(d.p, d.g, d.n), 0 <= cc < d.n, d.p[cc] < j < d.p[cc + 1], d.lv[cc] >= 0, d.pos[cc] == l,
    ensures 0 <= j < d.p[d.n] <= d.g.len(), 0 <= d.g[j] < d.n, deg.len() == d.n, deg[d.g[j] as int] >= 2, d.dead.len() == d.p[d.n],
        qkill(Lq { dead: d.dead.update(j, true), ..d }, deg.update(d.g[j] as int, (deg[d.g[j] as int] - 1) as i32), ls, lp, c, m, q_after(deg, q, d.g[j]), l, cc, j + 1),
{
    reveal(qkill);
    let w = d.g[j] as int; let p = d.p; let g = d.g; let n = d.n;
    kill_edge(p, g, n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l, cc, j);
    edge_facts(d, deg, ls, lp, c, m, l, cc, j);
    assert(d.dead.len() == p[n] && gwf(p, g, n)) by { reveal(kstate); }
    qu_dec(d.lv, deg, q, n, d.g[j]);
}
proof fn qu_dec(lv: Seq<int>, deg: Seq<i32>, q: Seq<i32>, n: int, w: i32)
    requires qu(lv, deg, q, n), 0 <= w < n, lv[w as int] < 0, deg[w as int] >= 2, n < i32::MAX,
    ensures qu(lv, deg.update(w as int, (deg[w as int] - 1) as i32), q_after(deg, q, w), n),
{
    reveal(qu); let dg = deg.update(w as int, (deg[w as int] - 1) as i32); let q2 = q_after(deg, q, w);
    assert(!q.contains(w)) by { if q.contains(w) { let x = choose|x: int| 0 <= x < q.len() && q[x] == w; assert(deg[q[x] as int] == 1); } }
    assert forall|x: int| 0 <= x < q2.len() implies 0 <= #[trigger] q2[x] < n && lv[q2[x] as int] < 0 && dg[q2[x] as int] == 1 by { if x < q.len() { assert(q2[x] == q[x]); assert(q.contains(q[x])); assert(deg[q[x] as int] == 1); } }
    assert forall|v: int| 0 <= v < n && lv[v] < 0 && #[trigger] dg[v] == 1 implies q2.contains(v as i32) by {
        if v == w { assert(q2[q.len() as int] == w); } else { assert(deg[v] == 1); assert(q.contains(v as i32)); let x = choose|x: int| 0 <= x < q.len() && q[x] == v as i32; assert(q2[x] == v as i32); }
    }
    assert forall|x: int, y: int| 0 <= x < q2.len() && 0 <= y < q2.len() && x != y implies q2[x] != q2[y] by {
        if x < q.len() && y < q.len() { assert(q[x] != q[y]); } else if x < q.len() { assert(q.contains(q[x])); } else { assert(q.contains(q[y])); }
    }
}
pub proof fn q_knext(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>, l: int, cc: int)
    requires qkill(d, deg, ls, lp, c, m, q, l, cc, d.p[cc + 1] as int), 0 <= cc < d.n, d.lv[cc] >= 0, d.pos[cc] == l, l < lp[c],
    ensures qkill(d, deg, ls, lp, c, m, q, l + 1, 0, 0),
{ reveal(qkill); kill_next(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l, cc); }
pub proof fn q_kend(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>, l: int)
    requires qkill(d, deg, ls, lp, c, m, q, l, 0, 0), l >= lp[c],
    ensures qtop(d, deg, ls, lp, c, m, q),
{ reveal(qkill); reveal(qtop); kill_end(d.p, d.g, d.n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m, l); }
pub proof fn q_done(d: Lq, deg: Seq<i32>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, q: Seq<i32>)
    requires qtop(d, deg, ls, lp, c, m, q), q.len() == 0,
    ensures 0 <= c <= d.n, lp[c] == m, m <= d.n, m == d.n <==> acyclic(d.p, d.g, d.n), m == d.n ==> level_result(d.p, d.g, d.n, lp, ls, c),
{
    reveal(qtop); let p = d.p; let g = d.g; let n = d.n;
    assert(n >= 0) by { reveal(lstate); }
    nlev_le(d.lv, n);
    assert(lbase(p, g, n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m) && lp[c] == m) by { reveal(lstate); }
    if acyclic(p, g, n) && exists|w: int| 0 <= w < n && #[trigger] d.lv[w] < 0 {
        let w = choose|w: int| 0 <= w < n && #[trigger] d.lv[w] < 0; let rk = choose|rk: Seq<int>| ranked(p, g, n, rk);
        assert forall|u: int| 0 <= u < n implies #[trigger] d.lv[u] < c by { reveal(lstate); }
        let v = progress(p, g, n, d.lv, c, rk, w); deg_one(p, g, n, d.dead, d.lv, c, deg, v); reveal(qu); assert(q.contains(v as i32));
    }
    if m == n { assert forall|v: int| 0 <= v < n implies #[trigger] d.lv[v] >= 0 by { if d.lv[v] < 0 { nlev_lt(d.lv, n, v); } } }
    if forall|v: int| 0 <= v < n ==> #[trigger] d.lv[v] >= 0 { nlev_all(d.lv, n); lset_done(p, g, n, d.dead, d.lv, d.pos, deg, vis_of(d.lv), ls, lp, c, m); }
}
