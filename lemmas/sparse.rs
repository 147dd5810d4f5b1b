//@uses graph
// dependence graphs in the library's layout and the removal of redundant edges
// every column holds its own node first and then nodes that come later, ascending
pub open spec fn lowdag(p: Seq<i32>, i: Seq<i32>, n: int) -> bool {
    gwf(p, i, n) && (forall|c: int| 0 <= c < n ==> #[trigger] own1(p, i, c)) && up_cols(p, i, n)
}
pub open spec fn own1(p: Seq<i32>, i: Seq<i32>, c: int) -> bool { p[c] < p[c + 1] && i[p[c] as int] == c }
pub open spec fn up_at(p: Seq<i32>, i: Seq<i32>, c: int) -> bool { forall|a: int, b: int| p[c] <= a < b < p[c + 1] ==> #[trigger] i[a] < #[trigger] i[b] }
pub open spec fn up_cols(p: Seq<i32>, i: Seq<i32>, n: int) -> bool { forall|c: int| 0 <= c < n ==> #[trigger] up_at(p, i, c) }
pub open spec fn ent(p: Seq<i32>, i: Seq<i32>, a: int, b: int, e: int) -> bool { in_col(p, a, e) && i[e] == b }
pub open spec fn edge(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int) -> bool { 0 <= a < n && exists|e: int| ent(p, i, a, b, e) }
// b depends on a directly or through other nodes
pub open spec fn reach(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int) -> bool
    decreases b - a
{ a == b || exists|m: int| a < m <= b && #[trigger] edge(p, i, n, a, m) && reach(p, i, n, m, b) }
pub open spec fn edges_kept_from(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int) -> bool { forall|a: int, b: int| #[trigger] edge(op, oi, n, a, b) ==> edge(p, i, n, a, b) }
pub open spec fn reach_kept(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int) -> bool { forall|a: int, b: int| #[trigger] reach(p, i, n, a, b) ==> reach(op, oi, n, a, b) }
pub open spec fn edge_reach(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int) -> bool { forall|a: int, b: int| #[trigger] edge(p, i, n, a, b) ==> reach(op, oi, n, a, b) }
pub open spec fn sparsified(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int) -> bool {
    op.len() == n + 1 && oi.len() == op[n] && lowdag(op, oi, n) && edges_kept_from(p, i, op, oi, n) && reach_kept(p, i, op, oi, n)
}
pub proof fn edge_at(p: Seq<i32>, i: Seq<i32>, n: int, a: int, e: int)
    requires 0 <= a < n, in_col(p, a, e),
    ensures edge(p, i, n, a, i[e] as int),
{ assert(ent(p, i, a, i[e] as int, e)); }
pub proof fn reach_edge(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int)
    requires edge(p, i, n, a, b), a <= b,
    ensures reach(p, i, n, a, b),
{ assert(reach(p, i, n, b, b)); }
pub proof fn reach_trans(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int, c: int)
    requires reach(p, i, n, a, b), reach(p, i, n, b, c), a <= b <= c,
    ensures reach(p, i, n, a, c),
    decreases b - a
{
    if a != b {
        let m = choose|m: int| a < m <= b && #[trigger] edge(p, i, n, a, m) && reach(p, i, n, m, b);
        reach_trans(p, i, n, m, b, c);
    }
}
pub proof fn reach_up(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int, a: int, b: int)
    requires edge_reach(p, i, op, oi, n), reach(p, i, n, a, b), a <= b,
    ensures reach(op, oi, n, a, b),
    decreases b - a
{
    if a != b {
        let m = choose|m: int| a < m <= b && #[trigger] edge(p, i, n, a, m) && reach(p, i, n, m, b);
        reach_up(p, i, op, oi, n, m, b);
        reach_trans(op, oi, n, a, m, b);
    }
}
pub proof fn reach_le(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int)
    requires reach(p, i, n, a, b),
    ensures a <= b,
{ }
pub proof fn edge_le(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int)
    requires lowdag(p, i, n), edge(p, i, n, a, b),
    ensures a <= b < n,
{
    let e = choose|e: int| ent(p, i, a, b, e);
    assert(up_at(p, i, a)); assert(own1(p, i, a)); assert(p[0] <= p[a] && p[a + 1] <= p[n]);
}
pub proof fn kept_all(p: Seq<i32>, i: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int)
    requires edge_reach(p, i, op, oi, n),
    ensures reach_kept(p, i, op, oi, n),
{ assert forall|a: int, b: int| #[trigger] reach(p, i, n, a, b) implies reach(op, oi, n, a, b) by { reach_le(p, i, n, a, b); reach_up(p, i, op, oi, n, a, b); } }
// ---- two-hop removal
pub open spec fn two_hop(p: Seq<i32>, i: Seq<i32>, n: int, a: int, k: int, b: int) -> bool { a < k < b && edge(p, i, n, a, k) && edge(p, i, n, k, b) }
pub open spec fn has_hop(p: Seq<i32>, i: Seq<i32>, n: int, a: int, b: int) -> bool { exists|k: int| two_hop(p, i, n, a, k, b) }
pub open spec fn del_ok(p: Seq<i32>, i: Seq<i32>, n: int, del: Seq<i32>) -> bool {
    del.len() >= p[n] && forall|c: int, e: int| 0 <= c < n && #[trigger] in_col(p, c, e) && del[e] != 0 ==> has_hop(p, i, n, c, i[e] as int)
}
pub proof fn del_init(p: Seq<i32>, i: Seq<i32>, n: int, del: Seq<i32>)
    requires lowdag(p, i, n), del.len() >= p[n], forall|e: int| 0 <= e < del.len() ==> del[e] == 0,
    ensures del_ok(p, i, n, del),
{ assert forall|c: int, e: int| 0 <= c < n && #[trigger] in_col(p, c, e) && del[e] != 0 implies has_hop(p, i, n, c, i[e] as int) by { assert(p[0] <= p[c] && p[c + 1] <= p[n]); } }
// marking entry e of column c, which holds the same node as entry f of its child k
pub proof fn del_step(p: Seq<i32>, i: Seq<i32>, n: int, del: Seq<i32>, d2: Seq<i32>, c: int, e: int, kp: int, f: int)
    requires lowdag(p, i, n), del_ok(p, i, n, del), 0 <= c < n, p[c] < kp < p[c + 1], in_col(p, c, e), e < del.len(), p[i[kp] as int] < f < p[i[kp] + 1], i[f] == i[e], d2 == del.update(e, 1i32),
    ensures del_ok(p, i, n, d2),
{
    let k = i[kp] as int;
    assert(p[0] <= p[c] && p[c + 1] <= p[n]);
    assert(0 <= k < n);
    assert(up_at(p, i, c)); assert(up_at(p, i, k)); assert(own1(p, i, c) && own1(p, i, k));
    assert(c < k); assert(k < i[f]);
    assert(in_col(p, c, kp)); assert(in_col(p, k, f));
    edge_at(p, i, n, c, kp); edge_at(p, i, n, k, f);
    assert(two_hop(p, i, n, c, k, i[e] as int));
    assert forall|c2: int, e2: int| 0 <= c2 < n && #[trigger] in_col(p, c2, e2) && d2[e2] != 0 implies has_hop(p, i, n, c2, i[e2] as int) by {
        assert(p[0] <= p[c2] && p[c2 + 1] <= p[n]);
        if e2 == e {
            if c2 < c { assert(p[c2 + 1] <= p[c]); } else if c2 > c { assert(p[c + 1] <= p[c2]); }
            assert(c2 == c);
        } else { assert(del[e2] != 0); }
    }
}
// ---- the entries that stay, in order
pub open spec fn kept(del: Seq<i32>, e: int) -> int
    decreases e
{ if e <= 0 { 0 } else { kept(del, e - 1) + if del[e - 1] == 0 { 1int } else { 0 } } }
pub open spec fn keeps(i: Seq<i32>, del: Seq<i32>, e: int) -> Seq<i32>
    decreases e
{ if e <= 0 { seq![] } else if del[e - 1] == 0 { keeps(i, del, e - 1).push(i[e - 1]) } else { keeps(i, del, e - 1) } }
pub proof fn keeps_len(i: Seq<i32>, del: Seq<i32>, e: int)
    ensures keeps(i, del, e).len() == kept(del, e), 0 <= kept(del, e), e >= 0 ==> kept(del, e) <= e,
    decreases e
{ if e > 0 { keeps_len(i, del, e - 1); } }
pub proof fn kept_mono(del: Seq<i32>, a: int, b: int)
    requires 0 <= a <= b,
    ensures kept(del, a) <= kept(del, b), kept(del, b) - kept(del, a) <= b - a,
    decreases b - a
{ if a < b { kept_mono(del, a, b - 1); } }
pub proof fn keeps_at(i: Seq<i32>, del: Seq<i32>, e: int, x: int)
    requires 0 <= x < e, del[x] == 0,
    ensures 0 <= kept(del, x) < kept(del, e), keeps(i, del, e)[kept(del, x)] == i[x],
    decreases e
{
    keeps_len(i, del, e - 1); keeps_len(i, del, x); keeps_len(i, del, e);
    if x < e - 1 { keeps_at(i, del, e - 1, x); }
}
pub open spec fn from(del: Seq<i32>, x: int, pos: int) -> bool { del[x] == 0 && kept(del, x) == pos }
pub proof fn keeps_from(i: Seq<i32>, del: Seq<i32>, a: int, b: int, pos: int) -> (x: int)
    requires 0 <= a <= b, kept(del, a) <= pos < kept(del, b),
    ensures a <= x < b, from(del, x, pos),
    decreases b - a
{
    if a == b { 0 } else if del[b - 1] == 0 && kept(del, b - 1) == pos { b - 1 } else { keeps_from(i, del, a, b - 1, pos) }
}
pub proof fn sparse_done(p: Seq<i32>, i: Seq<i32>, n: int, del: Seq<i32>, op: Seq<i32>, oi: Seq<i32>)
    requires lowdag(p, i, n), p[0] == 0, n >= 0, del_ok(p, i, n, del), op.len() == n + 1, oi == keeps(i, del, p[n] as int), forall|c: int| 0 <= c <= n ==> #[trigger] op[c] == kept(del, p[c] as int),
    ensures sparsified(p, i, op, oi, n),
{
    keeps_len(i, del, p[n] as int);
    assert forall|a: int, b: int| 0 <= a <= b <= n implies #[trigger] op[a] <= #[trigger] op[b] by { assert(0 <= p[0] <= p[a] && p[a] <= p[b]); kept_mono(del, p[a] as int, p[b] as int); }
    assert forall|pos: int| 0 <= pos < oi.len() implies 0 <= #[trigger] oi[pos] < n by {
        let x = keeps_from(i, del, 0, p[n] as int, pos); keeps_at(i, del, p[n] as int, x);
    }
    assert(gwf(op, oi, n)) by { assert(op[0] == 0) by { assert(p[0] == 0); } }
    assert forall|c: int| 0 <= c < n implies #[trigger] own1(op, oi, c) by {
        let e = p[c] as int;
        assert(own1(p, i, c)); assert(p[c + 1] <= p[n] && p[0] <= p[c]);
        assert(op[c + 1] == kept(del, p[c + 1] as int));
        assert(in_col(p, c, e));
        if del[e] != 0 { assert(has_hop(p, i, n, c, c)); let k = choose|k: int| two_hop(p, i, n, c, k, c); assert(false); }
        keeps_at(i, del, p[n] as int, e); keeps_at(i, del, p[c + 1] as int, e);
    }
    assert forall|c: int| 0 <= c < n implies #[trigger] up_at(op, oi, c) by {
        assert(up_at(p, i, c));
        assert(p[c] <= p[c + 1] && p[c + 1] <= p[n] && p[0] <= p[c]);
        assert(op[c + 1] == kept(del, p[c + 1] as int)); assert(op[c] == kept(del, p[c] as int));
        assert forall|a: int, b: int| op[c] <= a < b < op[c + 1] implies #[trigger] oi[a] < #[trigger] oi[b] by {
            let x = keeps_from(i, del, p[c] as int, p[c + 1] as int, a); let y = keeps_from(i, del, p[c] as int, p[c + 1] as int, b);
            if y <= x { kept_mono(del, y, x); }
            keeps_at(i, del, p[n] as int, x); keeps_at(i, del, p[n] as int, y);
        }
    }
    assert forall|a: int, b: int| #[trigger] edge(op, oi, n, a, b) implies edge(p, i, n, a, b) by {
        let e = choose|e: int| ent(op, oi, a, b, e);
        assert(op[a + 1] == kept(del, p[a + 1] as int)); assert(op[a] == kept(del, p[a] as int));
        assert(p[a] <= p[a + 1] && p[a + 1] <= p[n] && p[0] <= p[a]);
        let x = keeps_from(i, del, p[a] as int, p[a + 1] as int, e);
        keeps_at(i, del, p[n] as int, x);
        assert(in_col(p, a, x));
        edge_at(p, i, n, a, x);
    }
    assert forall|a: int, b: int| #[trigger] edge(p, i, n, a, b) implies reach(op, oi, n, a, b) by { edge_le(p, i, n, a, b); hop_reach(p, i, n, del, op, oi, a, b); }
    kept_all(p, i, op, oi, n);
}
proof fn hop_reach(p: Seq<i32>, i: Seq<i32>, n: int, del: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, a: int, b: int)
    requires lowdag(p, i, n), p[0] == 0, del_ok(p, i, n, del), op.len() == n + 1, oi == keeps(i, del, p[n] as int), forall|c: int| 0 <= c <= n ==> #[trigger] op[c] == kept(del, p[c] as int), edge(p, i, n, a, b), a <= b,
    ensures reach(op, oi, n, a, b),
    decreases b - a
{
    let e = choose|e: int| ent(p, i, a, b, e);
    assert(p[a] <= p[a + 1] && p[a + 1] <= p[n] && p[0] <= p[a]);
    if del[e] == 0 {
        keeps_at(i, del, p[n] as int, e); keeps_at(i, del, p[a + 1] as int, e); kept_mono(del, p[a] as int, e);
        assert(op[a + 1] == kept(del, p[a + 1] as int)); assert(op[a] == kept(del, p[a] as int));
        assert(in_col(op, a, kept(del, e)));
        edge_at(op, oi, n, a, kept(del, e));
        reach_edge(op, oi, n, a, b);
    } else {
        assert(in_col(p, a, e)); assert(has_hop(p, i, n, a, b));
        let k = choose|k: int| two_hop(p, i, n, a, k, b);
        hop_reach(p, i, n, del, op, oi, a, k); hop_reach(p, i, n, del, op, oi, k, b);
        reach_trans(op, oi, n, a, k, b);
    }
}
// ---- cliques: runs of columns whose patterns are suffixes of the first one's
pub open spec fn clq_at(p: Seq<i32>, i: Seq<i32>, s: int, l: int) -> bool {
    p[s + 1] - p[s] - (l - s) == p[l + 1] - p[l] && forall|x: int| p[l] <= x < p[l + 1] ==> #[trigger] i[x] == i[p[s] + (l - s) + (x - p[l])]
}
pub open spec fn clq(p: Seq<i32>, i: Seq<i32>, s: int, e: int) -> bool { forall|l: int| s <= l < e ==> #[trigger] clq_at(p, i, s, l) }
pub proof fn clq_next(p: Seq<i32>, i: Seq<i32>, n: int, s: int, e: int, d: int)
    requires lowdag(p, i, n), 0 <= s <= d, d + 1 < e <= n, clq(p, i, s, e),
    ensures p[d + 1] - p[d] >= 2, i[p[d] + 1] == d + 1,
{
    assert(clq_at(p, i, s, d)); assert(clq_at(p, i, s, d + 1));
    assert(own1(p, i, d + 1));
    let x = p[d + 1] as int; let y = p[d] + 1;
    assert(i[x] == i[p[s] + (d + 1 - s) + (x - p[d + 1])]);
    assert(i[y] == i[p[s] + (d - s) + (y - p[d])]);
}
pub open spec fn clq1(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, x: int) -> bool { cp[x] < cp[x + 1] && clq(p, i, cp[x] as int, cp[x + 1] as int) }
pub open spec fn clq_parts(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>) -> bool {
    cp.len() >= 1 && cp[0] == 0 && forall|x: int| 0 <= x < cp.len() - 1 ==> #[trigger] clq1(p, i, cp, x)
}
pub open spec fn of_clq(cp: Seq<i32>, nc: Seq<i32>, d: int) -> bool { 0 <= nc[d] < cp.len() - 1 && cp[nc[d] as int] <= d < cp[nc[d] + 1] }
pub open spec fn ends(cp: Seq<i32>, nc: Seq<i32>, d: int) -> bool { d + 1 == cp[nc[d] + 1] }
pub open spec fn qcol(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, d: int) -> Seq<i32> {
    if ends(cp, nc, d) { i.subrange(p[d] as int, p[d + 1] as int) } else { seq![d as i32, (d + 1) as i32] }
}
pub open spec fn qflat(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, c: int) -> Seq<i32>
    decreases c
{ if c <= 0 { seq![] } else { qflat(p, i, cp, nc, c - 1) + qcol(p, i, cp, nc, c - 1) } }
pub open spec fn cl_ok(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int) -> bool {
    lowdag(p, i, n) && p[0] == 0 && n < i32::MAX && clq_parts(p, i, cp) && cp[cp.len() - 1] == n && nc.len() == n && forall|d: int| 0 <= d < n ==> #[trigger] of_clq(cp, nc, d)
}
pub proof fn cp_mono(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, a: int, b: int)
    requires 0 <= a <= b < cp.len(), clq_parts(p, i, cp),
    ensures cp[a] <= cp[b], a < b ==> cp[a] < cp[b],
    decreases b - a
{ if a < b { assert(clq1(p, i, cp, b - 1)); cp_mono(p, i, cp, a, b - 1); } }
pub proof fn cl_len(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, c: int)
    requires cl_ok(p, i, cp, nc, n), 0 <= c <= n,
    ensures qflat(p, i, cp, nc, c).len() <= p[c],
        c < n ==> qcol(p, i, cp, nc, c).len() <= p[c + 1] - p[c] && qcol(p, i, cp, nc, c).len() >= 1,
    decreases c
{
    if c < n {
        assert(of_clq(cp, nc, c)); assert(own1(p, i, c)); assert(p[0] <= p[c] && p[c + 1] <= p[n]);
        let x = nc[c] as int;
        assert(clq1(p, i, cp, x));
        cp_mono(p, i, cp, x + 1, cp.len() - 1); cp_mono(p, i, cp, 0, x);
        if !ends(cp, nc, c) { clq_next(p, i, n, cp[x] as int, cp[x + 1] as int, c); }
    }
    if c > 0 { cl_len(p, i, cp, nc, n, c - 1); }
}
pub proof fn qflat_at(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, c: int, d: int)
    requires 0 <= d < c,
    ensures qflat(p, i, cp, nc, d + 1).len() == qflat(p, i, cp, nc, d).len() + qcol(p, i, cp, nc, d).len(),
        qflat(p, i, cp, nc, d + 1).len() <= qflat(p, i, cp, nc, c).len(),
        forall|x: int| qflat(p, i, cp, nc, d).len() <= x < qflat(p, i, cp, nc, d + 1).len() ==> #[trigger] qflat(p, i, cp, nc, c)[x] == qcol(p, i, cp, nc, d)[x - qflat(p, i, cp, nc, d).len()],
    decreases c
{
    if d < c - 1 { qflat_at(p, i, cp, nc, c - 1, d); }
}
proof fn chain(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, qp: Seq<i32>, qs: Seq<i32>, d: int, m: int)
    requires cl_ok(p, i, cp, nc, n), 0 <= d <= m < n, nc[d] == nc[m], qs == qflat(p, i, cp, nc, n), forall|c: int| 0 <= c <= n ==> #[trigger] qp[c] == qflat(p, i, cp, nc, c).len(),
    ensures reach(qp, qs, n, d, m),
    decreases m - d
{
    if d < m {
        assert(of_clq(cp, nc, d)); assert(of_clq(cp, nc, m)); assert(of_clq(cp, nc, d + 1));
        let x = nc[d] as int;
        let y = nc[d + 1] as int;
        if y < x { cp_mono(p, i, cp, y + 1, x); } else if y > x { cp_mono(p, i, cp, x + 1, y); }
        assert(x == y);
        assert(!ends(cp, nc, d));
        qflat_at(p, i, cp, nc, n, d);
        assert(qp[d] == qflat(p, i, cp, nc, d).len()); assert(qp[d + 1] == qflat(p, i, cp, nc, d + 1).len());
        let e = qp[d] + 1;
        assert(qs[e] == d + 1);
        assert(in_col(qp, d, e));
        edge_at(qp, qs, n, d, e);
        chain(p, i, cp, nc, n, qp, qs, d + 1, m);
    }
}
pub proof fn clique_done(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, qp: Seq<i32>, qs: Seq<i32>)
    requires cl_ok(p, i, cp, nc, n), n >= 0, qp.len() == n + 1, qs == qflat(p, i, cp, nc, n), forall|c: int| 0 <= c <= n ==> #[trigger] qp[c] == qflat(p, i, cp, nc, c).len(),
    ensures lowdag(qp, qs, n), qp[0] == 0, qp[n] == qs.len(), edges_kept_from(p, i, qp, qs, n), reach_kept(p, i, qp, qs, n),
{
    assert forall|a: int, b: int| 0 <= a <= b <= n implies #[trigger] qp[a] <= #[trigger] qp[b] by { if a < b { qflat_at(p, i, cp, nc, b, a); } }
    assert forall|c: int| 0 <= c < n implies #[trigger] own1(qp, qs, c) && up_at(qp, qs, c) by {
        cl_len(p, i, cp, nc, n, c); qflat_at(p, i, cp, nc, n, c);
        assert(own1(p, i, c)); assert(p[0] <= p[c] && p[c + 1] <= p[n]); 
        assert(qp[c] == qflat(p, i, cp, nc, c).len()); assert(qp[c + 1] == qflat(p, i, cp, nc, c + 1).len());
        assert(up_at(p, i, c));
        assert(qs[qp[c] as int] == qcol(p, i, cp, nc, c)[0]);
        assert forall|a: int, b: int| qp[c] <= a < b < qp[c + 1] implies #[trigger] qs[a] < #[trigger] qs[b] by {
            assert(qs[a] == qcol(p, i, cp, nc, c)[a - qp[c]]); assert(qs[b] == qcol(p, i, cp, nc, c)[b - qp[c]]);
            if ends(cp, nc, c) { assert(i[p[c] + (a - qp[c])] < i[p[c] + (b - qp[c])]); }
        }
    }
    assert forall|x: int| 0 <= x < qs.len() implies 0 <= #[trigger] qs[x] < n by { qrange(p, i, cp, nc, n, n, x); }
    assert(gwf(qp, qs, n));
    assert(up_cols(qp, qs, n)) by { assert forall|c: int| 0 <= c < n implies #[trigger] up_at(qp, qs, c) by { assert(own1(qp, qs, c)); } }
    assert forall|a: int, b: int| #[trigger] edge(qp, qs, n, a, b) implies edge(p, i, n, a, b) by {
        let e = choose|e: int| ent(qp, qs, a, b, e);
        cl_len(p, i, cp, nc, n, a); qflat_at(p, i, cp, nc, n, a);
        assert(of_clq(cp, nc, a)); assert(own1(p, i, a)); assert(p[0] <= p[a] && p[a + 1] <= p[n]);
        assert(qp[a] == qflat(p, i, cp, nc, a).len()); assert(qp[a + 1] == qflat(p, i, cp, nc, a + 1).len());
        let f = p[a] + (e - qp[a]);
        assert(qs[e] == qcol(p, i, cp, nc, a)[e - qp[a]]);
        if !ends(cp, nc, a) {
            let x = nc[a] as int;
            assert(clq1(p, i, cp, x));
            cp_mono(p, i, cp, x + 1, cp.len() - 1); cp_mono(p, i, cp, 0, x);
            clq_next(p, i, n, cp[x] as int, cp[x + 1] as int, a);
            
        }
        assert(i[f] == b);
        assert(in_col(p, a, f));
        edge_at(p, i, n, a, f);
    }
    assert forall|a: int, b: int| #[trigger] edge(p, i, n, a, b) implies reach(qp, qs, n, a, b) by {
        let e = choose|e: int| ent(p, i, a, b, e);
        edge_le(p, i, n, a, b);
        assert(of_clq(cp, nc, a));
        let x = nc[a] as int;
        let s = cp[x] as int;
        assert(clq1(p, i, cp, x));
        let l = cp[x + 1] - 1;
        cp_mono(p, i, cp, x + 1, cp.len() - 1); cp_mono(p, i, cp, 0, x);
        assert(of_clq(cp, nc, l));
        let y = nc[l] as int;
        if y < x { cp_mono(p, i, cp, y + 1, x); } else if y > x { cp_mono(p, i, cp, x + 1, y); }
        assert(clq(p, i, s, l + 1));
        assert(clq_at(p, i, s, a)); assert(clq_at(p, i, s, l));
        let o = e - p[a];
        assert(i[e] == i[p[s] + (a - s) + (e - p[a])]);
        chain(p, i, cp, nc, n, qp, qs, a, l);
        if o <= l - a {
            let d = a + o;
            assert(clq_at(p, i, s, d));
            assert(own1(p, i, d));
            assert(i[p[d] as int] == i[p[s] + (d - s) + (p[d] - p[d])]);
            assert(b == d);
            assert(of_clq(cp, nc, d));
            let z = nc[d] as int;
            if z < x { cp_mono(p, i, cp, z + 1, x); } else if z > x { cp_mono(p, i, cp, x + 1, z); }
            chain(p, i, cp, nc, n, qp, qs, a, d);
        } else {
            let f = p[l] + (o - (l - a));
            assert(p[l] <= f < p[l + 1]);
            assert(i[f] == i[p[s] + (l - s) + (f - p[l])]);
            assert(i[f] == b);
            assert(ends(cp, nc, l));
            qflat_at(p, i, cp, nc, n, l);
            assert(qp[l] == qflat(p, i, cp, nc, l).len()); assert(qp[l + 1] == qflat(p, i, cp, nc, l + 1).len());
            assert(p[0] <= p[l] && p[l + 1] <= p[n]);
            let g = qp[l] + (f - p[l]);
            assert(qs[g] == qcol(p, i, cp, nc, l)[g - qp[l]]);
            assert(in_col(qp, l, g));
            edge_at(qp, qs, n, l, g);
            assert(up_at(p, i, l));
            assert(own1(p, i, l));
            reach_edge(qp, qs, n, l, b);
            reach_trans(qp, qs, n, a, l, b);
        }
    }
    kept_all(p, i, qp, qs, n);
}
proof fn qrange(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, c: int, x: int)
    requires cl_ok(p, i, cp, nc, n), 0 <= c <= n, 0 <= x < qflat(p, i, cp, nc, c).len(),
    ensures 0 <= qflat(p, i, cp, nc, c)[x] < n,
    decreases c
{
    let d = c - 1;
    if x < qflat(p, i, cp, nc, d).len() { qrange(p, i, cp, nc, n, d, x); }
    else {
        assert(of_clq(cp, nc, d));
        let y = nc[d] as int;
        assert(clq1(p, i, cp, y));
        cp_mono(p, i, cp, y + 1, cp.len() - 1);
        assert(own1(p, i, d)); assert(p[0] <= p[d] && p[d + 1] <= p[n]);
        if ends(cp, nc, d) { assert(i[p[d] + (x - qflat(p, i, cp, nc, d).len())] < n); }
    }
}
pub proof fn sparsified_via(p: Seq<i32>, i: Seq<i32>, qp: Seq<i32>, qs: Seq<i32>, op: Seq<i32>, oi: Seq<i32>, n: int)
    requires edges_kept_from(p, i, qp, qs, n), reach_kept(p, i, qp, qs, n), sparsified(qp, qs, op, oi, n),
    ensures sparsified(p, i, op, oi, n),
{
    assert forall|a: int, b: int| #[trigger] reach(p, i, n, a, b) implies reach(op, oi, n, a, b) by { assert(reach(qp, qs, n, a, b)); }
}
pub proof fn cl_is(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, x: int, d: int)
    requires cl_ok(p, i, cp, nc, n), 0 <= x < cp.len() - 1, cp[x] <= d < cp[x + 1],
    ensures 0 <= d < n, nc[d] == x, cp[x + 1] <= n, 0 <= cp[x],
{
    cp_mono(p, i, cp, x + 1, cp.len() - 1); cp_mono(p, i, cp, 0, x);
    assert(of_clq(cp, nc, d));
    let y = nc[d] as int;
    if y < x { cp_mono(p, i, cp, y + 1, x); } else if y > x { cp_mono(p, i, cp, x + 1, y); }
}
pub proof fn cl_step(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, n: int, r: int)
    requires cl_ok(p, i, cp, nc, n), 0 <= r < n,
    ensures 0 <= nc[r] < cp.len() - 1, r == 0 ==> nc[r] == 0, r > 0 ==> nc[r] == nc[r - 1] || (nc[r] == nc[r - 1] + 1 && cp[nc[r] as int] == r),
        r == n - 1 ==> nc[r] == cp.len() - 2,
{
    assert(of_clq(cp, nc, r));
    let x = nc[r] as int;
    assert(clq1(p, i, cp, x));
    cp_mono(p, i, cp, x + 1, cp.len() - 1);
    if r == n - 1 && x + 1 < cp.len() - 1 { cp_mono(p, i, cp, x + 1, cp.len() - 1); }
    if r == 0 { cp_mono(p, i, cp, 0, x); }
    else {
        assert(of_clq(cp, nc, r - 1));
        let b = nc[r - 1] as int;
        if x < b { cp_mono(p, i, cp, x + 1, b); }
        if x > b { cp_mono(p, i, cp, b + 1, x); }
        if x > b + 1 { cp_mono(p, i, cp, b + 1, x); }
    }
}
pub proof fn cl_count(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, x: int)
    requires clq_parts(p, i, cp), 0 <= x < cp.len(),
    ensures x <= cp[x],
    decreases x
{ if x > 0 { cl_count(p, i, cp, x - 1); assert(clq1(p, i, cp, x - 1)); } }
pub proof fn clq_one(p: Seq<i32>, i: Seq<i32>, s: int)
    ensures clq(p, i, s, s + 1),
{ assert(clq_at(p, i, s, s)); }
pub proof fn qflat_next(p: Seq<i32>, i: Seq<i32>, cp: Seq<i32>, nc: Seq<i32>, c: int)
    requires c >= 0,
    ensures qflat(p, i, cp, nc, c + 1) == qflat(p, i, cp, nc, c) + qcol(p, i, cp, nc, c),
{ }
