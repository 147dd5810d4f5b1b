//@uses chains transp csc
// subtrees of nodes that have a single dependence: the graph and its transpose (row w lists the nodes that w waits for, then w itself)
pub ghost struct Tg { pub c: Ch, pub tp: Seq<i32>, pub ti: Seq<i32> }
pub open spec fn tg_in(d: Tg, w: int, q: int) -> bool { 0 <= w < d.c.n && d.tp[w] <= q < d.tp[w + 1] - 1 }
pub open spec fn tg_from(d: Tg, w: int, q: int) -> bool { exists|e: int| #[trigger] ch_edge(d.c.p, d.c.n, d.ti[q] as int, e) && d.c.s[e] == w }
pub open spec fn tg_has(d: Tg, u: int, w: int) -> bool { exists|q: int| #[trigger] tg_in(d, w, q) && d.ti[q] == u }
#[verifier::opaque]
pub open spec fn tg_ok(d: Tg) -> bool {
    ch_ok(d.c) && ptrs(d.tp, d.c.n) && d.tp[d.c.n] == d.c.p[d.c.n] && d.ti.len() >= d.c.p[d.c.n]
    && (forall|w: int, q: int| #[trigger] tg_in(d, w, q) ==> tg_from(d, w, q))
    && (forall|u: int, e: int| #[trigger] ch_edge(d.c.p, d.c.n, u, e) ==> tg_has(d, u, d.c.s[e] as int))
}
proof fn tg_last(c: Ch, tp: Seq<i32>, ti: Seq<i32>, w: int)
    requires ch_ok(c), is_transpose(c.p, c.s, c.n, tp, ti, c.n), 0 <= w < c.n,
    ensures tp[w] <= slot(c.s, c.p[c.n] as int, c.p[w] as int), slot(c.s, c.p[c.n] as int, c.p[w] as int) == tp[w + 1] - 1,
{
    let ne = c.p[c.n] as int; ch_col(c, w); ch_n(c); let e0 = c.p[w] as int; slot_in(c.s, ne, e0, c.n); let q0 = slot(c.s, ne, e0);
    assert(tp[w] == start(c.s, ne, w)); assert(tp[w + 1] == start(c.s, ne, w + 1)); assert(in_col(c.p, w, e0)); src_is(c.p, c.n, w, e0); assert(ti[q0] == w);
    let q1 = tp[w + 1] - 1; assert(tr_from(c.p, c.s, c.n, ti, w, q1)); let e = choose|e: int| 0 <= e < c.p[c.n] && c.s[e] == w && #[trigger] slot(c.s, c.p[c.n] as int, e) == q1 && ti[q1] == src(c.p, c.n, e);
    src_ex(c.p, c.n, e); let u = src(c.p, c.n, e); assert(sorted_in(tp, ti, w)); assert(ti[q0] <= ti[q1]); ch_col(c, u);
    if e != c.p[u] { assert(ch_edge(c.p, c.n, u, e)); ch_e(c, u, e); }
}
pub proof fn tg_start(c: Ch, tp0: Seq<i32>, ti0: Seq<i32>)
    requires ch_ok(c), is_transpose(c.p, c.s, c.n, tp0, ti0, c.n),
    ensures tp0.len() > c.n, ti0.len() >= c.p[c.n], 0 <= c.p[c.n] < i32::MAX, 1 <= c.n < i32::MAX, tg_ok(Tg { c: c, tp: tp0.subrange(0, c.n + 1), ti: ti0.subrange(0, c.p[c.n] as int) }),
{
    ch_n(c); let ne = c.p[c.n] as int; let tp = tp0.subrange(0, c.n + 1); let ti = ti0.subrange(0, ne); let d = Tg { c: c, tp: tp, ti: ti };
    assert forall|w: int, q: int| #[trigger] tg_in(d, w, q) implies tg_from(d, w, q) by {
        assert(tp0[w + 1] <= tp0[c.n]); assert(tp0[0] <= tp0[w]); assert(tr_from(c.p, c.s, c.n, ti0, w, q)); let e = choose|e: int| 0 <= e < c.p[c.n] && c.s[e] == w && #[trigger] slot(c.s, c.p[c.n] as int, e) == q && ti0[q] == src(c.p, c.n, e);
        src_ex(c.p, c.n, e); let u = src(c.p, c.n, e); ch_col(c, u);
        if e == c.p[u] { tg_last(c, tp0, ti0, w); assert(false); }
        assert(ch_edge(c.p, c.n, u, e)); assert(d.ti[q] == u);
    }
    assert forall|u: int, e: int| #[trigger] ch_edge(c.p, c.n, u, e) implies tg_has(d, u, c.s[e] as int) by {
        ch_e(c, u, e); let w = c.s[e] as int; slot_in(c.s, ne, e, c.n); let q = slot(c.s, ne, e); assert(tp0[w] == start(c.s, ne, w)); assert(tp0[w + 1] == start(c.s, ne, w + 1)); tg_last(c, tp0, ti0, w); ch_col(c, w);
        assert(ti0[q] == u); if q == tp0[w + 1] - 1 { if e < c.p[w] { slot_inj(c.s, ne, e, c.p[w] as int, c.n); } else if c.p[w] < e { slot_inj(c.s, ne, c.p[w] as int, e, c.n); } else { assert(in_col(c.p, w, e)); src_is(c.p, c.n, w, e); } assert(false); }
        assert(tg_in(d, w, q) && d.ti[q] == u);
    }
    reveal(tg_ok);
}
pub open spec fn tg_csc(a: CSC, m: int, n: int, ne: int) -> bool { wf(a) && 1 <= a.m < i32::MAX && a.m == m && a.n == n && a.n < i32::MAX && a.nnz == ne && a.nnz == a.p@[a.n as int] && a.nnz < i32::MAX && !a.is_pattern && a.x@.len() >= a.nnz && forall|e: int| 0 <= e < a.p@[a.n as int] ==> 0 <= #[trigger] a.i@[e] < a.m }
pub proof fn tg_pre(p: Seq<i32>, s: Seq<i32>, n: int, a: CSC)
    requires ch_in_ok(p, s, n), a.p@ =~= p, a.i@ =~= s, p.len() == n + 1, s.len() == p[n], a.m == n, a.n == n, a.nnz == p[n], !a.is_pattern, a.x@.len() == p[n],
    ensures tg_csc(a, n, n, p[n] as int), a.p@ == p, a.i@ == s,
{ }
pub proof fn tg_n(d: Tg)
    requires tg_ok(d),
    ensures ch_ok(d.c), 1 <= d.c.n < i32::MAX, d.c.p.len() > d.c.n, 0 <= d.c.p[d.c.n] < i32::MAX, d.c.p[d.c.n] <= d.c.s.len(), d.tp.len() > d.c.n, d.ti.len() >= d.c.p[d.c.n], d.tp[0] == 0, d.tp[d.c.n] == d.c.p[d.c.n],
{ reveal(tg_ok); ch_n(d.c); }
pub proof fn tg_row(d: Tg, w: int)
    requires tg_ok(d), 0 <= w < d.c.n,
    ensures 0 <= d.tp[w] <= d.tp[w + 1] <= d.c.p[d.c.n], 0 <= d.c.p[w] < d.c.p[w + 1] <= d.c.p[d.c.n], ch_ok(d.c),
{ reveal(tg_ok); ch_col(d.c, w); assert(d.tp[0] <= d.tp[w]); assert(d.tp[w + 1] <= d.tp[d.c.n]); }
pub proof fn tg_at(d: Tg, w: int, q: int) -> (e: int)
    requires tg_ok(d), tg_in(d, w, q),
    ensures 0 <= q < d.ti.len(), 0 <= d.ti[q] < w < d.c.n, ch_edge(d.c.p, d.c.n, d.ti[q] as int, e), d.c.s[e] == w, d.c.p[d.ti[q] + 1] - d.c.p[d.ti[q] as int] >= 2,
{ reveal(tg_ok); tg_row(d, w); assert(tg_from(d, w, q)); let e = choose|e: int| #[trigger] ch_edge(d.c.p, d.c.n, d.ti[q] as int, e) && d.c.s[e] == w; ch_e(d.c, d.ti[q] as int, e); e }
proof fn tg_back(d: Tg, u: int, e: int) -> (q: int)
    requires tg_ok(d), ch_edge(d.c.p, d.c.n, u, e),
    ensures tg_in(d, d.c.s[e] as int, q), d.ti[q] == u,
{ reveal(tg_ok); assert(tg_has(d, u, d.c.s[e] as int)); choose|q: int| #[trigger] tg_in(d, d.c.s[e] as int, q) && d.ti[q] == u }
// ---- where each node is: 0 not seen, 1 waiting to start a tree, 2 waiting to join the open tree, 3 looked at now, 4 placed
#[verifier::opaque]
pub open spec fn tg_l(l: Seq<i32>, mk: Seq<int>, k: int) -> bool {
    (forall|a: int| 0 <= a < l.len() ==> 0 <= #[trigger] l[a] < mk.len() && mk[l[a] as int] == k) && (forall|a: int, b: int| 0 <= a < b < l.len() ==> #[trigger] l[a] != #[trigger] l[b])
    && forall|v: int| 0 <= v < mk.len() && #[trigger] mk[v] == k ==> l.contains(v as i32)
}
pub proof fn tg_l_none(l: Seq<i32>, mk: Seq<int>, k: int)
    requires l.len() == 0, forall|v: int| 0 <= v < mk.len() ==> #[trigger] mk[v] != k,
    ensures tg_l(l, mk, k),
{ reveal(tg_l); }
pub proof fn tg_l_push(l: Seq<i32>, mk: Seq<int>, k: int, v: i32)
    requires tg_l(l, mk, k), 0 <= v < mk.len(), mk[v as int] != k,
    ensures tg_l(l.push(v), mk.update(v as int, k), k),
{
    reveal(tg_l); let l2 = l.push(v); let m2 = mk.update(v as int, k);
    assert forall|a: int| 0 <= a < l2.len() implies 0 <= #[trigger] l2[a] < m2.len() && m2[l2[a] as int] == k by { if a < l.len() { assert(l2[a] == l[a]); } }
    assert forall|a: int, b: int| 0 <= a < b < l2.len() implies #[trigger] l2[a] != #[trigger] l2[b] by { assert(l2[a] == l[a]); if b < l.len() { assert(l2[b] == l[b]); } }
    assert forall|w: int| 0 <= w < m2.len() && #[trigger] m2[w] == k implies l2.contains(w as i32) by { if w != v { assert(mk[w] == k); ch_keep(l, v, w as i32); } else { assert(l2[l.len() as int] == v); } }
}
pub proof fn tg_l_back(l: Seq<i32>, mk: Seq<int>, k: int, j: int)
    requires tg_l(l, mk, k), l.len() > 0, j != k, mk.len() <= i32::MAX,
    ensures 0 <= l.last() < mk.len(), mk[l.last() as int] == k, tg_l(l.drop_last(), mk.update(l.last() as int, j), k),
{
    reveal(tg_l); let v = l.last(); assert(v == l[l.len() - 1]); let l2 = l.drop_last(); let m2 = mk.update(v as int, j);
    assert forall|a: int| 0 <= a < l2.len() implies 0 <= #[trigger] l2[a] < m2.len() && m2[l2[a] as int] == k by { assert(l2[a] == l[a]); assert(l[a] != l[l.len() - 1]); }
    assert forall|a: int, b: int| 0 <= a < b < l2.len() implies #[trigger] l2[a] != #[trigger] l2[b] by { assert(l2[a] == l[a]); assert(l2[b] == l[b]); }
    assert forall|w: int| 0 <= w < m2.len() && #[trigger] m2[w] == k implies l2.contains(w as i32) by { assert(mk[w] == k); let x = l.index_of(w as i32); assert(l[x] == w); assert(x != l.len() - 1); assert(l2[x] == w as i32); }
}
pub proof fn tg_l_front(l: Seq<i32>, mk: Seq<int>, k: int, j: int)
    requires tg_l(l, mk, k), l.len() > 0, j != k, mk.len() <= i32::MAX,
    ensures 0 <= l[0] < mk.len(), mk[l[0] as int] == k, tg_l(l.subrange(1, l.len() as int), mk.update(l[0] as int, j), k),
{
    reveal(tg_l); let v = l[0]; let l2 = l.subrange(1, l.len() as int); let m2 = mk.update(v as int, j);
    assert forall|a: int| 0 <= a < l2.len() implies 0 <= #[trigger] l2[a] < m2.len() && m2[l2[a] as int] == k by { assert(l2[a] == l[a + 1]); assert(l[0] != l[a + 1]); }
    assert forall|a: int, b: int| 0 <= a < b < l2.len() implies #[trigger] l2[a] != #[trigger] l2[b] by { assert(l2[a] == l[a + 1]); assert(l2[b] == l[b + 1]); }
    assert forall|w: int| 0 <= w < m2.len() && #[trigger] m2[w] == k implies l2.contains(w as i32) by { assert(mk[w] == k); let x = l.index_of(w as i32); assert(l[x] == w); assert(x != 0); assert(l2[x - 1] == w as i32); }
}
pub proof fn tg_l_other(l: Seq<i32>, mk: Seq<int>, k: int, v: int, j: int)
    requires tg_l(l, mk, k), 0 <= v < mk.len(), mk[v] != k, j != k,
    ensures tg_l(l, mk.update(v, j), k),
{ reveal(tg_l); let m2 = mk.update(v, j); assert forall|w: int| 0 <= w < m2.len() && #[trigger] m2[w] == k implies l.contains(w as i32) by { assert(mk[w] == k); } }
pub open spec fn tg_zero(n: int) -> Seq<int> { Seq::new(n as nat, |v: int| 0) }
pub open spec fn tg_sink(d: Tg, v: int) -> bool { d.c.p[v + 1] - d.c.p[v] == 1 }
// nodes without a dependence on others, listed
#[verifier::opaque]
pub open spec fn tg_snk(d: Tg, mk: Seq<int>, i: int) -> bool { mk.len() == d.c.n && (forall|v: int| 0 <= v < d.c.n ==> (#[trigger] mk[v] == 0 || mk[v] == 1)) && (forall|v: int| 0 <= v < d.c.n ==> (#[trigger] mk[v] == 1 <==> (v < i && tg_sink(d, v)))) }
pub proof fn tg_snk_init(d: Tg, l: Seq<i32>)
    requires l.len() == 0, tg_ok(d),
    ensures tg_l(l, tg_zero(d.c.n), 1), tg_snk(d, tg_zero(d.c.n), 0),
{ reveal(tg_snk); tg_n(d); tg_l_none(l, tg_zero(d.c.n), 1); }
pub proof fn tg_snk_step(d: Tg, l: Seq<i32>, mk: Seq<int>, i: int)
    requires tg_ok(d), tg_l(l, mk, 1), tg_snk(d, mk, i), 0 <= i < d.c.n,
    ensures tg_sink(d, i) ==> tg_l(l.push(i as i32), mk.update(i, 1), 1) && tg_snk(d, mk.update(i, 1), i + 1), !tg_sink(d, i) ==> tg_snk(d, mk, i + 1), 0 <= d.c.p[i] < d.c.p[i + 1] <= d.c.p[d.c.n],
{ reveal(tg_snk); tg_row(d, i); tg_n(d); if tg_sink(d, i) { tg_l_push(l, mk, 1, i as i32); } }
// c nodes are listed; node h (or none) is looked at, its row is done below q
#[verifier::opaque]
pub open spec fn tg_st(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int) -> bool {
    mk.len() == d.c.n && vis.len() == d.c.n && pos.len() == d.c.n && (forall|v: int| 0 <= v < d.c.n ==> 0 <= #[trigger] mk[v] <= 4 && (mk[v] == 4 <==> pos[v] >= 0) && (mk[v] == 3 <==> v == h)) && -1 <= h < d.c.n
    && (forall|v: int| 0 <= v < d.c.n ==> (#[trigger] vis[v] ==> mk[v] != 0) && (mk[v] != 0 ==> vis[v] || tg_sink(d, v)))
    && (forall|v: int| 0 <= v < d.c.n && #[trigger] tg_sink(d, v) ==> mk[v] != 0)
}
#[verifier::opaque]
pub open spec fn tg_kids(d: Tg, mk: Seq<int>, q: int) -> bool { forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (mk[w] == 4 || (mk[w] == 3 && r < q)) ==> mk[d.ti[r] as int] != 0 }
pub open spec fn tg_co(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int, q: int) -> bool { ch_pl(d.c, gs, c, pos) && tg_st(d, gs, c, pos, mk, vis, h) && tg_kids(d, mk, q) }
pub proof fn tg_begin(d: Tg, gs: Seq<i32>, mk: Seq<int>, vis: Seq<bool>)
    requires tg_ok(d), gs.len() == d.c.n, tg_snk(d, mk, d.c.n), vis.len() == d.c.n, forall|v: int| 0 <= v < d.c.n ==> !#[trigger] vis[v],
    ensures tg_co(d, gs, 0, ch_none(d.c.n), mk, vis, -1, 0), tg_l(seq![], mk, 2),
{
    reveal(ch_pl); reveal(tg_st); reveal(tg_kids); reveal(tg_snk); tg_n(d); tg_l_none(seq![], mk, 2);
    assert forall|v: int| 0 <= v < d.c.n && #[trigger] tg_sink(d, v) implies mk[v] != 0 by { assert(mk[v] == 1); }
}
// a waiting node changes list
pub proof fn tg_move(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int, q: int, v: int, j: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, h, q), 0 <= v < d.c.n, mk[v] == 1 || mk[v] == 2, j == 1 || j == 2,
    ensures tg_co(d, gs, c, pos, mk.update(v, j), vis, h, q), tg_co(d, gs, c, pos, mk.update(v, j), vis.update(v, true), h, q), vis.len() == d.c.n, mk.len() == d.c.n,
{
    reveal(tg_st); reveal(tg_kids); let m2 = mk.update(v, j); tg_n(d);
    assert forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (m2[w] == 4 || (m2[w] == 3 && r < q)) implies m2[d.ti[r] as int] != 0 by { let e = tg_at(d, w, r); }
    assert forall|x: int| 0 <= x < d.c.n && #[trigger] tg_sink(d, x) implies m2[x] != 0 by { }
}
pub proof fn tg_take(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, q0: int, h: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, -1, q0), 0 <= h < d.c.n, mk[h] == 1 || mk[h] == 2,
    ensures tg_co(d, gs, c, pos, mk.update(h, 3), vis, h, d.tp[h] as int), 0 <= c < d.c.n, gs.len() == d.c.n, pos.len() == d.c.n, mk.len() == d.c.n, vis.len() == d.c.n, 0 <= d.tp[h] <= d.tp[h + 1] <= d.c.p[d.c.n],
{
    reveal(tg_st); reveal(tg_kids); reveal(ch_pl); tg_row(d, h); tg_n(d); let m2 = mk.update(h, 3);
    assert forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (m2[w] == 4 || (m2[w] == 3 && r < d.tp[h])) implies m2[d.ti[r] as int] != 0 by { let e = tg_at(d, w, r); assert(mk[w] == 4); }
    assert forall|x: int| 0 <= x < d.c.n && #[trigger] tg_sink(d, x) implies m2[x] != 0 by { }
    let t = Seq::new((c + 1) as nat, |x: int| if x < c { gs[x] as int } else { h as int });
    assert(pos[h] < 0) by { assert(mk[h] != 4); }
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { if a < c { assert(pos[gs[a] as int] == a); } if b < c { assert(pos[gs[b] as int] == b); } } }
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < d.c.n by { if x < c { assert(0 <= gs[x] < d.c.n); } }
    distinct_len(t, d.c.n);
}
// one more entry of the row of h
pub proof fn tg_child(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int, q: int) -> (e: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, h, q), 0 <= h, d.tp[h] <= q < d.tp[h + 1] - 1,
    ensures tg_in(d, h, q), 0 <= d.ti[q] < h < d.c.n, 0 <= q < d.ti.len(), vis.len() == d.c.n, mk.len() == d.c.n, d.c.p[d.ti[q] + 1] - d.c.p[d.ti[q] as int] >= 2, ch_edge(d.c.p, d.c.n, d.ti[q] as int, e), d.c.s[e] == h,
        0 <= d.c.p[d.ti[q] as int] < d.c.p[d.ti[q] + 1] <= d.c.p[d.c.n],
        vis[d.ti[q] as int] ==> tg_co(d, gs, c, pos, mk, vis, h, q + 1),
        !vis[d.ti[q] as int] ==> mk[d.ti[q] as int] == 0 && tg_co(d, gs, c, pos, mk.update(d.ti[q] as int, 1), vis.update(d.ti[q] as int, true), h, q + 1) && tg_co(d, gs, c, pos, mk.update(d.ti[q] as int, 2), vis.update(d.ti[q] as int, true), h, q + 1),
{
    assert(h < d.c.n && mk.len() == d.c.n && vis.len() == d.c.n) by { reveal(tg_st); } assert(tg_in(d, h, q)); let e = tg_at(d, h, q); tg_n(d); let v = d.ti[q] as int; tg_row(d, v);
    if vis[v] { assert(tg_kids(d, mk, q + 1)) by { reveal(tg_kids); reveal(tg_st);
        assert forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (mk[w] == 4 || (mk[w] == 3 && r < q + 1)) implies mk[d.ti[r] as int] != 0 by { if mk[w] == 3 && r == q { assert(w == h); } } } }
    else { assert(mk[v] == 0) by { reveal(tg_st); } tg_mark(d, gs, c, pos, mk, vis, h, q, v, 1); tg_mark(d, gs, c, pos, mk, vis, h, q, v, 2); }
    e
}
proof fn tg_mark(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int, q: int, v: int, j: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, h, q), tg_in(d, h, q), v == d.ti[q], 0 <= v < d.c.n, mk[v] == 0, j == 1 || j == 2, mk.len() == d.c.n,
    ensures tg_co(d, gs, c, pos, mk.update(v, j), vis.update(v, true), h, q + 1),
{
    reveal(tg_st); reveal(tg_kids); let m2 = mk.update(v, j);
    assert forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (m2[w] == 4 || (m2[w] == 3 && r < q + 1)) implies m2[d.ti[r] as int] != 0 by { let e = tg_at(d, w, r); if w == h && r == q { } else if mk[w] == 3 { assert(w == h); } }
    assert forall|x: int| 0 <= x < d.c.n && #[trigger] tg_sink(d, x) implies m2[x] != 0 by { }
}
pub proof fn tg_place(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, h: int, q: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, h, q), 0 <= h, q >= d.tp[h + 1] - 1, 0 <= c < d.c.n,
    ensures tg_co(d, gs.update(c, h as i32), c + 1, pos.update(h, c), mk.update(h, 4), vis, -1, 0), h < d.c.n, mk.len() == d.c.n, pos.len() == d.c.n, gs.len() == d.c.n, mk[h] == 3, pos[h] < 0,
{
    reveal(tg_st); reveal(tg_kids); reveal(ch_pl); tg_n(d); let m2 = mk.update(h, 4); let p2 = pos.update(h, c); assert(mk[h] == 3);
    assert forall|w: int, r: int| #[trigger] tg_in(d, w, r) && (m2[w] == 4 || (m2[w] == 3 && r < 0)) implies m2[d.ti[r] as int] != 0 by { let e = tg_at(d, w, r); }
    assert forall|x: int| 0 <= x < d.c.n && #[trigger] tg_sink(d, x) implies m2[x] != 0 by { }
}
proof fn tg_every(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>, v: int)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, -1, 0), tg_l(seq![], mk, 1), tg_l(seq![], mk, 2), 0 <= v < d.c.n,
    ensures pos[v] >= 0,
    decreases d.c.n - v
{
    reveal(tg_st); tg_row(d, v);
    assert(mk[v] != 1 && mk[v] != 2) by { reveal(tg_l); let e: Seq<i32> = seq![]; if mk[v] == 1 || mk[v] == 2 { assert(e.contains(v as i32)); } }
    if !tg_sink(d, v) {
        let e = d.c.p[v] + 1; assert(ch_edge(d.c.p, d.c.n, v, e)); ch_e(d.c, v, e); let w = d.c.s[e] as int; tg_every(d, gs, c, pos, mk, vis, w);
        let q = tg_back(d, v, e); assert(mk[w] == 4); reveal(tg_kids); assert(mk[d.ti[q] as int] != 0);
    }
}
pub proof fn tg_all(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, mk: Seq<int>, vis: Seq<bool>)
    requires tg_ok(d), tg_co(d, gs, c, pos, mk, vis, -1, 0), tg_l(seq![], mk, 1), tg_l(seq![], mk, 2),
    ensures c == d.c.n, is_perm(gs, d.c.n), gs.len() == d.c.n,
{
    reveal(ch_pl); tg_n(d);
    assert forall|v: int| 0 <= v < pos.len() implies 0 <= #[trigger] pos[v] < c by { tg_every(d, gs, c, pos, mk, vis, v); }
    assert(pos.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < pos.len() && 0 <= b < pos.len() && a != b implies pos[a] != pos[b] by { assert(gs[pos[a]] == a); assert(gs[pos[b]] == b); } }
    distinct_len(pos, c);
    assert forall|a: int, b: int| 0 <= a < d.c.n && 0 <= b < d.c.n && a != b implies #[trigger] gs[a] != #[trigger] gs[b] by { assert(pos[gs[a] as int] == a); assert(pos[gs[b] as int] == b); }
}
// ---- the trees: tr gives the position where the tree of each listed node starts
pub open spec fn tg_par(d: Tg, u: int, w: int) -> bool { 0 <= u < d.c.n && d.c.p[u + 1] == d.c.p[u] + 2 && d.c.s[d.c.p[u] + 1] == w }
pub open spec fn tg_tgt(d: Tg, u: int) -> int { d.c.s[d.c.p[u] + 1] as int }
pub open spec fn tg_lk(d: Tg, pos: Seq<int>, ts: int, v: int) -> bool { 0 <= v < d.c.n && d.c.p[v + 1] == d.c.p[v] + 2 && pos[tg_tgt(d, v)] >= ts }
pub open spec fn tg_tx(d: Tg, gs: Seq<i32>, pos: Seq<int>, tr: Seq<int>, x: int) -> bool {
    0 <= tr[x] <= x && tr[tr[x]] == tr[x] && (tr[x] < x ==> d.c.p[gs[x] + 1] == d.c.p[gs[x] as int] + 2 && 0 <= pos[tg_tgt(d, gs[x] as int)] < x && tr[pos[tg_tgt(d, gs[x] as int)]] == tr[x])
}
#[verifier::opaque]
pub open spec fn tg_tr(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, tr: Seq<int>) -> bool {
    tr.len() == d.c.n && (forall|x: int| 0 <= x < c ==> #[trigger] tg_tx(d, gs, pos, tr, x)) && forall|x: int, y: int| 0 <= x <= y < c ==> #[trigger] tr[x] <= #[trigger] tr[y]
}
#[verifier::opaque]
pub open spec fn tg_cur(d: Tg, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, h: int) -> bool {
    0 <= ts <= c && (forall|x: int| 0 <= x < c ==> #[trigger] tr[x] <= ts) && (c > ts ==> tr[ts] == ts) && (h >= 0 ==> c == ts || tg_lk(d, pos, ts, h))
    && forall|v: int| 0 <= v < d.c.n && #[trigger] mk[v] == 2 ==> tg_lk(d, pos, ts, v) || (h >= 0 && tg_par(d, v, h))
}
pub proof fn tg_tr_init(d: Tg, gs: Seq<i32>, pos: Seq<int>)
    requires tg_ok(d),
    ensures tg_tr(d, gs, 0, pos, tg_zero(d.c.n)),
{ reveal(tg_tr); tg_n(d); }
pub proof fn tg_cur_take(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, l: Seq<i32>)
    requires tg_ok(d), tg_tr(d, gs, c, pos, tr), tg_l(l, mk, 2), l.len() > 0, mk.len() == d.c.n, c >= 0, tg_cur(d, c, pos, tr, ts, mk, -1) || (ts == c && l.len() == 1),
    ensures tg_cur(d, c, pos, tr, ts, mk.update(l[0] as int, 3), l[0] as int),
{
    reveal(tg_tr); reveal(tg_cur); reveal(tg_l); tg_n(d); let h = l[0] as int; let m2 = mk.update(h, 3); assert(0 <= h < d.c.n && mk[h] == 2);
    if tg_cur(d, c, pos, tr, ts, mk, -1) {
        assert forall|v: int| 0 <= v < d.c.n && #[trigger] m2[v] == 2 implies tg_lk(d, pos, ts, v) by { assert(mk[v] == 2); }
        assert(tg_lk(d, pos, ts, h));
    } else {
        assert forall|x: int| 0 <= x < c implies #[trigger] tr[x] <= ts by { assert(tg_tx(d, gs, pos, tr, x)); }
        assert forall|v: int| 0 <= v < d.c.n && #[trigger] m2[v] == 2 implies false by { assert(mk[v] == 2); assert(l.contains(v as i32)); }
    }
}
pub proof fn tg_cur_child(d: Tg, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, h: int, v: int, e: int)
    requires tg_ok(d), tg_cur(d, c, pos, tr, ts, mk, h), ch_edge(d.c.p, d.c.n, v, e), d.c.s[e] == h, mk.len() == d.c.n, h >= 0,
    ensures tg_cur(d, c, pos, tr, ts, mk.update(v, 1), h), d.c.p[v + 1] - d.c.p[v] == 2 ==> tg_cur(d, c, pos, tr, ts, mk.update(v, 2), h),
{
    reveal(tg_cur); tg_cur_one(d, c, pos, tr, ts, mk, h, v);
    if d.c.p[v + 1] - d.c.p[v] == 2 {
        let m2 = mk.update(v, 2); assert(tg_par(d, v, h));
        assert forall|x: int| 0 <= x < d.c.n && #[trigger] m2[x] == 2 implies tg_lk(d, pos, ts, x) || (h >= 0 && tg_par(d, x, h)) by { if x != v { assert(mk[x] == 2); } }
    }
}
pub proof fn tg_cur_one(d: Tg, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, h: int, v: int)
    requires tg_cur(d, c, pos, tr, ts, mk, h), mk.len() == d.c.n, 0 <= v < d.c.n,
    ensures tg_cur(d, c, pos, tr, ts, mk.update(v, 1), h),
{ reveal(tg_cur); let m2 = mk.update(v, 1); assert forall|x: int| 0 <= x < d.c.n && #[trigger] m2[x] == 2 implies tg_lk(d, pos, ts, x) || (h >= 0 && tg_par(d, x, h)) by { assert(mk[x] == 2); } }
proof fn tg_tgt_in(d: Tg, v: int)
    requires tg_ok(d), 0 <= v < d.c.n, d.c.p[v + 1] == d.c.p[v] + 2,
    ensures v < tg_tgt(d, v) < d.c.n, ch_edge(d.c.p, d.c.n, v, d.c.p[v] + 1),
{ tg_n(d); tg_row(d, v); assert(ch_edge(d.c.p, d.c.n, v, d.c.p[v] + 1)); ch_e(d.c, v, d.c.p[v] + 1); }
proof fn tg_tr_put(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, h: int)
    requires tg_ok(d), ch_pl(d.c, gs, c, pos), tg_tr(d, gs, c, pos, tr), tg_cur(d, c, pos, tr, ts, mk, h), 0 <= h < d.c.n, pos[h] < 0, 0 <= c < d.c.n,
    ensures tg_tr(d, gs.update(c, h as i32), c + 1, pos.update(h, c), tr.update(c, ts)),
{
    reveal(tg_tr); reveal(tg_cur); tg_n(d); let g2 = gs.update(c, h as i32); let p2 = pos.update(h, c); let t2 = tr.update(c, ts);
    assert(pos.len() == d.c.n && gs.len() == d.c.n && (forall|v: int| 0 <= v < d.c.n ==> -1 <= #[trigger] pos[v] < c) && (forall|x: int| 0 <= x < c ==> 0 <= #[trigger] gs[x] < d.c.n)) by { reveal(ch_pl); }
    assert forall|x: int| 0 <= x < c + 1 implies #[trigger] tg_tx(d, g2, p2, t2, x) by {
        if x < c {
            assert(tg_tx(d, gs, pos, tr, x)); assert(g2[x] == gs[x]); let y = tr[x]; assert(0 <= y <= x); assert(t2[x] == y && t2[y] == tr[y]);
            if y < x { tg_tgt_in(d, gs[x] as int); let w = tg_tgt(d, gs[x] as int); assert(pos[w] >= 0); assert(w != h); assert(p2[w] == pos[w]); }
        } else {
            assert(g2[c] == h && t2[c] == ts); if ts < c { assert(t2[ts] == ts); assert(tg_lk(d, pos, ts, h)); tg_tgt_in(d, h); let w = tg_tgt(d, h); assert(w != h); let y = pos[w]; assert(ts <= y < c); assert(tr[ts] <= tr[y]); assert(t2[y] == tr[y]); }
        }
    }
    assert forall|x: int, y: int| 0 <= x <= y < c + 1 implies #[trigger] t2[x] <= #[trigger] t2[y] by { if y < c { assert(t2[x] == tr[x]); assert(t2[y] == tr[y]); } else if x < c { assert(t2[x] == tr[x]); } }
}
pub proof fn tg_cur_put(d: Tg, gs: Seq<i32>, c: int, pos: Seq<int>, tr: Seq<int>, ts: int, mk: Seq<int>, h: int)
    requires tg_ok(d), ch_pl(d.c, gs, c, pos), tg_tr(d, gs, c, pos, tr), tg_cur(d, c, pos, tr, ts, mk, h), 0 <= h < d.c.n, pos[h] < 0, 0 <= c < d.c.n, mk.len() == d.c.n,
    ensures tg_tr(d, gs.update(c, h as i32), c + 1, pos.update(h, c), tr.update(c, ts)), tg_cur(d, c + 1, pos.update(h, c), tr.update(c, ts), ts, mk.update(h, 4), -1), tr.len() == d.c.n, 0 <= ts <= c,
{
    tg_tr_put(d, gs, c, pos, tr, ts, mk, h); assert(tr.len() == d.c.n) by { reveal(tg_tr); } reveal(tg_cur); let p2 = pos.update(h, c); let m2 = mk.update(h, 4); let t2 = tr.update(c, ts);
    assert(pos.len() == d.c.n) by { reveal(ch_pl); }
    assert forall|v: int| 0 <= v < d.c.n && #[trigger] m2[v] == 2 implies tg_lk(d, p2, ts, v) by { assert(mk[v] == 2); assert(d.c.p[v + 1] == d.c.p[v] + 2); tg_tgt_in(d, v); }
    assert forall|x: int| 0 <= x < c + 1 implies #[trigger] t2[x] <= ts by { if x < c { assert(t2[x] == tr[x]); } }
}
// ---- the boundaries of the groups: every tree starts a group; without a size limit every group is a tree
pub open spec fn tg_below(gp: Seq<i32>, c: int) -> bool { forall|k: int| 0 <= k < gp.len() ==> #[trigger] gp[k] < c }
#[verifier::opaque]
pub open spec fn tg_gp(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool) -> bool {
    0 <= c <= n <= i32::MAX && (gp.len() == 0 ==> c == 0) && (gp.len() > 0 ==> gp[0] == 0) && (forall|a: int, b: int| 0 <= a < b < gp.len() ==> #[trigger] gp[a] < #[trigger] gp[b]) && (forall|k: int| 0 <= k < gp.len() ==> 0 <= #[trigger] gp[k] <= c)
    && (forall|x: int| 0 <= x < c && #[trigger] tr[x] == x ==> gp.contains(x as i32)) && (ts >= 0 ==> ts <= c && gp.contains(ts as i32))
    && (wh ==> forall|k: int| 0 <= k < gp.len() ==> (#[trigger] gp[k] < c ==> tr[gp[k] as int] == gp[k]) && (gp[k] == c ==> c == ts || c == n || c == 0))
}
pub proof fn tg_gp_init(gp: Seq<i32>, n: int, tr: Seq<int>, wh: bool)
    requires gp.len() <= 1, gp.len() == 1 ==> gp[0] == 0, 0 <= n <= i32::MAX,
    ensures tg_gp(gp, n, 0, tr, -1, wh),
{ reveal(tg_gp); }
pub proof fn tg_gp_len(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool)
    requires tg_gp(gp, n, c, tr, ts, wh),
    ensures gp.len() <= c + 1, gp.len() > 0 ==> 0 <= gp[gp.len() - 1] <= c, tg_below(gp, c) ==> gp.len() <= c,
{ reveal(tg_gp); if gp.len() > 0 { ch_up(gp, gp.len() - 1); } }
proof fn tg_gp_push(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool, t2: int)
    requires tg_gp(gp, n, c, tr, ts, wh), tg_below(gp, c) || gp.len() == 0, wh ==> c == t2 || c == n, t2 == ts || t2 == c, c >= 0,
    ensures tg_gp(gp.push(c as i32), n, c, tr, t2, wh),
{
    reveal(tg_gp); let g2 = gp.push(c as i32); assert(g2[gp.len() as int] == c);
    assert forall|a: int, b: int| 0 <= a < b < g2.len() implies #[trigger] g2[a] < #[trigger] g2[b] by { assert(g2[a] == gp[a]); if b < gp.len() { assert(g2[b] == gp[b]); } }
    assert forall|k: int| 0 <= k < g2.len() implies 0 <= #[trigger] g2[k] <= c by { if k < gp.len() { assert(g2[k] == gp[k]); } }
    assert forall|x: int| 0 <= x < c && #[trigger] tr[x] == x implies g2.contains(x as i32) by { ch_keep(gp, c as i32, x as i32); }
    if t2 >= 0 && t2 != c { ch_keep(gp, c as i32, t2 as i32); }
    if wh { assert forall|k: int| 0 <= k < g2.len() implies (#[trigger] g2[k] < c ==> tr[g2[k] as int] == g2[k]) && (g2[k] == c ==> c == t2 || c == n || c == 0) by { if k < gp.len() { assert(g2[k] == gp[k]); } } }
}
// a tree starts
pub proof fn tg_gp_open(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, wh: bool)
    requires tg_gp(gp, n, c, tr, -1, wh),
    ensures gp.len() > 0 && gp[gp.len() - 1] == c ==> tg_gp(gp, n, c, tr, c, wh), gp.len() > 0 && gp[gp.len() - 1] != c ==> tg_gp(gp.push(c as i32), n, c, tr, c, wh) && tg_below(gp, c),
        gp.len() == 0 || tg_below(gp, c) ==> tg_gp(gp.push(c as i32), n, c, tr, c, wh),
{
    assert(0 <= c) by { reveal(tg_gp); }
    if gp.len() > 0 && gp[gp.len() - 1] == c { reveal(tg_gp); assert(gp.contains(c as i32)); }
    if gp.len() > 0 && gp[gp.len() - 1] != c { assert(tg_below(gp, c)) by { reveal(tg_gp); assert forall|k: int| 0 <= k < gp.len() implies #[trigger] gp[k] < c by { if k < gp.len() - 1 { assert(gp[k] < gp[gp.len() - 1]); } } } }
    if gp.len() == 0 || tg_below(gp, c) { tg_gp_push(gp, n, c, tr, -1, wh, c); }
}
pub proof fn tg_gp_put(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool)
    requires tg_gp(gp, n, c, tr, ts, wh), 0 <= ts <= c < n, tr.len() == n,
    ensures tg_gp(gp, n, c + 1, tr.update(c, ts), ts, wh), tg_below(gp, c + 1), gp.len() > 0,
{
    reveal(tg_gp); let t2 = tr.update(c, ts);
    assert forall|x: int| 0 <= x < c + 1 && #[trigger] t2[x] == x implies gp.contains(x as i32) by { if x < c { assert(tr[x] == x); } }
    if wh { assert forall|k: int| 0 <= k < gp.len() implies (#[trigger] gp[k] < c + 1 ==> t2[gp[k] as int] == gp[k]) && gp[k] != c + 1 by { if gp[k] == c { assert(c == ts); } } }
}
// a group of the size limit ends
pub proof fn tg_gp_cut(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool)
    requires tg_gp(gp, n, c, tr, ts, wh), tg_below(gp, c), wh ==> c == n, ts >= 0,
    ensures tg_gp(gp.push(c as i32), n, c, tr, ts, wh),
{ assert(0 <= c) by { reveal(tg_gp); } tg_gp_push(gp, n, c, tr, ts, wh, ts); }
pub proof fn tg_gp_shut(gp: Seq<i32>, n: int, c: int, tr: Seq<int>, ts: int, wh: bool)
    requires tg_gp(gp, n, c, tr, ts, wh), c > ts,
    ensures tg_gp(gp, n, c, tr, -1, wh),
{ reveal(tg_gp); }
pub proof fn tg_gp_end(gp: Seq<i32>, n: int, tr: Seq<int>, wh: bool)
    requires tg_gp(gp, n, n, tr, -1, wh), n >= 1,
    ensures gp.len() >= 1, gp[gp.len() - 1] != n ==> tg_gp(gp.push(n as i32), n, n, tr, -1, wh),
{
    reveal(tg_gp);
    if gp[gp.len() - 1] != n { assert(tg_below(gp, n)) by { assert forall|k: int| 0 <= k < gp.len() implies #[trigger] gp[k] < n by { if k < gp.len() - 1 { assert(gp[k] < gp[gp.len() - 1]); } } } tg_gp_push(gp, n, n, tr, -1, wh, -1); }
}
pub proof fn tg_gt(d: Tg, gp: Seq<i32>, gs: Seq<i32>, tr: Seq<int>, wh: bool)
    requires tg_ok(d), tg_gp(gp, d.c.n, d.c.n, tr, -1, wh), gp.len() >= 1, gp[gp.len() - 1] == d.c.n, is_perm(gs, d.c.n), gs.len() == d.c.n,
    ensures gt_ok(ch_gt(d.c, gp, gs)), gp.len() <= d.c.n + 1, gp[0] == 0,
{
    tg_n(d); tg_gp_len(gp, d.c.n, d.c.n, tr, -1, wh); reveal(tg_gp); let ng = gp.len() - 1;
    assert(ptrs(gp, ng)); assert forall|g: int| 0 <= g < ng implies #[trigger] gp[g] < gp[g + 1] by { }
    assert(gt_ok(ch_gt(d.c, gp, gs))) by { reveal(gt_ok); }
}
// ---- result
pub open spec fn grp_less(a: Seq<int>, b: Seq<int>, j: int, k: int) -> bool { a[j] < a[k] || (a[j] == a[k] && b[j] < b[k]) }
// the groups can be ordered so that every dependence between two of them goes forward
pub open spec fn grp_ord(p: Seq<i32>, s: Seq<i32>, ng: int, gp: Seq<i32>, gs: Seq<i32>, a: Seq<int>, b: Seq<int>) -> bool {
    forall|j: int, x: int, k: int, y: int, e: int| 0 <= j < ng && 0 <= k < ng && j != k && #[trigger] gt_pos(gp, j, x) && #[trigger] gt_pos(gp, k, y) && #[trigger] in_col(p, gs[x] as int, e) && s[e] == gs[y] ==> grp_less(a, b, j, k)
}
pub open spec fn grp_acyclic(p: Seq<i32>, s: Seq<i32>, ng: int, gp: Seq<i32>, gs: Seq<i32>) -> bool { exists|a: Seq<int>, b: Seq<int>| #[trigger] grp_ord(p, s, ng, gp, gs, a, b) }
pub open spec fn grp_joins(p: Seq<i32>, s: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, j: int, x: int) -> bool { p[gs[x] + 1] == p[gs[x] as int] + 2 && exists|y: int| gp[j] <= y < x && #[trigger] gs[y] == s[p[gs[x] as int] + 1] }
// every member after the first has a single dependence, on a member listed before it
pub open spec fn grp_trees(p: Seq<i32>, s: Seq<i32>, ng: int, gp: Seq<i32>, gs: Seq<i32>) -> bool { forall|j: int, x: int| 0 <= j < ng && #[trigger] gt_pos(gp, j, x) && x > gp[j] ==> grp_joins(p, s, gp, gs, j, x) }
pub open spec fn tree_groups(p: Seq<i32>, s: Seq<i32>, n: int, ng: int, gp: Seq<i32>, gs: Seq<i32>, wh: bool) -> bool {
    groups_part(gp, gs, ng, n) && grp_acyclic(p, s, ng, gp, gs) && (wh ==> grp_trees(p, s, ng, gp, gs))
}
// all that is known of the list before it is reordered
pub open spec fn tg_fin(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool) -> bool { tg_ok(d) && gt_ok(t) && t.n == d.c.n && ch_pl(d.c, t.gs, t.n, pos) && tg_tr(d, t.gs, t.n, pos, tr) && tg_gp(t.gp, t.n, t.n, tr, -1, wh) }
proof fn tg_mem(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, g: int, x: int)
    requires tg_fin(d, t, pos, tr, wh), 0 <= g < t.ng, gt_pos(t.gp, g, x),
    ensures 0 <= x < t.n, tr[x] == tr[t.gp[g] as int], 0 <= tr[x] <= x, tr[tr[x]] == tr[x], tr[x] <= t.gp[g], 0 <= t.gp[g], wh ==> tr[x] == t.gp[g], tr.len() == t.n,
{
    gt_grp(t, g); let a = t.gp[g] as int; assert(tr.len() == t.n && tg_tx(d, t.gs, pos, tr, x) && tr[a] <= tr[x] && tg_tx(d, t.gs, pos, tr, a)) by { reveal(tg_tr); assert(tr[a] <= tr[x]); }
    let z = tr[x];
    assert(z <= a) by { assert(t.gp.contains(z as i32)) by { reveal(tg_gp); } let k = t.gp.index_of(z as i32); assert(t.gp[k] == z); assert(k <= g) by { if k > g { gt_le(t, g + 1, k); } } gt_le(t, k, g); }
    assert(tr[z] <= tr[a]) by { reveal(tg_tr); }
    if wh { assert(tr[a] == a) by { reveal(tg_gp); assert(t.gp[g] < t.n); } }
}
proof fn gt_le(t: Gt, a: int, b: int)
    requires gt_ok(t), 0 <= a <= b <= t.ng,
    ensures t.gp[a] <= t.gp[b], t.gp.len() == t.ng + 1,
{ reveal(gt_ok); }
// the first node of a tree has the largest number
proof fn tg_top(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, x: int)
    requires tg_fin(d, t, pos, tr, wh), 0 <= x < t.n,
    ensures 0 <= tr[x] <= x, t.gs[x] <= t.gs[tr[x]],
    decreases x
{
    assert(tg_tx(d, t.gs, pos, tr, x)) by { reveal(tg_tr); }
    if tr[x] < x { gt_node(t, x); let u = t.gs[x] as int; tg_tgt_in(d, u); let w = tg_tgt(d, u); let y = pos[w]; tg_top(d, t, pos, tr, wh, y); assert(t.gs[y] == w) by { reveal(ch_pl); } }
}
proof fn tg_edge(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, g: int, x: int, h: int, y: int, e: int)
    requires tg_fin(d, t, pos, tr, wh), 0 <= g < t.ng, 0 <= h < t.ng, g != h, gt_pos(t.gp, g, x), gt_pos(t.gp, h, y), in_col(d.c.p, t.gs[x] as int, e), d.c.s[e] == t.gs[y],
    ensures t.gs[tr[t.gp[g] as int]] < t.gs[tr[t.gp[h] as int]] || (tr[t.gp[g] as int] == tr[t.gp[h] as int] && t.gp[h] < t.gp[g]),
{
    tg_mem(d, t, pos, tr, wh, g, x); tg_mem(d, t, pos, tr, wh, h, y); gt_node(t, x); gt_node(t, y); let u = t.gs[x] as int; let w = t.gs[y] as int; tg_row(d, u);
    assert(x != y) by { if g < h { gt_le(t, g + 1, h); } else { gt_le(t, h + 1, g); } }
    assert(u != w && pos[w] == y) by { reveal(ch_pl); }
    assert(e != d.c.p[u]) by { if e == d.c.p[u] { ch_col(d.c, u); } }
    assert(ch_edge(d.c.p, d.c.n, u, e)); ch_e(d.c, u, e); assert(tg_tx(d, t.gs, pos, tr, x)) by { reveal(tg_tr); }
    if tr[x] < x { assert(tg_tgt(d, u) == w); assert(y < x && tr[y] == tr[x]); if g < h { gt_le(t, g + 1, h); } reveal(gt_ok); if h < g { gt_le(t, h + 1, g); } }
    else { tg_top(d, t, pos, tr, wh, y); }
}
proof fn tg_join(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, g: int, x: int) -> (y: int)
    requires tg_fin(d, t, pos, tr, wh), wh, 0 <= g < t.ng, gt_pos(t.gp, g, x), x > t.gp[g],
    ensures t.gp[g] <= y < x, 0 <= t.gs[x] < d.c.n, d.c.p[t.gs[x] + 1] == d.c.p[t.gs[x] as int] + 2, t.gs[y] == tg_tgt(d, t.gs[x] as int),
{
    tg_mem(d, t, pos, tr, wh, g, x); assert(tg_tx(d, t.gs, pos, tr, x)) by { reveal(tg_tr); } gt_node(t, x); let u = t.gs[x] as int; tg_tgt_in(d, u); let w = tg_tgt(d, u); let y = pos[w]; assert(t.gs[y] == w) by { reveal(ch_pl); }
    assert(tg_tx(d, t.gs, pos, tr, y)) by { reveal(tg_tr); } y
}
// old position of a new position
proof fn tg_old(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, x: int)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, gt_pos(gp2, j, x),
    ensures 0 <= ord[j] < t.ng, gt_pos(t.gp, ord[j], t.gp[ord[j]] + (x - gp2[j])), gs2[x] == t.gs[t.gp[ord[j]] + (x - gp2[j])], ord.len() == t.ng,
{ let g = ord[j]; assert(gt_same(t, gp2, gs2, j, g)); let o = x - gp2[j]; assert(gs2[gp2[j] + o] == t.gs[t.gp[g] + o]); }
proof fn tg_ord1(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, k: int)
    requires gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, 0 <= k < t.ng, j != k,
    ensures ord[j] != ord[k], ord.len() == t.ng,
{ if j < k { assert(gt_mn(t, ord[j]) < gt_mn(t, ord[k])); } else { assert(gt_mn(t, ord[k]) < gt_mn(t, ord[j])); } }
pub open spec fn tg_ra(t: Gt, tr: Seq<int>, ord: Seq<int>) -> Seq<int> { Seq::new(t.ng as nat, |j: int| t.gs[tr[t.gp[ord[j]] as int]] as int) }
pub open spec fn tg_rb(t: Gt, ord: Seq<int>) -> Seq<int> { Seq::new(t.ng as nat, |j: int| -t.gp[ord[j]]) }
proof fn tg_res_edge(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, x: int, k: int, y: int, e: int)
    requires tg_fin(d, t, pos, tr, wh), gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, 0 <= k < t.ng, j != k, gt_pos(gp2, j, x), gt_pos(gp2, k, y), in_col(d.c.p, gs2[x] as int, e), d.c.s[e] == gs2[y],
    ensures grp_less(tg_ra(t, tr, ord), tg_rb(t, ord), j, k),
{
    hide(gt_result); hide(tg_fin);
    tg_old(t, gp2, gs2, ord, j, x); tg_old(t, gp2, gs2, ord, k, y); tg_ord1(t, gp2, gs2, ord, j, k);
    tg_edge(d, t, pos, tr, wh, ord[j], t.gp[ord[j]] + (x - gp2[j]), ord[k], t.gp[ord[k]] + (y - gp2[k]), e);
}
proof fn tg_res_join(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, x: int)
    requires tg_fin(d, t, pos, tr, wh), wh, gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, gt_pos(gp2, j, x), x > gp2[j],
    ensures grp_joins(d.c.p, d.c.s, gp2, gs2, j, x),
{
    hide(gt_result); hide(tg_fin);
    tg_old(t, gp2, gs2, ord, j, x); let g = ord[j]; let y = tg_join(d, t, pos, tr, wh, g, t.gp[g] + (x - gp2[j])); let z = gp2[j] + (y - t.gp[g]); assert(gt_pos(gp2, j, z)); tg_old(t, gp2, gs2, ord, j, z); assert(gs2[z] == d.c.s[d.c.p[gs2[x] as int] + 1]);
}
proof fn tg_res_part(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord),
    ensures groups_part(gp2, gs2, t.ng, t.n), t.ng >= 0,
{ gt_ptrs(t, gp2, gs2, ord); reveal(gt_ok); }
pub proof fn tg_result(d: Tg, t: Gt, pos: Seq<int>, tr: Seq<int>, wh: bool, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>)
    requires tg_fin(d, t, pos, tr, wh), gt_result(t, gp2, gs2, ord), gt_ok(t), t.n == d.c.n,
    ensures tree_groups(d.c.p, d.c.s, d.c.n, t.ng, gp2, gs2, wh),
{
    hide(gt_result); hide(tg_fin); hide(groups_part); tg_res_part(t, gp2, gs2, ord); let ng = t.ng; let a = tg_ra(t, tr, ord); let b = tg_rb(t, ord);
    assert(grp_ord(d.c.p, d.c.s, ng, gp2, gs2, a, b)) by {
        assert forall|j: int, x: int, k: int, y: int, e: int| 0 <= j < ng && 0 <= k < ng && j != k && #[trigger] gt_pos(gp2, j, x) && #[trigger] gt_pos(gp2, k, y) && #[trigger] in_col(d.c.p, gs2[x] as int, e) && d.c.s[e] == gs2[y] implies grp_less(a, b, j, k) by { tg_res_edge(d, t, pos, tr, wh, gp2, gs2, ord, j, x, k, y, e); }
    }
    if wh {
        assert forall|j: int, x: int| 0 <= j < ng && #[trigger] gt_pos(gp2, j, x) && x > gp2[j] implies grp_joins(d.c.p, d.c.s, gp2, gs2, j, x) by { tg_res_join(d, t, pos, tr, wh, gp2, gs2, ord, j, x); }
    }
}
