//@uses gtail
// chains of nodes that have one dependence out and one in
pub ghost struct Ch { pub p: Seq<i32>, pub s: Seq<i32>, pub n: int }
pub open spec fn ch_in_ok(p: Seq<i32>, s: Seq<i32>, n: int) -> bool {
    1 <= n < i32::MAX && gwf(p, s, n) && p[n] < i32::MAX && diag_first(p, s, n)
    && forall|v: int, e: int, f: int| 0 <= v < n && #[trigger] in_col(p, v, e) && #[trigger] in_col(p, v, f) && e < f ==> s[e] < s[f]
}
#[verifier::opaque]
pub open spec fn ch_ok(d: Ch) -> bool { ch_in_ok(d.p, d.s, d.n) }
// entry e is a dependence of u on another node
pub open spec fn ch_edge(p: Seq<i32>, n: int, u: int, e: int) -> bool { 0 <= u < n && p[u] < e < p[u + 1] }
#[verifier::opaque]
pub open spec fn ch_t(d: Ch) -> Seq<i32> { Seq::new(d.p[d.n] as nat, |e: int| if e == d.p[src(d.p, d.n, e)] { -1i32 } else { d.s[e] }) }
pub open spec fn ch_deg(d: Ch, v: int) -> int { cnt(ch_t(d), d.p[d.n] as int, v) }
pub open spec fn ch_root(d: Ch, v: int) -> bool { ch_deg(d, v) == 0 }
pub proof fn ch_start(p: Seq<i32>, s: Seq<i32>, n: int)
    requires ch_in_ok(p, s, n),
    ensures ch_ok(Ch { p: p, s: s, n: n }), p[0] == 0, p.len() > n, 0 <= p[n] < i32::MAX,
{ reveal(ch_ok); assert(p[0] <= p[n]); }
pub proof fn ch_col(d: Ch, u: int)
    requires ch_ok(d), 0 <= u < d.n,
    ensures 0 <= d.p[u] < d.p[u + 1] <= d.p[d.n], d.p[d.n] <= d.s.len(), d.p.len() > d.n, d.p[d.n] < i32::MAX, d.s[d.p[u] as int] == u, d.p[0] == 0,
{ reveal(ch_ok); assert(d.p[0] <= d.p[u]); assert(d.p[u + 1] <= d.p[d.n]); }
pub proof fn ch_e(d: Ch, u: int, e: int)
    requires ch_ok(d), ch_edge(d.p, d.n, u, e),
    ensures 0 <= e < d.p[d.n], d.p[d.n] <= d.s.len(), u < d.s[e] < d.n, ch_t(d)[e] == d.s[e], src(d.p, d.n, e) == u, ch_deg(d, d.s[e] as int) > 0, d.s[e - 1] < d.s[e],
{
    ch_col(d, u); reveal(ch_ok); reveal(ch_t); src_is(d.p, d.n, u, e); assert(in_col(d.p, u, e)); assert(in_col(d.p, u, d.p[u] as int)); assert(in_col(d.p, u, e - 1));
    cnt_bounds(ch_t(d), e, d.s[e] as int); cnt_strict(ch_t(d), e, d.p[d.n] as int);
}
pub proof fn ch_n(d: Ch)
    requires ch_ok(d),
    ensures 1 <= d.n < i32::MAX, ptrs(d.p, d.n), d.p.len() > d.n, 0 <= d.p[d.n] < i32::MAX, d.p[d.n] <= d.s.len(), d.p[0] == 0,
{ reveal(ch_ok); assert(d.p[0] <= d.p[d.n]); }
// the only dependence on a node
pub proof fn ch_uni(d: Ch, u: int, e: int, w: int, f: int)
    requires ch_ok(d), ch_edge(d.p, d.n, u, e), ch_edge(d.p, d.n, w, f), d.s[e] == d.s[f], ch_deg(d, d.s[e] as int) == 1,
    ensures e == f, u == w,
{
    ch_e(d, u, e); ch_e(d, w, f); let t = ch_t(d); let v = d.s[e] as int; let ne = d.p[d.n] as int;
    if e < f { cnt_bounds(t, e, v); cnt_strict(t, e, f); cnt_strict(t, f, ne); } else if f < e { cnt_bounds(t, f, v); cnt_strict(t, f, e); cnt_strict(t, e, ne); }
}
pub proof fn ch_pred(d: Ch, v: int) -> (r: (int, int))
    requires ch_ok(d), 0 <= v < d.n, !ch_root(d, v),
    ensures ch_edge(d.p, d.n, r.0, r.1), d.s[r.1] == v,
{
    ch_col(d, v); let ne = d.p[d.n] as int; cnt_bounds(ch_t(d), ne, v); let e = occ(ch_t(d), ne, v, 0); reveal(ch_t); ch_n(d); src_ex(d.p, d.n, e); let u = src(d.p, d.n, e);
    (u, e)
}
// ---- counting the dependences
#[verifier::opaque]
pub open spec fn ch_cnt(d: Ch, dg: Seq<i32>, e: int) -> bool { dg.len() == d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] dg[v] == cnt(ch_t(d), e, v) }
pub proof fn ch_cnt_init(d: Ch, dg: Seq<i32>)
    requires ch_ok(d), dg.len() == d.n, forall|v: int| 0 <= v < d.n ==> #[trigger] dg[v] == 0,
    ensures ch_cnt(d, dg, d.p[0] as int),
{ reveal(ch_cnt); ch_n(d); }
pub proof fn ch_cnt_diag(d: Ch, dg: Seq<i32>, u: int)
    requires ch_ok(d), 0 <= u < d.n, ch_cnt(d, dg, d.p[u] as int),
    ensures ch_cnt(d, dg, d.p[u] + 1), 0 <= d.p[u] < d.p[u + 1] <= d.p[d.n], d.p[d.n] <= d.s.len(), d.p.len() > d.n, d.p[d.n] < i32::MAX,
{ reveal(ch_cnt); ch_col(d, u); reveal(ch_t); ch_n(d); assert(in_col(d.p, u, d.p[u] as int)); src_is(d.p, d.n, u, d.p[u] as int); }
pub proof fn ch_cnt_edge(d: Ch, dg: Seq<i32>, u: int, e: int)
    requires ch_ok(d), ch_edge(d.p, d.n, u, e), ch_cnt(d, dg, e),
    ensures ch_cnt(d, dg.update(d.s[e] as int, (dg[d.s[e] as int] + 1) as i32), e + 1), dg.len() == d.n, 0 <= d.s[e] < d.n, 0 <= dg[d.s[e] as int] < i32::MAX, 0 <= e < d.s.len(),
{
    reveal(ch_cnt); ch_e(d, u, e); ch_col(d, u); cnt_bounds(ch_t(d), e, d.s[e] as int); let g2 = dg.update(d.s[e] as int, (dg[d.s[e] as int] + 1) as i32);
    assert(dg[d.s[e] as int] == cnt(ch_t(d), e, d.s[e] as int));
    assert forall|v: int| 0 <= v < d.n implies #[trigger] g2[v] == cnt(ch_t(d), e + 1, v) by { assert(dg[v] == cnt(ch_t(d), e, v)); }
}
pub proof fn ch_dg(d: Ch, dg: Seq<i32>, v: int)
    requires ch_ok(d), ch_cnt(d, dg, d.p[d.n] as int), 0 <= v < d.n,
    ensures dg.len() == d.n, dg[v] == ch_deg(d, v), dg[v] >= 0,
{ reveal(ch_cnt); ch_col(d, v); cnt_bounds(ch_t(d), d.p[d.n] as int, v); }
// ---- nodes with no dependence on them
#[verifier::opaque]
pub open spec fn ch_rts(d: Ch, r: Seq<i32>, j: int) -> bool {
    (forall|a: int| 0 <= a < r.len() ==> 0 <= #[trigger] r[a] < j && ch_root(d, r[a] as int)) && (forall|a: int, b: int| 0 <= a < b < r.len() ==> #[trigger] r[a] < #[trigger] r[b])
    && forall|v: int| 0 <= v < j && ch_root(d, v) ==> #[trigger] r.contains(v as i32)
}
pub proof fn ch_rts_init(d: Ch, r: Seq<i32>)
    requires r.len() == 0,
    ensures ch_rts(d, r, 0),
{ reveal(ch_rts); }
pub proof fn ch_rts_step(d: Ch, r: Seq<i32>, j: int)
    requires ch_ok(d), ch_rts(d, r, j), 0 <= j < d.n,
    ensures ch_root(d, j) ==> ch_rts(d, r.push(j as i32), j + 1), !ch_root(d, j) ==> ch_rts(d, r, j + 1),
{
    reveal(ch_rts); ch_n(d);
    if ch_root(d, j) {
        let r2 = r.push(j as i32);
        assert forall|a: int| 0 <= a < r2.len() implies 0 <= #[trigger] r2[a] < j + 1 && ch_root(d, r2[a] as int) by { if a < r.len() { assert(r2[a] == r[a]); } }
        assert forall|a: int, b: int| 0 <= a < b < r2.len() implies #[trigger] r2[a] < #[trigger] r2[b] by { assert(r2[a] == r[a]); if b < r.len() { assert(r2[b] == r[b]); } }
        assert forall|v: int| 0 <= v < j + 1 && ch_root(d, v) implies #[trigger] r2.contains(v as i32) by { if v < j { assert(r.contains(v as i32)); ch_keep(r, j as i32, v as i32); } else { assert(r2[r.len() as int] == v); } }
    } else {
        assert forall|v: int| 0 <= v < j + 1 && ch_root(d, v) implies #[trigger] r.contains(v as i32) by { if v == j { assert(false); } }
    }
}
pub proof fn ch_keep(r: Seq<i32>, x: i32, v: i32)
    requires r.contains(v),
    ensures r.push(x).contains(v),
{ let k = r.index_of(v); assert(r.push(x)[k] == v); }
// ---- the traversal: c nodes are placed, r is waiting, h is being looked at and its entries below ce are done
pub open spec fn ch_hasp(d: Ch, pos: Seq<int>, h: int, v: int) -> bool { ch_root(d, v) || exists|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && d.s[e] == v && (pos[u] >= 0 || u == h) }
pub open spec fn ch_ord(d: Ch, a: int, b: int) -> bool { a != b && (ch_root(d, a) || (!ch_root(d, b) && a < b)) }
pub open spec fn ch_got(pos: Seq<int>, r: Seq<i32>, h: int, v: int) -> bool { pos[v] >= 0 || v == h || r.contains(v as i32) }
#[verifier::opaque]
pub open spec fn ch_pl(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>) -> bool {
    0 <= c <= d.n && gs.len() == d.n && pos.len() == d.n && (forall|v: int| 0 <= v < d.n ==> -1 <= #[trigger] pos[v] < c && (pos[v] >= 0 ==> gs[pos[v]] == v))
    && (forall|x: int| 0 <= x < c ==> 0 <= #[trigger] gs[x] < d.n && pos[gs[x] as int] == x)
}
#[verifier::opaque]
pub open spec fn ch_wait(d: Ch, pos: Seq<int>, r: Seq<i32>, h: int, ce: int) -> bool {
    (h == -1 || (0 <= h < d.n && pos[h] < 0 && d.p[h] < ce <= d.p[h + 1] && ch_hasp(d, pos, -1, h)))
    && (forall|v: int| 0 <= v < d.n && #[trigger] pos[v] >= 0 ==> ch_hasp(d, pos, -1, v))
    && (forall|a: int| 0 <= a < r.len() ==> 0 <= #[trigger] r[a] < d.n && pos[r[a] as int] < 0 && r[a] != h && ch_hasp(d, pos, h, r[a] as int) && (ch_root(d, r[a] as int) || h == -1 || r[a] <= d.s[ce - 1]))
    && (forall|a: int, b: int| 0 <= a < b < r.len() ==> ch_ord(d, #[trigger] r[a] as int, #[trigger] r[b] as int))
}
#[verifier::opaque]
pub open spec fn ch_kids(d: Ch, pos: Seq<int>, r: Seq<i32>, h: int, ce: int) -> bool {
    (forall|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && (pos[u] >= 0 || (u == h && e < ce)) ==> ch_got(pos, r, h, d.s[e] as int))
    && (forall|v: int| 0 <= v < d.n && #[trigger] ch_root(d, v) ==> ch_got(pos, r, h, v))
}
pub open spec fn ch_core(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, r: Seq<i32>, h: int, ce: int) -> bool { ch_pl(d, gs, c, pos) && ch_wait(d, pos, r, h, ce) && ch_kids(d, pos, r, h, ce) }
pub open spec fn ch_none(n: int) -> Seq<int> { Seq::new(n as nat, |v: int| -1) }
pub proof fn ch_begin(d: Ch, gs: Seq<i32>, r: Seq<i32>)
    requires ch_ok(d), gs.len() == d.n, ch_rts(d, r, d.n),
    ensures ch_core(d, gs, 0, ch_none(d.n), r, -1, 0),
{
    reveal(ch_pl); reveal(ch_wait); reveal(ch_kids); reveal(ch_rts); ch_n(d); let pos = ch_none(d.n);
    assert forall|v: int| 0 <= v < d.n && #[trigger] ch_root(d, v) implies ch_got(pos, r, -1, v) by { assert(r.contains(v as i32)); }
}
proof fn ch_got_pop(pos: Seq<int>, r: Seq<i32>, h: i32, v: int)
    requires ch_got(pos, r.push(h), -1, v), 0 <= v <= i32::MAX,
    ensures ch_got(pos, r, h as int, v),
{ let P = r.push(h); if P.contains(v as i32) { let q = P.index_of(v as i32); if q < r.len() { assert(r[q] == v as i32); } else { assert(P[q] == h); } } }
pub proof fn ch_take(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, r: Seq<i32>, h: i32)
    requires ch_ok(d), ch_core(d, gs, c, pos, r.push(h), -1, 0),
    ensures ch_core(d, gs, c, pos, r, h as int, d.p[h as int] + 1), 0 <= h < d.n, 0 <= c < d.n, gs.len() == d.n, pos.len() == d.n, pos[h as int] < 0, 0 <= d.p[h as int] < d.p[h + 1] <= d.p[d.n], d.p[d.n] <= d.s.len(), d.p.len() > d.n, d.p[d.n] < i32::MAX,
{
    reveal(ch_pl); reveal(ch_wait); reveal(ch_kids); let P = r.push(h); let k = r.len() as int; assert(P[k] == h); ch_col(d, h as int);
    assert forall|a: int| 0 <= a < r.len() implies 0 <= #[trigger] r[a] < d.n && pos[r[a] as int] < 0 && r[a] != h && ch_hasp(d, pos, h as int, r[a] as int) && (ch_root(d, r[a] as int) || r[a] <= d.s[d.p[h as int] as int]) by {
        assert(P[a] == r[a]); assert(ch_ord(d, P[a] as int, P[k] as int)); if !ch_root(d, r[a] as int) { let (u, e) = choose|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && d.s[e] == r[a] && (pos[u] >= 0 || u == -1); assert(ch_edge(d.p, d.n, u, e)); }
    }
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies ch_ord(d, #[trigger] r[a] as int, #[trigger] r[b] as int) by { assert(ch_ord(d, P[a] as int, P[b] as int)); }
    assert forall|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && (pos[u] >= 0 || (u == h && e < d.p[h as int] + 1)) implies ch_got(pos, r, h as int, d.s[e] as int) by { ch_e(d, u, e); assert(ch_got(pos, P, -1, d.s[e] as int)); ch_got_pop(pos, r, h, d.s[e] as int); }
    assert forall|v: int| 0 <= v < d.n && #[trigger] ch_root(d, v) implies ch_got(pos, r, h as int, v) by { ch_n(d); assert(ch_got(pos, P, -1, v)); ch_got_pop(pos, r, h, v); }
    // fewer than n are placed
    let t = Seq::new((c + 1) as nat, |x: int| if x < c { gs[x] as int } else { h as int });
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { if a < c { assert(pos[gs[a] as int] == a); } if b < c { assert(pos[gs[b] as int] == b); } } }
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < d.n by { if x < c { assert(0 <= gs[x] < d.n); } }
    ch_n(d); distinct_len(t, d.n);
}
pub proof fn ch_child(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, r: Seq<i32>, h: int, ce: int)
    requires ch_ok(d), ch_core(d, gs, c, pos, r, h, ce), h >= 0, d.p[h] < ce < d.p[h + 1],
    ensures ch_edge(d.p, d.n, h, ce), h < d.s[ce] < d.n, 0 <= ce < d.s.len(), ch_deg(d, d.s[ce] as int) > 0,
        pos[d.s[ce] as int] < 0 ==> ch_core(d, gs, c, pos, r.push(d.s[ce]), h, ce + 1),
        pos[d.s[ce] as int] >= 0 ==> ch_core(d, gs, c, pos, r, h, ce + 1),
        ch_deg(d, d.s[ce] as int) == 1 ==> pos[d.s[ce] as int] < 0,
{
    reveal(ch_wait); reveal(ch_kids); assert(0 <= h < d.n); assert(ch_edge(d.p, d.n, h, ce)); ch_e(d, h, ce); let w = d.s[ce]; ch_col(d, h);
    if ch_deg(d, w as int) == 1 && pos[w as int] >= 0 {
        assert(ch_hasp(d, pos, -1, w as int)); let (u, e) = choose|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && d.s[e] == w && (pos[u] >= 0 || u == -1); ch_uni(d, u, e, h, ce);
    }
    if pos[w as int] < 0 {
        let P = r.push(w); let k = r.len() as int;
        assert(ch_hasp(d, pos, h, w as int)) by { assert(ch_edge(d.p, d.n, h, ce)); }
        assert forall|a: int| 0 <= a < P.len() implies 0 <= #[trigger] P[a] < d.n && pos[P[a] as int] < 0 && P[a] != h && ch_hasp(d, pos, h, P[a] as int) && (ch_root(d, P[a] as int) || P[a] <= d.s[ce]) by { if a < k { assert(P[a] == r[a]); } }
        assert forall|a: int, b: int| 0 <= a < b < P.len() implies ch_ord(d, #[trigger] P[a] as int, #[trigger] P[b] as int) by { assert(P[a] == r[a]); if b < k { assert(P[b] == r[b]); assert(ch_ord(d, r[a] as int, r[b] as int)); } else { assert(P[b] == w); assert(ch_root(d, r[a] as int) || r[a] <= d.s[ce - 1]); } }
        assert(P[k] == w); assert(P.contains(w));
        assert forall|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && (pos[u] >= 0 || (u == h && e < ce + 1)) implies ch_got(pos, P, h, d.s[e] as int) by { if !(u == h && e == ce) { assert(ch_got(pos, r, h, d.s[e] as int)); if r.contains(d.s[e]) { ch_keep(r, w, d.s[e]); } } }
        assert forall|v: int| 0 <= v < d.n && #[trigger] ch_root(d, v) implies ch_got(pos, P, h, v) by { assert(ch_got(pos, r, h, v)); if r.contains(v as i32) { ch_keep(r, w, v as i32); } }
    } else {
        assert forall|a: int| 0 <= a < r.len() implies 0 <= #[trigger] r[a] < d.n && pos[r[a] as int] < 0 && r[a] != h && ch_hasp(d, pos, h, r[a] as int) && (ch_root(d, r[a] as int) || r[a] <= d.s[ce]) by { }
    }
}
proof fn ch_hasp_up(d: Ch, pos: Seq<int>, h: int, c: int, g: int, v: int)
    requires ch_ok(d), pos.len() == d.n, 0 <= h < d.n, c >= 0, ch_hasp(d, pos, g, v), g == -1 || g == h,
    ensures ch_hasp(d, pos.update(h, c), -1, v),
{ if !ch_root(d, v) { let (u, e) = choose|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && d.s[e] == v && (pos[u] >= 0 || u == g); assert(ch_edge(d.p, d.n, u, e) && pos.update(h, c)[u] >= 0); } }
proof fn ch_place_wait(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, r: Seq<i32>, h: int)
    requires ch_ok(d), pos.len() == d.n, ch_wait(d, pos, r, h, d.p[h + 1] as int), 0 <= h < d.n, 0 <= c < d.n,
    ensures ch_wait(d, pos.update(h, c), r, -1, 0),
{
    reveal(ch_wait); let p2 = pos.update(h, c); 
    assert forall|v: int| 0 <= v < d.n && #[trigger] p2[v] >= 0 implies ch_hasp(d, p2, -1, v) by { if v != h { assert(pos[v] >= 0); } ch_hasp_up(d, pos, h, c, -1, v); }
    assert forall|a: int| 0 <= a < r.len() implies 0 <= #[trigger] r[a] < d.n && p2[r[a] as int] < 0 && r[a] != -1 && ch_hasp(d, p2, -1, r[a] as int) by { ch_hasp_up(d, pos, h, c, h, r[a] as int); }
}
pub proof fn ch_place(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, r: Seq<i32>, h: int)
    requires ch_ok(d), ch_core(d, gs, c, pos, r, h, d.p[h + 1] as int), 0 <= h < d.n, c < d.n,
    ensures ch_core(d, gs.update(c, h as i32), c + 1, pos.update(h, c), r, -1, 0),
{
    assert(0 <= c && pos.len() == d.n && gs.len() == d.n) by { reveal(ch_pl); } ch_place_wait(d, gs, c, pos, r, h); ch_n(d); let g2 = gs.update(c, h as i32); let p2 = pos.update(h, c);
    assert(pos[h] < 0) by { reveal(ch_wait); } assert(ch_pl(d, g2, c + 1, p2)) by { reveal(ch_pl); } reveal(ch_kids);
    assert forall|u: int, e: int| #[trigger] ch_edge(d.p, d.n, u, e) && (p2[u] >= 0 || (u == -1 && e < 0)) implies ch_got(p2, r, -1, d.s[e] as int) by { ch_e(d, u, e); assert(ch_got(pos, r, h, d.s[e] as int)); }
    assert forall|v: int| 0 <= v < d.n && #[trigger] ch_root(d, v) implies ch_got(p2, r, -1, v) by { assert(ch_got(pos, r, h, v)); }
}
proof fn ch_every(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>, v: int)
    requires ch_ok(d), ch_core(d, gs, c, pos, seq![], -1, 0), 0 <= v < d.n,
    ensures pos[v] >= 0,
    decreases v
{
    reveal(ch_kids);
    if ch_root(d, v) { assert(ch_got(pos, seq![], -1, v)); } else { let (u, e) = ch_pred(d, v); ch_e(d, u, e); ch_every(d, gs, c, pos, u); assert(ch_got(pos, seq![], -1, v)); }
}
pub proof fn ch_all(d: Ch, gs: Seq<i32>, c: int, pos: Seq<int>)
    requires ch_ok(d), ch_core(d, gs, c, pos, seq![], -1, 0),
    ensures c == d.n, is_perm(gs, d.n), gs.len() == d.n,
{
    reveal(ch_pl); ch_n(d);
    assert forall|v: int| 0 <= v < pos.len() implies 0 <= #[trigger] pos[v] < c by { ch_every(d, gs, c, pos, v); }
    assert(pos.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < pos.len() && 0 <= b < pos.len() && a != b implies pos[a] != pos[b] by { assert(gs[pos[a]] == a); assert(gs[pos[b]] == b); } }
    distinct_len(pos, c);
    assert forall|a: int, b: int| 0 <= a < d.n && 0 <= b < d.n && a != b implies #[trigger] gs[a] != #[trigger] gs[b] by { assert(pos[gs[a] as int] == a); assert(pos[gs[b] as int] == b); }
}
#[verifier::opaque]
pub open spec fn ch_vis(d: Ch, vis: Seq<bool>, pos: Seq<int>, h: int) -> bool { vis.len() == d.n && forall|v: int| 0 <= v < d.n && v != h ==> #[trigger] vis[v] == (pos[v] >= 0) }
pub proof fn ch_vis_init(d: Ch, vis: Seq<bool>)
    requires vis.len() == d.n, forall|v: int| 0 <= v < d.n ==> !#[trigger] vis[v],
    ensures ch_vis(d, vis, ch_none(d.n), -1),
{ reveal(ch_vis); }
pub proof fn ch_vis_set(d: Ch, vis: Seq<bool>, pos: Seq<int>, h: int)
    requires ch_vis(d, vis, pos, h) || ch_vis(d, vis, pos, -1), 0 <= h < d.n,
    ensures vis.len() == d.n, ch_vis(d, vis.update(h, true), pos, h), pos.len() == d.n ==> forall|c: int| c >= 0 ==> #[trigger] ch_vis(d, vis.update(h, true), pos.update(h, c), -1),
{ reveal(ch_vis); }
pub proof fn ch_vis_any(d: Ch, vis: Seq<bool>, pos: Seq<int>, h: int)
    requires ch_vis(d, vis, pos, -1),
    ensures ch_vis(d, vis, pos, h),
{ reveal(ch_vis); }
pub proof fn ch_vis_at(d: Ch, vis: Seq<bool>, pos: Seq<int>, h: int, v: int)
    requires ch_vis(d, vis, pos, h), 0 <= v < d.n, v != h,
    ensures vis.len() == d.n, vis[v] == (pos[v] >= 0),
{ reveal(ch_vis); }
// ---- the lists are chains: y is the node that continues the open chain (none: -1)
pub open spec fn ch_link(d: Ch, u: int, w: int) -> bool { 0 <= u < d.n && d.p[u + 1] - d.p[u] == 2 && d.s[d.p[u] + 1] == w && ch_deg(d, w) == 1 }
#[verifier::opaque]
pub open spec fn ch_lists(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int, y: int) -> bool {
    0 <= c <= gs.len() && (gp.len() == 0 ==> c == 0 && y < 0) && (gp.len() > 0 ==> gp[0] == 0) && (forall|a: int, b: int| 0 <= a < b < gp.len() ==> #[trigger] gp[a] < #[trigger] gp[b])
    && (forall|k: int| 0 <= k < gp.len() ==> 0 <= #[trigger] gp[k] <= c && (gp[k] == c ==> y >= 0)) && (forall|x: int| 0 <= x < c - 1 ==> gp.contains((x + 1) as i32) || ch_link(d, #[trigger] gs[x] as int, gs[x + 1] as int))
    && (y >= 0 ==> gp.contains(c as i32) || (c > 0 && ch_link(d, gs[c - 1] as int, y)))
}
pub proof fn ch_lists_init(d: Ch, gs: Seq<i32>, gp: Seq<i32>)
    requires gp.len() == 0,
    ensures ch_lists(d, gs, gp, 0, -1),
{ reveal(ch_lists); }
pub proof fn ch_lists_len(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int, y: int)
    requires ch_lists(d, gs, gp, c, y),
    ensures gp.len() <= c + 1, y < 0 ==> gp.len() <= c,
{ reveal(ch_lists); if gp.len() > 0 { ch_up(gp, gp.len() - 1); } }
pub proof fn ch_up(gp: Seq<i32>, k: int)
    requires 0 <= k < gp.len(), gp[0] == 0, forall|a: int, b: int| 0 <= a < b < gp.len() ==> #[trigger] gp[a] < #[trigger] gp[b],
    ensures gp[k] >= k,
    decreases k
{ if k > 0 { ch_up(gp, k - 1); assert(gp[k - 1] < gp[k]); } }
pub proof fn ch_lists_open(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int, y: int)
    requires ch_lists(d, gs, gp, c, -1), y >= 0, c <= i32::MAX,
    ensures ch_lists(d, gs, gp.push(c as i32), c, y),
{
    reveal(ch_lists); let g2 = gp.push(c as i32); assert(g2[gp.len() as int] == c);
    assert forall|a: int, b: int| 0 <= a < b < g2.len() implies #[trigger] g2[a] < #[trigger] g2[b] by { assert(g2[a] == gp[a]); if b < gp.len() { assert(g2[b] == gp[b]); } }
    assert forall|k: int| 0 <= k < g2.len() implies 0 <= #[trigger] g2[k] <= c && (g2[k] == c ==> y >= 0) by { if k < gp.len() { assert(g2[k] == gp[k]); } }
    assert forall|x: int| 0 <= x < c - 1 implies g2.contains((x + 1) as i32) || ch_link(d, #[trigger] gs[x] as int, gs[x + 1] as int) by { if gp.contains((x + 1) as i32) { ch_keep(gp, c as i32, (x + 1) as i32); } }
}
pub proof fn ch_lists_put(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int, h: i32, y: int)
    requires ch_lists(d, gs, gp, c, h as int), h >= 0, 0 <= c < gs.len(), c < i32::MAX, y < 0 || ch_link(d, h as int, y),
    ensures ch_lists(d, gs.update(c, h), gp, c + 1, y),
{
    reveal(ch_lists); let g2 = gs.update(c, h);
    assert forall|x: int| 0 <= x < c implies gp.contains((x + 1) as i32) || ch_link(d, #[trigger] g2[x] as int, g2[x + 1] as int) by { assert(g2[x] == gs[x]); if x < c - 1 { assert(g2[x + 1] == gs[x + 1]); } }
}
pub open spec fn ch_linked(d: Ch, gp: Seq<i32>, gs: Seq<i32>, ng: int) -> bool { forall|g: int, x: int| 0 <= g < ng && #[trigger] gt_pos(gp, g, x) && x + 1 < gp[g + 1] ==> ch_link(d, gs[x] as int, gs[x + 1] as int) }
pub open spec fn ch_gt(d: Ch, gp: Seq<i32>, gs: Seq<i32>) -> Gt { Gt { n: d.n, ng: gp.len() - 1, gp: gp, gs: gs } }
proof fn ch_tail_asc(gp: Seq<i32>, c: int)
    requires gp.len() >= 1, forall|a: int, b: int| 0 <= a < b < gp.len() ==> #[trigger] gp[a] < #[trigger] gp[b], forall|k: int| 0 <= k < gp.len() ==> #[trigger] gp[k] < c, c <= i32::MAX, gp[0] == 0,
    ensures ({ let g2 = gp.push(c as i32); (forall|a: int, b: int| 0 <= a < b < g2.len() ==> #[trigger] g2[a] < #[trigger] g2[b]) && ptrs(g2, gp.len() as int) && (forall|g: int| 0 <= g < gp.len() ==> #[trigger] g2[g] < g2[g + 1]) && (forall|k: int| 0 <= k < gp.len() ==> g2[k] == #[trigger] gp[k]) && g2[gp.len() as int] == c }),
{
    let g2 = gp.push(c as i32);
    assert forall|a: int, b: int| 0 <= a < b < g2.len() implies #[trigger] g2[a] < #[trigger] g2[b] by { assert(g2[a] == gp[a]); if b < gp.len() { assert(g2[b] == gp[b]); } }
}
proof fn ch_tail_link(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int, g: int, x: int)
    requires ch_lists(d, gs, gp, c, -1), c <= i32::MAX, gp.len() >= 1, 0 <= g < gp.len(), gt_pos(gp.push(c as i32), g, x), x + 1 < gp.push(c as i32)[g + 1], forall|a: int, b: int| 0 <= a < b < gp.len() + 1 ==> #[trigger] gp.push(c as i32)[a] < #[trigger] gp.push(c as i32)[b],
    ensures ch_link(d, gs[x] as int, gs[x + 1] as int),
{
    reveal(ch_lists); let g2 = gp.push(c as i32); let ng = gp.len() as int;
    assert(g2[g] == gp[g] && gp[g] >= 0); assert(g2[g + 1] <= c) by { if g + 1 < ng { assert(g2[g + 1] == gp[g + 1]); } }
    if gp.contains((x + 1) as i32) { let k = gp.index_of((x + 1) as i32); assert(g2[k] == gp[k]); if k <= g { if k < g { assert(g2[k] < g2[g]); } } else { if k > g + 1 { assert(g2[g + 1] < g2[k]); } } assert(false); }
}
proof fn ch_tail_low(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int)
    requires ch_lists(d, gs, gp, c, -1), c >= 1,
    ensures 1 <= gp.len() <= c, gp[0] == 0, forall|k: int| 0 <= k < gp.len() ==> #[trigger] gp[k] < c, forall|a: int, b: int| 0 <= a < b < gp.len() ==> #[trigger] gp[a] < #[trigger] gp[b],
{ reveal(ch_lists); ch_lists_len(d, gs, gp, c, -1); }
pub proof fn ch_tail(d: Ch, gs: Seq<i32>, gp: Seq<i32>, c: int)
    requires ch_ok(d), ch_lists(d, gs, gp, c, -1), c == d.n, is_perm(gs, d.n), gs.len() == d.n,
    ensures gp.len() >= 1, gp[gp.len() - 1] != c, gt_ok(ch_gt(d, gp.push(c as i32), gs)), ch_linked(d, gp.push(c as i32), gs, gp.len() as int),
{
    assert(1 <= d.n < i32::MAX) by { ch_n(d); } ch_tail_low(d, gs, gp, c); ch_tail_asc(gp, c); let g2 = gp.push(c as i32); let ng = gp.len() as int;
    assert(gt_ok(ch_gt(d, g2, gs))) by { reveal(gt_ok); }
    assert forall|g: int, x: int| 0 <= g < ng && #[trigger] gt_pos(g2, g, x) && x + 1 < g2[g + 1] implies ch_link(d, gs[x] as int, gs[x + 1] as int) by { ch_tail_link(d, gs, gp, c, g, x); }
}
// ---- result
// w depends on u, u has no other dependence and w no other predecessor
pub open spec fn only_link(p: Seq<i32>, s: Seq<i32>, n: int, u: int, w: int) -> bool { 0 <= u < n && p[u + 1] == p[u] + 2 && s[p[u] + 1] == w && forall|v: int, e: int| #[trigger] ch_edge(p, n, v, e) && s[e] == w ==> v == u }
pub open spec fn groups_part(gp: Seq<i32>, gs: Seq<i32>, ng: int, n: int) -> bool { ng >= 0 && gp.len() == ng + 1 && gp[0] == 0 && gp[ng] == n && (forall|j: int| 0 <= j < ng ==> #[trigger] gp[j] < gp[j + 1]) && gs.len() == n && is_perm(gs, n) }
pub open spec fn chain_groups(p: Seq<i32>, s: Seq<i32>, n: int, ng: int, gp: Seq<i32>, gs: Seq<i32>) -> bool {
    groups_part(gp, gs, ng, n)
    && (forall|j: int, x: int| 0 <= j < ng && #[trigger] gt_pos(gp, j, x) && x + 1 < gp[j + 1] ==> only_link(p, s, n, gs[x] as int, gs[x + 1] as int))
    && forall|x: int, y: int, e: int| 0 <= x < n && 0 <= y < n && #[trigger] in_col(p, #[trigger] gs[x] as int, e) && s[e] == #[trigger] gs[y] ==> x <= y
}
proof fn ch_only(d: Ch, u: int, w: int)
    requires ch_ok(d), ch_link(d, u, w),
    ensures only_link(d.p, d.s, d.n, u, w), u < w < d.n,
{
    ch_col(d, u); let f = d.p[u] + 1; assert(ch_edge(d.p, d.n, u, f)); ch_e(d, u, f);
    assert forall|v: int, e: int| #[trigger] ch_edge(d.p, d.n, v, e) && d.s[e] == w implies v == u by { ch_uni(d, v, e, u, f); }
}
proof fn ch_rise(d: Ch, t: Gt, g: int, x: int)
    requires ch_ok(d), gt_ok(t), t.n == d.n, ch_linked(d, t.gp, t.gs, t.ng), 0 <= g < t.ng, gt_pos(t.gp, g, x),
    ensures t.gs[t.gp[g] as int] <= t.gs[x],
    decreases x - t.gp[g]
{ if x > t.gp[g] { ch_rise(d, t, g, x - 1); assert(gt_pos(t.gp, g, x - 1)); ch_only(d, t.gs[x - 1] as int, t.gs[x] as int); } }
proof fn ch_first(d: Ch, t: Gt, g: int)
    requires ch_ok(d), gt_ok(t), t.n == d.n, ch_linked(d, t.gp, t.gs, t.ng), 0 <= g < t.ng,
    ensures gt_mn(t, g) == t.gs[t.gp[g] as int],
{ let x = gt_min_is(t, g); gt_grp(t, g); assert(gt_pos(t.gp, g, x)); ch_rise(d, t, g, x); assert(gt_mn(t, g) <= t.gs[t.gp[g] as int]); }
proof fn ch_new(d: Ch, t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, x: int)
    requires ch_ok(d), gt_ok(t), t.n == d.n, ch_linked(d, t.gp, t.gs, t.ng), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, gt_pos(gp2, j, x),
    ensures x + 1 < gp2[j + 1] ==> ch_link(d, gs2[x] as int, gs2[x + 1] as int), gt_mn(t, ord[j]) == gs2[gp2[j] as int], gs2[gp2[j] as int] <= gs2[x],
{
    let g = ord[j]; assert(gt_same(t, gp2, gs2, j, g)); gt_grp(t, g); let o = x - gp2[j]; let a = t.gp[g] as int; assert(gs2[gp2[j] + o] == t.gs[a + o]); assert(gs2[gp2[j] + 0] == t.gs[a + 0]);
    assert(gt_pos(t.gp, g, a + o)); if x + 1 < gp2[j + 1] { assert(gs2[gp2[j] + (o + 1)] == t.gs[a + (o + 1)]); } ch_first(d, t, g); ch_rise(d, t, g, a + o);
}
pub proof fn ch_result(d: Ch, t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>)
    requires ch_ok(d), gt_ok(t), t.n == d.n, ch_linked(d, t.gp, t.gs, t.ng), gt_result(t, gp2, gs2, ord),
    ensures chain_groups(d.p, d.s, d.n, t.ng, gp2, gs2),
{
    gt_ptrs(t, gp2, gs2, ord); reveal(gt_ok);
    assert forall|j: int, x: int| 0 <= j < t.ng && #[trigger] gt_pos(gp2, j, x) && x + 1 < gp2[j + 1] implies only_link(d.p, d.s, d.n, gs2[x] as int, gs2[x + 1] as int) by { ch_new(d, t, gp2, gs2, ord, j, x); ch_only(d, gs2[x] as int, gs2[x + 1] as int); }
    assert forall|x: int, y: int, e: int| 0 <= x < d.n && 0 <= y < d.n && #[trigger] in_col(d.p, #[trigger] gs2[x] as int, e) && d.s[e] == #[trigger] gs2[y] implies x <= y by { ch_topo(d, t, gp2, gs2, ord, x, y, e); }
}
proof fn ch_at(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, x: int) -> (j: int)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= x < t.n,
    ensures 0 <= j < t.ng, gt_pos(gp2, j, x), 0 <= gs2[x] < t.n, 0 <= gp2[j],
{ gt_ptrs(t, gp2, gs2, ord); src_ex(gp2, t.ng, x); let j = src(gp2, t.ng, x); assert(gp2[0] <= gp2[j]); j }
proof fn ch_one(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, x: int, y: int)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= x < t.n, 0 <= y < t.n, gs2[x] == gs2[y],
    ensures x == y,
{ }
proof fn ch_before(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int, x: int, k: int, y: int)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng, 0 <= k < t.ng, gt_pos(gp2, j, x), gt_pos(gp2, k, y), gt_mn(t, ord[j]) < gt_mn(t, ord[k]),
    ensures x < y,
{
    gt_ptrs(t, gp2, gs2, ord); if k < j { assert(gt_mn(t, ord[k]) < gt_mn(t, ord[j])); }
    assert(gp2[j + 1] <= gp2[k]);
}
proof fn ch_next(d: Ch, u: int, e: int, w: int)
    requires ch_ok(d), ch_edge(d.p, d.n, u, e), ch_link(d, u, w),
    ensures d.s[e] == w,
{ }
proof fn ch_topo(d: Ch, t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, x: int, y: int, e: int)
    requires ch_ok(d), gt_ok(t), t.n == d.n, ch_linked(d, t.gp, t.gs, t.ng), gt_result(t, gp2, gs2, ord), 0 <= x < d.n, 0 <= y < d.n, in_col(d.p, gs2[x] as int, e), d.s[e] == gs2[y],
    ensures x <= y,
{
    hide(gt_result); hide(ch_linked); hide(only_link);
    let j = ch_at(t, gp2, gs2, ord, x); let k = ch_at(t, gp2, gs2, ord, y); let u = gs2[x] as int; let w = gs2[y] as int;
    ch_col(d, u); let n1 = gt_lens(t, gp2, gs2, ord, j); let n2 = gt_lens(t, gp2, gs2, ord, k);
    if e == d.p[u] { ch_one(t, gp2, gs2, ord, x, y); }
    else {
        assert(ch_edge(d.p, d.n, u, e)); ch_e(d, u, e);
        ch_new(d, t, gp2, gs2, ord, j, x); ch_new(d, t, gp2, gs2, ord, k, y);
        if x + 1 < gp2[j + 1] { ch_next(d, u, e, gs2[x + 1] as int); ch_one(t, gp2, gs2, ord, x + 1, y); }
        else if y > gp2[k] {
            ch_new(d, t, gp2, gs2, ord, k, y - 1); let v = gs2[y - 1] as int; ch_only(d, v, w);
            assert(v == u) by { reveal(only_link); } ch_one(t, gp2, gs2, ord, x, y - 1);
        } else { ch_before(t, gp2, gs2, ord, j, x, k, y); }
    }
}
proof fn gt_lens(t: Gt, gp2: Seq<i32>, gs2: Seq<i32>, ord: Seq<int>, j: int) -> (r: int)
    requires gt_ok(t), gt_result(t, gp2, gs2, ord), 0 <= j < t.ng,
    ensures gp2.len() == t.ng + 1, gs2.len() == t.n, 0 <= gp2[j] < gp2[j + 1] <= t.n,
{ gt_ptrs(t, gp2, gs2, ord); assert(gp2[0] <= gp2[j]); assert(gp2[j + 1] <= gp2[t.ng]); 0 }
pub open spec fn ch_y(g: Seq<i32>) -> int { if g.len() > 0 { g[0] as int } else { -1 } }
