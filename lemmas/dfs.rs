//@uses graph perm
// depth-first search of the unmarked nodes: xs[0..=head] is the search path, xs[top..n] the nodes already left
pub ghost struct Dg { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub m0: Seq<i32>, pub j: int, pub rk: Seq<int> }
pub ghost struct Ds { pub xs: Seq<int>, pub ps: Seq<i32>, pub mk: Seq<i32>, pub head: int, pub top: int }
pub open spec fn some_rank(p: Seq<i32>, g: Seq<i32>, n: int) -> Seq<int> { choose|rk: Seq<int>| ranked(p, g, n, rk) }
pub open spec fn mkd(p: Seq<i32>, g: Seq<i32>, n: int, m0: Seq<i32>, j: int) -> Dg { Dg { p: p, g: g, n: n, m0: m0, j: j, rk: some_rank(p, g, n) } }
pub open spec fn ints(s: Seq<i32>) -> Seq<int> { Seq::new(s.len(), |x: int| s[x] as int) }
pub open spec fn dg_ok(d: Dg) -> bool { gwf(d.p, d.g, d.n) && d.n < i32::MAX && d.m0.len() >= d.n && 0 <= d.j < d.n && d.m0[d.j] == 0 }
pub open spec fn rk_ok(d: Dg) -> bool { ranked(d.p, d.g, d.n, d.rk) }
pub open spec fn lv(d: Dg, s: Ds, x: int) -> bool { 0 <= x <= s.head || s.top <= x < d.n }
pub open spec fn on(d: Dg, s: Ds, v: int) -> bool { exists|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v }
// the target of e is marked, and recorded when it belongs to an earlier component
pub open spec fn ok_e(d: Dg, mk: Seq<i32>, cl: Seq<i32>, e: int) -> bool { mk[d.g[e] as int] != 0 && (d.m0[d.g[e] as int] == -1 ==> cl.contains(d.g[e])) }
pub open spec fn mark_ok(d: Dg, s: Ds, fresh: bool, v: int) -> bool { s.mk[v] == (if on(d, s, v) && !(fresh && s.head >= 0 && v == s.xs[s.head]) { 1i32 } else { d.m0[v] }) }
pub open spec fn stk_ok(d: Dg, s: Ds, cl: Seq<i32>, x: int) -> bool {
    d.p[s.xs[x]] <= s.ps[x] <= d.p[s.xs[x] + 1] && forall|e: int| d.p[s.xs[x]] <= e < s.ps[x] ==> #[trigger] ok_e(d, s.mk, cl, e)
}
pub open spec fn link(d: Dg, s: Ds, x: int) -> bool { in_col(d.p, s.xs[x], s.ps[x] as int) && d.g[s.ps[x] as int] == s.xs[x + 1] }
pub open spec fn out_ok(d: Dg, s: Ds, cl: Seq<i32>, x: int) -> bool { forall|e: int| in_col(d.p, s.xs[x], e) ==> #[trigger] ok_e(d, s.mk, cl, e) }
// sets that contain the start and every unmarked successor of their members
pub open spec fn closed(d: Dg, c: Set<int>) -> bool {
    c.contains(d.j) && forall|v: int, e: int| 0 <= v < d.n && c.contains(v) && #[trigger] in_col(d.p, v, e) && d.m0[d.g[e] as int] == 0 ==> c.contains(d.g[e] as int)
}
pub open spec fn inside(d: Dg, s: Ds, c: Set<int>) -> bool { forall|x: int| #[trigger] lv(d, s, x) ==> c.contains(s.xs[x]) }
pub open spec fn from_on(d: Dg, s: Ds, e: int, c: int) -> bool { 0 <= e < d.p[d.n] && d.g[e] == c && on(d, s, src(d.p, d.n, e)) }
pub open spec fn clash_ok(d: Dg, s: Ds, c: int) -> bool { 0 <= c < d.n && d.m0[c] == -1 && exists|e: int| from_on(d, s, e, c) }
pub open spec fn after(d: Dg, s: Ds, x: int, v: int) -> bool { exists|y: int| x < y < d.n && #[trigger] s.xs[y] == v }
pub open spec fn topo_at(d: Dg, s: Ds, x: int) -> bool { forall|e: int| #[trigger] in_col(d.p, s.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s.xs[x] ==> after(d, s, x, d.g[e] as int) }
pub open spec fn rising(d: Dg, s: Ds) -> bool { forall|x: int, y: int| 0 <= x < y <= s.head ==> d.rk[#[trigger] s.xs[x]] < d.rk[#[trigger] s.xs[y]] }
#[verifier::opaque]
pub open spec fn dst(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>, fresh: bool) -> bool {
    dg_ok(d) && -1 <= s.head && s.head < s.top <= d.n && s.xs.len() >= d.n && s.ps.len() >= d.n && s.mk.len() == d.m0.len()
    && (fresh ==> s.head >= 0)
    && (forall|x: int| #[trigger] lv(d, s, x) ==> 0 <= s.xs[x] < d.n && d.m0[s.xs[x]] == 0)
    && (forall|x: int, y: int| #[trigger] lv(d, s, x) && #[trigger] lv(d, s, y) && x < y ==> s.xs[x] != s.xs[y])
    && (forall|v: int| 0 <= v < d.n ==> #[trigger] mark_ok(d, s, fresh, v))
    && (forall|v: int| d.n <= v < s.mk.len() ==> #[trigger] s.mk[v] == d.m0[v])
    && (forall|x: int| 0 <= x <= s.head && !(fresh && x == s.head) ==> #[trigger] stk_ok(d, s, cl, x))
    && (forall|x: int| 0 <= x < s.head ==> #[trigger] link(d, s, x))
    && (forall|x: int| s.top <= x < d.n ==> #[trigger] out_ok(d, s, cl, x))
    && (forall|c: Set<int>| #[trigger] closed(d, c) ==> inside(d, s, c))
    && on(d, s, d.j)
    && cl0.len() <= cl.len() && (forall|t: int| 0 <= t < cl0.len() ==> #[trigger] cl[t] == cl0[t])
    && (forall|t: int| cl0.len() <= t < cl.len() ==> clash_ok(d, s, #[trigger] cl[t] as int))
    && (rk_ok(d) ==> rising(d, s) && forall|x: int| s.top <= x < d.n ==> #[trigger] topo_at(d, s, x))
}
// the search marked exactly the nodes reachable through unmarked nodes and listed each of them once (successors later
// when the graph is acyclic); cl grew by exactly the neighbours that belong to earlier components
pub open spec fn is_dfs(d: Dg, xs: Seq<int>, top: int, mk: Seq<i32>, cl: Seq<i32>, cl0: Seq<i32>) -> bool {
    0 <= top < d.n && xs.len() >= d.n
    && (forall|x: int| top <= x < d.n ==> 0 <= #[trigger] xs[x] < d.n)
    && (forall|x: int, y: int| top <= x < y < d.n ==> #[trigger] xs[x] != #[trigger] xs[y])
    && mk.len() == d.m0.len() && (forall|v: int| 0 <= v < mk.len() ==> #[trigger] mk[v] == (if dlisted(d, xs, top, v) { 1i32 } else { d.m0[v] }))
    && dlisted(d, xs, top, d.j)
    && (forall|x: int, e: int| top <= x < d.n && #[trigger] in_col(d.p, xs[x], e) ==> mk[d.g[e] as int] != 0 && (d.m0[d.g[e] as int] == -1 ==> cl.contains(d.g[e])))
    && (forall|c: Set<int>, x: int| #[trigger] closed(d, c) && top <= x < d.n ==> c.contains(#[trigger] xs[x]))
    && cl0.len() <= cl.len() && (forall|t: int| 0 <= t < cl0.len() ==> #[trigger] cl[t] == cl0[t])
    && (forall|t: int| cl0.len() <= t < cl.len() ==> 0 <= #[trigger] cl[t] < d.n && d.m0[cl[t] as int] == -1 && clash_from(d, xs, top, cl[t] as int))
    && (rk_ok(d) ==> forall|x: int, e: int| top <= x < d.n && #[trigger] in_col(d.p, xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != xs[x] ==> later(d, xs, x, d.g[e] as int))
}
pub open spec fn dlisted(d: Dg, xs: Seq<int>, top: int, v: int) -> bool { exists|x: int| top <= x < d.n && #[trigger] xs[x] == v }
pub open spec fn later(d: Dg, xs: Seq<int>, x: int, v: int) -> bool { exists|y: int| x < y < d.n && #[trigger] xs[y] == v }
pub open spec fn clash_from(d: Dg, xs: Seq<int>, top: int, c: int) -> bool { exists|x: int, e: int| top <= x < d.n && #[trigger] in_col(d.p, xs[x], e) && d.g[e] == c }

pub proof fn col_bounds(d: Dg, v: int)
    requires gwf(d.p, d.g, d.n), 0 <= v < d.n,
    ensures 0 <= d.p[v] <= d.p[v + 1] <= d.p[d.n], d.p[d.n] <= d.g.len(), forall|e: int| d.p[v] <= e < d.p[v + 1] ==> 0 <= #[trigger] d.g[e] < d.n,
{ assert(d.p[0] <= d.p[v]); assert(d.p[v] <= d.p[v + 1]); assert(d.p[v + 1] <= d.p[d.n]); }
pub proof fn dst_init(d: Dg, s: Ds, cl: Seq<i32>)
    requires dg_ok(d), s.head == 0, s.top == d.n, s.xs.len() >= d.n, s.xs[0] == d.j, s.ps.len() >= d.n, s.mk == d.m0,
    ensures dst(d, s, cl, cl, true),
{
    reveal(dst); assert(lv(d, s, 0)); 
    assert forall|v: int| 0 <= v < d.n implies #[trigger] mark_ok(d, s, true, v) by { if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; assert(x == 0); } }
}
// facts at the top of the path
pub proof fn dst_top(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>, fresh: bool)
    requires dst(d, s, cl, cl0, fresh), s.head >= 0,
    ensures 0 <= s.xs[s.head] < d.n, s.head < s.top <= d.n, s.xs.len() >= d.n, s.ps.len() >= d.n, s.mk.len() == d.m0.len() >= d.n, s.mk[s.xs[s.head]] == (if fresh { 0i32 } else { 1i32 }),
        0 <= d.p[s.xs[s.head]] <= d.p[s.xs[s.head] + 1] <= d.p[d.n], d.p[d.n] <= d.g.len(),
        forall|e: int| d.p[s.xs[s.head]] <= e < d.p[s.xs[s.head] + 1] ==> 0 <= #[trigger] d.g[e] < d.n,
        !fresh ==> d.p[s.xs[s.head]] <= s.ps[s.head] <= d.p[s.xs[s.head] + 1],
{
    reveal(dst); assert(lv(d, s, s.head)); let v = s.xs[s.head]; col_bounds(d, v); assert(mark_ok(d, s, fresh, v)); assert(on(d, s, v)); if !fresh { assert(stk_ok(d, s, cl, s.head)); }
}
proof fn grow(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl2: Seq<i32>)
    requires s.mk.len() == s2.mk.len() == d.m0.len() >= d.n, gwf(d.p, d.g, d.n), forall|v: int| 0 <= v < d.n && s.mk[v] != 0 ==> #[trigger] s2.mk[v] != 0, forall|c: i32| cl.contains(c) ==> #[trigger] cl2.contains(c),
    ensures forall|e: int| 0 <= e < d.p[d.n] && #[trigger] ok_e(d, s.mk, cl, e) ==> ok_e(d, s2.mk, cl2, e),
{ assert forall|e: int| 0 <= e < d.p[d.n] && #[trigger] ok_e(d, s.mk, cl, e) implies ok_e(d, s2.mk, cl2, e) by { assert(0 <= d.g[e] < d.n); } }
proof fn keep_clash(d: Dg, s: Ds, s2: Ds, c: int)
    requires clash_ok(d, s, c), forall|v: int| #[trigger] on(d, s, v) ==> on(d, s2, v),
    ensures clash_ok(d, s2, c),
{ let e = choose|e: int| from_on(d, s, e, c); assert(on(d, s, src(d.p, d.n, e))); assert(from_on(d, s2, e, c)); }
pub proof fn dst_mark(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, true), s2 == (Ds { ps: s.ps.update(s.head, d.p[s.xs[s.head]]), mk: s.mk.update(s.xs[s.head], 1i32), ..s }),
    ensures dst(d, s2, cl, cl0, false),
{
    reveal(dst); dst_top(d, s, cl, cl0, true); grow(d, s, s2, cl, cl);
    assert forall|x: int| #[trigger] lv(d, s2, x) == lv(d, s, x) by { }
    assert forall|v: int| #[trigger] on(d, s2, v) == on(d, s, v) by { if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; assert(lv(d, s2, x)); } if on(d, s2, v) { let x = choose|x: int| #[trigger] lv(d, s2, x) && s2.xs[x] == v; assert(lv(d, s, x)); } }
    assert forall|v: int| 0 <= v < d.n implies #[trigger] mark_ok(d, s2, false, v) by { assert(mark_ok(d, s, true, v)); assert(on(d, s2, v) == on(d, s, v)); if v == s.xs[s.head] { assert(lv(d, s, s.head)); } }
    assert forall|v: int| d.n <= v < s2.mk.len() implies #[trigger] s2.mk[v] == d.m0[v] by { assert(s.mk[v] == d.m0[v]); }
    assert forall|x: int| 0 <= x <= s2.head implies #[trigger] stk_ok(d, s2, cl, x) by { assert(lv(d, s, x)); col_bounds(d, s.xs[x]); if x < s.head { assert(stk_ok(d, s, cl, x)); assert forall|e: int| d.p[s2.xs[x]] <= e < s2.ps[x] implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } } }
    assert forall|x: int| 0 <= x < s2.head implies #[trigger] link(d, s2, x) by { assert(link(d, s, x)); }
    assert forall|x: int| s2.top <= x < d.n implies #[trigger] out_ok(d, s2, cl, x) by { assert(out_ok(d, s, cl, x)); assert(lv(d, s, x)); col_bounds(d, s.xs[x]); assert forall|e: int| in_col(d.p, s2.xs[x], e) implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|c: Set<int>| #[trigger] closed(d, c) implies inside(d, s2, c) by { assert(inside(d, s, c)); assert forall|x: int| #[trigger] lv(d, s2, x) implies c.contains(s2.xs[x]) by { assert(lv(d, s, x)); } }
    assert(on(d, s, d.j)); assert(on(d, s2, d.j));
    assert forall|t: int| cl0.len() <= t < cl.len() implies clash_ok(d, s2, #[trigger] cl[t] as int) by { assert forall|v: int| #[trigger] on(d, s, v) implies on(d, s2, v) by { assert(on(d, s2, v) == on(d, s, v)); } keep_clash(d, s, s2, cl[t] as int); }
    if rk_ok(d) { assert forall|x: int| s2.top <= x < d.n implies #[trigger] topo_at(d, s2, x) by { assert(topo_at(d, s, x)); assert forall|e: int| #[trigger] in_col(d.p, s2.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s2.xs[x] implies after(d, s2, x, d.g[e] as int) by { assert(in_col(d.p, s.xs[x], e)); assert(after(d, s, x, d.g[e] as int)); let y = choose|y: int| x < y < d.n && #[trigger] s.xs[y] == d.g[e] as int; assert(s2.xs[y] == d.g[e] as int); } } assert(rising(d, s)); }
    assert forall|x: int, y: int| #[trigger] lv(d, s2, x) && #[trigger] lv(d, s2, y) && x < y implies s2.xs[x] != s2.xs[y] by { assert(lv(d, s, x) && lv(d, s, y)); }
    assert forall|x: int| #[trigger] lv(d, s2, x) implies 0 <= s2.xs[x] < d.n && d.m0[s2.xs[x]] == 0 by { assert(lv(d, s, x)); }
}
// an edge to an earlier component is recorded
pub proof fn dst_clash(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s.head >= 0, s.ps[s.head] < d.p[s.xs[s.head] + 1], s.mk[d.g[s.ps[s.head] as int] as int] == -1,
    ensures dst(d, s, cl.push(d.g[s.ps[s.head] as int]), cl0, false), cl.push(d.g[s.ps[s.head] as int]).contains(d.g[s.ps[s.head] as int]),
{
    dst_top(d, s, cl, cl0, false); reveal(dst); let e0 = s.ps[s.head] as int; let c = d.g[e0]; let cl2 = cl.push(c); let v = s.xs[s.head];
    assert(stk_ok(d, s, cl, s.head)); assert(mark_ok(d, s, false, c as int));
    assert forall|q: i32| cl.contains(q) implies #[trigger] cl2.contains(q) by { let t = choose|t: int| 0 <= t < cl.len() && cl[t] == q; assert(cl2[t] == q); }
    assert(cl2[cl.len() as int] == c);
    grow(d, s, s, cl, cl2);
    assert(in_col(d.p, v, e0)); src_is(d.p, d.n, v, e0); assert(lv(d, s, s.head)); assert(on(d, s, v)); assert(from_on(d, s, e0, c as int)); assert(clash_ok(d, s, c as int));
    assert forall|x: int| 0 <= x <= s.head implies #[trigger] stk_ok(d, s, cl2, x) by { assert(lv(d, s, x)); col_bounds(d, s.xs[x]); assert(stk_ok(d, s, cl, x)); assert forall|e: int| d.p[s.xs[x]] <= e < s.ps[x] implies #[trigger] ok_e(d, s.mk, cl2, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|x: int| s.top <= x < d.n implies #[trigger] out_ok(d, s, cl2, x) by { assert(out_ok(d, s, cl, x)); assert(lv(d, s, x)); col_bounds(d, s.xs[x]); assert forall|e: int| in_col(d.p, s.xs[x], e) implies #[trigger] ok_e(d, s.mk, cl2, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|t: int| cl0.len() <= t < cl2.len() implies clash_ok(d, s, #[trigger] cl2[t] as int) by { if t < cl.len() { assert(cl[t] == cl2[t]); } }
    assert forall|t: int| 0 <= t < cl0.len() implies #[trigger] cl2[t] == cl0[t] by { assert(cl[t] == cl0[t]); }
}
// an edge to a marked node is passed
pub proof fn dst_skip(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s.head >= 0, s.ps[s.head] < d.p[s.xs[s.head] + 1], s.mk[d.g[s.ps[s.head] as int] as int] != 0, s.mk[d.g[s.ps[s.head] as int] as int] == -1 ==> cl.contains(d.g[s.ps[s.head] as int]),
        s2 == (Ds { ps: s.ps.update(s.head, (s.ps[s.head] + 1) as i32), ..s }),
    ensures dst(d, s2, cl, cl0, false),
{
    dst_top(d, s, cl, cl0, false); reveal(dst); let e0 = s.ps[s.head] as int; assert(mark_ok(d, s, false, d.g[e0] as int)); 
    assert forall|x: int| #[trigger] lv(d, s2, x) == lv(d, s, x) by { }
    assert forall|v: int| #[trigger] on(d, s2, v) == on(d, s, v) by { if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; assert(lv(d, s2, x)); } if on(d, s2, v) { let x = choose|x: int| #[trigger] lv(d, s2, x) && s2.xs[x] == v; assert(lv(d, s, x)); } }
    assert forall|v: int| 0 <= v < d.n implies #[trigger] mark_ok(d, s2, false, v) by { assert(mark_ok(d, s, false, v)); assert(on(d, s2, v) == on(d, s, v)); }
    assert(!on(d, s, d.g[e0] as int) ==> s.mk[d.g[e0] as int] == d.m0[d.g[e0] as int]);
    if d.m0[d.g[e0] as int] == -1 { if on(d, s, d.g[e0] as int) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == d.g[e0]; } }
    assert forall|x: int| 0 <= x <= s2.head implies #[trigger] stk_ok(d, s2, cl, x) by { assert(stk_ok(d, s, cl, x)); assert forall|e: int| d.p[s2.xs[x]] <= e < s2.ps[x] implies #[trigger] ok_e(d, s2.mk, cl, e) by { if x < s.head || e < e0 { assert(ok_e(d, s.mk, cl, e)); } } }
    assert forall|x: int| 0 <= x < s2.head implies #[trigger] link(d, s2, x) by { assert(link(d, s, x)); }
    assert forall|x: int| s2.top <= x < d.n implies #[trigger] out_ok(d, s2, cl, x) by { assert(out_ok(d, s, cl, x)); assert forall|e: int| in_col(d.p, s2.xs[x], e) implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|c: Set<int>| #[trigger] closed(d, c) implies inside(d, s2, c) by { assert(inside(d, s, c)); assert forall|x: int| #[trigger] lv(d, s2, x) implies c.contains(s2.xs[x]) by { assert(lv(d, s, x)); } }
    assert(on(d, s, d.j)); assert(on(d, s2, d.j));
    assert forall|t: int| cl0.len() <= t < cl.len() implies clash_ok(d, s2, #[trigger] cl[t] as int) by { assert forall|v: int| #[trigger] on(d, s, v) implies on(d, s2, v) by { assert(on(d, s2, v) == on(d, s, v)); } keep_clash(d, s, s2, cl[t] as int); }
    if rk_ok(d) { assert forall|x: int| s2.top <= x < d.n implies #[trigger] topo_at(d, s2, x) by { assert(topo_at(d, s, x)); assert forall|e: int| #[trigger] in_col(d.p, s2.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s2.xs[x] implies after(d, s2, x, d.g[e] as int) by { assert(in_col(d.p, s.xs[x], e)); assert(after(d, s, x, d.g[e] as int)); let y = choose|y: int| x < y < d.n && #[trigger] s.xs[y] == d.g[e] as int; assert(s2.xs[y] == d.g[e] as int); } } assert(rising(d, s)); }
    assert forall|x: int, y: int| #[trigger] lv(d, s2, x) && #[trigger] lv(d, s2, y) && x < y implies s2.xs[x] != s2.xs[y] by { assert(lv(d, s, x) && lv(d, s, y)); }
    assert forall|x: int| #[trigger] lv(d, s2, x) implies 0 <= s2.xs[x] < d.n && d.m0[s2.xs[x]] == 0 by { assert(lv(d, s, x)); }
}
pub open spec fn live_seq(d: Dg, s: Ds) -> Seq<int> { Seq::new((s.head + 1 + d.n - s.top) as nat, |x: int| if x <= s.head { s.xs[x] } else { s.xs[x - s.head - 1 + s.top] }) }
// room for one more node that is not in the lists yet
pub proof fn dst_room(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>, fresh: bool, v: int)
    requires dst(d, s, cl, cl0, fresh), 0 <= v < d.n, !on(d, s, v),
    ensures s.head + 1 < s.top,
{
    reveal(dst); let t = live_seq(d, s).push(v);
    let m = live_seq(d, s).len() as int;
    let ix = |x: int| if x <= s.head { x } else { x - s.head - 1 + s.top };
    assert forall|x: int| 0 <= x < m implies 0 <= #[trigger] live_seq(d, s)[x] < d.n && live_seq(d, s)[x] != v && lv(d, s, ix(x)) by { assert(lv(d, s, ix(x))); }
    assert forall|x: int, y: int| 0 <= x < y < m implies #[trigger] live_seq(d, s)[x] != #[trigger] live_seq(d, s)[y] by { assert(lv(d, s, ix(x)) && lv(d, s, ix(y))); }
    assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies #[trigger] t[x] != #[trigger] t[y] by { if x < y { if y < m { assert(t[x] == live_seq(d, s)[x] && t[y] == live_seq(d, s)[y]); } else { assert(t[x] == live_seq(d, s)[x]); } } else { if x < m { assert(t[x] == live_seq(d, s)[x] && t[y] == live_seq(d, s)[y]); } else { assert(t[y] == live_seq(d, s)[y]); } } }
    assert forall|x: int| 0 <= x < t.len() implies 0 <= #[trigger] t[x] < d.n by { if x < m { assert(t[x] == live_seq(d, s)[x]); } }
    distinct_len(t, d.n);
}
// what a change of the lists that keeps their members leaves intact
proof fn same_on(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s2.mk == s.mk, forall|v: int| #[trigger] on(d, s, v) ==> on(d, s2, v),
    ensures on(d, s2, d.j), forall|t: int| cl0.len() <= t < cl.len() ==> clash_ok(d, s2, #[trigger] cl[t] as int),
{
    reveal(dst); assert(on(d, s, d.j));
    assert forall|t: int| cl0.len() <= t < cl.len() implies clash_ok(d, s2, #[trigger] cl[t] as int) by { assert(clash_ok(d, s, cl[t] as int)); keep_clash(d, s, s2, cl[t] as int); }
}
// the search moves on to an unmarked target
pub proof fn dst_push(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s.head >= 0, s.ps[s.head] < d.p[s.xs[s.head] + 1], s.mk[d.g[s.ps[s.head] as int] as int] == 0,
        s2.head == s.head + 1, s2.top == s.top, s2.ps == s.ps, s2.mk == s.mk, s2.xs.len() == s.xs.len(), s2.xs[s.head + 1] == d.g[s.ps[s.head] as int],
        forall|x: int| #[trigger] lv(d, s, x) ==> s2.xs[x] == s.xs[x],
    ensures dst(d, s2, cl, cl0, true),
{
    dst_top(d, s, cl, cl0, false); reveal(dst); let e0 = s.ps[s.head] as int; let w = d.g[e0] as int; let v0 = s.xs[s.head];
    assert(mark_ok(d, s, false, w)); assert(!on(d, s, w)); dst_room(d, s, cl, cl0, false, w); assert(in_col(d.p, v0, e0)); assert(lv(d, s, s.head));
    assert forall|x: int| #[trigger] lv(d, s2, x) == (lv(d, s, x) || x == s.head + 1) by { }
    assert(lv(d, s2, s.head + 1));
    assert forall|v: int| #[trigger] on(d, s2, v) == (on(d, s, v) || v == w) by {
        if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; assert(lv(d, s2, x) && s2.xs[x] == v); }
        if on(d, s2, v) { let x = choose|x: int| #[trigger] lv(d, s2, x) && s2.xs[x] == v; if x != s.head + 1 { assert(lv(d, s, x)); } }
    }
    assert forall|v: int| 0 <= v < d.n implies #[trigger] mark_ok(d, s2, true, v) by { assert(mark_ok(d, s, false, v)); assert(on(d, s2, v) == (on(d, s, v) || v == w)); }
    assert forall|x: int| 0 <= x <= s2.head && x != s2.head implies #[trigger] stk_ok(d, s2, cl, x) by { assert(stk_ok(d, s, cl, x)); assert(lv(d, s, x)); assert forall|e: int| d.p[s2.xs[x]] <= e < s2.ps[x] implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|x: int| 0 <= x < s2.head implies #[trigger] link(d, s2, x) by { assert(lv(d, s, x)); if x < s.head { assert(link(d, s, x)); assert(lv(d, s, x + 1)); } }
    assert forall|x: int| s2.top <= x < d.n implies #[trigger] out_ok(d, s2, cl, x) by { assert(out_ok(d, s, cl, x)); assert(lv(d, s, x)); assert forall|e: int| in_col(d.p, s2.xs[x], e) implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert(d.m0[w] == 0);
    assert forall|c: Set<int>| #[trigger] closed(d, c) implies inside(d, s2, c) by { assert(inside(d, s, c)); assert(c.contains(v0)); assert(c.contains(w)) by { assert(in_col(d.p, v0, e0)); } assert forall|x: int| #[trigger] lv(d, s2, x) implies c.contains(s2.xs[x]) by { if x != s.head + 1 { assert(lv(d, s, x)); } } }
    assert forall|v: int| #[trigger] on(d, s, v) implies on(d, s2, v) by { assert(on(d, s2, v) == (on(d, s, v) || v == w)); }
    same_on(d, s, s2, cl, cl0);
    assert forall|x: int| #[trigger] lv(d, s2, x) implies 0 <= s2.xs[x] < d.n && d.m0[s2.xs[x]] == 0 by { if x != s.head + 1 { assert(lv(d, s, x)); } }
    assert forall|x: int, y: int| #[trigger] lv(d, s2, x) && #[trigger] lv(d, s2, y) && x < y implies s2.xs[x] != s2.xs[y] by {
        if x != s.head + 1 && y != s.head + 1 { assert(lv(d, s, x) && lv(d, s, y)); } else if x == s.head + 1 { assert(lv(d, s, y)); if s.xs[y] == w { assert(on(d, s, w)); } } else { assert(lv(d, s, x)); if s.xs[x] == w { assert(on(d, s, w)); } }
    }
    if rk_ok(d) {
        src_is(d.p, d.n, v0, e0); assert(w != v0) by { if w == v0 { assert(on(d, s, w)); } } assert(d.rk[src(d.p, d.n, e0)] < d.rk[d.g[e0] as int]);
        assert(rising(d, s));
        assert forall|x: int, y: int| 0 <= x < y <= s2.head implies d.rk[#[trigger] s2.xs[x]] < d.rk[#[trigger] s2.xs[y]] by { assert(lv(d, s, x)); if y <= s.head { assert(lv(d, s, y)); assert(d.rk[s.xs[x]] < d.rk[s.xs[y]]); } else if x < s.head { assert(d.rk[s.xs[x]] < d.rk[s.xs[s.head]]); } }
        assert forall|x: int| s2.top <= x < d.n implies #[trigger] topo_at(d, s2, x) by { assert(topo_at(d, s, x)); assert(lv(d, s, x)); assert forall|e: int| #[trigger] in_col(d.p, s2.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s2.xs[x] implies after(d, s2, x, d.g[e] as int) by { assert(in_col(d.p, s.xs[x], e)); assert(after(d, s, x, d.g[e] as int)); let y = choose|y: int| x < y < d.n && #[trigger] s.xs[y] == d.g[e] as int; assert(lv(d, s, y)); assert(s2.xs[y] == d.g[e] as int); } }
    }
}
// a finished node leaves the path and joins the output
pub proof fn dst_pop(d: Dg, s: Ds, s2: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s.head >= 0, s.ps[s.head] == d.p[s.xs[s.head] + 1],
        s2.head == s.head - 1, s2.top == s.top - 1, s2.ps.len() >= d.n, forall|x: int| 0 <= x < s.head ==> #[trigger] s2.ps[x] == s.ps[x], s2.mk == s.mk, s2.xs.len() == s.xs.len(), s2.xs[s.top - 1] == s.xs[s.head],
        forall|x: int| #[trigger] lv(d, s, x) && x != s.head ==> s2.xs[x] == s.xs[x],
    ensures dst(d, s2, cl, cl0, false),
{
    dst_top(d, s, cl, cl0, false); reveal(dst); let v0 = s.xs[s.head]; let t0 = s.top - 1; assert(lv(d, s, s.head));
    assert forall|x: int| #[trigger] lv(d, s2, x) == ((lv(d, s, x) && x != s.head) || x == t0) by { }
    assert(lv(d, s2, t0));
    assert forall|v: int| #[trigger] on(d, s2, v) == on(d, s, v) by {
        if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; if x == s.head { assert(lv(d, s2, t0) && s2.xs[t0] == v); } else { assert(lv(d, s2, x) && s2.xs[x] == v); } }
        if on(d, s2, v) { let x = choose|x: int| #[trigger] lv(d, s2, x) && s2.xs[x] == v; if x == t0 { assert(s.xs[s.head] == v); } else { assert(lv(d, s, x)); } }
    }
    assert forall|v: int| 0 <= v < d.n implies #[trigger] mark_ok(d, s2, false, v) by { assert(mark_ok(d, s, false, v)); assert(on(d, s2, v) == on(d, s, v)); }
    assert forall|x: int| 0 <= x <= s2.head implies #[trigger] stk_ok(d, s2, cl, x) by { assert(stk_ok(d, s, cl, x)); assert(lv(d, s, x)); assert(s2.ps[x] == s.ps[x]); assert forall|e: int| d.p[s2.xs[x]] <= e < s2.ps[x] implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    assert forall|x: int| 0 <= x < s2.head implies #[trigger] link(d, s2, x) by { assert(lv(d, s, x)); assert(link(d, s, x)); assert(lv(d, s, x + 1)); assert(s2.ps[x] == s.ps[x]); }
    assert forall|x: int| s2.top <= x < d.n implies #[trigger] out_ok(d, s2, cl, x) by {
        if x == t0 { assert(stk_ok(d, s, cl, s.head)); assert forall|e: int| in_col(d.p, s2.xs[x], e) implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
        else { assert(out_ok(d, s, cl, x)); assert(lv(d, s, x)); assert forall|e: int| in_col(d.p, s2.xs[x], e) implies #[trigger] ok_e(d, s2.mk, cl, e) by { assert(ok_e(d, s.mk, cl, e)); } }
    }
    assert forall|c: Set<int>| #[trigger] closed(d, c) implies inside(d, s2, c) by { assert(inside(d, s, c)); assert forall|x: int| #[trigger] lv(d, s2, x) implies c.contains(s2.xs[x]) by { if x != t0 { assert(lv(d, s, x)); } } }
    assert forall|v: int| #[trigger] on(d, s, v) implies on(d, s2, v) by { assert(on(d, s2, v) == on(d, s, v)); }
    same_on(d, s, s2, cl, cl0);
    assert forall|x: int| #[trigger] lv(d, s2, x) implies 0 <= s2.xs[x] < d.n && d.m0[s2.xs[x]] == 0 by { if x != t0 { assert(lv(d, s, x)); } }
    assert forall|x: int, y: int| #[trigger] lv(d, s2, x) && #[trigger] lv(d, s2, y) && x < y implies s2.xs[x] != s2.xs[y] by { if x != t0 { assert(lv(d, s, x)); } if y != t0 { assert(lv(d, s, y)); } }
    if rk_ok(d) {
        assert(rising(d, s));
        assert forall|x: int, y: int| 0 <= x < y <= s2.head implies d.rk[#[trigger] s2.xs[x]] < d.rk[#[trigger] s2.xs[y]] by { assert(lv(d, s, x)); assert(lv(d, s, y)); assert(d.rk[s.xs[x]] < d.rk[s.xs[y]]); }
        assert forall|x: int| s2.top <= x < d.n implies #[trigger] topo_at(d, s2, x) by {
            if x == t0 {
                assert(stk_ok(d, s, cl, s.head));
                assert forall|e: int| #[trigger] in_col(d.p, s2.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s2.xs[x] implies after(d, s2, x, d.g[e] as int) by {
                    let w = d.g[e] as int; assert(ok_e(d, s.mk, cl, e)); assert(mark_ok(d, s, false, w)); assert(on(d, s, w)); let y = choose|y: int| #[trigger] lv(d, s, y) && s.xs[y] == w;
                    src_is(d.p, d.n, v0, e); assert(d.rk[src(d.p, d.n, e)] < d.rk[d.g[e] as int]);
                    if y < s.head { assert(d.rk[s.xs[y]] < d.rk[s.xs[s.head]]); assert(false); }
                    assert(y >= s.top); assert(s2.xs[y] == w);
                }
            } else {
                assert(topo_at(d, s, x)); assert(lv(d, s, x)); assert forall|e: int| #[trigger] in_col(d.p, s2.xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != s2.xs[x] implies after(d, s2, x, d.g[e] as int) by { assert(in_col(d.p, s.xs[x], e)); assert(after(d, s, x, d.g[e] as int)); let y = choose|y: int| x < y < d.n && #[trigger] s.xs[y] == d.g[e] as int; assert(lv(d, s, y)); assert(s2.xs[y] == d.g[e] as int); }
            }
        }
    }
}
pub proof fn dst_done(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>)
    requires dst(d, s, cl, cl0, false), s.head == -1,
    ensures is_dfs(d, s.xs, s.top, s.mk, cl, cl0),
{
    reveal(dst); let xs = s.xs; let top = s.top; let mk = s.mk;
    assert forall|x: int| #[trigger] lv(d, s, x) == (top <= x < d.n) by { }
    assert forall|v: int| #[trigger] on(d, s, v) == dlisted(d, xs, top, v) by { if on(d, s, v) { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == v; assert(xs[x] == v); } if dlisted(d, xs, top, v) { let x = choose|x: int| top <= x < d.n && #[trigger] xs[x] == v; assert(lv(d, s, x)); } }
    assert(on(d, s, d.j)); 
    assert(top < d.n) by { let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == d.j; }
    assert forall|x: int| top <= x < d.n implies 0 <= #[trigger] xs[x] < d.n by { assert(lv(d, s, x)); }
    assert forall|x: int, y: int| top <= x < y < d.n implies #[trigger] xs[x] != #[trigger] xs[y] by { assert(lv(d, s, x) && lv(d, s, y)); }
    assert forall|v: int| 0 <= v < mk.len() implies #[trigger] mk[v] == (if dlisted(d, xs, top, v) { 1i32 } else { d.m0[v] }) by {
        assert(on(d, s, v) == dlisted(d, xs, top, v)); if v < d.n { assert(mark_ok(d, s, false, v)); } else if dlisted(d, xs, top, v) { let x = choose|x: int| top <= x < d.n && #[trigger] xs[x] == v; }
    }
    assert forall|x: int, e: int| top <= x < d.n && #[trigger] in_col(d.p, xs[x], e) implies mk[d.g[e] as int] != 0 && (d.m0[d.g[e] as int] == -1 ==> cl.contains(d.g[e])) by { assert(out_ok(d, s, cl, x)); assert(ok_e(d, mk, cl, e)); }
    assert forall|c: Set<int>, x: int| #[trigger] closed(d, c) && top <= x < d.n implies c.contains(#[trigger] xs[x]) by { assert(inside(d, s, c)); assert(lv(d, s, x)); }
    assert forall|t: int| cl0.len() <= t < cl.len() implies 0 <= #[trigger] cl[t] < d.n && d.m0[cl[t] as int] == -1 && clash_from(d, xs, top, cl[t] as int) by {
        assert(clash_ok(d, s, cl[t] as int)); let e = choose|e: int| from_on(d, s, e, cl[t] as int); let u = src(d.p, d.n, e); assert(on(d, s, u)); let x = choose|x: int| #[trigger] lv(d, s, x) && s.xs[x] == u; src_ex(d.p, d.n, e); assert(in_col(d.p, xs[x], e));
    }
    if rk_ok(d) { assert forall|x: int, e: int| top <= x < d.n && #[trigger] in_col(d.p, xs[x], e) && d.m0[d.g[e] as int] == 0 && d.g[e] != xs[x] implies later(d, xs, x, d.g[e] as int) by { assert(topo_at(d, s, x)); assert(in_col(d.p, s.xs[x], e)); assert(after(d, s, x, d.g[e] as int)); } }
}
pub proof fn dst_rm(d: Dg, s: Ds, cl: Seq<i32>, cl0: Seq<i32>, w: int)
    requires dst(d, s, cl, cl0, false), 0 <= w < d.n, s.mk[w] == 0,
    ensures s.head + 1 < s.top,
{ reveal(dst); assert(mark_ok(d, s, false, w)); dst_room(d, s, cl, cl0, false, w); }
// block storage: block b owns the columns s2c[b]..s2c[b + 1], all of them point at the row list of the block
pub open spec fn bptr(q: Seq<usize>, s2c: Seq<i32>, nb: int) -> Seq<i32> { Seq::new((nb + 1) as nat, |v: int| q[s2c[v] as int] as i32) }
pub open spec fn btgt(gi: Seq<i32>, c2s: Seq<i32>) -> Seq<i32> { Seq::new(gi.len(), |e: int| c2s[gi[e] as int]) }
pub open spec fn col_in(q: Seq<usize>, s2c: Seq<i32>, c2s: Seq<i32>, nb: int, c: int) -> bool { 0 <= c2s[c] < nb && s2c[c2s[c] as int] <= c < s2c[c2s[c] + 1] && q[c] == q[s2c[c2s[c] as int] as int] }
pub open spec fn blk_ok(q: Seq<usize>, gi: Seq<i32>, s2c: Seq<i32>, c2s: Seq<i32>, nb: int) -> bool {
    nb >= 0 && s2c.len() > nb && s2c[0] == 0 && (forall|a: int, b: int| 0 <= a < b <= nb ==> #[trigger] s2c[a] < #[trigger] s2c[b])
    && c2s.len() >= s2c[nb] && q.len() > s2c[nb]
    && (forall|c: int| 0 <= c < s2c[nb] ==> #[trigger] col_in(q, s2c, c2s, nb, c))
    && (forall|c: int| 0 <= c <= s2c[nb] ==> #[trigger] q[c] <= i32::MAX)
    && (forall|e: int| 0 <= e < bptr(q, s2c, nb)[nb] ==> 0 <= #[trigger] gi[e] < s2c[nb])
}
// the search path holds columns, the output blocks
pub open spec fn bxs(xi: Seq<i32>, c2s: Seq<i32>, head: int) -> Seq<int> { Seq::new(xi.len(), |x: int| if x <= head { c2s[xi[x] as int] as int } else { xi[x] as int }) }
pub open spec fn path_cols(xi: Seq<i32>, m: int, head: int) -> bool { forall|x: int| 0 <= x <= head ==> 0 <= #[trigger] xi[x] < m }
pub proof fn blk_edge(q: Seq<usize>, gi: Seq<i32>, s2c: Seq<i32>, c2s: Seq<i32>, nb: int, e: int)
    requires blk_ok(q, gi, s2c, c2s, nb), 0 <= e < bptr(q, s2c, nb)[nb],
    ensures 0 <= gi[e] < s2c[nb], ({ let t = c2s[gi[e] as int]; 0 <= t < nb && 0 <= s2c[t as int] < s2c[t + 1] <= s2c[nb] }),
{ assert(0 <= gi[e] < s2c[nb]); let c = gi[e] as int; assert(col_in(q, s2c, c2s, nb, c)); let t = c2s[c] as int; assert(s2c[t] < s2c[t + 1]); if t > 0 { assert(s2c[0] < s2c[t]); } if t + 1 < nb { assert(s2c[t + 1] < s2c[nb]); } }
pub proof fn blk_col(q: Seq<usize>, gi: Seq<i32>, s2c: Seq<i32>, c2s: Seq<i32>, nb: int, c: int)
    requires blk_ok(q, gi, s2c, c2s, nb), 0 <= c < s2c[nb],
    ensures ({ let t = c2s[c]; 0 <= t < nb && 0 <= s2c[t as int] < s2c[t + 1] <= s2c[nb] && q[c] as i32 == bptr(q, s2c, nb)[t as int] && q[s2c[t + 1] as int] as i32 == bptr(q, s2c, nb)[t + 1] && q[c] <= i32::MAX && q[s2c[t + 1] as int] <= i32::MAX }),
{ assert(col_in(q, s2c, c2s, nb, c)); let t = c2s[c] as int; assert(s2c[t] < s2c[t + 1]); if t > 0 { assert(s2c[0] < s2c[t]); } if t + 1 < nb { assert(s2c[t + 1] < s2c[nb]); } assert(q[c] <= i32::MAX); assert(q[s2c[t + 1] as int] <= i32::MAX); }
pub proof fn same_block(q: Seq<usize>, gi: Seq<i32>, s2c: Seq<i32>, c2s: Seq<i32>, nb: int, c: int, b: int)
    requires blk_ok(q, gi, s2c, c2s, nb), 0 <= c < s2c[nb], 0 <= b < nb, s2c[b] <= c < s2c[b + 1],
    ensures c2s[c] == b,
{ assert(col_in(q, s2c, c2s, nb, c)); let t = c2s[c] as int; if t < b { if t + 1 < b { assert(s2c[t + 1] < s2c[b]); } } else if b < t { if b + 1 < t { assert(s2c[b + 1] < s2c[t]); } } }
