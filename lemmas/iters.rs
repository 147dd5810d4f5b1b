//@uses ungroup pack
// the entries of the scheduled rows as a list of loop iterations
pub open spec fn ident(m: int) -> Seq<i32> { Seq::new(m as nat, |q: int| q as i32) }
pub open spec fn row_ug(p: Seq<i32>, pp: Seq<i32>, ns: Seq<i32>, lp: Seq<i32>, nl: int, n: int) -> Ug { Ug { gp: p, gs: ident(p[n] as int), pp: pp, ns: ns, np: lp[nl] as int, ng: n, n: p[n] as int } }
pub open spec fn ks(it: Seq<TwoDIteration>) -> Seq<i32> { Seq::new(it.len(), |x: int| it[x].k) }
// an iteration names a row, one of its entries and that entry's index
pub open spec fn item_ok(p: Seq<i32>, i: Seq<i32>, n: int, a: TwoDIteration) -> bool { 0 <= a.i < n && p[a.i as int] <= a.k < p[a.i + 1] && a.j == i[a.k as int] }
#[verifier::opaque]
pub open spec fn items(p: Seq<i32>, i: Seq<i32>, n: int, it: Seq<TwoDIteration>, un: Seq<i32>) -> bool { it.len() == un.len() && forall|x: int| 0 <= x < it.len() ==> (#[trigger] it[x]).k == un[x] && item_ok(p, i, n, it[x]) }
pub open spec fn items_ok(p: Seq<i32>, i: Seq<i32>, n: int, it: Seq<TwoDIteration>) -> bool { forall|x: int| 0 <= x < it.len() ==> item_ok(p, i, n, #[trigger] it[x]) }
pub proof fn it_init(p: Seq<i32>, i: Seq<i32>, n: int, it: Seq<TwoDIteration>, un: Seq<i32>)
    requires it.len() == 0, un.len() == 0,
    ensures items(p, i, n, it, un),
{ reveal(items); }
pub proof fn it_step(p: Seq<i32>, i: Seq<i32>, n: int, it: Seq<TwoDIteration>, un: Seq<i32>, a: TwoDIteration)
    requires items(p, i, n, it, un), item_ok(p, i, n, a),
    ensures items(p, i, n, it.push(a), un.push(a.k)),
{ reveal(items); }
pub open spec fn tuples(d: Ug, old: Seq<i32>, f: Seq<i32>, m: int) -> bool { f.len() == old.len() + m && (forall|x: int| 0 <= x < old.len() ==> #[trigger] f[x] == old[x]) && forall|j: int| 0 <= j < m ==> f[old.len() + j] == #[trigger] pt(d, j) }
// boundaries of the runs: strictly ascending, every boundary of a part among them
pub open spec fn has_pt(c: Seq<i32>, x: int) -> bool { exists|a: int| 0 <= a < c.len() && #[trigger] c[a] == x }
#[verifier::opaque]
pub open spec fn runs_ok(d: Ug, c: Seq<i32>, m: int, cnt: int) -> bool {
    c.len() > 0 && c[0] == 0 && (forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] < #[trigger] c[b]) && c[c.len() - 1] <= cnt && forall|j: int| 0 <= j <= m ==> has_pt(c, #[trigger] pt(d, j))
}
pub proof fn ro_init(d: Ug, c: Seq<i32>)
    requires c.len() == 1, c[0] == 0, ug_ok(d),
    ensures runs_ok(d, c, 0, 0),
{ reveal(runs_ok); ug_bounds(d); }
pub proof fn ro_cnt(d: Ug, c: Seq<i32>, m: int, cnt: int, cnt2: int)
    requires runs_ok(d, c, m, cnt), cnt <= cnt2,
    ensures runs_ok(d, c, m, cnt2), c.len() > 0,
{ reveal(runs_ok); }
pub proof fn ro_push(d: Ug, c: Seq<i32>, m: int, cnt: i32)
    requires runs_ok(d, c, m, cnt as int),
    ensures c.len() > 0, c[c.len() - 1] != cnt ==> runs_ok(d, c.push(cnt), m, cnt as int),
{
    reveal(runs_ok); let c2 = c.push(cnt);
    assert forall|j: int| 0 <= j <= m && c[c.len() - 1] != cnt implies has_pt(c2, #[trigger] pt(d, j)) by { let a = choose|a: int| 0 <= a < c.len() && #[trigger] c[a] == pt(d, j); assert(has_pt(c, pt(d, j))); assert(c2[a] == pt(d, j)); }
    assert forall|a: int, b: int| c[c.len() - 1] != cnt && 0 <= a < b < c2.len() implies #[trigger] c2[a] < #[trigger] c2[b] by { if b == c.len() { if a < c.len() - 1 { assert(c[a] < c[c.len() - 1]); } } else { assert(c[a] < c[b]); } }
}
pub proof fn ro_part(d: Ug, c: Seq<i32>, m: int, cnt: int)
    requires runs_ok(d, c, m, cnt), c.len() > 0, c[c.len() - 1] == cnt, cnt == pt(d, m + 1),
    ensures runs_ok(d, c, m + 1, cnt),
{ reveal(runs_ok); assert(c[c.len() - 1] == pt(d, m + 1)); assert(has_pt(c, pt(d, m + 1))); }
proof fn asc_len(c: Seq<i32>, k: int)
    requires c.len() > 0, c[0] == 0, forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] < #[trigger] c[b], 0 <= k < c.len(),
    ensures c[k] >= k,
    decreases k
{ if k > 0 { asc_len(c, k - 1); assert(c[k - 1] < c[k]); } }
pub proof fn ro_size(d: Ug, c: Seq<i32>, m: int, cnt: int)
    requires runs_ok(d, c, m, cnt),
    ensures 0 < c.len() <= cnt + 1,
{ reveal(runs_ok); asc_len(c, c.len() - 1); }
pub proof fn ro_run(d: Ug, c: Seq<i32>, m: int, cnt: int, g: int)
    requires runs_ok(d, c, m, cnt), 0 <= g, g + 1 < c.len(),
    ensures 0 <= c[g] < c[g + 1] <= cnt,
{ reveal(runs_ok); asc_len(c, g); assert(c[g] < c[g + 1]); if g + 1 < c.len() - 1 { assert(c[g + 1] < c[c.len() - 1]); } }
// ---- the list after reordering runs below position c: same list read in order o, which stays inside the parts
pub open spec fn keeps(d: Ug, o: Seq<int>, x: int, j: int) -> bool { pt(d, j) <= x <==> pt(d, j) <= o[x] }
#[verifier::opaque]
pub open spec fn moved(d: Ug, it0: Seq<TwoDIteration>, it: Seq<TwoDIteration>, o: Seq<int>, c: int) -> bool {
    reorder(it, it0, o) && it0.len() == d.n && (forall|x: int| c <= x < d.n ==> #[trigger] o[x] == x) && (forall|x: int, j: int| 0 <= x < d.n && 0 <= j <= d.np ==> #[trigger] keeps(d, o, x, j))
}
pub proof fn mv_init(d: Ug, it: Seq<TwoDIteration>) -> (o: Seq<int>)
    requires it.len() == d.n,
    ensures moved(d, it, it, o, 0),
{ reveal(moved); let o = Seq::new(it.len(), |k: int| k); assert(reorder(it, it, o)); o }
pub proof fn mv_len(d: Ug, it0: Seq<TwoDIteration>, it: Seq<TwoDIteration>, o: Seq<int>, c: int)
    requires moved(d, it0, it, o, c),
    ensures it.len() == d.n,
{ reveal(moved); }
pub proof fn mv_step(d: Ug, it0: Seq<TwoDIteration>, it: Seq<TwoDIteration>, o: Seq<int>, t: Seq<TwoDIteration>, cs: Seq<i32>, g: int) -> (o2: Seq<int>)
    requires moved(d, it0, it, o, cs[g] as int), runs_ok(d, cs, d.np, d.n), 0 <= g, g + 1 < cs.len(), perm_range(t, it, cs[g] as int, cs[g + 1] as int),
    ensures moved(d, it0, t, o2, cs[g + 1] as int),
{
    reveal(moved); let c = cs[g] as int; let e = cs[g + 1] as int; ro_run(d, cs, d.np, d.n, g);
    let r = multiset_order(t.subrange(c, e), it.subrange(c, e));
    let o2 = Seq::new(it0.len(), |x: int| if c <= x < e { c + r[x - c] } else { o[x] });
    assert forall|x: int| c <= x < e implies c <= #[trigger] o2[x] < e by { let y = r[x - c]; }
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == it0[#[trigger] o2[k]] by {
        if c <= k < e { let y = r[k - c]; assert(t.subrange(c, e)[k - c] == it.subrange(c, e)[y]); assert(it[c + y] == it0[o[c + y]]); assert(o[c + y] == c + y); } else { assert(it[k] == it0[o[k]]); }
    }
    assert forall|x: int| 0 <= x < c implies 0 <= #[trigger] o[x] < c by { if o[x] >= c { assert(o[o[x]] == o[x]); } }
    assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] o2[x] != #[trigger] o2[y] by {
        if c <= x < e && c <= y < e { assert(r[x - c] != r[y - c]); } else if !(c <= x < e) && !(c <= y < e) { assert(o[x] != o[y]); }
    }
    assert(order_of(o2, it0.len() as int));
    assert forall|x: int, j: int| 0 <= x < d.n && 0 <= j <= d.np implies #[trigger] keeps(d, o2, x, j) by {
        if c <= x < e { reveal(runs_ok); assert(has_pt(cs, pt(d, j))); let a = choose|a: int| 0 <= a < cs.len() && #[trigger] cs[a] == pt(d, j); if a <= g { if a < g { assert(cs[a] < cs[g]); } } else { if a > g + 1 { assert(cs[g + 1] < cs[a]); } } } else { assert(keeps(d, o, x, j)); }
    }
    o2
}
pub proof fn mv_done(d: Ug, p: Seq<i32>, i: Seq<i32>, n: int, it0: Seq<TwoDIteration>, it: Seq<TwoDIteration>, o: Seq<int>, c: int)
    requires ug_ok(d), moved(d, it0, it, o, c), items(p, i, n, it0, base(d)),
    ensures items_ok(p, i, n, it), parts_same(d, ks(it)),
{
    reveal(moved); reveal(items); let s = ks(it); let b = base(d);
    assert forall|x: int| 0 <= x < it.len() implies item_ok(p, i, n, #[trigger] it[x]) by { assert(it[x] == it0[o[x]]); }
    assert forall|j: int| 0 <= j < d.np implies same_items(#[trigger] seg(d, s, j), seg(d, b, j)) by {
        ug_part(d, j); let lo = pt(d, j); let hi = pt(d, j + 1); let r = Seq::new((hi - lo) as nat, |x: int| o[lo + x] - lo);
        assert forall|x: int| 0 <= x < hi - lo implies 0 <= #[trigger] r[x] < hi - lo by { assert(keeps(d, o, lo + x, j)); assert(keeps(d, o, lo + x, j + 1)); }
        assert forall|x: int| 0 <= x < hi - lo implies #[trigger] seg(d, s, j)[x] == seg(d, b, j)[#[trigger] r[x]] by { assert(it[lo + x] == it0[o[lo + x]]); assert(it0[o[lo + x]].k == b[o[lo + x]]); }
        assert forall|x: int, y: int| 0 <= x < hi - lo && 0 <= y < hi - lo && x != y implies #[trigger] r[x] != #[trigger] r[y] by { assert(o[lo + x] != o[lo + y]); }
        assert(reorder(seg(d, s, j), seg(d, b, j), r));
    }
}
pub proof fn row_entry(p: Seq<i32>, i: Seq<i32>, d: Ug, k: int, q: int)
    requires ug_ok(d), d.gp == p, d.gs == ident(d.n), d.n == p[d.ng], 0 <= k < d.pp[d.np], p[d.ns[k] as int] <= q < p[d.ns[k] + 1], d.n <= i.len(),
    ensures 0 <= q < i.len(), q < d.n, d.gs[q] == q, 0 <= d.ns[k] < d.ng,
{ ug_pos(d, k); reveal(ug_ok); assert(d.gp[d.ns[k] + 1] <= d.gp[d.ng]); }
pub proof fn ug_end2(d: Ug)
    requires ug_ok(d),
    ensures 0 <= d.pp[d.np] <= d.ns.len(), d.np < d.pp.len(),
{ reveal(ug_ok); assert(d.pp[0] <= d.pp[d.np]); }
pub proof fn ug_total(d: Ug)
    requires ug_ok(d),
    ensures flat(d, d.pp[d.np] as int).len() == d.n, base(d) == flat(d, d.pp[d.np] as int),
{ reveal(ug_ok); }
