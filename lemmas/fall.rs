//@uses sched
// a schedule whose partition array may have unused entries behind it; plain level sets as a schedule
pub open spec fn good_sched(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>) -> bool {
    0 <= nl && lp.len() == nl + 1 && 0 <= lp[nl] < pp.len() && valid_sched(p, g, n, nl, lp, pp.subrange(0, lp[nl] + 1), nd)
}
pub proof fn good_mk(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>)
    requires valid_sched(p, g, n, nl, lp, pp, nd),
    ensures good_sched(p, g, n, nl, lp, pp, nd),
{ assert(lp[0] <= lp[nl]); assert(pp.subrange(0, lp[nl] + 1) =~= pp); }
pub proof fn level_sched(d: Lv, lp: Seq<i32>)
    requires lv_ok(d), d.ls.len() == d.n, lp.len() == d.c + 1, forall|i: int| 0 <= i <= d.c ==> #[trigger] lp[i] == i,
    ensures good_sched(d.p, d.g, d.n, d.c, lp, d.lp, d.ls),
{
    lv_sizes(d); let c = d.c; let pp = d.lp.subrange(0, c + 1); assert(lp[c] == c); assert(lp[0] == 0);
    assert forall|i: int, j: int| 0 <= i <= j < pp.len() implies #[trigger] pp[i] <= #[trigger] pp[j] by { lv_mono(d, i, j); }
    assert forall|i: int, j: int| 0 <= i <= j <= c implies #[trigger] lp[i] <= #[trigger] lp[j] by { }
    assert(is_perm(d.ls, d.n)) by {
        assert forall|i: int| 0 <= i < d.n implies 0 <= #[trigger] d.ls[i] < d.n by { lv_pos(d, i); }
        assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] d.ls[x] != #[trigger] d.ls[y] by { lv_pos(d, x); assert(d.ls[y] != d.ls[x]); }
    }
    assert forall|e: int| 0 <= e < d.p[d.n] && #[trigger] d.g[e] != src(d.p, d.n, e) implies dep_met(c, lp, pp, d.ls, src(d.p, d.n, e), d.g[e] as int) by {
        src_ex(d.p, d.n, e); let u = src(d.p, d.n, e); let v = d.g[e] as int; assert(0 <= v < d.n); assert(d.lev[u] < d.lev[v]);
        let x = lv_at(d, u); let y = lv_at(d, v); let a = d.lev[u] as int; let b = d.lev[v] as int; assert(0 <= d.lev[u] && d.lev[v] < c);
        lv_mono(d, a + 1, b);
        assert(lp[a] == a && lp[a + 1] == a + 1 && lp[b] == b && lp[b + 1] == b + 1);
        assert(at_lvl(lp, pp, a, x)); assert(at_lvl(lp, pp, b, y)); assert(later_lvl(c, lp, pp, x, y)); assert(d.ls[x] == u && d.ls[y] == v);
    }
}
// window boundaries: every step starts a window, the last one ends at the number of levels
pub proof fn inc_push(s: Seq<i32>, c: i32)
    requires inc(s), s.len() > 0 ==> s.last() < c,
    ensures inc(s.push(c)),
{ reveal(inc); let t = s.push(c); assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { if j == s.len() { if i < s.len() - 1 { assert(s[i] < s[s.len() - 1]); } } } }
pub proof fn inc_wm(d: Lv, s: Seq<i32>)
    requires inc(s), s.len() >= 1, s[0] == 0, s.last() == d.c,
    ensures wm_ok(d, s),
{ reveal(inc); }
