//@uses graph
// ---------------------------------------------------------------- level sets by repeated removal of sources
// common part: v is placed in level lv[v] (or -1), position pos[v] of the list; out-edges of levels below c are dead
pub open spec fn lbase(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int) -> bool {
    gwf(p, g, n) && diag1(p, g, n) && 0 <= c <= n && lp.len() > n && vis.len() == n
    && (forall|v: int| 0 <= v < n ==> #[trigger] vis[v] == (lv[v] >= 0))
    && dead_upto(p, g, n, dead, lv, c) && degs(g, dead, p[n] as int, deg, n)
    && listed(ls, lp, lv, pos, n, c, m) && m == nlev(lv, n)
    && lp[0] == 0 && (forall|a: int, b: int| 0 <= a <= b <= c ==> #[trigger] lp[a] <= #[trigger] lp[b])
    && placed(p, g, n, lv) && (c > 0 ==> unready(p, g, n, lv, c - 1))
    && (acyclic(p, g, n) ==> c <= lp[c])
}
#[verifier::opaque]
pub open spec fn lstate(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int) -> bool {
    lbase(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m) && lp[c] == m && forall|v: int| 0 <= v < n ==> #[trigger] lv[v] < c
}
// while the nodes of level c are collected: nodes lo..i are done
#[verifier::opaque]
pub open spec fn sstate(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int, i: int) -> bool {
    lbase(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m) && lp[c] <= m && 0 <= lo < n && (lp[c] < m || lv[lo] < 0)
    && (forall|v: int| 0 <= v < n ==> #[trigger] lv[v] <= c)
    && (forall|v: int| 0 <= v < n && #[trigger] lv[v] == c ==> lp[c] <= pos[v])
    && (forall|v: int| lo <= v < i && #[trigger] preds_below(p, g, n, lv, v, c) ==> lv[v] >= 0)
}
pub proof fn lset_init(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>)
    requires gwf(p, g, n), diag1(p, g, n), lp.len() > n, ls.len() >= n, lp[0] == 0, vis.len() == n, lv.len() == n, pos.len() == n, dead.len() == p[n], deg.len() == n,
        forall|v: int| 0 <= v < n ==> #[trigger] vis[v] == false, forall|v: int| 0 <= v < n ==> #[trigger] lv[v] == -1, forall|e: int| 0 <= e < p[n] ==> #[trigger] dead[e] == false,
        forall|v: int| 0 <= v < n ==> #[trigger] deg[v] == live(g, dead, p[n] as int, v),
    ensures lstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, 0, 0),
{
    reveal(lstate);
    nlev_none(lv, n);
    assert(dead_upto(p, g, n, dead, lv, 0)) by {
        assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] < 0) by {}
    }
}
pub proof fn scan_begin(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int)
    requires lstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m), 0 <= lo < n, lv[lo] < 0,
    ensures sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, lo),
{ reveal(lstate); reveal(sstate); }
pub proof fn scan_facts(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int, i: int)
    requires sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, i), lo <= i < n,
    ensures deg.len() == n, vis.len() == n, ls.len() >= n, lv.len() == n, pos.len() == n, 0 <= m <= n, !vis[i] ==> m < n,
        !(deg[i] == 1 && !vis[i]) ==> sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, i + 1),
{
    reveal(sstate);
    if !vis[i] { nlev_lt(lv, n, i); }
    deg_one(p, g, n, dead, lv, c, deg, i);
    nlev_le(lv, n);
}
pub proof fn scan_hit(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int, i: int)
    requires sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, i), lo <= i < n, deg[i] == 1, !vis[i],
    ensures sstate(p, g, n, dead, lv.update(i, c), pos.update(i, m), deg, vis.update(i, true), ls.update(m, i as i32), lp, c, m + 1, lo, i + 1), m < n,
{
    reveal(sstate);
    nlev_lt(lv, n, i);
    deg_one(p, g, n, dead, lv, c, deg, i);
    place(p, g, n, lv, c, i);
    below_upd_all(p, g, n, lv, c, i);
    if c > 0 { below_upd_all(p, g, n, lv, c, i); }
    nlev_upd(lv, n, i, c);
    let l2 = lv.update(i, c); let p2 = pos.update(i, m); let s2 = ls.update(m, i as i32);
    assert(i as i32 == i) by { assert(i < n); assert(ls.len() >= n); assert(p.len() > n); assert(has_diag(p, g, i)); let e = diag(p, g, i); assert(is_diag(p, g, i, e)); }
    assert(dead_upto(p, g, n, dead, l2, c)) by {
        assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= l2[src(p, n, e)] < c) by { src_ex(p, n, e); }
    }
    assert(listed(s2, lp, l2, p2, n, c, m + 1));
    if c > 0 {
        assert forall|v: int| 0 <= v < n && #[trigger] l2[v] < 0 implies !preds_below(p, g, n, l2, v, c - 1) by { assert(lv[v] < 0); assert(preds_below(p, g, n, l2, v, c - 1) == preds_below(p, g, n, lv, v, c - 1)); }
        assert(unready(p, g, n, l2, c - 1));
    }
    assert forall|v: int| lo <= v < i + 1 && #[trigger] preds_below(p, g, n, l2, v, c) implies l2[v] >= 0 by { if v < i { assert(preds_below(p, g, n, lv, v, c)); } }
}
// the level is complete
#[verifier::opaque]
pub open spec fn kstate(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int, cc: int, j: int) -> bool {
    gwf(p, g, n) && diag1(p, g, n) && 0 < c <= n && lp.len() > n && vis.len() == n && deg.len() == n && dead.len() == p[n]
    && (forall|v: int| 0 <= v < n ==> #[trigger] vis[v] == (lv[v] >= 0))
    && (forall|e: int| 0 <= e < p[n] ==> #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] && (pos[src(p, n, e)] < l || (src(p, n, e) == cc && e < j))))
    && degs(g, dead, p[n] as int, deg, n)
    && listed(ls, lp, lv, pos, n, c, m) && m == nlev(lv, n)
    && lp[0] == 0 && lp[c] == m && (forall|a: int, b: int| 0 <= a <= b <= c ==> #[trigger] lp[a] <= #[trigger] lp[b])
    && placed(p, g, n, lv) && unready(p, g, n, lv, c - 1)
    && (acyclic(p, g, n) ==> c <= m) && lp[c - 1] <= l <= lp[c]
    && (forall|v: int| 0 <= v < n ==> #[trigger] lv[v] < c)
}
pub proof fn scan_end(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int, hi: int)
    requires sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, hi), forall|v: int| 0 <= v < n && (v < lo || v >= hi) ==> #[trigger] lv[v] >= 0,
    ensures
        deg.len() == n, ls.len() >= n, lv.len() == n, 0 <= m <= n,
        forall|v: int| 0 <= v < n ==> (#[trigger] deg[v] == 1 <==> lv[v] >= 0),
        acyclic(p, g, n) ==> c < m,
        c < n ==> kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp.update(c + 1, m as i32), c + 1, m, lp[c] as int, 0, 0),
{
    reveal(sstate);
    nlev_le(lv, n);
    deg_one_all(p, g, n, dead, lv, c, deg);
    assert forall|v: int| 0 <= v < n implies (#[trigger] deg[v] == 1 <==> lv[v] >= 0) by {
        if lv[v] >= 0 {
            assert forall|e: int| 0 <= e < p[n] && #[trigger] g[e] == v && src(p, n, e) != v implies 0 <= lv[src(p, n, e)] < c by {
                src_ex(p, n, e); assert(0 <= lv[src(p, n, e)] < lv[v]); assert(lv[v] <= c);
            }
        }
    }
    assert forall|v: int| 0 <= v < n && #[trigger] lv[v] < 0 implies !preds_below(p, g, n, lv, v, c) by { assert(deg[v] != 1); }
    assert(unready(p, g, n, lv, c));
    if acyclic(p, g, n) && lp[c] == m {
        let rk = choose|rk: Seq<int>| ranked(p, g, n, rk);
        assert forall|u: int| 0 <= u < n implies #[trigger] lv[u] < c by { if lv[u] == c { assert(lp[c] <= pos[u] < m); } }
        let w = progress(p, g, n, lv, c, rk, lo);
        assert(preds_below(p, g, n, lv, w, c));
    }
    if c < n {
        reveal(kstate);
        let lp2 = lp.update(c + 1, m as i32);
        assert(m as i32 == m) by { assert(m <= n); if n > 0 { assert(has_diag(p, g, n - 1)); let e = diag(p, g, n - 1); assert(is_diag(p, g, n - 1, e)); assert(g[e] == n - 1); diag_count(p, g, n); } }
        assert forall|a: int, b: int| 0 <= a <= b <= c + 1 implies #[trigger] lp2[a] <= #[trigger] lp2[b] by { if b == c + 1 && a <= c { assert(lp[a] <= lp[c]); } }
        assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] && (pos[src(p, n, e)] < lp[c] || (src(p, n, e) == 0 && e < 0))) by {
            src_ex(p, n, e);
            let s = src(p, n, e);
            if 0 <= lv[s] < c { assert(lp[lv[s]] <= pos[s] < lp[lv[s] + 1]); assert(lp[lv[s] + 1] <= lp[c]); }
            if lv[s] == c { assert(lp[c] <= pos[s]); }
        }
        assert(listed(ls, lp2, lv, pos, n, c + 1, m)) by {
            assert forall|v: int| 0 <= v < n && 0 <= #[trigger] lv[v] < c + 1 implies lp2[lv[v]] <= pos[v] < lp2[lv[v] + 1] by { }
        }
        assert(unready(p, g, n, lv, c + 1 - 1));
    }
}
// n diagonal entries fit the index array, so n fits a machine integer
pub proof fn diag_count(p: Seq<i32>, g: Seq<i32>, n: int)
    requires gwf(p, g, n), diag1(p, g, n),
    ensures n <= p[n],
{ diag_count_upto(p, g, n, n); }
proof fn diag_count_upto(p: Seq<i32>, g: Seq<i32>, n: int, k: int)
    requires gwf(p, g, n), diag1(p, g, n), 0 <= k <= n,
    ensures k <= p[k],
    decreases k
{ if k > 0 { diag_count_upto(p, g, n, k - 1); assert(has_diag(p, g, k - 1)); let e = diag(p, g, k - 1); assert(is_diag(p, g, k - 1, e)); } }
pub proof fn kill_col(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int)
    requires kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, 0, 0),
    ensures lp.len() > n, ls.len() >= n, 0 <= lp[c - 1] <= l <= lp[c] <= n, lp[c] == m,
        l < lp[c] ==> 0 <= ls[l] < n && lv[ls[l] as int] >= 0 && pos[ls[l] as int] == l && kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, ls[l] as int, p[ls[l] as int] as int),
{
    reveal(kstate);
    if l < lp[c] {
        let cc = ls[l] as int;
        assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] && (pos[src(p, n, e)] < l || (src(p, n, e) == cc && e < p[cc]))) by { src_ex(p, n, e); }
    }
}
pub proof fn kill_edge(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int, cc: int, j: int)
    requires kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, cc, j), 0 <= cc < n, p[cc] <= j < p[cc + 1], lv[cc] >= 0, pos[cc] == l,
    ensures 0 <= j < p[n] <= g.len(), 0 <= g[j] < n, deg.len() == n, deg[g[j] as int] >= 0,
        g[j] == cc ==> kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, cc, j + 1),
        g[j] != cc ==> kstate(p, g, n, dead.update(j, true), lv, pos, deg.update(g[j] as int, (deg[g[j] as int] - 1) as i32), vis, ls, lp, c, m, l, cc, j + 1),
{
    reveal(kstate);
    assert(in_col(p, cc, j));
    src_is(p, n, cc, j);
    live_bounds(g, dead, p[n] as int, g[j] as int);
    let d2 = if g[j] != cc { dead.update(j, true) } else { dead };
    assert forall|e: int| 0 <= e < p[n] implies #[trigger] d2[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] && (pos[src(p, n, e)] < l || (src(p, n, e) == cc && e < j + 1))) by { src_ex(p, n, e); assert(dead[e] == dead[e]); }
    if g[j] != cc {
        live_kill_all(g, dead, p[n] as int, j);
        let dg = deg.update(g[j] as int, (deg[g[j] as int] - 1) as i32);
        assert forall|v: int| 0 <= v < n implies #[trigger] dg[v] == live(g, d2, p[n] as int, v) by { assert(deg[v] == live(g, dead, p[n] as int, v)); }
    }
}
pub proof fn kill_next(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int, cc: int)
    requires kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, cc, p[cc + 1] as int), 0 <= cc < n, lv[cc] >= 0, pos[cc] == l, l < lp[c],
    ensures kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l + 1, 0, 0),
{
    reveal(kstate);
    assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] && (pos[src(p, n, e)] < l + 1 || (src(p, n, e) == 0 && e < 0))) by {
        src_ex(p, n, e);
        let s = src(p, n, e);
        if s == cc { assert(in_col(p, cc, e)); }
        if lv[s] >= 0 && pos[s] == l { assert(ls[pos[s]] == s); assert(ls[pos[cc]] == cc); }
    }
}
pub proof fn kill_end(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, l: int)
    requires kstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, l, 0, 0), l >= lp[c],
    ensures lstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m),
{
    reveal(kstate); reveal(lstate);
    assert forall|e: int| 0 <= e < p[n] implies #[trigger] dead[e] == (g[e] != src(p, n, e) && 0 <= lv[src(p, n, e)] < c) by { src_ex(p, n, e); }
}
pub proof fn lset_done(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int)
    requires lstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m), forall|v: int| 0 <= v < n ==> #[trigger] lv[v] >= 0,
    ensures levels_ok(p, g, n, lp, ls, lv, pos, c), acyclic(p, g, n), level_result(p, g, n, lp, ls, c),
{
    reveal(lstate);
    nlev_all(lv, n);
    assert(levels_ok(p, g, n, lp, ls, lv, pos, c));
    assert(ranked(p, g, n, lv)) by {
        assert forall|e: int| 0 <= e < p[n] && g[e] != src(p, n, e) implies lv[#[trigger] src(p, n, e)] < lv[g[e] as int] by { src_ex(p, n, e); }
    }
}
