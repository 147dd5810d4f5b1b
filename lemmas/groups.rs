//@uses visit graph
// a list of n nodes cut into ng consecutive non-empty groups, with the node-to-group map
pub open spec fn last_of(gp: Seq<i32>, m: int, pos: int, g: int) -> int { if g + 1 < m { gp[g + 1] as int } else { pos } }
pub open spec fn in_group(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int, g: int) -> bool {
    0 <= gp[g] && gp[g] < last_of(gp, m, pos, g) && last_of(gp, m, pos, g) <= pos && forall|q: int| gp[g] <= q < last_of(gp, m, pos, g) ==> gi[#[trigger] gs[q] as int] == g
}
pub open spec fn bounds_ok(gp: Seq<i32>, m: int, pos: int) -> bool { (m > 0 ==> gp[0] == 0) && (m == 0 ==> pos == 0) && m <= pos }
#[verifier::opaque]
pub open spec fn gopen(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int) -> bool {
    bounds_ok(gp, m, pos) && forall|g: int| 0 <= g < m ==> #[trigger] in_group(gp, gs, gi, m, pos, g)
}
#[verifier::opaque]
pub open spec fn taken(gs: Seq<i32>, pos: int, vis: Seq<bool>, n: int) -> bool {
    vis.len() == n && pos == nv(vis, n) && (forall|q: int| 0 <= q < pos ==> 0 <= #[trigger] gs[q] < n && vis[gs[q] as int])
    && inj(gs, pos)
}
pub open spec fn group_lists(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, g: int) -> bool {
    0 <= gp[g] < gp[g + 1] && forall|q: int| gp[g] <= q < gp[g + 1] ==> gi[#[trigger] gs[q] as int] == g
}
// the finished grouping: every node in exactly one group, the map is the inverse of the lists
pub open spec fn grouping(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, ng: int, n: int) -> bool {
    0 <= ng <= n && gp.len() > ng && gp[0] == 0 && gp[ng] == n && is_perm(gs, n) && gi.len() >= n
    && forall|g: int| 0 <= g < ng ==> #[trigger] group_lists(gp, gs, gi, g)
}
pub proof fn taken_init(gs: Seq<i32>, vis: Seq<bool>, n: int)
    requires n >= 0, vis.len() == n, forall|v: int| 0 <= v < n ==> !(#[trigger] vis[v]),
    ensures taken(gs, 0, vis, n),
{ reveal(taken); nv_none(vis, n); }
pub proof fn taken_room(gs: Seq<i32>, pos: int, vis: Seq<bool>, n: int, v: int)
    requires taken(gs, pos, vis, n), 0 <= v < n, !vis[v],
    ensures 0 <= pos < n,
{ reveal(taken); nv_set(vis, v, n); nv_bounds(vis.update(v, true), n); nv_bounds(vis, n); }
pub proof fn taken_step(gs: Seq<i32>, pos: int, vis: Seq<bool>, n: int, v: i32)
    requires taken(gs, pos, vis, n), 0 <= v < n, !vis[v as int], gs.len() >= n,
    ensures taken(gs.update(pos, v), pos + 1, vis.update(v as int, true), n), 0 <= pos < n,
{
    reveal(taken); taken_room(gs, pos, vis, n, v as int); nv_set(vis, v as int, n);
    let g2 = gs.update(pos, v);
    let v2 = vis.update(v as int, true);
    assert forall|q: int| 0 <= q < pos + 1 implies 0 <= #[trigger] g2[q] < n && v2[g2[q] as int] by { if q < pos { assert(g2[q] == gs[q]); } }
    assert forall|a: int, b: int| 0 <= a < pos + 1 && 0 <= b < pos + 1 && a != b implies #[trigger] g2[a] != #[trigger] g2[b] by {
        if a < pos && b < pos { assert(gs[a] != gs[b]); } else if a < pos { assert(vis[gs[a] as int]); } else { assert(vis[gs[b] as int]); }
    }
}
pub proof fn taken_done(gs: Seq<i32>, pos: int, vis: Seq<bool>, n: int)
    requires taken(gs, pos, vis, n), n >= 0, gs.len() >= n, forall|v: int| 0 <= v < n ==> #[trigger] vis[v],
    ensures pos == n, is_perm(gs, n),
{ reveal(taken); nv_all(vis, n); }
pub proof fn gopen_init(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>)
    ensures gopen(gp, gs, gi, 0, 0),
{ reveal(gopen); }
pub proof fn gopen_b(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int)
    requires gopen(gp, gs, gi, m, pos),
    ensures m <= pos, m > 0 ==> gp[0] == 0 && gp[m - 1] < pos,
{ reveal(gopen); if m > 0 { assert(in_group(gp, gs, gi, m, pos, m - 1)); } }
// a new group starts with node v
pub proof fn gopen_start(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int, v: i32, vis: Seq<bool>, n: int)
    requires gopen(gp, gs, gi, m, pos), taken(gs, pos, vis, n), 0 <= v < n, !vis[v as int], gs.len() >= n, gi.len() >= n, 0 <= m < gp.len(), pos <= i32::MAX, m <= i32::MAX,
    ensures gopen(gp.update(m, pos as i32), gs.update(pos, v), gi.update(v as int, m as i32), m + 1, pos + 1),
{
    reveal(gopen); reveal(taken);
    taken_room(gs, pos, vis, n, v as int);
    let p2 = gp.update(m, pos as i32); let s2 = gs.update(pos, v); let i2 = gi.update(v as int, m as i32);
    assert forall|g: int| 0 <= g < m + 1 implies #[trigger] in_group(p2, s2, i2, m + 1, pos + 1, g) by {
        if g < m {
            assert(in_group(gp, gs, gi, m, pos, g));
            assert(last_of(p2, m + 1, pos + 1, g) == last_of(gp, m, pos, g));
            assert forall|q: int| p2[g] <= q < last_of(p2, m + 1, pos + 1, g) implies i2[#[trigger] s2[q] as int] == g by {
                assert(s2[q] == gs[q]); assert(vis[gs[q] as int]); assert(gi[gs[q] as int] == g);
            }
        } else {
            assert forall|q: int| p2[g] <= q < last_of(p2, m + 1, pos + 1, g) implies i2[#[trigger] s2[q] as int] == g by { assert(q == pos); }
        }
    }
}
// node v joins the last group
pub proof fn gopen_join(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int, v: i32, vis: Seq<bool>, n: int)
    requires gopen(gp, gs, gi, m, pos), taken(gs, pos, vis, n), 0 <= v < n, !vis[v as int], gs.len() >= n, gi.len() >= n, 0 < m <= i32::MAX,
    ensures gopen(gp, gs.update(pos, v), gi.update(v as int, (m - 1) as i32), m, pos + 1),
{
    reveal(gopen); reveal(taken);
    taken_room(gs, pos, vis, n, v as int);
    let s2 = gs.update(pos, v); let i2 = gi.update(v as int, (m - 1) as i32);
    assert forall|g: int| 0 <= g < m implies #[trigger] in_group(gp, s2, i2, m, pos + 1, g) by {
        assert(in_group(gp, gs, gi, m, pos, g));
        assert forall|q: int| gp[g] <= q < last_of(gp, m, pos + 1, g) implies i2[#[trigger] s2[q] as int] == g by {
            if q < pos { assert(s2[q] == gs[q]); assert(vis[gs[q] as int]); assert(q < last_of(gp, m, pos, g)); assert(gi[gs[q] as int] == g); }
            else { assert(g == m - 1); }
        }
    }
}
pub proof fn grouping_done(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, m: int, pos: int, vis: Seq<bool>, n: int)
    requires gopen(gp, gs, gi, m, pos), taken(gs, pos, vis, n), n >= 0, n <= i32::MAX, gs.len() >= n, gi.len() >= n, 0 <= m < gp.len(), forall|v: int| 0 <= v < n ==> #[trigger] vis[v],
    ensures pos == n, grouping(gp.update(m, pos as i32), gs, gi, m, n),
{
    taken_done(gs, pos, vis, n);
    gopen_b(gp, gs, gi, m, pos);
    reveal(gopen);
    let p2 = gp.update(m, pos as i32);
    assert forall|g: int| 0 <= g < m implies #[trigger] group_lists(p2, gs, gi, g) by {
        assert(in_group(gp, gs, gi, m, pos, g));
        assert(p2[g + 1] == last_of(gp, m, pos, g));
        assert forall|q: int| p2[g] <= q < p2[g + 1] implies gi[#[trigger] gs[q] as int] == g by { }
    }
}
// the grouping object
pub open spec fn links(s: Seq<i32>, n: int) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> 0 <= #[trigger] s[k] < n }
pub open spec fn group_ok(g: Group) -> bool {
    0 <= g.ncol && gwf(g.mP@, g.mI@, g.ncol as int) && g.status@.len() == g.ncol && g.visited@.len() == g.ncol && g.child@.len() == g.ncol
    && links(g.next@, g.ncol as int) && links(g.pre@, g.ncol as int)
}
pub open spec fn group_fresh(g: Group) -> bool {
    (forall|k: int| 0 <= k < g.ncol ==> #[trigger] g.next@[k] == 0) && (forall|k: int| 0 <= k < g.ncol ==> !(#[trigger] g.visited@[k]))
    && (forall|k: int| 0 <= k < g.ncol ==> #[trigger] g.status@[k] == 0) && (forall|k: int| 0 <= k < g.ncol ==> #[trigger] g.pre@[k] == 0)
}
pub open spec fn kids_ok(s: Seq<i32>, n: int) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> -1 <= #[trigger] s[k] < n }
// fixed-size blocks
pub proof fn blocks_step(i: int, b: int)
    requires i >= 0, b >= 1,
    ensures (i + 1 + b - 1) / b == (i + b - 1) / b + (if i % b == 0 { 1int } else { 0int }), i / b == (i + b - 1) / b - (if i % b == 0 { 0int } else { 1int }),
        i % b == 0 ==> i == (i / b) * b, 0 <= i / b <= i,
        (i + b - 1) / b <= i,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, b);
    let q = i / b; let r = i % b;
    assert(b * q == q * b) by (nonlinear_arith);
    assert(0 <= q) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, b); }
    assert(q <= i) by { assert(q * b >= q * 1) by (nonlinear_arith) requires b >= 1, q >= 0; }
    if r == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + b - 1, b, q, b - 1);
        assert((q + 1) * b == q * b + b) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + b, b, q + 1, 0);
    } else {
        assert((q + 1) * b == q * b + b) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + b - 1, b, q + 1, r - 1);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + b, b, q + 1, r);
        assert(q + 1 <= i) by { if q == i { assert(q * b >= q) by (nonlinear_arith) requires b >= 1, q >= 0; } }
    }
}
pub proof fn blocks_mono(i: int, n: int, b: int)
    requires 0 <= i < n, b >= 1,
    ensures (i + 1 + b - 1) / b <= (n + b - 1) / b,
{ vstd::arithmetic::div_mod::lemma_div_is_ordered(i + b, n + b - 1, b); }
pub proof fn blocks_done(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, n: int, b: int)
    requires n >= 0, b >= 1, gp.len() > (n + b - 1) / b, gs.len() >= n, gi.len() >= n,
        forall|k: int| 0 <= k < n ==> #[trigger] gs[k] == k, forall|k: int| 0 <= k < n ==> #[trigger] gi[k] == k / b,
        forall|g: int| 0 <= g < (n + b - 1) / b ==> #[trigger] gp[g] == g * b, gp[(n + b - 1) / b] == n,
    ensures grouping(gp, gs, gi, (n + b - 1) / b, n),
{
    let m = (n + b - 1) / b;
    blocks_step(n, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + b - 1, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n + b - 1, b);
    assert(b * m == m * b) by (nonlinear_arith);
    if n == 0 { vstd::arithmetic::div_mod::lemma_basic_div(b - 1, b); }
    assert(m > 0 ==> gp[0] == 0 * b);
    assert forall|g: int| 0 <= g < m implies #[trigger] group_lists(gp, gs, gi, g) by {
        assert(gp[g] == g * b);
        assert((g + 1) * b == g * b + b) by (nonlinear_arith);
        assert(0 <= g * b) by (nonlinear_arith) requires g >= 0, b >= 1;
        if g + 1 < m { assert(gp[g + 1] == (g + 1) * b); assert((g + 1) * b <= (m - 1) * b) by (nonlinear_arith) requires g + 1 <= m - 1, b >= 1; }
        else { assert(g + 1 == m); }
        assert((m - 1) * b == m * b - b) by (nonlinear_arith);
        assert(gp[g + 1] <= (g + 1) * b);
        assert forall|q: int| gp[g] <= q < gp[g + 1] implies gi[#[trigger] gs[q] as int] == g by {
            assert(0 <= q < n) by { if g + 1 < m { assert(q < (m - 1) * b); } }
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q, b, g, q - g * b);
            assert(gs[q] == q); assert(gi[q] == q / b);
        }
    }
}
