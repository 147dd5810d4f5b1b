//@uses graph groups
// one dependence between two different groups: from v to w. by_row: the entry names the source, otherwise the target
pub open spec fn is_dep(s: int, i: int, by_row: bool, v: int, w: int) -> int {
    if s != i && (if by_row { s == v && i == w } else { i == v && s == w }) { 1 } else { 0 }
}
// dependences v -> w given by the entries lo..k of a row (column) that belongs to group i
pub open spec fn dep_e(gi: Seq<i32>, li: Seq<i32>, i: int, lo: int, k: int, br: bool, v: int, w: int) -> int
    decreases k - lo
{ if k <= lo { 0 } else { dep_e(gi, li, i, lo, k - 1, br, v, w) + is_dep(gi[li[k - 1] as int] as int, i, br, v, w) } }
pub open spec fn first_e(lp: Seq<i32>, r: int, br: bool) -> int { if br { lp[r] as int } else { lp[r] + 1 } }
pub open spec fn last_e(lp: Seq<i32>, r: int, br: bool) -> int { if br { lp[r + 1] - 1 } else { lp[r + 1] as int } }
// ... by the members lo..j of group i
pub open spec fn dep_m(gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, i: int, lo: int, j: int, br: bool, v: int, w: int) -> int
    decreases j - lo
{ if j <= lo { 0 } else { dep_m(gs, gi, lp, li, i, lo, j - 1, br, v, w) + dep_e(gi, li, i, first_e(lp, gs[j - 1] as int, br), last_e(lp, gs[j - 1] as int, br), br, v, w) } }
// ... by the groups 0..g
pub open spec fn dep_g(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, g: int, br: bool, v: int, w: int) -> int
    decreases g
{ if g <= 0 { 0 } else { dep_g(gp, gs, gi, lp, li, g - 1, br, v, w) + dep_m(gs, gi, lp, li, g - 1, gp[g - 1] as int, gp[g] as int, br, v, w) } }
// ... by the entries of row i itself, and of the rows 0..r
pub open spec fn dep_r(li: Seq<i32>, i: int, lo: int, k: int, v: int, w: int) -> int
    decreases k - lo
{ if k <= lo { 0 } else { dep_r(li, i, lo, k - 1, v, w) + is_dep(li[k - 1] as int, i, true, v, w) } }
pub open spec fn dep_rows(lp: Seq<i32>, li: Seq<i32>, r: int, v: int, w: int) -> int
    decreases r
{ if r <= 0 { 0 } else { dep_rows(lp, li, r - 1, v, w) + dep_r(li, r - 1, lp[r - 1] as int, lp[r] - 1, v, w) } }
// number of times w is in list v
pub open spec fn times(d: Seq<Vec<i32>>, v: int, w: i32) -> int { d[v]@.to_multiset().count(w) as int }
pub proof fn times_push(d: Seq<Vec<i32>>, e: Seq<Vec<i32>>, i: int, x: i32)
    requires 0 <= i < d.len(), upd2(e, d, i, d[i]@.push(x)),
    ensures forall|v: int, w: i32| 0 <= v < d.len() ==> #[trigger] times(e, v, w) == times(d, v, w) + (if v == i && w == x { 1int } else { 0int }),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|v: int, w: i32| 0 <= v < d.len() implies #[trigger] times(e, v, w) == times(d, v, w) + (if v == i && w == x { 1int } else { 0int }) by {
        if v == i { assert(e[i]@ == d[i]@.push(x)); } else { assert(e[v] == d[v]); }
    }
}
pub open spec fn cuts(gp: Seq<i32>, ng: int) -> bool { gp.len() > ng && gp[0] == 0 && forall|a: int, b: int| 0 <= a <= b <= ng ==> #[trigger] gp[a] <= #[trigger] gp[b] }
pub open spec fn groups_in(gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, ng: int, n: int) -> bool {
    0 <= ng && cuts(gp, ng) && gs.len() >= gp[ng] && (forall|q: int| 0 <= q < gp[ng] ==> 0 <= #[trigger] gs[q] < n)
    && gi.len() >= n && forall|v: int| 0 <= v < n ==> 0 <= #[trigger] gi[v] < ng
}
#[verifier::opaque]
pub open spec fn at_e(d: Seq<Vec<i32>>, d2: Seq<Vec<i32>>, gi: Seq<i32>, li: Seq<i32>, i: int, lo: int, k: int, br: bool) -> bool {
    d.len() == d2.len() && forall|v: int, w: i32| 0 <= v < d.len() ==> #[trigger] times(d, v, w) == times(d2, v, w) + dep_e(gi, li, i, lo, k, br, v, w as int)
}
#[verifier::opaque]
pub open spec fn at_m(d: Seq<Vec<i32>>, d1: Seq<Vec<i32>>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, i: int, lo: int, j: int, br: bool) -> bool {
    d.len() == d1.len() && forall|v: int, w: i32| 0 <= v < d.len() ==> #[trigger] times(d, v, w) == times(d1, v, w) + dep_m(gs, gi, lp, li, i, lo, j, br, v, w as int)
}
#[verifier::opaque]
pub open spec fn at_g(d: Seq<Vec<i32>>, d0: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, g: int, br: bool) -> bool {
    d.len() == d0.len() && forall|v: int, w: i32| 0 <= v < d.len() ==> #[trigger] times(d, v, w) == times(d0, v, w) + dep_g(gp, gs, gi, lp, li, g, br, v, w as int)
}
pub proof fn at_init(d: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, i: int, lo: int, br: bool)
    ensures at_e(d, d, gi, li, i, lo, lo, br), at_m(d, d, gs, gi, lp, li, i, lo, lo, br), at_g(d, d, gp, gs, gi, lp, li, 0, br),
{ reveal(at_e); reveal(at_m); reveal(at_g); }
pub proof fn at_e_step(d: Seq<Vec<i32>>, e: Seq<Vec<i32>>, d2: Seq<Vec<i32>>, gi: Seq<i32>, li: Seq<i32>, i: i32, lo: int, k: int, br: bool, s: i32)
    requires at_e(d, d2, gi, li, i as int, lo, k, br), lo <= k, s == gi[li[k] as int], 0 <= (if br { s } else { i }) < d.len(),
        if s != i { if br { upd2(e, d, s as int, d[s as int]@.push(i)) } else { upd2(e, d, i as int, d[i as int]@.push(s)) } } else { e == d },
    ensures at_e(e, d2, gi, li, i as int, lo, k + 1, br),
{ reveal(at_e); if s != i { if br { times_push(d, e, s as int, i); } else { times_push(d, e, i as int, s); } } }
pub proof fn at_m_step(d: Seq<Vec<i32>>, d2: Seq<Vec<i32>>, d1: Seq<Vec<i32>>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, i: int, lo: int, j: int, br: bool)
    requires at_e(d, d2, gi, li, i, first_e(lp, gs[j] as int, br), last_e(lp, gs[j] as int, br), br), at_m(d2, d1, gs, gi, lp, li, i, lo, j, br), lo <= j,
    ensures at_m(d, d1, gs, gi, lp, li, i, lo, j + 1, br),
{ reveal(at_e); reveal(at_m); }
pub proof fn at_g_step(d: Seq<Vec<i32>>, d1: Seq<Vec<i32>>, d0: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, gi: Seq<i32>, lp: Seq<i32>, li: Seq<i32>, g: int, br: bool)
    requires at_m(d, d1, gs, gi, lp, li, g, gp[g] as int, gp[g + 1] as int, br), at_g(d1, d0, gp, gs, gi, lp, li, g, br), 0 <= g,
    ensures at_g(d, d0, gp, gs, gi, lp, li, g + 1, br),
{ reveal(at_m); reveal(at_g); }
