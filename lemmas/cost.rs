//@uses graph
// ---------------------------------------------------------------- exact cost of a node or a group under the chosen kernel
// entries of the columns (rows) wp listed in wi[lo..hi]
pub open spec fn wsum(wp: Seq<i32>, wi: Seq<i32>, lo: int, hi: int) -> int
    decreases hi - lo
{ if hi <= lo { 0 } else { wsum(wp, wi, lo, hi - 1) + (wp[wi[hi - 1] + 1] - wp[wi[hi - 1] as int]) } }
pub open spec fn node_cost(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, v: int) -> int {
    if k == 0 { rp[v + 1] - rp[v] }                                       // SpTrSv left-looking: the row
    else if k == 1 { cp[v + 1] - cp[v] }                                  // SpTrSv right-looking: the column
    else if k == 2 { wsum(cp, ri, rp[v] as int, rp[v + 1] as int) }       // SpICh0_LL: columns of the row's entries
    else if k == 3 { wsum(cp, ci, cp[v] as int, cp[v + 1] as int) }       // SpICh0_RL: columns of the column's entries
    else if k == 4 || k == 5 || k == 6 { wsum(rp, ri, rp[v] as int, rp[v + 1] as int) } // SpICh0_UL, SpILU0_UL, General: rows of the row's entries
    else { 0 }
}
pub open spec fn group_cost(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, gs: Seq<i32>, lo: int, hi: int) -> int
    decreases hi - lo
{ if hi <= lo { 0 } else { group_cost(k, cp, ci, rp, ri, gs, lo, hi - 1) + node_cost(k, cp, ci, rp, ri, gs[hi - 1] as int) } }
pub open spec fn exact_cost(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, grouped: bool, g: int) -> int {
    if grouped { group_cost(k, cp, ci, rp, ri, gs, gp[g] as int, gp[g + 1] as int) } else { node_cost(k, cp, ci, rp, ri, g) }
}
pub proof fn wsum_le(wp: Seq<i32>, wi: Seq<i32>, n: int, lo: int, mid: int, hi: int)
    requires ptrs(wp, n), 0 <= lo <= mid <= hi <= wi.len(), forall|j: int| lo <= j < hi ==> 0 <= #[trigger] wi[j] < n,
    ensures 0 <= wsum(wp, wi, lo, mid) <= wsum(wp, wi, lo, hi),
    decreases hi - lo
{ if lo < hi { assert(0 <= wi[hi - 1] < n); if mid < hi { wsum_le(wp, wi, n, lo, mid, hi - 1); } else { wsum_le(wp, wi, n, lo, hi - 1, hi - 1); } } }
pub proof fn node_cost_ge(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, n: int, v: int)
    requires gwf(cp, ci, n), gwf(rp, ri, n), 0 <= v < n,
    ensures 0 <= node_cost(k, cp, ci, rp, ri, v),
{
    assert(rp[v] <= rp[v + 1] <= rp[n]); assert(cp[v] <= cp[v + 1] <= cp[n]); assert(rp[0] <= rp[v]); assert(cp[0] <= cp[v]);
    if k == 2 { wsum_le(cp, ri, n, rp[v] as int, rp[v + 1] as int, rp[v + 1] as int); }
    if k == 3 { wsum_le(cp, ci, n, cp[v] as int, cp[v + 1] as int, cp[v + 1] as int); }
    if k == 4 || k == 5 || k == 6 { wsum_le(rp, ri, n, rp[v] as int, rp[v + 1] as int, rp[v + 1] as int); }
}
pub proof fn group_cost_le(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, gs: Seq<i32>, n: int, lo: int, mid: int, hi: int)
    requires gwf(cp, ci, n), gwf(rp, ri, n), 0 <= lo <= mid <= hi <= gs.len(), forall|j: int| lo <= j < hi ==> 0 <= #[trigger] gs[j] < n,
    ensures 0 <= group_cost(k, cp, ci, rp, ri, gs, lo, mid) <= group_cost(k, cp, ci, rp, ri, gs, lo, hi),
    decreases hi - lo
{
    if lo < hi {
        node_cost_ge(k, cp, ci, rp, ri, n, gs[hi - 1] as int);
        if mid < hi { group_cost_le(k, cp, ci, rp, ri, gs, n, lo, mid, hi - 1); } else { group_cost_le(k, cp, ci, rp, ri, gs, n, lo, hi - 1, hi - 1); }
    }
}
pub open spec fn cost_ctx(k: int, cp: Seq<i32>, ci: Seq<i32>, rp: Seq<i32>, ri: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, grouped: bool, nodes: int) -> bool {
    nodes >= 0 && 0 <= k <= 6
    && cp.len() >= 1 && rp.len() == cp.len() && gwf(cp, ci, cp.len() - 1) && gwf(rp, ri, cp.len() - 1) && cp.len() < i32::MAX
    && (!grouped ==> nodes == cp.len() - 1)
    && (grouped ==> ptrs(gp, nodes) && gs.len() >= gp[nodes] && forall|t: int| 0 <= t < gp[nodes] ==> 0 <= #[trigger] gs[t] < cp.len() - 1)
    // costs beyond 2^53 are not exactly representable
    && forall|g: int| 0 <= g < nodes ==> #[trigger] exact_cost(k, cp, ci, rp, ri, gp, gs, grouped, g) <= 0x20_0000_0000_0000
}
