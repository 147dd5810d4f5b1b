//@uses visit deps
// groups reached from the entries lo..k
pub open spec fn tset(inv: Seq<i32>, i: Seq<i32>, lo: int, k: int) -> Set<i32>
    decreases k - lo
{ if k <= lo { Set::<i32>::empty() } else { tset(inv, i, lo, k - 1).insert(inv[i[k - 1] as int]) } }
// groups reached from the members lo..j of the node list
pub open spec fn mset(gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, lo: int, j: int) -> Set<i32>
    decreases j - lo
{ if j <= lo { Set::<i32>::empty() } else { mset(gs, inv, p, i, lo, j - 1).union(tset(inv, i, p[gs[j - 1] as int] as int, p[gs[j - 1] + 1] as int)) } }
pub open spec fn in_part(gp: Seq<i32>, g: int, q: int) -> bool { gp[g] <= q < gp[g + 1] }
pub open spec fn inv_of(gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, ng: int) -> bool {
    forall|g: int, q: int| 0 <= g < ng && #[trigger] in_part(gp, g, q) ==> inv[gs[q] as int] == g
}
// a dependence: member q of the list has an entry e whose target belongs to group x
pub open spec fn via(gs: Seq<i32>, p: Seq<i32>, q: int, e: int) -> bool { in_col(p, gs[q] as int, e) }
pub proof fn tset_mem(inv: Seq<i32>, i: Seq<i32>, lo: int, k: int, x: i32)
    ensures tset(inv, i, lo, k).contains(x) <==> exists|e: int| lo <= e < k && inv[#[trigger] i[e] as int] == x,
    decreases k - lo
{
    if k > lo {
        tset_mem(inv, i, lo, k - 1, x);
        if inv[i[k - 1] as int] == x { }
        if tset(inv, i, lo, k - 1).contains(x) { let e = choose|e: int| lo <= e < k - 1 && inv[#[trigger] i[e] as int] == x; assert(lo <= e < k && inv[i[e] as int] == x); }
    }
}
// what the sets mean: x is in the set of a group exactly when one of its members has an entry into x
pub proof fn mset_mem(gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, lo: int, j: int, x: i32)
    ensures mset(gs, inv, p, i, lo, j).contains(x) <==> exists|q: int, e: int| lo <= q < j && #[trigger] via(gs, p, q, e) && inv[i[e] as int] == x,
    decreases j - lo
{
    if j > lo {
        mset_mem(gs, inv, p, i, lo, j - 1, x);
        let a = p[gs[j - 1] as int] as int; let b = p[gs[j - 1] + 1] as int;
        tset_mem(inv, i, a, b, x);
        if tset(inv, i, a, b).contains(x) {
            let e = choose|e: int| a <= e < b && inv[#[trigger] i[e] as int] == x;
            assert(via(gs, p, j - 1, e));
        }
        if mset(gs, inv, p, i, lo, j - 1).contains(x) {
            let (q, e) = choose|q: int, e: int| lo <= q < j - 1 && #[trigger] via(gs, p, q, e) && inv[i[e] as int] == x;
            assert(lo <= q < j && via(gs, p, q, e));
        }
        if exists|q: int, e: int| lo <= q < j && #[trigger] via(gs, p, q, e) && inv[i[e] as int] == x {
            let (q, e) = choose|q: int, e: int| lo <= q < j && #[trigger] via(gs, p, q, e) && inv[i[e] as int] == x;
            if q < j - 1 { assert(mset(gs, inv, p, i, lo, j - 1).contains(x)); }
            else { assert(a <= e < b && inv[i[e] as int] == x); assert(tset(inv, i, a, b).contains(x)); }
        }
    }
}
pub proof fn push_set(s: Seq<i32>, x: i32)
    ensures s.push(x).to_set() == s.to_set().insert(x),
{
    let t = s.push(x);
    assert forall|y: i32| t.to_set().contains(y) <==> s.to_set().insert(x).contains(y) by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(t[k] == y); assert(t.contains(y)); }
        if y == x { assert(t[s.len() as int] == x); assert(t.contains(x)); }
        if t.contains(y) { let k = choose|k: int| 0 <= k < t.len() && t[k] == y; if k < s.len() { assert(s[k] == y); assert(s.contains(y)); } }
    }
    assert(t.to_set() =~= s.to_set().insert(x));
}
pub proof fn perm_set(a: Seq<i32>, b: Seq<i32>)
    requires perm_range(a, b, 0, b.len() as int),
    ensures a.to_set() == b.to_set(), a.len() == b.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(b.subrange(0, b.len() as int) =~= b);
    assert forall|y: i32| a.to_set().contains(y) <==> b.to_set().contains(y) by {
        assert(a.contains(y) <==> a.to_multiset().count(y) > 0);
        assert(b.contains(y) <==> b.to_multiset().count(y) > 0);
    }
    assert(a.to_set() =~= b.to_set());
}
// number of entries of the members 0..k
pub open spec fn dsum(gs: Seq<i32>, p: Seq<i32>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { dsum(gs, p, k - 1) + p[gs[k - 1] + 1] - p[gs[k - 1] as int] } }
pub open spec fn degf(p: Seq<i32>) -> spec_fn(int) -> int { |c: int| p[c + 1] - p[c] }
proof fn dsum_hit(gs: Seq<i32>, p: Seq<i32>, n: int, k: int)
    requires is_perm(gs, n), ptrs(p, n), 0 <= k <= n,
    ensures dsum(gs, p, k) == sum(hitf(gs, k, degf(p)), n),
    decreases k
{ if k > 0 { dsum_hit(gs, p, n, k - 1); sum_hit_step(gs, n, k - 1, degf(p)); } else { sum_zero(hitf(gs, 0, degf(p)), n); } }
pub proof fn dsum_le(gs: Seq<i32>, p: Seq<i32>, n: int, k: int)
    requires is_perm(gs, n), ptrs(p, n), 0 <= k <= n,
    ensures 0 <= dsum(gs, p, k) <= p[n],
{
    dsum_hit(gs, p, n, k);
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] degf(p)(j) by { assert(p[j] <= p[j + 1]); }
    sum_hit_le(gs, n, k, degf(p));
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] hitf(gs, k, degf(p))(j) by { assert(0 <= degf(p)(j)); }
    sum_ge0(hitf(gs, k, degf(p)), n);
    sum_deg(p, n);
}
proof fn sum_deg(p: Seq<i32>, n: int)
    requires n >= 0,
    ensures sum(degf(p), n) == p[n] - p[0],
    decreases n
{ if n > 0 { sum_deg(p, n - 1); } }
pub open spec fn list_ok(l: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, g: int) -> bool {
    strict(l) && l.to_set() == mset(gs, inv, p, i, gp[g] as int, gp[g + 1] as int)
}
#[verifier::opaque]
pub open spec fn lists_ok(d: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, m: int) -> bool {
    m <= d.len() && forall|g: int| 0 <= g < m ==> list_ok((#[trigger] d[g])@, gp, gs, inv, p, i, g)
}
pub proof fn lists_init(d: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>)
    ensures lists_ok(d, gp, gs, inv, p, i, 0),
{ reveal(lists_ok); }
pub proof fn lists_step(d: Seq<Vec<i32>>, e: Seq<Vec<i32>>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, m: int)
    requires lists_ok(d, gp, gs, inv, p, i, m), 0 <= m < e.len(), d.len() == e.len(), forall|k: int| 0 <= k < m ==> #[trigger] e[k] == d[k], list_ok(e[m]@, gp, gs, inv, p, i, m),
    ensures lists_ok(e, gp, gs, inv, p, i, m + 1), cat(e, 0, m + 1).len() == cat(d, 0, m).len() + e[m]@.len(),
{
    reveal(lists_ok);
    cat_ext(e, d, m);
    assert forall|g: int| 0 <= g < m + 1 implies list_ok((#[trigger] e[g])@, gp, gs, inv, p, i, g) by { if g < m { assert(e[g] == d[g]); assert(list_ok(d[g]@, gp, gs, inv, p, i, g)); } }
}
// the graph over the groups, in compressed form
pub open spec fn gdag_col(op: Seq<i32>, oi: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, g: int) -> bool {
    0 <= op[g] <= op[g + 1] <= oi.len() && list_ok(oi.subrange(op[g] as int, op[g + 1] as int), gp, gs, inv, p, i, g)
}
pub open spec fn group_graph(op: Seq<i32>, oi: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, ng: int) -> bool {
    inv_of(gp, gs, inv, ng) && op.len() == ng + 1 && op[0] == 0 && op[ng] == oi.len()
    && forall|g: int| 0 <= g < ng ==> #[trigger] gdag_col(op, oi, gp, gs, inv, p, i, g)
}
pub proof fn gdag_done(d: Seq<Vec<i32>>, op: Seq<i32>, oi: Seq<i32>, gp: Seq<i32>, gs: Seq<i32>, inv: Seq<i32>, p: Seq<i32>, i: Seq<i32>, ng: int)
    requires lists_ok(d, gp, gs, inv, p, i, ng), d.len() == ng, inv_of(gp, gs, inv, ng), op.len() == ng + 1, oi.len() == cat(d, 0, ng).len(), ng >= 0,
        forall|k: int| 0 <= k <= ng ==> #[trigger] op[k] == cat(d, 0, k).len(), forall|x: int| 0 <= x < oi.len() ==> #[trigger] oi[x] == cat(d, 0, ng)[x],
    ensures group_graph(op, oi, gp, gs, inv, p, i, ng),
{
    reveal(lists_ok);
    assert forall|g: int| 0 <= g < ng implies #[trigger] gdag_col(op, oi, gp, gs, inv, p, i, g) by {
        cat_mono(d, g + 1, ng); cat_mono(d, g, g + 1);
        assert(cat(d, 0, g + 1) == cat(d, 0, g) + d[g]@);
        assert(oi.subrange(op[g] as int, op[g + 1] as int) =~= d[g]@) by {
            assert forall|x: int| 0 <= x < d[g]@.len() implies oi.subrange(op[g] as int, op[g + 1] as int)[x] == d[g]@[x] by {
                assert(oi[op[g] + x] == cat(d, 0, ng)[op[g] + x]);
                assert(cat(d, 0, ng)[op[g] + x] == cat(d, 0, g + 1)[op[g] + x]);
            }
        }
        assert(list_ok(d[g]@, gp, gs, inv, p, i, g));
    }
}
// part a..b of the schedule is one of the groups
pub open spec fn grp_at(gp: Seq<i32>, g: int, a: int, b: int) -> bool { 0 <= g && g + 1 < gp.len() && gp[g] == a && gp[g + 1] == b }
pub open spec fn part_kept(gp: Seq<i32>, pp: Seq<i32>, j: int) -> bool { pp[j] < pp[j + 1] ==> is_grp(gp, pp[j] as int, pp[j + 1] as int) }
pub open spec fn is_grp(gp: Seq<i32>, a: int, b: int) -> bool { exists|g: int| grp_at(gp, g, a, b) }
pub open spec fn sched_shape(nl: int, lp: Seq<i32>, pp: Seq<i32>, n: int) -> bool {
    nl >= 0 && ptrs(lp, nl) && ptrs(pp, lp[nl] as int) && pp[lp[nl] as int] == n
}
pub open spec fn rises(s: Seq<i32>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b] }
#[verifier::opaque]
pub open spec fn parts_kept(gp: Seq<i32>, pp: Seq<i32>, m: int) -> bool {
    gp.len() > 0 && gp[0] == 0 && rises(gp) && forall|j: int| 0 <= j < m ==> #[trigger] part_kept(gp, pp, j)
}
pub proof fn parts_step(gp: Seq<i32>, gq: Seq<i32>, pp: Seq<i32>, m: int)
    requires parts_kept(gp, pp, m), gp.last() == pp[m], pp[m] <= pp[m + 1], if pp[m] == pp[m + 1] { gq == gp } else { gq == gp.push(pp[m + 1]) },
    ensures parts_kept(gq, pp, m + 1), gq.last() == pp[m + 1],
{
    reveal(parts_kept);
    assert forall|j: int| 0 <= j < m + 1 implies #[trigger] part_kept(gq, pp, j) by {
        if j < m { assert(part_kept(gp, pp, j)); if pp[j] < pp[j + 1] { let a = pp[j] as int; let b = pp[j + 1] as int; let g = choose|g: int| grp_at(gp, g, a, b); assert(grp_at(gq, g, a, b)); } }
        else if pp[m] < pp[m + 1] { assert(grp_at(gq, gp.len() - 1, pp[m] as int, pp[m + 1] as int)); }
    }
    assert(rises(gq)) by { assert forall|a: int, b: int| 0 <= a < b < gq.len() implies #[trigger] gq[a] < #[trigger] gq[b] by {
        if b < gp.len() { assert(gp[a] < gp[b]); } else if a < gp.len() - 1 { assert(gp[a] < gp[gp.len() - 1]); } } }
}
pub proof fn rises_len(s: Seq<i32>)
    requires s.len() > 0, rises(s),
    ensures s.last() >= s[0] + s.len() - 1,
    decreases s.len()
{
    if s.len() > 1 {
        let t = s.drop_last();
        assert(rises(t)) by { assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] < #[trigger] t[b] by { assert(s[a] < s[b]); } }
        rises_len(t);
        assert(s[s.len() - 2] < s[s.len() - 1]);
    }
}
// groups other than g reached from the first k entries of a dependence list, and from the members lo..j of g
pub open spec fn xset(inv: Seq<i32>, l: Seq<i32>, g: int, k: int) -> Set<i32>
    decreases k
{ if k <= 0 { Set::<i32>::empty() } else if inv[l[k - 1] as int] != g { xset(inv, l, g, k - 1).insert(inv[l[k - 1] as int]) } else { xset(inv, l, g, k - 1) } }
pub open spec fn yset(d: Seq<Vec<i32>>, gs: Seq<i32>, inv: Seq<i32>, g: int, lo: int, j: int) -> Set<i32>
    decreases j - lo
{ if j <= lo { Set::<i32>::empty() } else { yset(d, gs, inv, g, lo, j - 1).union(xset(inv, d[gs[j - 1] as int]@, g, d[gs[j - 1] as int]@.len() as int)) } }
