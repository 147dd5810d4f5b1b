//@uses full perm
// ---------------------------------------------------------------- symmetric permutation of a half: entries in the order they are visited
// (column q[j] of the input is column j of the permuted matrix, whose other half is stored: the pair (qi[r], j) goes to its larger or smaller index)
pub open spec fn tlist(p: Seq<i32>, i: Seq<i32>, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int) -> Xp
    decreases j, e
{
    if e > p[q[j] as int] && e > 0 {
        let t = tlist(p, i, q, qi, lower, j, e - 1);
        let r = i[e - 1] as int;
        if side_of(r, q[j] as int, lower) {
            let a = qi[r];
            let b = j as i32;
            let hi = if a > b { a } else { b };
            let lo = if a > b { b } else { a };
            Xp { c: t.c.push(if lower { hi } else { lo }), r: t.r.push(if lower { lo } else { hi }), e: t.e.push(e - 1) }
        } else { t }
    } else if j > 0 { tlist(p, i, q, qi, lower, j - 1, p[q[j - 1] + 1] as int) }
    else { Xp { c: Seq::empty(), r: Seq::empty(), e: Seq::empty() } }
}
// the first j permuted columns
pub open spec fn tcols(p: Seq<i32>, i: Seq<i32>, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int) -> Xp {
    if j <= 0 { Xp { c: Seq::empty(), r: Seq::empty(), e: Seq::empty() } } else { tlist(p, i, q, qi, lower, j - 1, p[q[j - 1] + 1] as int) }
}
pub open spec fn tln(p: Seq<i32>, i: Seq<i32>, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int) -> int { tlist(p, i, q, qi, lower, j, e).c.len() as int }
pub open spec fn pre(a: Xp, b: Xp) -> bool {
    a.c.len() <= b.c.len() && a.r.len() == a.c.len() && a.e.len() == a.c.len() && b.r.len() == b.c.len() && b.e.len() == b.c.len()
    && (forall|k: int| 0 <= k < a.c.len() ==> #[trigger] a.c[k] == b.c[k])
    && (forall|k: int| 0 <= k < a.c.len() ==> #[trigger] a.r[k] == b.r[k])
    && (forall|k: int| 0 <= k < a.c.len() ==> #[trigger] a.e[k] == b.e[k])
}
pub open spec fn tctx(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>) -> bool {
    gwf(p, i, n) && 1 <= n < i32::MAX && is_perm(q, n) && inverses(qi, q, n)
}
pub open spec fn from_ok(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, s: Xp, k: int, j: int) -> bool {
    let e = s.e[k];
    0 <= e < p[n] && ({
        let b = src(p, n, e);
        let r = i[e] as int;
        0 <= b < n && in_col(p, b, e) && side_of(r, b, lower) && 0 <= qi[b] <= j
        && s.c[k] == (if lower == (qi[r] > qi[b]) { qi[r] } else { qi[b] })
        && s.r[k] == (if lower == (qi[r] > qi[b]) { qi[b] } else { qi[r] })
    })
}
pub proof fn tl_facts(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int)
    requires tctx(p, i, n, q, qi), 0 <= j < n, p[q[j] as int] <= e <= p[q[j] + 1],
    ensures ({ let s = tlist(p, i, q, qi, lower, j, e); s.r.len() == s.c.len() && s.e.len() == s.c.len()
        && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] s.c[k] < n)
        && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] s.r[k] < n)
        && (forall|k: int| 0 <= k < s.c.len() ==> #[trigger] from_ok(p, i, n, q, qi, lower, s, k, j)) }),
    decreases j, e,
{
    let s = tlist(p, i, q, qi, lower, j, e);
    let c = q[j] as int;
    assert(0 <= c < n && qi[c] == j);
    assert(p[0] <= p[c]);
    if e > p[c] && e > 0 {
        tl_facts(p, i, n, q, qi, lower, j, e - 1);
        let t = tlist(p, i, q, qi, lower, j, e - 1);
        assert(in_col(p, c, e - 1));
        src_is(p, n, c, e - 1);
        let r = i[e - 1] as int;
        assert(0 <= r < n); assert(0 <= qi[r] < n);
        assert forall|k: int| 0 <= k < s.c.len() implies #[trigger] from_ok(p, i, n, q, qi, lower, s, k, j) by { if k < t.c.len() { assert(from_ok(p, i, n, q, qi, lower, t, k, j)); } }
    } else if j > 0 {
        let d = q[j - 1] as int;
        assert(0 <= d < n); assert(p[d] <= p[d + 1]);
        tl_facts(p, i, n, q, qi, lower, j - 1, p[d + 1] as int);
        let t = tlist(p, i, q, qi, lower, j - 1, p[d + 1] as int);
        assert forall|k: int| 0 <= k < s.c.len() implies #[trigger] from_ok(p, i, n, q, qi, lower, s, k, j) by { assert(from_ok(p, i, n, q, qi, lower, t, k, j - 1)); }
    }
}
// visiting on extends the list
pub proof fn tl_pre(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int)
    requires tctx(p, i, n, q, qi), 0 <= j < n, p[q[j] as int] <= e <= p[q[j] + 1],
    ensures pre(tlist(p, i, q, qi, lower, j, e), tcols(p, i, q, qi, lower, n)),
    decreases n - j, p[q[j] + 1] - e,
{
    let c = q[j] as int;
    assert(0 <= c < n); assert(p[0] <= p[c]);
    tl_facts(p, i, n, q, qi, lower, j, e);
    if e < p[c + 1] {
        tl_pre(p, i, n, q, qi, lower, j, e + 1);
        tl_facts(p, i, n, q, qi, lower, j, e + 1);
        let a = tlist(p, i, q, qi, lower, j, e); let b = tlist(p, i, q, qi, lower, j, e + 1);
        assert(pre(a, b));
    } else if j + 1 < n {
        let d = q[j + 1] as int;
        assert(0 <= d < n); assert(p[d] <= p[d + 1]); assert(p[0] <= p[d]);
        tl_pre(p, i, n, q, qi, lower, j + 1, p[d] as int);
    }
}
// the next entry: where it goes, and how the list grows
pub proof fn tl_at(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int)
    requires tctx(p, i, n, q, qi), 0 <= j < n, p[q[j] as int] <= e < p[q[j] + 1],
    ensures 0 <= e < p[n], 0 <= i[e] < n, 0 <= qi[i[e] as int] < n,
        ({ let s = tcols(p, i, q, qi, lower, n); let l = tln(p, i, q, qi, lower, j, e); let k = side_of(i[e] as int, q[j] as int, lower);
           let a = qi[i[e] as int];
           tln(p, i, q, qi, lower, j, e + 1) == l + (if k { 1int } else { 0int }) && tln(p, i, q, qi, lower, j, e + 1) <= s.c.len()
           && (k ==> l < s.c.len() && s.e[l] == e && s.c[l] == (if lower == (a > j) { a as int } else { j }) && s.r[l] == (if lower == (a > j) { j } else { a as int })) }),
{
    let c = q[j] as int;
    assert(0 <= c < n); assert(p[0] <= p[c]); assert(p[c + 1] <= p[n]);
    tl_facts(p, i, n, q, qi, lower, j, e);
    tl_pre(p, i, n, q, qi, lower, j, e + 1);
    let b = tlist(p, i, q, qi, lower, j, e + 1); let l = tln(p, i, q, qi, lower, j, e);
    if side_of(i[e] as int, c, lower) { assert(b.c[l] == tcols(p, i, q, qi, lower, n).c[l]); assert(b.r[l] == tcols(p, i, q, qi, lower, n).r[l]); assert(b.e[l] == e); }
}
pub proof fn tl_next(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int)
    requires tctx(p, i, n, q, qi), 0 <= j < n,
    ensures tlist(p, i, q, qi, lower, j, p[q[j] as int] as int) == tcols(p, i, q, qi, lower, j), 0 <= q[j] < n, 0 <= p[q[j] as int] <= p[q[j] + 1] <= p[n],
{ assert(0 <= q[j] < n); assert(p[0] <= p[q[j] as int]); assert(p[q[j] as int] <= p[q[j] + 1]); assert(p[q[j] + 1] <= p[n]); }
pub open spec fn clen(p: Seq<i32>) -> spec_fn(int) -> int { |k: int| (p[k + 1] - p[k]) as int }
pub proof fn tl_bound(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, j: int, e: int)
    requires tctx(p, i, n, q, qi), 0 <= j < n, p[q[j] as int] <= e <= p[q[j] + 1],
    ensures tln(p, i, q, qi, lower, j, e) <= sum(hitf(q, j, clen(p)), n) + (e - p[q[j] as int]),
    decreases j, e,
{
    let c = q[j] as int;
    assert(0 <= c < n); assert(p[0] <= p[c]);
    if e > p[c] && e > 0 { tl_bound(p, i, n, q, qi, lower, j, e - 1); }
    else if j > 0 {
        let d = q[j - 1] as int;
        assert(0 <= d < n); assert(p[d] <= p[d + 1]);
        tl_bound(p, i, n, q, qi, lower, j - 1, p[d + 1] as int);
        sum_hit_step(q, n, j - 1, clen(p));
    } else { sum_zero(hitf(q, 0, clen(p)), n); }
}
pub proof fn tl_all(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool)
    requires tctx(p, i, n, q, qi),
    ensures ({ let s = tcols(p, i, q, qi, lower, n); s.r.len() == s.c.len() && s.e.len() == s.c.len() && s.c.len() <= p[n]
        && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] s.c[k] < n)
        && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] s.r[k] < n)
        && (forall|k: int| 0 <= k < s.c.len() ==> #[trigger] from_ok(p, i, n, q, qi, lower, s, k, n)) }),
{
    let d = q[n - 1] as int;
    assert(0 <= d < n); assert(p[d] <= p[d + 1]);
    tl_facts(p, i, n, q, qi, lower, n - 1, p[d + 1] as int);
    tl_bound(p, i, n, q, qi, lower, n - 1, p[d + 1] as int);
    sum_hit_step(q, n, n - 1, clen(p));
    sum_hit_all(q, n, clen(p));
    sum_diff(p, n);
    sum_eq(clen(p), |k: int| (p[k + 1] - p[k]) as int, n);
    let s = tcols(p, i, q, qi, lower, n);
    assert forall|k: int| 0 <= k < s.c.len() implies #[trigger] from_ok(p, i, n, q, qi, lower, s, k, n) by { assert(from_ok(p, i, n, q, qi, lower, s, k, n - 1)); }
}
// the result holds, column by column and in order, the visited entries
pub open spec fn is_symt(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    let s = tcols(p, i, q, qi, lower, n);
    gwf(tp, ti, n) && tp[n] == s.c.len()
    && (forall|v: int| 0 <= v <= n ==> #[trigger] tp[v] == start(s.c, s.c.len() as int, v))
    && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] slot(s.c, s.c.len() as int, k) < s.c.len())
    && (forall|k: int| 0 <= k < s.c.len() ==> #[trigger] full_at(s, ti, k))
    && (forall|v: int, e: int| 0 <= v < n && #[trigger] in_col(tp, v, e) ==> full_from(s, ti, v, e))
}
pub open spec fn hash(p: Seq<i32>, i: Seq<i32>, lower: bool, c: int, r: int) -> bool { has(p, i, c, r) && side_of(r, c, lower) }
// entry (r, c) is in the result exactly when its pair of old indices was stored, one way round or the other
pub open spec fn sym_perm(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, lower: bool, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    forall|c: int, r: int| 0 <= c < n && 0 <= r < n ==> (#[trigger] has(tp, ti, c, r) <==> side_of(r, c, !lower) && (hash(p, i, lower, q[c] as int, q[r] as int) || hash(p, i, lower, q[r] as int, q[c] as int)))
}
proof fn tl_back(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, tp: Seq<i32>, ti: Seq<i32>, c: int, r: int)
    requires tctx(p, i, n, q, qi), is_symt(p, i, n, q, qi, lower, tp, ti), 0 <= c < n, 0 <= r < n, hash(p, i, lower, c, r),
    ensures ({ let a = qi[r] as int; let b = qi[c] as int; has(tp, ti, if lower == (a > b) { a } else { b }, if lower == (a > b) { b } else { a }) }),
{
    let e = choose|e: int| has_at(p, i, c, r, e);
    let j = qi[c] as int;
    assert(q[j] == c);
    tl_at(p, i, n, q, qi, lower, j, e);
    let s = tcols(p, i, q, qi, lower, n);
    let k = tln(p, i, q, qi, lower, j, e);
    tl_all(p, i, n, q, qi, lower);
    assert(0 <= s.c[k] < n);
    slot_in(s.c, s.c.len() as int, k, n);
    assert(full_at(s, ti, k));
    assert(tp[s.c[k] as int] == start(s.c, s.c.len() as int, s.c[k] as int)); assert(tp[s.c[k] + 1] == start(s.c, s.c.len() as int, s.c[k] + 1));
    assert(has_at(tp, ti, s.c[k] as int, s.r[k] as int, slot(s.c, s.c.len() as int, k)));
}
pub proof fn symt_finish(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, tp: Seq<i32>, ti: Seq<i32>)
    requires tctx(p, i, n, q, qi), tp.len() > n, ti.len() >= tcols(p, i, q, qi, lower, n).c.len(),
        forall|v: int| 0 <= v <= n ==> #[trigger] tp[v] == start(tcols(p, i, q, qi, lower, n).c, tcols(p, i, q, qi, lower, n).c.len() as int, v),
        forall|k: int| 0 <= k < tcols(p, i, q, qi, lower, n).c.len() ==> #[trigger] full_at(tcols(p, i, q, qi, lower, n), ti, k),
    ensures is_symt(p, i, n, q, qi, lower, tp, ti), sym_perm(p, i, n, q, lower, tp, ti),
{
    let s = tcols(p, i, q, qi, lower, n);
    let l = s.c.len() as int;
    tl_all(p, i, n, q, qi, lower);
    start_le(s.c, l, n);
    assert forall|a: int, b: int| 0 <= a <= b <= n implies #[trigger] tp[a] <= #[trigger] tp[b] by { start_mono(s.c, l, a, b); }
    assert forall|k: int| 0 <= k < l implies 0 <= #[trigger] slot(s.c, l, k) < l by { assert(0 <= s.c[k] < n); slot_in(s.c, l, k, n); }
    assert forall|f: int| 0 <= f < tp[n] implies 0 <= #[trigger] ti[f] < n by { let k = slot_onto(s.c, l, f, n); assert(full_at(s, ti, k)); assert(0 <= s.r[k] < n); }
    assert forall|v: int, f: int| 0 <= v < n && #[trigger] in_col(tp, v, f) implies full_from(s, ti, v, f) by {
        assert(tp[v] == start(s.c, l, v)); assert(tp[v + 1] == start(s.c, l, v + 1));
        let k = occ(s.c, l, v, f - start(s.c, l, v));
        assert(slot(s.c, l, k) == f); assert(full_at(s, ti, k));
    }
    assert forall|c: int, r: int| 0 <= c < n && 0 <= r < n && #[trigger] has(tp, ti, c, r) implies
        side_of(r, c, !lower) && (hash(p, i, lower, q[c] as int, q[r] as int) || hash(p, i, lower, q[r] as int, q[c] as int)) by {
        let f = choose|f: int| has_at(tp, ti, c, r, f);
        assert(full_from(s, ti, c, f));
        let k = choose|k: int| 0 <= k < l && s.c[k] == c && #[trigger] slot(s.c, l, k) == f && ti[f] == s.r[k];
        assert(from_ok(p, i, n, q, qi, lower, s, k, n));
        let e = s.e[k]; let b = src(p, n, e); let a = i[e] as int;
        assert(0 <= a < n);
        assert(has_at(p, i, b, a, e));
        assert(q[qi[a] as int] == a && q[qi[b] as int] == b);
    }
    assert forall|c: int, r: int| 0 <= c < n && 0 <= r < n && side_of(r, c, !lower) && (hash(p, i, lower, q[c] as int, q[r] as int) || hash(p, i, lower, q[r] as int, q[c] as int)) implies #[trigger] has(tp, ti, c, r) by {
        assert(qi[q[c] as int] == c && qi[q[r] as int] == r);
        assert(0 <= q[c] < n && 0 <= q[r] < n);
        if hash(p, i, lower, q[c] as int, q[r] as int) { tl_back(p, i, n, q, qi, lower, tp, ti, q[c] as int, q[r] as int); }
        else { tl_back(p, i, n, q, qi, lower, tp, ti, q[r] as int, q[c] as int); }
    }
}
pub open spec fn idq(n: int) -> Seq<i32> { Seq::new(n as nat, |k: int| k as i32) }
pub open spec fn perm_or_id(q: Seq<i32>, n: int) -> Seq<i32> { if q.len() > 0 { q } else { idq(n) } }
pub proof fn idq_ok(n: int)
    requires 0 <= n <= i32::MAX,
    ensures is_perm(idq(n), n), inverses(idq(n), idq(n), n), forall|k: int| 0 <= k < n ==> #[trigger] idq(n)[k] == k,
{
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] idq(n)[a] != #[trigger] idq(n)[b] by { assert(idq(n)[a] == a as i32 && idq(n)[b] == b as i32); }
}
pub open spec fn symt_of(p: Seq<i32>, i: Seq<i32>, n: int, q: Seq<i32>, qi: Seq<i32>, lower: bool, x: Seq<F64>, vals: bool, tp: Seq<i32>, ti: Seq<i32>, tx: Seq<F64>) -> bool {
    is_symt(p, i, n, q, qi, lower, tp, ti)
    && (vals ==> full_vals(tcols(p, i, q, qi, lower, n), x, tx, tcols(p, i, q, qi, lower, n).c.len() as int))
}
