//@uses half transp
// ---------------------------------------------------------------- completing a half: the stored entries, each followed by its mirror image unless it is on the diagonal
pub ghost struct Xp { pub c: Seq<i32>, pub r: Seq<i32>, pub e: Seq<int> }
pub open spec fn xpand(p: Seq<i32>, i: Seq<i32>, n: int, e: int) -> Xp
    decreases e
{
    if e <= 0 { Xp { c: Seq::empty(), r: Seq::empty(), e: Seq::empty() } }
    else {
        let s = xpand(p, i, n, e - 1);
        let c = src(p, n, e - 1) as i32;
        let r = i[e - 1];
        if r == c { Xp { c: s.c.push(c), r: s.r.push(r), e: s.e.push(e - 1) } }
        else { Xp { c: s.c.push(c).push(r), r: s.r.push(r).push(c), e: s.e.push(e - 1).push(e - 1) } }
    }
}
pub open spec fn xlen(p: Seq<i32>, i: Seq<i32>, n: int, e: int) -> int { xpand(p, i, n, e).c.len() as int }
pub proof fn xp_len(p: Seq<i32>, i: Seq<i32>, n: int, e: int)
    requires e >= 0,
    ensures e <= xlen(p, i, n, e) <= 2 * e, xpand(p, i, n, e).r.len() == xlen(p, i, n, e), xpand(p, i, n, e).e.len() == xlen(p, i, n, e),
    decreases e
{ if e > 0 { xp_len(p, i, n, e - 1); } }
// a shorter list is a prefix of a longer one
pub proof fn xp_pre(p: Seq<i32>, i: Seq<i32>, n: int, e: int, f: int)
    requires 0 <= e <= f,
    ensures xlen(p, i, n, e) <= xlen(p, i, n, f), xlen(p, i, n, f) - xlen(p, i, n, e) >= f - e,
        forall|k: int| 0 <= k < xlen(p, i, n, e) ==> #[trigger] xpand(p, i, n, f).c[k] == xpand(p, i, n, e).c[k],
        forall|k: int| 0 <= k < xlen(p, i, n, e) ==> #[trigger] xpand(p, i, n, f).r[k] == xpand(p, i, n, e).r[k],
        forall|k: int| 0 <= k < xlen(p, i, n, e) ==> #[trigger] xpand(p, i, n, f).e[k] == xpand(p, i, n, e).e[k],
    decreases f
{ if e < f { xp_pre(p, i, n, e, f - 1); xp_len(p, i, n, f - 1); xp_len(p, i, n, e); } }
pub proof fn xp_rng(p: Seq<i32>, i: Seq<i32>, n: int, e: int)
    requires gwf(p, i, n), 0 <= e <= p[n], n < i32::MAX,
    ensures forall|k: int| 0 <= k < xlen(p, i, n, e) ==> 0 <= #[trigger] xpand(p, i, n, e).c[k] < n,
        forall|k: int| 0 <= k < xlen(p, i, n, e) ==> 0 <= #[trigger] xpand(p, i, n, e).r[k] < n,
        forall|k: int| 0 <= k < xlen(p, i, n, e) ==> 0 <= #[trigger] xpand(p, i, n, e).e[k] < e,
    decreases e
{ if e > 0 { xp_rng(p, i, n, e - 1); xp_len(p, i, n, e - 1); src_ex(p, n, e - 1); } }
// the entry of column c at e, seen from the complete list
pub proof fn xp_at(p: Seq<i32>, i: Seq<i32>, n: int, c: int, e: int)
    requires gwf(p, i, n), 0 <= c < n, n < i32::MAX, in_col(p, c, e),
    ensures 0 <= e < p[n], 0 <= i[e] < n,
        ({ let s = xpand(p, i, n, p[n] as int); let l = xlen(p, i, n, e); let ll = xlen(p, i, n, p[n] as int);
           0 <= l < ll && s.c[l] == c && s.r[l] == i[e] && s.e[l] == e && s.r.len() == ll && s.e.len() == ll
           && xlen(p, i, n, e + 1) == l + (if i[e] == c { 1int } else { 2int }) && xlen(p, i, n, e + 1) <= ll
           && (i[e] != c ==> l + 1 < ll && s.c[l + 1] == i[e] && s.r[l + 1] == c && s.e[l + 1] == e) }),
{
    src_is(p, n, c, e);
    xp_pre(p, i, n, e + 1, p[n] as int); xp_pre(p, i, n, e, e + 1); xp_len(p, i, n, e); xp_len(p, i, n, p[n] as int);
    let s1 = xpand(p, i, n, e + 1); let l = xlen(p, i, n, e);
    assert(s1.c[l] == c && s1.r[l] == i[e] && s1.e[l] == e);
    if i[e] != c { assert(s1.c[l + 1] == i[e] && s1.r[l + 1] == c && s1.e[l + 1] == e); }
}
pub open spec fn full_at(s: Xp, ti: Seq<i32>, k: int) -> bool { ti[slot(s.c, s.c.len() as int, k)] == s.r[k] }
pub open spec fn full_xat(s: Xp, x: Seq<F64>, tx: Seq<F64>, k: int) -> bool { tx[slot(s.c, s.c.len() as int, k)] == x[s.e[k]] }
pub open spec fn full_from(s: Xp, ti: Seq<i32>, v: int, q: int) -> bool {
    exists|k: int| 0 <= k < s.c.len() && s.c[k] == v && #[trigger] slot(s.c, s.c.len() as int, k) == q && ti[q] == s.r[k]
}
// column v of the result holds, in order, the rows listed for v and nothing else
pub open spec fn is_full(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    let s = xpand(p, i, n, p[n] as int);
    gwf(tp, ti, n) && tp[n] == s.c.len()
    && (forall|v: int| 0 <= v <= n ==> #[trigger] tp[v] == start(s.c, s.c.len() as int, v))
    && (forall|k: int| 0 <= k < s.c.len() ==> 0 <= #[trigger] slot(s.c, s.c.len() as int, k) < s.c.len())
    && (forall|k: int| 0 <= k < s.c.len() ==> #[trigger] full_at(s, ti, k))
    && (forall|v: int, q: int| 0 <= v < n && #[trigger] in_col(tp, v, q) ==> full_from(s, ti, v, q))
}
pub open spec fn full_vals(s: Xp, x: Seq<F64>, tx: Seq<F64>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] full_xat(s, x, tx, j) }
pub proof fn full_finish(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>)
    requires gwf(p, i, n), n < i32::MAX, tp.len() > n, ti.len() >= xlen(p, i, n, p[n] as int),
        forall|v: int| 0 <= v <= n ==> #[trigger] tp[v] == start(xpand(p, i, n, p[n] as int).c, xlen(p, i, n, p[n] as int), v),
        forall|k: int| 0 <= k < xlen(p, i, n, p[n] as int) ==> #[trigger] full_at(xpand(p, i, n, p[n] as int), ti, k),
    ensures is_full(p, i, n, tp, ti),
{
    let s = xpand(p, i, n, p[n] as int);
    let l = s.c.len() as int;
    assert(p[0] <= p[n]);
    xp_rng(p, i, n, p[n] as int);
    xp_len(p, i, n, p[n] as int);
    start_le(s.c, l, n);
    assert forall|a: int, b: int| 0 <= a <= b <= n implies #[trigger] tp[a] <= #[trigger] tp[b] by { start_mono(s.c, l, a, b); }
    assert forall|k: int| 0 <= k < l implies 0 <= #[trigger] slot(s.c, l, k) < l by { assert(0 <= s.c[k] < n); slot_in(s.c, l, k, n); }
    assert forall|q: int| 0 <= q < tp[n] implies 0 <= #[trigger] ti[q] < n by { let k = slot_onto(s.c, l, q, n); assert(full_at(s, ti, k)); assert(0 <= s.r[k] < n); }
    assert forall|v: int, q: int| 0 <= v < n && #[trigger] in_col(tp, v, q) implies full_from(s, ti, v, q) by {
        assert(tp[v] == start(s.c, l, v)); assert(tp[v + 1] == start(s.c, l, v + 1));
        let k = occ(s.c, l, v, q - start(s.c, l, v));
        assert(slot(s.c, l, k) == q); assert(full_at(s, ti, k));
    }
}
// one more listed entry: its slot is inside, and free
pub proof fn full_place(s: Xp, n: int, k: int)
    requires 0 <= k < s.c.len(), s.r.len() == s.c.len(), forall|j: int| 0 <= j < s.c.len() ==> 0 <= #[trigger] s.c[j] < n,
    ensures ({ let l = s.c.len() as int; 0 <= slot(s.c, l, k) < l && 0 <= cnt(s.c, k, s.c[k] as int) <= k && 0 <= start(s.c, l, s.c[k] as int) <= l
        && (forall|j: int| 0 <= j < k ==> #[trigger] slot(s.c, l, j) != slot(s.c, l, k) && 0 <= slot(s.c, l, j) < l)
        && (forall|v: int| cnt(s.c, k + 1, v) == cnt(s.c, k, v) + (if s.c[k] == v { 1int } else { 0int })) }),
{
    let l = s.c.len() as int;
    slot_in(s.c, l, k, n);
    cnt_bounds(s.c, k, s.c[k] as int);
    assert forall|j: int| 0 <= j < k implies #[trigger] slot(s.c, l, j) != slot(s.c, l, k) && 0 <= slot(s.c, l, j) < l by { assert(0 <= s.c[j] < n); slot_inj(s.c, l, j, k, n); slot_in(s.c, l, j, n); }
}
// every stored entry and its mirror image are there, and every entry of the result is one or the other
pub open spec fn has_at(tp: Seq<i32>, ti: Seq<i32>, c: int, r: int, q: int) -> bool { in_col(tp, c, q) && ti[q] == r }
pub open spec fn has(tp: Seq<i32>, ti: Seq<i32>, c: int, r: int) -> bool { exists|q: int| #[trigger] has_at(tp, ti, c, r, q) }
pub open spec fn sym_closure(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>) -> bool {
    forall|c: int, r: int| 0 <= c < n && 0 <= r < n ==> (#[trigger] has(tp, ti, c, r) <==> has(p, i, c, r) || has(p, i, r, c))
}
pub proof fn full_sym(p: Seq<i32>, i: Seq<i32>, n: int, tp: Seq<i32>, ti: Seq<i32>)
    requires gwf(p, i, n), n < i32::MAX, is_full(p, i, n, tp, ti),
    ensures sym_closure(p, i, n, tp, ti),
{
    let s = xpand(p, i, n, p[n] as int);
    let l = s.c.len() as int;
    assert forall|c: int, r: int| 0 <= c < n && 0 <= r < n && (has(p, i, c, r) || has(p, i, r, c)) implies #[trigger] has(tp, ti, c, r) by {
        if has(p, i, c, r) {
            let e = choose|e: int| has_at(p, i, c, r, e);
            xp_at(p, i, n, c, e);
            let k = xlen(p, i, n, e);
            full_hit(s, tp, ti, n, k); assert(full_at(s, ti, k)); assert(has_at(tp, ti, c, r, slot(s.c, l, k)));
        } else {
            let e = choose|e: int| has_at(p, i, r, c, e);
            xp_at(p, i, n, r, e);
            let k = xlen(p, i, n, e) + (if c == r { 0int } else { 1int });
            full_hit(s, tp, ti, n, k); assert(full_at(s, ti, k)); assert(has_at(tp, ti, c, r, slot(s.c, l, k)));
        }
    }
    assert forall|c: int, r: int| 0 <= c < n && 0 <= r < n && #[trigger] has(tp, ti, c, r) implies has(p, i, c, r) || has(p, i, r, c) by {
        let q = choose|q: int| has_at(tp, ti, c, r, q);
        assert(full_from(s, ti, c, q));
        let k = choose|k: int| 0 <= k < l && s.c[k] == c && #[trigger] slot(s.c, l, k) == q && ti[q] == s.r[k];
        xp_origin(p, i, n, p[n] as int, k);
    }
}
proof fn full_hit(s: Xp, tp: Seq<i32>, ti: Seq<i32>, n: int, k: int)
    requires 0 <= k < s.c.len(), 0 <= s.c[k] < n, forall|v: int| 0 <= v <= n ==> #[trigger] tp[v] == start(s.c, s.c.len() as int, v),
    ensures in_col(tp, s.c[k] as int, slot(s.c, s.c.len() as int, k)),
{ slot_in(s.c, s.c.len() as int, k, n); assert(tp[s.c[k] as int] == start(s.c, s.c.len() as int, s.c[k] as int)); assert(tp[s.c[k] + 1] == start(s.c, s.c.len() as int, s.c[k] + 1)); }
// where a listed pair comes from
pub proof fn xp_origin(p: Seq<i32>, i: Seq<i32>, n: int, e: int, k: int)
    requires gwf(p, i, n), n < i32::MAX, 0 <= e <= p[n], 0 <= k < xlen(p, i, n, e),
    ensures ({ let s = xpand(p, i, n, e); let f = s.e[k]; 0 <= f < e
        && ((k == xlen(p, i, n, f) && has_at(p, i, s.c[k] as int, s.r[k] as int, f)) || (s.c[k] != s.r[k] && k == xlen(p, i, n, f) + 1 && has_at(p, i, s.r[k] as int, s.c[k] as int, f))) }),
        has(p, i, xpand(p, i, n, e).c[k] as int, xpand(p, i, n, e).r[k] as int) || has(p, i, xpand(p, i, n, e).r[k] as int, xpand(p, i, n, e).c[k] as int),
    decreases e
{
    xp_len(p, i, n, e - 1);
    src_ex(p, n, e - 1);
    if k < xlen(p, i, n, e - 1) { xp_origin(p, i, n, e - 1, k); xp_pre(p, i, n, e - 1, e); }
    else { assert(has_at(p, i, src(p, n, e - 1), i[e - 1] as int, e - 1)); }
}
// ---------------------------------------------------------------- taking the same half of the completion gives the original back
proof fn hc_none(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, a: int, b: int)
    requires 0 <= a <= b, forall|q: int| a <= q < b ==> !#[trigger] in_half(p, i, n, lower, q),
    ensures hc(p, i, n, lower, a) == hc(p, i, n, lower, b),
    decreases b
{ if a < b { hc_none(p, i, n, lower, a, b - 1); assert(!in_half(p, i, n, lower, b - 1)); } }
pub open spec fn home(p: Seq<i32>, i: Seq<i32>, n: int, e: int) -> int { slot(xpand(p, i, n, p[n] as int).c, xlen(p, i, n, p[n] as int), xlen(p, i, n, e)) }
pub open spec fn all_half(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool) -> bool { forall|e: int| 0 <= e < p[n] ==> #[trigger] in_half(p, i, n, lower, e) }
// the slot of a stored entry in the completion
proof fn home_in(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>, e: int)
    requires gwf(p, i, n), n < i32::MAX, is_full(p, i, n, tp, ti), all_half(p, i, n, lower), 0 <= e < p[n],
    ensures in_col(tp, src(p, n, e), home(p, i, n, e)), 0 <= home(p, i, n, e) < tp[n], ti[home(p, i, n, e)] == i[e], in_half(tp, ti, n, lower, home(p, i, n, e)),
{
    src_ex(p, n, e);
    let c = src(p, n, e);
    xp_at(p, i, n, c, e);
    let s = xpand(p, i, n, p[n] as int);
    let k = xlen(p, i, n, e);
    full_hit(s, tp, ti, n, k);
    assert(full_at(s, ti, k));
    src_is(tp, n, c, home(p, i, n, e));
    assert(in_half(p, i, n, lower, e));
}
proof fn home_mono(p: Seq<i32>, i: Seq<i32>, n: int, e: int, f: int)
    requires gwf(p, i, n), n < i32::MAX, 0 <= e < f < p[n],
    ensures home(p, i, n, e) < home(p, i, n, f),
{
    src_ex(p, n, e); src_ex(p, n, f); src_mono(p, n, e, f);
    xp_at(p, i, n, src(p, n, e), e); xp_at(p, i, n, src(p, n, f), f);
    xp_pre(p, i, n, e, f);
    let s = xpand(p, i, n, p[n] as int); let l = xlen(p, i, n, p[n] as int);
    let a = xlen(p, i, n, e); let b = xlen(p, i, n, f);
    slot_in(s.c, l, a, n); slot_in(s.c, l, b, n);
    slot_inj(s.c, l, a, b, n);
    if src(p, n, e) < src(p, n, f) { start_mono(s.c, l, s.c[a] + 1, s.c[b] as int); }
}
// a kept position of the completion is the slot of a stored entry
proof fn home_onto(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>, q: int) -> (e: int)
    requires gwf(p, i, n), n < i32::MAX, is_full(p, i, n, tp, ti), all_half(p, i, n, lower), 0 <= q < tp[n], in_half(tp, ti, n, lower, q),
    ensures 0 <= e < p[n], home(p, i, n, e) == q,
{
    src_ex(tp, n, q);
    let v = src(tp, n, q);
    assert(full_from(xpand(p, i, n, p[n] as int), ti, v, q));
    let s = xpand(p, i, n, p[n] as int);
    let k = choose|k: int| 0 <= k < s.c.len() && s.c[k] == v && #[trigger] slot(s.c, s.c.len() as int, k) == q && ti[q] == s.r[k];
    assert(p[0] <= p[n]);
    xp_origin(p, i, n, p[n] as int, k);
    let f = s.e[k];
    assert(in_half(p, i, n, lower, f));
    if k != xlen(p, i, n, f) { src_is(p, n, s.r[k] as int, f); }
    f
}
// exactly e kept positions lie before the slot of entry e
proof fn home_count(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>, e: int)
    requires gwf(p, i, n), n < i32::MAX, is_full(p, i, n, tp, ti), all_half(p, i, n, lower), 0 <= e < p[n],
    ensures hc(tp, ti, n, lower, home(p, i, n, e)) == e,
    decreases e
{
    home_in(p, i, n, lower, tp, ti, e);
    let b = home(p, i, n, e);
    let a = if e == 0 { 0 } else { home(p, i, n, e - 1) + 1 };
    if e > 0 { home_count(p, i, n, lower, tp, ti, e - 1); home_in(p, i, n, lower, tp, ti, e - 1); home_mono(p, i, n, e - 1, e); }
    assert forall|q: int| a <= q < b implies !#[trigger] in_half(tp, ti, n, lower, q) by {
        if in_half(tp, ti, n, lower, q) {
            let f = home_onto(p, i, n, lower, tp, ti, q);
            if f < e { if f < e - 1 { home_mono(p, i, n, f, e - 1); } } else if f > e { home_mono(p, i, n, e, f); }
        }
    }
    hc_none(tp, ti, n, lower, a, b);
}
// exactly the entries of the earlier columns are kept before a column
proof fn col_count(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>, c: int)
    requires gwf(p, i, n), n < i32::MAX, is_full(p, i, n, tp, ti), all_half(p, i, n, lower), 0 <= c <= n,
    ensures hc(tp, ti, n, lower, tp[c] as int) == p[c],
{
    let e = p[c] as int;
    assert(p[0] <= p[c] <= p[n]); assert(tp[0] <= tp[c] <= tp[n]);
    let a = if e == 0 { 0 } else { home(p, i, n, e - 1) + 1 };
    if e > 0 {
        home_count(p, i, n, lower, tp, ti, e - 1); home_in(p, i, n, lower, tp, ti, e - 1);
        let d = src(p, n, e - 1); src_ex(p, n, e - 1);
        if d >= c { assert(p[c] <= p[d]); }
        assert(tp[d + 1] <= tp[c]);
    }
    assert forall|q: int| a <= q < tp[c] implies !#[trigger] in_half(tp, ti, n, lower, q) by {
        if in_half(tp, ti, n, lower, q) {
            let f = home_onto(p, i, n, lower, tp, ti, q);
            if f < e { if f < e - 1 { home_mono(p, i, n, f, e - 1); } }
            else { home_in(p, i, n, lower, tp, ti, f); src_ex(p, n, f); let d = src(p, n, f); if d < c { assert(p[d + 1] <= p[c]); } assert(tp[c] <= tp[d]); }
        }
    }
    hc_none(tp, ti, n, lower, a, tp[c] as int);
}
pub proof fn half_of_full(p: Seq<i32>, i: Seq<i32>, n: int, lower: bool, tp: Seq<i32>, ti: Seq<i32>, hp: Seq<i32>, hi: Seq<i32>)
    requires gwf(p, i, n), n < i32::MAX, all_half(p, i, n, lower), is_full(p, i, n, tp, ti), is_half(tp, ti, n, lower, hp, hi),
    ensures forall|c: int| 0 <= c <= n ==> #[trigger] hp[c] == p[c], forall|e: int| 0 <= e < p[n] ==> #[trigger] hi[e] == i[e],
{
    assert forall|c: int| 0 <= c <= n implies #[trigger] hp[c] == p[c] by { col_count(p, i, n, lower, tp, ti, c); }
    assert forall|e: int| 0 <= e < p[n] implies #[trigger] hi[e] == i[e] by {
        home_count(p, i, n, lower, tp, ti, e); home_in(p, i, n, lower, tp, ti, e);
        assert(half_at(tp, ti, n, lower, hi, home(p, i, n, e)));
    }
}
