//@uses graph
// ---- distinct values of a range in order of first occurrence
pub open spec fn fst(v: Seq<i32>, lo: int, q: int) -> Seq<i32>
    decreases q - lo
{ if q <= lo { Seq::<i32>::empty() } else { let r = fst(v, lo, q - 1); if r.contains(v[q - 1]) { r } else { r.push(v[q - 1]) } } }
pub open spec fn vals_in(v: Seq<i32>, lo: int, hi: int, n: int) -> bool { forall|q: int| lo <= q < hi ==> 0 <= #[trigger] v[q] < n }
pub open spec fn dist(s: Seq<i32>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] != #[trigger] s[b] }
pub proof fn dist_len(s: Seq<i32>, n: int)
    requires dist(s), 0 <= n, forall|a: int| 0 <= a < s.len() ==> 0 <= #[trigger] s[a] < n,
    ensures s.len() <= n,
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(0 <= s[0] < n); } }
    else if s.contains((n - 1) as i32) && n - 1 <= i32::MAX {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == (n - 1) as i32; let t = s.remove(k);
        assert forall|a: int| 0 <= a < t.len() implies 0 <= #[trigger] t[a] < n - 1 by { let b = if a < k { a } else { a + 1 }; assert(t[a] == s[b]); if b < k { assert(s[b] != s[k]); } else { assert(s[k] != s[b]); } }
        assert(dist(t)); dist_len(t, n - 1);
    } else {
        assert forall|a: int| 0 <= a < s.len() implies 0 <= #[trigger] s[a] < n - 1 by { if s[a] == n - 1 { assert(s.contains((n - 1) as i32)); } }
        dist_len(s, n - 1);
    }
}
pub proof fn fst_ok(v: Seq<i32>, lo: int, q: int, n: int)
    requires vals_in(v, lo, q, n), 0 <= n,
    ensures dist(fst(v, lo, q)), forall|a: int| 0 <= a < fst(v, lo, q).len() ==> 0 <= #[trigger] fst(v, lo, q)[a] < n, fst(v, lo, q).len() <= n, fst(v, lo, q).len() <= (if q > lo { q - lo } else { 0 }),
    decreases q - lo
{
    if q > lo {
        fst_ok(v, lo, q - 1, n); let r = fst(v, lo, q - 1); let s = fst(v, lo, q); assert(0 <= v[q - 1] < n);
        assert forall|a: int, b: int| 0 <= a < b < s.len() implies #[trigger] s[a] != #[trigger] s[b] by { if b < r.len() { assert(r[a] != r[b]); } else { assert(r.contains(r[a])); } }
        assert forall|a: int| 0 <= a < s.len() implies 0 <= #[trigger] s[a] < n by { if a < r.len() { assert(0 <= r[a] < n); } }
    }
    dist_len(fst(v, lo, q), n);
}
// exactly the values of the range
pub proof fn fst_all(v: Seq<i32>, lo: int, q: int, x: i32)
    ensures fst(v, lo, q).contains(x) <==> exists|e: int| lo <= e < q && #[trigger] v[e] == x,
    decreases q - lo
{
    if q > lo {
        fst_all(v, lo, q - 1, x); let r = fst(v, lo, q - 1); let s = fst(v, lo, q);
        if r.contains(x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x; assert(s[k] == x); }
        if v[q - 1] == x && !r.contains(x) { assert(s[r.len() as int] == x); }
        if s.contains(x) && !r.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; if k < r.len() { assert(r[k] == x); } assert(v[q - 1] == x); }
    }
}
pub proof fn fst_mono(v: Seq<i32>, lo: int, a: int, b: int)
    requires a <= b,
    ensures fst(v, lo, a).len() <= fst(v, lo, b).len(), forall|x: int| 0 <= x < fst(v, lo, a).len() ==> fst(v, lo, b)[x] == #[trigger] fst(v, lo, a)[x],
    decreases b - a
{ if a < b && b > lo { fst_mono(v, lo, a, b - 1); assert forall|x: int| 0 <= x < fst(v, lo, a).len() implies fst(v, lo, b)[x] == #[trigger] fst(v, lo, a)[x] by { assert(fst(v, lo, b - 1)[x] == fst(v, lo, a)[x]); } } }
// marks hold exactly the values seen so far
#[verifier::opaque]
pub open spec fn mk(v: Seq<i32>, lo: int, q: int, m: Seq<bool>, n: int) -> bool { m.len() == n && forall|r: int| 0 <= r < n ==> #[trigger] m[r] == fst(v, lo, q).contains(r as i32) }
pub open spec fn nomark(m: Seq<bool>, n: int) -> bool { m.len() == n && forall|r: int| 0 <= r < n ==> !#[trigger] m[r] }
#[verifier::opaque]
pub open spec fn head_is(t: Seq<i32>, f: Seq<i32>) -> bool { f.len() <= t.len() && forall|x: int| 0 <= x < f.len() ==> #[trigger] t[x] == f[x] }
pub proof fn mk_init(v: Seq<i32>, lo: int, m: Seq<bool>, n: int, t: Seq<i32>)
    requires nomark(m, n),
    ensures mk(v, lo, lo, m, n), head_is(t, fst(v, lo, lo)), fst(v, lo, lo).len() == 0,
{ reveal(mk); reveal(head_is); }
pub proof fn mk_step(v: Seq<i32>, lo: int, q: int, m: Seq<bool>, n: int, t: Seq<i32>)
    requires mk(v, lo, q, m, n), head_is(t, fst(v, lo, q)), lo <= q, vals_in(v, lo, q + 1, n), 0 <= n <= i32::MAX + 1,
    ensures 0 <= v[q] < n, m.len() == n, m[v[q] as int] ==> fst(v, lo, q + 1) == fst(v, lo, q) && mk(v, lo, q + 1, m, n) && head_is(t, fst(v, lo, q + 1)),
        !m[v[q] as int] ==> fst(v, lo, q + 1) == fst(v, lo, q).push(v[q]) && mk(v, lo, q + 1, m.update(v[q] as int, true), n) && fst(v, lo, q).len() < n && (fst(v, lo, q).len() < t.len() ==> head_is(t.update(fst(v, lo, q).len() as int, v[q]), fst(v, lo, q + 1))),
        fst(v, lo, q).len() <= n,
{
    reveal(mk); reveal(head_is); let f = fst(v, lo, q); assert(0 <= v[q] < n); assert(v[q] as int as i32 == v[q]); fst_ok(v, lo, q + 1, n); fst_ok(v, lo, q, n);
    if !m[v[q] as int] {
        let m2 = m.update(v[q] as int, true); let g = f.push(v[q]);
        assert forall|r: int| 0 <= r < n implies #[trigger] m2[r] == g.contains(r as i32) by {
            if r == v[q] { assert(g[f.len() as int] == v[q]); } else { assert(m[r] == f.contains(r as i32)); if f.contains(r as i32) { let k = choose|k: int| 0 <= k < f.len() && f[k] == r as i32; assert(g[k] == r as i32); } if g.contains(r as i32) { let k = choose|k: int| 0 <= k < g.len() && g[k] == r as i32; assert(k < f.len()); assert(f[k] == r as i32); } }
        }
    }
}
// clearing the marks of the list
#[verifier::opaque]
pub open spec fn mrest(m: Seq<bool>, n: int, f: Seq<i32>, x: int) -> bool { m.len() == n && forall|r: int| 0 <= r < n && #[trigger] m[r] ==> exists|y: int| x <= y < f.len() && #[trigger] f[y] == r }
pub proof fn mr_init(v: Seq<i32>, lo: int, q: int, m: Seq<bool>, n: int)
    requires mk(v, lo, q, m, n), 0 <= n <= i32::MAX + 1,
    ensures mrest(m, n, fst(v, lo, q), 0),
{
    reveal(mk); reveal(mrest); let f = fst(v, lo, q);
    assert forall|r: int| 0 <= r < n && #[trigger] m[r] implies exists|y: int| 0 <= y < f.len() && #[trigger] f[y] == r by { assert(f.contains(r as i32)); let y = choose|y: int| 0 <= y < f.len() && f[y] == r as i32; assert(f[y] == r); }
}
pub proof fn mr_step(m: Seq<bool>, n: int, f: Seq<i32>, t: Seq<i32>, x: int)
    requires mrest(m, n, f, x), 0 <= x < f.len(), head_is(t, f), 0 <= f[x] < n,
    ensures t[x] == f[x], m.len() == n, mrest(m.update(t[x] as int, false), n, f, x + 1), x < t.len(),
{ reveal(mrest); reveal(head_is); }
pub proof fn mr_done(m: Seq<bool>, n: int, f: Seq<i32>)
    requires mrest(m, n, f, f.len() as int),
    ensures nomark(m, n),
{ reveal(mrest); }
// ---- blocks of columns
#[verifier::opaque]
pub open spec fn sn_ok(sn: Seq<i32>, m: int, n: int) -> bool { 0 <= m <= n < i32::MAX && sn.len() > m && sn[0] == 0 && sn[m] == n && forall|a: int, b: int| 0 <= a < b <= m ==> #[trigger] sn[a] < #[trigger] sn[b] }
pub ghost struct Bl { pub p: Seq<i32>, pub i: Seq<i32>, pub n: int, pub sn: Seq<i32>, pub m: int }
#[verifier::opaque]
pub open spec fn bl_ok(d: Bl) -> bool { gwf(d.p, d.i, d.n) && sn_ok(d.sn, d.m, d.n) }
pub open spec fn bw(d: Bl, k: int) -> int { d.sn[k + 1] - d.sn[k] }
// the rows of block k
pub open spec fn brow(d: Bl, k: int) -> Seq<i32> { fst(d.i, d.p[d.sn[k] as int] as int, d.p[d.sn[k + 1] as int] as int) }
pub open spec fn bnr(d: Bl, k: int) -> int { brow(d, k).len() as int }
// room taken by the blocks before k
pub open spec fn bat(d: Bl, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { bat(d, k - 1) + bw(d, k - 1) * bnr(d, k - 1) } }
pub proof fn sn_at(sn: Seq<i32>, m: int, n: int, k: int)
    requires sn_ok(sn, m, n), 0 <= k < m,
    ensures 0 <= sn[k] < sn[k + 1] <= n, k + 1 < sn.len(), m < sn.len(), k <= sn[k], n < i32::MAX, m <= n,
    decreases k
{ reveal(sn_ok); assert(sn[k] < sn[k + 1]); if k + 1 < m { assert(sn[k + 1] < sn[m]); } if k > 0 { sn_at(sn, m, n, k - 1); assert(sn[k - 1] < sn[k]); } }
pub proof fn bl_at(d: Bl, k: int)
    requires bl_ok(d), 0 <= k < d.m,
    ensures 0 <= d.sn[k] < d.sn[k + 1] <= d.n, k + 1 < d.sn.len(), d.m <= d.n < i32::MAX, d.n < d.p.len(), 0 <= d.p[d.sn[k] as int] <= d.p[d.sn[k + 1] as int] <= d.p[d.n], d.p[d.n] <= d.i.len(), vals_in(d.i, d.p[d.sn[k] as int] as int, d.p[d.sn[k + 1] as int] as int, d.n), bw(d, k) > 0, 0 <= bnr(d, k) <= d.n,
{
    reveal(bl_ok); sn_at(d.sn, d.m, d.n, k); assert(d.p[0] <= d.p[d.sn[k] as int]); assert(d.p[d.sn[k] as int] <= d.p[d.sn[k + 1] as int]); assert(d.p[d.sn[k + 1] as int] <= d.p[d.n]);
    fst_ok(d.i, d.p[d.sn[k] as int] as int, d.p[d.sn[k + 1] as int] as int, d.n);
}
pub proof fn bl_col(d: Bl, k: int, c: int)
    requires bl_ok(d), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1],
    ensures 0 <= c < d.n, d.n < d.p.len(), 0 <= d.p[d.sn[k] as int] <= d.p[c] <= d.p[c + 1] <= d.p[d.sn[k + 1] as int] <= d.p[d.n] <= d.i.len(),
{ bl_at(d, k); reveal(bl_ok); assert(d.p[d.sn[k] as int] <= d.p[c]); assert(d.p[c] <= d.p[c + 1]); assert(d.p[c + 1] <= d.p[d.sn[k + 1] as int]); }
pub proof fn bl_ends(d: Bl)
    requires bl_ok(d),
    ensures 0 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.sn[0] == 0, d.sn[d.m] == d.n, d.n < d.p.len(), 0 <= d.p[d.n] <= d.i.len(), d.p[0] == 0,
{ reveal(bl_ok); reveal(sn_ok); assert(d.p[0] <= d.p[d.n]); }
pub proof fn bat_mono(d: Bl, a: int, b: int)
    requires bl_ok(d), 0 <= a <= b <= d.m,
    ensures 0 <= bat(d, a) <= bat(d, b),
    decreases b
{ if a < b { bat_mono(d, a, b - 1); bl_at(d, b - 1); assert(bw(d, b - 1) * bnr(d, b - 1) >= 0) by (nonlinear_arith) requires bw(d, b - 1) > 0, bnr(d, b - 1) >= 0; } else if b > 0 { bat_mono(d, b - 1, b - 1); bl_at(d, b - 1); assert(bw(d, b - 1) * bnr(d, b - 1) >= 0) by (nonlinear_arith) requires bw(d, b - 1) > 0, bnr(d, b - 1) >= 0; } }
// size counted so far inside block k: c rows seen
pub proof fn bat_part(d: Bl, k: int, q: int)
    requires bl_ok(d), 0 <= k < d.m, d.p[d.sn[k] as int] <= q <= d.p[d.sn[k + 1] as int], bat(d, d.m) <= i32::MAX,
    ensures ({ let c = fst(d.i, d.p[d.sn[k] as int] as int, q).len(); 0 <= bat(d, k) && 0 <= bw(d, k) * c && bat(d, k) + bw(d, k) * c <= i32::MAX && bat(d, k) + bw(d, k) * c <= bat(d, k + 1) && bw(d, k) * (c + 1) == bw(d, k) * c + bw(d, k) && c <= bnr(d, k) }),
{
    let c = fst(d.i, d.p[d.sn[k] as int] as int, q).len() as int; let w = bw(d, k); let nr = bnr(d, k); bl_at(d, k); fst_mono(d.i, d.p[d.sn[k] as int] as int, q, d.p[d.sn[k + 1] as int] as int); bat_mono(d, 0, k); bat_mono(d, k + 1, d.m);
    assert(0 <= w * c <= w * nr && w * (c + 1) == w * c + w) by (nonlinear_arith) requires w > 0, 0 <= c <= nr;
}
#[verifier::opaque]
pub open spec fn at_upto(d: Bl, f: Seq<i32>, k: int) -> bool { f.len() == d.n + 1 && forall|a: int| 0 <= a < k ==> #[trigger] f[a] == bat(d, a) }
pub proof fn at_init(d: Bl, f: Seq<i32>)
    requires f.len() == d.n + 1,
    ensures at_upto(d, f, 0),
{ reveal(at_upto); }
pub proof fn at_step(d: Bl, f: Seq<i32>, k: int, x: i32)
    requires at_upto(d, f, k), x == bat(d, k), 0 <= k <= d.n,
    ensures at_upto(d, f.update(k, x), k + 1), f.len() == d.n + 1,
{ reveal(at_upto); }
pub open spec fn at_all(d: Bl, f: Seq<i32>) -> bool { f.len() == d.n + 1 && forall|a: int| 0 <= a <= d.m ==> #[trigger] f[a] == bat(d, a) }
pub proof fn at_done(d: Bl, f: Seq<i32>)
    requires at_upto(d, f, d.m + 1),
    ensures at_all(d, f),
{ reveal(at_upto); }
// ---- the graph over blocks
pub open spec fn blk_is(sn: Seq<i32>, m: int, c: int, k: int) -> bool { 0 <= k < m && sn[k] <= c < sn[k + 1] }
pub open spec fn blk_of(sn: Seq<i32>, m: int, c: int) -> int { choose|k: int| #[trigger] blk_is(sn, m, c, k) }
pub proof fn blk_uniq(sn: Seq<i32>, m: int, n: int, k: int, c: int)
    requires sn_ok(sn, m, n), 0 <= k < m, sn[k] <= c < sn[k + 1],
    ensures blk_of(sn, m, c) == k,
{ reveal(sn_ok); assert(blk_is(sn, m, c, k)); let t = blk_of(sn, m, c); assert(blk_is(sn, m, c, t)); if t < k { if t + 1 < k { assert(sn[t + 1] < sn[k]); } } if k < t { if k + 1 < t { assert(sn[k + 1] < sn[t]); } } }
pub proof fn blk_ex(sn: Seq<i32>, m: int, n: int, c: int, k: int)
    requires sn_ok(sn, m, n), 0 <= k <= m, 0 <= c < sn[k],
    ensures blk_is(sn, m, c, blk_of(sn, m, c)),
    decreases k
{ reveal(sn_ok); if k > 0 { if c < sn[k - 1] { blk_ex(sn, m, n, c, k - 1); } else { assert(blk_is(sn, m, c, k - 1)); } } }
// blocks stored one after the other: the first lr[k] of the rows stored from bp[k] on are the rows of block k
pub ghost struct Bg { pub sn: Seq<i32>, pub m: int, pub n: int, pub bp: Seq<i32>, pub lr: Seq<i32>, pub bi: Seq<i32> }
#[verifier::opaque]
pub open spec fn bg_ok(d: Bg) -> bool {
    sn_ok(d.sn, d.m, d.n) && d.m >= 1 && d.bp.len() >= d.m && d.lr.len() >= d.m && (forall|k: int| 0 <= k < d.m ==> 0 <= #[trigger] d.bp[k] && 0 <= d.lr[k] && d.bp[k] + d.lr[k] <= d.bi.len() && d.bp[k] + d.lr[k] <= i32::MAX)
    && (forall|k: int, q: int| 0 <= k < d.m && d.bp[k] <= q < #[trigger] bend(d, k) ==> 0 <= #[trigger] d.bi[q] < d.n) && csize(d, d.m) <= i32::MAX
}
pub open spec fn bend(d: Bg, k: int) -> int { d.bp[k] + d.lr[k] }
// blocks named by the stored rows
pub open spec fn bval(d: Bg) -> Seq<i32> { Seq::new(d.bi.len(), |q: int| blk_of(d.sn, d.m, d.bi[q] as int) as i32) }
pub open spec fn cadj(d: Bg, k: int) -> Seq<i32> { fst(bval(d), d.bp[k] as int, bend(d, k)) }
pub open spec fn csize(d: Bg, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { csize(d, k - 1) + cadj(d, k - 1).len() } }
pub proof fn bg_ends(d: Bg)
    requires bg_ok(d),
    ensures 1 <= d.m <= d.n < i32::MAX, d.m < d.sn.len(), d.sn[0] == 0, d.sn[d.m] == d.n, d.bp.len() >= d.m, d.lr.len() >= d.m, csize(d, d.m) <= i32::MAX, sn_ok(d.sn, d.m, d.n),
{ reveal(bg_ok); reveal(sn_ok); }
#[verifier::opaque]
pub open spec fn sups(d: Bg, s: Seq<i32>, c: int) -> bool { s.len() == d.n && forall|v: int| 0 <= v < c ==> #[trigger] s[v] == blk_of(d.sn, d.m, v) }
pub proof fn sups_init(d: Bg, s: Seq<i32>)
    requires s.len() == d.n,
    ensures sups(d, s, 0),
{ reveal(sups); }
pub proof fn sups_step(d: Bg, s: Seq<i32>, c: int, k: i32)
    requires bg_ok(d), sups(d, s, c), 0 <= k < d.m, d.sn[k as int] <= c < d.sn[k + 1], 0 <= c,
    ensures c < d.n, s.len() == d.n, sups(d, s.update(c, k), c + 1),
{ reveal(sups); reveal(bg_ok); sn_at(d.sn, d.m, d.n, k as int); blk_uniq(d.sn, d.m, d.n, k as int, c); }
pub proof fn bg_at(d: Bg, k: int)
    requires bg_ok(d), 0 <= k < d.m,
    ensures 0 <= d.bp[k] <= bend(d, k) <= d.bi.len(), bend(d, k) <= i32::MAX, 0 <= d.lr[k], vals_in(bval(d), d.bp[k] as int, bend(d, k), d.m), 0 <= csize(d, k) <= csize(d, k) + cadj(d, k).len() == csize(d, k + 1) <= csize(d, d.m) <= i32::MAX, cadj(d, k).len() <= d.m,
{
    reveal(bg_ok); assert(0 <= d.bp[k]);
    assert forall|q: int| d.bp[k] <= q < bend(d, k) implies 0 <= #[trigger] bval(d)[q] < d.m by { assert(0 <= d.bi[q] < d.n); sn_ends(d.sn, d.m, d.n); blk_ex(d.sn, d.m, d.n, d.bi[q] as int, d.m); }
    fst_ok(bval(d), d.bp[k] as int, bend(d, k), d.m); cs_mono(d, 0, k); cs_mono(d, k + 1, d.m);
}
pub proof fn sn_ends(sn: Seq<i32>, m: int, n: int)
    requires sn_ok(sn, m, n),
    ensures 0 <= m <= n < i32::MAX, m < sn.len(), sn[0] == 0, sn[m] == n,
{ reveal(sn_ok); }
pub proof fn cs_mono(d: Bg, a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= csize(d, a) <= csize(d, b),
    decreases b
{ if a < b { cs_mono(d, a, b - 1); } else if b > 0 { cs_mono(d, b - 1, b - 1); } }
pub proof fn sups_val(d: Bg, s: Seq<i32>, k: int, q: int)
    requires bg_ok(d), sups(d, s, d.n), 0 <= k < d.m, d.bp[k] <= q < bend(d, k),
    ensures 0 <= q < d.bi.len(), 0 <= d.bi[q] < d.n, s.len() == d.n, s[d.bi[q] as int] == bval(d)[q], 0 <= bval(d)[q] < d.m,
{ bg_at(d, k); reveal(bg_ok); reveal(sups); assert(0 <= d.bi[q] < d.n); assert(bval(d)[q] == blk_of(d.sn, d.m, d.bi[q] as int) as i32); sn_ends(d.sn, d.m, d.n); blk_ex(d.sn, d.m, d.n, d.bi[q] as int, d.m); }
#[verifier::opaque]
pub open spec fn outs(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, c: int) -> bool {
    cp.len() == d.m + 1 && ci.len() == csize(d, d.m) && (forall|a: int| 0 <= a <= k ==> #[trigger] cp[a] == csize(d, a)) && (forall|a: int, x: int| 0 <= a < k && 0 <= x < cadj(d, a).len() ==> ci[csize(d, a) + x] == #[trigger] cadj(d, a)[x]) && (forall|x: int| 0 <= x < c ==> ci[csize(d, k) + x] == #[trigger] cadj(d, k)[x])
}
pub proof fn out_init(d: Bg, cp: Seq<i32>, ci: Seq<i32>)
    requires cp.len() == d.m + 1, cp[0] == 0, ci.len() == csize(d, d.m),
    ensures outs(d, cp, ci, 0, 0),
{ reveal(outs); }
// the next pointer is being counted up, the rest stays
pub proof fn out_ptr(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, c: int, x: i32)
    requires outs(d, cp, ci, k, c), 0 <= k < d.m,
    ensures outs(d, cp.update(k + 1, x), ci, k, c), cp.len() == d.m + 1, cp[k] == csize(d, k),
{ reveal(outs); }
pub proof fn out_step(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, q: int, r: i32)
    requires bg_ok(d), outs(d, cp, ci, k, fst(bval(d), d.bp[k] as int, q).len() as int), 0 <= k < d.m, d.bp[k] <= q < bend(d, k), fst(bval(d), d.bp[k] as int, q + 1) == fst(bval(d), d.bp[k] as int, q).push(r),
    ensures ({ let c = fst(bval(d), d.bp[k] as int, q).len() as int; c < cadj(d, k).len() && 0 <= csize(d, k) + c < ci.len() && ci.len() == csize(d, d.m) && outs(d, cp, ci.update(csize(d, k) + c, r), k, c + 1) }),
{
    reveal(outs); let lo = d.bp[k] as int; let f = fst(bval(d), lo, q); let c = f.len() as int; fst_mono(bval(d), lo, q + 1, bend(d, k)); bg_at(d, k); let c2 = ci.update(csize(d, k) + c, r);
    assert(fst(bval(d), lo, q + 1)[c] == r); assert(cadj(d, k)[c] == r);
    assert forall|a: int, x: int| 0 <= a < k && 0 <= x < cadj(d, a).len() implies c2[csize(d, a) + x] == #[trigger] cadj(d, a)[x] by { cs_mono(d, a + 1, k); bg_at(d, a); assert(ci[csize(d, a) + x] == cadj(d, a)[x]); }
}
pub proof fn out_next(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int)
    requires bg_ok(d), outs(d, cp, ci, k, cadj(d, k).len() as int), 0 <= k < d.m, cp[k + 1] == csize(d, k + 1),
    ensures outs(d, cp, ci, k + 1, 0),
{ reveal(outs); bg_at(d, k); }
// column k of the result lists every block that has a row in block k, once
pub open spec fn blk_edge(d: Bg, k: int, b: int) -> bool { exists|q: int| d.bp[k] <= q < bend(d, k) && blk_is(d.sn, d.m, #[trigger] d.bi[q] as int, b) }
pub open spec fn lists(ci: Seq<i32>, lo: int, hi: int, b: int) -> bool { exists|x: int| lo <= x < hi && #[trigger] ci[x] == b }
pub open spec fn bgraph_is(d: Bg, c: CSC) -> bool {
    c.m == d.m && c.n == d.m && c.p@.len() == d.m + 1 && c.p@[0] == 0 && c.nnz == c.p@[d.m] && c.i@.len() == c.nnz
    && (forall|k: int| 0 <= k < d.m ==> 0 <= #[trigger] c.p@[k] <= c.p@[k + 1] <= c.nnz)
    && (forall|k: int, b: int| 0 <= k < d.m ==> (#[trigger] lists(c.i@, c.p@[k] as int, c.p@[k + 1] as int, b) <==> blk_edge(d, k, b)))
    && (forall|k: int, x: int, y: int| 0 <= k < d.m && #[trigger] in_col(c.p@, k, x) && #[trigger] in_col(c.p@, k, y) && x != y ==> c.i@[x] != c.i@[y])
}
pub proof fn out_at(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int)
    requires bg_ok(d), outs(d, cp, ci, d.m, 0), 0 <= k < d.m,
    ensures 0 <= cp[k] <= cp[k + 1] <= csize(d, d.m), cp[k] == csize(d, k), cp[k + 1] == csize(d, k + 1), ci.len() == csize(d, d.m), cp.len() == d.m + 1, ci.subrange(cp[k] as int, cp[k + 1] as int) == cadj(d, k),
{
    reveal(outs); bg_at(d, k); assert(cp[k] == csize(d, k)); assert(cp[k + 1] == csize(d, k + 1));
    let s = ci.subrange(cp[k] as int, cp[k + 1] as int);
    assert forall|x: int| 0 <= x < cadj(d, k).len() implies s[x] == cadj(d, k)[x] by { assert(ci[csize(d, k) + x] == cadj(d, k)[x]); }
    assert(s =~= cadj(d, k));
}
pub proof fn out_fwd(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, b: int)
    requires bg_ok(d), outs(d, cp, ci, d.m, 0), 0 <= k < d.m, lists(ci, cp[k] as int, cp[k + 1] as int, b),
    ensures blk_edge(d, k, b),
{
    out_at(d, cp, ci, k); let f = cadj(d, k); let s = ci.subrange(cp[k] as int, cp[k + 1] as int); let lo = d.bp[k] as int;
    let x = choose|x: int| cp[k] <= x < cp[k + 1] && #[trigger] ci[x] == b; assert(s[x - cp[k]] == ci[x]); assert(f.contains(ci[x])); fst_all(bval(d), lo, bend(d, k), ci[x]); let e = choose|e: int| lo <= e < bend(d, k) && #[trigger] bval(d)[e] == ci[x]; row_blk(d, k, e); assert(blk_is(d.sn, d.m, d.bi[e] as int, b));
}
pub proof fn out_bwd(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, b: int)
    requires bg_ok(d), outs(d, cp, ci, d.m, 0), 0 <= k < d.m, blk_edge(d, k, b),
    ensures lists(ci, cp[k] as int, cp[k + 1] as int, b),
{
    out_at(d, cp, ci, k); let f = cadj(d, k); let s = ci.subrange(cp[k] as int, cp[k + 1] as int); let lo = d.bp[k] as int;
    let q = choose|q: int| d.bp[k] <= q < bend(d, k) && blk_is(d.sn, d.m, #[trigger] d.bi[q] as int, b); row_blk(d, k, q); blk_uniq(d.sn, d.m, d.n, b, d.bi[q] as int); let v = bval(d)[q]; assert(v == b); fst_all(bval(d), lo, bend(d, k), v); assert(f.contains(v)); let y = choose|y: int| 0 <= y < f.len() && f[y] == v; assert(s[y] == v); assert(ci[cp[k] + y] == b);
}
pub proof fn out_dst(d: Bg, cp: Seq<i32>, ci: Seq<i32>, k: int, x: int, y: int)
    requires bg_ok(d), outs(d, cp, ci, d.m, 0), 0 <= k < d.m, in_col(cp, k, x), in_col(cp, k, y), x < y,
    ensures ci[x] != ci[y],
{
    out_at(d, cp, ci, k); bg_at(d, k); fst_ok(bval(d), d.bp[k] as int, bend(d, k), d.m); let s = ci.subrange(cp[k] as int, cp[k + 1] as int); let a = x - cp[k]; let b = y - cp[k]; assert(s[a] == ci[x] && s[b] == ci[y]); assert(s[a] != s[b]);
}
pub proof fn out_done(d: Bg, c: CSC)
    requires bg_ok(d), outs(d, c.p@, c.i@, d.m, 0), c.m == d.m, c.n == d.m, c.nnz == csize(d, d.m),
    ensures bgraph_is(d, c), forall|k: int| 0 <= k < d.m ==> #[trigger] c.i@.subrange(c.p@[k] as int, c.p@[k + 1] as int) == cadj(d, k),
{
    let ci = c.i@; let cp = c.p@; bg_ends(d); assert(cp.len() == d.m + 1 && ci.len() == csize(d, d.m) && cp[0] == csize(d, 0) && cp[d.m] == csize(d, d.m)) by { reveal(outs); }
    assert(csize(d, 0) == 0);
    assert forall|k: int| 0 <= k < d.m implies 0 <= #[trigger] cp[k] <= cp[k + 1] <= c.nnz by { out_at(d, cp, ci, k); }
    assert forall|k: int| 0 <= k < d.m implies #[trigger] ci.subrange(cp[k] as int, cp[k + 1] as int) == cadj(d, k) by { out_at(d, cp, ci, k); }
    assert forall|k: int, b: int| 0 <= k < d.m implies (#[trigger] lists(ci, cp[k] as int, cp[k + 1] as int, b) <==> blk_edge(d, k, b)) by {
        if lists(ci, cp[k] as int, cp[k + 1] as int, b) { out_fwd(d, cp, ci, k, b); }
        if blk_edge(d, k, b) { out_bwd(d, cp, ci, k, b); }
    }
    assert forall|k: int, x: int, y: int| 0 <= k < d.m && #[trigger] in_col(cp, k, x) && #[trigger] in_col(cp, k, y) && x != y implies ci[x] != ci[y] by {
        if x < y { out_dst(d, cp, ci, k, x, y); } else { out_dst(d, cp, ci, k, y, x); }
    }
}
pub proof fn row_blk(d: Bg, k: int, q: int)
    requires bg_ok(d), 0 <= k < d.m, d.bp[k] <= q < bend(d, k),
    ensures 0 <= q < d.bi.len(), blk_is(d.sn, d.m, d.bi[q] as int, bval(d)[q] as int), 0 <= bval(d)[q] < d.m, bval(d)[q] == blk_of(d.sn, d.m, d.bi[q] as int), sn_ok(d.sn, d.m, d.n), d.m <= i32::MAX,
{ bg_at(d, k); reveal(bg_ok); assert(0 <= d.bi[q] < d.n); sn_ends(d.sn, d.m, d.n); blk_ex(d.sn, d.m, d.n, d.bi[q] as int, d.m); }
