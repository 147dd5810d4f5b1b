//@uses blocks
// ---- the values of a range, in order
pub open spec fn vocc(v: Seq<i32>, lo: int, hi: int, x: int) -> bool { exists|e: int| lo <= e < hi && #[trigger] v[e] == x }
pub open spec fn ups(v: Seq<i32>, lo: int, hi: int, r: int) -> Seq<i32>
    decreases r
{ if r <= 0 { Seq::<i32>::empty() } else if vocc(v, lo, hi, r - 1) { ups(v, lo, hi, r - 1).push((r - 1) as i32) } else { ups(v, lo, hi, r - 1) } }
pub open spec fn sasc(s: Seq<i32>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b] }
pub proof fn ups_ok(v: Seq<i32>, lo: int, hi: int, r: int)
    requires 0 <= r <= i32::MAX,
    ensures sasc(ups(v, lo, hi, r)), forall|a: int| 0 <= a < ups(v, lo, hi, r).len() ==> 0 <= #[trigger] ups(v, lo, hi, r)[a] < r,
        forall|x: i32| #[trigger] ups(v, lo, hi, r).contains(x) <==> 0 <= x < r && vocc(v, lo, hi, x as int),
    decreases r
{
    if r > 0 {
        ups_ok(v, lo, hi, r - 1); let s = ups(v, lo, hi, r - 1); let u = ups(v, lo, hi, r);
        if vocc(v, lo, hi, r - 1) {
            assert(u == s.push((r - 1) as i32));
            assert forall|x: i32| #[trigger] u.contains(x) <==> 0 <= x < r && vocc(v, lo, hi, x as int) by {
                if u.contains(x) { let k = choose|k: int| 0 <= k < u.len() && u[k] == x; if k < s.len() { assert(s[k] == x); assert(s.contains(x)); } }
                if 0 <= x < r && vocc(v, lo, hi, x as int) { if x == r - 1 { assert(u[s.len() as int] == x); } else { assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(u[k] == x); } }
            }
            assert forall|a: int, b: int| 0 <= a < b < u.len() implies #[trigger] u[a] < #[trigger] u[b] by { assert(u[a] == s[a]); if b < s.len() { assert(u[b] == s[b]); } }
            assert forall|a: int| 0 <= a < u.len() implies 0 <= #[trigger] u[a] < r by { if a < s.len() { assert(0 <= s[a] < r - 1); } }
        } else {
            assert forall|x: i32| #[trigger] u.contains(x) <==> 0 <= x < r && vocc(v, lo, hi, x as int) by { assert(s.contains(x) <==> 0 <= x < r - 1 && vocc(v, lo, hi, x as int)); }
            assert forall|a: int| 0 <= a < u.len() implies 0 <= #[trigger] u[a] < r by { assert(0 <= s[a] < r - 1); }
        }
    } else { assert forall|x: i32| #[trigger] ups(v, lo, hi, r).contains(x) <==> 0 <= x < r && vocc(v, lo, hi, x as int) by { } }
}
// two ascending lists with the same members are the same
pub proof fn sasc_eq(s: Seq<i32>, t: Seq<i32>)
    requires sasc(s), sasc(t), forall|x: i32| #[trigger] s.contains(x) <==> #[trigger] t.contains(x),
    ensures s == t,
    decreases s.len()
{
    if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } assert(s =~= t); }
    else {
        let x = s.last(); assert(s.contains(x)); assert(t.contains(x)); let y = t.last(); assert(t.contains(y)); assert(s.contains(y));
        let ky = choose|k: int| 0 <= k < s.len() && s[k] == y; let kx = choose|k: int| 0 <= k < t.len() && t[k] == x;
        if ky < s.len() - 1 { assert(s[ky] < s[s.len() - 1]); } if kx < t.len() - 1 { assert(t[kx] < t[t.len() - 1]); } assert(x == y);
        let s2 = s.drop_last(); let t2 = t.drop_last();
        assert forall|z: i32| #[trigger] s2.contains(z) implies t2.contains(z) by { let k = choose|k: int| 0 <= k < s2.len() && s2[k] == z; assert(s[k] == z); assert(s.contains(z)); assert(t.contains(z)); let h = choose|h: int| 0 <= h < t.len() && t[h] == z; assert(s[k] < s[s.len() - 1]); assert(t2[h] == z); }
        assert forall|z: i32| #[trigger] t2.contains(z) implies s2.contains(z) by { let k = choose|k: int| 0 <= k < t2.len() && t2[k] == z; assert(t[k] == z); assert(t.contains(z)); assert(s.contains(z)); let h = choose|h: int| 0 <= h < s.len() && s[h] == z; assert(t[k] < t[t.len() - 1]); assert(s2[h] == z); }
        sasc_eq(s2, t2); assert(s == s2.push(x)); assert(t == t2.push(y));
    }
}
// ---- taking the least one out until none is left
#[verifier::opaque]
pub open spec fn pops(f: Seq<i32>, t: Seq<i32>, c: int, q: Seq<i32>, m: Seq<bool>, n: int) -> bool {
    t.len() == n && m.len() == n && 0 <= c <= n && c + q.len() == f.len() && f.len() <= n && dist(q) && (forall|a: int, b: int| 0 <= a < b < c ==> #[trigger] t[a] < #[trigger] t[b]) && (forall|a: int, b: int| 0 <= a < c && 0 <= b < q.len() ==> #[trigger] t[a] < #[trigger] q[b])
    && (forall|b: int| 0 <= b < q.len() ==> 0 <= #[trigger] q[b] < n && f.contains(q[b])) && (forall|a: int| 0 <= a < c ==> f.contains(#[trigger] t[a]))
    && (forall|x: i32| #[trigger] f.contains(x) ==> q.contains(x) || tin(t, c, x)) && (forall|r: int| 0 <= r < n && #[trigger] m[r] ==> q.contains(r as i32))
}
pub open spec fn tin(t: Seq<i32>, c: int, x: i32) -> bool { exists|a: int| 0 <= a < c && #[trigger] t[a] == x }
pub proof fn po_init(v: Seq<i32>, lo: int, hi: int, t: Seq<i32>, m: Seq<bool>, n: int)
    requires vals_in(v, lo, hi, n), mk(v, lo, hi, m, n), t.len() == n, 0 <= n,
    ensures pops(fst(v, lo, hi), t, 0, fst(v, lo, hi), m, n),
{ reveal(pops); reveal(mk); fst_ok(v, lo, hi, n); let f = fst(v, lo, hi); assert forall|b: int| 0 <= b < f.len() implies 0 <= #[trigger] f[b] < n && f.contains(f[b]) by { } }
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn po_step(f: Seq<i32>, t: Seq<i32>, c: int, q: Seq<i32>, m: Seq<bool>, n: int)
    requires pops(f, t, c, q, m, n), q.len() > 0, n <= i32::MAX,
    ensures ({ let x = q[pq_at(q)]; 0 <= x < n && m.len() == n && c < t.len() && t.len() == n && pops(f, t.update(c, x), c + 1, q.remove(pq_at(q)), m.update(x as int, false), n) }),
{
    reveal(pops); pq_least(q); let k = pq_at(q); let x = q[k]; let t2 = t.update(c, x); let q2 = q.remove(k); let m2 = m.update(x as int, false); assert(0 <= q[k] < n);
    assert forall|b: int| 0 <= b < q2.len() implies x < #[trigger] q2[b] && 0 <= q2[b] < n && f.contains(q2[b]) by { let b0 = if b < k { b } else { b + 1 }; assert(q2[b] == q[b0]); assert(q[k] <= q[b0]); if b0 < k { assert(q[b0] != q[k]); } else { assert(q[k] != q[b0]); } }
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies #[trigger] q2[a] != #[trigger] q2[b] by { let a0 = if a < k { a } else { a + 1 }; let b0 = if b < k { b } else { b + 1 }; assert(q2[a] == q[a0] && q2[b] == q[b0]); assert(q[a0] != q[b0]); }
    assert forall|a: int, b: int| 0 <= a < b < c + 1 implies #[trigger] t2[a] < #[trigger] t2[b] by { assert(t2[a] == t[a]); if b == c { assert(t[a] < q[k]); } else { assert(t2[b] == t[b]); } }
    assert forall|a: int, b: int| 0 <= a < c + 1 && 0 <= b < q2.len() implies #[trigger] t2[a] < #[trigger] q2[b] by { let b0 = if b < k { b } else { b + 1 }; assert(q2[b] == q[b0]); if a < c { assert(t[a] < q[b0]); } else { assert(x < q2[b]); } }
    assert forall|a: int| 0 <= a < c + 1 implies f.contains(#[trigger] t2[a]) by { if a < c { assert(f.contains(t[a])); } else { assert(f.contains(q[k])); } }
    assert forall|y: i32| #[trigger] f.contains(y) implies q2.contains(y) || tin(t2, c + 1, y) by {
        if q.contains(y) { let b = choose|b: int| 0 <= b < q.len() && q[b] == y; if b == k { assert(t2[c] == y); } else { let b2 = if b < k { b } else { b - 1 }; assert(q2[b2] == y); } }
        else { let a = choose|a: int| 0 <= a < c && #[trigger] t[a] == y; assert(t2[a] == y); }
    }
    assert forall|r: int| 0 <= r < n && #[trigger] m2[r] implies q2.contains(r as i32) by { assert(r != x); assert(m[r]); assert(q.contains(r as i32)); let b = choose|b: int| 0 <= b < q.len() && q[b] == r as i32; assert(b != k); let b2 = if b < k { b } else { b - 1 }; assert(q2[b2] == r as i32); }
}
// the rows of block k in order
pub open spec fn srow(d: Bl, k: int) -> Seq<i32> { ups(d.i, d.p[d.sn[k] as int] as int, d.p[d.sn[k + 1] as int] as int, d.n) }
pub proof fn po_done(d: Bl, k: int, t: Seq<i32>, c: int, q: Seq<i32>, m: Seq<bool>)
    requires bl_ok(d), 0 <= k < d.m, pops(brow(d, k), t, c, q, m, d.n), q.len() == 0,
    ensures c == bnr(d, k), srow(d, k).len() == c, head_is(t, srow(d, k)), nomark(m, d.n),
{
    bl_at(d, k); let lo = d.p[d.sn[k] as int] as int; let hi = d.p[d.sn[k + 1] as int] as int; let f = brow(d, k);
    reveal(pops); ups_ok(d.i, lo, hi, d.n); let s = t.subrange(0, c); let u = srow(d, k);
    assert(sasc(s)) by { assert forall|a: int, b: int| 0 <= a < b < s.len() implies #[trigger] s[a] < #[trigger] s[b] by { assert(t[a] < t[b]); } }
    assert forall|x: i32| #[trigger] s.contains(x) <==> #[trigger] u.contains(x) by {
        fst_all(d.i, lo, hi, x);
        if s.contains(x) { let a = choose|a: int| 0 <= a < s.len() && s[a] == x; assert(t[a] == x); assert(f.contains(x)); let e = choose|e: int| lo <= e < hi && #[trigger] d.i[e] == x; assert(0 <= d.i[e] < d.n); assert(vocc(d.i, lo, hi, x as int)); }
        if u.contains(x) { assert(vocc(d.i, lo, hi, x as int)); assert(f.contains(x)); assert(tin(t, c, x)); let a = choose|a: int| 0 <= a < c && #[trigger] t[a] == x; assert(s[a] == x); }
    }
    sasc_eq(s, u); reveal(head_is);
    assert forall|a: int| 0 <= a < u.len() implies #[trigger] t[a] == u[a] by { assert(s[a] == t[a]); }
}
pub proof fn srow_ok(d: Bl, k: int)
    requires bl_ok(d), 0 <= k < d.m,
    ensures sasc(srow(d, k)), forall|a: int| 0 <= a < srow(d, k).len() ==> 0 <= #[trigger] srow(d, k)[a] < d.n,
        forall|x: i32| #[trigger] srow(d, k).contains(x) <==> vocc(d.i, d.p[d.sn[k] as int] as int, d.p[d.sn[k + 1] as int] as int, x as int),
{
    bl_at(d, k); let lo = d.p[d.sn[k] as int] as int; let hi = d.p[d.sn[k + 1] as int] as int; ups_ok(d.i, lo, hi, d.n);
    assert forall|x: i32| #[trigger] srow(d, k).contains(x) <==> vocc(d.i, lo, hi, x as int) by { if vocc(d.i, lo, hi, x as int) { let e = choose|e: int| lo <= e < hi && #[trigger] d.i[e] == x as int; assert(0 <= d.i[e] < d.n); } }
}
// ---- lower triangular, diagonal first, rows going up
#[verifier::opaque]
pub open spec fn lowcols(p: Seq<i32>, i: Seq<i32>, n: int) -> bool { (forall|c: int| 0 <= c < n ==> #[trigger] p[c] < p[c + 1] && i[p[c] as int] == c) && forall|c: int, e: int, f: int| 0 <= c < n && #[trigger] in_col(p, c, e) && #[trigger] in_col(p, c, f) && e < f ==> i[e] < i[f] }
// the value column c has in row r
pub open spec fn chas(d: Bl, c: int, r: int, e: int) -> bool { in_col(d.p, c, e) && d.i[e] == r }
pub open spec fn cval(d: Bl, x: Seq<F64>, c: int, r: int) -> F64 { if exists|e: int| chas(d, c, r, e) { x[choose|e: int| chas(d, c, r, e)] } else { i2f_s(0) } }
// after s rows of the block, index is at the first entry of the column not yet met
#[verifier::opaque]
pub open spec fn ixat(d: Bl, k: int, c: int, s: int, ix: int) -> bool {
    d.p[c] <= ix <= d.p[c + 1] && (forall|e: int, t: int| d.p[c] <= e < ix && s <= t < srow(d, k).len() ==> #[trigger] d.i[e] < #[trigger] srow(d, k)[t]) && (forall|e: int, t: int| ix <= e < d.p[c + 1] && 0 <= t < s ==> #[trigger] d.i[e] > #[trigger] srow(d, k)[t])
}
pub proof fn ix_init(d: Bl, k: int, c: int)
    requires bl_ok(d), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1],
    ensures ixat(d, k, c, 0, d.p[c] as int),
{ reveal(ixat); bl_col(d, k, c); }
pub proof fn low_at(d: Bl, c: int, e: int, f: int)
    requires lowcols(d.p, d.i, d.n), 0 <= c < d.n,
    ensures d.p[c] < d.p[c + 1], d.i[d.p[c] as int] == c, in_col(d.p, c, e) && in_col(d.p, c, f) && e < f ==> d.i[e] < d.i[f],
{ reveal(lowcols); assert(d.p[c] < d.p[c + 1] && d.i[d.p[c] as int] == c); }
pub proof fn ix_in(d: Bl, k: int, c: int, s: int, ix: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(),
    ensures 0 <= ix < d.p[d.n] <= d.i.len(), 0 <= c < d.n, d.p[c] <= ix <= d.p[c + 1], 0 <= srow(d, k)[s] < d.n, d.p[d.n] <= i32::MAX,
{
    bl_col(d, k, c); srow_ok(d, k); let u = srow(d, k); assert(gwf(d.p, d.i, d.n)) by { reveal(bl_ok); } assert(0 <= u[s] < d.n); assert(d.p[c] <= ix <= d.p[c + 1]) by { reveal(ixat); }
    if ix == d.p[c + 1] {
        if c < d.n - 1 { low_at(d, c + 1, 0, 0); assert(d.p[c + 2] <= d.p[d.n]); }
        else { low_at(d, c, 0, 0); let e = d.p[c] as int; assert(d.i[e] < u[s]) by { reveal(ixat); } assert(false); }
    }
}
pub proof fn ix_hit(d: Bl, x: Seq<F64>, k: int, c: int, s: int, ix: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(), srow(d, k)[s] == d.i[ix], ix < d.p[c + 1],
    ensures cval(d, x, c, srow(d, k)[s] as int) == x[ix],
{
    ix_in(d, k, c, s, ix); let u = srow(d, k); assert(in_col(d.p, c, ix)); assert(chas(d, c, u[s] as int, ix)); let e = choose|e: int| chas(d, c, u[s] as int, e); low_at(d, c, e, ix); low_at(d, c, ix, e); assert(e == ix);
}
pub proof fn ix_hit2(d: Bl, k: int, c: int, s: int, ix: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(), srow(d, k)[s] == d.i[ix], ix < d.p[c + 1],
    ensures ixat(d, k, c, s + 1, ix + 1),
{
    ix_in(d, k, c, s, ix); let u = srow(d, k); srow_ok(d, k); reveal(ixat);
    assert forall|e: int, t: int| d.p[c] <= e < ix + 1 && s + 1 <= t < u.len() implies #[trigger] d.i[e] < #[trigger] u[t] by { if e == ix { assert(u[s] < u[t]); } }
    assert forall|e: int, t: int| ix + 1 <= e < d.p[c + 1] && 0 <= t < s + 1 implies #[trigger] d.i[e] > #[trigger] u[t] by { if t == s { assert(in_col(d.p, c, ix) && in_col(d.p, c, e)); low_at(d, c, ix, e); } }
}
// a miss: every entry from ix on lies above row s
pub proof fn ix_abv(d: Bl, k: int, c: int, s: int, ix: int, e: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(), srow(d, k)[s] != d.i[ix] || ix >= d.p[c + 1], ix <= e < d.p[c + 1],
    ensures d.i[e] > srow(d, k)[s],
{
    ix_in(d, k, c, s, ix); bl_col(d, k, c); srow_ok(d, k); let u = srow(d, k); let lo = d.p[d.sn[k] as int] as int; let hi = d.p[d.sn[k + 1] as int] as int;
    let y = d.i[ix]; assert(lo <= ix < hi); assert(vocc(d.i, lo, hi, y as int)); assert(u.contains(y)); let t0 = choose|t: int| 0 <= t < u.len() && u[t] == y;
    if t0 < s { assert(d.i[ix] > u[t0]) by { reveal(ixat); } } if t0 > s { assert(u[s] < u[t0]); } assert(y > u[s]);
    if e > ix { assert(in_col(d.p, c, ix) && in_col(d.p, c, e)); low_at(d, c, ix, e); }
}
pub proof fn ix_miss(d: Bl, x: Seq<F64>, k: int, c: int, s: int, ix: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(), srow(d, k)[s] != d.i[ix] || ix >= d.p[c + 1],
    ensures cval(d, x, c, srow(d, k)[s] as int) == i2f_s(0), ixat(d, k, c, s + 1, ix),
{
    ix_in(d, k, c, s, ix); let u = srow(d, k);
    assert forall|e: int| !chas(d, c, u[s] as int, e) by { if chas(d, c, u[s] as int, e) { if e < ix { assert(d.i[e] < u[s]) by { reveal(ixat); } } else { ix_abv(d, k, c, s, ix, e); } } }
    reveal(ixat);
    assert forall|e: int, t: int| ix <= e < d.p[c + 1] && 0 <= t < s + 1 implies #[trigger] d.i[e] > #[trigger] u[t] by { if t == s { ix_abv(d, k, c, s, ix, e); } }
}
pub proof fn ix_at(d: Bl, x: Seq<F64>, k: int, c: int, s: int, ix: int)
    requires bl_ok(d), lowcols(d.p, d.i, d.n), 0 <= k < d.m, d.sn[k] <= c < d.sn[k + 1], ixat(d, k, c, s, ix), 0 <= s < srow(d, k).len(),
    ensures 0 <= ix < d.p[d.n] <= d.i.len(), 0 <= c < d.n, ix <= d.p[c + 1], d.p[d.n] <= i32::MAX, 0 <= srow(d, k)[s] < d.n, srow(d, k)[s] == d.i[ix] && ix < d.p[c + 1] ==> cval(d, x, c, srow(d, k)[s] as int) == x[ix] && ixat(d, k, c, s + 1, ix + 1),
        !(srow(d, k)[s] == d.i[ix] && ix < d.p[c + 1]) ==> cval(d, x, c, srow(d, k)[s] as int) == i2f_s(0) && ixat(d, k, c, s + 1, ix),
{ ix_in(d, k, c, s, ix); if srow(d, k)[s] == d.i[ix] && ix < d.p[c + 1] { ix_hit(d, x, k, c, s, ix); ix_hit2(d, k, c, s, ix); } else { ix_miss(d, x, k, c, s, ix); } }
// ---- what is written, in the order it is written: block k, its u-th column, its s-th row
pub open spec fn exi(d: Bl, k: int, u: int, s: int) -> Seq<i32>
    decreases k, u, s
{ if k < 0 || u < 0 || s < 0 { Seq::<i32>::empty() } else if s > 0 { exi(d, k, u, s - 1).push(srow(d, k)[s - 1]) } else if u > 0 { exi(d, k, u - 1, srow(d, k).len() as int) } else if k > 0 { exi(d, k - 1, bw(d, k - 1), 0) } else { Seq::<i32>::empty() } }
pub open spec fn exx(d: Bl, x: Seq<F64>, k: int, u: int, s: int) -> Seq<F64>
    decreases k, u, s
{ if k < 0 || u < 0 || s < 0 { Seq::<F64>::empty() } else if s > 0 { exx(d, x, k, u, s - 1).push(cval(d, x, d.sn[k] + u, srow(d, k)[s - 1] as int)) } else if u > 0 { exx(d, x, k, u - 1, srow(d, k).len() as int) } else if k > 0 { exx(d, x, k - 1, bw(d, k - 1), 0) } else { Seq::<F64>::empty() } }
pub proof fn srow_len(d: Bl, k: int)
    requires bl_ok(d), 0 <= k < d.m,
    ensures srow(d, k).len() == bnr(d, k),
{
    bl_at(d, k); let lo = d.p[d.sn[k] as int] as int; let hi = d.p[d.sn[k + 1] as int] as int; srow_ok(d, k); fst_ok(d.i, lo, hi, d.n); let f = brow(d, k); let u = srow(d, k);
    assert forall|x: i32| #[trigger] u.contains(x) <==> #[trigger] f.contains(x) by { fst_all(d.i, lo, hi, x); if vocc(d.i, lo, hi, x as int) { } }
    same_len(u, f); same_len(f, u);
}
// distinct members all found in t: at most as many
proof fn same_len(s: Seq<i32>, t: Seq<i32>)
    requires forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] != #[trigger] s[b], forall|x: i32| #[trigger] s.contains(x) ==> t.contains(x),
    ensures s.len() <= t.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)); let k = choose|k: int| 0 <= k < t.len() && t[k] == x; let s2 = s.drop_last(); let t2 = t.remove(k);
        assert forall|y: i32| #[trigger] s2.contains(y) implies t2.contains(y) by { let a = choose|a: int| 0 <= a < s2.len() && s2[a] == y; assert(s[a] == y); assert(s.contains(y)); let h = choose|h: int| 0 <= h < t.len() && t[h] == y; assert(s[a] != s[s.len() - 1]); let h2 = if h < k { h } else { h - 1 }; assert(t2[h2] == y); }
        assert forall|a: int, b: int| 0 <= a < b < s2.len() implies #[trigger] s2[a] != #[trigger] s2[b] by { assert(s[a] != s[b]); }
        same_len(s2, t2);
    }
}
pub open spec fn bpos(d: Bl, k: int, u: int, s: int) -> int { bat(d, k) + u * bnr(d, k) + s }
pub proof fn ex_len(d: Bl, x: Seq<F64>, k: int, u: int, s: int)
    requires bl_ok(d), 0 <= k <= d.m, 0 <= u, 0 <= s, k == d.m ==> u == 0 && s == 0,
    ensures exi(d, k, u, s).len() == (if k == d.m { bat(d, k) } else { bpos(d, k, u, s) }), exx(d, x, k, u, s).len() == exi(d, k, u, s).len(),
    decreases k, u, s
{
    if k < d.m { srow_len(d, k); }
    if s > 0 { ex_len(d, x, k, u, s - 1); }
    else if u > 0 { ex_len(d, x, k, u - 1, srow(d, k).len() as int); let w = bnr(d, k); assert((u - 1) * w + w == u * w) by (nonlinear_arith); }
    else if k > 0 { bl_at(d, k - 1); srow_len(d, k - 1); ex_len(d, x, k - 1, bw(d, k - 1), 0); if k < d.m { assert(0 * bnr(d, k) == 0); } }
    else if k < d.m { assert(0 * bnr(d, k) == 0); }
}
pub proof fn ex_room(d: Bl, x: Seq<F64>, k: int, u: int, s: int)
    requires bl_ok(d), 0 <= k < d.m, 0 <= u < bw(d, k), 0 <= s < srow(d, k).len(),
    ensures exi(d, k, u, s).len() == exx(d, x, k, u, s).len(), exi(d, k, u, s).len() < bat(d, k + 1) <= bat(d, d.m), exi(d, k, u, s + 1) == exi(d, k, u, s).push(srow(d, k)[s]), exx(d, x, k, u, s + 1) == exx(d, x, k, u, s).push(cval(d, x, d.sn[k] + u, srow(d, k)[s] as int)),
{
    ex_len(d, x, k, u, s); srow_len(d, k); bat_mono(d, k + 1, d.m); let w = bw(d, k); let nr = bnr(d, k);
    assert(u * nr + s < w * nr) by (nonlinear_arith) requires 0 <= u < w, 0 <= s < nr;
}
#[verifier::opaque]
pub open spec fn filled(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>, k: int, u: int, s: int) -> bool {
    mi.len() >= bat(d, d.m) && mx.len() >= bat(d, d.m) && (forall|a: int| 0 <= a < exi(d, k, u, s).len() ==> mi[a] == #[trigger] exi(d, k, u, s)[a]) && (forall|a: int| 0 <= a < exx(d, x, k, u, s).len() ==> mx[a] == #[trigger] exx(d, x, k, u, s)[a])
}
pub proof fn fi_init(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>)
    requires mi.len() >= bat(d, d.m), mx.len() >= bat(d, d.m),
    ensures filled(d, x, mi, mx, 0, 0, 0), exi(d, 0, 0, 0).len() == 0,
{ reveal(filled); }
pub proof fn fi_step(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>, k: int, u: int, s: int, cn: int, r: i32, y: F64)
    requires bl_ok(d), filled(d, x, mi, mx, k, u, s), 0 <= k < d.m, 0 <= u < bw(d, k), 0 <= s < srow(d, k).len(), cn == exi(d, k, u, s).len(), r == srow(d, k)[s], y == cval(d, x, d.sn[k] + u, r as int),
    ensures 0 <= cn < bat(d, d.m), cn < mi.len(), cn < mx.len(), filled(d, x, mi.update(cn, r), mx.update(cn, y), k, u, s + 1), exi(d, k, u, s + 1).len() == cn + 1,
{ reveal(filled); ex_room(d, x, k, u, s); let e = exi(d, k, u, s); let f = exx(d, x, k, u, s); let e2 = exi(d, k, u, s + 1); let f2 = exx(d, x, k, u, s + 1);
  assert forall|a: int| 0 <= a < e2.len() implies mi.update(cn, r)[a] == #[trigger] e2[a] by { if a < cn { assert(e2[a] == e[a]); } }
  assert forall|a: int| 0 <= a < f2.len() implies mx.update(cn, y)[a] == #[trigger] f2[a] by { if a < cn { assert(f2[a] == f[a]); } } }
pub proof fn fi_col(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>, k: int, u: int)
    requires filled(d, x, mi, mx, k, u, srow(d, k).len() as int), 0 <= k, 0 <= u,
    ensures filled(d, x, mi, mx, k, u + 1, 0), exi(d, k, u + 1, 0) == exi(d, k, u, srow(d, k).len() as int),
{ reveal(filled); assert(exi(d, k, u + 1, 0) == exi(d, k, u, srow(d, k).len() as int)); assert(exx(d, x, k, u + 1, 0) == exx(d, x, k, u, srow(d, k).len() as int)); }
pub proof fn fi_blk(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>, k: int)
    requires filled(d, x, mi, mx, k, bw(d, k), 0), 0 <= k,
    ensures filled(d, x, mi, mx, k + 1, 0, 0), exi(d, k + 1, 0, 0) == exi(d, k, bw(d, k), 0),
{ reveal(filled); assert(exi(d, k + 1, 0, 0) == exi(d, k, bw(d, k), 0)); assert(exx(d, x, k + 1, 0, 0) == exx(d, x, k, bw(d, k), 0)); }
// ---- the finished layout: entry (u, s) of block k sits at bat(k) + u * rows + s
pub open spec fn laid(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>, k: int, u: int, s: int) -> bool { mi[bpos(d, k, u, s)] == srow(d, k)[s] && mx[bpos(d, k, u, s)] == cval(d, x, d.sn[k] + u, srow(d, k)[s] as int) }
pub open spec fn blocks_are(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>) -> bool { forall|k: int, u: int, s: int| 0 <= k < d.m && 0 <= u < bw(d, k) && 0 <= s < bnr(d, k) ==> #[trigger] laid(d, x, mi, mx, k, u, s) }
// a stage is a prefix of every later one
pub proof fn ex_pre(d: Bl, x: Seq<F64>, k: int, u: int, s: int, k2: int, u2: int, s2: int)
    requires bl_ok(d), 0 <= k < d.m, 0 <= u < bw(d, k), 0 <= s < srow(d, k).len(), 0 <= k2 <= d.m, 0 <= u2, 0 <= s2, k2 == d.m ==> u2 == 0 && s2 == 0, k2 < d.m ==> u2 <= bw(d, k2) && s2 <= srow(d, k2).len() && (u2 == bw(d, k2) ==> s2 == 0), k < k2 || k == k2 && (u < u2 || u == u2 && s < s2),
    ensures exi(d, k, u, s).len() < exi(d, k2, u2, s2).len(), exi(d, k2, u2, s2)[exi(d, k, u, s).len() as int] == srow(d, k)[s], exx(d, x, k, u, s).len() == exi(d, k, u, s).len(), exx(d, x, k2, u2, s2).len() == exi(d, k2, u2, s2).len(), exx(d, x, k2, u2, s2)[exi(d, k, u, s).len() as int] == cval(d, x, d.sn[k] + u, srow(d, k)[s] as int),
    decreases k2, u2, s2
{
    ex_len(d, x, k, u, s); ex_len(d, x, k2, u2, s2); ex_room(d, x, k, u, s);
    if s2 > 0 { if k == k2 && u == u2 && s == s2 - 1 { } else { ex_pre(d, x, k, u, s, k2, u2, s2 - 1); } }
    else if u2 > 0 { let l = srow(d, k2).len() as int; ex_pre(d, x, k, u, s, k2, u2 - 1, l); }
    else { bl_at(d, k2 - 1); ex_pre(d, x, k, u, s, k2 - 1, bw(d, k2 - 1), 0); }
}
pub proof fn fi_done(d: Bl, x: Seq<F64>, mi: Seq<i32>, mx: Seq<F64>)
    requires bl_ok(d), filled(d, x, mi, mx, d.m, 0, 0),
    ensures blocks_are(d, x, mi, mx),
{
    reveal(filled);
    assert forall|k: int, u: int, s: int| 0 <= k < d.m && 0 <= u < bw(d, k) && 0 <= s < bnr(d, k) implies #[trigger] laid(d, x, mi, mx, k, u, s) by { srow_len(d, k); ex_pre(d, x, k, u, s, d.m, 0, 0); ex_len(d, x, k, u, s); let e = exi(d, d.m, 0, 0); let f = exx(d, x, d.m, 0, 0); let q = bpos(d, k, u, s); assert(mi[q] == e[q]); assert(mx[q] == f[q]); }
}
// the queue holds the rows in the order they were met
pub proof fn mk_step0(v: Seq<i32>, lo: int, q: int, m: Seq<bool>, n: int)
    requires mk(v, lo, q, m, n), lo <= q, vals_in(v, lo, q + 1, n), 0 <= n <= i32::MAX + 1,
    ensures 0 <= v[q] < n, m.len() == n, m[v[q] as int] ==> fst(v, lo, q + 1) == fst(v, lo, q) && mk(v, lo, q + 1, m, n),
        !m[v[q] as int] ==> fst(v, lo, q + 1) == fst(v, lo, q).push(v[q]) && mk(v, lo, q + 1, m.update(v[q] as int, true), n),
{ let f = fst(v, lo, q); assert(head_is(f, f)) by { reveal(head_is); } mk_step(v, lo, q, m, n, f); }
#[verifier::opaque]
pub open spec fn rows_upto(d: Bl, nr: Seq<i32>, k: int) -> bool { forall|a: int| 0 <= a < k ==> #[trigger] nr[a] == bnr(d, a) }
pub open spec fn rows_are(d: Bl, nr: Seq<i32>, k: int) -> bool { forall|a: int| 0 <= a < k ==> #[trigger] nr[a] == bnr(d, a) }
pub proof fn rw_init(d: Bl, nr: Seq<i32>)
    ensures rows_upto(d, nr, 0),
{ reveal(rows_upto); }
pub proof fn rw_step(d: Bl, nr: Seq<i32>, k: int, x: i32)
    requires rows_upto(d, nr, k), 0 <= k < nr.len(), x == bnr(d, k),
    ensures rows_upto(d, nr.update(k, x), k + 1),
{ reveal(rows_upto); }
pub proof fn rw_done(d: Bl, nr: Seq<i32>, k: int)
    requires rows_upto(d, nr, k),
    ensures rows_are(d, nr, k),
{ reveal(rows_upto); }
// block storage of a matrix: where each block starts, how many rows it has, its rows and values, and how many entries in all
pub open spec fn stored(d: Bl, x: Seq<F64>, b: BCSC) -> bool {
    at_all(d, b.p@) && b.nnz == bat(d, d.m) && b.i@.len() == b.nnz && b.x@.len() == b.nnz && b.nrows@.len() == d.m && rows_are(d, b.nrows@, d.m) && blocks_are(d, x, b.i@, b.x@)
}
// ---- the graph over supernodes of a stored matrix: block b depends on block k exactly when an entry of a column of block k lies in a row of block b
pub open spec fn bgof(d: Bl, b: BCSC) -> Bg { Bg { sn: d.sn, m: d.m, n: d.n, bp: b.p@, lr: b.nrows@, bi: b.i@ } }
pub open spec fn dep_in(d: Bl, k: int, b: int) -> bool { exists|e: int| d.p[d.sn[k] as int] <= e < d.p[d.sn[k + 1] as int] && blk_is(d.sn, d.m, #[trigger] d.i[e] as int, b) }
pub proof fn st_seg(d: Bl, x: Seq<F64>, b: BCSC, k: int)
    requires bl_ok(d), stored(d, x, b), 0 <= k < d.m, bat(d, d.m) <= i32::MAX,
    ensures ({ let g = bgof(d, b); g.bp[k] == bat(d, k) && g.lr[k] == bnr(d, k) && 0 <= g.bp[k] <= bend(g, k) <= g.bi.len() && bend(g, k) <= bat(d, k + 1) && bend(g, k) <= i32::MAX && (forall|q: int| g.bp[k] <= q < bend(g, k) ==> #[trigger] g.bi[q] == srow(d, k)[q - g.bp[k]]) && srow(d, k).len() == bnr(d, k) }),
{
    let g = bgof(d, b); bl_at(d, k); bl_ends(d); srow_len(d, k); bat_mono(d, 0, k); bat_mono(d, k + 1, d.m); assert(b.p@[k] == bat(d, k)); assert(b.nrows@[k] == bnr(d, k)); let w = bw(d, k); let r = bnr(d, k); assert(r <= w * r) by (nonlinear_arith) requires w >= 1, r >= 0;
    assert forall|q: int| g.bp[k] <= q < bend(g, k) implies #[trigger] g.bi[q] == srow(d, k)[q - g.bp[k]] by { assert(laid(d, x, b.i@, b.x@, k, 0, q - bat(d, k))); assert(0 * r == 0); assert(bpos(d, k, 0, q - bat(d, k)) == q); }
}
proof fn st_cs(d: Bl, x: Seq<F64>, b: BCSC, k: int)
    requires bl_ok(d), stored(d, x, b), 0 <= k <= d.m, bat(d, d.m) <= i32::MAX,
    ensures csize(bgof(d, b), k) <= bat(d, k),
    decreases k
{
    if k > 0 {
        st_cs(d, x, b, k - 1); st_seg(d, x, b, k - 1); let g = bgof(d, b); bl_at(d, k - 1); srow_ok(d, k - 1); bl_ends(d);
        assert forall|q: int| g.bp[k - 1] <= q < bend(g, k - 1) implies 0 <= #[trigger] bval(g)[q] < d.m by { assert(g.bi[q] == srow(d, k - 1)[q - g.bp[k - 1]]); assert(0 <= srow(d, k - 1)[q - g.bp[k - 1]] < d.n); assert(sn_ok(d.sn, d.m, d.n)) by { reveal(bl_ok); } blk_ex(d.sn, d.m, d.n, g.bi[q] as int, d.m); }
        fst_ok(bval(g), g.bp[k - 1] as int, bend(g, k - 1), d.m);
    }
}
pub proof fn st_graph(d: Bl, x: Seq<F64>, b: BCSC)
    requires bl_ok(d), stored(d, x, b), bat(d, d.m) <= i32::MAX, d.m >= 1,
    ensures bg_ok(bgof(d, b)), forall|k: int, c: int| 0 <= k < d.m ==> (#[trigger] blk_edge(bgof(d, b), k, c) <==> dep_in(d, k, c)),
{
    let g = bgof(d, b); bl_ends(d); assert(sn_ok(d.sn, d.m, d.n)) by { reveal(bl_ok); } st_cs(d, x, b, d.m);
    assert forall|k: int| 0 <= k < d.m implies 0 <= #[trigger] g.bp[k] && 0 <= g.lr[k] && g.bp[k] + g.lr[k] <= g.bi.len() && g.bp[k] + g.lr[k] <= i32::MAX by { st_seg(d, x, b, k); bl_at(d, k); }
    assert forall|k: int, q: int| 0 <= k < d.m && g.bp[k] <= q < #[trigger] bend(g, k) implies 0 <= #[trigger] g.bi[q] < d.n by { st_seg(d, x, b, k); srow_ok(d, k); assert(g.bi[q] == srow(d, k)[q - g.bp[k]]); }
    assert(bg_ok(g)) by { reveal(bg_ok); }
    assert forall|k: int, c: int| 0 <= k < d.m implies (#[trigger] blk_edge(g, k, c) <==> dep_in(d, k, c)) by { st_edge(d, x, b, k, c); }
}
proof fn st_edge(d: Bl, x: Seq<F64>, b: BCSC, k: int, c: int)
    requires bl_ok(d), stored(d, x, b), bat(d, d.m) <= i32::MAX, 0 <= k < d.m,
    ensures blk_edge(bgof(d, b), k, c) <==> dep_in(d, k, c),
{
    let g = bgof(d, b); st_seg(d, x, b, k); srow_ok(d, k); let u = srow(d, k); let lo = d.p[d.sn[k] as int] as int; let hi = d.p[d.sn[k + 1] as int] as int;
    if blk_edge(g, k, c) { let q = choose|q: int| g.bp[k] <= q < bend(g, k) && blk_is(g.sn, g.m, #[trigger] g.bi[q] as int, c); let r = u[q - g.bp[k]]; assert(g.bi[q] == r); assert(u.contains(r)); assert(vocc(d.i, lo, hi, r as int)); let e = choose|e: int| lo <= e < hi && #[trigger] d.i[e] == r as int; assert(blk_is(d.sn, d.m, d.i[e] as int, c)); }
    if dep_in(d, k, c) { let e = choose|e: int| lo <= e < hi && blk_is(d.sn, d.m, #[trigger] d.i[e] as int, c); let r = d.i[e]; assert(vocc(d.i, lo, hi, r as int)); assert(u.contains(r)); let t = choose|t: int| 0 <= t < u.len() && u[t] == r; let q = g.bp[k] + t; assert(g.bi[q] == u[q - g.bp[k]]); assert(blk_is(g.sn, g.m, g.bi[q] as int, c)); }
}
