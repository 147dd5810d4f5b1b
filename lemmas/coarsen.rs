//@uses graph csc
// ---------------------------------------------------------------- merging k consecutive nodes into one
pub open spec fn hask(i: Seq<i32>, k: int, a: int, b: int, x: int) -> bool { exists|e: int| a <= e < b && #[trigger] i[e] as int / k == x }
pub open spec fn lists(bi: Seq<i32>, a: int, b: int, x: int) -> bool { exists|q: int| a <= q < b && #[trigger] bi[q] == x }
pub open spec fn differ(bi: Seq<i32>, a: int, b: int) -> bool { forall|q: int, r: int| a <= q < r < b ==> #[trigger] bi[q] != #[trigger] bi[r] }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
// block c of k consecutive nodes lists every block one of its nodes depends on, once, and nothing else
pub open spec fn kcol(p: Seq<i32>, i: Seq<i32>, n: int, k: int, bp: Seq<i32>, bi: Seq<i32>, c: int) -> bool {
    0 <= bp[c] <= bp[c + 1] && differ(bi, bp[c] as int, bp[c + 1] as int)
    && forall|x: int| 0 <= x < n ==> (#[trigger] lists(bi, bp[c] as int, bp[c + 1] as int, x) <==> hask(i, k, p[least(c * k, n)] as int, p[least(c * k + k, n)] as int, x))
}
pub open spec fn blocks(n: int, k: int) -> int { if n % k == 0 { n / k } else { n / k + 1 } }
pub proof fn blocks_at(n: int, k: int, c: int)
    requires n >= 0, k >= 1, c >= 0,
    ensures (c * k < n) == (c < blocks(n, k)), blocks(n, k) >= 0, n >= 1 ==> blocks(n, k) >= 1, blocks(n, k) <= n,
{
    let d = n / k; let r = n % k;
    assert(n == d * k + r && 0 <= r < k) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, k); assert(k * d == d * k) by (nonlinear_arith); }
    assert(d >= 0) by (nonlinear_arith) requires n == d * k + r, 0 <= r < k, n >= 0, k >= 1;
    if c >= d + 1 { assert(c * k >= d * k + k) by (nonlinear_arith) requires c >= d + 1, k >= 1; }
    if c < d { assert(c * k < d * k) by (nonlinear_arith) requires c < d, k >= 1; }
    assert(d <= d * k) by (nonlinear_arith) requires d >= 0, k >= 1;
    if d == 0 && r == 0 { assert(d * k == 0); }
}
pub proof fn kdiv(v: int, k: int, n: int)
    requires 0 <= v < n, k >= 1,
    ensures 0 <= v / k < n, v / k < blocks(n, k),
{
    let q = v / k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, k); vstd::arithmetic::div_mod::lemma_mod_bound(v, k); assert(k * q == q * k) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires v == q * k + v % k, 0 <= v % k < k, v >= 0, k >= 1;
    blocks_at(n, k, q);
    assert(q <= q * k) by (nonlinear_arith) requires q >= 0, k >= 1;
}
pub proof fn kcol_keep(p: Seq<i32>, i: Seq<i32>, n: int, k: int, bp: Seq<i32>, bi: Seq<i32>, bp2: Seq<i32>, bi2: Seq<i32>, c: int)
    requires kcol(p, i, n, k, bp, bi, c), bp2[c] == bp[c], bp2[c + 1] == bp[c + 1], forall|q: int| 0 <= q < bp[c + 1] ==> #[trigger] bi2[q] == bi[q],
    ensures kcol(p, i, n, k, bp2, bi2, c),
{
    assert forall|x: int| 0 <= x < n implies (#[trigger] lists(bi2, bp2[c] as int, bp2[c + 1] as int, x) <==> hask(i, k, p[least(c * k, n)] as int, p[least(c * k + k, n)] as int, x)) by {
        let a = bp[c] as int; let b = bp[c + 1] as int;
        if lists(bi2, a, b, x) { let q = choose|q: int| a <= q < b && #[trigger] bi2[q] == x; assert(bi[q] == x); assert(lists(bi, a, b, x)); }
        if lists(bi, a, b, x) { let q = choose|q: int| a <= q < b && #[trigger] bi[q] == x; assert(bi2[q] == x); }
    }
}
// state while the entries a..m of block c are scanned: s is where its list starts
pub open spec fn kst(i: Seq<i32>, k: int, n: int, a: int, m: int, bi: Seq<i32>, s: int, t: int, ex: Seq<bool>, fv: Seq<i32>) -> bool {
    0 <= s <= t <= bi.len() && fv.len() == t - s && ex.len() == n
    && (forall|q: int| 0 <= q < t - s ==> #[trigger] fv[q] == bi[s + q] && 0 <= fv[q] < n)
    && differ(bi, s, t) && t - s <= m - a
    && (forall|x: int| 0 <= x < n ==> (#[trigger] ex[x] <==> hask(i, k, a, m, x)))
    && (forall|x: int| 0 <= x < n ==> (#[trigger] ex[x] <==> lists(bi, s, t, x)))
}
pub proof fn kst_start(i: Seq<i32>, k: int, n: int, a: int, bi: Seq<i32>, s: int, ex: Seq<bool>, fv: Seq<i32>)
    requires fv.len() == 0, ex.len() == n, 0 <= s <= bi.len(), forall|x: int| 0 <= x < n ==> !#[trigger] ex[x],
    ensures kst(i, k, n, a, a, bi, s, s, ex, fv),
{}
pub proof fn kst_old(i: Seq<i32>, k: int, n: int, a: int, m: int, bi: Seq<i32>, s: int, t: int, ex: Seq<bool>, fv: Seq<i32>)
    requires kst(i, k, n, a, m, bi, s, t, ex, fv), a <= m < i.len(), 0 <= i[m] < n, k >= 1, ex[i[m] as int / k],
    ensures kst(i, k, n, a, m + 1, bi, s, t, ex, fv),
{
    assert forall|x: int| 0 <= x < n implies (#[trigger] ex[x] <==> hask(i, k, a, m + 1, x)) by {
        if hask(i, k, a, m, x) { let e = choose|e: int| a <= e < m && #[trigger] i[e] as int / k == x; assert(i[e] as int / k == x); }
    }
}
pub proof fn kst_new(i: Seq<i32>, k: int, n: int, a: int, m: int, bi: Seq<i32>, s: int, t: int, ex: Seq<bool>, fv: Seq<i32>)
    requires kst(i, k, n, a, m, bi, s, t, ex, fv), a <= m < i.len(), 0 <= i[m] < n, k >= 1, 0 <= i[m] as int / k < n, t < bi.len(), !ex[i[m] as int / k],
    ensures kst(i, k, n, a, m + 1, bi.update(t, (i[m] as int / k) as i32), s, t + 1, ex.update(i[m] as int / k, true), fv.push((i[m] as int / k) as i32)),
{
    let v = i[m] as int / k; let b2 = bi.update(t, v as i32);
    assert(!lists(bi, s, t, v));
    assert forall|x: int| 0 <= x < n implies (#[trigger] ex.update(v, true)[x] <==> hask(i, k, a, m + 1, x)) by {
        if hask(i, k, a, m, x) { let e = choose|e: int| a <= e < m && #[trigger] i[e] as int / k == x; assert(i[e] as int / k == x); }
        assert(ex[x] <==> hask(i, k, a, m, x));
        if x == v { assert(i[m] as int / k == x); }
    }
    assert forall|x: int| 0 <= x < n implies (#[trigger] ex.update(v, true)[x] <==> lists(b2, s, t + 1, x)) by {
        assert(ex[x] <==> lists(bi, s, t, x));
        if lists(bi, s, t, x) { let q = choose|q: int| s <= q < t && #[trigger] bi[q] == x; assert(b2[q] == x); }
        if x == v { assert(b2[t] == x); }
        if lists(b2, s, t + 1, x) { let q = choose|q: int| s <= q < t + 1 && #[trigger] b2[q] == x; if q < t { assert(bi[q] == x); } }
    }
    assert forall|q: int, r: int| s <= q < r < t + 1 implies #[trigger] b2[q] != #[trigger] b2[r] by { if r == t { assert(bi[q] != v); } else { assert(bi[q] != bi[r]); } }
}
// the marks are taken back one by one
pub open spec fn undone(ex: Seq<bool>, fv: Seq<i32>, r: int) -> bool { forall|x: int| 0 <= x < ex.len() && #[trigger] ex[x] ==> lists(fv, r, fv.len() as int, x) }
