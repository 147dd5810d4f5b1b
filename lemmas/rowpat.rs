//@uses etree
//@uses blocks
// ---- the non-zeros of row k of the factor: i is joined to a neighbour of k through nodes up to i
pub open spec fn fill_by(g: Eg, k: int, i: int, j: int) -> bool { 0 <= j <= i && g(j, k) && econ(g, i + 1, i, j) }
#[verifier::opaque]
pub open spec fn fill(g: Eg, k: int, i: int) -> bool { i < k && exists|j: int| #[trigger] fill_by(g, k, i, j) }
pub open spec fn is_tree(g: Eg, n: int, par: Seq<i32>) -> bool { par.len() >= n && n <= i32::MAX && etree_upto(g, n, par) }
pub proof fn fl_edge(g: Eg, k: int, j: int)
    requires 0 <= j < k, g(j, k),
    ensures fill(g, k, j),
{ reveal(fill); ec_refl(g, j + 1, j); assert(fill_by(g, k, j, j)); }
pub proof fn fl_con(g: Eg, k: int, i: int)
    requires fill(g, k, i),
    ensures econ(g, k + 1, i, k), 0 <= i < k,
{ reveal(fill); let j = choose|j: int| #[trigger] fill_by(g, k, i, j); ec_mono(g, i + 1, k, i, j); ec_join(g, k, i, j); }
// the parent of a non-zero is a non-zero, or the row itself
pub proof fn fl_par(g: Eg, n: int, k: int, par: Seq<i32>, i: int)
    requires is_tree(g, n, par), fill(g, k, i), k < n,
    ensures i < par[i] <= k, par[i] == k || fill(g, k, par[i] as int),
{
    fl_con(g, k, i); assert(par[i] == epar(g, i, n)); ep_is(g, i, n); let q = par[i] as int;
    if q != k { reveal(fill); let j = choose|j: int| #[trigger] fill_by(g, k, i, j); ec_sym(g, q + 1, i, q); ec_mono(g, i + 1, q + 1, i, j); ec_trans(g, q + 1, q, i, j); assert(fill_by(g, k, q, j)); }
}
// following parents from x never skips a node joined to x
pub proof fn par_skip(g: Eg, n: int, par: Seq<i32>, x: int, i: int)
    requires is_tree(g, n, par), 0 <= x < i < n, econ(g, i + 1, x, i),
    ensures x < par[x] <= i, par[x] < i ==> econ(g, i + 1, par[x] as int, i),
{ assert(par[x] == epar(g, x, n)); ep_is(g, x, n); let q = par[x] as int; if q < i { ec_sym(g, q + 1, x, q); ec_mono(g, q + 1, i + 1, q, x); ec_trans(g, i + 1, q, x, i); } }
// ---- marks: exactly the listed nodes and k
pub open spec fn zocc(z: Seq<i32>, x: int) -> bool { exists|a: int| 0 <= a < z.len() && #[trigger] z[a] == x }
#[verifier::opaque]
pub open spec fn mkd(w: Seq<bool>, n: int, k: int, z: Seq<i32>) -> bool { w.len() >= n && forall|x: int| 0 <= x < n ==> #[trigger] w[x] == (x == k || zocc(z, x)) }
#[verifier::opaque]
pub open spec fn unmk(w: Seq<bool>, n: int) -> bool { w.len() >= n && forall|x: int| 0 <= x < n ==> !#[trigger] w[x] }
#[verifier::opaque]
pub open spec fn rp(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, cur: int) -> bool {
    &&& 0 <= k < n && is_tree(g, n, par) && mkd(w, n, k, z) && dist(z) && z.len() <= k
    &&& forall|a: int| 0 <= a < z.len() ==> 0 <= #[trigger] z[a] < k && fill(g, k, z[a] as int)
    &&& forall|a: int| 0 <= a < z.len() ==> { let p = par[#[trigger] z[a] as int]; 0 <= p < n && (p == cur || w[p as int]) }
    &&& cur == -1 || cur == k || 0 <= cur < k && fill(g, k, cur)
}
pub proof fn rp_init(g: Eg, n: int, k: int, par: Seq<i32>, w0: Seq<bool>, w: Seq<bool>, z: Seq<i32>)
    requires 0 <= k < n, is_tree(g, n, par), unmk(w0, n), w =~= w0.update(k, true), z.len() == 0,
    ensures rp(g, n, k, par, w, z, -1),
{ reveal(rp); reveal(mkd); reveal(unmk); assert forall|x: int| 0 <= x < n implies #[trigger] w[x] == (x == k || zocc(z, x)) by { if x != k { assert(!w0[x]); } } }
pub proof fn rp_facts(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, cur: int)
    requires rp(g, n, k, par, w, z, cur),
    ensures 0 <= k < n, w.len() >= n, par.len() >= n, z.len() <= k, dist(z), mkd(w, n, k, z), w[k], forall|a: int| 0 <= a < z.len() ==> 0 <= #[trigger] z[a] < k, cur == -1 || 0 <= cur <= k,
{ reveal(rp); reveal(mkd); }
pub proof fn rp_start(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, c0: int, j: int)
    requires rp(g, n, k, par, w, z, c0), c0 == -1 || 0 <= c0 < n && w[c0], j == k || 0 <= j < k && g(j, k),
    ensures rp(g, n, k, par, w, z, j),
{ reveal(rp); if j != k { fl_edge(g, k, j); } }
pub open spec fn zins(z: Seq<i32>, at: int, x: i32) -> Seq<i32> { z.subrange(0, at).push(x) + z.subrange(at, z.len() as int) }
pub proof fn rp_push(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, cur: i32, at: int)
    requires rp(g, n, k, par, w, z, cur as int), 0 <= cur < n, !w[cur as int], 0 <= at <= z.len(),
    ensures rp(g, n, k, par, w.update(cur as int, true), zins(z, at, cur), par[cur as int] as int), cur < k, cur < par[cur as int] <= k, z.len() + 1 <= k,
{
    rp_facts(g, n, k, par, w, z, cur as int); reveal(rp);
    assert(mkd(w, n, k, z));
    assert(cur < k && fill(g, k, cur as int)) by { reveal(mkd); assert(w[cur as int] == (cur == k || zocc(z, cur as int))); }
    fl_par(g, n, k, par, cur as int);
    let w2 = w.update(cur as int, true); let z2 = zins(z, at, cur);
    assert forall|a: int| 0 <= a < z2.len() implies #[trigger] z2[a] == (if a < at { z[a] } else if a == at { cur } else { z[a - 1] }) by { }
    assert(!zocc(z, cur as int)) by { reveal(mkd); }
    assert forall|x: int| zocc(z2, x) == (x == cur || zocc(z, x)) by {
        if zocc(z2, x) { let a = choose|a: int| 0 <= a < z2.len() && #[trigger] z2[a] == x; if a < at { assert(z[a] == x); } else if a > at { assert(z[a - 1] == x); } }
        if zocc(z, x) { let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; if a < at { assert(z2[a] == x); } else { assert(z2[a + 1] == x); } }
        if x == cur { assert(z2[at] == x); }
    }
    assert(mkd(w2, n, k, z2)) by { reveal(mkd); }
    assert(dist(z2)) by { assert forall|a: int, b: int| 0 <= a < b < z2.len() implies #[trigger] z2[a] != #[trigger] z2[b] by { let a1 = if a < at { a } else { a - 1 }; let b1 = if b < at { b } else { b - 1 }; if a == at { if z[b1] == cur { assert(zocc(z, cur as int)); } } else if b == at { if z[a1] == cur { assert(zocc(z, cur as int)); } } else { assert(z[a1] != z[b1]); } } }
    assert forall|a: int| 0 <= a < z2.len() implies 0 <= #[trigger] z2[a] < k && fill(g, k, z2[a] as int) by { if a < at { assert(0 <= z[a] < k); } else if a > at { assert(0 <= z[a - 1] < k); } }
    dist_len(z2, k);
    assert forall|a: int| 0 <= a < z2.len() implies ({ let p = par[#[trigger] z2[a] as int]; 0 <= p < n && (p == par[cur as int] || w2[p as int]) }) by { if a < at { assert(0 <= z[a] < k); } else if a > at { assert(0 <= z[a - 1] < k); } }
}
// every neighbour seen so far is marked
#[verifier::opaque]
pub open spec fn seen_mk(i: Seq<i32>, k: int, w: Seq<bool>, lo: int, q: int) -> bool { forall|e: int| lo <= e < q && 0 <= #[trigger] i[e] < k ==> w[i[e] as int] }
pub proof fn sm_init(i: Seq<i32>, k: int, w: Seq<bool>, lo: int)
    ensures seen_mk(i, k, w, lo, lo),
{ reveal(seen_mk); }
pub proof fn sm_keep(i: Seq<i32>, k: int, w: Seq<bool>, lo: int, q: int, x: int)
    requires seen_mk(i, k, w, lo, q), 0 <= x < w.len(), k <= w.len(),
    ensures seen_mk(i, k, w.update(x, true), lo, q),
{ reveal(seen_mk); }
pub proof fn sm_step(i: Seq<i32>, k: int, w: Seq<bool>, lo: int, q: int)
    requires seen_mk(i, k, w, lo, q), 0 <= i[q] < k ==> w[i[q] as int],
    ensures seen_mk(i, k, w, lo, q + 1),
{ reveal(seen_mk); }
proof fn rp_reach(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, c: int, x: int, i: int)
    requires rp(g, n, k, par, w, z, c), c == -1 || 0 <= c < n && w[c], 0 <= x <= i < k, w[x], econ(g, i + 1, x, i),
    ensures w[i],
    decreases i - x
{
    if x < i {
        par_skip_of(g, n, k, par, w, z, c, x, i);
        let q = par[x] as int;
        if q < i { rp_reach(g, n, k, par, w, z, c, q, i); }
    }
}
proof fn par_skip_of(g: Eg, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, c: int, x: int, i: int)
    requires rp(g, n, k, par, w, z, c), c == -1 || 0 <= c < n && w[c], 0 <= x < i < k, w[x], econ(g, i + 1, x, i),
    ensures w[par[x] as int], x < par[x] <= i, par[x] < i ==> econ(g, i + 1, par[x] as int, i),
{ reveal(rp); par_skip(g, n, par, x, i); assert(zocc(z, x)) by { reveal(mkd); } let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; assert(z[a] == x); }
pub open spec fn row_of(g: Eg, k: int, z: Seq<i32>) -> bool { dist(z) && (forall|a: int| 0 <= a < z.len() ==> 0 <= #[trigger] z[a] < k && fill(g, k, z[a] as int)) && forall|x: int| #[trigger] fill(g, k, x) ==> zocc(z, x) }
pub proof fn rp_done(p: Seq<i32>, i: Seq<i32>, n: int, k: int, par: Seq<i32>, w: Seq<bool>, z: Seq<i32>, c: int)
    requires ({ let g = eg_low(p, i); rp(g, n, k, par, w, z, c) }), c == -1 || 0 <= c < n && w[c], seen_mk(i, k, w, p[k] as int, p[k + 1] as int),
    ensures row_of(eg_low(p, i), k, z), mkd(w, n, k, z),
{
    let g = eg_low(p, i);
    assert forall|x: int| #[trigger] fill(g, k, x) implies zocc(z, x) by {
        fl_con(g, k, x);
        let j = { reveal(fill); choose|j: int| #[trigger] fill_by(g, k, x, j) };
        assert(fill_by(g, k, x, j)) by { reveal(fill); }
        assert(w[j]) by { reveal(seen_mk); assert(eg_in(p, i, p[k] as int, p[k + 1] as int, j)); let e = choose|e: int| p[k] <= e < p[k + 1] && #[trigger] i[e] == j; assert(0 <= i[e] < k); }
        ec_sym(g, x + 1, x, j); rp_reach(g, n, k, par, w, z, c, j, x);
        reveal(rp); reveal(mkd);
    }
    reveal(rp);
}
// taking the marks away again
pub proof fn mk_pop(w: Seq<bool>, n: int, k: int, z: Seq<i32>)
    requires 0 <= k < n, mkd(w, n, k, z), z.len() > 0, dist(z), forall|a: int| 0 <= a < z.len() ==> 0 <= #[trigger] z[a] < k,
    ensures mkd(w.update(z[0] as int, false), n, k, z.drop_first()), dist(z.drop_first()), w[z[0] as int], 0 <= z[0] < k,
{
    reveal(mkd); assert(0 <= z[0] < k);
    let t = z.drop_first(); let w2 = w.update(z[0] as int, false);
    assert(zocc(z, z[0] as int)) by { assert(z[0] == z[0]); }
    if k < n { assert(w[z[0] as int] == (z[0] == k || zocc(z, z[0] as int))); }
    assert forall|x: int| 0 <= x < n implies #[trigger] w2[x] == (x == k || zocc(t, x)) by {
        assert(w[x] == (x == k || zocc(z, x)));
        if zocc(t, x) { let a = choose|a: int| 0 <= a < t.len() && #[trigger] t[a] == x; assert(z[a + 1] == x); assert(z[0] != z[a + 1]); }
        if zocc(z, x) && x != z[0] { let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; assert(t[a - 1] == x); }
    }
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by { assert(z[a + 1] != z[b + 1]); }
}
pub proof fn mk_last(w: Seq<bool>, n: int, k: int, z: Seq<i32>)
    requires mkd(w, n, k, z), z.len() == 0, 0 <= k < n,
    ensures unmk(w.update(k, false), n),
{ reveal(mkd); reveal(unmk); let w2 = w.update(k, false); assert forall|x: int| 0 <= x < n implies !#[trigger] w2[x] by { assert(w[x] == (x == k || zocc(z, x))); } }
// the list is held at both ends of the work array
pub open spec fn ends(s: Seq<i32>, len: int, top: int, e: int) -> Seq<i32> { s.subrange(0, len) + s.subrange(top, e) }
pub proof fn ends_push(s: Seq<i32>, len: int, top: int, e: int, x: i32)
    requires 0 <= len < top <= e <= s.len(),
    ensures ends(s.update(len, x), len + 1, top, e) =~= zins(ends(s, len, top, e), len, x),
{ }
pub proof fn ends_move(s: Seq<i32>, len: int, top: int, e: int)
    requires 0 < len <= top <= e <= s.len(),
    ensures ends(s.update(top - 1, s[len - 1]), len - 1, top - 1, e) =~= ends(s, len, top, e),
{ }
// ---- marks kept as flipped numbers
pub open spec fn neg(w: Seq<i32>) -> Seq<bool> { Seq::new(w.len(), |x: int| w[x] < 0) }
#[verifier::opaque]
pub open spec fn flp(w0: Seq<i32>, w: Seq<i32>, n: int) -> bool { w.len() == w0.len() && w.len() >= n && (forall|x: int| 0 <= x < n ==> 0 <= #[trigger] w0[x] < i32::MAX - 1) && forall|x: int| 0 <= x < w.len() ==> #[trigger] w[x] == (if x < n && w[x] < 0 { -w0[x] - 2 } else { w0[x] as int }) }
#[verifier::opaque]
pub open spec fn plain(w: Seq<i32>, n: int) -> bool { w.len() >= n && forall|x: int| 0 <= x < n ==> 0 <= #[trigger] w[x] < i32::MAX - 1 }
pub proof fn flp_init(w: Seq<i32>, n: int)
    requires plain(w, n),
    ensures flp(w, w, n), unmk(neg(w), n), neg(w).len() == w.len(), w.len() >= n,
{ reveal(plain); reveal(flp); reveal(unmk); let b = neg(w); assert forall|x: int| 0 <= x < n implies !#[trigger] b[x] by { assert(0 <= w[x]); } }
pub proof fn flp_set(w0: Seq<i32>, w: Seq<i32>, n: int, x: int)
    requires flp(w0, w, n), 0 <= x < n,
    ensures ({ let v = (0 - w[x] - 2) as i32; i32::MIN <= 0 - w[x] && 0 - w[x] <= i32::MAX && i32::MIN <= 0 - w[x] - 2 && 0 - w[x] - 2 <= i32::MAX && flp(w0, w.update(x, v), n) && neg(w.update(x, v)) =~= neg(w).update(x, !neg(w)[x]) && x < w.len() }),
{ reveal(flp); assert(0 <= w0[x] < i32::MAX - 1); assert(w[x] == w0[x] || w[x] == -w0[x] - 2); let v = (0 - w[x] - 2) as i32; let w2 = w.update(x, v); assert forall|y: int| 0 <= y < w2.len() implies #[trigger] w2[y] == (if y < n && w2[y] < 0 { -w0[y] - 2 } else { w0[y] as int }) by { if y != x { assert(w2[y] == w[y]); } } }
pub proof fn flp_done(w0: Seq<i32>, w: Seq<i32>, n: int)
    requires flp(w0, w, n), unmk(neg(w), n),
    ensures w =~= w0,
{ reveal(flp); reveal(unmk); assert forall|x: int| 0 <= x < w.len() implies #[trigger] w[x] == w0[x] by { if x < n { assert(!neg(w)[x]); } } }
