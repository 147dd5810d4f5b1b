//@uses graph
// ---- graphs given by their edges: g(u, v) with u < v
pub type Eg = spec_fn(int, int) -> bool;
pub open spec fn enb(g: Eg, u: int, v: int) -> bool { u < v && g(u, v) || v < u && g(v, u) }
pub open spec fn estep(g: Eg, s: Seq<int>, x: int) -> bool { enb(g, s[x], s[x + 1]) }
// a walk that stays below k
pub open spec fn ewalk(g: Eg, k: int, s: Seq<int>) -> bool { s.len() >= 1 && (forall|x: int| 0 <= x < s.len() ==> 0 <= #[trigger] s[x] < k) && forall|x: int| 0 <= x < s.len() - 1 ==> #[trigger] estep(g, s, x) }
pub open spec fn ewalk_ab(g: Eg, k: int, a: int, b: int, s: Seq<int>) -> bool { ewalk(g, k, s) && s[0] == a && s.last() == b }
// a and b are joined by a walk through nodes below k only
#[verifier::opaque]
pub open spec fn econ(g: Eg, k: int, a: int, b: int) -> bool { exists|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s) }
pub proof fn ec_in(g: Eg, k: int, a: int, b: int)
    requires econ(g, k, a, b),
    ensures 0 <= a < k, 0 <= b < k,
{ reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s); assert(0 <= s[0] < k); assert(0 <= s[s.len() - 1] < k); }
pub proof fn ec_refl(g: Eg, k: int, a: int)
    requires 0 <= a < k,
    ensures econ(g, k, a, a),
{ reveal(econ); let s = Seq::<int>::empty().push(a); assert(ewalk_ab(g, k, a, a, s)); }
pub proof fn ec_edge(g: Eg, k: int, a: int, b: int)
    requires 0 <= a < k, 0 <= b < k, enb(g, a, b),
    ensures econ(g, k, a, b),
{ reveal(econ); let s = Seq::<int>::empty().push(a).push(b); assert forall|x: int| 0 <= x < s.len() - 1 implies #[trigger] estep(g, s, x) by { assert(x == 0); } assert(ewalk_ab(g, k, a, b, s)); }
pub proof fn ec_mono(g: Eg, k: int, l: int, a: int, b: int)
    requires econ(g, k, a, b), k <= l,
    ensures econ(g, l, a, b),
{ reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s); assert(ewalk(g, l, s)) by { assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < l by { assert(s[x] < k); } } assert(ewalk_ab(g, l, a, b, s)); }
pub proof fn ec_sym(g: Eg, k: int, a: int, b: int)
    requires econ(g, k, a, b),
    ensures econ(g, k, b, a),
{
    reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s); let n = s.len() as int; let t = Seq::new(s.len(), |x: int| s[n - 1 - x]);
    assert forall|x: int| 0 <= x < t.len() - 1 implies #[trigger] estep(g, t, x) by { assert(estep(g, s, n - 2 - x)); }
    assert(ewalk_ab(g, k, b, a, t));
}
pub proof fn ec_trans(g: Eg, k: int, a: int, b: int, c: int)
    requires econ(g, k, a, b), econ(g, k, b, c),
    ensures econ(g, k, a, c),
{
    reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s); let t = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, b, c, s);
    let u = s + t.subrange(1, t.len() as int); let m = s.len() as int;
    assert forall|x: int| 0 <= x < u.len() implies 0 <= #[trigger] u[x] < k by { if x < m { assert(u[x] == s[x]); } else { assert(u[x] == t[x - m + 1]); } }
    assert forall|x: int| 0 <= x < u.len() - 1 implies #[trigger] estep(g, u, x) by { if x + 1 < m { assert(estep(g, s, x)); } else { assert(estep(g, t, x - m + 1)); assert(u[x] == t[x - m + 1]) by { if x == m - 1 { assert(s[m - 1] == t[0]); } } assert(u[x + 1] == t[x - m + 2]); } }
    assert(u.last() == c) by { if t.len() == 1 { assert(u =~= s); } else { assert(u[u.len() - 1] == t[t.len() - 1]); } }
    assert(ewalk_ab(g, k, a, c, u));
}
pub open spec fn elast(g: Eg, k: int, i: int, j: int) -> bool { 0 <= j < k && g(j, k) && econ(g, k, i, j) }
// reaching k from below: through a neighbour of k reached below k
pub proof fn ec_last(g: Eg, k: int, i: int) -> (j: int)
    requires econ(g, k + 1, i, k), i < k,
    ensures elast(g, k, i, j),
{ reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k + 1, i, k, s); ec_last_rec(g, k, s) }
proof fn ec_last_rec(g: Eg, k: int, s: Seq<int>) -> (j: int)
    requires ewalk(g, k + 1, s), s[0] < k, s.last() == k,
    ensures elast(g, k, s[0], j),
    decreases s.len()
{
    if s.len() == 1 { assert(s[0] == s.last()); }
    assert(estep(g, s, 0)); assert(0 <= s[0] < k + 1);
    if s[1] == k { ec_refl(g, k, s[0]); s[0] }
    else {
        assert(0 <= s[1] < k + 1); let t = s.subrange(1, s.len() as int);
        assert forall|x: int| 0 <= x < t.len() - 1 implies #[trigger] estep(g, t, x) by { assert(estep(g, s, x + 1)); }
        assert(t.last() == s.last()); let j = ec_last_rec(g, k, t); ec_edge(g, k, s[0], s[1]); ec_trans(g, k, s[0], s[1], j); j
    }
}
pub proof fn ec_join(g: Eg, k: int, i: int, j: int)
    requires elast(g, k, i, j),
    ensures econ(g, k + 1, i, k),
{ ec_mono(g, k, k + 1, i, j); ec_edge(g, k + 1, j, k); ec_trans(g, k + 1, i, j, k); }
// the largest node of a walk is reached through smaller ones
pub proof fn ec_max(g: Eg, k: int, a: int, b: int) -> (m: int)
    requires econ(g, k, a, b), a < b,
    ensures a < m < k, econ(g, m + 1, a, m),
    decreases k - b
{
    ec_in(g, k, a, b);
    if k == b + 1 { b }
    else if econ(g, k - 1, a, b) { ec_max(g, k - 1, a, b) }
    else {
        reveal(econ); let s = choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s);
        if exists|x: int| 0 <= x < s.len() && s[x] == k - 1 {
            let x = choose|x: int| 0 <= x < s.len() && s[x] == k - 1; let t = s.subrange(0, x + 1);
            assert forall|y: int| 0 <= y < t.len() - 1 implies #[trigger] estep(g, t, y) by { assert(estep(g, s, y)); }
            assert(ewalk_ab(g, k, a, k - 1, t)); k - 1
        } else {
            assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < k - 1 by { }
            assert(ewalk_ab(g, k - 1, a, b, s)); b
        }
    }
}
// ---- the elimination tree: the least later node below k joined to i through nodes up to itself
pub open spec fn epar(g: Eg, i: int, k: int) -> int
    decreases k - i
{ if k <= i + 1 { -1 } else { let r = epar(g, i, k - 1); if r != -1 { r } else if econ(g, k, i, k - 1) { k - 1 } else { -1 } } }
pub proof fn ep_is(g: Eg, i: int, k: int)
    requires 0 <= i,
    ensures ({ let r = epar(g, i, k); if r == -1 { forall|m: int| i < m < k ==> !#[trigger] econ(g, m + 1, i, m) } else { i < r < k && econ(g, r + 1, i, r) && forall|m: int| i < m < r ==> !#[trigger] econ(g, m + 1, i, m) } }), epar(g, i, k) >= -1,
    decreases k - i
{ if k > i + 1 { ep_is(g, i, k - 1); } }
// two nodes without a parent are never joined
pub proof fn ep_roots(g: Eg, k: int, a: int, b: int)
    requires econ(g, k, a, b), epar(g, a, k) == -1, epar(g, b, k) == -1,
    ensures a == b,
{ ec_in(g, k, a, b); ep_is(g, a, k); ep_is(g, b, k); if a < b { let m = ec_max(g, k, a, b); assert(econ(g, m + 1, a, m)); } if b < a { ec_sym(g, k, a, b); let m = ec_max(g, k, b, a); assert(econ(g, m + 1, b, m)); } }
// what the tree is after the first k nodes
pub open spec fn etree_upto(g: Eg, k: int, par: Seq<i32>) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] par[i] == epar(g, i, k) }
pub open spec fn anc_in(g: Eg, k: int, i: int, a: int) -> bool { if epar(g, i, k) == -1 { a == -1 } else { i < a < k && econ(g, a + 1, i, a) } }
#[verifier::opaque]
pub open spec fn et_ok(g: Eg, n: int, k: int, par: Seq<i32>, anc: Seq<i32>) -> bool {
    0 <= k <= n && n <= i32::MAX && par.len() >= n && anc.len() >= n && (forall|i: int| 0 <= i < k ==> #[trigger] par[i] == epar(g, i, k)) && (forall|i: int| 0 <= i < k ==> anc_in(g, k, i, #[trigger] anc[i] as int))
}
// while node k is being joined: marks are the ancestors set to k; every marked node's old ancestor is marked too, except the one about to be
pub open spec fn et_node(g: Eg, k: int, a0: Seq<i32>, i: int, pi: i32, ai: i32, cur: int) -> bool {
    &&& ai == a0[i] || ai == k && econ(g, k + 1, i, k)
    &&& pi == (if epar(g, i, k) != -1 { epar(g, i, k) } else if ai == k { k } else { -1 })
}
pub open spec fn et_up(k: int, a0: Seq<i32>, anc: Seq<i32>, i: int, cur: int) -> bool { anc[i] == k ==> a0[i] == -1 || anc[a0[i] as int] == k || a0[i] == cur }
#[verifier::opaque]
pub open spec fn et_mid(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, cur: int) -> bool {
    &&& 0 <= k < n && n <= i32::MAX && par.len() >= n && anc.len() >= n && a0.len() >= n && par[k] == -1 && anc[k] == -1
    &&& forall|i: int| 0 <= i < k ==> anc_in(g, k, i, #[trigger] a0[i] as int)
    &&& forall|i: int| 0 <= i < k ==> et_node(g, k, a0, i, #[trigger] par[i], anc[i], cur)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] et_up(k, a0, anc, i, cur)
    &&& 0 <= cur < k ==> econ(g, k + 1, cur, k)
}
pub proof fn et_init(g: Eg, n: int, par: Seq<i32>, anc: Seq<i32>)
    requires 0 <= n <= i32::MAX, par.len() >= n, anc.len() >= n,
    ensures et_ok(g, n, 0, par, anc),
{ reveal(et_ok); }
pub proof fn et_open(g: Eg, n: int, k: int, p0: Seq<i32>, a0: Seq<i32>)
    requires et_ok(g, n, k, p0, a0), 0 <= k < n,
    ensures et_mid(g, n, k, a0.update(k, -1i32), p0.update(k, -1i32), a0.update(k, -1i32), -1), p0.len() >= n, a0.len() >= n,
{ reveal(et_ok); reveal(et_mid); let a = a0.update(k, -1i32); let p = p0.update(k, -1i32);
  assert forall|i: int| 0 <= i < k implies anc_in(g, k, i, #[trigger] a[i] as int) by { assert(anc_in(g, k, i, a0[i] as int)); }
  assert forall|i: int| 0 <= i < k implies et_node(g, k, a, i, #[trigger] p[i], a[i], -1) by { assert(p0[i] == epar(g, i, k)); assert(anc_in(g, k, i, a0[i] as int)); }
  assert forall|i: int| 0 <= i < k implies #[trigger] et_up(k, a, a, i, -1) by { assert(anc_in(g, k, i, a0[i] as int)); } }
// a walk starts at a neighbour j of k
pub proof fn et_start(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c0: int, j: int)
    requires et_mid(g, n, k, a0, par, anc, c0), c0 == -1 || c0 >= k, 0 <= j < k, g(j, k),
    ensures et_mid(g, n, k, a0, par, anc, j),
{ reveal(et_mid); ec_edge(g, k + 1, j, k); assert forall|i: int| 0 <= i < k implies #[trigger] et_up(k, a0, anc, i, j) by { assert(et_up(k, a0, anc, i, c0)); et_nok(g, n, k, a0, par, anc, c0, i); } assert forall|i: int| 0 <= i < k implies et_node(g, k, a0, i, #[trigger] par[i], anc[i], j) by { assert(et_node(g, k, a0, i, par[i], anc[i], c0)); } }
proof fn et_nok(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int, i: int)
    requires et_mid(g, n, k, a0, par, anc, c), 0 <= i < k,
    ensures a0[i] < k,
{ reveal(et_mid); assert(anc_in(g, k, i, a0[i] as int)); }
// one step of the walk
pub proof fn et_step(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, i: int, kk: i32)
    requires et_mid(g, n, k, a0, par, anc, i), 0 <= i < k, kk == k,
    ensures ({ let nx = anc[i]; let a2 = anc.update(i, kk); let p2 = if nx == -1 { par.update(i, kk) } else { par }; (nx == -1 || i < nx <= k) && i < anc.len() && i < par.len() && et_mid(g, n, k, a0, p2, a2, nx as int) && a2[i] == k && (nx == k ==> et_mid(g, n, k, a0, par, anc, k)) }),
{
    reveal(et_mid); let nx = anc[i]; let a2 = anc.update(i, kk); let p2 = if nx == -1 { par.update(i, kk) } else { par };
    assert(anc_in(g, k, i, a0[i] as int)); assert(et_node(g, k, a0, i, par[i], anc[i], i)); assert(et_up(k, a0, anc, i, i));
    if 0 <= nx < k { ec_mono(g, nx + 1, k + 1, i, nx as int); ec_sym(g, k + 1, i, nx as int); ec_trans(g, k + 1, nx as int, i, k); }
    assert forall|x: int| 0 <= x < k implies et_node(g, k, a0, x, #[trigger] p2[x], a2[x], nx as int) by { assert(et_node(g, k, a0, x, par[x], anc[x], i)); }
    assert forall|x: int| 0 <= x < k implies #[trigger] et_up(k, a0, a2, x, nx as int) by { assert(et_up(k, a0, anc, x, i)); assert(anc_in(g, k, x, a0[x] as int)); assert(et_node(g, k, a0, x, par[x], anc[x], i)); if x != i && a2[x] == k { } }
    if nx == k { assert forall|x: int| 0 <= x < k implies #[trigger] et_up(k, a0, anc, x, k) by { assert(et_up(k, a0, anc, x, i)); } assert forall|x: int| 0 <= x < k implies et_node(g, k, a0, x, #[trigger] par[x], anc[x], k) by { assert(et_node(g, k, a0, x, par[x], anc[x], i)); } }
}
// neighbours of k among the first ones seen are marked
pub proof fn et_chain(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int, i: int, j: int)
    requires et_mid(g, n, k, a0, par, anc, c), c == -1 || c >= k, 0 <= j < k, anc[j] == k, econ(g, k, i, j), epar(g, i, k) == -1,
    ensures anc[i] == k,
    decreases k - j
{
    reveal(et_mid); assert(anc_in(g, k, j, a0[j] as int)); assert(et_up(k, a0, anc, j, c));
    if a0[j] == -1 { ep_roots(g, k, i, j); }
    else { let a = a0[j] as int; ec_mono(g, a + 1, k, j, a); ec_trans(g, k, i, j, a); et_chain(g, n, k, a0, par, anc, c, i, a); }
}
pub open spec fn marked_upto(g: Eg, k: int, anc: Seq<i32>) -> bool { forall|j: int| 0 <= j < k && #[trigger] g(j, k) ==> anc[j] == k }
pub proof fn et_close(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int)
    requires et_mid(g, n, k, a0, par, anc, c), c == -1 || c >= k, marked_upto(g, k, anc),
    ensures et_ok(g, n, k + 1, par, anc),
{
    assert forall|i: int| 0 <= i < k implies #[trigger] par[i] == epar(g, i, k + 1) && anc_in(g, k + 1, i, anc[i] as int) by {
        assert(anc_in(g, k, i, a0[i] as int) && et_node(g, k, a0, i, par[i], anc[i], c)) by { reveal(et_mid); }
        if epar(g, i, k) == -1 {
            if econ(g, k + 1, i, k) { let j = ec_last(g, k, i); assert(g(j, k)); et_chain(g, n, k, a0, par, anc, c, i, j); }
        }
    }
    reveal(et_mid); reveal(et_ok);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] par[i] == epar(g, i, k + 1) by { if i < k { assert(par[i] == epar(g, i, k + 1)); } }
    assert forall|i: int| 0 <= i < k + 1 implies anc_in(g, k + 1, i, #[trigger] anc[i] as int) by { if i < k { assert(par[i] == epar(g, i, k + 1)); } }
}
pub proof fn et_done(g: Eg, n: int, par: Seq<i32>, anc: Seq<i32>)
    requires et_ok(g, n, n, par, anc),
    ensures etree_upto(g, n, par), forall|i: int| 0 <= i < n ==> #[trigger] par[i] == -1 || i < par[i] < n,
{ reveal(et_ok); assert forall|i: int| 0 <= i < n implies #[trigger] par[i] == -1 || i < par[i] < n by { assert(par[i] == epar(g, i, n)); ep_is(g, i, n); } }
pub proof fn et_len(g: Eg, n: int, k: int, par: Seq<i32>, anc: Seq<i32>)
    requires et_ok(g, n, k, par, anc),
    ensures par.len() >= n, anc.len() >= n, 0 <= k <= n,
{ reveal(et_ok); }
// ---- the edges stored in the rows (or columns) of a compressed matrix: those left of the diagonal
pub open spec fn eg_in(p: Seq<i32>, i: Seq<i32>, lo: int, hi: int, u: int) -> bool { exists|e: int| lo <= e < hi && #[trigger] i[e] == u }
pub open spec fn eg_low(p: Seq<i32>, i: Seq<i32>) -> Eg { |u: int, v: int| 0 <= u < v && eg_in(p, i, p[v] as int, p[v + 1] as int, u) }
#[verifier::opaque]
pub open spec fn seen_low(i: Seq<i32>, k: int, anc: Seq<i32>, lo: int, q: int) -> bool { forall|e: int| lo <= e < q && 0 <= #[trigger] i[e] < k ==> anc[i[e] as int] == k }
pub proof fn sl_init(i: Seq<i32>, k: int, anc: Seq<i32>, lo: int)
    ensures seen_low(i, k, anc, lo, lo),
{ reveal(seen_low); }
pub proof fn sl_keep(i: Seq<i32>, k: int, anc: Seq<i32>, lo: int, q: int, x: int, kk: i32)
    requires seen_low(i, k, anc, lo, q), kk == k, 0 <= x < anc.len(), k <= anc.len(),
    ensures seen_low(i, k, anc.update(x, kk), lo, q),
{ reveal(seen_low); let a2 = anc.update(x, kk); assert forall|e: int| lo <= e < q && 0 <= #[trigger] i[e] < k implies a2[i[e] as int] == k by { assert(anc[i[e] as int] == k); } }
pub proof fn sl_step(i: Seq<i32>, k: int, anc: Seq<i32>, lo: int, q: int)
    requires seen_low(i, k, anc, lo, q), 0 <= i[q] < k ==> anc[i[q] as int] == k,
    ensures seen_low(i, k, anc, lo, q + 1),
{ reveal(seen_low); }
pub proof fn sl_done(p: Seq<i32>, i: Seq<i32>, k: int, anc: Seq<i32>)
    requires seen_low(i, k, anc, p[k] as int, p[k + 1] as int), 0 <= k,
    ensures marked_upto(eg_low(p, i), k, anc),
{ reveal(seen_low); let g = eg_low(p, i); assert forall|j: int| 0 <= j < k && #[trigger] g(j, k) implies anc[j] == k by { let e = choose|e: int| p[k] <= e < p[k + 1] && #[trigger] i[e] == j; assert(0 <= i[e] < k); } }
pub proof fn et_cur(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int, c2: int)
    requires et_mid(g, n, k, a0, par, anc, c), c == -1 || c >= k, c2 == -1 || c2 >= k,
    ensures et_mid(g, n, k, a0, par, anc, c2),
{ reveal(et_mid); assert forall|i: int| 0 <= i < k implies #[trigger] et_up(k, a0, anc, i, c2) by { assert(et_up(k, a0, anc, i, c)); et_nok(g, n, k, a0, par, anc, c, i); } assert forall|i: int| 0 <= i < k implies et_node(g, k, a0, i, #[trigger] par[i], anc[i], c2) by { assert(et_node(g, k, a0, i, par[i], anc[i], c)); } }
// ---- one walk towards the root, for any graph
#[verifier::opaque]
pub open spec fn et_ord(anc: Seq<i32>, i: int) -> bool { 0 <= i && i < anc.len() && forall|x: int| 0 <= x < i ==> #[trigger] anc[x] == -1 || x < anc[x] <= i }
pub proof fn eo_mid(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int)
    requires et_mid(g, n, k, a0, par, anc, c),
    ensures et_ord(anc, k), par.len() >= n, anc.len() >= n, k < n,
{ reveal(et_mid); reveal(et_ord); assert forall|x: int| 0 <= x < k implies #[trigger] anc[x] == -1 || x < anc[x] <= k by { assert(et_node(g, k, a0, x, par[x], anc[x], c)); assert(anc_in(g, k, x, a0[x] as int)); } }
pub proof fn eo_at(anc: Seq<i32>, i: int, x: int)
    requires et_ord(anc, i), 0 <= x < i,
    ensures anc[x] == -1 || x < anc[x] <= i, x < anc.len(), i < anc.len(),
{ reveal(et_ord); }
pub proof fn eo_set(anc: Seq<i32>, i: int, x: int, v: i32)
    requires et_ord(anc, i), 0 <= x < i, v == i,
    ensures et_ord(anc.update(x, v), i),
{ reveal(et_ord); }
// the two tables p, a come from p0, a0 by a walk that has reached c
#[verifier::opaque]
pub open spec fn et_same(i: int, x0: Seq<i32>, x: Seq<i32>) -> bool { x.len() == x0.len() && forall|y: int| i <= y < x.len() ==> #[trigger] x[y] == x0[y] }
#[verifier::opaque]
pub open spec fn et_walked(i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, p: Seq<i32>, a: Seq<i32>, c: int) -> bool { forall|g: Eg, n: int, b: Seq<i32>| #[trigger] et_mid(g, n, i, b, p0, a0, k0) ==> et_mid(g, n, i, b, p, a, c) }
pub open spec fn et_moved(i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, p: Seq<i32>, a: Seq<i32>) -> bool { et_walked(i, k0, p0, a0, p, a, -1) && et_ord(a, i) && et_same(i, a0, a) && et_same(i, p0, p) && p.len() == p0.len() && a.len() == a0.len() && 0 <= k0 < a.len() && a[k0] == i && seen_kept(i, a0, a) }
// what was marked stays marked
#[verifier::opaque]
pub open spec fn seen_kept(i: int, a0: Seq<i32>, a: Seq<i32>) -> bool { forall|x: int| 0 <= x < a0.len() && #[trigger] a0[x] == i ==> a[x] == i }
pub proof fn ew_init(i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>)
    ensures et_walked(i, k0, p0, a0, p0, a0, k0), et_same(i, p0, p0), et_same(i, a0, a0), seen_kept(i, a0, a0),
{ reveal(et_walked); reveal(et_same); reveal(seen_kept); }
pub proof fn ew_step(i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, p: Seq<i32>, a: Seq<i32>, c: int, ii: i32)
    requires et_walked(i, k0, p0, a0, p, a, c), ii == i, 0 <= c < i, et_ord(a, i), et_same(i, a0, a), et_same(i, p0, p), i < p.len(), seen_kept(i, a0, a),
    ensures ({ let nx = a[c]; let a2 = a.update(c, ii); let p2 = if nx == -1 { p.update(c, ii) } else { p }; et_walked(i, k0, p0, a0, p2, a2, nx as int) && et_ord(a2, i) && et_same(i, a0, a2) && et_same(i, p0, p2) && seen_kept(i, a0, a2) && (nx == -1 || c < nx <= i) && (nx == i ==> et_walked(i, k0, p0, a0, p, a, -1)) }),
{
    eo_at(a, i, c); eo_set(a, i, c, ii);
    let nx = a[c]; let a2 = a.update(c, ii); let p2 = if nx == -1 { p.update(c, ii) } else { p };
    assert(et_walked(i, k0, p0, a0, p2, a2, nx as int) && (nx == i ==> et_walked(i, k0, p0, a0, p, a, -1))) by {
        reveal(et_walked);
        assert forall|g: Eg, n: int, b: Seq<i32>| #[trigger] et_mid(g, n, i, b, p0, a0, k0) implies et_mid(g, n, i, b, p2, a2, nx as int) && (nx == i ==> et_mid(g, n, i, b, p, a, -1)) by { assert(et_mid(g, n, i, b, p, a, c)); et_step(g, n, i, b, p, a, c, ii); if nx == i { et_cur(g, n, i, b, p, a, i, -1); } }
    }
    reveal(et_same); reveal(seen_kept);
}
pub proof fn ew_use(g: Eg, n: int, b: Seq<i32>, i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, p: Seq<i32>, a: Seq<i32>)
    requires et_moved(i, k0, p0, a0, p, a), et_mid(g, n, i, b, p0, a0, k0),
    ensures et_mid(g, n, i, b, p, a, -1), a[k0] == i, p.len() == p0.len(), a.len() == a0.len(),
{ reveal(et_walked); }
pub proof fn ew_seen(si: Seq<i32>, lo: int, q: int, i: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, p: Seq<i32>, a: Seq<i32>)
    requires et_moved(i, k0, p0, a0, p, a), seen_low(si, i, a0, lo, q), i <= a0.len(),
    ensures seen_low(si, i, a, lo, q),
{ reveal(seen_low); reveal(seen_kept); assert forall|e: int| lo <= e < q && 0 <= #[trigger] si[e] < i implies a[si[e] as int] == i by { assert(a0[si[e] as int] == i); } }
pub proof fn ew_same(i: int, x0: Seq<i32>, x: Seq<i32>, y: int)
    requires et_same(i, x0, x), i <= y < x.len(),
    ensures x[y] == x0[y],
{ reveal(et_same); }
// ---- the tree as a list of rows: the node, then its parent when there is one
pub open spec fn tl_row(par: Seq<i32>, i: int, tp: Seq<i32>, ts: Seq<i32>, end: int) -> bool { 0 <= tp[i] < end && end <= ts.len() && ts[tp[i] as int] == i && (if par[i] == -1 { end == tp[i] + 1 } else { end == tp[i] + 2 && ts[tp[i] + 1] == par[i] }) }
#[verifier::opaque]
pub open spec fn tl_upto(par: Seq<i32>, k: int, tp: Seq<i32>, ts: Seq<i32>) -> bool { tp.len() == k && (k == 0 ==> ts.len() == 0) && (k > 0 ==> tp[0] == 0) && forall|i: int| 0 <= i < k ==> tl_row(par, i, tp, ts, #[trigger] tl_end(tp, ts, k, i)) }
pub open spec fn tl_end(tp: Seq<i32>, ts: Seq<i32>, k: int, i: int) -> int { if i + 1 < k { tp[i + 1] as int } else { ts.len() as int } }
pub open spec fn tl_at(par: Seq<i32>, i: int, tp: Seq<i32>, ts: Seq<i32>) -> bool { tl_row(par, i, tp, ts, tp[i + 1] as int) }
#[verifier::opaque]
pub open spec fn tree_list(par: Seq<i32>, n: int, tp: Seq<i32>, ts: Seq<i32>) -> bool { tp.len() == n + 1 && tp[0] == 0 && tp[n] == ts.len() && forall|i: int| 0 <= i < n ==> #[trigger] tl_at(par, i, tp, ts) }
pub proof fn tl_init(par: Seq<i32>, tp: Seq<i32>, ts: Seq<i32>)
    requires tp.len() == 0, ts.len() == 0,
    ensures tl_upto(par, 0, tp, ts),
{ reveal(tl_upto); }
pub proof fn tl_step(par: Seq<i32>, k: int, tp: Seq<i32>, ts: Seq<i32>, tp2: Seq<i32>, ts2: Seq<i32>, e: i32)
    requires tl_upto(par, k, tp, ts), 0 <= k <= i32::MAX, e == ts.len(), tp2 =~= tp.push(e), ts2 =~= (if par[k] == -1 { ts.push(k as i32) } else { ts.push(k as i32).push(par[k]) }),
    ensures tl_upto(par, k + 1, tp2, ts2),
{ reveal(tl_upto); assert forall|i: int| 0 <= i < k + 1 implies tl_row(par, i, tp2, ts2, #[trigger] tl_end(tp2, ts2, k + 1, i)) by { if i < k { assert(tl_row(par, i, tp, ts, tl_end(tp, ts, k, i))); assert(tl_end(tp2, ts2, k + 1, i) == tl_end(tp, ts, k, i)); } } }
pub proof fn tl_close(par: Seq<i32>, n: int, tp2: Seq<i32>, ts: Seq<i32>)
    requires tp2.len() == n + 1, n >= 0, tl_upto(par, n, tp2.drop_last(), ts), tp2.last() == ts.len(),
    ensures tree_list(par, n, tp2, ts),
{ reveal(tl_upto); reveal(tree_list); let tp = tp2.drop_last(); assert forall|i: int| 0 <= i < n implies #[trigger] tl_at(par, i, tp2, ts) by { assert(tl_row(par, i, tp, ts, tl_end(tp, ts, n, i))); } }
// ---- two graphs with the same joined nodes have the same tree
pub open spec fn e_within(g: Eg, h: Eg, k: int) -> bool { forall|u: int, v: int| 0 <= u < v && v < k && #[trigger] g(u, v) ==> econ(h, k, u, v) }
proof fn ec_map_rec(g: Eg, h: Eg, k: int, s: Seq<int>)
    requires e_within(g, h, k), ewalk(g, k, s),
    ensures econ(h, k, s[0], s.last()),
    decreases s.len()
{
    assert(0 <= s[0] < k);
    if s.len() == 1 { ec_refl(h, k, s[0]); }
    else {
        assert(estep(g, s, 0)); assert(0 <= s[1] < k); let t = s.subrange(1, s.len() as int);
        assert forall|x: int| 0 <= x < t.len() - 1 implies #[trigger] estep(g, t, x) by { assert(estep(g, s, x + 1)); }
        assert(t.last() == s.last()); ec_map_rec(g, h, k, t);
        if s[0] < s[1] { assert(g(s[0], s[1])); } else { assert(g(s[1], s[0])); ec_sym(h, k, s[1], s[0]); }
        ec_trans(h, k, s[0], s[1], s.last());
    }
}
pub proof fn ec_map(g: Eg, h: Eg, k: int, a: int, b: int)
    requires e_within(g, h, k), econ(g, k, a, b),
    ensures econ(h, k, a, b),
{ let s = { reveal(econ); choose|s: Seq<int>| #[trigger] ewalk_ab(g, k, a, b, s) }; assert(ewalk_ab(g, k, a, b, s)) by { reveal(econ); } ec_map_rec(g, h, k, s); }
pub open spec fn e_same(g: Eg, h: Eg, n: int) -> bool { forall|k: int| 0 <= k <= n ==> #[trigger] e_within(g, h, k) && e_within(h, g, k) }
pub proof fn ep_same(g: Eg, h: Eg, n: int, i: int, k: int)
    requires e_same(g, h, n), k <= n, 0 <= i,
    ensures epar(g, i, k) == epar(h, i, k),
    decreases k - i
{ if k > i + 1 { ep_same(g, h, n, i, k - 1); assert(e_within(g, h, k)); assert(e_within(h, g, k)); if econ(g, k, i, k - 1) { ec_map(g, h, k, i, k - 1); } if econ(h, k, i, k - 1) { ec_map(h, g, k, i, k - 1); } } }
pub proof fn et_same_tree(g: Eg, h: Eg, n: int, par: Seq<i32>)
    requires e_same(g, h, n), etree_upto(g, n, par),
    ensures etree_upto(h, n, par),
{ assert forall|i: int| 0 <= i < n implies #[trigger] par[i] == epar(h, i, n) by { ep_same(g, h, n, i, n); } }
// ---- A'A: columns sharing a row; and the paths through each row that the code follows
pub open spec fn eg_share(p: Seq<i32>, i: Seq<i32>) -> Eg { |u: int, v: int| 0 <= u < v && exists|f: int| p[v] <= f < p[v + 1] && eg_in(p, i, p[u] as int, p[u + 1] as int, #[trigger] i[f] as int) }
pub open spec fn lastcol(p: Seq<i32>, i: Seq<i32>, r: int, v: int) -> int
    decreases v
{ if v <= 0 { -1 } else if eg_in(p, i, p[v - 1] as int, p[v] as int, r) { v - 1 } else { lastcol(p, i, r, v - 1) } }
pub open spec fn eg_path(p: Seq<i32>, i: Seq<i32>) -> Eg { |u: int, v: int| 0 <= u < v && exists|f: int| p[v] <= f < p[v + 1] && lastcol(p, i, #[trigger] i[f] as int, v) == u }
pub proof fn lc_is(p: Seq<i32>, i: Seq<i32>, r: int, v: int)
    requires 0 <= v,
    ensures ({ let l = lastcol(p, i, r, v); -1 <= l < v && (l >= 0 ==> eg_in(p, i, p[l] as int, p[l + 1] as int, r)) && forall|u: int| l < u < v && 0 <= u ==> !eg_in(p, i, #[trigger] p[u] as int, p[u + 1] as int, r) }),
    decreases v
{ if v > 0 { lc_is(p, i, r, v - 1); } }
proof fn lc_chain(p: Seq<i32>, i: Seq<i32>, k: int, u: int, v: int, f: int)
    requires 0 <= u < v < k, p[v] <= f < p[v + 1], eg_in(p, i, p[u] as int, p[u + 1] as int, i[f] as int),
    ensures econ(eg_path(p, i), k, u, v),
    decreases v
{
    let g = eg_path(p, i); let r = i[f] as int; lc_is(p, i, r, v); let w = lastcol(p, i, r, v);
    assert(w >= u) by { if w < u { assert(!eg_in(p, i, p[u] as int, p[u + 1] as int, r)); } }
    assert(g(w, v)); ec_edge(g, k, w, v);
    if w > u { let f2 = choose|e: int| p[w] <= e < p[w + 1] && #[trigger] i[e] == r; lc_chain(p, i, k, u, w, f2); ec_trans(g, k, u, w, v); }
}
pub proof fn share_same(p: Seq<i32>, i: Seq<i32>, n: int)
    ensures e_same(eg_path(p, i), eg_share(p, i), n),
{
    let g = eg_path(p, i); let h = eg_share(p, i);
    assert forall|k: int| 0 <= k <= n implies #[trigger] e_within(g, h, k) && e_within(h, g, k) by {
        assert forall|u: int, v: int| 0 <= u < v && v < k && #[trigger] g(u, v) implies econ(h, k, u, v) by { let f = choose|f: int| p[v] <= f < p[v + 1] && lastcol(p, i, #[trigger] i[f] as int, v) == u; lc_is(p, i, i[f] as int, v); assert(h(u, v)); ec_edge(h, k, u, v); }
        assert forall|u: int, v: int| 0 <= u < v && v < k && #[trigger] h(u, v) implies econ(g, k, u, v) by { let f = choose|f: int| p[v] <= f < p[v + 1] && eg_in(p, i, p[u] as int, p[u + 1] as int, #[trigger] i[f] as int); lc_chain(p, i, k, u, v, f); }
    }
}
pub proof fn share_done(p: Seq<i32>, i: Seq<i32>, n: int, par: Seq<i32>, anc: Seq<i32>)
    requires et_ok(eg_path(p, i), n, n, par, anc),
    ensures etree_upto(eg_share(p, i), n, par), forall|x: int| 0 <= x < n ==> #[trigger] par[x] == -1 || x < par[x] < n,
{ et_done(eg_path(p, i), n, par, anc); share_same(p, i, n); et_same_tree(eg_path(p, i), eg_share(p, i), n, par); }
// the last column seen for each row, kept above position n of the work array
pub open spec fn pv_cell(p: Seq<i32>, i: Seq<i32>, j: int, q: int, r: int) -> int { if eg_in(p, i, p[j] as int, q, r) { j } else { lastcol(p, i, r, j) } }
#[verifier::opaque]
pub open spec fn pv_ok(p: Seq<i32>, i: Seq<i32>, m: int, n: int, j: int, q: int, w: Seq<i32>) -> bool { w.len() >= n + m && forall|r: int| 0 <= r < m ==> #[trigger] pv_at(w, n, r) == pv_cell(p, i, j, q, r) }
pub open spec fn pv_at(w: Seq<i32>, n: int, r: int) -> int { w[n + r] as int }
#[verifier::opaque]
pub open spec fn pv_clear(m: int, n: int, w: Seq<i32>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] pv_at(w, n, r) == -1 }
pub proof fn pv_c0(m: int, n: int, w: Seq<i32>)
    ensures pv_clear(m, n, w, 0),
{ reveal(pv_clear); }
pub proof fn pv_c1(m: int, n: int, w: Seq<i32>, k: int, v: i32)
    requires pv_clear(m, n, w, k), 0 <= n, 0 <= k, n + k < w.len(), v == -1,
    ensures pv_clear(m, n, w.update(n + k, v), k + 1),
{ reveal(pv_clear); let w2 = w.update(n + k, v); assert forall|r: int| 0 <= r < k + 1 implies #[trigger] pv_at(w2, n, r) == -1 by { if r < k { assert(pv_at(w, n, r) == -1); } } }
pub proof fn pv_init(p: Seq<i32>, i: Seq<i32>, m: int, n: int, w: Seq<i32>)
    requires pv_clear(m, n, w, m), w.len() >= n + m,
    ensures pv_ok(p, i, m, n, 0, p[0] as int, w),
{ reveal(pv_clear); reveal(pv_ok); }
pub proof fn pv_read(p: Seq<i32>, i: Seq<i32>, m: int, n: int, j: int, q: int, w: Seq<i32>)
    requires pv_ok(p, i, m, n, j, q, w), 0 <= j, p[j] <= q < p[j + 1], 0 <= i[q] < m, !eg_in(p, i, p[j] as int, q, i[q] as int),
    ensures ({ let u = w[n + i[q]]; u == lastcol(p, i, i[q] as int, j) && -1 <= u < j && (u != -1 ==> eg_path(p, i)(u as int, j)) }),
{ reveal(pv_ok); assert(pv_at(w, n, i[q] as int) == pv_cell(p, i, j, q, i[q] as int)); lc_is(p, i, i[q] as int, j); }
pub proof fn pv_set(p: Seq<i32>, i: Seq<i32>, m: int, n: int, j: int, q: int, w: Seq<i32>, v: i32)
    requires pv_ok(p, i, m, n, j, q, w), 0 <= n, p[j] <= q, 0 <= i[q] < m, v == j,
    ensures pv_ok(p, i, m, n, j, q + 1, w.update(n + i[q], v)),
{
    reveal(pv_ok); let w2 = w.update(n + i[q], v);
    assert forall|r: int| 0 <= r < m implies #[trigger] pv_at(w2, n, r) == pv_cell(p, i, j, q + 1, r) by {
        assert(pv_at(w, n, r) == pv_cell(p, i, j, q, r));
        if r == i[q] { assert(i[q] == r); assert(eg_in(p, i, p[j] as int, q + 1, r)); }
        else { if eg_in(p, i, p[j] as int, q, r) { let e = choose|e: int| p[j] <= e < q && #[trigger] i[e] == r; assert(i[e] == r); } if eg_in(p, i, p[j] as int, q + 1, r) { let e = choose|e: int| p[j] <= e < q + 1 && #[trigger] i[e] == r; assert(e != q); assert(eg_in(p, i, p[j] as int, q, r)); } }
    }
}
pub proof fn pv_next(p: Seq<i32>, i: Seq<i32>, m: int, n: int, j: int, w: Seq<i32>)
    requires pv_ok(p, i, m, n, j, p[j + 1] as int, w), 0 <= j,
    ensures pv_ok(p, i, m, n, j + 1, p[j + 1] as int, w),
{ reveal(pv_ok); assert forall|r: int| 0 <= r < m implies #[trigger] pv_at(w, n, r) == pv_cell(p, i, j + 1, p[j + 1] as int, r) by { assert(pv_at(w, n, r) == pv_cell(p, i, j, p[j + 1] as int, r)); } }
pub proof fn pv_keep(p: Seq<i32>, i: Seq<i32>, m: int, n: int, j: int, q: int, w: Seq<i32>, w2: Seq<i32>)
    requires pv_ok(p, i, m, n, j, q, w), et_same(j, w, w2), 0 <= j <= n,
    ensures pv_ok(p, i, m, n, j, q, w2),
{ reveal(pv_ok); reveal(et_same); assert forall|r: int| 0 <= r < m implies #[trigger] pv_at(w2, n, r) == pv_cell(p, i, j, q, r) by { assert(pv_at(w, n, r) == pv_cell(p, i, j, q, r)); assert(w2[n + r] == w[n + r]); } }
pub proof fn et_far(g: Eg, n: int, k: int, a0: Seq<i32>, par: Seq<i32>, anc: Seq<i32>, c: int, x: int, v: i32)
    requires et_mid(g, n, k, a0, par, anc, c), n <= x < anc.len(),
    ensures et_mid(g, n, k, a0, par, anc.update(x, v), c),
{ reveal(et_mid); let a2 = anc.update(x, v); assert forall|i: int| 0 <= i < k implies et_node(g, k, a0, i, #[trigger] par[i], a2[i], c) by { assert(et_node(g, k, a0, i, par[i], anc[i], c)); } assert forall|i: int| 0 <= i < k implies #[trigger] et_up(k, a0, a2, i, c) by { assert(et_up(k, a0, anc, i, c)); assert(anc_in(g, k, i, a0[i] as int)); } }
// the path neighbours of column k among its first entries are marked
#[verifier::opaque]
pub open spec fn seen_path(p: Seq<i32>, i: Seq<i32>, n: int, k: int, anc: Seq<i32>, lo: int, q: int) -> bool { forall|f: int| lo <= f < q && 0 <= lastcol(p, i, #[trigger] i[f] as int, k) ==> anc[lastcol(p, i, i[f] as int, k)] == k }
pub proof fn sp_init(p: Seq<i32>, i: Seq<i32>, n: int, k: int, anc: Seq<i32>, lo: int)
    ensures seen_path(p, i, n, k, anc, lo, lo),
{ reveal(seen_path); }
pub proof fn sp_move(p: Seq<i32>, i: Seq<i32>, n: int, k: int, k0: int, p0: Seq<i32>, a0: Seq<i32>, pa: Seq<i32>, anc: Seq<i32>, lo: int, q: int)
    requires seen_path(p, i, n, k, a0, lo, q), et_moved(k, k0, p0, a0, pa, anc), 0 <= k <= a0.len(),
    ensures seen_path(p, i, n, k, anc, lo, q),
{ reveal(seen_path); reveal(seen_kept); assert forall|f: int| lo <= f < q && 0 <= lastcol(p, i, #[trigger] i[f] as int, k) implies anc[lastcol(p, i, i[f] as int, k)] == k by { lc_is(p, i, i[f] as int, k); assert(a0[lastcol(p, i, i[f] as int, k)] == k); } }
pub proof fn sp_step(p: Seq<i32>, i: Seq<i32>, n: int, k: int, anc: Seq<i32>, lo: int, q: int, x: int, v: i32)
    requires seen_path(p, i, n, k, anc, lo, q), 0 <= lastcol(p, i, i[q] as int, k) ==> anc[lastcol(p, i, i[q] as int, k)] == k, 0 <= k <= n <= x < anc.len(),
    ensures seen_path(p, i, n, k, anc.update(x, v), lo, q + 1),
{ reveal(seen_path); let a2 = anc.update(x, v); assert forall|f: int| lo <= f < q + 1 && 0 <= lastcol(p, i, #[trigger] i[f] as int, k) implies a2[lastcol(p, i, i[f] as int, k)] == k by { lc_is(p, i, i[f] as int, k); } }
pub proof fn sp_done(p: Seq<i32>, i: Seq<i32>, n: int, k: int, anc: Seq<i32>)
    requires seen_path(p, i, n, k, anc, p[k] as int, p[k + 1] as int), 0 <= k,
    ensures marked_upto(eg_path(p, i), k, anc),
{ reveal(seen_path); let g = eg_path(p, i); assert forall|j: int| 0 <= j < k && #[trigger] g(j, k) implies anc[j] == k by { let f = choose|f: int| p[k] <= f < p[k + 1] && lastcol(p, i, #[trigger] i[f] as int, k) == j; } }
// untouched so far
#[verifier::opaque]
pub open spec fn blank_from(s: Seq<i32>, lo: int, n: int) -> bool { s.len() >= n && forall|x: int| lo <= x < n ==> #[trigger] s[x] == -1 }
#[verifier::opaque]
pub open spec fn blank_to(s: Seq<i32>, k: int) -> bool { forall|x: int| 0 <= x < k ==> #[trigger] s[x] == -1 }
pub proof fn bl_0(s: Seq<i32>)
    ensures blank_to(s, 0),
{ reveal(blank_to); }
pub proof fn bl_1(s: Seq<i32>, k: int, v: i32)
    requires blank_to(s, k), 0 <= k < s.len(), v == -1,
    ensures blank_to(s.update(k, v), k + 1),
{ reveal(blank_to); }
pub proof fn bl_all(s: Seq<i32>, n: int)
    requires blank_to(s, n), s.len() >= n,
    ensures blank_from(s, 0, n),
{ reveal(blank_to); reveal(blank_from); }
pub proof fn bl_at(s: Seq<i32>, k: int, n: int)
    requires blank_from(s, k, n), 0 <= k < n,
    ensures s[k] == -1, s.update(k, -1i32) =~= s, blank_from(s, k + 1, n),
{ reveal(blank_from); }
pub proof fn bl_far(s: Seq<i32>, k: int, n: int, x: int, v: i32)
    requires blank_from(s, k, n), n <= x < s.len(),
    ensures blank_from(s.update(x, v), k, n),
{ reveal(blank_from); }
pub proof fn bl_keep(s: Seq<i32>, s2: Seq<i32>, i: int, k: int, n: int)
    requires blank_from(s, k, n), et_same(i, s, s2), i <= k, 0 <= k,
    ensures blank_from(s2, k, n),
{ reveal(blank_from); reveal(et_same); assert forall|x: int| k <= x < n implies #[trigger] s2[x] == -1 by { assert(s2[x] == s[x]); } }
// a column lists every row once
pub open spec fn once_col(p: Seq<i32>, i: Seq<i32>, v: int) -> bool { forall|e: int, f: int| p[v] <= e < f < p[v + 1] ==> #[trigger] i[e] != #[trigger] i[f] }
#[verifier::opaque]
pub open spec fn once_cols(p: Seq<i32>, i: Seq<i32>, n: int) -> bool { forall|v: int| 0 <= v < n ==> #[trigger] once_col(p, i, v) }
pub proof fn oc_at(p: Seq<i32>, i: Seq<i32>, n: int, v: int, q: int)
    requires once_cols(p, i, n), 0 <= v < n, p[v] <= q < p[v + 1],
    ensures !eg_in(p, i, p[v] as int, q, i[q] as int),
{ reveal(once_cols); assert(once_col(p, i, v)); }
#[verifier::opaque]
pub open spec fn rows_in(i: Seq<i32>, ne: int, m: int) -> bool { forall|e: int| 0 <= e < ne ==> 0 <= #[trigger] i[e] < m }
pub proof fn ri_at(i: Seq<i32>, ne: int, m: int, e: int)
    requires rows_in(i, ne, m), 0 <= e < ne,
    ensures 0 <= i[e] < m,
{ reveal(rows_in); }
