//@uses ccount
// ---- the edges of a matrix stored by its lower columns
pub open spec fn eg_cols(p: Seq<i32>, i: Seq<i32>) -> Eg { |u: int, v: int| 0 <= u < v && eg_in(p, i, p[u] as int, p[u + 1] as int, v) }
// post lists the nodes by position
#[verifier::opaque]
pub open spec fn fo_list(f: Fo, post: Seq<i32>) -> bool { post.len() >= f.n && forall|k: int| 0 <= k < f.n ==> 0 <= #[trigger] post[k] < f.n && f.pos[post[k] as int] == k }
pub proof fn li_at(f: Fo, post: Seq<i32>, k: int)
    requires fo_list(f, post), 0 <= k < f.n,
    ensures 0 <= post[k] < f.n, f.pos[post[k] as int] == k, k < post.len(),
{ reveal(fo_list); }
#[verifier::opaque]
pub open spec fn postordered(par: Seq<i32>, post: Seq<i32>, n: int) -> bool { exists|f: Fo| #[trigger] fo_ok(f) && f.par == par && f.n == n && fo_list(f, post) }
pub open spec fn the_fo(par: Seq<i32>, post: Seq<i32>, n: int) -> Fo { choose|f: Fo| #[trigger] fo_ok(f) && f.par == par && f.n == n && fo_list(f, post) }
pub proof fn po_fo(par: Seq<i32>, post: Seq<i32>, n: int)
    requires postordered(par, post, n),
    ensures ({ let f = the_fo(par, post, n); fo_ok(f) && f.par == par && f.n == n && fo_list(f, post) }),
{ reveal(postordered); }
// ---- a node that is not a leaf of the tree has a child, hence a neighbour below it
proof fn child_of(f: Fo, u: int, v: int) -> (w: int)
    requires fo_ok(f), dsc(f, u, v), u != v,
    ensures 0 <= w < f.n, f.par[w] == v, dsc(f, u, w),
    decreases f.pos[v] - f.pos[u]
{
    fo_climb(f, u, v); fo_at(f, u);
    if f.par[u] == v { u } else { let w = child_of(f, f.par[u] as int, v); dsc_par(f, u); dsc_trans(f, u, f.par[u] as int, w); w }
}
proof fn nb_below(g: Eg, f: Fo, post: Seq<i32>, i: int) -> (j: int)
    requires fo_ok(f), fo_list(f, post), is_tree(g, f.n, f.par), 0 <= i < f.n, !leafy(f, i),
    ensures 0 <= j < i, g(j, i), dsc(f, j, i),
{
    fo_at(f, i); li_at(f, post, f.fs[i]); let w = post[f.fs[i]] as int; fo_at(f, w); assert(dsc(f, w, i));
    let c = child_of(f, w, i); fo_at(f, c); assert(f.par[c] == epar(g, c, f.n)); ep_is(g, c, f.n);
    let j = ec_last(g, i, c); nb_dsc(g, f, j, i); j
}
// ---- every entry counted
#[verifier::opaque]
pub open spec fn dn_full(g: Eg, f: Fo, dn: Dn) -> bool { forall|i: int, j: int| #[trigger] dn(i, j) <==> (i == j && leafy(f, i) || 0 <= j < i && i < f.n && g(j, i)) }
proof fn hd_full(g: Eg, f: Fo, post: Seq<i32>, dn: Dn, i: int, v: int)
    requires fo_ok(f), fo_list(f, post), is_tree(g, f.n, f.par), dn_full(g, f, dn), 0 <= v < f.n, 0 <= i < f.n,
    ensures hasd(f, dn, i, v) <==> (dsc(f, i, v) || i > v && fill(g, i, v)),
{
    reveal(dn_full);
    if dsc(f, i, v) {
        if leafy(f, i) { assert(dn(i, i)); assert(dsub(f, dn, i, v, i)); } else { let j = nb_below(g, f, post, i); dsc_trans(f, j, i, v); assert(dn(i, j)); assert(dsub(f, dn, i, v, j)); }
    } else {
        if i > v && fill(g, i, v) { fill_sub(g, f, i, v); let j = choose|j: int| #[trigger] nbr(g, f, i, v, j); assert(dn(i, j)); assert(dsub(f, dn, i, v, j)); }
        if hasd(f, dn, i, v) {
            let j = choose|j: int| #[trigger] dsub(f, dn, i, v, j); assert(dn(i, j)); assert(j < i && g(j, i)); nb_dsc(g, f, j, i);
            if f.pos[i] <= f.pos[v] { sub_nest(f, j, i, v); } else { sub_nest(f, j, v, i); dsc_le(f, v, i); }
            assert(i > v) by { fo_at(f, i); fo_at(f, v); }
            assert(nbr(g, f, i, v, j)); fill_sub(g, f, i, v);
        }
    }
}
pub open spec fn ival(g: Eg, v: int, i: int) -> int { if i == v { 1 } else if i > v && fill(g, i, v) { 1 } else { 0 } }
proof fn iv_sum(g: Eg, v: int, n: int)
    requires 0 <= v,
    ensures sum(|i: int| ival(g, v, i), n) == (if n > v { 1 + fcnt(g, v, n) } else { 0 }),
    decreases n
{
    let a = |i: int| ival(g, v, i);
    if n > 0 { iv_sum(g, v, n - 1); assert(sum(a, n) == sum(a, n - 1) + a(n - 1)); }
}
pub proof fn cc_end(g: Eg, f: Fo, post: Seq<i32>, dn: Dn, c: Seq<i32>, v: int)
    requires fo_ok(f), fo_list(f, post), is_tree(g, f.n, f.par), cc_inv(f, dn, f.n, c), dn_full(g, f, dn), 0 <= v < f.n,
    ensures ssum(f, c, v) == 1 + fcnt(g, v, f.n),
{
    reveal(cc_inv); assert(ssum(f, c, v) == csum(f, dn, f.n, v)); fo_len(f);
    let a = |i: int| rcv(f, dn, f.n, v, i); let b = |i: int| ival(g, v, i);
    assert forall|i: int| 0 <= i < f.n implies #[trigger] a(i) == b(i) by {
        hd_full(g, f, post, dn, i, v); fo_at(f, i);
        if i == v { sub_par_not(f, v); } else { sub_par_iff(f, i, v); if dsc(f, i, v) { dsc_le(f, i, v); } }
    }
    sum_eq(a, b, f.n); iv_sum(g, v, f.n);
}
// ---- adding every node to its parent: afterwards each holds the sum over its subtree
pub open spec fn chv(f: Fo, c0: Seq<i32>, u: int, w: int) -> int { if f.par[w] == u { ssum(f, c0, w) } else { 0 } }
pub open spec fn chs(f: Fo, c0: Seq<i32>, u: int, j: int) -> int { sum(|w: int| chv(f, c0, u, w), j) }
pub open spec fn ev(f: Fo, c0: Seq<i32>, v: int, j: int, u: int) -> int { if u >= j && dsc(f, u, v) { c0[u] + chs(f, c0, u, j) } else { 0 } }
pub open spec fn es(f: Fo, c0: Seq<i32>, v: int, j: int) -> int { sum(|u: int| ev(f, c0, v, j, u), f.n) }
proof fn chs_1(f: Fo, c0: Seq<i32>, u: int, j: int)
    requires 0 <= j,
    ensures chs(f, c0, u, j + 1) == chs(f, c0, u, j) + chv(f, c0, u, j), chs(f, c0, u, 0) == 0,
{ let a = |w: int| chv(f, c0, u, w); assert(sum(a, j + 1) == sum(a, j) + a(j)); }
proof fn es_own(f: Fo, c0: Seq<i32>, j: int)
    requires fo_ok(f), 0 <= j < f.n, es(f, c0, j, j) == ssum(f, c0, j),
    ensures c0[j] + chs(f, c0, j, j) == ssum(f, c0, j),
{
    let a = |u: int| ev(f, c0, j, j, u); let z = |u: int| 0int;
    assert forall|u: int| 0 <= u < f.n && u != j implies #[trigger] z(u) == a(u) by { if dsc(f, u, j) { dsc_le(f, u, j); } }
    sum_point(z, a, f.n, j); sum_zero(z, f.n); fo_at(f, j);
}
proof fn es_all(f: Fo, c0: Seq<i32>, v: int, j: int)
    requires fo_ok(f), f.n <= c0.len(), 0 <= j <= v < f.n,
    ensures es(f, c0, v, j) == ssum(f, c0, v),
    decreases j
{
    if j == 0 {
        let a = |u: int| ev(f, c0, v, 0, u); let b = |u: int| sval(f, c0, v, u);
        assert forall|u: int| 0 <= u < f.n implies #[trigger] a(u) == b(u) by { chs_1(f, c0, u, 0); }
        sum_eq(a, b, f.n);
    } else {
        let i = j - 1; es_all(f, c0, v, i); es_all(f, c0, i, i); es_own(f, c0, i);
        let a = |u: int| ev(f, c0, v, i, u); let b = |u: int| ev(f, c0, v, j, u); let t = ssum(f, c0, i);
        let m = |u: int| if u == i { 0 } else { a(u) };
        assert forall|u: int| 0 <= u < f.n && u != i implies #[trigger] a(u) == m(u) by { }
        sum_point(a, m, f.n, i);
        assert(sum(m, f.n) == sum(a, f.n) - (if dsc(f, i, v) { t } else { 0 }));
        fo_at(f, i); sub_par_iff(f, i, v);
        assert forall|u: int| 0 <= u < f.n && u != f.par[i] implies #[trigger] m(u) == b(u) by { chs_1(f, c0, u, i); }
        let q = f.par[i] as int;
        if q != -1 { sum_point(m, b, f.n, q); chs_1(f, c0, q, i); } else { sum_eq(m, b, f.n); }
    }
}
pub proof fn acc_end(f: Fo, c0: Seq<i32>, v: int)
    requires fo_ok(f), f.n <= c0.len(), 0 <= v < f.n,
    ensures c0[v] + chs(f, c0, v, v) == ssum(f, c0, v),
{ es_all(f, c0, v, v); es_own(f, c0, v); }
proof fn chs_stop(f: Fo, c0: Seq<i32>, v: int, j: int)
    requires fo_ok(f), 0 <= v <= j <= f.n,
    ensures chs(f, c0, v, j) == chs(f, c0, v, v),
    decreases j
{ if j > v { chs_stop(f, c0, v, j - 1); chs_1(f, c0, v, j - 1); fo_at(f, j - 1); } }
#[verifier::opaque]
pub open spec fn tot_ok(g: Eg, f: Fo, c0: Seq<i32>) -> bool { c0.len() >= f.n && forall|v: int| 0 <= v < f.n ==> #[trigger] ssum(f, c0, v) == 1 + fcnt(g, v, f.n) }
pub proof fn tot_end(g: Eg, f: Fo, post: Seq<i32>, dn: Dn, c: Seq<i32>)
    requires fo_ok(f), fo_list(f, post), is_tree(g, f.n, f.par), cc_inv(f, dn, f.n, c), dn_full(g, f, dn),
    ensures tot_ok(g, f, c),
{ reveal(tot_ok); assert(c.len() >= f.n) by { reveal(cc_inv); } assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, c, v) == 1 + fcnt(g, v, f.n) by { cc_end(g, f, post, dn, c, v); } }
proof fn chs_mono(g: Eg, f: Fo, c0: Seq<i32>, v: int, j: int, k: int)
    requires fo_ok(f), tot_ok(g, f, c0), 0 <= v < f.n, 0 <= j <= k <= f.n,
    ensures 0 <= chs(f, c0, v, j) <= chs(f, c0, v, k),
{
    let a = |w: int| chv(f, c0, v, w);
    assert forall|w: int| 0 <= w < k implies 0 <= #[trigger] a(w) by { if f.par[w] == v { reveal(tot_ok); assert(ssum(f, c0, w) == 1 + fcnt(g, w, f.n)); fc_mono(g, w, f.n, f.n); } }
    sum_mono(a, j, k); assert forall|w: int| 0 <= w < j implies 0 <= #[trigger] a(w) by { } sum_ge0(a, j);
}
#[verifier::opaque]
pub open spec fn acc_at(f: Fo, c0: Seq<i32>, c: Seq<i32>, j: int) -> bool { c.len() == c0.len() && forall|u: int| 0 <= u < f.n ==> #[trigger] c[u] == c0[u] + chs(f, c0, u, j) }
pub proof fn ac_init(f: Fo, c0: Seq<i32>)
    ensures acc_at(f, c0, c0, 0),
{ reveal(acc_at); assert forall|u: int| 0 <= u < f.n implies #[trigger] c0[u] == c0[u] + chs(f, c0, u, 0) by { chs_1(f, c0, u, 0); } }
pub proof fn ac_room(g: Eg, f: Fo, c0: Seq<i32>, c: Seq<i32>, j: int)
    requires fo_ok(f), tot_ok(g, f, c0), acc_at(f, c0, c, j), 0 <= j < f.n, f.par[j] != -1,
    ensures 0 <= f.par[j] < f.n, f.n <= c.len(), i32::MIN <= c[f.par[j] as int] + c[j] <= i32::MAX,
{
    fo_len(f); fo_at(f, j); let q = f.par[j] as int; reveal(acc_at); assert(c[q] == c0[q] + chs(f, c0, q, j)); assert(c[j] == c0[j] + chs(f, c0, j, j));
    assert(c0.len() >= f.n) by { reveal(tot_ok); } acc_end(f, c0, j); chs_1(f, c0, q, j); chs_mono(g, f, c0, q, j + 1, f.n); chs_stop(f, c0, q, f.n); acc_end(f, c0, q); chs_mono(g, f, c0, q, j, j);
    assert(ssum(f, c0, q) == 1 + fcnt(g, q, f.n)) by { reveal(tot_ok); } fc_mono(g, q, f.n, f.n);
    assert(ssum(f, c0, j) == 1 + fcnt(g, j, f.n)) by { reveal(tot_ok); } fc_mono(g, j, f.n, f.n);
}
pub proof fn ac_step(f: Fo, c0: Seq<i32>, c: Seq<i32>, j: int, c2: Seq<i32>)
    requires fo_ok(f), acc_at(f, c0, c, j), 0 <= j < f.n, f.n <= c0.len(), f.par[j] == -1 ==> c2 == c, f.par[j] != -1 ==> i32::MIN <= c[f.par[j] as int] + c[j] <= i32::MAX && c2 == c.update(f.par[j] as int, (c[f.par[j] as int] + c[j]) as i32),
    ensures acc_at(f, c0, c2, j + 1),
{
    reveal(acc_at); fo_at(f, j); assert(c[j] == c0[j] + chs(f, c0, j, j)); acc_end(f, c0, j);
    assert forall|u: int| 0 <= u < f.n implies #[trigger] c2[u] == c0[u] + chs(f, c0, u, j + 1) by { chs_1(f, c0, u, j); assert(c[u] == c0[u] + chs(f, c0, u, j)); }
}
pub proof fn ac_done(g: Eg, f: Fo, c0: Seq<i32>, c: Seq<i32>)
    requires fo_ok(f), tot_ok(g, f, c0), acc_at(f, c0, c, f.n),
    ensures col_counts(g, f.n, c),
{
    fo_len(f); assert(c.len() >= f.n && c0.len() >= f.n) by { reveal(acc_at); reveal(tot_ok); }
    assert forall|v: int| 0 <= v < f.n implies #[trigger] c[v] == 1 + fcnt(g, v, f.n) by { assert(c[v] == c0[v] + chs(f, c0, v, f.n)) by { reveal(acc_at); } chs_stop(f, c0, v, f.n); acc_end(f, c0, v); reveal(tot_ok); assert(ssum(f, c0, v) == 1 + fcnt(g, v, f.n)); }
}
// ---- the first descendant of every node, and its depth
pub open spec fn fst_k(f: Fo, k: int, v: int) -> int { if f.fs[v] < k { f.fs[v] } else { -1 } }
#[verifier::opaque]
pub open spec fn first_upto(f: Fo, k: int, a: Seq<i32>) -> bool { a.len() >= f.n && forall|v: int| 0 <= v < f.n ==> #[trigger] a[v] == fst_k(f, k, v) }
pub open spec fn passed(f: Fo, i: int, r: int, v: int) -> bool { dsc(f, i, v) && !(r != -1 && dsc(f, r, v)) }
pub open spec fn fsm(f: Fo, k: int, i: int, r: int, v: int) -> int { if f.fs[v] < k { f.fs[v] } else if f.fs[v] == k && passed(f, i, r, v) { k } else { -1 } }
#[verifier::opaque]
pub open spec fn first_mid(f: Fo, k: int, i: int, r: int, a: Seq<i32>) -> bool { a.len() >= f.n && (r == -1 || dsc(f, i, r)) && forall|v: int| 0 <= v < f.n ==> #[trigger] a[v] == fsm(f, k, i, r, v) }
pub proof fn ft_init(f: Fo, a: Seq<i32>)
    requires fo_ok(f), a.len() >= f.n, forall|v: int| 0 <= v < f.n ==> #[trigger] a[v] == -1,
    ensures first_upto(f, 0, a),
{ reveal(first_upto); assert forall|v: int| 0 <= v < f.n implies #[trigger] a[v] == fst_k(f, 0, v) by { fo_at(f, v); } }
pub proof fn ft_begin(f: Fo, k: int, i: int, a: Seq<i32>)
    requires fo_ok(f), first_upto(f, k, a), 0 <= i < f.n, f.pos[i] == k,
    ensures first_mid(f, k, i, i, a), (a[i] == -1) == leafy(f, i), i < a.len(),
{ reveal(first_upto); reveal(first_mid); fo_at(f, i); assert(a[i] == fst_k(f, k, i)); assert forall|v: int| 0 <= v < f.n implies #[trigger] a[v] == fsm(f, k, i, i, v) by { assert(a[v] == fst_k(f, k, v)); } }
pub proof fn ft_in(f: Fo, k: int, i: int, r: int, a: Seq<i32>)
    requires fo_ok(f), first_mid(f, k, i, r, a), 0 <= i < f.n, f.pos[i] == k, r != -1,
    ensures 0 <= r < f.n, r < a.len(), a[r] == -1 <==> f.fs[r] == k, a[r] != -1 <==> f.fs[r] < k, dsc(f, i, r),
{ reveal(first_mid); assert(a[r] == fsm(f, k, i, r, r)); fo_at(f, r); dsc_le(f, i, r); fo_at(f, i); }
pub proof fn ft_step(f: Fo, k: int, i: int, r: int, a: Seq<i32>, kk: i32)
    requires fo_ok(f), first_mid(f, k, i, r, a), 0 <= i < f.n, f.pos[i] == k, r != -1, a[r] == -1, kk == k,
    ensures first_mid(f, k, i, f.par[r] as int, a.update(r, kk)), f.par[r] == -1 || r < f.par[r] < f.n,
{
    ft_in(f, k, i, r, a); reveal(first_mid); fo_at(f, r); let q = f.par[r] as int; let a2 = a.update(r, kk);
    if q != -1 { dsc_par(f, r); dsc_trans(f, i, r, q); }
    assert forall|v: int| 0 <= v < f.n implies #[trigger] a2[v] == fsm(f, k, i, q, v) by { assert(a[v] == fsm(f, k, i, r, v)); if v == r { sub_par_not(f, r); } else { sub_par_iff(f, r, v); } }
}
pub proof fn ft_done(f: Fo, k: int, i: int, r: int, a: Seq<i32>)
    requires fo_ok(f), first_mid(f, k, i, r, a), 0 <= i < f.n, f.pos[i] == k, r == -1 || a[r] != -1,
    ensures first_upto(f, k + 1, a),
{
    reveal(first_mid); reveal(first_upto); if r != -1 { ft_in(f, k, i, r, a); }
    assert forall|v: int| 0 <= v < f.n implies #[trigger] a[v] == fst_k(f, k + 1, v) by { assert(a[v] == fsm(f, k, i, r, v)); fo_at(f, v); if f.fs[v] == k { assert(dsc(f, i, v)); if r != -1 && dsc(f, r, v) { dsc_le(f, r, v); } } }
}
pub proof fn ft_all(f: Fo, a: Seq<i32>)
    requires fo_ok(f), first_upto(f, f.n, a),
    ensures ft_eq(f, a),
{ reveal(first_upto); reveal(ft_eq); assert forall|v: int| 0 <= v < f.n implies #[trigger] a[v] == f.fs[v] by { assert(a[v] == fst_k(f, f.n, v)); fo_at(f, v); } }
pub open spec fn dep(f: Fo, v: int) -> int
    decreases f.n - v
{ if 0 <= v < f.n && v < f.par[v] < f.n { 1 + dep(f, f.par[v] as int) } else { 0 } }
pub proof fn dp_at(f: Fo, v: int)
    requires fo_ok(f), 0 <= v < f.n,
    ensures 0 <= dep(f, v) < f.n - v, f.par[v] == -1 ==> dep(f, v) == 0, f.par[v] != -1 ==> dep(f, v) == 1 + dep(f, f.par[v] as int),
    decreases f.n - v
{ fo_at(f, v); if f.par[v] != -1 { dp_at(f, f.par[v] as int); } }
pub open spec fn lev_m(f: Fo, k: int, i: int, s: int, v: int) -> bool { f.fs[v] < k || f.fs[v] == k && passed(f, i, s, v) }
pub open spec fn lev_at(f: Fo, k: int, i: int, s: int, l: Seq<i32>, v: int) -> bool { lev_m(f, k, i, s, v) ==> l[v] == dep(f, v) }
#[verifier::opaque]
pub open spec fn lev_mid(f: Fo, k: int, i: int, s: int, l: Seq<i32>) -> bool { l.len() >= f.n && (s == -1 || dsc(f, i, s)) && forall|v: int| 0 <= v < f.n ==> #[trigger] lev_at(f, k, i, s, l, v) }
pub open spec fn lev_u(f: Fo, k: int, l: Seq<i32>, v: int) -> bool { f.fs[v] < k ==> l[v] == dep(f, v) }
#[verifier::opaque]
pub open spec fn dep_upto(f: Fo, k: int, l: Seq<i32>) -> bool { l.len() >= f.n && forall|v: int| 0 <= v < f.n ==> #[trigger] lev_u(f, k, l, v) }
pub proof fn lv_init(f: Fo, l: Seq<i32>)
    requires fo_ok(f), l.len() >= f.n,
    ensures dep_upto(f, 0, l),
{ reveal(dep_upto); assert forall|v: int| 0 <= v < f.n implies #[trigger] lev_u(f, 0, l, v) by { fo_at(f, v); } }
pub proof fn lv_get(f: Fo, k: int, l: Seq<i32>, r: int)
    requires fo_ok(f), dep_upto(f, k, l), 0 <= r < f.n, f.fs[r] < k,
    ensures l[r] == dep(f, r), r < l.len(),
{ reveal(dep_upto); assert(lev_u(f, k, l, r)); }
pub proof fn lv_begin(f: Fo, k: int, i: int, l: Seq<i32>)
    requires fo_ok(f), dep_upto(f, k, l), 0 <= i < f.n, f.pos[i] == k,
    ensures lev_mid(f, k, i, i, l),
{ reveal(dep_upto); reveal(lev_mid); fo_at(f, i); assert forall|v: int| 0 <= v < f.n implies #[trigger] lev_at(f, k, i, i, l, v) by { assert(lev_u(f, k, l, v)); } }
pub proof fn lv_step(f: Fo, k: int, i: int, s: int, l: Seq<i32>, d: i32)
    requires fo_ok(f), lev_mid(f, k, i, s, l), s != -1, d == dep(f, s),
    ensures 0 <= s < f.n, s < l.len(), lev_mid(f, k, i, f.par[s] as int, l.update(s, d)), f.par[s] == -1 || s < f.par[s] < f.n,
{
    reveal(lev_mid); fo_at(f, s); let q = f.par[s] as int; let l2 = l.update(s, d);
    if q != -1 { dsc_par(f, s); dsc_trans(f, i, s, q); }
    assert forall|v: int| 0 <= v < f.n implies #[trigger] lev_at(f, k, i, q, l2, v) by { assert(lev_at(f, k, i, s, l, v)); if v == s { } else { sub_par_iff(f, s, v); } }
}
pub proof fn lv_done(f: Fo, k: int, i: int, s: int, a: Seq<i32>, l: Seq<i32>)
    requires fo_ok(f), lev_mid(f, k, i, s, l), 0 <= i < f.n, f.pos[i] == k, s == -1 || f.fs[s] < k,
    ensures dep_upto(f, k + 1, l),
{
    reveal(lev_mid); reveal(dep_upto);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] lev_u(f, k + 1, l, v) by { assert(lev_at(f, k, i, s, l, v)); fo_at(f, v); if f.fs[v] == k { assert(dsc(f, i, v)); if s != -1 && dsc(f, s, v) { dsc_le(f, s, v); } } }
}
// ---- the starting weights
#[verifier::opaque]
pub open spec fn w_upto(f: Fo, k: int, c: Seq<i32>) -> bool { c.len() >= f.n && forall|i: int| 0 <= i < f.n && f.pos[i] < k ==> #[trigger] c[i] == (if leafy(f, i) { 1int } else { 0 }) }
pub proof fn wu_init(f: Fo, c: Seq<i32>)
    requires fo_ok(f), c.len() >= f.n,
    ensures w_upto(f, 0, c),
{ reveal(w_upto); assert forall|i: int| 0 <= i < f.n && f.pos[i] < 0 implies #[trigger] c[i] == (if leafy(f, i) { 1int } else { 0 }) by { fo_at(f, i); } }
pub proof fn wu_step(f: Fo, k: int, c: Seq<i32>, i: int, x: i32)
    requires fo_ok(f), w_upto(f, k, c), 0 <= i < f.n, f.pos[i] == k, x == (if leafy(f, i) { 1int } else { 0 }),
    ensures w_upto(f, k + 1, c.update(i, x)), i < c.len(),
{ reveal(w_upto); let c2 = c.update(i, x); assert forall|u: int| 0 <= u < f.n && f.pos[u] < k + 1 implies #[trigger] c2[u] == (if leafy(f, u) { 1int } else { 0 }) by { if f.pos[u] == k { fo_inj(f, u, i); } else { assert(c[u] == (if leafy(f, u) { 1int } else { 0 })); } } }
#[verifier::opaque]
pub open spec fn cbd(n: int, c: Seq<i32>, b: int) -> bool { c.len() >= n && forall|u: int| 0 <= u < n ==> -b <= #[trigger] c[u] <= b }
pub proof fn cb_at(n: int, c: Seq<i32>, b: int, u: int)
    requires cbd(n, c, b), 0 <= u < n,
    ensures -b <= c[u] <= b, u < c.len(),
{ reveal(cbd); }
pub proof fn cb_upd(n: int, c: Seq<i32>, b: int, u: int, x: i32)
    requires cbd(n, c, b), 0 <= u < n, c[u] - 1 <= x <= c[u] + 1,
    ensures cbd(n, c.update(u, x), b + 1),
{ reveal(cbd); let d = c.update(u, x); assert forall|y: int| 0 <= y < n implies -(b + 1) <= #[trigger] d[y] <= b + 1 by { assert(-b <= c[y] <= b); } }
pub proof fn cb_two(n: int, c: Seq<i32>, b: int, u: int, x: i32, v: int, y: i32)
    requires cbd(n, c, b), 0 <= u < n, 0 <= v < n, u != v, c[u] - 1 <= x <= c[u] + 1, c[v] - 1 <= y <= c[v] + 1,
    ensures cbd(n, c.update(u, x).update(v, y), b + 1),
{ reveal(cbd); let d = c.update(u, x).update(v, y); assert forall|z: int| 0 <= z < n implies -(b + 1) <= #[trigger] d[z] <= b + 1 by { assert(-b <= c[z] <= b); } }
pub proof fn cb_up(n: int, c: Seq<i32>, b: int, d: int)
    requires cbd(n, c, b), b <= d,
    ensures cbd(n, c, d),
{ reveal(cbd); assert forall|z: int| 0 <= z < n implies -d <= #[trigger] c[z] <= d by { assert(-b <= c[z] <= b); } }
pub proof fn wu_all(f: Fo, c: Seq<i32>)
    requires fo_ok(f), w_upto(f, f.n, c),
    ensures cc_inv(f, dn0(f), 0, c), cbd(f.n, c, 1), c.len() >= f.n,
{ reveal(w_upto); assert forall|i: int| 0 <= i < f.n implies #[trigger] c[i] == (if leafy(f, i) { 1int } else { 0 }) by { fo_at(f, i); } ci_init(f, c); reveal(cbd); assert forall|u: int| 0 <= u < f.n implies -1 <= #[trigger] c[u] <= 1 by { assert(c[u] == (if leafy(f, u) { 1int } else { 0 })); } }
// ---- the entries counted so far: the columns before position k, and the entries lo..q of the k-th
pub open spec fn dns(p: Seq<i32>, ii: Seq<i32>, f: Fo, k: int, q: int, i: int, j: int) -> bool { i == j && leafy(f, i) || 0 <= j < i && i < f.n && (if f.pos[j] < k { eg_cols(p, ii)(j, i) } else { f.pos[j] == k && eg_in(p, ii, p[j] as int, q, i) }) }
#[verifier::opaque]
pub open spec fn dn_upto(p: Seq<i32>, ii: Seq<i32>, f: Fo, dn: Dn, k: int, q: int) -> bool { forall|i: int, j: int| #[trigger] dn(i, j) <==> dns(p, ii, f, k, q, i, j) }
pub proof fn du_init(p: Seq<i32>, ii: Seq<i32>, f: Fo)
    requires fo_ok(f),
    ensures dn_upto(p, ii, f, dn0(f), -1, 0),
{ reveal(dn_upto); let dn = dn0(f); assert forall|i: int, j: int| #[trigger] dn(i, j) <==> dns(p, ii, f, -1, 0, i, j) by { if 0 <= j < f.n { fo_at(f, j); } } }
pub proof fn du_next(p: Seq<i32>, ii: Seq<i32>, f: Fo, dn: Dn, k: int, q: int, j0: int, j1: int)
    requires fo_ok(f), dn_upto(p, ii, f, dn, k, q), 0 <= j0 < f.n ==> f.pos[j0] == k && q == p[j0 + 1], 0 <= j0 < f.n || k == -1, j1 < f.n ==> 0 <= j1 && f.pos[j1] == k + 1, j1 == f.n || 0 <= j1 < f.n,  j1 == f.n ==> k + 1 == f.n,
    ensures dn_upto(p, ii, f, dn, k + 1, if 0 <= j1 < f.n { p[j1] as int } else { 0 }),
{
    reveal(dn_upto); let q1 = if 0 <= j1 < f.n { p[j1] as int } else { 0 };
    assert forall|i: int, j: int| #[trigger] dn(i, j) <==> dns(p, ii, f, k + 1, q1, i, j) by {
        assert(dn(i, j) <==> dns(p, ii, f, k, q, i, j));
        if 0 <= j < i && i < f.n { fo_at(f, j); if f.pos[j] == k { fo_inj(f, j, j0); } if f.pos[j] == k + 1 { fo_inj(f, j, j1); } }
    }
}
pub proof fn du_skip(p: Seq<i32>, ii: Seq<i32>, f: Fo, dn: Dn, k: int, q: int, j: int)
    requires fo_ok(f), dn_upto(p, ii, f, dn, k, q), 0 <= j < f.n, f.pos[j] == k, p[j] <= q, ii[q] <= j,
    ensures dn_upto(p, ii, f, dn, k, q + 1),
{
    reveal(dn_upto);
    assert forall|x: int, y: int| #[trigger] dn(x, y) <==> dns(p, ii, f, k, q + 1, x, y) by {
        assert(dn(x, y) <==> dns(p, ii, f, k, q, x, y));
        if 0 <= y < x && x < f.n && f.pos[y] == k { fo_inj(f, y, j); in_ext(p, ii, p[j] as int, q, x); }
    }
}
proof fn in_ext(p: Seq<i32>, ii: Seq<i32>, lo: int, q: int, x: int)
    requires lo <= q,
    ensures eg_in(p, ii, lo, q + 1, x) <==> (eg_in(p, ii, lo, q, x) || ii[q] == x),
{ if eg_in(p, ii, lo, q, x) { let e = choose|e: int| lo <= e < q && #[trigger] ii[e] == x; assert(ii[e] == x); } if ii[q] == x { assert(ii[q] == x); } if eg_in(p, ii, lo, q + 1, x) { let e = choose|e: int| lo <= e < q + 1 && #[trigger] ii[e] == x; assert(ii[e] == x); } }
pub proof fn du_add(p: Seq<i32>, ii: Seq<i32>, f: Fo, dn: Dn, k: int, q: int, j: int)
    requires fo_ok(f), dn_upto(p, ii, f, dn, k, q), 0 <= j < f.n, f.pos[j] == k, p[j] <= q < p[j + 1], j < ii[q] < f.n,
    ensures dn_upto(p, ii, f, dn_add(dn, ii[q] as int, j), k, q + 1), eg_cols(p, ii)(j, ii[q] as int),
{
    reveal(dn_upto); let dm = dn_add(dn, ii[q] as int, j);
    assert forall|x: int, y: int| #[trigger] dm(x, y) <==> dns(p, ii, f, k, q + 1, x, y) by {
        assert(dn(x, y) <==> dns(p, ii, f, k, q, x, y));
        if 0 <= y < x && x < f.n && f.pos[y] == k { fo_inj(f, y, j); in_ext(p, ii, p[j] as int, q, x); }
        if x == ii[q] && y == j { in_ext(p, ii, p[j] as int, q, x); }
    }
    assert(eg_in(p, ii, p[j] as int, p[j + 1] as int, ii[q] as int));
}
pub proof fn du_full(p: Seq<i32>, ii: Seq<i32>, f: Fo, dn: Dn)
    requires fo_ok(f), dn_upto(p, ii, f, dn, f.n, 0),
    ensures dn_full(eg_cols(p, ii), f, dn),
{ reveal(dn_upto); reveal(dn_full); let g = eg_cols(p, ii); assert forall|i: int, j: int| #[trigger] dn(i, j) <==> (i == j && leafy(f, i) || 0 <= j < i && i < f.n && g(j, i)) by { assert(dn(i, j) <==> dns(p, ii, f, f.n, 0, i, j)); if 0 <= j < f.n { fo_at(f, j); } } }
pub proof fn rs_get(g: Eg, f: Fo, dn: Dn, k: int, pn: Seq<i32>, pl: Seq<i32>, u: int, p: int)
    requires fo_ok(f), rs(g, f, dn, k, pn, pl), 0 <= u < f.n, f.pos[u] > k, -1 <= k,
    ensures u < pn.len(), u < pl.len(), pn[u] == -1 <==> pl[u] == -1, -1 <= pn[u] <= k, -1 <= pl[u] < u, pl[u] != -1 ==> dsc(f, pl[u] as int, u) && f.pos[pl[u] as int] <= pn[u],
{
    reveal(rs); let x = choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, u, x); assert(rs_row(g, f, dn, k, pn, pl, u, x));
    if pn[u] != -1 { dsc_le(f, pl[u] as int, x); assert(rs_dn(g, f, dn, pn, u, pl[u] as int)); fo_at(f, x); }
}
pub proof fn dsc_lt(f: Fo, p: int, u: int)
    requires fo_ok(f), dsc(f, p, u), p < u,
    ensures f.pos[p] < f.pos[u],
{ dsc_le(f, p, u); if f.pos[p] == f.pos[u] { fo_inj(f, p, u); } }
// ---- the two halves of the work array
#[verifier::opaque]
pub open spec fn iw_upto(n: int, i: int, w: Seq<i32>) -> bool { 0 <= n && w.len() == 2 * n && (forall|x: int| 0 <= x < i ==> #[trigger] w[x] == x) && forall|x: int| n <= x < n + i ==> #[trigger] w[x] == -1 }
pub proof fn iw_0(n: int, w: Seq<i32>)
    requires 0 <= n, w.len() == 2 * n,
    ensures iw_upto(n, 0, w),
{ reveal(iw_upto); }
pub proof fn iw_1(n: int, i: int, w: Seq<i32>, x: i32)
    requires iw_upto(n, i, w), 0 <= i < n, x == i,
    ensures iw_upto(n, i + 1, w.update(n + i, -1i32).update(i, x)), w.len() == 2 * n,
{ reveal(iw_upto); }
pub proof fn iw_done(g: Eg, f: Fo, w: Seq<i32>, pl: Seq<i32>)
    requires fo_ok(f), iw_upto(f.n, f.n, w), pl.len() >= f.n, forall|i: int| 0 <= i < f.n ==> #[trigger] pl[i] == -1,
    ensures fnd(f, 0, w.subrange(0, f.n)), rs(g, f, dn0(f), -1, w.subrange(f.n, 2 * f.n), pl), w.len() == 2 * f.n,
{
    reveal(iw_upto); let a = w.subrange(0, f.n); let b = w.subrange(f.n, 2 * f.n);
    assert forall|x: int| 0 <= x < f.n implies #[trigger] a[x] == x by { assert(w[x] == x); } assert forall|x: int| 0 <= x < f.n implies #[trigger] b[x] == -1 by { assert(w[f.n + x] == -1); }
    fd_init(f, a); rs_init(g, f, b, pl);
}
pub proof fn halves(a: Seq<i32>, b: Seq<i32>, n: int)
    requires a.len() == n, b.len() == n,
    ensures (a + b).subrange(0, n) == a, (a + b).subrange(n, 2 * n) == b, (a + b).len() == 2 * n,
{ assert((a + b).subrange(0, n) =~= a); assert((a + b).subrange(n, 2 * n) =~= b); }
pub proof fn half_upd(w: Seq<i32>, n: int, j: int, x: i32)
    requires w.len() == 2 * n, 0 <= j < n,
    ensures w.update(j, x).subrange(0, n) == w.subrange(0, n).update(j, x), w.update(j, x).subrange(n, 2 * n) == w.subrange(n, 2 * n),
{ assert(w.update(j, x).subrange(0, n) =~= w.subrange(0, n).update(j, x)); assert(w.update(j, x).subrange(n, 2 * n) =~= w.subrange(n, 2 * n)); }
// how many entries the first k columns (by position) have
pub open spec fn wdv(f: Fo, p: Seq<i32>, k: int, j: int) -> int { if f.pos[j] < k { colw(p, j) } else { 0 } }
pub open spec fn wdone(f: Fo, p: Seq<i32>, k: int) -> int { sum(|j: int| wdv(f, p, k, j), f.n) }
pub proof fn wd_0(f: Fo, p: Seq<i32>)
    requires fo_ok(f),
    ensures wdone(f, p, 0) == 0,
{ let a = |j: int| wdv(f, p, 0, j); assert forall|j: int| 0 <= j < f.n implies #[trigger] a(j) == 0 by { fo_at(f, j); } sum_zero(a, f.n); }
pub proof fn wd_1(f: Fo, p: Seq<i32>, k: int, j: int)
    requires fo_ok(f), 0 <= j < f.n, f.pos[j] == k, ptrs(p, f.n),
    ensures wdone(f, p, k + 1) == wdone(f, p, k) + p[j + 1] - p[j], 0 <= wdone(f, p, k), wdone(f, p, k + 1) <= p[f.n], 0 <= p[j] <= p[j + 1] <= p[f.n], j + 1 < p.len(),
{
    let a = |i: int| wdv(f, p, k, i); let b = |i: int| wdv(f, p, k + 1, i); let h = |i: int| (p[i + 1] - p[i]) as int;
    assert forall|i: int| 0 <= i < f.n && i != j implies #[trigger] a(i) == b(i) by { if f.pos[i] == k { fo_inj(f, i, j); } }
    sum_point(a, b, f.n, j);
    assert forall|i: int| 0 <= i < f.n implies 0 <= #[trigger] a(i) by { assert(p[i] <= p[i + 1]); } sum_ge0(a, f.n);
    assert forall|i: int| 0 <= i < f.n implies #[trigger] b(i) <= h(i) by { assert(p[i] <= p[i + 1]); } sum_le(b, h, f.n); sum_diff(p, f.n);
    assert(p[j] <= p[j + 1]); assert(p[0] <= p[j]); assert(p[j + 1] <= p[f.n]);
}
pub proof fn ft_at(f: Fo, a: Seq<i32>, p: int)
    requires ft_eq(f, a), 0 <= p < f.n,
    ensures a[p] == f.fs[p], p < a.len(),
{ reveal(ft_eq); }
#[verifier::opaque]
pub open spec fn ft_eq(f: Fo, a: Seq<i32>) -> bool { a.len() >= f.n && forall|v: int| 0 <= v < f.n ==> #[trigger] a[v] == f.fs[v] }
