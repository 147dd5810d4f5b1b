//@uses lpat
// ---- a rooted forest listed with every subtree in one run: node u is at position pos[u], the subtree of v fills fs[v]..=pos[v]
pub struct Fo { pub n: int, pub par: Seq<i32>, pub pos: Seq<int>, pub fs: Seq<int> }
pub open spec fn dsc(f: Fo, u: int, v: int) -> bool { 0 <= u < f.n && 0 <= v < f.n && f.fs[v] <= f.pos[u] <= f.pos[v] }
pub open spec fn fo_up(f: Fo, u: int) -> bool { f.par[u] == -1 || u < f.par[u] < f.n && f.fs[f.par[u] as int] <= f.fs[u] && f.pos[u] < f.pos[f.par[u] as int] }
pub open spec fn fo_in(f: Fo, u: int) -> bool { 0 <= f.fs[u] <= f.pos[u] < f.n }
#[verifier::opaque]
pub open spec fn fo_ok(f: Fo) -> bool {
    &&& 0 <= f.n <= i32::MAX && f.par.len() >= f.n && f.pos.len() == f.n && f.fs.len() == f.n
    &&& forall|u: int| 0 <= u < f.n ==> #[trigger] fo_up(f, u)
    &&& forall|u: int| 0 <= u < f.n ==> #[trigger] fo_in(f, u)
    &&& forall|u: int, v: int| 0 <= u < v && v < f.n ==> #[trigger] f.pos[u] != #[trigger] f.pos[v]
    &&& forall|u: int, v: int| #[trigger] dsc(f, u, v) && u != v ==> f.par[u] != -1 && dsc(f, f.par[u] as int, v)
}
pub proof fn fo_len(f: Fo)
    requires fo_ok(f),
    ensures 0 <= f.n <= i32::MAX, f.par.len() >= f.n, f.pos.len() == f.n, f.fs.len() == f.n,
{ reveal(fo_ok); }
pub proof fn fo_at(f: Fo, u: int)
    requires fo_ok(f), 0 <= u < f.n,
    ensures fo_up(f, u), fo_in(f, u), dsc(f, u, u),
{ reveal(fo_ok); assert(fo_in(f, u)); }
pub proof fn fo_inj(f: Fo, u: int, v: int)
    requires fo_ok(f), 0 <= u < f.n, 0 <= v < f.n, f.pos[u] == f.pos[v],
    ensures u == v,
{ reveal(fo_ok); if u < v { } else if v < u { } }
pub proof fn fo_climb(f: Fo, u: int, v: int)
    requires fo_ok(f), dsc(f, u, v), u != v,
    ensures f.par[u] != -1, dsc(f, f.par[u] as int, v), fo_up(f, u),
{ reveal(fo_ok); assert(fo_up(f, u)); }
pub proof fn dsc_le(f: Fo, u: int, v: int)
    requires fo_ok(f), dsc(f, u, v),
    ensures u <= v, f.fs[v] <= f.fs[u], f.pos[u] <= f.pos[v],
    decreases f.pos[v] - f.pos[u]
{ if u != v { fo_climb(f, u, v); dsc_le(f, f.par[u] as int, v); } }
pub proof fn dsc_trans(f: Fo, u: int, v: int, w: int)
    requires fo_ok(f), dsc(f, u, v), dsc(f, v, w),
    ensures dsc(f, u, w),
{ dsc_le(f, v, w); }
pub proof fn dsc_par(f: Fo, u: int)
    requires fo_ok(f), 0 <= u < f.n, f.par[u] != -1,
    ensures dsc(f, u, f.par[u] as int), u < f.par[u] < f.n,
{ fo_at(f, u); }
// two subtrees with a common node are nested
pub proof fn sub_nest(f: Fo, u: int, v: int, w: int)
    requires fo_ok(f), dsc(f, u, v), dsc(f, u, w), f.pos[v] <= f.pos[w],
    ensures dsc(f, v, w),
    decreases f.pos[v] - f.pos[u]
{
    if u != v {
        if u == w { fo_inj(f, u, v); }
        fo_climb(f, u, v); fo_climb(f, u, w); sub_nest(f, f.par[u] as int, v, w);
    }
}
pub proof fn sub_par_iff(f: Fo, u: int, v: int)
    requires fo_ok(f), 0 <= u < f.n, 0 <= v < f.n, u != v,
    ensures dsc(f, u, v) <==> f.par[u] != -1 && dsc(f, f.par[u] as int, v),
{ if dsc(f, u, v) { fo_climb(f, u, v); } if f.par[u] != -1 && dsc(f, f.par[u] as int, v) { dsc_par(f, u); dsc_trans(f, u, f.par[u] as int, v); } }
pub proof fn sub_par_not(f: Fo, v: int)
    requires fo_ok(f), 0 <= v < f.n,
    ensures !(f.par[v] != -1 && dsc(f, f.par[v] as int, v)),
{ fo_at(f, v); }
// ---- subtree and factor
pub proof fn sub_econ(g: Eg, f: Fo, j: int, v: int)
    requires fo_ok(f), is_tree(g, f.n, f.par), 0 <= j <= v < f.n,
    ensures dsc(f, j, v) <==> econ(g, v + 1, j, v),
{
    if dsc(f, j, v) { sub_econ_a(g, f, j, v); }
    if econ(g, v + 1, j, v) { sub_econ_b(g, f, j, v); }
}
proof fn sub_econ_a(g: Eg, f: Fo, j: int, v: int)
    requires fo_ok(f), is_tree(g, f.n, f.par), 0 <= j <= v < f.n, dsc(f, j, v),
    ensures econ(g, v + 1, j, v),
    decreases v - j
{
    if j == v { ec_refl(g, v + 1, v); }
    else { fo_climb(f, j, v); let q = f.par[j] as int; dsc_le(f, q, v); sub_econ_a(g, f, q, v); assert(f.par[j] == epar(g, j, f.n)); ep_is(g, j, f.n); ec_mono(g, q + 1, v + 1, j, q); ec_trans(g, v + 1, j, q, v); }
}
proof fn sub_econ_b(g: Eg, f: Fo, j: int, v: int)
    requires fo_ok(f), is_tree(g, f.n, f.par), 0 <= j <= v < f.n, econ(g, v + 1, j, v),
    ensures dsc(f, j, v),
    decreases v - j
{
    fo_at(f, j);
    if j < v { par_skip(g, f.n, f.par, j, v); dsc_par(f, j); let q = f.par[j] as int; if q < v { sub_econ_b(g, f, q, v); dsc_trans(f, j, q, v); } }
}
pub proof fn nb_dsc(g: Eg, f: Fo, j: int, i: int)
    requires fo_ok(f), is_tree(g, f.n, f.par), 0 <= j < i < f.n, g(j, i),
    ensures dsc(f, j, i),
{ ec_edge(g, i + 1, j, i); sub_econ(g, f, j, i); }
pub open spec fn nbr(g: Eg, f: Fo, i: int, v: int, j: int) -> bool { 0 <= j < i && g(j, i) && dsc(f, j, v) }
pub proof fn fill_sub(g: Eg, f: Fo, i: int, v: int)
    requires fo_ok(f), is_tree(g, f.n, f.par), 0 <= v < i < f.n,
    ensures fill(g, i, v) <==> exists|j: int| #[trigger] nbr(g, f, i, v, j),
{
    reveal(fill);
    if fill(g, i, v) { let j = choose|j: int| #[trigger] fill_by(g, i, v, j); ec_sym(g, v + 1, v, j); sub_econ(g, f, j, v); assert(nbr(g, f, i, v, j)); }
    if exists|j: int| #[trigger] nbr(g, f, i, v, j) { let j = choose|j: int| #[trigger] nbr(g, f, i, v, j); dsc_le(f, j, v); sub_econ(g, f, j, v); ec_sym(g, v + 1, j, v); assert(fill_by(g, i, v, j)); }
}
// ---- sums over a subtree
pub open spec fn sval(f: Fo, c: Seq<i32>, v: int, u: int) -> int { if dsc(f, u, v) { c[u] as int } else { 0 } }
pub open spec fn ssum(f: Fo, c: Seq<i32>, v: int) -> int { sum(|u: int| sval(f, c, v, u), f.n) }
pub proof fn ss_upd(f: Fo, c: Seq<i32>, v: int, u: int, x: i32)
    requires 0 <= u < f.n, f.n <= c.len(),
    ensures ssum(f, c.update(u, x), v) == ssum(f, c, v) + (if dsc(f, u, v) { x - c[u] } else { 0 }),
{
    let d = c.update(u, x); let a = |y: int| sval(f, c, v, y); let b = |y: int| sval(f, d, v, y);
    assert forall|y: int| 0 <= y < f.n && y != u implies #[trigger] a(y) == b(y) by { }
    sum_point(a, b, f.n, u);
}
// ---- what the columns seen so far say about row i: dn(i, j) when entry (i, j) has been counted
pub type Dn = spec_fn(int, int) -> bool;
pub open spec fn dsub(f: Fo, dn: Dn, i: int, v: int, j: int) -> bool { dn(i, j) && dsc(f, j, v) }
pub open spec fn hasd(f: Fo, dn: Dn, i: int, v: int) -> bool { exists|j: int| #[trigger] dsub(f, dn, i, v, j) }
pub open spec fn rcv(f: Fo, dn: Dn, k: int, v: int, i: int) -> int { (if hasd(f, dn, i, v) { 1int } else { 0 }) - (if f.pos[i] < k && f.par[i] != -1 && dsc(f, f.par[i] as int, v) { 1int } else { 0 }) }
pub open spec fn csum(f: Fo, dn: Dn, k: int, v: int) -> int { sum(|i: int| rcv(f, dn, k, v, i), f.n) }
#[verifier::opaque]
pub open spec fn cc_inv(f: Fo, dn: Dn, k: int, c: Seq<i32>) -> bool { c.len() >= f.n && forall|v: int| 0 <= v < f.n ==> #[trigger] ssum(f, c, v) == csum(f, dn, k, v) }
pub open spec fn leafy(f: Fo, i: int) -> bool { 0 <= i < f.n && f.fs[i] == f.pos[i] }
pub open spec fn dn0(f: Fo) -> Dn { |i: int, j: int| i == j && leafy(f, i) }
pub open spec fn dn_add(dn: Dn, i0: int, j0: int) -> Dn { |i: int, j: int| dn(i, j) || i == i0 && j == j0 }
pub proof fn ci_init(f: Fo, c: Seq<i32>)
    requires fo_ok(f), c.len() >= f.n, forall|i: int| 0 <= i < f.n ==> #[trigger] c[i] == (if leafy(f, i) { 1int } else { 0 }),
    ensures cc_inv(f, dn0(f), 0, c),
{
    reveal(cc_inv); let dn = dn0(f);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, c, v) == csum(f, dn, 0, v) by {
        let a = |u: int| sval(f, c, v, u); let b = |i: int| rcv(f, dn, 0, v, i);
        assert forall|i: int| 0 <= i < f.n implies #[trigger] a(i) == b(i) by { fo_at(f, i); assert(hasd(f, dn, i, v) == (leafy(f, i) && dsc(f, i, v))) by { if leafy(f, i) && dsc(f, i, v) { assert(dsub(f, dn, i, v, i)); } } assert(c[i] == (if leafy(f, i) { 1int } else { 0 })); }
        sum_eq(a, b, f.n);
    }
}
// node p = the k-th: one less at its parent
pub proof fn ci_node(f: Fo, dn: Dn, k: int, c: Seq<i32>, p: int, c2: Seq<i32>)
    requires fo_ok(f), cc_inv(f, dn, k, c), 0 <= p < f.n, f.pos[p] == k, f.par[p] == -1 ==> c2 == c, f.par[p] != -1 ==> c2 == c.update(f.par[p] as int, (c[f.par[p] as int] - 1) as i32) && c[f.par[p] as int] > i32::MIN,
    ensures cc_inv(f, dn, k + 1, c2),
{
    fo_at(f, p); reveal(cc_inv);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, c2, v) == csum(f, dn, k + 1, v) by {
        let a = |i: int| rcv(f, dn, k, v, i); let b = |i: int| rcv(f, dn, k + 1, v, i);
        assert forall|i: int| 0 <= i < f.n && i != p implies #[trigger] a(i) == b(i) by { if f.pos[i] == k { fo_inj(f, i, p); } }
        sum_point(a, b, f.n, p);
        assert(ssum(f, c, v) == csum(f, dn, k, v));
        if f.par[p] != -1 { ss_upd(f, c, v, f.par[p] as int, (c[f.par[p] as int] - 1) as i32); }
    }
}
// ---- what is remembered per row
pub open spec fn rs_dn(g: Eg, f: Fo, dn: Dn, pn: Seq<i32>, i: int, j: int) -> bool { dn(i, j) ==> (j == i && leafy(f, i) || nbr(g, f, i, i, j) && pn[i] != -1 && f.pos[j] <= pn[i]) }
pub open spec fn rs_row(g: Eg, f: Fo, dn: Dn, k: int, pn: Seq<i32>, pl: Seq<i32>, i: int, x: int) -> bool {
    if pn[i] == -1 { pl[i] == -1 } else { 0 <= x < i && f.pos[x] == pn[i] && pn[i] <= k && dn(i, x) && g(x, i) && 0 <= pl[i] < i && dn(i, pl[i] as int) && dsc(f, pl[i] as int, x) }
}
#[verifier::opaque]
pub open spec fn rs(g: Eg, f: Fo, dn: Dn, k: int, pn: Seq<i32>, pl: Seq<i32>) -> bool {
    &&& pn.len() >= f.n && pl.len() >= f.n
    &&& forall|i: int| 0 <= i < f.n && f.pos[i] > k ==> exists|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, i, x)
    &&& forall|i: int, j: int| 0 <= i < f.n && f.pos[i] > k ==> #[trigger] rs_dn(g, f, dn, pn, i, j)
}
pub proof fn rs_init(g: Eg, f: Fo, pn: Seq<i32>, pl: Seq<i32>)
    requires fo_ok(f), pn.len() >= f.n, pl.len() >= f.n, forall|i: int| 0 <= i < f.n ==> #[trigger] pn[i] == -1, forall|i: int| 0 <= i < f.n ==> #[trigger] pl[i] == -1,
    ensures rs(g, f, dn0(f), -1, pn, pl),
{ reveal(rs); assert forall|i: int| 0 <= i < f.n && f.pos[i] > -1 implies exists|x: int| #[trigger] rs_row(g, f, dn0(f), -1, pn, pl, i, x) by { assert(rs_row(g, f, dn0(f), -1, pn, pl, i, 0)); } }
pub proof fn rs_node(g: Eg, f: Fo, dn: Dn, k: int, pn: Seq<i32>, pl: Seq<i32>, p: int, kk: i32)
    requires fo_ok(f), rs(g, f, dn, k - 1, pn, pl), 0 <= p < f.n, f.pos[p] == k, kk == k,
    ensures rs(g, f, dn, k, pn.update(p, kk), pl), p < pn.len(),
{
    reveal(rs); let pn2 = pn.update(p, kk);
    assert forall|i: int| 0 <= i < f.n && f.pos[i] > k implies exists|x: int| #[trigger] rs_row(g, f, dn, k, pn2, pl, i, x) by { let x = choose|x: int| #[trigger] rs_row(g, f, dn, k - 1, pn, pl, i, x); assert(rs_row(g, f, dn, k, pn2, pl, i, x)); }
    assert forall|i: int, j: int| 0 <= i < f.n && f.pos[i] > k implies #[trigger] rs_dn(g, f, dn, pn2, i, j) by { assert(rs_dn(g, f, dn, pn, i, j)); }
}
// ---- the representatives: y = sp[x] is x itself, or above x and below everything above x that is not finished
pub open spec fn fd_over(f: Fo, k: int, x: int, y: int, v: int) -> bool { dsc(f, x, v) && f.pos[v] >= k ==> dsc(f, y, v) }
pub open spec fn fd_up(f: Fo, k: int, x: int, y: int) -> bool { f.pos[x] < k && dsc(f, x, y) && y != x && forall|v: int| #[trigger] fd_over(f, k, x, y, v) }
pub open spec fn fd_at(f: Fo, k: int, sp: Seq<i32>, x: int) -> bool { let y = sp[x] as int; 0 <= y < f.n && (y == x && (f.pos[x] >= k || f.par[x] == -1) || fd_up(f, k, x, y)) }
#[verifier::opaque]
pub open spec fn fnd(f: Fo, k: int, sp: Seq<i32>) -> bool { sp.len() >= f.n && forall|x: int| 0 <= x < f.n ==> #[trigger] fd_at(f, k, sp, x) }
pub proof fn fd_init(f: Fo, sp: Seq<i32>)
    requires fo_ok(f), sp.len() >= f.n, forall|x: int| 0 <= x < f.n ==> #[trigger] sp[x] == x,
    ensures fnd(f, 0, sp),
{ reveal(fnd); assert forall|x: int| 0 <= x < f.n implies #[trigger] fd_at(f, 0, sp, x) by { fo_at(f, x); assert(sp[x] == x); } }
pub proof fn fd_fin(f: Fo, k: int, sp: Seq<i32>, p: int, sp2: Seq<i32>)
    requires fo_ok(f), fnd(f, k, sp), 0 <= p < f.n, f.pos[p] == k, sp2 == (if f.par[p] != -1 { sp.update(p, f.par[p]) } else { sp }),
    ensures fnd(f, k + 1, sp2),
{
    reveal(fnd); fo_at(f, p);
    assert forall|x: int| 0 <= x < f.n implies #[trigger] fd_at(f, k + 1, sp2, x) by {
        assert(fd_at(f, k, sp, x)); let y = sp[x] as int;
        if x != p {
            if f.pos[x] == k { fo_inj(f, x, p); }
            if fd_up(f, k, x, y) { assert forall|v: int| #[trigger] fd_over(f, k + 1, x, y, v) by { assert(fd_over(f, k, x, y, v)); } assert(fd_up(f, k + 1, x, y)); }
        } else if f.par[p] != -1 {
            let q = f.par[p] as int; dsc_par(f, p);
            assert forall|v: int| #[trigger] fd_over(f, k + 1, x, q, v) by { if dsc(f, x, v) && f.pos[v] >= k + 1 { fo_climb(f, x, v); } }
            assert(fd_up(f, k + 1, x, q));
        }
    }
}
// following representatives from l
#[verifier::opaque]
pub open spec fn fwalk(f: Fo, k: int, l: int, q: int) -> bool { dsc(f, l, q) && forall|v: int| #[trigger] fd_over(f, k, l, q, v) }
pub proof fn fw_init(f: Fo, k: int, l: int)
    requires fo_ok(f), 0 <= l < f.n,
    ensures fwalk(f, k, l, l),
{ reveal(fwalk); fo_at(f, l); }
pub proof fn fw_step(f: Fo, k: int, sp: Seq<i32>, l: int, q: int)
    requires fo_ok(f), fnd(f, k, sp), fwalk(f, k, l, q), sp[q] != q,
    ensures fwalk(f, k, l, sp[q] as int), 0 <= sp[q] < f.n, f.pos[q] < f.pos[sp[q] as int] < f.n,
{
    reveal(fnd); reveal(fwalk); assert(fd_at(f, k, sp, q)); let y = sp[q] as int; dsc_trans(f, l, q, y); fo_at(f, y); if f.pos[q] == f.pos[y] { fo_inj(f, q, y); }
    assert forall|v: int| #[trigger] fd_over(f, k, l, y, v) by { assert(fd_over(f, k, l, q, v)); assert(fd_over(f, k, q, y, v)); }
}
pub proof fn fw_in(f: Fo, k: int, sp: Seq<i32>, l: int, q: int)
    requires fo_ok(f), fnd(f, k, sp), fwalk(f, k, l, q),
    ensures 0 <= q < f.n, 0 <= l < f.n, sp.len() >= f.n, 0 <= sp[q] < f.n, f.pos[q] < f.n,
{ reveal(fnd); reveal(fwalk); assert(fd_at(f, k, sp, q)); fo_at(f, q); }
// the end of the walk: the least unfinished node above l, when there is one above
pub proof fn fw_end(f: Fo, k: int, sp: Seq<i32>, l: int, q: int, u: int)
    requires fo_ok(f), fnd(f, k, sp), fwalk(f, k, l, q), sp[q] == q, dsc(f, l, u), f.pos[u] >= k,
    ensures dsc(f, l, q), dsc(f, q, u), f.pos[q] >= k,
{ reveal(fnd); reveal(fwalk); assert(fd_at(f, k, sp, q)); assert(fd_over(f, k, l, q, u)); if f.pos[q] < k { if q != u { fo_climb(f, q, u); } } }
pub proof fn fw_over(f: Fo, k: int, l: int, q: int, v: int)
    requires fwalk(f, k, l, q), dsc(f, l, v), f.pos[v] >= k,
    ensures dsc(f, q, v),
{ reveal(fwalk); assert(fd_over(f, k, l, q, v)); }
// shortening the path
pub proof fn fd_short(f: Fo, k: int, sp: Seq<i32>, l: int, q: int, s: int, qq: i32)
    requires fo_ok(f), fnd(f, k, sp), fwalk(f, k, l, q), f.pos[q] >= k, dsc(f, l, s), dsc(f, s, q), s != q, qq == q,
    ensures fnd(f, k, sp.update(s, qq)), dsc(f, l, sp[s] as int), dsc(f, sp[s] as int, q), f.pos[s] < f.pos[sp[s] as int], 0 <= sp[s] < f.n, s < sp.len(),
{
    reveal(fnd); assert(fd_at(f, k, sp, s)); let y = sp[s] as int;
    if y == s { if f.pos[s] >= k { fw_over(f, k, l, q, s); dsc_le(f, q, s); dsc_le(f, s, q); fo_inj(f, s, q); } else { fo_climb(f, s, q); } }
    assert(fd_up(f, k, s, y)); assert(fd_over(f, k, s, y, q)); dsc_trans(f, l, s, y); if f.pos[s] == f.pos[y] { fo_inj(f, s, y); }
    let sp2 = sp.update(s, qq);
    assert forall|x: int| 0 <= x < f.n implies #[trigger] fd_at(f, k, sp2, x) by {
        assert(fd_at(f, k, sp, x));
        if x == s { assert forall|v: int| #[trigger] fd_over(f, k, s, q, v) by { if dsc(f, s, v) && f.pos[v] >= k { dsc_trans(f, l, s, v); fw_over(f, k, l, q, v); } } assert(fd_up(f, k, s, q)); }
    }
}
// ---- counting entry (u, p), p the k-th node
pub open spec fn c_at(f: Fo, dn: Dn, dm: Dn, k: int, u: int, v: int, d: int) -> bool { (if hasd(f, dm, u, v) { 1int } else { 0 }) == (if hasd(f, dn, u, v) { 1int } else { 0 }) + d }
proof fn cs_add(f: Fo, dn: Dn, u: int, p: int, k: int, v: int, d: int)
    requires 0 <= u < f.n, c_at(f, dn, dn_add(dn, u, p), k, u, v, d),
    ensures csum(f, dn_add(dn, u, p), k, v) == csum(f, dn, k, v) + d,
{
    let dm = dn_add(dn, u, p); let a = |i: int| rcv(f, dn, k, v, i); let b = |i: int| rcv(f, dm, k, v, i);
    assert forall|i: int| 0 <= i < f.n && i != u implies #[trigger] a(i) == b(i) by {
        if hasd(f, dn, i, v) { let j = choose|j: int| #[trigger] dsub(f, dn, i, v, j); assert(dsub(f, dm, i, v, j)); }
        if hasd(f, dm, i, v) { let j = choose|j: int| #[trigger] dsub(f, dm, i, v, j); assert(dsub(f, dn, i, v, j)); }
    }
    sum_point(a, b, f.n, u);
}
proof fn hd_add(f: Fo, dn: Dn, u: int, p: int, v: int)
    ensures hasd(f, dn_add(dn, u, p), u, v) == (hasd(f, dn, u, v) || dsc(f, p, v)),
{
    let dm = dn_add(dn, u, p);
    if hasd(f, dn, u, v) { let j = choose|j: int| #[trigger] dsub(f, dn, u, v, j); assert(dsub(f, dm, u, v, j)); }
    if dsc(f, p, v) { assert(dsub(f, dm, u, v, p)); }
    if hasd(f, dm, u, v) { let j = choose|j: int| #[trigger] dsub(f, dm, u, v, j); if j != p { assert(dsub(f, dn, u, v, j)); } else if dn(u, p) { assert(dsub(f, dn, u, v, p)); } }
}
// not a leaf of the row's subtree: nothing changes
pub proof fn ci_skip(g: Eg, f: Fo, dn: Dn, k: int, k1: int, c: Seq<i32>, pn: Seq<i32>, pl: Seq<i32>, p: int, u: int)
    requires fo_ok(f), cc_inv(f, dn, k1, c), rs(g, f, dn, k, pn, pl), 0 <= p < f.n, f.pos[p] == k, 0 <= u < f.n, f.pos[u] > k, f.fs[p] <= pn[u],
    ensures cc_inv(f, dn_add(dn, u, p), k1, c),
{
    fo_at(f, p);
    let x = { reveal(rs); choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, u, x) };
    assert(rs_row(g, f, dn, k, pn, pl, u, x)) by { reveal(rs); }
    assert(dsc(f, x, p));
    reveal(cc_inv);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, c, v) == csum(f, dn_add(dn, u, p), k1, v) by {
        hd_add(f, dn, u, p, v);
        if dsc(f, p, v) { dsc_trans(f, x, p, v); assert(dsub(f, dn, u, v, x)); }
        cs_add(f, dn, u, p, k1, v, 0);
        assert(ssum(f, c, v) == csum(f, dn, k1, v));
    }
}
pub open spec fn plus1(c: Seq<i32>, p: int) -> Seq<i32> { c.update(p, (c[p] + 1) as i32) }
pub open spec fn less1(c: Seq<i32>, p: int) -> Seq<i32> { c.update(p, (c[p] - 1) as i32) }
// the first leaf
pub proof fn ci_first(g: Eg, f: Fo, dn: Dn, k: int, k1: int, c: Seq<i32>, pn: Seq<i32>, pl: Seq<i32>, p: int, u: int)
    requires fo_ok(f), cc_inv(f, dn, k1, c), rs(g, f, dn, k, pn, pl), 0 <= p < u < f.n, f.pos[p] == k, f.pos[u] > k, dsc(f, p, u), pl[u] == -1, c[p] < i32::MAX,
    ensures cc_inv(f, dn_add(dn, u, p), k1, plus1(c, p)),
{
    reveal(rs); let x = choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, u, x); assert(rs_row(g, f, dn, k, pn, pl, u, x)); fo_at(f, u); fo_at(f, p);
    assert(!leafy(f, u)) by { if leafy(f, u) { fo_inj(f, p, u); } }
    reveal(cc_inv);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, plus1(c, p), v) == csum(f, dn_add(dn, u, p), k1, v) by {
        hd_add(f, dn, u, p, v);
        assert(!hasd(f, dn, u, v)) by { if hasd(f, dn, u, v) { let j = choose|j: int| #[trigger] dsub(f, dn, u, v, j); assert(rs_dn(g, f, dn, pn, u, j)); } }
        ss_upd(f, c, v, p, (c[p] + 1) as i32);
        cs_add(f, dn, u, p, k1, v, if dsc(f, p, v) { 1int } else { 0 });
        assert(ssum(f, c, v) == csum(f, dn, k1, v));
    }
}
// a further leaf: q is the least node above both it and the leaf before it
pub proof fn ci_leaf(g: Eg, f: Fo, dn: Dn, k: int, k1: int, c: Seq<i32>, pn: Seq<i32>, pl: Seq<i32>, p: int, u: int, q: int)
    requires fo_ok(f), cc_inv(f, dn, k1, c), rs(g, f, dn, k, pn, pl), 0 <= p < u < f.n, f.pos[p] == k, f.pos[u] > k, dsc(f, p, u), pl[u] != -1, f.fs[p] > pn[u], fwalk(f, k, pl[u] as int, q), dsc(f, q, u), f.pos[q] >= k, q != p, 0 <= q < f.n, c[p] < i32::MAX, c[q] > i32::MIN,
    ensures cc_inv(f, dn_add(dn, u, p), k1, less1(plus1(c, p), q)),
{
    let l = pl[u] as int; let c1 = plus1(c, p); let c2 = less1(c1, q); let dm = dn_add(dn, u, p);
    let x = { reveal(rs); choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, u, x) };
    assert(rs_row(g, f, dn, k, pn, pl, u, x)) by { reveal(rs); }
    assert forall|j: int| rs_dn(g, f, dn, pn, u, j) by { reveal(rs); }
    fo_at(f, u); fo_at(f, p); assert(!leafy(f, u)) by { if leafy(f, u) { fo_inj(f, p, u); } }
    assert(dsc(f, l, q)) by { reveal(fwalk); }
    dsc_le(f, l, x); assert(f.pos[l] <= k);
    assert(dsc(f, p, q));
    reveal(cc_inv);
    assert forall|v: int| 0 <= v < f.n implies #[trigger] ssum(f, c2, v) == csum(f, dm, k1, v) by {
        hd_add(f, dn, u, p, v);
        ss_upd(f, c, v, p, (c[p] + 1) as i32); ss_upd(f, c1, v, q, (c1[q] - 1) as i32);
        if dsc(f, q, v) { dsc_trans(f, p, q, v); dsc_trans(f, l, q, v); assert(dsub(f, dn, u, v, l)); }
        else if dsc(f, p, v) {
            if hasd(f, dn, u, v) {
                let w = choose|w: int| #[trigger] dsub(f, dn, u, v, w); assert(rs_dn(g, f, dn, pn, u, w));
                assert(dsc(f, x, v)); dsc_trans(f, l, x, v); fw_over(f, k, l, q, v);
            }
        }
        cs_add(f, dn, u, p, k1, v, (if dsc(f, p, v) { 1int } else { 0 }) - (if dsc(f, q, v) { 1int } else { 0 }));
        assert(ssum(f, c, v) == csum(f, dn, k1, v));
    }
}
pub proof fn rs_edge(g: Eg, f: Fo, dn: Dn, k: int, pn: Seq<i32>, pl: Seq<i32>, p: int, u: int, kk: i32, pp: i32)
    requires fo_ok(f), rs(g, f, dn, k, pn, pl), 0 <= p < u < f.n, f.pos[p] == k, f.pos[u] > k, g(p, u), dsc(f, p, u), kk == k, pp == p,
    ensures rs(g, f, dn_add(dn, u, p), k, pn.update(u, kk), if f.fs[p] > pn[u] { pl.update(u, pp) } else { pl }), u < pn.len(), u < pl.len(),
{
    reveal(rs); let dm = dn_add(dn, u, p); let pn2 = pn.update(u, kk); let pl2 = if f.fs[p] > pn[u] { pl.update(u, pp) } else { pl }; fo_at(f, p);
    assert forall|i: int| 0 <= i < f.n && f.pos[i] > k implies exists|x: int| #[trigger] rs_row(g, f, dm, k, pn2, pl2, i, x) by {
        let x = choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, i, x); assert(rs_row(g, f, dn, k, pn, pl, i, x));
        if i != u { assert(rs_row(g, f, dm, k, pn2, pl2, i, x)); }
        else { if f.fs[p] <= pn[u] { assert(dsc(f, x, p)); dsc_trans(f, pl[u] as int, x, p); } assert(rs_row(g, f, dm, k, pn2, pl2, i, p)); }
    }
    assert forall|i: int, j: int| 0 <= i < f.n && f.pos[i] > k implies #[trigger] rs_dn(g, f, dm, pn2, i, j) by {
        assert(rs_dn(g, f, dn, pn, i, j));
        if i == u { let x = choose|x: int| #[trigger] rs_row(g, f, dn, k, pn, pl, i, x); assert(rs_row(g, f, dn, k, pn, pl, i, x)); if j == p { assert(nbr(g, f, i, i, j)); } }
    }
}
