//@uses ungroup
// a schedule of groups written out as a schedule of supernodes: runs of nodes of one supernode are written once
pub open spec fn is_sup(sp: Seq<i32>, m: int, v: int, s: int) -> bool { 0 <= s < m && sp[s] <= v < sp[s + 1] }
pub open spec fn sup(sp: Seq<i32>, m: int, v: int) -> int { choose|s: int| #[trigger] is_sup(sp, m, v, s) }
#[verifier::opaque]
pub open spec fn sp_ok(sp: Seq<i32>, m: int, n: int) -> bool { 0 <= m < sp.len() && m <= i32::MAX && sp[0] == 0 && sp[m] == n && forall|a: int, b: int| 0 <= a <= b <= m ==> #[trigger] sp[a] <= #[trigger] sp[b] }
pub open spec fn sq(d: Ug, sp: Seq<i32>, m: int, q: int) -> int { sup(sp, m, d.gs[q] as int) }
// supernodes of entries a .. b, repeats of the one before left out
pub open spec fn runs(d: Ug, sp: Seq<i32>, m: int, a: int, b: int) -> Seq<i32>
    decreases b - a
{ if b <= a { Seq::<i32>::empty() } else { let r = runs(d, sp, m, a, b - 1); if b - 1 == a || sq(d, sp, m, b - 1) != sq(d, sp, m, b - 2) { r.push(sq(d, sp, m, b - 1) as i32) } else { r } } }
pub open spec fn sflat(d: Ug, sp: Seq<i32>, m: int, k: int) -> Seq<i32>
    decreases k
{ if k <= 0 { Seq::<i32>::empty() } else { sflat(d, sp, m, k - 1) + runs(d, sp, m, d.gp[d.ns[k - 1] as int] as int, d.gp[d.ns[k - 1] + 1] as int) } }
pub open spec fn spt(d: Ug, sp: Seq<i32>, m: int, j: int) -> int { sflat(d, sp, m, d.pp[j] as int).len() as int }
pub proof fn sp_at(sp: Seq<i32>, m: int, n: int, s: int)
    requires sp_ok(sp, m, n), 0 <= s < m,
    ensures 0 <= sp[s] <= sp[s + 1] <= n, m < sp.len(), forall|v: int| sp[s] <= v < sp[s + 1] ==> #[trigger] sup(sp, m, v) == s,
{
    reveal(sp_ok); assert(sp[0] <= sp[s]); assert(sp[s + 1] <= sp[m]);
    assert forall|v: int| sp[s] <= v < sp[s + 1] implies #[trigger] sup(sp, m, v) == s by { assert(is_sup(sp, m, v, s)); let t = sup(sp, m, v); assert(is_sup(sp, m, v, t)); if t < s { assert(sp[t + 1] <= sp[s]); } if s < t { assert(sp[s + 1] <= sp[t]); } }
}
pub proof fn sp_ends(sp: Seq<i32>, m: int, n: int)
    requires sp_ok(sp, m, n),
    ensures 0 <= m < sp.len(), m <= i32::MAX, sp[0] == 0, sp[m] == n,
{ reveal(sp_ok); }
#[verifier::opaque]
pub open spec fn inv_upto(sp: Seq<i32>, m: int, n: int, iv: Seq<i32>, x: int) -> bool { iv.len() == n && forall|v: int| 0 <= v < x ==> #[trigger] iv[v] == sup(sp, m, v) }
pub proof fn iu_init(sp: Seq<i32>, m: int, n: int, iv: Seq<i32>)
    requires iv.len() == n,
    ensures inv_upto(sp, m, n, iv, 0),
{ reveal(inv_upto); }
pub proof fn iu_step(sp: Seq<i32>, m: int, n: int, iv: Seq<i32>, s: i32, x: int)
    requires sp_ok(sp, m, n), inv_upto(sp, m, n, iv, x), 0 <= s < m, sp[s as int] <= x < sp[s + 1],
    ensures inv_upto(sp, m, n, iv.update(x, s), x + 1), iv.len() == n, 0 <= x < n,
{ reveal(inv_upto); sp_at(sp, m, n, s as int); }
pub proof fn iu_use(d: Ug, sp: Seq<i32>, m: int, iv: Seq<i32>, k: int, q: int)
    requires ug_ok(d), sp_ok(sp, m, d.n), inv_upto(sp, m, d.n, iv, d.n), 0 <= k < d.pp[d.np], d.gp[d.ns[k] as int] <= q < d.gp[d.ns[k] + 1],
    ensures 0 <= q < d.gs.len(), 0 <= d.gs[q] < d.n, iv.len() == d.n, iv[d.gs[q] as int] == sq(d, sp, m, q), 0 <= sq(d, sp, m, q),
{ sp_ends(sp, m, d.n); reveal(inv_upto); ug_pos(d, k); reveal(ug_ok); assert(d.gp[d.ns[k] + 1] <= d.gp[d.ng]); sup_is(sp, m, d.n, d.gs[q] as int, m); }
proof fn sup_is(sp: Seq<i32>, m: int, n: int, v: int, k: int)
    requires sp_ok(sp, m, n), 0 <= k <= m, 0 <= v < sp[k],
    ensures is_sup(sp, m, v, sup(sp, m, v)),
    decreases k
{ reveal(sp_ok); if k > 0 { if v < sp[k - 1] { sup_is(sp, m, n, v, k - 1); } else { assert(is_sup(sp, m, v, k - 1)); } } }
proof fn runs_len(d: Ug, sp: Seq<i32>, m: int, a: int, b: int)
    requires a <= b,
    ensures runs(d, sp, m, a, b).len() <= b - a, a < b ==> runs(d, sp, m, a, b).len() > 0,
    decreases b - a
{ if a < b { runs_len(d, sp, m, a, b - 1); } }
proof fn sflat_len(d: Ug, sp: Seq<i32>, m: int, k: int)
    requires ug_ok(d), 0 <= k <= d.pp[d.np],
    ensures sflat(d, sp, m, k).len() <= flat(d, k).len() <= d.n,
    decreases k
{ flat_le(d, k); if k > 0 { ug_pos(d, k - 1); sflat_len(d, sp, m, k - 1); runs_len(d, sp, m, d.gp[d.ns[k - 1] as int] as int, d.gp[d.ns[k - 1] + 1] as int); assert(grp(d, k - 1).len() == d.gp[d.ns[k - 1] + 1] - d.gp[d.ns[k - 1] as int]); } }
proof fn flat_le(d: Ug, k: int)
    requires ug_ok(d), 0 <= k <= d.pp[d.np],
    ensures flat(d, k).len() <= d.n,
{ if k < d.pp[d.np] { ug_pos(d, k); } else { reveal(ug_ok); } }
pub open spec fn last_sup(d: Ug, sp: Seq<i32>, m: int, a: int, q: int) -> int { if q > a { sq(d, sp, m, q - 1) } else { -1 } }
#[verifier::opaque]
pub open spec fn sw(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>, k: int, q: int) -> bool { u == sflat(d, sp, m, k) + (if k < d.pp[d.np] { runs(d, sp, m, d.gp[d.ns[k] as int] as int, q) } else { Seq::<i32>::empty() }) }
pub proof fn sw_init(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>)
    requires u.len() == 0,
    ensures sw(d, sp, m, u, 0, gst(d, 0)),
{ reveal(sw); if 0 < d.pp[d.np] { assert(runs(d, sp, m, gst(d, 0), gst(d, 0)).len() == 0); assert(u =~= sflat(d, sp, m, 0) + runs(d, sp, m, gst(d, 0), gst(d, 0))); } else { assert(u =~= sflat(d, sp, m, 0) + Seq::<i32>::empty()); } }
pub proof fn sw_len(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>, k: int)
    requires ug_ok(d), sw(d, sp, m, u, k, gst(d, k)), 0 <= k <= d.pp[d.np],
    ensures u == sflat(d, sp, m, k), u.len() <= d.n, d.n < i32::MAX,
{ reveal(sw); sflat_len(d, sp, m, k); ug_bounds(d); assert(u =~= sflat(d, sp, m, k)); }
pub proof fn sw_step(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>, k: int, q: int)
    requires ug_ok(d), sp_ok(sp, m, d.n), 0 <= k < d.pp[d.np], sw(d, sp, m, u, k, q), d.gp[d.ns[k] as int] <= q < d.gp[d.ns[k] + 1],
    ensures sq(d, sp, m, q) != last_sup(d, sp, m, d.gp[d.ns[k] as int] as int, q) ==> sw(d, sp, m, u.push(sq(d, sp, m, q) as i32), k, q + 1), sq(d, sp, m, q) == last_sup(d, sp, m, d.gp[d.ns[k] as int] as int, q) ==> sw(d, sp, m, u, k, q + 1),
        u.len() < d.n < i32::MAX, u.len() >= sflat(d, sp, m, k).len(),
{
    reveal(sw); ug_pos(d, k); let a = d.gp[d.ns[k] as int] as int; runs_len(d, sp, m, a, q); sflat_len(d, sp, m, k); assert(flat(d, k).len() + (d.gp[d.ns[k] + 1] - a) <= d.n);
    reveal(ug_ok); assert(d.gp[d.ns[k] + 1] <= d.gp[d.ng]); assert(0 <= d.gs[q] < d.n); sp_ends(sp, m, d.n); sup_is(sp, m, d.n, d.gs[q] as int, m); assert(sq(d, sp, m, q) >= 0);
    let r = runs(d, sp, m, a, q); let x = sq(d, sp, m, q) as i32; assert(sflat(d, sp, m, k) + r.push(x) =~= (sflat(d, sp, m, k) + r).push(x));
}
pub proof fn sw_next(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>, k: int)
    requires ug_ok(d), 0 <= k < d.pp[d.np], sw(d, sp, m, u, k, d.gp[d.ns[k] + 1] as int),
    ensures sw(d, sp, m, u, k + 1, gst(d, k + 1)), u == sflat(d, sp, m, k + 1),
{ reveal(sw); assert(u =~= sflat(d, sp, m, k + 1)); if k + 1 < d.pp[d.np] { let b = gst(d, k + 1); assert(runs(d, sp, m, b, b).len() == 0); assert(u =~= sflat(d, sp, m, k + 1) + runs(d, sp, m, b, b)); } else { assert(u =~= sflat(d, sp, m, k + 1) + Seq::<i32>::empty()); } }
proof fn sflat_mono(d: Ug, sp: Seq<i32>, m: int, a: int, b: int)
    requires 0 <= a <= b,
    ensures sflat(d, sp, m, a).len() <= sflat(d, sp, m, b).len(), forall|x: int| 0 <= x < sflat(d, sp, m, a).len() ==> sflat(d, sp, m, b)[x] == #[trigger] sflat(d, sp, m, a)[x],
    decreases b
{ if a < b { sflat_mono(d, sp, m, a, b - 1); assert forall|x: int| 0 <= x < sflat(d, sp, m, a).len() implies sflat(d, sp, m, b)[x] == #[trigger] sflat(d, sp, m, a)[x] by { assert(sflat(d, sp, m, b - 1)[x] == sflat(d, sp, m, a)[x]); } } }
pub proof fn part_len(d: Ug, sp: Seq<i32>, m: int, u: Seq<i32>, j: int, k: int)
    requires ug_ok(d), 0 <= j < d.np, d.pp[j] <= k <= d.pp[j + 1], sw(d, sp, m, u, k, gst(d, k)),
    ensures spt(d, sp, m, j) <= u.len() <= d.n,
{ ug_part(d, j); sw_len(d, sp, m, u, k); sflat_mono(d, sp, m, d.pp[j] as int, k); }
#[verifier::opaque]
pub open spec fn spts(d: Ug, sp: Seq<i32>, m: int, f: Seq<i32>, j: int) -> bool { f.len() == d.pp.len() && (forall|a: int| 0 <= a <= j ==> #[trigger] f[a] == spt(d, sp, m, a)) && (forall|a: int| j < a < f.len() ==> #[trigger] f[a] == d.pp[a]) }
pub proof fn spts_init(d: Ug, sp: Seq<i32>, m: int)
    requires ug_ok(d),
    ensures spts(d, sp, m, d.pp, 0),
{ reveal(spts); ug_bounds(d); assert(sflat(d, sp, m, 0).len() == 0); }
pub proof fn spts_get(d: Ug, sp: Seq<i32>, m: int, f: Seq<i32>, j: int)
    requires ug_ok(d), spts(d, sp, m, f, j), 0 <= j <= d.np,
    ensures f.len() == d.pp.len(), f[j] == spt(d, sp, m, j), 0 <= f[j] <= d.n,
{ reveal(spts); if j < d.np { ug_part(d, j); } else { reveal(ug_ok); assert(d.pp[0] <= d.pp[d.np]); } sflat_len(d, sp, m, d.pp[j] as int); }
pub proof fn spts_step(d: Ug, sp: Seq<i32>, m: int, f: Seq<i32>, j: int, x: i32)
    requires ug_ok(d), spts(d, sp, m, f, j), 0 <= j < d.np, x == spt(d, sp, m, j + 1),
    ensures spts(d, sp, m, f.update(j + 1, x), j + 1),
{ reveal(spts); ug_bounds(d); }
// ---- what the lists say
pub open spec fn sup_bounds(d: Ug, sp: Seq<i32>, m: int, old: Seq<i32>, f: Seq<i32>) -> bool { f.len() == old.len() && f[0] == 0 && (forall|a: int| 0 <= a <= d.np ==> #[trigger] f[a] == spt(d, sp, m, a)) && (forall|a: int| d.np < a < f.len() ==> #[trigger] f[a] == old[a]) && forall|a: int| 0 <= a < d.np ==> #[trigger] f[a] <= f[a + 1] }
// entry q belongs to part j of the given schedule
pub open spec fn of_part(d: Ug, j: int, k: int, q: int) -> bool { d.pp[j] <= k < d.pp[j + 1] && d.gp[d.ns[k] as int] <= q < d.gp[d.ns[k] + 1] }
pub open spec fn shown(u: Seq<i32>, a: int, b: int, s: int) -> bool { exists|x: int| a <= x < b && #[trigger] u[x] == s }
pub open spec fn from_part(d: Ug, sp: Seq<i32>, m: int, j: int, s: int) -> bool { exists|k: int, q: int| #[trigger] of_part(d, j, k, q) && is_sup(sp, m, d.gs[q] as int, s) }
// the supernode of every node of a part is listed in that part, and nothing else is
pub open spec fn sup_cover(d: Ug, sp: Seq<i32>, m: int, f: Seq<i32>, u: Seq<i32>) -> bool {
    (forall|j: int, k: int, q: int| 0 <= j < d.np && #[trigger] of_part(d, j, k, q) ==> shown(u, f[j] as int, f[j + 1] as int, sq(d, sp, m, q)))
    && (forall|j: int, x: int| 0 <= j < d.np && #[trigger] f[j] <= x < f[j + 1] ==> from_part(d, sp, m, j, #[trigger] u[x] as int))
}
proof fn runs_has(d: Ug, sp: Seq<i32>, m: int, a: int, b: int, q: int) -> (x: int)
    requires a <= q < b, 0 <= sq(d, sp, m, q) <= i32::MAX,
    ensures 0 <= x < runs(d, sp, m, a, b).len(), runs(d, sp, m, a, b)[x] == sq(d, sp, m, q),
    decreases b - a
{
    runs_len(d, sp, m, a, b);
    if q < b - 1 { runs_has(d, sp, m, a, b - 1, q) }
    else if q == a || sq(d, sp, m, q) != sq(d, sp, m, q - 1) { runs(d, sp, m, a, b - 1).len() as int }
    else { runs_has(d, sp, m, a, b - 1, q - 1) }
}
proof fn runs_from(d: Ug, sp: Seq<i32>, m: int, a: int, b: int, x: int) -> (q: int)
    requires 0 <= x < runs(d, sp, m, a, b).len(),
    ensures a <= q < b, runs(d, sp, m, a, b)[x] == sq(d, sp, m, q) as i32,
    decreases b - a
{ if x < runs(d, sp, m, a, b - 1).len() { runs_from(d, sp, m, a, b - 1, x) } else { b - 1 } }
proof fn sflat_from(d: Ug, sp: Seq<i32>, m: int, k: int, x: int) -> (z: (int, int))
    requires 0 <= x < sflat(d, sp, m, k).len(),
    ensures 0 <= z.0 < k, d.gp[d.ns[z.0] as int] <= z.1 < d.gp[d.ns[z.0] + 1], sflat(d, sp, m, k)[x] == sq(d, sp, m, z.1) as i32, sflat(d, sp, m, z.0).len() <= x < sflat(d, sp, m, z.0 + 1).len(),
    decreases k
{ let c = sflat(d, sp, m, k - 1).len(); if x < c { sflat_from(d, sp, m, k - 1, x) } else { let q = runs_from(d, sp, m, d.gp[d.ns[k - 1] as int] as int, d.gp[d.ns[k - 1] + 1] as int, x - c); (k - 1, q) } }
pub proof fn sup_done(d: Ug, sp: Seq<i32>, m: int, f: Seq<i32>, u: Seq<i32>)
    requires ug_ok(d), sp_ok(sp, m, d.n), spts(d, sp, m, f, d.np), u == sflat(d, sp, m, d.pp[d.np] as int),
    ensures sup_bounds(d, sp, m, d.pp, f), sup_cover(d, sp, m, f, u),
{
    reveal(spts); ug_bounds(d); assert(sflat(d, sp, m, 0).len() == 0);
    assert forall|a: int| 0 <= a < d.np implies #[trigger] f[a] <= f[a + 1] by { ug_part(d, a); sflat_mono(d, sp, m, d.pp[a] as int, d.pp[a + 1] as int); assert(f[a + 1] == spt(d, sp, m, a + 1)); sflat_len(d, sp, m, d.pp[a] as int); sflat_len(d, sp, m, d.pp[a + 1] as int); }
    assert forall|j: int, k: int, q: int| 0 <= j < d.np && #[trigger] of_part(d, j, k, q) implies shown(u, f[j] as int, f[j + 1] as int, sq(d, sp, m, q)) by {
        ug_part(d, j); sup_in(d, sp, m, k, q); let a = d.gp[d.ns[k] as int] as int; let b = d.gp[d.ns[k] + 1] as int; let x = runs_has(d, sp, m, a, b, q); let y = sflat(d, sp, m, k).len() + x;
        sflat_mono(d, sp, m, d.pp[j] as int, k); sflat_mono(d, sp, m, k + 1, d.pp[j + 1] as int); sflat_mono(d, sp, m, k + 1, d.pp[d.np] as int); assert(f[j] == spt(d, sp, m, j) && f[j + 1] == spt(d, sp, m, j + 1)); assert(sflat(d, sp, m, k + 1)[y] == sq(d, sp, m, q)); assert(u[y] == sq(d, sp, m, q));
    }
    assert forall|j: int, x: int| 0 <= j < d.np && #[trigger] f[j] <= x < f[j + 1] implies from_part(d, sp, m, j, #[trigger] u[x] as int) by {
        ug_part(d, j); assert(f[j] == spt(d, sp, m, j) && f[j + 1] == spt(d, sp, m, j + 1)); let h = d.pp[j + 1] as int; sflat_mono(d, sp, m, h, d.pp[d.np] as int); assert(u[x] == sflat(d, sp, m, h)[x]); let z = sflat_from(d, sp, m, h, x);
        if z.0 < d.pp[j] { sflat_mono(d, sp, m, z.0 + 1, d.pp[j] as int); } assert(of_part(d, j, z.0, z.1)); sup_in(d, sp, m, z.0, z.1);
    }
}
proof fn sup_in(d: Ug, sp: Seq<i32>, m: int, k: int, q: int)
    requires ug_ok(d), sp_ok(sp, m, d.n), 0 <= k < d.pp[d.np], d.gp[d.ns[k] as int] <= q < d.gp[d.ns[k] + 1],
    ensures is_sup(sp, m, d.gs[q] as int, sq(d, sp, m, q)), 0 <= sq(d, sp, m, q) < m <= i32::MAX,
{ ug_pos(d, k); reveal(ug_ok); assert(d.gp[d.ns[k] + 1] <= d.gp[d.ng]); assert(0 <= d.gs[q] < d.n); sp_ends(sp, m, d.n); sup_is(sp, m, d.n, d.gs[q] as int, m); }
pub proof fn ug_end(d: Ug)
    requires ug_ok(d),
    ensures 0 <= d.pp[d.np] <= d.ns.len(), d.np < d.pp.len(),
{ reveal(ug_ok); assert(d.pp[0] <= d.pp[d.np]); }
