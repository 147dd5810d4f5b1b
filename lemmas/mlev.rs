//@uses wbfs
// level sets of K copies of a graph: copy k of a node follows copy k - 1 of the node and copy k of its predecessors; item k * n + v is copy k of node v
// lo..hi: a node's entries; s: the node of an entry (-1: none); tg: the node it leads to; hl: the nodes that are listed; ix: their places in hl
pub ghost struct Ml { pub n: int, pub K: int, pub m: int, pub lo: Seq<int>, pub hi: Seq<int>, pub s: Seq<int>, pub tg: Seq<int>, pub hl: Seq<i32>, pub ix: Seq<int>, pub rk: Seq<int>, pub bn: bool }
pub open spec fn BASE() -> int { 16843009 }
#[verifier::opaque]
pub open spec fn code(n: int, v: int, k: int) -> int { v + n * k }
#[verifier::opaque]
pub open spec fn vd(n: int, x: int) -> int { x % n }
#[verifier::opaque]
pub open spec fn kd(n: int, x: int) -> int { x / n }
pub proof fn dec(n: int, x: int, kk: int)
    requires n >= 1, 0 <= x < n * kk,
    ensures 0 <= vd(n, x) < n, 0 <= kd(n, x) < kk, code(n, vd(n, x), kd(n, x)) == x,
{
    reveal(code); reveal(vd); reveal(kd);
    assert(0 <= x % n < n && x == n * (x / n) + x % n && 0 <= x / n) by (nonlinear_arith) requires n >= 1, x >= 0;
    let a = x / n; assert(a < kk) by (nonlinear_arith) requires n * a <= x, x < n * kk, n >= 1;
}
pub proof fn cod(n: int, v: int, k: int, kk: int)
    requires n >= 1, 0 <= v < n, 0 <= k < kk,
    ensures vd(n, code(n, v, k)) == v, kd(n, code(n, v, k)) == k, 0 <= code(n, v, k) < n * kk, code(n, v, k) == v + n * k, 0 <= n * k <= n * kk - n,
{
    reveal(code); reveal(vd); reveal(kd);
    assert(0 <= n * k && n * k + n <= n * kk) by (nonlinear_arith) requires n >= 1, 0 <= k, k + 1 <= kk;
    let x = v + n * k; let a = x / n; let b = x % n;
    assert(x == n * a + b && 0 <= b < n) by (nonlinear_arith) requires n >= 1, a == x / n, b == x % n;
    assert(a == k) by (nonlinear_arith) requires v + n * k == n * a + b, 0 <= b < n, 0 <= v < n, n >= 1;
}
pub open spec fn cd(d: Ml, v: int, k: int) -> int { code(d.n, v, k) }
pub open spec fn vx(d: Ml, x: int) -> int { vd(d.n, x) }
pub open spec fn kx(d: Ml, x: int) -> int { kd(d.n, x) }
pub open spec fn hd(d: Ml, v: int) -> bool { 0 <= v < d.n && d.ix[v] >= 0 }
pub open spec fn it(d: Ml, v: int, k: int) -> bool { hd(d, v) && 0 <= k < d.K }
pub open spec fn vld(d: Ml, e: int) -> bool { 0 <= e < d.m && d.s[e] >= 0 }
// entries among the first k of u that lead to v, from other nodes or from any
pub open spec fn cn(d: Ml, u: ISet<int>, k: int, v: int) -> int
    decreases k
{ if k <= 0 { 0 } else { cn(d, u, k - 1, v) + (if u.contains(k - 1) && d.tg[k - 1] == v && d.s[k - 1] != v { 1int } else { 0int }) } }
pub open spec fn ca(d: Ml, u: ISet<int>, k: int, v: int) -> int
    decreases k
{ if k <= 0 { 0 } else { ca(d, u, k - 1, v) + (if u.contains(k - 1) && d.tg[k - 1] == v { 1int } else { 0int }) } }
pub open spec fn mall(d: Ml) -> ISet<int> { ISet::new(|e: int| vld(d, e)) }
pub open spec fn ind(d: Ml, v: int) -> int { cn(d, mall(d), d.m, v) }
pub open spec fn cnt0(d: Ml, us: Seq<ISet<int>>, v: int) -> int { cn(d, us[0], d.m, v) }
pub open spec fn own_few(d: Ml, v: int) -> bool { ca(d, mall(d), d.m, v) < ind(d, v) + BASE() - 1 }
#[verifier::opaque]
pub open spec fn ml_ok(d: Ml) -> bool {
    d.n >= 1 && d.K >= 1 && d.m >= 0 && d.n * d.K < i32::MAX && (if d.K > 1 { d.m + BASE() < i32::MAX } else { d.m + 1 < i32::MAX })
    && d.lo.len() >= d.n && d.hi.len() >= d.n && d.ix.len() >= d.n && d.s.len() >= d.m && d.tg.len() >= d.m && d.rk.len() >= d.n
    && (forall|a: int| 0 <= a < d.hl.len() ==> 0 <= #[trigger] d.hl[a] < d.n && d.ix[d.hl[a] as int] == a)
    && (forall|v: int| 0 <= v < d.n ==> -1 <= #[trigger] d.ix[v] < d.hl.len() && (d.ix[v] >= 0 ==> d.hl[d.ix[v]] == v))
    && (forall|v: int| #[trigger] hd(d, v) ==> 0 <= d.lo[v] <= d.hi[v] <= d.m)
    && (forall|v: int, e: int| #[trigger] hd(d, v) && d.lo[v] <= e < d.hi[v] ==> #[trigger] d.s[e] == v)
    && (forall|e: int| #[trigger] vld(d, e) ==> hd(d, d.s[e]) && d.lo[d.s[e]] <= e < d.hi[d.s[e]] && hd(d, d.tg[e]) && (d.s[e] != d.tg[e] ==> d.rk[d.s[e]] < d.rk[d.tg[e]]) && (!d.bn ==> d.s[e] != d.tg[e]))
    && (forall|v: int| #[trigger] hd(d, v) ==> d.K > 1 ==> own_few(d, v))
}
proof fn cn_rm(d: Ml, u: ISet<int>, k: int, v: int, e: int)
    requires u.contains(e), e >= 0,
    ensures cn(d, u.remove(e), k, v) == cn(d, u, k, v) - (if e < k && d.tg[e] == v && d.s[e] != v { 1int } else { 0int }), ca(d, u.remove(e), k, v) == ca(d, u, k, v) - (if e < k && d.tg[e] == v { 1int } else { 0int }),
    decreases k
{ if k > 0 { cn_rm(d, u, k - 1, v, e); } }
proof fn cn_in(d: Ml, u: ISet<int>, k: int, v: int, e: int)
    requires !u.contains(e), e >= 0,
    ensures cn(d, u.insert(e), k, v) == cn(d, u, k, v) + (if e < k && d.tg[e] == v && d.s[e] != v { 1int } else { 0int }),
    decreases k
{ if k > 0 { cn_in(d, u, k - 1, v, e); } }
proof fn cn_ge(d: Ml, u: ISet<int>, k: int, v: int)
    requires k >= 0,
    ensures 0 <= cn(d, u, k, v) <= ca(d, u, k, v) <= k,
    decreases k
{ if k > 0 { cn_ge(d, u, k - 1, v); } }
proof fn cn_none(d: Ml, u: ISet<int>, k: int, v: int)
    requires forall|e: int| !#[trigger] u.contains(e),
    ensures cn(d, u, k, v) == 0,
    decreases k
{ if k > 0 { cn_none(d, u, k - 1, v); } }
proof fn cn_same(d: Ml, u: ISet<int>, k: int, v: int)
    requires forall|e: int| #[trigger] u.contains(e) ==> d.s[e] != d.tg[e],
    ensures cn(d, u, k, v) == ca(d, u, k, v),
    decreases k
{ if k > 0 { cn_same(d, u, k - 1, v); } }
proof fn cn_has(d: Ml, u: ISet<int>, k: int, v: int, e: int)
    requires 0 <= e < k, u.contains(e), d.tg[e] == v, d.s[e] != v,
    ensures cn(d, u, k, v) >= 1,
    decreases k
{ cn_ge(d, u, k - 1, v); if e < k - 1 { cn_has(d, u, k - 1, v, e); } }
proof fn ca_has(d: Ml, u: ISet<int>, k: int, v: int, e: int)
    requires 0 <= e < k, u.contains(e), d.tg[e] == v,
    ensures ca(d, u, k, v) >= 1,
    decreases k
{ cn_ge(d, u, k - 1, v); if e < k - 1 { ca_has(d, u, k - 1, v, e); } }
proof fn cn_find(d: Ml, u: ISet<int>, k: int, v: int) -> (e: int)
    requires cn(d, u, k, v) >= 1,
    ensures 0 <= e < k, u.contains(e), d.tg[e] == v, d.s[e] != v,
    decreases k
{ if u.contains(k - 1) && d.tg[k - 1] == v && d.s[k - 1] != v { k - 1 } else { cn_find(d, u, k - 1, v) } }
proof fn cn_ext(d: Ml, u: ISet<int>, w: ISet<int>, k: int, v: int)
    requires forall|e: int| 0 <= e < k ==> (#[trigger] u.contains(e) <==> w.contains(e)),
    ensures cn(d, u, k, v) == cn(d, w, k, v),
    decreases k
{ if k > 0 { cn_ext(d, u, w, k - 1, v); assert(u.contains(k - 1) <==> w.contains(k - 1)); } }
// ---- the degrees are counted
// entries of the first i listed nodes and those of the i-th in cl..ch
pub open spec fn dn(d: Ml, i: int, cl: int, ch: int) -> ISet<int> { ISet::new(|e: int| vld(d, e) && (d.ix[d.s[e]] < i || (d.ix[d.s[e]] == i && cl <= e < ch))) }
pub open spec fn kbase(k: int) -> int { if k > 0 { BASE() } else { 0 } }
#[verifier::opaque]
pub open spec fn deg_part(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, w: int, qq: int) -> bool {
    deg.len() == d.n * d.K && forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K ==> deg[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, dn(d, i, cl, ch), d.m, v) + (if v == w && k < qq { 1int } else { 0int })
}
pub proof fn deg_init(d: Ml, deg: Seq<i32>)
    requires ml_ok(d), deg.len() == d.n * d.K, forall|x: int| 0 <= x < d.n * d.K ==> #[trigger] deg[x] == (if x >= d.n { BASE() } else { 0 }),
    ensures deg_part(d, deg, 0, 0, 0, -1, 0),
{
    reveal(ml_ok); reveal(deg_part);
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies deg[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, dn(d, 0, 0, 0), d.m, v) by {
        cod(d.n, v, k, d.K); assert(k == 0 ==> d.n * k == 0); assert(k > 0 ==> d.n * k >= d.n) by (nonlinear_arith) requires d.n >= 1, k >= 0;
        assert forall|e: int| !#[trigger] dn(d, 0, 0, 0).contains(e) by { if vld(d, e) { assert(hd(d, d.s[e])); } }
        cn_none(d, dn(d, 0, 0, 0), d.m, v);
    }
}
pub proof fn deg_at(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, w: int, qq: int)
    requires ml_ok(d), deg_part(d, deg, i, cl, ch, w, qq), hd(d, w), 0 <= qq < d.K,
    ensures deg.len() == d.n * d.K, 0 <= cd(d, w, qq) < d.n * d.K, cd(d, w, qq) == w + d.n * qq, 0 <= d.n * qq <= d.n * d.K - d.n, 0 <= deg[cd(d, w, qq)] < i32::MAX,
{ reveal(ml_ok); reveal(deg_part); cod(d.n, w, qq, d.K); let z = deg[cd(d, w, qq)]; cn_ge(d, dn(d, i, cl, ch), d.m, w); }
pub proof fn deg_q(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, w: int, qq: int, x: i32)
    requires ml_ok(d), deg_part(d, deg, i, cl, ch, w, qq), hd(d, w), 0 <= qq < d.K, x == deg[cd(d, w, qq)] + 1,
    ensures deg_part(d, deg.update(cd(d, w, qq), x), i, cl, ch, w, qq + 1),
{
    reveal(ml_ok); reveal(deg_part); let d2 = deg.update(cd(d, w, qq), x); cod(d.n, w, qq, d.K);
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies d2[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, dn(d, i, cl, ch), d.m, v) + (if v == w && k < qq + 1 { 1int } else { 0int }) by { cod(d.n, v, k, d.K); }
}
// the entry is counted: up (at ch) or down (at cl - 1); own entries are passed over
pub proof fn deg_e(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, e: int, cl2: int, ch2: int)
    requires ml_ok(d), 0 <= i < d.hl.len(), d.lo[d.hl[i] as int] <= e < d.hi[d.hl[i] as int], cl <= ch, (e == ch && cl2 == cl && ch2 == ch + 1) || (e == cl - 1 && cl2 == cl - 1 && ch2 == ch),
        if d.tg[e] == d.s[e] { deg_part(d, deg, i, cl, ch, -1, 0) } else { deg_part(d, deg, i, cl, ch, d.tg[e], d.K) },
    ensures deg_part(d, deg, i, cl2, ch2, -1, 0),
{
    reveal(ml_ok); reveal(deg_part); assert(hd(d, d.hl[i] as int)); assert(d.s[e] == d.hl[i]); assert(vld(d, e));
    let a = dn(d, i, cl, ch); let b = dn(d, i, cl2, ch2);
    assert(!a.contains(e));
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies deg[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, b, d.m, v) by {
        cn_in(d, a, d.m, v, e); assert forall|y: int| 0 <= y < d.m implies (#[trigger] b.contains(y) <==> a.insert(e).contains(y)) by {} cn_ext(d, b, a.insert(e), d.m, v);
    }
}
pub proof fn deg_e0(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, w: int)
    requires deg_part(d, deg, i, cl, ch, -1, 0),
    ensures deg_part(d, deg, i, cl, ch, w, 0),
{ reveal(deg_part); }
pub proof fn deg_node(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int)
    requires ml_ok(d), 0 <= i < d.hl.len(), deg_part(d, deg, i, cl, ch, -1, 0), cl <= d.lo[d.hl[i] as int], ch >= d.hi[d.hl[i] as int],
    ensures deg_part(d, deg, i + 1, 0, 0, -1, 0),
{
    reveal(ml_ok); reveal(deg_part); let a = dn(d, i, cl, ch);
    let b = dn(d, i + 1, 0, 0);
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies deg[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, b, d.m, v) by {
        assert forall|y: int| 0 <= y < d.m implies (#[trigger] b.contains(y) <==> a.contains(y)) by { if vld(d, y) { assert(hd(d, d.s[y])); } }
        cn_ext(d, b, a, d.m, v);
    }
}
pub proof fn deg_start(d: Ml, deg: Seq<i32>, i: int, cl: int, ch: int, x: int)
    requires ml_ok(d), deg_part(d, deg, i, cl, ch, -1, 0), cl >= ch,
    ensures deg_part(d, deg, i, x, x, -1, 0),
{
    reveal(deg_part); let a = dn(d, i, cl, ch); let b = dn(d, i, x, x);
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies deg[#[trigger] cd(d, v, k)] == kbase(k) + cn(d, b, d.m, v) by {
        assert forall|y: int| 0 <= y < d.m implies (#[trigger] b.contains(y) <==> a.contains(y)) by {} cn_ext(d, b, a, d.m, v);
    }
}
#[verifier::opaque]
pub open spec fn deg_is(d: Ml, deg: Seq<i32>) -> bool { deg.len() == d.n * d.K && forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K ==> deg[#[trigger] cd(d, v, k)] == kbase(k) + ind(d, v) }
pub proof fn deg_done(d: Ml, deg: Seq<i32>, cl: int, ch: int)
    requires ml_ok(d), deg_part(d, deg, d.hl.len() as int, cl, ch, -1, 0),
    ensures deg_is(d, deg),
{
    reveal(ml_ok); reveal(deg_part); reveal(deg_is); let a = dn(d, d.hl.len() as int, cl, ch); let b = mall(d);
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies deg[#[trigger] cd(d, v, k)] == kbase(k) + ind(d, v) by {
        assert forall|y: int| 0 <= y < d.m implies (#[trigger] b.contains(y) <==> a.contains(y)) by { if vld(d, y) { assert(hd(d, d.s[y])); } }
        cn_ext(d, b, a, d.m, v);
    }
}
// ---- the sources are listed
#[verifier::opaque]
pub open spec fn srcs_part(d: Ml, i: int, q: Seq<i32>, inq: Seq<bool>) -> bool {
    q.no_duplicates() && inq.len() == d.n * d.K && (forall|x: int| 0 <= x < q.len() ==> hd(d, #[trigger] q[x] as int) && ind(d, q[x] as int) == 0 && d.ix[q[x] as int] < i)
    && (forall|v: int| #[trigger] hd(d, v) && d.ix[v] < i && ind(d, v) == 0 ==> q.contains(v as i32)) && (forall|x: int| 0 <= x < inq.len() ==> (#[trigger] inq[x] ==> q.contains(x as i32)))
}
pub proof fn srcs_init(d: Ml, inq: Seq<bool>)
    requires ml_ok(d), inq.len() == d.n * d.K, forall|x: int| 0 <= x < inq.len() ==> !#[trigger] inq[x],
    ensures srcs_part(d, 0, seq![], inq),
{ reveal(srcs_part); reveal(ml_ok); }
pub proof fn srcs_at(d: Ml, deg: Seq<i32>, i: int, q: Seq<i32>, inq: Seq<bool>)
    requires ml_ok(d), deg_is(d, deg), srcs_part(d, i, q, inq), 0 <= i < d.hl.len(),
    ensures 0 <= d.hl[i] < d.n, d.n <= d.n * d.K, deg.len() == d.n * d.K, inq.len() == d.n * d.K, deg[d.hl[i] as int] == ind(d, d.hl[i] as int), q.len() <= i,
{
    reveal(ml_ok); reveal(deg_is); reveal(srcs_part); cod(d.n, d.hl[i] as int, 0, d.K); assert(d.n * 0 == 0); assert(deg[cd(d, d.hl[i] as int, 0)] == kbase(0) + ind(d, d.hl[i] as int));
    let s = Seq::new(q.len(), |x: int| d.ix[q[x] as int]);
    assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by { assert(q[x] != q[y]); assert(hd(d, q[x] as int) && hd(d, q[y] as int)); }
    assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < i by { assert(hd(d, q[x] as int)); }
    distinct_len(s, i);
}
pub proof fn srcs_next(d: Ml, i: int, q: Seq<i32>, inq: Seq<bool>)
    requires ml_ok(d), srcs_part(d, i, q, inq), 0 <= i < d.hl.len(), 0 <= d.hl[i] < inq.len(),
    ensures ind(d, d.hl[i] as int) == 0 ==> srcs_part(d, i + 1, q.push(d.hl[i]), inq.update(d.hl[i] as int, true)), ind(d, d.hl[i] as int) != 0 ==> srcs_part(d, i + 1, q, inq),
{
    reveal(ml_ok); reveal(srcs_part); let h = d.hl[i]; let q2 = q.push(h); assert(hd(d, h as int));
    if ind(d, h as int) == 0 {
        assert forall|x: int, y: int| 0 <= x < q2.len() && 0 <= y < q2.len() && x != y implies q2[x] != q2[y] by { if x < q.len() { assert(q2[x] == q[x]); assert(d.ix[q[x] as int] < i); } if y < q.len() { assert(q2[y] == q[y]); assert(d.ix[q[y] as int] < i); } }
        assert forall|v: int| #[trigger] hd(d, v) && d.ix[v] < i + 1 && ind(d, v) == 0 implies q2.contains(v as i32) by { contains_push(q, h, v as i32); if d.ix[v] == i { assert(d.hl[d.ix[v]] == v); } }
        let n2 = inq.update(h as int, true);
        assert forall|x: int| 0 <= x < n2.len() implies (#[trigger] n2[x] ==> q2.contains(x as i32)) by { contains_push(q, h, x as i32); if x != h { assert(n2[x] == inq[x]); } }
    } else {
        assert forall|v: int| #[trigger] hd(d, v) && d.ix[v] < i + 1 && ind(d, v) == 0 implies q.contains(v as i32) by { if d.ix[v] == i { assert(d.hl[d.ix[v]] == v); } }
    }
}
// ---- the state of the search: q all items listed so far, the first t of them taken
pub open spec fn hasq(d: Ml, q: Seq<i32>, v: int, k: int) -> bool { q.contains(cd(d, v, k) as i32) }
pub open spec fn tkn(d: Ml, q: Seq<i32>, t: int, v: int, k: int) -> bool { popped(q, t, cd(d, v, k)) }
pub open spec fn tk1(d: Ml, q: Seq<i32>, t: int, v: int, k: int) -> int { if tkn(d, q, t, v, k) { 1 } else { 0 } }
pub open spec fn lq(d: Ml, lv: Seq<int>, x: int) -> int { lv[vx(d, x)] + kx(d, x) }
#[verifier::opaque]
pub open spec fn mq(d: Ml, q: Seq<i32>) -> bool { q.no_duplicates() && forall|x: int| 0 <= x < q.len() ==> 0 <= #[trigger] q[x] < d.n * d.K && it(d, vx(d, q[x] as int), kx(d, q[x] as int)) }
// the listed items are in the order of their levels; those before lp[c] are in levels before c, those before b in level c, the others in level c + 1
pub open spec fn mpos(d: Ml, q: Seq<i32>, lv: Seq<int>, lp: Seq<i32>, c: int, b: int, x: int) -> bool {
    let l = lq(d, lv, q[x] as int); lv[vx(d, q[x] as int)] >= 0 && (if x < lp[c] { 0 <= l < c && lp[l] <= x < lp[l + 1] } else { l == (if x < b { c } else { c + 1 }) })
}
#[verifier::opaque]
pub open spec fn mlev(d: Ml, q: Seq<i32>, lv: Seq<int>, lp: Seq<i32>, c: int, b: int) -> bool {
    0 <= c < lp.len() && lp[0] == 0 && c <= lp[c] <= b <= q.len() && (forall|l: int| 0 <= l < c ==> lp[l] <= #[trigger] lp[l + 1])
    && forall|x: int| 0 <= x < q.len() ==> #[trigger] mpos(d, q, lv, lp, c, b, x)
}
#[verifier::opaque]
pub open spec fn mset(d: Ml, q: Seq<i32>, t: int, cur: int, lv: Seq<int>) -> bool { forall|v: int, k: int| #[trigger] it(d, v, k) ==> (hasq(d, q, v, k) <==> if k == 0 { lv[v] >= 0 } else { tkn(d, q, t, v, k - 1) && cur != cd(d, v, k - 1) }) }
#[verifier::opaque]
pub open spec fn munr(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, us: Seq<ISet<int>>) -> bool {
    us.len() == d.K && forall|k: int, e: int| 0 <= k < d.K ==> (#[trigger] us[k].contains(e) <==> vld(d, e) && (!tkn(d, q, t, d.s[e], k) || (cur == cd(d, d.s[e], k) && rl <= e < rh)))
}
pub open spec fn mpred(d: Ml, lv: Seq<int>, v: int) -> bool { exists|e: int| #[trigger] vld(d, e) && d.tg[e] == v && d.s[e] != v && lv[d.s[e]] == lv[v] - 1 }
// levels grow along the entries, and every level but the first has a predecessor in the one before
#[verifier::opaque]
pub open spec fn mlv(d: Ml, lv: Seq<int>) -> bool {
    lv.len() == d.n && (forall|e: int| #[trigger] vld(d, e) && d.s[e] != d.tg[e] && lv[d.tg[e]] >= 0 ==> 0 <= lv[d.s[e]] < lv[d.tg[e]]) && (forall|v: int| #[trigger] hd(d, v) && lv[v] > 0 ==> mpred(d, lv, v))
}
#[verifier::opaque]
pub open spec fn mcnt(d: Ml, lv: Seq<int>, us: Seq<ISet<int>>) -> bool { lv.len() == d.n && us.len() == d.K && forall|v: int| #[trigger] hd(d, v) ==> (lv[v] >= 0 <==> cnt0(d, us, v) == 0) }
#[verifier::opaque]
pub open spec fn mvis(d: Ml, q: Seq<i32>, t: int, lv: Seq<int>, us: Seq<ISet<int>>, vis: Seq<i32>) -> bool {
    vis.len() == d.n * d.K && forall|v: int, k: int| #[trigger] it(d, v, k) ==> 0 <= vis[cd(d, v, k)] <= ca(d, mall(d), d.m, v) - ca(d, us[k], d.m, v) + tk1(d, q, t, v, k) && (k == 0 && lv[v] < 0 ==> vis[cd(d, v, k)] == ind(d, v) - cnt0(d, us, v)) && (d.bn && k == 0 && lv[v] >= 0 ==> vis[cd(d, v, k)] >= ind(d, v) + tk1(d, q, t, v, k))
}
#[verifier::opaque]
pub open spec fn minq(d: Ml, q: Seq<i32>, inq: Seq<bool>) -> bool { inq.len() == d.n * d.K && forall|v: int, k: int| #[trigger] it(d, v, k) ==> (inq[cd(d, v, k)] ==> hasq(d, q, v, k)) }
pub open spec fn ml(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>) -> bool {
    ml_ok(d) && mq(d, q) && 0 <= t <= q.len() && mlev(d, q, lv, lp, c, b) && mset(d, q, t, cur, lv) && munr(d, q, t, cur, rl, rh, us) && mlv(d, lv) && mcnt(d, lv, us) && mvis(d, q, t, lv, us, vis) && minq(d, q, inq)
    && lp[c] <= t <= b && (cur >= 0 ==> t > lp[c] && cur == q[t - 1] && hd(d, vx(d, cur)) && d.lo[vx(d, cur)] <= rl && rh <= d.hi[vx(d, cur)])
}
pub open spec fn lv_start(d: Ml) -> Seq<int> { Seq::new(d.n as nat, |v: int| if hd(d, v) && ind(d, v) == 0 { 0int } else { -1int }) }
pub open spec fn us_start(d: Ml) -> Seq<ISet<int>> { Seq::new(d.K as nat, |k: int| mall(d)) }
proof fn pop0(q: Seq<i32>, v: int)
    ensures !popped(q, 0, v),
{}
pub proof fn ml_init(d: Ml, q: Seq<i32>, lp: Seq<i32>, vis: Seq<i32>, inq: Seq<bool>)
    requires ml_ok(d), srcs_part(d, d.hl.len() as int, q, inq), lp.len() > 0, lp[0] == 0, vis.len() == d.n * d.K, forall|x: int| 0 <= x < vis.len() ==> #[trigger] vis[x] == 0,
    ensures ml(d, q, 0, -1, 0, 0, lv_start(d), us_start(d), lp, 0, q.len() as int, vis, inq),
{
    let lv = lv_start(d); let us = us_start(d); assert(d.n >= 1 && d.K >= 1 && d.m >= 0) by { reveal(ml_ok); }
    assert forall|x: int| 0 <= x < q.len() implies hd(d, #[trigger] q[x] as int) && ind(d, q[x] as int) == 0 && vx(d, q[x] as int) == q[x] && kx(d, q[x] as int) == 0 && 0 <= q[x] < d.n * d.K by { reveal(srcs_part); assert(hd(d, q[x] as int)); cod(d.n, q[x] as int, 0, d.K); assert(d.n * 0 == 0); }
    assert(mq(d, q)) by { reveal(mq); reveal(srcs_part); }
    assert(mlev(d, q, lv, lp, 0, q.len() as int)) by { reveal(mlev); assert forall|x: int| 0 <= x < q.len() implies #[trigger] mpos(d, q, lv, lp, 0, q.len() as int, x) by { assert(hd(d, q[x] as int)); } }
    assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (hasq(d, q, v, k) <==> k == 0 && ind(d, v) == 0) by {
        reveal(ml_ok); reveal(srcs_part); cod(d.n, v, k, d.K); assert(d.n * 0 == 0);
        if hasq(d, q, v, k) { let x = choose|x: int| 0 <= x < q.len() && q[x] == cd(d, v, k) as i32; assert(hd(d, q[x] as int)); cod(d.n, q[x] as int, 0, d.K); }
        if k == 0 && ind(d, v) == 0 { assert(hd(d, v) && d.ix[v] < d.hl.len()); assert(cd(d, v, 0) == v); }
    }
    assert(mset(d, q, 0, -1, lv)) by { reveal(mset); }
    assert(munr(d, q, 0, -1, 0, 0, us)) by { reveal(munr); }
    assert(mlv(d, lv)) by { reveal(mlv); assert forall|e: int| #[trigger] vld(d, e) && d.s[e] != d.tg[e] && lv[d.tg[e]] >= 0 implies 0 <= lv[d.s[e]] < lv[d.tg[e]] by { reveal(ml_ok); assert(hd(d, d.tg[e])); cn_has(d, mall(d), d.m, d.tg[e], e); } }
    assert(mcnt(d, lv, us)) by { reveal(mcnt); assert forall|v: int| #[trigger] hd(d, v) implies (lv[v] >= 0 <==> cnt0(d, us, v) == 0) by { cn_ge(d, mall(d), d.m, v); } }
    assert(mvis(d, q, 0, lv, us, vis)) by { reveal(mvis); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies 0 <= vis[cd(d, v, k)] <= ca(d, mall(d), d.m, v) - ca(d, us[k], d.m, v) + tk1(d, q, 0, v, k) && (k == 0 && lv[v] < 0 ==> vis[cd(d, v, k)] == ind(d, v) - cnt0(d, us, v)) && (d.bn && k == 0 && lv[v] >= 0 ==> vis[cd(d, v, k)] >= ind(d, v) + tk1(d, q, 0, v, k)) by { cod(d.n, v, k, d.K); } }
    assert(minq(d, q, inq)) by { reveal(minq); reveal(srcs_part); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (inq[cd(d, v, k)] ==> hasq(d, q, v, k)) by { cod(d.n, v, k, d.K); } }
}
// no more items than copies of listed nodes
proof fn q_room(d: Ml, q: Seq<i32>)
    requires ml_ok(d), mq(d, q),
    ensures q.len() <= d.hl.len() * d.K,
{
    reveal(ml_ok); reveal(mq); let nb = d.hl.len() as int;
    if nb == 0 { if q.len() > 0 { assert(hd(d, vx(d, q[0] as int))); } } else {
        let s = Seq::new(q.len(), |x: int| code(nb, d.ix[vx(d, q[x] as int)], kx(d, q[x] as int)));
        assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < nb * d.K by { assert(it(d, vx(d, q[x] as int), kx(d, q[x] as int))); cod(nb, d.ix[vx(d, q[x] as int)], kx(d, q[x] as int), d.K); }
        assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by {
            assert(q[x] != q[y]); dec(d.n, q[x] as int, d.K); dec(d.n, q[y] as int, d.K);
            assert(it(d, vx(d, q[x] as int), kx(d, q[x] as int)) && it(d, vx(d, q[y] as int), kx(d, q[y] as int)));
            cod(nb, d.ix[vx(d, q[x] as int)], kx(d, q[x] as int), d.K); cod(nb, d.ix[vx(d, q[y] as int)], kx(d, q[y] as int), d.K);
            if s[x] == s[y] { assert(d.hl[d.ix[vx(d, q[x] as int)]] == vx(d, q[x] as int)); assert(d.hl[d.ix[vx(d, q[y] as int)]] == vx(d, q[y] as int)); }
        }
        distinct_len(s, nb * d.K);
    }
}
pub proof fn ml_len(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>)
    requires ml(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq),
    ensures q.len() <= d.hl.len() * d.K <= d.n * d.K, d.n * d.K < i32::MAX, vis.len() == d.n * d.K, inq.len() == d.n * d.K, 0 <= c <= lp[c] <= b <= q.len(), d.n >= 1, d.K >= 1,
        t < q.len() ==> 0 <= q[t] < d.n * d.K && 0 <= vis[q[t] as int] < i32::MAX && it(d, vx(d, q[t] as int), kx(d, q[t] as int)) && q[t] == vx(d, q[t] as int) + d.n * kx(d, q[t] as int),
        cur >= 0 ==> it(d, vx(d, cur), kx(d, cur)) && cur < d.n * d.K && cur == cd(d, vx(d, cur), kx(d, cur)) && lv[vx(d, cur)] >= 0,
{
    q_room(d, q); reveal(ml_ok); reveal(mq); reveal(mlev); reveal(mvis); reveal(minq); reveal(mset);
    let s = Seq::new(d.hl.len(), |a: int| d.hl[a] as int);
    assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by { assert(d.ix[d.hl[x] as int] == x && d.ix[d.hl[y] as int] == y); }
    distinct_len(s, d.n);
    assert(d.hl.len() * d.K <= d.n * d.K) by (nonlinear_arith) requires d.hl.len() <= d.n, d.K >= 1;
    if t < q.len() {
        let x = q[t] as int; dec(d.n, x, d.K); cod(d.n, vx(d, x), kx(d, x), d.K); assert(it(d, vx(d, x), kx(d, x)));
        cn_ge(d, us[kx(d, x)], d.m, vx(d, x)); cn_ge(d, mall(d), d.m, vx(d, x));
    }
    if cur >= 0 { assert(q[t - 1] == cur); dec(d.n, cur, d.K); assert(mpos(d, q, lv, lp, c, b, t - 1)); }
}
// the front item is taken
pub proof fn ml_take(d: Ml, q: Seq<i32>, t: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>, x1: i32)
    requires ml(d, q, t, -1, 0, 0, lv, us, lp, c, b, vis, inq), t < b, x1 == vis[q[t] as int] + 1,
    ensures ml(d, q, t + 1, q[t] as int, d.lo[vx(d, q[t] as int)], d.hi[vx(d, q[t] as int)], lv, us, lp, c, b, vis.update(q[t] as int, x1), inq.update(q[t] as int, false)), 0 <= d.lo[vx(d, q[t] as int)] <= d.hi[vx(d, q[t] as int)] <= d.m, hd(d, vx(d, q[t] as int)),
{
    ml_len(d, q, t, -1, 0, 0, lv, us, lp, c, b, vis, inq);
    let cur = q[t] as int; let v0 = vx(d, cur); let k0 = kx(d, cur); let rl = d.lo[v0]; let rh = d.hi[v0]; let vis2 = vis.update(cur, x1); let inq2 = inq.update(cur, false);
    assert(d.n >= 1 && d.K >= 1 && d.m >= 0) by { reveal(ml_ok); }
    assert(it(d, v0, k0)) by { reveal(mq); } dec(d.n, cur, d.K); cod(d.n, v0, k0, d.K);
    assert(0 <= rl <= rh <= d.m) by { reveal(ml_ok); }
    assert(!popped(q, t, cur)) by { reveal(mq); if popped(q, t, cur) { let x = choose|x: int| 0 <= x < t && #[trigger] q[x] == cur; assert(q[x] != q[t]); } }
    assert forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K implies (#[trigger] tkn(d, q, t + 1, v, k) <==> (v == v0 && k == k0) || tkn(d, q, t, v, k)) by { popped_next(q, t, cd(d, v, k)); cod(d.n, v, k, d.K); }
    assert(mset(d, q, t + 1, cur, lv)) by { reveal(mset);
        assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (hasq(d, q, v, k) <==> if k == 0 { lv[v] >= 0 } else { tkn(d, q, t + 1, v, k - 1) && cur != cd(d, v, k - 1) }) by {
            cod(d.n, v, k, d.K); if k > 0 { cod(d.n, v, k - 1, d.K); assert(tkn(d, q, t + 1, v, k - 1) <==> (v == v0 && k - 1 == k0) || tkn(d, q, t, v, k - 1)); } } }
    assert(munr(d, q, t + 1, cur, rl, rh, us)) by { reveal(munr); reveal(ml_ok);
        assert forall|k: int, e: int| 0 <= k < d.K implies (#[trigger] us[k].contains(e) <==> vld(d, e) && (!tkn(d, q, t + 1, d.s[e], k) || (cur == cd(d, d.s[e], k) && rl <= e < rh))) by { if vld(d, e) { assert(hd(d, d.s[e])); cod(d.n, d.s[e], k, d.K); assert(tkn(d, q, t + 1, d.s[e], k) <==> (d.s[e] == v0 && k == k0) || tkn(d, q, t, d.s[e], k)); } } }
    assert(mvis(d, q, t + 1, lv, us, vis2)) by { reveal(mvis); reveal(mset);
        assert forall|v: int, k: int| #[trigger] it(d, v, k) implies 0 <= vis2[cd(d, v, k)] <= ca(d, mall(d), d.m, v) - ca(d, us[k], d.m, v) + tk1(d, q, t + 1, v, k) && (k == 0 && lv[v] < 0 ==> vis2[cd(d, v, k)] == ind(d, v) - cnt0(d, us, v)) && (d.bn && k == 0 && lv[v] >= 0 ==> vis2[cd(d, v, k)] >= ind(d, v) + tk1(d, q, t + 1, v, k)) by {
            cod(d.n, v, k, d.K); assert(tkn(d, q, t + 1, v, k) <==> (v == v0 && k == k0) || tkn(d, q, t, v, k));
            if v == v0 && k == k0 { assert(hasq(d, q, v, k)) by { assert(q[t] == cd(d, v, k) as i32); } }
        } }
    assert(minq(d, q, inq2)) by { reveal(minq); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (inq2[cd(d, v, k)] ==> hasq(d, q, v, k)) by { cod(d.n, v, k, d.K); } }
}
// is the item listed now that the entry is read?
pub open spec fn goes(d: Ml, us: Seq<ISet<int>>, cur: int, e: int) -> bool { kx(d, cur) == 0 && d.s[e] != d.tg[e] && cnt0(d, us, d.tg[e]) == 1 }
pub open spec fn offs(d: Ml, cur: int, e: int) -> int { cd(d, d.tg[e], kx(d, cur)) }
pub proof fn ml_at(d: Ml, deg: Seq<i32>, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>, e: int)
    requires ml(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq), cur >= 0, rl <= e < rh, deg_is(d, deg),
    ensures us.len() == d.K, us[kx(d, cur)].contains(e), vld(d, e), d.s[e] == vx(d, cur), it(d, d.tg[e], kx(d, cur)), 0 <= offs(d, cur, e) < d.n * d.K, offs(d, cur, e) == d.tg[e] + d.n * kx(d, cur), 0 <= d.n * kx(d, cur) <= d.n * d.K, 0 <= vis[offs(d, cur, e)] < i32::MAX, deg.len() == d.n * d.K, deg[offs(d, cur, e)] > i32::MIN,
        !d.bn ==> ((vis[offs(d, cur, e)] == deg[offs(d, cur, e)] - 1 && !inq[offs(d, cur, e)]) <==> goes(d, us, cur, e)),
        d.bn ==> ((vis[offs(d, cur, e)] + 1 == deg[offs(d, cur, e)] && !inq[offs(d, cur, e)]) <==> goes(d, us, cur, e)),
{
    ml_len(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq);
    let v0 = vx(d, cur); let k0 = kx(d, cur); let w = d.tg[e]; let m = d.m; let o = offs(d, cur, e);
    assert(vld(d, e) && d.s[e] == v0 && it(d, w, k0)) by { reveal(ml_ok); assert(hd(d, v0) && d.s[e] == v0); assert(vld(d, e)); }
    cod(d.n, w, k0, d.K); assert(us.len() == d.K && us[k0].contains(e)) by { reveal(munr); }
    assert(vis.len() == d.n * d.K && m >= 0 && m + 1 < i32::MAX && (d.K > 1 ==> m + BASE() < i32::MAX)) by { reveal(mvis); reveal(ml_ok); }
    assert(deg.len() == d.n * d.K && deg[o] == kbase(k0) + ind(d, w)) by { reveal(deg_is); assert(o == cd(d, w, k0)); }
    cn_ge(d, mall(d), m, w); cn_ge(d, us[k0], m, w); ca_has(d, us[k0], m, w, e);
    assert(it(d, w, k0));
    assert(0 <= vis[o] <= ca(d, mall(d), m, w) - ca(d, us[k0], m, w) + tk1(d, q, t, w, k0)) by { reveal(mvis); }
    if k0 > 0 {
        assert(hd(d, w)); assert(own_few(d, w)) by { reveal(ml_ok); assert(hd(d, w)); }
        if !d.bn { assert forall|y: int| #[trigger] mall(d).contains(y) implies d.s[y] != d.tg[y] by { reveal(ml_ok); } cn_same(d, mall(d), m, w); }
    } else if v0 != w {
        cn_has(d, us[0], m, w, e); assert(lv[w] < 0) by { reveal(mcnt); assert(hd(d, w)); }
        assert(!hasq(d, q, w, 0)) by { reveal(mset); }
        assert(!inq[o]) by { reveal(minq); }
        assert(vis[o] == ind(d, w) - cnt0(d, us, w)) by { reveal(mvis); }
    } else {
        assert(d.bn) by { reveal(ml_ok); }
        assert(o == cur); assert(tkn(d, q, t, w, 0)) by { assert(q[t - 1] == cur); }
        assert(vis[o] >= ind(d, w) + 1) by { reveal(mvis); assert(it(d, w, 0)); }
    }
}
pub open spec fn lv_after(d: Ml, us: Seq<ISet<int>>, lv: Seq<int>, cur: int, e: int, c: int) -> Seq<int> { if goes(d, us, cur, e) { lv.update(d.tg[e], c + 1) } else { lv } }
pub open spec fn us_after(d: Ml, us: Seq<ISet<int>>, cur: int, e: int) -> Seq<ISet<int>> { us.update(kx(d, cur), us[kx(d, cur)].remove(e)) }
pub open spec fn q_next(d: Ml, us: Seq<ISet<int>>, q: Seq<i32>, cur: int, e: int) -> Seq<i32> { if goes(d, us, cur, e) { q.push(offs(d, cur, e) as i32) } else { q } }
pub open spec fn vis_after(d: Ml, us: Seq<ISet<int>>, vis: Seq<i32>, cur: int, e: int) -> Seq<i32> { if d.bn || !goes(d, us, cur, e) { vis.update(offs(d, cur, e), (vis[offs(d, cur, e)] + 1) as i32) } else { vis } }
pub open spec fn inq_after(d: Ml, us: Seq<ISet<int>>, inq: Seq<bool>, cur: int, e: int) -> Seq<bool> { if goes(d, us, cur, e) { inq.update(offs(d, cur, e), true) } else { inq } }
proof fn mq_push(d: Ml, q: Seq<i32>, v: int, k: int)
    requires ml_ok(d), mq(d, q), it(d, v, k), !hasq(d, q, v, k),
    ensures mq(d, q.push(cd(d, v, k) as i32)), 0 <= cd(d, v, k) < i32::MAX, forall|a: int, y: int| 0 <= a < d.n && 0 <= y < d.K ==> (#[trigger] hasq(d, q.push(cd(d, v, k) as i32), a, y) <==> (a == v && y == k) || hasq(d, q, a, y)),
{
    reveal(mq); reveal(ml_ok); cod(d.n, v, k, d.K); let w = cd(d, v, k) as i32; let q2 = q.push(w);
    assert forall|x: int, y: int| 0 <= x < q2.len() && 0 <= y < q2.len() && x != y implies q2[x] != q2[y] by { if x < q.len() { assert(q2[x] == q[x]); } if y < q.len() { assert(q2[y] == q[y]); } if x == q.len() { assert(q.contains(q[y])); } if y == q.len() { assert(q.contains(q[x])); } }
    assert forall|x: int| 0 <= x < q2.len() implies 0 <= #[trigger] q2[x] < d.n * d.K && it(d, vx(d, q2[x] as int), kx(d, q2[x] as int)) by { if x < q.len() { assert(q2[x] == q[x]); } }
    assert forall|a: int, y: int| 0 <= a < d.n && 0 <= y < d.K implies (#[trigger] hasq(d, q2, a, y) <==> (a == v && y == k) || hasq(d, q, a, y)) by { contains_push(q, w, cd(d, a, y) as i32); cod(d.n, a, y, d.K); }
}
proof fn mlev_push(d: Ml, q: Seq<i32>, lv: Seq<int>, lp: Seq<i32>, c: int, b: int, w: i32)
    requires mlev(d, q, lv, lp, c, b), lv[vx(d, w as int)] >= 0, lq(d, lv, w as int) == c + 1,
    ensures mlev(d, q.push(w), lv, lp, c, b),
{
    reveal(mlev); let q2 = q.push(w);
    assert forall|x: int| 0 <= x < q2.len() implies #[trigger] mpos(d, q2, lv, lp, c, b, x) by { if x < q.len() { assert(q2[x] == q[x]); assert(mpos(d, q, lv, lp, c, b, x)); } }
}
proof fn tk_push(d: Ml, q: Seq<i32>, t: int, w: i32)
    requires 0 <= t <= q.len(),
    ensures forall|v: int, k: int| #[trigger] tkn(d, q.push(w), t, v, k) == tkn(d, q, t, v, k),
{ assert forall|v: int, k: int| #[trigger] tkn(d, q.push(w), t, v, k) == tkn(d, q, t, v, k) by { pop_push(q, t, w, cd(d, v, k)); } }
// what is taken is listed
proof fn tk_has(d: Ml, q: Seq<i32>, t: int, v: int, k: int)
    requires ml_ok(d), 0 <= t <= q.len(), tkn(d, q, t, v, k), 0 <= v < d.n, 0 <= k < d.K,
    ensures hasq(d, q, v, k),
{ let x = choose|x: int| 0 <= x < t && #[trigger] q[x] == cd(d, v, k); assert(q[x] == cd(d, v, k) as i32); }
proof fn munr_step(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, us: Seq<ISet<int>>, e: int, rl2: int, rh2: int)
    requires ml_ok(d), munr(d, q, t, cur, rl, rh, us), 0 <= t <= q.len(), cur >= 0, t > 0, cur == q[t - 1], it(d, vx(d, cur), kx(d, cur)), cur == cd(d, vx(d, cur), kx(d, cur)), rl <= e < rh, (e == rl && rl2 == rl + 1 && rh2 == rh) || (e == rh - 1 && rl2 == rl && rh2 == rh - 1), d.lo[vx(d, cur)] <= rl, rh <= d.hi[vx(d, cur)],
    ensures munr(d, q, t, cur, rl2, rh2, us_after(d, us, cur, e)),
{
    reveal(munr); reveal(ml_ok); let us2 = us_after(d, us, cur, e); let v0 = vx(d, cur); let k0 = kx(d, cur); assert(hd(d, v0)); assert(d.s[e] == v0);
    assert(tkn(d, q, t, v0, k0));
    assert forall|k: int, y: int| 0 <= k < d.K implies (#[trigger] us2[k].contains(y) <==> vld(d, y) && (!tkn(d, q, t, d.s[y], k) || (cur == cd(d, d.s[y], k) && rl2 <= y < rh2))) by {
        assert(us[k].contains(y) <==> vld(d, y) && (!tkn(d, q, t, d.s[y], k) || (cur == cd(d, d.s[y], k) && rl <= y < rh)));
        if vld(d, y) { assert(hd(d, d.s[y])); cod(d.n, d.s[y], k, d.K); }
    }
}
// all that lead to a node whose entries are all read are below the next level
proof fn mlv_new(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, w: int, e: int)
    requires ml_ok(d), 0 <= t <= b, mlev(d, q, lv, lp, c, b), mset(d, q, t, cur, lv), munr(d, q, t, cur, rl, rh, us), mlv(d, lv), hd(d, w), lv[w] < 0, cnt0(d, us, w) == 0, vld(d, e), d.tg[e] == w, d.s[e] != w, lv[d.s[e]] == c,
    ensures mlv(d, lv.update(w, c + 1)),
{
    let lv2 = lv.update(w, c + 1); reveal(ml_ok); assert(lv.len() == d.n && c >= 0 && b <= q.len()) by { reveal(mlv); reveal(mlev); }
    assert forall|y: int| #[trigger] vld(d, y) && d.s[y] != d.tg[y] && lv2[d.tg[y]] >= 0 implies 0 <= lv2[d.s[y]] < lv2[d.tg[y]] by {
        let sy = d.s[y]; assert(hd(d, sy)); assert(it(d, sy, 0));
        if d.tg[y] == w {
            assert(us[0].contains(y) <==> vld(d, y) && (!tkn(d, q, t, sy, 0) || (cur == cd(d, sy, 0) && rl <= y < rh))) by { reveal(munr); }
            if us[0].contains(y) { cn_has(d, us[0], d.m, w, y); }
            let x = choose|x: int| 0 <= x < t && #[trigger] q[x] == cd(d, sy, 0); assert(q[x] == cd(d, sy, 0)); cod(d.n, sy, 0, d.K);
            assert(lv[vx(d, q[x] as int)] >= 0 && lq(d, lv, q[x] as int) <= c) by { reveal(mlev); assert(mpos(d, q, lv, lp, c, b, x)); }
        } else { reveal(mlv); assert(0 <= lv[sy]); }
    }
    assert forall|v: int| #[trigger] hd(d, v) && lv2[v] > 0 implies mpred(d, lv2, v) by {
        if v == w { assert(vld(d, e) && lv2[d.s[e]] == lv2[v] - 1); } else {
            assert(mpred(d, lv, v)) by { reveal(mlv); } let y = choose|y: int| #[trigger] vld(d, y) && d.tg[y] == v && d.s[y] != v && lv[d.s[y]] == lv[v] - 1; assert(vld(d, y) && lv2[d.s[y]] == lv2[v] - 1);
        }
    }
    reveal(mlv);
}
// the entry is read
pub proof fn ml_read(d: Ml, deg: Seq<i32>, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>, e: int, rl2: int, rh2: int)
    requires ml(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq), cur >= 0, rl <= e < rh, (e == rl && rl2 == rl + 1 && rh2 == rh) || (e == rh - 1 && rl2 == rl && rh2 == rh - 1), deg_is(d, deg),
    ensures ml(d, q_next(d, us, q, cur, e), t, cur, rl2, rh2, lv_after(d, us, lv, cur, e, c), us_after(d, us, cur, e), lp, c, b, vis_after(d, us, vis, cur, e), inq_after(d, us, inq, cur, e)),
{
    ml_at(d, deg, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq, e); ml_len(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq);
    let v0 = vx(d, cur); let k0 = kx(d, cur); let w = d.tg[e]; let m = d.m; let o = offs(d, cur, e); let go = goes(d, us, cur, e);
    let q2 = q_next(d, us, q, cur, e); let lv2 = lv_after(d, us, lv, cur, e, c); let us2 = us_after(d, us, cur, e); let vis2 = vis_after(d, us, vis, cur, e); let inq2 = inq_after(d, us, inq, cur, e);
    assert(lv.len() == d.n) by { reveal(mlv); }
    cod(d.n, w, k0, d.K); munr_step(d, q, t, cur, rl, rh, us, e, rl2, rh2);
    assert forall|v: int| #[trigger] cn(d, us2[k0], m, v) == cn(d, us[k0], m, v) - (if w == v && v0 != v { 1int } else { 0int }) && ca(d, us2[k0], m, v) == ca(d, us[k0], m, v) - (if w == v { 1int } else { 0int }) by { cn_rm(d, us[k0], m, v, e); }
    assert forall|k: int| 0 <= k < d.K && k != k0 implies #[trigger] us2[k] == us[k] by {}
    assert(lq(d, lv, cur) == c) by { reveal(mlev); let x = t - 1; assert(q[x] == cur); assert(mpos(d, q, lv, lp, c, b, x)); }
    if go {
        assert(lv[w] < 0) by { reveal(mcnt); assert(hd(d, w)); }
        assert(!hasq(d, q, w, 0)) by { reveal(mset); assert(it(d, w, 0)); }
        mq_push(d, q, w, 0); tk_push(d, q, t, o as i32);
        assert(us2[0] == us[0].remove(e)); assert(cnt0(d, us2, w) == 0);
        assert(mset(d, q2, t, cur, lv2)) by { reveal(mset); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (hasq(d, q2, v, k) <==> if k == 0 { lv2[v] >= 0 } else { tkn(d, q2, t, v, k - 1) && cur != cd(d, v, k - 1) }) by { assert(hasq(d, q2, v, k) <==> (v == w && k == 0) || hasq(d, q, v, k)); } }
        assert(munr(d, q2, t, cur, rl2, rh2, us2)) by { reveal(munr); }
        mlv_new(d, q, t, cur, rl2, rh2, lv, us2, lp, c, b, w, e);
        assert(mlev(d, q, lv2, lp, c, b)) by { reveal(mlev);
            assert forall|x: int| 0 <= x < q.len() implies #[trigger] mpos(d, q, lv2, lp, c, b, x) by { assert(mpos(d, q, lv, lp, c, b, x)); } }
        mlev_push(d, q, lv2, lp, c, b, o as i32);
    }
    assert(mq(d, q2) && mlev(d, q2, lv2, lp, c, b) && mset(d, q2, t, cur, lv2) && munr(d, q2, t, cur, rl2, rh2, us2) && mlv(d, lv2));
    assert(forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K ==> (#[trigger] tkn(d, q2, t, v, k) <==> tkn(d, q, t, v, k)));
    assert(mcnt(d, lv2, us2)) by { reveal(mcnt); assert forall|v: int| #[trigger] hd(d, v) implies (lv2[v] >= 0 <==> cnt0(d, us2, v) == 0) by {
        assert(lv[v] >= 0 <==> cnt0(d, us, v) == 0); cn_ge(d, us[0], m, v); cn_ge(d, us2[0], m, v); if k0 == 0 { assert(cn(d, us2[k0], m, v) == cn(d, us[k0], m, v) - (if w == v && v0 != v { 1int } else { 0int })); if v == w && v0 != w { cn_has(d, us[0], m, w, e); } } } }
    assert(mvis(d, q2, t, lv2, us2, vis2)) by { reveal(mvis);
        assert forall|v: int, k: int| #[trigger] it(d, v, k) implies 0 <= vis2[cd(d, v, k)] <= ca(d, mall(d), d.m, v) - ca(d, us2[k], d.m, v) + tk1(d, q2, t, v, k) && (k == 0 && lv2[v] < 0 ==> vis2[cd(d, v, k)] == ind(d, v) - cnt0(d, us2, v)) && (d.bn && k == 0 && lv2[v] >= 0 ==> vis2[cd(d, v, k)] >= ind(d, v) + tk1(d, q2, t, v, k)) by {
            cod(d.n, v, k, d.K); assert(tkn(d, q2, t, v, k) <==> tkn(d, q, t, v, k));
            if k == k0 { assert(cn(d, us2[k0], m, v) == cn(d, us[k0], m, v) - (if w == v && v0 != v { 1int } else { 0int })); }
            if go && v == w && k == 0 { if tkn(d, q, t, v, 0) { tk_has(d, q, t, v, 0); } }
            if k == 0 && k0 == 0 && v == w && v0 == w { reveal(mcnt); assert(lv[v] >= 0); }
        } }
    assert(minq(d, q2, inq2)) by { reveal(minq); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (inq2[cd(d, v, k)] ==> hasq(d, q2, v, k)) by { cod(d.n, v, k, d.K); if go { assert(hasq(d, q2, v, k) <==> (v == w && k == 0) || hasq(d, q, v, k)); } } }
}
// the item's entries are all read: its next copy is listed
pub open spec fn ml_more(d: Ml, cur: int) -> bool { kx(d, cur) < d.K - 1 }
pub open spec fn nxt(d: Ml, cur: int) -> int { cd(d, vx(d, cur), kx(d, cur) + 1) }
pub open spec fn q_copy(d: Ml, q: Seq<i32>, cur: int) -> Seq<i32> { if ml_more(d, cur) { q.push(nxt(d, cur) as i32) } else { q } }
pub open spec fn inq_copy(d: Ml, inq: Seq<bool>, cur: int) -> Seq<bool> { if ml_more(d, cur) { inq.update(nxt(d, cur), true) } else { inq } }
pub proof fn ml_copy(d: Ml, q: Seq<i32>, t: int, cur: int, rl: int, rh: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>)
    requires ml(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq), cur >= 0, rl >= rh,
    ensures ml(d, q_copy(d, q, cur), t, -1, 0, 0, lv, us, lp, c, b, vis, inq_copy(d, inq, cur)), ml_more(d, cur) ==> 0 <= nxt(d, cur) < d.n * d.K && nxt(d, cur) == vx(d, cur) + d.n * (kx(d, cur) + 1) && 0 <= d.n * (kx(d, cur) + 1) <= d.n * d.K,
{
    ml_len(d, q, t, cur, rl, rh, lv, us, lp, c, b, vis, inq);
    let v0 = vx(d, cur); let k0 = kx(d, cur); let q2 = q_copy(d, q, cur); let inq2 = inq_copy(d, inq, cur); let go = ml_more(d, cur);
    assert(tkn(d, q, t, v0, k0)) by { assert(q[t - 1] == cur); } cod(d.n, v0, k0, d.K);
    assert(munr(d, q, t, -1, 0, 0, us)) by { reveal(munr); assert forall|k: int, e: int| 0 <= k < d.K implies (#[trigger] us[k].contains(e) <==> vld(d, e) && (!tkn(d, q, t, d.s[e], k) || (-1 == cd(d, d.s[e], k) && 0 <= e < 0))) by {} }
    if go {
        cod(d.n, v0, k0 + 1, d.K); assert(it(d, v0, k0 + 1));
        assert(!hasq(d, q, v0, k0 + 1)) by { reveal(mset); }
        mq_push(d, q, v0, k0 + 1); tk_push(d, q, t, nxt(d, cur) as i32);
        assert(lq(d, lv, cur) == c) by { reveal(mlev); let x = t - 1; assert(q[x] == cur); assert(mpos(d, q, lv, lp, c, b, x)); }
        mlev_push(d, q, lv, lp, c, b, nxt(d, cur) as i32);
        assert(munr(d, q2, t, -1, 0, 0, us)) by { reveal(munr); }
    }
    assert(forall|v: int, k: int| 0 <= v < d.n && 0 <= k < d.K ==> (#[trigger] tkn(d, q2, t, v, k) <==> tkn(d, q, t, v, k)));
    assert(mset(d, q2, t, -1, lv)) by { reveal(mset); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (hasq(d, q2, v, k) <==> if k == 0 { lv[v] >= 0 } else { tkn(d, q2, t, v, k - 1) && -1 != cd(d, v, k - 1) }) by {
        cod(d.n, v, k, d.K); if go { assert(hasq(d, q2, v, k) <==> (v == v0 && k == k0 + 1) || hasq(d, q, v, k)); } if k > 0 { cod(d.n, v, k - 1, d.K); assert(tkn(d, q2, t, v, k - 1) <==> tkn(d, q, t, v, k - 1)); } } }
    assert(mvis(d, q2, t, lv, us, vis)) by { reveal(mvis); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies 0 <= vis[cd(d, v, k)] <= ca(d, mall(d), d.m, v) - ca(d, us[k], d.m, v) + tk1(d, q2, t, v, k) && (k == 0 && lv[v] < 0 ==> vis[cd(d, v, k)] == ind(d, v) - cnt0(d, us, v)) && (d.bn && k == 0 && lv[v] >= 0 ==> vis[cd(d, v, k)] >= ind(d, v) + tk1(d, q2, t, v, k)) by { assert(tkn(d, q2, t, v, k) <==> tkn(d, q, t, v, k)); } }
    assert(minq(d, q2, inq2)) by { reveal(minq); assert forall|v: int, k: int| #[trigger] it(d, v, k) implies (inq2[cd(d, v, k)] ==> hasq(d, q2, v, k)) by { cod(d.n, v, k, d.K); if go { assert(hasq(d, q2, v, k) <==> (v == v0 && k == k0 + 1) || hasq(d, q, v, k)); } } }
}
pub proof fn ml_lp(d: Ml, q: Seq<i32>, t: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>, x: i32)
    requires ml(d, q, t, -1, 0, 0, lv, us, lp, c, b, vis, inq), c + 1 < lp.len(),
    ensures ml(d, q, t, -1, 0, 0, lv, us, lp.update(c + 1, x), c, b, vis, inq),
{
    let l2 = lp.update(c + 1, x); reveal(mlev);
    assert forall|l: int| 0 <= l < c implies l2[l] <= #[trigger] l2[l + 1] by { assert(lp[l] <= lp[l + 1]); }
    assert forall|y: int| 0 <= y < q.len() implies #[trigger] mpos(d, q, lv, l2, c, b, y) by {
        assert(mpos(d, q, lv, lp, c, b, y)); let z = lq(d, lv, q[y] as int); if z + 1 < c { assert(lp[z + 1] <= lp[z + 1 + 1]); } }
}
// the level is done
pub proof fn ml_level(d: Ml, q: Seq<i32>, t: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, b: int, vis: Seq<i32>, inq: Seq<bool>)
    requires ml(d, q, t, -1, 0, 0, lv, us, lp, c, b, vis, inq), t == b, c + 1 < lp.len(), lp[c + 1] == b, b > lp[c],
    ensures ml(d, q, t, -1, 0, 0, lv, us, lp, c + 1, q.len() as int, vis, inq),
{
    reveal(mlev);
    assert forall|l: int| 0 <= l < c + 1 implies lp[l] <= #[trigger] lp[l + 1] by { if l < c { assert(lp[l] <= lp[l + 1]); } }
    assert forall|y: int| 0 <= y < q.len() implies #[trigger] mpos(d, q, lv, lp, c + 1, q.len() as int, y) by { assert(mpos(d, q, lv, lp, c, b, y)); }
}
// ---- the result
pub open spec fn placed(d: Ml, lv: Seq<int>, lp: Seq<i32>, ls: Seq<i32>, c: int, x: int) -> bool { it(d, vx(d, ls[x] as int), kx(d, ls[x] as int)) && 0 <= ls[x] < d.n * d.K && 0 <= lq(d, lv, ls[x] as int) < c && lp[lq(d, lv, ls[x] as int)] <= x < lp[lq(d, lv, ls[x] as int) + 1] }
// every copy of every listed node is at one place of ls, in the level of its node plus the number of the copy; levels grow along the entries and are the least such
#[verifier::opaque]
pub open spec fn copies_ok(d: Ml, lp: Seq<i32>, ls: Seq<i32>, c: int, lv: Seq<int>) -> bool {
    lp.len() > c && 0 <= c <= lp[c] && lp[0] == 0 && lp[c] == d.hl.len() * d.K && (forall|l: int| 0 <= l < c ==> lp[l] <= #[trigger] lp[l + 1]) && ls.len() == d.hl.len() * d.K && ls.no_duplicates()
    && (forall|v: int| #[trigger] hd(d, v) ==> lv[v] >= 0) && (forall|x: int| 0 <= x < ls.len() ==> #[trigger] placed(d, lv, lp, ls, c, x)) && (forall|v: int, k: int| #[trigger] it(d, v, k) ==> ls.contains(cd(d, v, k) as i32)) && mlv(d, lv)
}
pub open spec fn copies_leveled(d: Ml, lp: Seq<i32>, ls: Seq<i32>, c: int) -> bool { exists|lv: Seq<int>| copies_ok(d, lp, ls, c, lv) }
proof fn least_open(d: Ml, lv: Seq<int>, k: int, v: int) -> (w: int)
    requires 0 <= v < k <= d.n, hd(d, v), lv[v] < 0,
    ensures 0 <= w < k, hd(d, w), lv[w] < 0, forall|x: int| 0 <= x < k && #[trigger] hd(d, x) && lv[x] < 0 ==> d.rk[w] <= d.rk[x],
    decreases k
{
    if exists|x: int| 0 <= x < k - 1 && #[trigger] hd(d, x) && lv[x] < 0 {
        let x = choose|x: int| 0 <= x < k - 1 && #[trigger] hd(d, x) && lv[x] < 0; let w = least_open(d, lv, k - 1, x);
        if hd(d, k - 1) && lv[k - 1] < 0 && d.rk[k - 1] < d.rk[w] { k - 1 } else { w }
    } else { v }
}
proof fn all_copies(d: Ml, q: Seq<i32>, lv: Seq<int>, v: int, k: int)
    requires ml_ok(d), mset(d, q, q.len() as int, -1, lv), forall|v: int| #[trigger] hd(d, v) ==> lv[v] >= 0, it(d, v, k),
    ensures hasq(d, q, v, k),
    decreases k
{
    if k > 0 {
        assert(it(d, v, k - 1)); all_copies(d, q, lv, v, k - 1); reveal(ml_ok); cod(d.n, v, k - 1, d.K);
        let x = choose|x: int| 0 <= x < q.len() && q[x] == cd(d, v, k - 1) as i32; assert(q[x] == cd(d, v, k - 1)); assert(tkn(d, q, q.len() as int, v, k - 1)); reveal(mset);
    } else { reveal(mset); assert(hd(d, v)); }
}
proof fn q_full(d: Ml, q: Seq<i32>)
    requires ml_ok(d), mq(d, q), forall|v: int, k: int| #[trigger] it(d, v, k) ==> hasq(d, q, v, k),
    ensures q.len() == d.hl.len() * d.K,
{
    q_room(d, q); let nb = d.hl.len() as int; reveal(ml_ok);
    if nb >= 1 {
        assert(nb * d.K >= 0) by (nonlinear_arith) requires nb >= 1, d.K >= 1;
        let s = Seq::new((nb * d.K) as nat, |j: int| choose|x: int| 0 <= x < q.len() && q[x] == cd(d, d.hl[vd(nb, j)] as int, kd(nb, j)) as i32);
        assert forall|j: int| 0 <= j < s.len() implies 0 <= #[trigger] s[j] < q.len() && q[s[j]] == cd(d, d.hl[vd(nb, j)] as int, kd(nb, j)) by { dec(nb, j, d.K); let h = d.hl[vd(nb, j)] as int; assert(hd(d, h)); assert(it(d, h, kd(nb, j))); assert(hasq(d, q, h, kd(nb, j))); cod(d.n, h, kd(nb, j), d.K); }
        assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by {
            dec(nb, x, d.K); dec(nb, y, d.K); let a = d.hl[vd(nb, x)] as int; let b = d.hl[vd(nb, y)] as int; cod(d.n, a, kd(nb, x), d.K); cod(d.n, b, kd(nb, y), d.K);
            if s[x] == s[y] { assert(q[s[x]] == q[s[y]]); assert(d.ix[a] == vd(nb, x) && d.ix[b] == vd(nb, y)); }
        }
        distinct_len(s, q.len() as int);
    } else { assert(nb * d.K == 0) by (nonlinear_arith) requires nb == 0; }
}
pub proof fn ml_done(d: Ml, q: Seq<i32>, t: int, lv: Seq<int>, us: Seq<ISet<int>>, lp: Seq<i32>, c: int, vis: Seq<i32>, inq: Seq<bool>, ls: Seq<i32>)
    requires ml(d, q, t, -1, 0, 0, lv, us, lp, c, q.len() as int, vis, inq), t == q.len(), lp[c] == t, ls.len() == d.hl.len() * d.K, q.len() <= ls.len(), forall|x: int| 0 <= x < q.len() ==> #[trigger] ls[x] == q[x],
    ensures copies_ok(d, lp, ls, c, lv), copies_leveled(d, lp, ls, c),
{
    assert forall|v: int| #[trigger] hd(d, v) implies lv[v] >= 0 by {
        if lv[v] < 0 {
            let w = least_open(d, lv, d.n, v); assert(d.m >= 0 && d.K >= 1) by { reveal(ml_ok); } cn_ge(d, us[0], d.m, w); assert(cnt0(d, us, w) >= 1) by { reveal(mcnt); }
            let e = cn_find(d, us[0], d.m, w); let sv = d.s[e];
            assert(vld(d, e) && !tkn(d, q, t, sv, 0)) by { reveal(munr); assert(us[0].contains(e)); }
            assert(hd(d, sv) && d.rk[sv] < d.rk[w]) by { reveal(ml_ok); } assert(it(d, sv, 0)); cod(d.n, sv, 0, d.K);
            if lv[sv] >= 0 { assert(hasq(d, q, sv, 0)) by { reveal(mset); } let x = choose|x: int| 0 <= x < q.len() && q[x] == cd(d, sv, 0) as i32; reveal(ml_ok); assert(q[x] == cd(d, sv, 0)); }
        }
    }
    assert forall|v: int, k: int| #[trigger] it(d, v, k) implies hasq(d, q, v, k) by { all_copies(d, q, lv, v, k); }
    q_full(d, q); assert(ls =~= q); reveal(mq);
    assert forall|x: int| 0 <= x < ls.len() implies #[trigger] placed(d, lv, lp, ls, c, x) by { reveal(mlev); assert(it(d, vx(d, q[x] as int), kx(d, q[x] as int))); assert(mpos(d, q, lv, lp, c, q.len() as int, x)); }
    assert(lp.len() > c && lp[0] == 0 && 0 <= c <= lp[c] && forall|l: int| 0 <= l < c ==> lp[l] <= #[trigger] lp[l + 1]) by { reveal(mlev); }
    reveal(copies_ok); assert(copies_ok(d, lp, ls, c, lv));
}
pub proof fn copies_cut(d: Ml, lp: Seq<i32>, ls: Seq<i32>, c: int, lp2: Seq<i32>)
    requires copies_leveled(d, lp, ls, c), lp2.len() > c, forall|l: int| 0 <= l <= c ==> #[trigger] lp2[l] == lp[l],
    ensures copies_leveled(d, lp2, ls, c),
{
    reveal(copies_ok); let lv = choose|lv: Seq<int>| copies_ok(d, lp, ls, c, lv);
    assert forall|l: int| 0 <= l < c implies lp2[l] <= #[trigger] lp2[l + 1] by { assert(lp[l] <= lp[l + 1]); assert(lp2[l] == lp[l]); }
    assert forall|x: int| 0 <= x < ls.len() implies #[trigger] placed(d, lv, lp2, ls, c, x) by { assert(placed(d, lv, lp, ls, c, x)); }
    assert(copies_ok(d, lp2, ls, c, lv));
}

// the copies of a graph whose columns start with their own entry
pub open spec fn mm_of(p: Seq<i32>, g: Seq<i32>, n: int, kk: int) -> Ml {
    Ml { n: n, K: kk, m: p[n] as int, lo: Seq::new(n as nat, |v: int| p[v] + 1), hi: Seq::new(n as nat, |v: int| p[v + 1] as int), s: Seq::new(p[n] as nat, |e: int| if e == p[src(p, n, e)] { -1int } else { src(p, n, e) }), tg: Seq::new(p[n] as nat, |e: int| g[e] as int),
        hl: Seq::new(n as nat, |v: int| v as i32), ix: Seq::new(n as nat, |v: int| v), rk: choose|rk: Seq<int>| ranked(p, g, n, rk), bn: false }
}
pub open spec fn mm_in(p: Seq<i32>, g: Seq<i32>, n: int, kk: int) -> bool { dag_in(p, g, n) && diag_first(p, g, n) && acyclic(p, g, n) && n >= 1 && kk >= 1 && n * kk < i32::MAX && p[n] + 1 < i32::MAX && (kk > 1 ==> p[n] + BASE() < i32::MAX) }
pub proof fn mm_ok(p: Seq<i32>, g: Seq<i32>, n: int, kk: int)
    requires mm_in(p, g, n, kk),
    ensures ml_ok(mm_of(p, g, n, kk)), mm_of(p, g, n, kk).hl.len() == n, forall|v: int| 0 <= v < n ==> hd(mm_of(p, g, n, kk), v) && #[trigger] mm_of(p, g, n, kk).hl[v] == v,
{
    let d = mm_of(p, g, n, kk); let rk = d.rk; assert(ranked(p, g, n, rk));
    assert(d.m >= 0) by { assert(p[0] <= p[n]); }
    assert forall|v: int| #[trigger] hd(d, v) implies 0 <= d.lo[v] <= d.hi[v] <= d.m by { assert(p[0] <= p[v]); assert(p[v] < p[v + 1]); assert(p[v + 1] <= p[n]); }
    assert forall|v: int, e: int| #[trigger] hd(d, v) && d.lo[v] <= e < d.hi[v] implies #[trigger] d.s[e] == v by { assert(in_col(p, v, e)); src_is(p, n, v, e); }
    assert forall|e: int| #[trigger] vld(d, e) implies hd(d, d.s[e]) && d.lo[d.s[e]] <= e < d.hi[d.s[e]] && hd(d, d.tg[e]) && (d.s[e] != d.tg[e] ==> d.rk[d.s[e]] < d.rk[d.tg[e]]) && d.s[e] != d.tg[e] by {
        src_ex(p, n, e); let v = src(p, n, e); assert(0 <= g[e] < n); assert(p[v] < p[v + 1] && g[p[v] as int] == v);
        if g[e] == v { assert(is_diag(p, g, v, e) && is_diag(p, g, v, p[v] as int)); }
    }
    assert forall|v: int| #[trigger] hd(d, v) implies d.K > 1 ==> own_few(d, v) by { assert forall|y: int| #[trigger] mall(d).contains(y) implies d.s[y] != d.tg[y] by { assert(vld(d, y)); } cn_same(d, mall(d), d.m, v); }
    assert forall|v: int| 0 <= v < n implies hd(d, v) && #[trigger] d.hl[v] == v by {}
    reveal(ml_ok);
}
// a single copy: the level set of the graph
pub open spec fn pos_in(ls: Seq<i32>, v: int) -> int { choose|x: int| 0 <= x < ls.len() && ls[x] == v }
proof fn one_in(p: Seq<i32>, g: Seq<i32>, n: int, v: int)
    requires mm_in(p, g, n, 1), 0 <= v < n,
    ensures ({ let d = mm_of(p, g, n, 1); vx(d, v) == v && kx(d, v) == 0 && cd(d, v, 0) == v && it(d, v, 0) && hd(d, v) && d.n * d.K == n }),
{ let d = mm_of(p, g, n, 1); mm_ok(p, g, n, 1); cod(n, v, 0, 1); assert(n * 0 == 0); assert(n * 1 == n); let z = d.hl[v]; }
proof fn one_pos(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int, lv: Seq<int>, v: int)
    requires mm_in(p, g, n, 1), copies_ok(mm_of(p, g, n, 1), lp, ls, c, lv), 0 <= v < n,
    ensures ls.len() == n, 0 <= pos_in(ls, v) < n, ls[pos_in(ls, v)] == v, 0 <= lv[v] < c, lp[lv[v]] <= pos_in(ls, v) < lp[lv[v] + 1],
{
    let d = mm_of(p, g, n, 1); mm_ok(p, g, n, 1); one_in(p, g, n, v); reveal(copies_ok); assert(n * 1 == n);
    assert(ls.contains(cd(d, v, 0) as i32)) by { assert(it(d, v, 0)); }
    let x = choose|x: int| 0 <= x < ls.len() && ls[x] == v as i32; assert(ls[x] == v); let y = pos_in(ls, v); assert(0 <= y < ls.len() && ls[y] == v);
    assert(placed(d, lv, lp, ls, c, y)); assert(lq(d, lv, v) == lv[v]);
}
proof fn one_back(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int, lv: Seq<int>, q: int)
    requires mm_in(p, g, n, 1), copies_ok(mm_of(p, g, n, 1), lp, ls, c, lv), 0 <= q < n,
    ensures 0 <= ls[q] < n, pos_in(ls, ls[q] as int) == q, lv[ls[q] as int] >= 0,
{
    let d = mm_of(p, g, n, 1); mm_ok(p, g, n, 1); reveal(copies_ok); assert(n * 1 == n); assert(placed(d, lv, lp, ls, c, q)); let v = ls[q] as int;
    one_pos(p, g, n, lp, ls, c, lv, v); let y = pos_in(ls, v); assert(ls[y] == ls[q]);
}
proof fn one_edges(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int, lv: Seq<int>)
    requires mm_in(p, g, n, 1), copies_ok(mm_of(p, g, n, 1), lp, ls, c, lv),
    ensures lv.len() == n, forall|e: int| 0 <= e < p[n] && g[e] != src(p, n, e) ==> lv[#[trigger] src(p, n, e)] < lv[g[e] as int], forall|v: int| 0 <= v < n && #[trigger] lv[v] > 0 ==> has_pred_at(p, g, n, lv, v, lv[v] - 1),
{
    let d = mm_of(p, g, n, 1); mm_ok(p, g, n, 1); assert(mlv(d, lv)) by { reveal(copies_ok); }
    assert(lv.len() == n) by { reveal(mlv); }
    assert forall|e: int| 0 <= e < p[n] && g[e] != src(p, n, e) implies lv[#[trigger] src(p, n, e)] < lv[g[e] as int] by { reveal(mlv); src_ex(p, n, e); let v = src(p, n, e); assert(p[v] < p[v + 1] && g[p[v] as int] == v); assert(vld(d, e)); assert(0 <= g[e] < n); one_pos(p, g, n, lp, ls, c, lv, g[e] as int); }
    assert forall|v: int| 0 <= v < n && #[trigger] lv[v] > 0 implies has_pred_at(p, g, n, lv, v, lv[v] - 1) by { one_in(p, g, n, v); assert(mpred(d, lv, v)) by { reveal(mlv); assert(hd(d, v)); } let e = choose|e: int| #[trigger] vld(d, e) && d.tg[e] == v && d.s[e] != v && lv[d.s[e]] == lv[v] - 1; assert(d.s[e] == src(p, n, e)); assert(g[e] == v); }
}
pub proof fn mm_plain(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int)
    requires mm_in(p, g, n, 1), copies_leveled(mm_of(p, g, n, 1), lp, ls, c),
    ensures level_result(p, g, n, lp, ls, c),
{
    let d = mm_of(p, g, n, 1); let lv = choose|lv: Seq<int>| copies_ok(d, lp, ls, c, lv);
    let pos = Seq::new(n as nat, |v: int| pos_in(ls, v));
    one_edges(p, g, n, lp, ls, c, lv); one_pos(p, g, n, lp, ls, c, lv, 0);
    assert(lp.len() > c && 0 <= c <= lp[c] && lp[0] == 0 && lp[c] == n && forall|l: int| 0 <= l < c ==> lp[l] <= #[trigger] lp[l + 1]) by { reveal(copies_ok); mm_ok(p, g, n, 1); assert(n * 1 == n); }
    assert forall|q: int| 0 <= q < n implies 0 <= #[trigger] ls[q] < n && pos[ls[q] as int] == q && lv[ls[q] as int] >= 0 by { one_back(p, g, n, lp, ls, c, lv, q); }
    assert forall|v: int| 0 <= v < n && #[trigger] lv[v] >= 0 implies 0 <= pos[v] < n && ls[pos[v]] == v by { one_pos(p, g, n, lp, ls, c, lv, v); }
    assert forall|v: int| 0 <= v < n && 0 <= #[trigger] lv[v] < c implies lp[lv[v]] <= pos[v] < lp[lv[v] + 1] by { one_pos(p, g, n, lp, ls, c, lv, v); }
    assert(listed(ls, lp, lv, pos, n, c, n));
    assert forall|a: int, b: int| 0 <= a <= b <= c implies #[trigger] lp[a] <= #[trigger] lp[b] by { lp_mono(lp, c, a, b); }
    assert forall|v: int| 0 <= v < n implies 0 <= #[trigger] lv[v] < c by { one_pos(p, g, n, lp, ls, c, lv, v); }
    assert(levels_ok(p, g, n, lp, ls, lv, pos, c));
}
proof fn lp_mono(lp: Seq<i32>, c: int, a: int, b: int)
    requires 0 <= a <= b <= c, c < lp.len(), forall|l: int| 0 <= l < c ==> lp[l] <= #[trigger] lp[l + 1],
    ensures lp[a] <= lp[b],
    decreases b - a
{ if a < b { lp_mono(lp, c, a, b - 1); assert(lp[b - 1] <= lp[b - 1 + 1]); } }
pub proof fn div_is(n: int, x: int)
    requires n >= 1, x >= 0,
    ensures cdiv(x, n) == kd(n, x),
{ reveal(kd); }
