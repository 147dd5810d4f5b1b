//@uses mlev
// the copies of a graph of column blocks, each headed by its first (ascending) or last (descending) column; the entries of the heads count
pub ghost struct Mb { pub p: Seq<i32>, pub g: Seq<i32>, pub n: int, pub sn: Seq<i32>, pub nb: int, pub K: int, pub low: bool }
pub open spec fn mblk_of(p: Seq<i32>, g: Seq<i32>, n: int, sn: Seq<i32>, nb: int, kk: int, low: bool) -> Mb { Mb { p: p, g: g, n: n, sn: sn, nb: nb, K: kk, low: low } }
pub open spec fn in_blk(b: Mb, i: int, v: int) -> bool { if b.low { b.sn[i] <= v < b.sn[i + 1] } else { b.sn[i + 1] < v <= b.sn[i] } }
pub open spec fn blk(b: Mb, v: int) -> int { choose|i: int| 0 <= i < b.nb && in_blk(b, i, v) }
pub open spec fn is_hd(b: Mb, v: int) -> bool { b.sn[blk(b, v)] == v }
pub open spec fn mb_own(b: Mb, e: int) -> bool { !is_hd(b, src(b.p, b.n, e)) || (b.low && e == b.p[src(b.p, b.n, e)]) }
pub open spec fn mb_rk(b: Mb, rk: Seq<int>) -> Ml {
    Ml { n: b.n, K: b.K, m: b.p[b.n] as int, lo: Seq::new(b.n as nat, |v: int| if b.low { b.p[v] + 1 } else { b.p[v] as int }), hi: Seq::new(b.n as nat, |v: int| b.p[v + 1] as int), s: Seq::new(b.p[b.n] as nat, |e: int| if mb_own(b, e) { -1int } else { src(b.p, b.n, e) }),
        tg: Seq::new(b.p[b.n] as nat, |e: int| b.sn[blk(b, b.g[e] as int)] as int), hl: b.sn.subrange(0, b.nb), ix: Seq::new(b.n as nat, |v: int| if is_hd(b, v) { blk(b, v) } else { -1 }), rk: rk, bn: true }
}
pub open spec fn mb_ranked(b: Mb, rk: Seq<int>) -> bool { rk.len() == b.n && forall|e: int| #[trigger] vld(mb_rk(b, rk), e) && mb_rk(b, rk).s[e] != mb_rk(b, rk).tg[e] ==> rk[mb_rk(b, rk).s[e]] < rk[mb_rk(b, rk).tg[e]] }
pub open spec fn mb_of(b: Mb) -> Ml { mb_rk(b, choose|rk: Seq<int>| mb_ranked(b, rk)) }
#[verifier::opaque]
pub open spec fn sn_ord(b: Mb) -> bool {
    (if b.low { forall|i: int| 0 <= i < b.nb ==> #[trigger] b.sn[i] < b.sn[i + 1] } else { forall|i: int| 0 <= i < b.nb ==> #[trigger] b.sn[i] > b.sn[i + 1] }) && (b.low ==> forall|i: int| 0 <= i < b.nb ==> b.p[#[trigger] b.sn[i] as int] < b.p[b.sn[i] + 1])
}
proof fn sn_step(b: Mb, i: int)
    requires mb_in(b), 0 <= i < b.nb,
    ensures b.low ==> b.sn[i] < b.sn[i + 1] && b.p[b.sn[i] as int] < b.p[b.sn[i] + 1], !b.low ==> b.sn[i] > b.sn[i + 1],
{ reveal(sn_ord); let z = b.sn[i]; assert(if b.low { b.sn[i] < b.sn[i + 1] } else { b.sn[i] > b.sn[i + 1] }); }
pub open spec fn mb_in(b: Mb) -> bool {
    gwf(b.p, b.g, b.n) && b.n >= 1 && b.K >= 1 && b.nb >= 1 && b.sn.len() > b.nb && b.n * b.K < i32::MAX && (if b.K > 1 { b.p[b.n] + BASE() < i32::MAX } else { b.p[b.n] + 1 < i32::MAX })
    && (if b.low { b.sn[0] == 0 && b.sn[b.nb] == b.n } else { b.sn[0] == b.n - 1 && b.sn[b.nb] == -1 }) && sn_ord(b)
    && (exists|rk: Seq<int>| mb_ranked(b, rk)) && (b.K > 1 ==> forall|v: int| #[trigger] hd(mb_of(b), v) ==> own_few(mb_of(b), v))
}
proof fn sn_mono(b: Mb, i: int, j: int)
    requires mb_in(b), 0 <= i <= j <= b.nb,
    ensures b.low ==> b.sn[i] <= b.sn[j], !b.low ==> b.sn[i] >= b.sn[j],
    decreases j - i
{ if i < j { sn_mono(b, i, j - 1); sn_step(b, j - 1); } }
pub proof fn sn_in(b: Mb, i: int)
    requires mb_in(b), 0 <= i <= b.nb,
    ensures b.low ==> 0 <= b.sn[i] <= b.n, !b.low ==> -1 <= b.sn[i] < b.n, i < b.nb ==> 0 <= b.sn[i] < b.n && in_blk(b, i, b.sn[i] as int) && (b.low ==> b.sn[i] < b.sn[i + 1]) && (!b.low ==> b.sn[i] > b.sn[i + 1]),
{ sn_mono(b, 0, i); sn_mono(b, i, b.nb); if i < b.nb { sn_mono(b, i + 1, b.nb); sn_step(b, i); } }
pub proof fn blk_is(b: Mb, i: int, v: int)
    requires mb_in(b), 0 <= i < b.nb, in_blk(b, i, v),
    ensures blk(b, v) == i, 0 <= v < b.n,
{
    sn_in(b, i); sn_in(b, i + 1); let j = blk(b, v); assert(0 <= j < b.nb && in_blk(b, j, v));
    if j < i { sn_mono(b, j + 1, i); } if i < j { sn_mono(b, i + 1, j); }
}
proof fn blk_find(b: Mb, k: int, v: int) -> (i: int)
    requires mb_in(b), 0 < k <= b.nb, if b.low { b.sn[0] <= v < b.sn[k] } else { b.sn[k] < v <= b.sn[0] },
    ensures 0 <= i < k, in_blk(b, i, v),
    decreases k
{ if in_blk(b, k - 1, v) { k - 1 } else { if k == 1 { 0 } else { blk_find(b, k - 1, v) } } }
pub proof fn blk_ex(b: Mb, v: int)
    requires mb_in(b), 0 <= v < b.n,
    ensures 0 <= blk(b, v) < b.nb, in_blk(b, blk(b, v), v), 0 <= b.sn[blk(b, v)] < b.n, is_hd(b, b.sn[blk(b, v)] as int),
{ let i = blk_find(b, b.nb, v); sn_in(b, blk(b, v)); blk_is(b, blk(b, v), b.sn[blk(b, v)] as int); }
proof fn mb_nodes(b: Mb, d: Ml, rk: Seq<int>)
    requires mb_in(b), d == mb_rk(b, rk),
    ensures forall|a: int| 0 <= a < d.hl.len() ==> 0 <= #[trigger] d.hl[a] < d.n && d.ix[d.hl[a] as int] == a,
        forall|v: int| 0 <= v < d.n ==> -1 <= #[trigger] d.ix[v] < d.hl.len() && (d.ix[v] >= 0 ==> d.hl[d.ix[v]] == v),
        forall|i: int| 0 <= i < b.nb ==> #[trigger] d.hl[i] == b.sn[i], forall|i: int| 0 <= i < b.nb ==> hd(d, #[trigger] b.sn[i] as int), d.hl.len() == b.nb,
{
    assert forall|a: int| 0 <= a < d.hl.len() implies 0 <= #[trigger] d.hl[a] < d.n && d.ix[d.hl[a] as int] == a by { sn_in(b, a); blk_is(b, a, b.sn[a] as int); }
    assert forall|v: int| 0 <= v < d.n implies -1 <= #[trigger] d.ix[v] < d.hl.len() && (d.ix[v] >= 0 ==> d.hl[d.ix[v]] == v) by { blk_ex(b, v); }
    assert forall|i: int| 0 <= i < b.nb implies hd(d, #[trigger] b.sn[i] as int) by { sn_in(b, i); blk_is(b, i, b.sn[i] as int); }
    assert forall|i: int| 0 <= i < b.nb implies #[trigger] d.hl[i] == b.sn[i] by {}
}
proof fn mb_range(b: Mb, d: Ml, rk: Seq<int>, v: int)
    requires mb_in(b), d == mb_rk(b, rk), hd(d, v),
    ensures ({ 0 <= d.lo[v] <= d.hi[v] <= d.m && forall|e: int| d.lo[v] <= e < d.hi[v] ==> #[trigger] d.s[e] == v }),
{
    let p = b.p; let n = b.n;
    blk_ex(b, v); assert(p[0] <= p[v]); assert(p[v] <= p[v + 1]); assert(p[v + 1] <= p[n]); sn_step(b, blk(b, v));
    assert forall|e: int| d.lo[v] <= e < d.hi[v] implies #[trigger] d.s[e] == v by { assert(in_col(p, v, e)); src_is(p, n, v, e); }
}
proof fn mb_edge(b: Mb, d: Ml, rk: Seq<int>, e: int)
    requires mb_in(b), d == mb_rk(b, rk), mb_ranked(b, rk), vld(d, e),
    ensures ({ hd(d, d.s[e]) && d.lo[d.s[e]] <= e < d.hi[d.s[e]] && hd(d, d.tg[e]) && (d.s[e] != d.tg[e] ==> d.rk[d.s[e]] < d.rk[d.tg[e]]) }),
{ src_ex(b.p, b.n, e); let v = src(b.p, b.n, e); blk_ex(b, v); assert(0 <= b.g[e] < b.n); blk_ex(b, b.g[e] as int); blk_ex(b, b.sn[blk(b, b.g[e] as int)] as int); }
proof fn mb_count(b: Mb)
    requires mb_in(b),
    ensures b.nb <= b.n, b.nb * b.K <= b.n * b.K, 0 <= b.nb * b.K,
{
    let s = Seq::new(b.nb as nat, |a: int| b.sn[a] as int);
    assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < s.len() && x != y implies s[x] != s[y] by { sn_in(b, x); sn_in(b, y); blk_is(b, x, s[x]); blk_is(b, y, s[y]); }
    assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < b.n by { sn_in(b, x); }
    distinct_len(s, b.n); assert(0 <= b.nb * b.K && b.nb * b.K <= b.n * b.K) by (nonlinear_arith) requires 0 <= b.nb <= b.n, b.K >= 1;
}
pub proof fn mb_ok(b: Mb, d: Ml)
    requires mb_in(b), d == mb_of(b),
    ensures ml_ok(d), d.hl.len() == b.nb,
        forall|i: int| 0 <= i < b.nb ==> #[trigger] d.hl[i] == b.sn[i], forall|i: int| 0 <= i < b.nb ==> hd(d, #[trigger] b.sn[i] as int),
        b.nb <= b.n, b.nb * b.K <= b.n * b.K, 0 <= b.nb * b.K,
{
    let rk = d.rk; assert(mb_ranked(b, rk)); mb_nodes(b, d, rk); mb_count(b);
    assert(d.m >= 0) by { assert(b.p[0] <= b.p[b.n]); }
    assert forall|v: int| #[trigger] hd(d, v) implies 0 <= d.lo[v] <= d.hi[v] <= d.m by { mb_range(b, d, rk, v); }
    assert forall|v: int, e: int| #[trigger] hd(d, v) && d.lo[v] <= e < d.hi[v] implies #[trigger] d.s[e] == v by { mb_range(b, d, rk, v); }
    assert forall|e: int| #[trigger] vld(d, e) implies hd(d, d.s[e]) && d.lo[d.s[e]] <= e < d.hi[d.s[e]] && hd(d, d.tg[e]) && (d.s[e] != d.tg[e] ==> d.rk[d.s[e]] < d.rk[d.tg[e]]) by { mb_edge(b, d, rk, e); }
    assert forall|v: int| #[trigger] hd(d, v) implies d.K > 1 ==> own_few(d, v) by { assert(hd(mb_of(b), v)); }
    assert(d.n >= 1 && d.K >= 1 && d.n * d.K < i32::MAX && (if d.K > 1 { d.m + BASE() < i32::MAX } else { d.m + 1 < i32::MAX }));
    reveal(ml_ok);
}
// the head of every column's block
pub open spec fn supers_up(b: Mb, su: Seq<i32>, k: int) -> bool { su.len() == b.n && forall|v: int| 0 <= v < b.n && (if b.low { v < k } else { v > k }) ==> #[trigger] su[v] == b.sn[blk(b, v)] }
pub proof fn supers_put(b: Mb, su: Seq<i32>, k: int, i: int)
    requires mb_in(b), supers_up(b, su, k), 0 <= i < b.nb, in_blk(b, i, k),
    ensures 0 <= k < b.n, supers_up(b, su.update(k, b.sn[i]), if b.low { k + 1 } else { k - 1 }),
{ blk_is(b, i, k); }
pub proof fn mb_entry(b: Mb, d: Ml, su: Seq<i32>, h: int, e: int)
    requires mb_in(b), d == mb_of(b), supers_up(b, su, if b.low { b.n } else { -1 }), 0 <= h < b.n, is_hd(b, h), b.p[h] <= e < b.p[h + 1], b.low ==> e > b.p[h],
    ensures ({ d.s[e] == h && 0 <= b.g[e] < b.n && 0 <= e < b.p[b.n] <= b.g.len() && d.tg[e] == su[b.g[e] as int] && hd(d, d.tg[e]) && 0 <= d.tg[e] < b.n && hd(d, h) && d.lo[h] <= e < d.hi[h] }),
{
    assert(in_col(b.p, h, e)); src_is(b.p, b.n, h, e); assert(0 <= b.g[e] < b.n); blk_ex(b, b.g[e] as int); mb_ok(b, d); let i = blk(b, b.g[e] as int); let z = d.hl[i]; blk_ex(b, h); assert(hd(d, h)) by { let y = d.hl[blk(b, h)]; }
}
pub proof fn mb_col(b: Mb, d: Ml, h: int)
    requires mb_in(b), d == mb_of(b), hd(d, h),
    ensures 0 <= b.p[h] <= b.p[h + 1] <= b.p[b.n] <= b.g.len(), b.low ==> b.p[h] < b.p[h + 1], is_hd(b, h), b.p.len() > b.n, d.lo[h] == (if b.low { b.p[h] + 1 } else { b.p[h] as int }), d.hi[h] == b.p[h + 1],
{ assert(b.p[0] <= b.p[h]); assert(b.p[h] <= b.p[h + 1]); assert(b.p[h + 1] <= b.p[b.n]); blk_ex(b, h); sn_step(b, blk(b, h)); }
