//@uses lset
// graph over the blocks of block-column storage: block b of columns sc[b]..sc[b+1] has its rows listed from ip[sc[b]];
// its last own row and the rows after it are the edges out of b, mapped to the block that owns the row
pub ghost struct Bg { pub ip: Seq<usize>, pub li: Seq<i32>, pub sc: Seq<i32>, pub cs: Seq<i32>, pub n: int }
pub open spec fn bs(d: Bg, b: int) -> int { d.ip[d.sc[b] as int] + (d.sc[b + 1] - d.sc[b]) - 1 }
pub open spec fn be(d: Bg, b: int) -> int { d.ip[d.sc[b + 1] as int] as int }
pub open spec fn tgt(d: Bg, j: int) -> i32 { d.cs[d.li[j] as int] }
pub open spec fn bp(d: Bg, b: int) -> int
    decreases b
{ if b <= 0 { 0 } else { bp(d, b - 1) + (be(d, b - 1) - bs(d, b - 1)) } }
pub open spec fn block_ok(d: Bg, b: int) -> bool {
    0 <= d.sc[b] < d.sc[b + 1] < d.ip.len() && bs(d, b) < be(d, b) <= d.li.len() && d.ip[d.sc[b] as int] <= d.li.len()
    && (forall|j: int| bs(d, b) <= j < be(d, b) ==> 0 <= #[trigger] d.li[j] < d.cs.len() && 0 <= d.cs[d.li[j] as int] < d.n && (d.cs[d.li[j] as int] == b <==> j == bs(d, b)))
}
#[verifier::opaque]
pub open spec fn blocks_ok(d: Bg) -> bool {
    0 <= d.n < i32::MAX && d.sc.len() > d.n && (forall|b: int| 0 <= b < d.n ==> #[trigger] block_ok(d, b)) && bp(d, d.n) < i32::MAX
}
#[verifier::opaque]
pub open spec fn bptr(d: Bg) -> Seq<i32> { Seq::new((d.n + 1) as nat, |b: int| bp(d, b) as i32) }
#[verifier::opaque]
pub open spec fn bset(d: Bg) -> Seq<i32> { Seq::new(bp(d, d.n) as nat, |e: int| tgt(d, bs(d, src(bptr(d), d.n, e)) + (e - bp(d, src(bptr(d), d.n, e))))) }
pub proof fn bp_mono(d: Bg, a: int, b: int)
    requires blocks_ok(d), 0 <= a <= b <= d.n,
    ensures 0 <= bp(d, a), bp(d, a) + (b - a) <= bp(d, b), bp(d, b) <= bp(d, d.n), bp(d, d.n) < i32::MAX,
    decreases d.n - a, 
{
    bp_up(d, 0, a); bp_up(d, a, b); bp_up(d, b, d.n); reveal(blocks_ok);
}
proof fn bp_up(d: Bg, a: int, b: int)
    requires blocks_ok(d), 0 <= a <= b <= d.n,
    ensures bp(d, a) + (b - a) <= bp(d, b),
    decreases b - a
{ if a < b { bp_up(d, a, b - 1); reveal(blocks_ok); assert(block_ok(d, b - 1)); } }
pub proof fn bgraph_ptrs(d: Bg)
    requires blocks_ok(d),
    ensures ptrs(bptr(d), d.n), bptr(d)[d.n] == bp(d, d.n), bptr(d)[d.n] < i32::MAX, d.n >= 0, forall|b: int| 0 <= b <= d.n ==> #[trigger] bptr(d)[b] == bp(d, b),
{ reveal(bptr); reveal(bset);
    reveal(blocks_ok); let p = bptr(d);
    assert forall|b: int| 0 <= b <= d.n implies #[trigger] p[b] == bp(d, b) by { bp_mono(d, b, b); }
    assert forall|a: int, b: int| 0 <= a <= b <= d.n implies #[trigger] p[a] <= #[trigger] p[b] by { bp_mono(d, a, b); }
    bp_mono(d, 0, 0);
}
pub proof fn bedge(d: Bg, b: int, j: int)
    requires blocks_ok(d), 0 <= b < d.n, bs(d, b) <= j < be(d, b),
    ensures src(bptr(d), d.n, bp(d, b) + (j - bs(d, b))) == b, in_col(bptr(d), b, bp(d, b) + (j - bs(d, b))), bset(d)[bp(d, b) + (j - bs(d, b))] == tgt(d, j),
        0 <= bp(d, b), bp(d, b) + (j - bs(d, b)) < bp(d, d.n), bp(d, b + 1) == bp(d, b) + (be(d, b) - bs(d, b)), 0 <= d.li[j] < d.cs.len(), 0 <= tgt(d, j) < d.n, tgt(d, j) == b <==> j == bs(d, b),
{ reveal(bptr); reveal(bset);
    bgraph_ptrs(d); let e = bp(d, b) + (j - bs(d, b)); bp_mono(d, b, b + 1); assert(bptr(d)[b] == bp(d, b)); assert(bptr(d)[b + 1] == bp(d, b + 1));
    assert(in_col(bptr(d), b, e)); src_is(bptr(d), d.n, b, e); reveal(blocks_ok); assert(block_ok(d, b)); assert(0 <= d.li[j]);
}
proof fn bedge_of(d: Bg, e: int)
    requires blocks_ok(d), 0 <= e < bp(d, d.n),
    ensures 0 <= src(bptr(d), d.n, e) < d.n, bs(d, src(bptr(d), d.n, e)) <= bs(d, src(bptr(d), d.n, e)) + (e - bp(d, src(bptr(d), d.n, e))) < be(d, src(bptr(d), d.n, e)),
{ reveal(bptr); reveal(bset);
    bgraph_ptrs(d); src_ex(bptr(d), d.n, e); let b = src(bptr(d), d.n, e); bp_mono(d, b, b + 1); assert(bptr(d)[b] == bp(d, b)); assert(bptr(d)[b + 1] == bp(d, b + 1));
}
pub proof fn bgraph_wf(d: Bg)
    requires blocks_ok(d),
    ensures dag_in(bptr(d), bset(d), d.n), diag_first(bptr(d), bset(d), d.n), bptr(d)[d.n] == bp(d, d.n), bset(d).len() == bp(d, d.n),
{ reveal(bptr); reveal(bset);
    bgraph_ptrs(d); let p = bptr(d); let g = bset(d); let n = d.n; bp_mono(d, 0, n);
    assert forall|e: int| 0 <= e < p[n] implies 0 <= #[trigger] g[e] < n by { bedge_of(d, e); let b = src(p, n, e); bedge(d, b, bs(d, b) + (e - bp(d, b))); }
    assert forall|v: int| 0 <= v < n implies #[trigger] p[v] < p[v + 1] && g[p[v] as int] == v by { reveal(blocks_ok); assert(block_ok(d, v)); bedge(d, v, bs(d, v)); bp_mono(d, v, v + 1); assert(p[v + 1] == bp(d, v + 1)); }
    assert forall|v: int| 0 <= v < n implies #[trigger] has_diag(p, g, v) by { assert(p[v] < p[v + 1]); assert(is_diag(p, g, v, p[v] as int)); }
    assert forall|v: int, e: int, f: int| 0 <= v < n && #[trigger] is_diag(p, g, v, e) && #[trigger] is_diag(p, g, v, f) implies e == f by { only_first(d, v, e); only_first(d, v, f); }
    reveal(blocks_ok);
}
proof fn only_first(d: Bg, v: int, e: int)
    requires blocks_ok(d), 0 <= v < d.n, is_diag(bptr(d), bset(d), v, e),
    ensures e == bp(d, v),
{ reveal(bptr); reveal(bset); bgraph_ptrs(d); let p = bptr(d); src_is(p, d.n, v, e); assert(p[v] == bp(d, v)); assert(p[v + 1] == bp(d, v + 1)); bedge_of(d, e); bedge(d, v, bs(d, v) + (e - bp(d, v))); }
pub open spec fn i32s(s: Seq<usize>) -> Seq<i32> { Seq::new(s.len(), |k: int| s[k] as i32) }
pub proof fn i32s_upd(s: Seq<usize>, m: int, x: usize, y: i32)
    requires 0 <= m < s.len(), x == y,
    ensures i32s(s.update(m, x)) == i32s(s).update(m, y),
{ assert(i32s(s.update(m, x)) =~= i32s(s).update(m, y)); }
pub open spec fn block_levels(d: Bg, lp: Seq<i32>, ls: Seq<usize>, c: int) -> bool { level_result(bptr(d), bset(d), d.n, lp, i32s(ls), c) }
// the number of levels never passes the number of blocks
pub proof fn lev_room(p: Seq<i32>, g: Seq<i32>, n: int, dead: Seq<bool>, lv: Seq<int>, pos: Seq<int>, deg: Seq<i32>, vis: Seq<bool>, ls: Seq<i32>, lp: Seq<i32>, c: int, m: int, lo: int, hi: int)
    requires sstate(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, hi), forall|v: int| 0 <= v < n && (v < lo || v >= hi) ==> #[trigger] lv[v] >= 0, acyclic(p, g, n),
    ensures c < n,
{ scan_end(p, g, n, dead, lv, pos, deg, vis, ls, lp, c, m, lo, hi); }
pub proof fn bcol(d: Bg, b: int)
    requires blocks_ok(d), 0 <= b < d.n,
    ensures d.sc.len() > d.n, 0 <= d.sc[b] < d.sc[b + 1] < d.ip.len(), bs(d, b) < be(d, b) <= d.li.len(), 0 <= d.ip[d.sc[b] as int] <= d.li.len(),
        0 <= bp(d, b), bp(d, b + 1) == bp(d, b) + (be(d, b) - bs(d, b)), bp(d, b + 1) <= bp(d, d.n), bp(d, d.n) < i32::MAX, bptr(d)[b] == bp(d, b), bptr(d)[b + 1] == bp(d, b + 1), bset(d)[bp(d, b)] == b,
{ reveal(blocks_ok); assert(block_ok(d, b)); bp_mono(d, b, b + 1); bedge(d, b, bs(d, b)); bgraph_ptrs(d); }
// one entry more is counted
pub proof fn bcount(d: Bg, dead: Seq<bool>, b: int, j: int)
    requires blocks_ok(d), 0 <= b < d.n, bs(d, b) <= j < be(d, b), forall|e: int| 0 <= e < bp(d, d.n) ==> #[trigger] dead[e] == false,
    ensures 0 <= d.li[j] < d.cs.len(), 0 <= tgt(d, j) < d.n, 0 <= live(bset(d), dead, bp(d, b) + (j - bs(d, b)), tgt(d, j) as int) < i32::MAX,
        forall|v: int| #[trigger] live(bset(d), dead, bp(d, b) + (j - bs(d, b)) + 1, v) == live(bset(d), dead, bp(d, b) + (j - bs(d, b)), v) + (if v == tgt(d, j) { 1int } else { 0int }),
{ bedge(d, b, j); live_bounds(bset(d), dead, bp(d, b) + (j - bs(d, b)), tgt(d, j) as int); bp_mono(d, b, b + 1); let e = bp(d, b) + (j - bs(d, b)); assert(dead[e] == false); }
