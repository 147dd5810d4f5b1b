//@uses pack perm porder
// a schedule of groups written out as a schedule of nodes
pub ghost struct Ug { pub gp: Seq<i32>, pub gs: Seq<i32>, pub pp: Seq<i32>, pub ns: Seq<i32>, pub np: int, pub ng: int, pub n: int }
pub open spec fn grp(d: Ug, k: int) -> Seq<i32> { d.gs.subrange(d.gp[d.ns[k] as int] as int, d.gp[d.ns[k] + 1] as int) }
// the nodes of the first k scheduled groups, group after group
pub open spec fn flat(d: Ug, k: int) -> Seq<i32>
    decreases k
{ if k <= 0 { Seq::<i32>::empty() } else { flat(d, k - 1) + grp(d, k - 1) } }
pub open spec fn pt(d: Ug, j: int) -> int { flat(d, d.pp[j] as int).len() as int }
#[verifier::opaque]
pub open spec fn ug_ok(d: Ug) -> bool {
    0 <= d.np && 0 <= d.ng <= i32::MAX && 0 <= d.n < i32::MAX && d.pp.len() > d.np && d.pp[0] == 0 && (forall|a: int, b: int| 0 <= a <= b <= d.np ==> #[trigger] d.pp[a] <= #[trigger] d.pp[b])
    && d.pp[d.np] <= d.ns.len() && (forall|k: int| 0 <= k < d.pp[d.np] ==> 0 <= #[trigger] d.ns[k] < d.ng)
    && d.gp.len() > d.ng && d.gp[0] >= 0 && d.gp[d.ng] <= d.gs.len() && (forall|a: int, b: int| 0 <= a <= b <= d.ng ==> #[trigger] d.gp[a] <= #[trigger] d.gp[b])
    && (forall|q: int| 0 <= q < d.gp[d.ng] ==> 0 <= #[trigger] d.gs[q] < d.n)
    && flat(d, d.pp[d.np] as int).len() == d.n
}
pub open spec fn seg(d: Ug, s: Seq<i32>, j: int) -> Seq<i32> { s.subrange(pt(d, j), pt(d, j + 1)) }
pub open spec fn base(d: Ug) -> Seq<i32> { flat(d, d.pp[d.np] as int) }
pub open spec fn same_items(a: Seq<i32>, b: Seq<i32>) -> bool { exists|o: Seq<int>| reorder(a, b, o) }
pub open spec fn pos_in(d: Ug, j: int, x: int) -> bool { pt(d, j) <= x < pt(d, j + 1) }
// the finished schedule: boundaries, and every part holds the nodes of its groups
pub open spec fn bounds_done(d: Ug, fp: Seq<i32>) -> bool { fp.len() == d.np + 1 && fp[0] == 0 && fp[d.np] == d.n && forall|j: int| 0 <= j <= d.np ==> #[trigger] fp[j] == pt(d, j) }
pub open spec fn parts_same(d: Ug, s: Seq<i32>) -> bool { s.len() == d.n && forall|j: int| 0 <= j < d.np ==> same_items(#[trigger] seg(d, s, j), seg(d, base(d), j)) }
pub open spec fn parts_asc(d: Ug, s: Seq<i32>) -> bool { forall|j: int, x: int, y: int| 0 <= j < d.np && #[trigger] pos_in(d, j, x) && #[trigger] pos_in(d, j, y) && x < y ==> s[x] <= s[y] }
// no node comes before a predecessor of the same part
pub open spec fn parts_topo(d: Ug, s: Seq<i32>, p: Seq<i32>, g: Seq<i32>) -> bool {
    forall|j: int, x: int, y: int, e: int| 0 <= j < d.np && #[trigger] pos_in(d, j, x) && #[trigger] pos_in(d, j, y) && x < y && #[trigger] in_col(p, s[y] as int, e) && s[x] != s[y] ==> g[e] != s[x]
}
pub proof fn ug_part(d: Ug, j: int)
    requires ug_ok(d), 0 <= j < d.np,
    ensures 0 <= d.pp[j] <= d.pp[j + 1] <= d.pp[d.np], d.pp.len() > d.np, 0 <= pt(d, j) <= pt(d, j + 1) <= d.n, d.n < i32::MAX,
{ reveal(ug_ok); flat_mono(d, d.pp[j] as int, d.pp[j + 1] as int); flat_mono(d, d.pp[j + 1] as int, d.pp[d.np] as int); assert(d.pp[0] <= d.pp[j]); }
pub proof fn ug_pos(d: Ug, k: int)
    requires ug_ok(d), 0 <= k < d.pp[d.np],
    ensures k < d.ns.len(), 0 <= d.ns[k] < d.ng, 0 <= d.gp[d.ns[k] as int] <= d.gp[d.ns[k] + 1] <= d.gs.len(), d.gp.len() > d.ng, d.ng <= i32::MAX,
        flat(d, k + 1) == flat(d, k) + grp(d, k), flat(d, k).len() + (d.gp[d.ns[k] + 1] - d.gp[d.ns[k] as int]) <= d.n, d.n < i32::MAX,
{
    reveal(ug_ok); let g = d.ns[k] as int; assert(d.gp[0] <= d.gp[g]); assert(d.gp[g] <= d.gp[g + 1]); assert(d.gp[g + 1] <= d.gp[d.ng]);
    flat_mono(d, k + 1, d.pp[d.np] as int); assert(grp(d, k).len() == d.gp[g + 1] - d.gp[g]);
}
proof fn flat_mono(d: Ug, a: int, b: int)
    requires 0 <= a <= b,
    ensures flat(d, a).len() <= flat(d, b).len(), flat(d, b).subrange(0, flat(d, a).len() as int) == flat(d, a),
    decreases b
{ if a < b { flat_mono(d, a, b - 1); assert(flat(d, b).subrange(0, flat(d, a).len() as int) =~= flat(d, b - 1).subrange(0, flat(d, a).len() as int)); } else { assert(flat(d, b).subrange(0, flat(d, a).len() as int) =~= flat(d, a)); } }
// state while the groups are written out: groups below k, k1 is the first entry of the present group not written
#[verifier::opaque]
pub open spec fn wr(d: Ug, un: Seq<i32>, k: int, q: int, cnt: int) -> bool { cnt == un.len() && 0 <= cnt <= d.n && un == flat(d, k) + (if k < d.pp[d.np] { d.gs.subrange(d.gp[d.ns[k] as int] as int, q) } else { Seq::<i32>::empty() }) }
pub open spec fn gst(d: Ug, k: int) -> int { if k < d.pp[d.np] { d.gp[d.ns[k] as int] as int } else { 0 } }
pub proof fn wr_init(d: Ug, un: Seq<i32>)
    requires ug_ok(d), un.len() == 0,
    ensures wr(d, un, 0, gst(d, 0), 0),
{ reveal(wr); reveal(ug_ok); assert(un =~= flat(d, 0)); if 0 < d.pp[d.np] { ug_pos(d, 0); assert(un =~= flat(d, 0) + d.gs.subrange(gst(d, 0), gst(d, 0))); } else { assert(un =~= flat(d, 0) + Seq::<i32>::empty()); } }
pub proof fn wr_len(d: Ug, un: Seq<i32>, k: int, cnt: int)
    requires ug_ok(d), wr(d, un, k, gst(d, k), cnt), 0 <= k <= d.pp[d.np],
    ensures cnt == flat(d, k).len(), un == flat(d, k), un.len() == cnt, 0 <= cnt <= d.n, d.n < i32::MAX,
{ reveal(wr); reveal(ug_ok); if k < d.pp[d.np] { ug_pos(d, k); } assert(un =~= flat(d, k)); }
pub proof fn wr_step(d: Ug, un: Seq<i32>, k: int, q: int, cnt: int)
    requires ug_ok(d), 0 <= k < d.pp[d.np], wr(d, un, k, q, cnt), d.gp[d.ns[k] as int] <= q < d.gp[d.ns[k] + 1],
    ensures wr(d, un.push(d.gs[q]), k, q + 1, cnt + 1), 0 <= q < d.gs.len(), 0 <= cnt < d.n < i32::MAX,
{ reveal(wr); ug_pos(d, k); assert(un.push(d.gs[q]) =~= flat(d, k) + d.gs.subrange(d.gp[d.ns[k] as int] as int, q + 1)); assert(un.len() == flat(d, k).len() + (q - d.gp[d.ns[k] as int])); }
pub proof fn wr_next(d: Ug, un: Seq<i32>, k: int, cnt: int)
    requires ug_ok(d), 0 <= k < d.pp[d.np], wr(d, un, k, d.gp[d.ns[k] + 1] as int, cnt),
    ensures wr(d, un, k + 1, gst(d, k + 1), cnt),
{ reveal(wr); ug_pos(d, k); assert(un =~= flat(d, k + 1)); if k + 1 < d.pp[d.np] { ug_pos(d, k + 1); assert(un =~= flat(d, k + 1) + d.gs.subrange(gst(d, k + 1), gst(d, k + 1))); } else { assert(un =~= flat(d, k + 1) + Seq::<i32>::empty()); } }
pub open spec fn pts_upto(d: Ug, fp: Seq<i32>, m: int) -> bool { fp.len() == m && forall|j: int| 0 <= j < m ==> #[trigger] fp[j] == pt(d, j) }
pub proof fn pts_done(d: Ug, fp: Seq<i32>, un: Seq<i32>, k: int, cnt: int)
    requires ug_ok(d), pts_upto(d, fp, d.np), k == d.pp[d.np], wr(d, un, k, gst(d, k), cnt),
    ensures bounds_done(d, fp.push(cnt as i32)), un == base(d), cnt == d.n, parts_same(d, un),
{
    reveal(ug_ok); assert(d.pp[0] <= d.pp[d.np]); wr_len(d, un, k, cnt); let f2 = fp.push(cnt as i32); assert(pt(d, d.np) == cnt); assert(pt(d, 0) == 0) by { assert(flat(d, 0).len() == 0); }
    assert forall|j: int| 0 <= j <= d.np implies #[trigger] f2[j] == pt(d, j) by { if j < d.np { assert(fp[j] == pt(d, j)); } }
    same_refl_all(d, un);
}
pub proof fn same_refl(a: Seq<i32>)
    ensures same_items(a, a),
{ let o = Seq::new(a.len(), |k: int| k); assert(reorder(a, a, o)); }
pub proof fn same_refl_all(d: Ug, un: Seq<i32>)
    requires un == base(d), un.len() == d.n,
    ensures parts_same(d, un),
{ assert forall|j: int| 0 <= j < d.np implies same_items(#[trigger] seg(d, un, j), seg(d, base(d), j)) by { same_refl(seg(d, un, j)); } }
// ---- reordering part after part: parts below j are done, the rest is as written out
#[verifier::opaque]
pub open spec fn tail_same(d: Ug, s: Seq<i32>, j: int) -> bool { s.len() == d.n && forall|x: int| pt(d, j) <= x < d.n ==> #[trigger] s[x] == base(d)[x] }
#[verifier::opaque]
pub open spec fn done_same(d: Ug, s: Seq<i32>, j: int) -> bool { s.len() == d.n && forall|q: int| 0 <= q < j ==> same_items(#[trigger] seg(d, s, q), seg(d, base(d), q)) }
#[verifier::opaque]
pub open spec fn done_asc(d: Ug, s: Seq<i32>, j: int) -> bool { forall|q: int, x: int, y: int| 0 <= q < j && #[trigger] pos_in(d, q, x) && #[trigger] pos_in(d, q, y) && x < y ==> s[x] <= s[y] }
// positions of an order q (inverse of the topological order) ascend
#[verifier::opaque]
pub open spec fn done_pos(d: Ug, s: Seq<i32>, iv: Seq<i32>, j: int) -> bool { forall|q: int, x: int, y: int| 0 <= q < j && #[trigger] pos_in(d, q, x) && #[trigger] pos_in(d, q, y) && x < y ==> iv[s[x] as int] <= iv[s[y] as int] }
pub proof fn re_init(d: Ug, s: Seq<i32>, iv: Seq<i32>)
    requires s == base(d), s.len() == d.n,
    ensures tail_same(d, s, 0), done_same(d, s, 0), done_asc(d, s, 0), done_pos(d, s, iv, 0),
{ reveal(tail_same); reveal(done_same); reveal(done_asc); reveal(done_pos); }
pub proof fn pt_mono(d: Ug, a: int, b: int)
    requires ug_ok(d), 0 <= a <= b <= d.np,
    ensures 0 <= pt(d, a) <= pt(d, b) <= d.n,
{ reveal(ug_ok); assert(d.pp[a] <= d.pp[b]); assert(d.pp[b] <= d.pp[d.np]); assert(d.pp[0] <= d.pp[a]); flat_mono(d, d.pp[a] as int, d.pp[b] as int); flat_mono(d, d.pp[b] as int, d.pp[d.np] as int); }
// part j was reordered, everything else is untouched
pub open spec fn only_part(d: Ug, s: Seq<i32>, t: Seq<i32>, j: int) -> bool { t.len() == s.len() && forall|x: int| 0 <= x < s.len() && !pos_in(d, j, x) ==> #[trigger] t[x] == s[x] }
pub proof fn re_step(d: Ug, s: Seq<i32>, t: Seq<i32>, j: int)
    requires ug_ok(d), 0 <= j < d.np, tail_same(d, s, j), done_same(d, s, j), only_part(d, s, t, j), same_items(seg(d, t, j), seg(d, s, j)),
    ensures tail_same(d, t, j + 1), done_same(d, t, j + 1),
{
    ug_part(d, j); reveal(tail_same); reveal(done_same);
    assert forall|x: int| pt(d, j + 1) <= x < d.n implies #[trigger] t[x] == base(d)[x] by { assert(s[x] == base(d)[x]); assert(!pos_in(d, j, x)); }
    assert forall|q: int| 0 <= q < j + 1 implies same_items(#[trigger] seg(d, t, q), seg(d, base(d), q)) by {
        if q < j { pt_mono(d, q, q + 1); pt_mono(d, q + 1, j); assert(seg(d, t, q) =~= seg(d, s, q)); assert(same_items(seg(d, s, q), seg(d, base(d), q))); }
        else { reveal(ug_ok); assert(seg(d, s, j) =~= seg(d, base(d), j)); }
    }
}
pub proof fn re_asc(d: Ug, s: Seq<i32>, t: Seq<i32>, j: int)
    requires ug_ok(d), 0 <= j < d.np, s.len() == d.n, done_asc(d, s, j), only_part(d, s, t, j), forall|x: int, y: int| pt(d, j) <= x <= y < pt(d, j + 1) ==> #[trigger] t[x] <= #[trigger] t[y],
    ensures done_asc(d, t, j + 1),
{
    reveal(done_asc);
    assert forall|q: int, x: int, y: int| 0 <= q < j + 1 && #[trigger] pos_in(d, q, x) && #[trigger] pos_in(d, q, y) && x < y implies t[x] <= t[y] by {
        if q < j { pt_mono(d, q, q + 1); pt_mono(d, q + 1, j); pt_mono(d, j, j + 1); assert(t[x] == s[x] && t[y] == s[y]); } else { assert(t[x] <= t[y]); }
    }
}
pub proof fn re_pos(d: Ug, s: Seq<i32>, t: Seq<i32>, iv: Seq<i32>, j: int)
    requires ug_ok(d), 0 <= j < d.np, s.len() == d.n, done_pos(d, s, iv, j), only_part(d, s, t, j), forall|x: int, y: int| pt(d, j) <= x <= y < pt(d, j + 1) ==> iv[#[trigger] t[x] as int] <= iv[#[trigger] t[y] as int],
    ensures done_pos(d, t, iv, j + 1),
{
    reveal(done_pos);
    assert forall|q: int, x: int, y: int| 0 <= q < j + 1 && #[trigger] pos_in(d, q, x) && #[trigger] pos_in(d, q, y) && x < y implies iv[t[x] as int] <= iv[t[y] as int] by {
        if q < j { pt_mono(d, q, q + 1); pt_mono(d, q + 1, j); pt_mono(d, j, j + 1); assert(t[x] == s[x] && t[y] == s[y]); } else { assert(iv[t[x] as int] <= iv[t[y] as int]); }
    }
}
pub proof fn sorted_part(d: Ug, s: Seq<i32>, t: Seq<i32>, j: int)
    requires ug_ok(d), 0 <= j < d.np, s.len() == d.n, perm_range(t, s, pt(d, j), pt(d, j + 1)),
    ensures only_part(d, s, t, j), same_items(seg(d, t, j), seg(d, s, j)),
{ ug_part(d, j); let o = multiset_order(seg(d, t, j), seg(d, s, j)); }
pub proof fn same_part(d: Ug, s: Seq<i32>, j: int)
    ensures only_part(d, s, s, j), same_items(seg(d, s, j), seg(d, s, j)),
{ same_refl(seg(d, s, j)); }
// ---- postorder form
// entries below c of w are the order positions of the nodes of part j
#[verifier::opaque]
pub open spec fn got_pos(d: Ug, s: Seq<i32>, iv: Seq<i32>, w: Seq<i32>, j: int, c: int) -> bool { w.len() == d.n && forall|x: int| 0 <= x < c ==> #[trigger] w[x] == iv[s[pt(d, j) + x] as int] }
// the first c nodes of the part were written back
#[verifier::opaque]
pub open spec fn put_pos(d: Ug, s: Seq<i32>, t: Seq<i32>, o: Seq<i32>, w: Seq<i32>, j: int, c: int) -> bool {
    t.len() == s.len() && (forall|x: int| 0 <= x < s.len() && !(pt(d, j) <= x < pt(d, j) + c) ==> #[trigger] t[x] == s[x]) && (forall|x: int| 0 <= x < c ==> t[pt(d, j) + x] == o[#[trigger] w[x] as int])
}
pub proof fn in_nodes(d: Ug, s: Seq<i32>, j: int, x: int)
    requires ug_ok(d), tail_same(d, s, j), 0 <= j < d.np, pt(d, j) <= x < pt(d, j + 1),
    ensures 0 <= s[x] < d.n, s.len() == d.n, 0 <= x < d.n,
{ reveal(tail_same); ug_part(d, j); assert(s[x] == base(d)[x]); reveal(ug_ok); flat_range(d, d.pp[d.np] as int, x); }
proof fn flat_range(d: Ug, k: int, x: int)
    requires ug_ok(d), 0 <= k <= d.pp[d.np], 0 <= x < flat(d, k).len(),
    ensures 0 <= flat(d, k)[x] < d.n,
    decreases k
{
    if k > 0 { ug_pos(d, k - 1); let m = flat(d, k - 1).len() as int;
        if x < m { flat_range(d, k - 1, x); } else { reveal(ug_ok); let q = d.gp[d.ns[k - 1] as int] + (x - m); assert(flat(d, k)[x] == d.gs[q]); assert(d.gp[d.ns[k - 1] + 1] <= d.gp[d.ng]); }
    }
}
pub proof fn got_init(d: Ug, s: Seq<i32>, iv: Seq<i32>, w: Seq<i32>, j: int)
    requires w.len() == d.n,
    ensures got_pos(d, s, iv, w, j, 0),
{ reveal(got_pos); }
pub proof fn got_step(d: Ug, s: Seq<i32>, iv: Seq<i32>, w: Seq<i32>, j: int, c: int)
    requires got_pos(d, s, iv, w, j, c), 0 <= c < d.n,
    ensures got_pos(d, s, iv, w.update(c, iv[s[pt(d, j) + c] as int]), j, c + 1), w.len() == d.n,
{ reveal(got_pos); }
pub proof fn put_init(d: Ug, s: Seq<i32>, o: Seq<i32>, w: Seq<i32>, j: int)
    ensures put_pos(d, s, s, o, w, j, 0),
{ reveal(put_pos); }
pub proof fn put_step(d: Ug, s: Seq<i32>, t: Seq<i32>, o: Seq<i32>, w: Seq<i32>, j: int, c: int)
    requires put_pos(d, s, t, o, w, j, c), 0 <= c, 0 <= pt(d, j), pt(d, j) + c < s.len(),
    ensures put_pos(d, s, t.update(pt(d, j) + c, o[w[c] as int]), o, w, j, c + 1),
{
    reveal(put_pos); let t2 = t.update(pt(d, j) + c, o[w[c] as int]);
    assert forall|x: int| 0 <= x < c + 1 implies t2[pt(d, j) + x] == o[#[trigger] w[x] as int] by { if x < c { assert(t[pt(d, j) + x] == o[w[x] as int]); } }
}
// what sorting the positions yields: entries of w are positions, w2 is w sorted
pub proof fn sorted_range(d: Ug, s: Seq<i32>, iv: Seq<i32>, o: Seq<i32>, w: Seq<i32>, w2: Seq<i32>, j: int, c: int)
    requires ug_ok(d), 0 <= j < d.np, tail_same(d, s, j), got_pos(d, s, iv, w, j, c), c == pt(d, j + 1) - pt(d, j), perm_range(w2, w, 0, c), inverses(iv, o, d.n), 
    ensures w2.len() == d.n, forall|x: int| 0 <= x < c ==> 0 <= #[trigger] w2[x] < d.n && 0 <= o[w2[x] as int] < d.n && iv[o[w2[x] as int] as int] == w2[x],
{
    reveal(got_pos); ug_part(d, j); let a = w2.subrange(0, c); let b = w.subrange(0, c); let r = multiset_order(a, b);
    assert forall|x: int| 0 <= x < c implies 0 <= #[trigger] w2[x] < d.n && 0 <= o[w2[x] as int] < d.n && iv[o[w2[x] as int] as int] == w2[x] by {
        assert(a[x] == b[r[x]]); let z = r[x]; assert(w[z] == iv[s[pt(d, j) + z] as int]); in_nodes(d, s, j, pt(d, j) + z); let v = s[pt(d, j) + z] as int;
        assert(0 <= iv[v] < d.n); assert(o[iv[v] as int] == v);
    }
}
pub proof fn put_done(d: Ug, s: Seq<i32>, t: Seq<i32>, iv: Seq<i32>, o: Seq<i32>, w: Seq<i32>, w2: Seq<i32>, j: int, c: int)
    requires ug_ok(d), 0 <= j < d.np, tail_same(d, s, j), got_pos(d, s, iv, w, j, c), c == pt(d, j + 1) - pt(d, j), perm_range(w2, w, 0, c), inverses(iv, o, d.n), put_pos(d, s, t, o, w2, j, c),
        forall|x: int, y: int| 0 <= x <= y < c ==> #[trigger] w2[x] <= #[trigger] w2[y],
    ensures only_part(d, s, t, j), same_items(seg(d, t, j), seg(d, s, j)), forall|x: int, y: int| pt(d, j) <= x <= y < pt(d, j + 1) ==> iv[#[trigger] t[x] as int] <= iv[#[trigger] t[y] as int],
{
    sorted_range(d, s, iv, o, w, w2, j, c); reveal(got_pos); reveal(put_pos); ug_part(d, j); let a = w2.subrange(0, c); let b = w.subrange(0, c); let r = multiset_order(a, b);
    assert(s.len() == d.n) by { reveal(tail_same); }
    let ta = seg(d, t, j); let sa = seg(d, s, j); let m = pt(d, j);
    assert forall|x: int| 0 <= x < ta.len() implies #[trigger] ta[x] == sa[#[trigger] r[x]] by {
        assert(a[x] == b[r[x]]); let z = r[x]; assert(w[z] == iv[s[m + z] as int]); in_nodes(d, s, j, m + z); assert(t[m + x] == o[w2[x] as int]); assert(o[iv[s[m + z] as int] as int] == s[m + z]);
    }
    assert(reorder(ta, sa, r));
    assert forall|x: int, y: int| m <= x <= y < pt(d, j + 1) implies iv[#[trigger] t[x] as int] <= iv[#[trigger] t[y] as int] by { let x0 = x - m; let y0 = y - m; assert(t[m + x0] == o[w2[x0] as int]); assert(t[m + y0] == o[w2[y0] as int]); assert(w2[x0] <= w2[y0]); }
}
pub proof fn topo_done(d: Ug, s: Seq<i32>, p: Seq<i32>, g: Seq<i32>, o: Seq<i32>, iv: Seq<i32>)
    requires ug_ok(d), done_pos(d, s, iv, d.np), done_same(d, s, d.np), topological(p, g, d.n, o), inverses(iv, o, d.n),
    ensures parts_topo(d, s, p, g),
{
    reveal(done_pos);
    assert forall|j: int, x: int, y: int, e: int| 0 <= j < d.np && #[trigger] pos_in(d, j, x) && #[trigger] pos_in(d, j, y) && x < y && #[trigger] in_col(p, s[y] as int, e) && s[x] != s[y] implies g[e] != s[x] by {
        if g[e] == s[x] {
            final_range(d, s, j, x); final_range(d, s, j, y); let z = iv[s[y] as int] as int; assert(o[z] == s[y]); assert(in_col(p, o[z] as int, e)); assert(comes_later(d.n, o, z, g[e] as int));
            let z2 = choose|z2: int| z < z2 < d.n && #[trigger] o[z2] == g[e]; assert(iv[o[z2] as int] == z2);
        }
    }
}
proof fn final_range(d: Ug, s: Seq<i32>, j: int, x: int)
    requires ug_ok(d), done_same(d, s, d.np), 0 <= j < d.np, pos_in(d, j, x),
    ensures 0 <= s[x] < d.n,
{
    reveal(done_same); ug_part(d, j); assert(same_items(seg(d, s, j), seg(d, base(d), j))); let o = choose|o: Seq<int>| reorder(seg(d, s, j), seg(d, base(d), j), o); let z = x - pt(d, j);
    reveal(ug_ok); assert(seg(d, s, j)[z] == seg(d, base(d), j)[o[z]]); flat_range(d, d.pp[d.np] as int, pt(d, j) + o[z]);
}
pub proof fn same_done(d: Ug, s: Seq<i32>)
    requires done_same(d, s, d.np),
    ensures parts_same(d, s),
{ reveal(done_same); }
pub proof fn asc_done(d: Ug, s: Seq<i32>)
    requires done_asc(d, s, d.np),
    ensures parts_asc(d, s),
{ reveal(done_asc); }
// ---- every group scheduled once and every node in one group: every node is listed once
pub open spec fn each_once(d: Ug) -> bool { d.pp[d.np] == d.ng && is_perm(d.ns, d.ng) && d.gp[0] == 0 && d.gp[d.ng] == d.n && is_perm(d.gs, d.n) }
spec fn at(d: Ug, k: int, x: int) -> (int, int) { choose|z: (int, int)| 0 <= z.0 < k && 0 <= z.1 < grp(d, z.0).len() && x == flat(d, z.0).len() + z.1 }
proof fn flat_at(d: Ug, k: int, x: int)
    requires ug_ok(d), 0 <= k <= d.pp[d.np], 0 <= x < flat(d, k).len(),
    ensures ({ let z = at(d, k, x); 0 <= z.0 < k && 0 <= z.1 < grp(d, z.0).len() && x == flat(d, z.0).len() + z.1 && flat(d, k)[x] == d.gs[d.gp[d.ns[z.0] as int] + z.1] }),
{
    let z = flat_find(d, k, x); let y = at(d, k, x); assert(0 <= z.0 < k && 0 <= z.1 < grp(d, z.0).len() && x == flat(d, z.0).len() + z.1);
    flat_mono(d, y.0 + 1, k); ug_pos(d, y.0); assert(flat(d, k)[x] == flat(d, k).subrange(0, flat(d, y.0 + 1).len() as int)[x]); assert(flat(d, y.0 + 1)[x] == grp(d, y.0)[y.1]);
}
proof fn flat_find(d: Ug, k: int, x: int) -> (z: (int, int))
    requires ug_ok(d), 0 <= k <= d.pp[d.np], 0 <= x < flat(d, k).len(),
    ensures 0 <= z.0 < k, 0 <= z.1 < grp(d, z.0).len(), x == flat(d, z.0).len() + z.1,
    decreases k
{ let m = flat(d, k - 1).len() as int; if x < m { flat_find(d, k - 1, x) } else { (k - 1, x - m) } }
pub proof fn once_base(d: Ug)
    requires ug_ok(d), each_once(d),
    ensures is_perm(base(d), d.n),
{
    reveal(ug_ok); let k = d.pp[d.np] as int; let f = base(d);
    assert forall|x: int| 0 <= x < d.n implies 0 <= #[trigger] f[x] < d.n by { flat_range(d, k, x); }
    assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] f[x] != #[trigger] f[y] by {
        flat_at(d, k, x); flat_at(d, k, y); let a = at(d, k, x); let b = at(d, k, y); ug_pos(d, a.0); ug_pos(d, b.0);
        let qa = d.gp[d.ns[a.0] as int] + a.1; let qb = d.gp[d.ns[b.0] as int] + b.1;
        if a.0 != b.0 { let ga = d.ns[a.0] as int; let gb = d.ns[b.0] as int; assert(ga != gb); if ga < gb { assert(d.gp[ga + 1] <= d.gp[gb]); } else { assert(d.gp[gb + 1] <= d.gp[ga]); } }
        assert(qa != qb); assert(d.gp[d.ns[a.0] + 1] <= d.gp[d.ng]); assert(d.gp[d.ns[b.0] + 1] <= d.gp[d.ng]); assert(d.gs[qa] != d.gs[qb]);
    }
}
proof fn part_of(d: Ug, x: int, m: int) -> (j: int)
    requires ug_ok(d), 0 <= m <= d.np, 0 <= x < pt(d, m),
    ensures 0 <= j < m, pos_in(d, j, x),
    decreases m
{ reveal(ug_ok); if m == 0 { assert(flat(d, 0).len() == 0); 0 } else if x < pt(d, m - 1) { part_of(d, x, m - 1) } else { m - 1 } }
pub proof fn once_done(d: Ug, s: Seq<i32>)
    requires ug_ok(d), parts_same(d, s),
    ensures each_once(d) ==> is_perm(s, d.n),
{
    if each_once(d) {
        once_base(d); let f = base(d); reveal(ug_ok);
        assert forall|x: int| 0 <= x < d.n implies 0 <= #[trigger] s[x] < d.n by { let (j, z) = origin(d, s, x); }
        assert forall|x: int, y: int| 0 <= x < d.n && 0 <= y < d.n && x != y implies #[trigger] s[x] != #[trigger] s[y] by {
            let (j, z) = origin(d, s, x); let (i, u) = origin(d, s, y);
            if j == i { let o = choose|o: Seq<int>| reorder(seg(d, s, j), seg(d, base(d), j), o); assert(same_items(seg(d, s, j), seg(d, base(d), j))); let m = pt(d, j); ug_part(d, j);
                assert(seg(d, s, j)[x - m] == seg(d, f, j)[o[x - m]]); assert(seg(d, s, j)[y - m] == seg(d, f, j)[o[y - m]]); assert(o[x - m] != o[y - m]); assert(f[m + o[x - m]] != f[m + o[y - m]]); }
            else { if j < i { pt_mono(d, j + 1, i); } else { pt_mono(d, i + 1, j); } assert(f[z] != f[u]); }
        }
    }
}
proof fn origin(d: Ug, s: Seq<i32>, x: int) -> (r: (int, int))
    requires ug_ok(d), parts_same(d, s), 0 <= x < d.n, each_once(d), is_perm(base(d), d.n),
    ensures 0 <= r.0 < d.np, pos_in(d, r.0, x), pos_in(d, r.0, r.1), s[x] == base(d)[r.1], 0 <= r.1 < d.n, 0 <= s[x] < d.n,
{
    reveal(ug_ok); let j = part_of(d, x, d.np); ug_part(d, j); assert(same_items(seg(d, s, j), seg(d, base(d), j))); let o = choose|o: Seq<int>| reorder(seg(d, s, j), seg(d, base(d), j), o); let z = x - pt(d, j);
    assert(seg(d, s, j)[z] == seg(d, base(d), j)[o[z]]); (j, pt(d, j) + o[z])
}
// the schedule and the grouping as the routine receives them; parts of level l are lp[l] .. lp[l + 1]
pub open spec fn ug_of(gp: Seq<i32>, gs: Seq<i32>, pp: Seq<i32>, ns: Seq<i32>, lp: Seq<i32>, nl: int, n: int) -> Ug { Ug { gp: gp, gs: gs, pp: pp, ns: ns, np: lp[nl] as int, ng: gp.len() - 1, n: n } }
#[verifier::opaque]
pub open spec fn upt_ok(lp: Seq<i32>, nl: int) -> bool { 0 <= nl < lp.len() && lp[0] == 0 && forall|a: int, b: int| 0 <= a <= b <= nl ==> #[trigger] lp[a] <= #[trigger] lp[b] }
pub proof fn lv_start(lp: Seq<i32>, nl: int)
    requires upt_ok(lp, nl),
    ensures 0 <= nl < lp.len(), lp[0] == 0, 0 <= lp[nl],
{ reveal(upt_ok); assert(lp[0] <= lp[nl]); }
pub proof fn upt_at(lp: Seq<i32>, nl: int, l: int)
    requires upt_ok(lp, nl), 0 <= l < nl,
    ensures 0 <= nl < lp.len(), 0 <= lp[l] <= lp[l + 1] <= lp[nl],
{ reveal(upt_ok); assert(lp[0] <= lp[l]); }
pub proof fn ug_bounds(d: Ug)
    requires ug_ok(d),
    ensures 0 <= d.np < d.pp.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, d.pp[0] == 0, pt(d, 0) == 0,
{ reveal(ug_ok); assert(flat(d, 0).len() == 0); }
