//@uses fall wbfs windows
// one window of levels: its nodes as lists, one list per partition, predecessors first
pub open spec fn lel(l: Seq<Vec<i32>>, x: int, i: int) -> int { l[x]@[i] as int }
pub open spec fn lin(l: Seq<Vec<i32>>, k: int, x: int, i: int) -> bool { 0 <= x < k && 0 <= i < l[x]@.len() }
pub open spec fn in_lists(l: Seq<Vec<i32>>, k: int, v: int) -> bool { exists|x: int, i: int| #[trigger] lin(l, k, x, i) && lel(l, x, i) == v }
pub open spec fn led(l: Seq<Vec<i32>>, k: int, u: int, v: int) -> bool { exists|x: int, i: int, j: int| #[trigger] lin(l, k, x, i) && #[trigger] lin(l, k, x, j) && i < j && lel(l, x, i) == u && lel(l, x, j) == v }
#[verifier::opaque]
pub open spec fn l_mem(w: Win, l: Seq<Vec<i32>>, k: int) -> bool { forall|x: int, i: int| #[trigger] lin(l, k, x, i) ==> member(w, lel(l, x, i)) }
#[verifier::opaque]
pub open spec fn l_once(l: Seq<Vec<i32>>, k: int) -> bool { forall|x: int, i: int, y: int, j: int| #[trigger] lin(l, k, x, i) && #[trigger] lin(l, k, y, j) && lel(l, x, i) == lel(l, y, j) ==> x == y && i == j }
#[verifier::opaque]
pub open spec fn l_all(w: Win, l: Seq<Vec<i32>>, k: int) -> bool { forall|v: int| #[trigger] member(w, v) ==> in_lists(l, k, v) }
#[verifier::opaque]
pub open spec fn l_dep(w: Win, l: Seq<Vec<i32>>, k: int) -> bool { forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) ==> led(l, k, src(w.p, w.n, e), w.g[e] as int) }
pub open spec fn lists_sched(w: Win, l: Seq<Vec<i32>>, k: int) -> bool { 0 <= k <= l.len() && l_mem(w, l, k) && l_once(l, k) && l_all(w, l, k) && l_dep(w, l, k) }
// ---- the lists one behind the other
pub open spec fn flat(l: Seq<Vec<i32>>, k: int) -> Seq<i32>
    decreases k
{ if k <= 0 { seq![] } else { flat(l, k - 1) + l[k - 1]@ } }
pub open spec fn fo(l: Seq<Vec<i32>>, k: int) -> int { flat(l, k).len() as int }
pub open spec fn offs(l: Seq<Vec<i32>>, k: int) -> Seq<int> { Seq::new((k + 1) as nat, |j: int| fo(l, j)) }
pub proof fn fo_mono(l: Seq<Vec<i32>>, a: int, b: int)
    requires 0 <= a <= b <= l.len(),
    ensures 0 <= fo(l, a) <= fo(l, b), a < b ==> fo(l, a) + l[a]@.len() == fo(l, a + 1) && fo(l, a + 1) <= fo(l, b),
    decreases b
{ if a < b { fo_mono(l, a, b - 1); if a < b - 1 { fo_mono(l, a + 1, b - 1); } } }
pub proof fn flat_at(l: Seq<Vec<i32>>, k: int, x: int, i: int)
    requires 0 <= k <= l.len(), lin(l, k, x, i),
    ensures 0 <= fo(l, x), fo(l, x) + i < fo(l, x + 1), fo(l, x + 1) <= fo(l, k), flat(l, k)[fo(l, x) + i] == l[x]@[i],
    decreases k
{ if x == k - 1 { fo_mono(l, x, k); } else { flat_at(l, k - 1, x, i); fo_mono(l, k - 1, k); } }
pub proof fn flat_find(l: Seq<Vec<i32>>, k: int, q: int) -> (r: (int, int))
    requires 0 <= k <= l.len(), 0 <= q < fo(l, k),
    ensures lin(l, k, r.0, r.1), q == fo(l, r.0) + r.1, flat(l, k)[q] == l[r.0]@[r.1],
    decreases k
{ if k <= 0 { (0, 0) } else if q < fo(l, k - 1) { let r = flat_find(l, k - 1, q); r } else { (k - 1, q - fo(l, k - 1)) } }
proof fn flat_len(w: Win, l: Seq<Vec<i32>>, k: int)
    requires win_ok(w), lists_sched(w, l, k),
    ensures fo(l, k) == w.k,
{
    let s = flat(l, k); let m = fo(l, k);
    let t = Seq::new(m as nat, |q: int| choose|i: int| 0 <= i < w.k && w.nodes[i] == s[q]);
    assert forall|q: int| 0 <= q < t.len() implies 0 <= #[trigger] t[q] < w.k && w.nodes[t[q]] == s[q] by { let r = flat_find(l, k, q); reveal(l_mem); assert(lin(l, k, r.0, r.1)); assert(member(w, lel(l, r.0, r.1))); let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == s[q]; }
    assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { if t[a] == t[b] { let r = flat_find(l, k, a); let z = flat_find(l, k, b); reveal(l_once); assert(lel(l, r.0, r.1) == lel(l, z.0, z.1)); } }
    distinct_len(t, w.k);
    let z = Seq::new(w.k as nat, |i: int| choose|q: int| 0 <= q < m && s[q] == w.nodes[i]);
    assert forall|i: int| 0 <= i < w.k implies 0 <= #[trigger] z[i] < m && s[z[i]] == w.nodes[i] by {
        reveal(l_all); assert(w.nodes[i] == w.nodes[i]); assert(member(w, w.nodes[i] as int)); let (x, j) = choose|x: int, j: int| #[trigger] lin(l, k, x, j) && lel(l, x, j) == w.nodes[i]; flat_at(l, k, x, j); assert(s[fo(l, x) + j] == w.nodes[i]); let q = choose|q: int| 0 <= q < m && s[q] == w.nodes[i];
    }
    assert forall|a: int, b: int| 0 <= a < z.len() && 0 <= b < z.len() && a != b implies z[a] != z[b] by { assert(s[z[a]] == w.nodes[a]); assert(s[z[b]] == w.nodes[b]); if a < b { assert(w.nodes[a] != w.nodes[b]); } else { assert(w.nodes[b] != w.nodes[a]); } }
    distinct_len(z, m);
}
pub proof fn lists_wsched(w: Win, l: Seq<Vec<i32>>, k: int)
    requires win_ok(w), lists_sched(w, l, k),
    ensures wsched(w, flat(l, k), offs(l, k)), fo(l, k) == w.k, flat(l, k).len() == w.k, k <= l.len(),
{
    flat_len(w, l, k); let s = flat(l, k); let b = offs(l, k); reveal(wsched);
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies #[trigger] b[i] <= #[trigger] b[j] by { fo_mono(l, i, j); }
    assert(bnds(w.k, b));
    assert forall|q: int| 0 <= q < w.k implies member(w, #[trigger] s[q] as int) by { let r = flat_find(l, k, q); reveal(l_mem); assert(lin(l, k, r.0, r.1)); assert(member(w, lel(l, r.0, r.1))); }
    assert forall|x: int, y: int| 0 <= x < y < w.k implies #[trigger] s[x] != #[trigger] s[y] by { if s[x] == s[y] { let r = flat_find(l, k, x); let z = flat_find(l, k, y); reveal(l_once); assert(lel(l, r.0, r.1) == lel(l, z.0, z.1)); } }
    assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies before(s, b, src(w.p, w.n, e), w.g[e] as int) by {
        reveal(l_dep); let u = src(w.p, w.n, e); let v = w.g[e] as int; assert(led(l, k, u, v));
        let (x, i, j) = choose|x: int, i: int, j: int| #[trigger] lin(l, k, x, i) && #[trigger] lin(l, k, x, j) && i < j && lel(l, x, i) == u && lel(l, x, j) == v;
        flat_at(l, k, x, i); flat_at(l, k, x, j); let o = fo(l, x); assert(b[x] == o && b[x + 1] == fo(l, x + 1)); assert(prt(b, x, o + i)); assert(prt(b, x, o + j)); assert(s[o + i] == u && s[o + j] == v);
    }
}
// ---- the nodes of a topological order, distributed by label
pub open spec fn pl(q: Seq<i32>, pt: Seq<i32>, x: int, k: int) -> int { picked(q, pt, x, k).len() as int }
proof fn pl_mono(q: Seq<i32>, pt: Seq<i32>, x: int, a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= pl(q, pt, x, a) <= pl(q, pt, x, b), a < b && pt[q[a] as int] == x ==> pl(q, pt, x, a) < pl(q, pt, x, b),
    decreases b
{ if a < b { pl_mono(q, pt, x, a, b - 1); } }
proof fn pl_at(q: Seq<i32>, pt: Seq<i32>, x: int, k: int, y: int)
    requires 0 <= y < k <= q.len(), pt[q[y] as int] == x,
    ensures pl(q, pt, x, y) < pl(q, pt, x, k), picked(q, pt, x, k)[pl(q, pt, x, y)] == q[y],
    decreases k
{ if y < k - 1 { pl_at(q, pt, x, k - 1, y); } }
proof fn pl_find(q: Seq<i32>, pt: Seq<i32>, x: int, k: int, i: int) -> (y: int)
    requires 0 <= k <= q.len(), 0 <= i < pl(q, pt, x, k),
    ensures 0 <= y < k, pt[q[y] as int] == x, i == pl(q, pt, x, y), picked(q, pt, x, k)[i] == q[y],
    decreases k
{ if k <= 0 { 0 } else if i < pl(q, pt, x, k - 1) { pl_find(q, pt, x, k - 1, i) } else { k - 1 } }
// a window of levels as marks
#[verifier::opaque]
pub open spec fn outm(d: Lv, lb: int, ub: int) -> Seq<bool> { Seq::new(d.n as nat, |v: int| !(lb <= d.lev[v] < ub)) }
pub open spec fn wd(d: Lv, lb: int, ub: int) -> Wb { window(d.p, d.g, d.n, outm(d, lb, ub)) }
pub proof fn inw_is(d: Lv, lb: int, ub: int, v: int)
    requires lv_ok(d), 0 <= lb <= ub <= d.c,
    ensures inw(wd(d, lb, ub), v) <==> 0 <= v < d.n && inwin(wn(d, lb, ub), v), outm(d, lb, ub).len() == d.n, inw(wd(d, lb, ub), v) <==> member(wn(d, lb, ub), v),
{
    lv_sizes(d); reveal(outm); lv_win(d, lb, ub); let w = wn(d, lb, ub);
    if member(w, v) { let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(0 <= w.nodes[i] < w.n && inwin(w, w.nodes[i] as int)); }
}
pub proof fn wd_ok(d: Lv, lb: int, ub: int)
    requires lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= lb <= ub <= d.c,
    ensures wb_ok(wd(d, lb, ub)), window_in(d.p, d.g, d.n, outm(d, lb, ub)), outm(d, lb, ub).len() == d.n,
{ lv_sizes(d); reveal(outm); window_start(d.p, d.g, d.n, outm(d, lb, ub)); }
// what the label of a list entry says
proof fn list_pos(l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>, o: Seq<i32>, x: int, i: int) -> (y: int)
    requires lists_are(l, l0, pt, o, o.len() as int), lin(l, l.len() as int, x, i), l0[x]@.len() == 0,
    ensures 0 <= y < o.len(), pt[o[y] as int] == x, i == pl(o, pt, x, y), lel(l, x, i) == o[y],
{ reveal(lists_are); assert(l[x]@ == l0[x]@ + picked(o, pt, x, o.len() as int)); assert(l[x]@ =~= picked(o, pt, x, o.len() as int)); pl_find(o, pt, x, o.len() as int, i) }
proof fn pos_list(l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, pt: Seq<i32>, o: Seq<i32>, y: int)
    requires lists_are(l, l0, pt, o, o.len() as int), 0 <= y < o.len(), 0 <= pt[o[y] as int] < l.len(), l0[pt[o[y] as int] as int]@.len() == 0,
    ensures lin(l, l.len() as int, pt[o[y] as int] as int, pl(o, pt, pt[o[y] as int] as int, y)), lel(l, pt[o[y] as int] as int, pl(o, pt, pt[o[y] as int] as int, y)) == o[y],
{ let x = pt[o[y] as int] as int; reveal(lists_are); assert(l[x]@ == l0[x]@ + picked(o, pt, x, o.len() as int)); assert(l[x]@ =~= picked(o, pt, x, o.len() as int)); pl_at(o, pt, x, o.len() as int, y); pl_mono(o, pt, x, 0, y); }
pub open spec fn lab_below(w: Win, np: Seq<i32>, k: int) -> bool { forall|v: int| #[trigger] member(w, v) ==> 0 <= np[v] < k }
pub open spec fn all_empty(l: Seq<Vec<i32>>) -> bool { forall|x: int| 0 <= x < l.len() ==> (#[trigger] l[x])@.len() == 0 }
pub proof fn order_lists(d: Lv, lb: int, ub: int, l: Seq<Vec<i32>>, l0: Seq<Vec<i32>>, np: Seq<i32>, np0: Seq<i32>)
    requires lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= lb <= ub <= d.c, lists_ordered(wd(d, lb, ub), l, l0, np), all_empty(l0), l.len() == l0.len(), is_cc(wn(d, lb, ub), np, np0), lab_below(wn(d, lb, ub), np, l.len() as int),
    ensures lists_sched(wn(d, lb, ub), l, l.len() as int),
{
    let W = wd(d, lb, ub); let w = wn(d, lb, ub); let k = l.len() as int; lv_sizes(d); lv_win(d, lb, ub); wd_ok(d, lb, ub);
    let o = choose|o: Seq<i32>| #[trigger] window_order(W, o) && lists_are(l, l0, np, o, o.len() as int);
    assert(q_in(W, o) && in_order(W, o)) by { reveal(window_order); }
    assert forall|y: int| 0 <= y < o.len() implies member(w, #[trigger] o[y] as int) by { reveal(q_in); inw_is(d, lb, ub, o[y] as int); }
    assert(l_mem(w, l, k)) by { reveal(l_mem); assert forall|x: int, i: int| #[trigger] lin(l, k, x, i) implies member(w, lel(l, x, i)) by { let y = list_pos(l, l0, np, o, x, i); assert(member(w, o[y] as int)); } }
    assert(l_once(l, k)) by { reveal(l_once); assert forall|x: int, i: int, z: int, j: int| #[trigger] lin(l, k, x, i) && #[trigger] lin(l, k, z, j) && lel(l, x, i) == lel(l, z, j) implies x == z && i == j by {
        let a = list_pos(l, l0, np, o, x, i); let b = list_pos(l, l0, np, o, z, j); assert(o[a] == o[b]); assert(a == b) by { reveal(q_in); } } }
    assert forall|v: int| member(w, v) implies exists|y: int| 0 <= y < o.len() && #[trigger] o[y] == v by { inw_is(d, lb, ub, v); assert(inw(W, v)); assert(o.contains(v as i32)) by { reveal(window_order); } let y = choose|y: int| 0 <= y < o.len() && o[y] == v as i32; assert(o[y] == v); }
    assert(l_all(w, l, k)) by { reveal(l_all); assert forall|v: int| #[trigger] member(w, v) implies in_lists(l, k, v) by { let y = choose|y: int| 0 <= y < o.len() && #[trigger] o[y] == v; pos_list(l, l0, np, o, y); assert(lin(l, k, np[v] as int, pl(o, np, np[v] as int, y))); } }
    assert(l_dep(w, l, k)) by { reveal(l_dep); assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies led(l, k, src(w.p, w.n, e), w.g[e] as int) by {
        let u = src(w.p, w.n, e); let v = w.g[e] as int; src_ex(w.p, w.n, e); assert(0 <= v < w.n); inw_is(d, lb, ub, u); inw_is(d, lb, ub, v);
        let y = choose|y: int| 0 <= y < o.len() && #[trigger] o[y] == v; assert(edge_to(W, e, o[y] as int)); assert(popped(o, y, wsrc(W, e))) by { reveal(in_order); } let z = choose|z: int| 0 <= z < y && #[trigger] o[z] == wsrc(W, e); assert(o[z] == u);
        assert(esame(w, np, e)); pos_list(l, l0, np, o, y); pos_list(l, l0, np, o, z); let x = np[v] as int; assert(np[u] == x); pl_mono(o, np, x, z, y); assert(lin(l, k, x, pl(o, np, x, z))); assert(lin(l, k, x, pl(o, np, x, y)));
    } }
}
// ---- whole lists put into bins
pub open spec fn gl(cs: Seq<Vec<i32>>, ord: Seq<int>, bin: Seq<int>, k: int, b: int) -> int { got(cs, ord, bin, k, b).len() as int }
proof fn got_at(cs: Seq<Vec<i32>>, ord: Seq<int>, bin: Seq<int>, m: int, b: int, k: int, i: int)
    requires 0 <= k < m, bin[k] == b, 0 <= i < cs[ord[k]]@.len(),
    ensures 0 <= gl(cs, ord, bin, k, b) + i < gl(cs, ord, bin, m, b), got(cs, ord, bin, m, b)[gl(cs, ord, bin, k, b) + i] == cs[ord[k]]@[i],
    decreases m
{ if k < m - 1 { got_at(cs, ord, bin, m - 1, b, k, i); } }
proof fn got_find(cs: Seq<Vec<i32>>, ord: Seq<int>, bin: Seq<int>, m: int, b: int, j: int) -> (r: (int, int))
    requires 0 <= m, 0 <= j < gl(cs, ord, bin, m, b),
    ensures 0 <= r.0 < m, bin[r.0] == b, 0 <= r.1 < cs[ord[r.0]]@.len(), j == gl(cs, ord, bin, r.0, b) + r.1, got(cs, ord, bin, m, b)[j] == cs[ord[r.0]]@[r.1],
    decreases m
{ if m <= 0 { (0, 0) } else if j < gl(cs, ord, bin, m - 1, b) { got_find(cs, ord, bin, m - 1, b, j) } else { (m - 1, j - gl(cs, ord, bin, m - 1, b)) } }
pub proof fn pack_lists(w: Win, cs: Seq<Vec<i32>>, before: Seq<Vec<i32>>, after: Seq<Vec<i32>>, nb: int)
    requires lists_sched(w, cs, cs.len() as int), exists|ord: Seq<int>, bin: Seq<int>| #[trigger] packed(cs, before, after, nb, ord, bin), 0 <= nb <= before.len(), all_empty(before),
    ensures lists_sched(w, after, nb),
{
    let (ord, bin) = choose|ord: Seq<int>, bin: Seq<int>| #[trigger] packed(cs, before, after, nb, ord, bin); let m = cs.len() as int;
    assert forall|b: int| 0 <= b < before.len() implies (#[trigger] after[b])@ == got(cs, ord, bin, m, b) by { assert(before[b]@.len() == 0); assert(after[b]@ == before[b]@ + got(cs, ord, bin, m, b)); assert(after[b]@ =~= got(cs, ord, bin, m, b)); }
    assert(l_mem(w, after, nb)) by { reveal(l_mem); assert forall|x: int, i: int| #[trigger] lin(after, nb, x, i) implies member(w, lel(after, x, i)) by { let r = got_find(cs, ord, bin, m, x, i); assert(lin(cs, m, ord[r.0], r.1)); assert(member(w, lel(cs, ord[r.0], r.1))); } }
    assert(l_once(after, nb)) by { reveal(l_once); assert forall|x: int, i: int, z: int, j: int| #[trigger] lin(after, nb, x, i) && #[trigger] lin(after, nb, z, j) && lel(after, x, i) == lel(after, z, j) implies x == z && i == j by {
        let r = got_find(cs, ord, bin, m, x, i); let t = got_find(cs, ord, bin, m, z, j); assert(lin(cs, m, ord[r.0], r.1)); assert(lin(cs, m, ord[t.0], t.1)); assert(lel(cs, ord[r.0], r.1) == lel(cs, ord[t.0], t.1)); assert(r.0 == t.0); } }
    assert(l_all(w, after, nb)) by { reveal(l_all); assert forall|v: int| #[trigger] member(w, v) implies in_lists(after, nb, v) by { assert(in_lists(cs, m, v)); let (x, i) = choose|x: int, i: int| #[trigger] lin(cs, m, x, i) && lel(cs, x, i) == v; bin_pos(cs, before, after, nb, ord, bin, x, i); } }
    assert(l_dep(w, after, nb)) by { reveal(l_dep); assert forall|e: int| #[trigger] wedge(w, e) && w.g[e] != src(w.p, w.n, e) implies led(after, nb, src(w.p, w.n, e), w.g[e] as int) by {
        let u = src(w.p, w.n, e); let v = w.g[e] as int; assert(led(cs, m, u, v)); let (x, i, j) = choose|x: int, i: int, j: int| #[trigger] lin(cs, m, x, i) && #[trigger] lin(cs, m, x, j) && i < j && lel(cs, x, i) == u && lel(cs, x, j) == v;
        order_onto(ord, m, x); let k = choose|k: int| 0 <= k < m && #[trigger] ord[k] == x; let b = bin[k]; got_at(cs, ord, bin, m, b, k, i); got_at(cs, ord, bin, m, b, k, j); let o = gl(cs, ord, bin, k, b); assert(after[b]@ == got(cs, ord, bin, m, b)); assert(lin(after, nb, b, o + i)); assert(lin(after, nb, b, o + j)); } }
}
proof fn bin_pos(cs: Seq<Vec<i32>>, before: Seq<Vec<i32>>, after: Seq<Vec<i32>>, nb: int, ord: Seq<int>, bin: Seq<int>, x: int, i: int)
    requires packed(cs, before, after, nb, ord, bin), lin(cs, cs.len() as int, x, i), 0 <= nb <= before.len(), all_empty(before),
    ensures in_lists(after, nb, lel(cs, x, i)),
{
    let m = cs.len() as int; order_onto(ord, m, x); let k = choose|k: int| 0 <= k < m && #[trigger] ord[k] == x; let b = bin[k]; got_at(cs, ord, bin, m, b, k, i); let o = gl(cs, ord, bin, k, b);
    assert(before[b]@.len() == 0); assert(after[b]@ == before[b]@ + got(cs, ord, bin, m, b)); assert(after[b]@ =~= got(cs, ord, bin, m, b)); assert(lin(after, nb, b, o + i));
}
// ---- counting the entries that lead to each node
pub open spec fn ct(d: Wb, u: ISet<int>, k: int, v: int) -> int
    decreases k
{ if k <= 0 { 0 } else { ct(d, u, k - 1, v) + (if u.contains(k - 1) && d.g[k - 1] == v { 1int } else { 0int }) } }
proof fn ct_rm(d: Wb, u: ISet<int>, k: int, v: int, e: int)
    requires u.contains(e), e >= 0,
    ensures ct(d, u.remove(e), k, v) == ct(d, u, k, v) - (if e < k && d.g[e] == v { 1int } else { 0int }),
    decreases k
{ if k > 0 { ct_rm(d, u, k - 1, v, e); } }
proof fn ct_le(d: Wb, u: ISet<int>, k: int, v: int)
    requires k >= 0,
    ensures 0 <= ct(d, u, k, v) <= k,
    decreases k
{ if k > 0 { ct_le(d, u, k - 1, v); } }
proof fn ct_has(d: Wb, u: ISet<int>, k: int, v: int, e: int)
    requires 0 <= e < k, u.contains(e), d.g[e] == v,
    ensures ct(d, u, k, v) >= 1,
    decreases k
{ ct_le(d, u, k - 1, v); if e < k - 1 { ct_has(d, u, k - 1, v, e); } }
proof fn ct_none(d: Wb, u: ISet<int>, k: int, v: int)
    requires forall|e: int| !#[trigger] u.contains(e),
    ensures ct(d, u, k, v) == 0,
    decreases k
{ if k > 0 { ct_none(d, u, k - 1, v); } }
// a node of the window has one entry of its own
proof fn ct_self(d: Wb, k: int, v: int, s: int)
    requires wb_ok(d), 0 <= k <= d.p[d.n], inw(d, v), 0 <= s < d.p[d.n], d.g[s] == v, wsrc(d, s) == v, forall|e: int| 0 <= e < d.p[d.n] && #[trigger] d.g[e] == v && wsrc(d, e) == v ==> e == s,
    ensures ct(d, wb_all(d), k, v) == cu(d, wb_all(d), k, v) + (if s < k { 1int } else { 0int }),
    decreases k
{ if k > 0 { ct_self(d, k - 1, v, s); assert(wb_all(d).contains(k - 1) <==> inw(d, wsrc(d, k - 1))); if d.g[k - 1] == v && wsrc(d, k - 1) == v { assert(k - 1 == s); } } }
#[verifier::opaque]
pub open spec fn cnts(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, deg: Seq<i32>, u: ISet<int>) -> bool {
    wb_ok(d) && 0 <= k <= q.len() && deg.len() >= d.n && unread(d, q, k, cur, r, u) && (forall|v: int| 0 <= v < d.n ==> 0 <= #[trigger] deg[v] && deg[v] + ct(d, u, d.p[d.n] as int, v) == ct(d, wb_all(d), d.p[d.n] as int, v))
    && (cur >= 0 ==> 0 <= cur < d.n && popped(q, k, cur) && inw(d, cur) && d.p[cur] <= r <= d.p[cur + 1])
}
pub open spec fn zeros_upto(s: Seq<i32>, n: int) -> bool { forall|v: int| 0 <= v < n ==> #[trigger] s[v] == 0 }
pub proof fn cnts_init(d: Wb, q: Seq<i32>, deg: Seq<i32>)
    requires wb_ok(d), deg.len() >= d.n, zeros_upto(deg, d.n),
    ensures cnts(d, q, 0, -1, 0, deg, wb_all(d)),
{ reveal(cnts); reveal(unread); assert forall|v: int| 0 <= v < d.n implies 0 <= #[trigger] deg[v] && deg[v] + ct(d, wb_all(d), d.p[d.n] as int, v) == ct(d, wb_all(d), d.p[d.n] as int, v) by { assert(deg[v] == 0); } }
pub proof fn cnts_node(d: Wb, q: Seq<i32>, k: int, deg: Seq<i32>, u: ISet<int>)
    requires cnts(d, q, k, -1, 0, deg, u), 0 <= k < q.len(), inw(d, q[k] as int), forall|y: int| 0 <= y < q.len() && y != k ==> #[trigger] q[y] != q[k],
    ensures cnts(d, q, k + 1, q[k] as int, d.p[q[k] as int] as int, deg, u), deg.len() >= d.n, d.p.len() > d.n, 0 <= d.p[q[k] as int] <= d.p[q[k] + 1] <= d.p[d.n], d.p[d.n] < i32::MAX, d.p[d.n] <= d.g.len(),
{
    reveal(cnts); reveal(wb_ok); let x = q[k] as int;
    assert(d.p[0] <= d.p[x]); assert(d.p[x] <= d.p[x + 1]); assert(d.p[x + 1] <= d.p[d.n]);
    assert forall|v: int| popped(q, k + 1, v) <==> (popped(q, k, v) || v == x) by { if popped(q, k, v) { let y = choose|y: int| 0 <= y < k && #[trigger] q[y] == v; assert(q[y] == v); } if v == x { assert(q[k] == x); } }
    assert(!popped(q, k, x)) by { if popped(q, k, x) { let y = choose|y: int| 0 <= y < k && #[trigger] q[y] == x; assert(q[y] != q[k]); } }
    assert(unread(d, q, k + 1, x, d.p[x] as int, u)) by { reveal(unread);
        assert forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q, k + 1, wsrc(d, e)) || (wsrc(d, e) == x && e >= d.p[x])) by { if 0 <= e < d.p[d.n] { wsrc_in(d, e); } } }
}
pub proof fn cnts_at(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, deg: Seq<i32>, u: ISet<int>)
    requires cnts(d, q, k, cur, r, deg, u), cur >= 0, r < d.p[cur + 1],
    ensures 0 <= r < d.p[d.n] <= d.g.len(), 0 <= d.g[r] < d.n <= deg.len(), 0 <= deg[d.g[r] as int] < i32::MAX, cnts(d, q, k, cur, r + 1, deg.update(d.g[r] as int, (deg[d.g[r] as int] + 1) as i32), u.remove(r)),
{
    reveal(cnts); reveal(wb_ok); let m = d.p[d.n] as int; assert(d.p[0] <= d.p[cur]); assert(d.p[cur + 1] <= d.p[d.n]); assert(in_col(d.p, cur, r)); src_is(d.p, d.n, cur, r); wsrc_in(d, r);
    assert(u.contains(r)) by { reveal(unread); } let w = d.g[r] as int; let u2 = u.remove(r); let deg2 = deg.update(w, (deg[w] + 1) as i32);
    ct_has(d, u, m, w, r); ct_le(d, wb_all(d), m, w); unread_step(d, q, k, cur, r, u);
    assert forall|v: int| 0 <= v < d.n implies 0 <= #[trigger] deg2[v] && deg2[v] + ct(d, u2, m, v) == ct(d, wb_all(d), m, v) by { ct_rm(d, u, m, v, r); assert(deg[v] + ct(d, u, m, v) == ct(d, wb_all(d), m, v)); }
}
pub proof fn cnts_end(d: Wb, q: Seq<i32>, k: int, cur: int, r: int, deg: Seq<i32>, u: ISet<int>)
    requires cnts(d, q, k, cur, r, deg, u), cur >= 0, r >= d.p[cur + 1],
    ensures cnts(d, q, k, -1, 0, deg, u),
{
    reveal(cnts);
    assert(unread(d, q, k, -1, 0, u)) by { reveal(unread);
        assert forall|e: int| #[trigger] u.contains(e) <==> 0 <= e < d.p[d.n] && inw(d, wsrc(d, e)) && (!popped(q, k, wsrc(d, e)) || (wsrc(d, e) == -1 && e >= 0)) by { if 0 <= e < d.p[d.n] { wsrc_in(d, e); } } }
}
pub proof fn cnts_done(d: Lv, lb: int, ub: int, deg: Seq<i32>, u: ISet<int>)
    requires lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= lb <= ub <= d.c, cnts(wd(d, lb, ub), wn(d, lb, ub).nodes, wn(d, lb, ub).k, -1, 0, deg, u),
    ensures degs_start(wd(d, lb, ub), deg),
{
    let W = wd(d, lb, ub); let w = wn(d, lb, ub); reveal(cnts); lv_win(d, lb, ub); lv_sizes(d); let m = d.p[d.n] as int;
    assert forall|e: int| !#[trigger] u.contains(e) by { reveal(unread); if u.contains(e) { wsrc_in(W, e); let v = wsrc(W, e); inw_is(d, lb, ub, v); let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(w.nodes[i] == v); assert(popped(w.nodes, w.k, v)); } }
    reveal(degs_start); assert(W.p == d.p && W.g == d.g && W.n == d.n);
    assert forall|v: int| #[trigger] inw(W, v) implies deg[v] == 1 + wpre(W, v) by {
        assert(deg[v] >= 0); ct_none(W, u, m, v); assert(has_diag(d.p, d.g, v)); let s = diag(d.p, d.g, v); assert(is_diag(d.p, d.g, v, s)); lv_diag(d, v, s);
        assert forall|e: int| 0 <= e < W.p[W.n] && #[trigger] W.g[e] == v && wsrc(W, e) == v implies e == s by { src_ex(d.p, d.n, e); assert(is_diag(d.p, d.g, v, e)); }
        ct_self(W, m, v, s);
    }
}
proof fn lv_diag(d: Lv, v: int, s: int)
    requires lv_ok(d), 0 <= v < d.n, is_diag(d.p, d.g, v, s),
    ensures 0 <= s < d.p[d.n], src(d.p, d.n, s) == v, d.g[s] == v,
{ lv_sizes(d); assert(d.p[0] <= d.p[v]); assert(d.p[v + 1] <= d.p[d.n]); assert(in_col(d.p, v, s)); src_is(d.p, d.n, v, s); }
// ---- the first level of a window has its sources
pub proof fn first_level(d: Lv, lb: int, ub: int)
    requires lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= lb < ub <= d.c,
    ensures srcs_ok(wd(d, lb, ub), d.ls.subrange(d.lp[lb] as int, d.lp[lb + 1] as int)), 0 <= d.lp[lb] <= d.lp[lb + 1] <= d.n, d.ls.len() >= d.n, d.lp.len() > d.c,
{
    let W = wd(d, lb, ub); lv_sizes(d); lv_mono(d, lb, lb + 1); lv_win(d, lb, ub); wd_ok(d, lb, ub); let o = d.lp[lb] as int; let sl = d.ls.subrange(o, d.lp[lb + 1] as int); let m = d.p[d.n] as int; reveal(srcs_ok);
    assert forall|x: int, y: int| 0 <= x < sl.len() && 0 <= y < sl.len() && x != y implies sl[x] != sl[y] by { lv_pos(d, o + x); assert(d.ls[o + y] != d.ls[o + x]); }
    assert forall|x: int| 0 <= x < sl.len() implies inw(W, #[trigger] sl[x] as int) && wpre(W, sl[x] as int) == 0 by {
        lv_pos(d, o + x); let v = sl[x] as int; let l = d.lev[v] as int; if l < lb { lv_mono(d, l + 1, lb); } if l > lb { lv_mono(d, lb + 1, l); } assert(l == lb); inw_is(d, lb, ub, v);
        cu_ge(W, wb_all(W), m, v);
        if wpre(W, v) >= 1 { let e = cu_find(W, wb_all(W), m, v); wsrc_in(W, e); inw_is(d, lb, ub, wsrc(W, e)); assert(d.lev[src(d.p, d.n, e)] < d.lev[d.g[e] as int]); }
    }
    assert forall|v: int| #[trigger] inw(W, v) && wpre(W, v) == 0 implies sl.contains(v as i32) by {
        inw_is(d, lb, ub, v);
        if d.lev[v] > lb { let e = lv_pred(d, v); inw_is(d, lb, ub, src(d.p, d.n, e)); assert(wb_all(W).contains(e)); cu_has(W, wb_all(W), m, v, e); }
        let q = lv_at(d, v); assert(sl[q - o] == v as i32);
    }
}
// ---- marks
#[verifier::opaque]
pub open spec fn unm(d: Lv, vis: Seq<bool>, a: int, b: int) -> bool { vis.len() >= d.n && forall|v: int| 0 <= v < d.n && a <= d.lev[v] < b ==> !#[trigger] vis[v] }
#[verifier::opaque]
pub open spec fn setp(d: Lv, vis: Seq<bool>, lo: int, hi: int, b: bool) -> bool { forall|q: int| lo <= q < hi ==> vis[#[trigger] d.ls[q] as int] == b }
pub proof fn unm_cut(d: Lv, vis: Seq<bool>, a: int, b: int, a2: int, b2: int)
    requires unm(d, vis, a, b), a <= a2, b2 <= b,
    ensures unm(d, vis, a2, b2), vis.len() >= d.n,
{ reveal(unm); }
// a node of another level is marked
pub proof fn unm_set(d: Lv, vis: Seq<bool>, a: int, b: int, q: int, l: int, x: bool)
    requires lv_ok(d), unm(d, vis, a, b), 0 <= l < d.c, d.lp[l] <= q < d.lp[l + 1], l < a || l >= b || !x,
    ensures unm(d, vis.update(d.ls[q] as int, x), a, b), 0 <= q < d.n, q < d.ls.len(), 0 <= d.ls[q] < vis.len(), 0 <= d.ls[q] < d.n,
{ lv_sizes(d); lv_mono(d, l, l + 1); lv_mono(d, l + 1, d.c); lv_pos(d, q); let m = d.lev[d.ls[q] as int] as int; if m < l { lv_mono(d, m + 1, l); } if m > l { lv_mono(d, l + 1, m); } reveal(unm); }
pub proof fn setp_none(d: Lv, vis: Seq<bool>, lo: int, b: bool)
    ensures setp(d, vis, lo, lo, b),
{ reveal(setp); }
pub proof fn setp_step(d: Lv, vis: Seq<bool>, lo: int, q: int, b: bool)
    requires lv_ok(d), setp(d, vis, lo, q, b), 0 <= lo <= q < d.n, vis.len() >= d.n,
    ensures setp(d, vis.update(d.ls[q] as int, b), lo, q + 1, b),
{ reveal(setp); lv_sizes(d); lv_pos(d, q); let v2 = vis.update(d.ls[q] as int, b); assert forall|r: int| lo <= r < q + 1 implies v2[#[trigger] d.ls[r] as int] == b by { lv_pos(d, r); if r < q { assert(vis[d.ls[r] as int] == b); } } }
pub proof fn setp_all(d: Lv, vis: Seq<bool>, ub: int)
    requires lv_ok(d), 0 <= ub <= d.c, vis.len() >= d.n, setp(d, vis, d.lp[ub] as int, d.n, false),
    ensures unm(d, vis, ub, d.c),
{ reveal(unm); reveal(setp); lv_sizes(d); assert forall|v: int| 0 <= v < d.n && ub <= d.lev[v] < d.c implies !#[trigger] vis[v] by { let q = lv_at(d, v); lv_mono(d, ub, d.lev[v] as int); assert(vis[d.ls[q] as int] == false); } }
pub proof fn marks_ready(d: Lv, vis: Seq<bool>, lb: int, ub: int)
    requires lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= lb <= ub <= d.c, unm(d, vis, lb, ub), setp(d, vis, d.lp[ub] as int, d.n, true),
    ensures marks_in(outm(d, lb, ub), vis), sees(wd(d, lb, ub), vis), outm(d, lb, ub).len() == d.n, vis.len() >= d.n,
{
    lv_sizes(d); let W = wd(d, lb, ub); reveal(outm); reveal(unm);
    assert(marks_in(outm(d, lb, ub), vis)) by { reveal(marks_in); }
    assert(sees(W, vis)) by { reveal(sees); assert forall|e: int| 0 <= e < W.p[W.n] && inw(W, wsrc(W, e)) && W.out[#[trigger] wtgt(W, e)] implies vis[wtgt(W, e)] by {
        wd_ok(d, lb, ub); wsrc_in(W, e); let u = src(d.p, d.n, e); let v = d.g[e] as int; assert(v != u); assert(d.lev[src(d.p, d.n, e)] < d.lev[d.g[e] as int]); assert(0 <= d.lev[v] < d.c); let q = lv_at(d, v); lv_mono(d, ub, d.lev[v] as int); reveal(setp); assert(vis[d.ls[q] as int] == true); } }
}
pub open spec fn same_to(a: Seq<i32>, b: Seq<i32>, k: int) -> bool { forall|x: int| 0 <= x < k ==> #[trigger] a[x] == b[x] }
pub open spec fn wlist(w: Win, a: Seq<i32>) -> Win { Win { p: w.p, g: w.g, n: w.n, lev: w.lev, lb: w.lb, ub: w.ub, nodes: a, k: w.k } }
pub proof fn wlist_ok(d: Lv, lb: int, ub: int, a: Seq<i32>, np: Seq<i32>, np0: Seq<i32>)
    requires lv_ok(d), 0 <= lb <= ub <= d.c, a.len() >= d.lp[ub] - d.lp[lb], same_to(a, wn(d, lb, ub).nodes, wn(d, lb, ub).k),
    ensures win_ok(wlist(wn(d, lb, ub), a)), is_cc(wlist(wn(d, lb, ub), a), np, np0) ==> is_cc(wn(d, lb, ub), np, np0), wn(d, lb, ub).k <= d.n,
{ let w = wn(d, lb, ub); lv_win(d, lb, ub); win_conv(w, wlist(w, a), np, np0); }
pub open spec fn nparts(cc: int) -> int { if cc < 0 { 0 } else { cc } }
pub proof fn labs_ready(w: Win, a: Seq<i32>, np: Seq<i32>, np0: Seq<i32>, cc: int)
    requires win_ok(w), is_cc(w, np, np0), same_to(a, w.nodes, w.k), w.k == 0 ==> cc == -1, w.k > 0 ==> (forall|i: int| 0 <= i < w.k ==> #[trigger] np[a[i] as int] < cc) && exists|i: int| 0 <= i < w.k && #[trigger] np[a[i] as int] + 1 == cc,
    ensures lab_below(w, np, nparts(cc)), nparts(cc) <= w.k, cc >= -1,
{
    assert forall|v: int| #[trigger] member(w, v) implies 0 <= np[v] < nparts(cc) by { let i = choose|i: int| 0 <= i < w.k && w.nodes[i] == v; assert(a[i] == v); assert(np[a[i] as int] < cc); assert(lab_ok(w, np, i)); }
    if w.k > 0 { let i = choose|i: int| 0 <= i < w.k && #[trigger] np[a[i] as int] + 1 == cc; assert(a[i] == w.nodes[i]); assert(lab_ok(w, np, i)); }
}
pub proof fn win_node(d: Lv, lb: int, ub: int, i: int)
    requires lv_ok(d), 0 <= lb <= ub <= d.c, 0 <= i < wn(d, lb, ub).k,
    ensures inw(wd(d, lb, ub), wn(d, lb, ub).nodes[i] as int), wn(d, lb, ub).nodes[i] == d.ls[d.lp[lb] + i], d.lp[lb] + i < d.lp[ub], wn(d, lb, ub).nodes.len() == wn(d, lb, ub).k, 0 <= wn(d, lb, ub).nodes[i] < d.n, forall|y: int| 0 <= y < wn(d, lb, ub).nodes.len() && y != i ==> #[trigger] wn(d, lb, ub).nodes[y] != wn(d, lb, ub).nodes[i],
{ let w = wn(d, lb, ub); lv_win(d, lb, ub); let v = w.nodes[i] as int; assert(member(w, v)); inw_is(d, lb, ub, v); assert(0 <= w.nodes[i] < w.n);
  assert forall|y: int| 0 <= y < w.nodes.len() && y != i implies #[trigger] w.nodes[y] != w.nodes[i] by { if y < i { assert(w.nodes[y] != w.nodes[i]); } else { assert(w.nodes[i] != w.nodes[y]); } } }
pub proof fn win_labels(d: Lv, lb: int, ub: int, np: Seq<i32>, k: int)
    requires lv_ok(d), 0 <= lb <= ub <= d.c, lab_below(wn(d, lb, ub), np, k),
    ensures forall|v: int| #[trigger] inw(wd(d, lb, ub), v) ==> 0 <= np[v] < k,
{ assert forall|v: int| #[trigger] inw(wd(d, lb, ub), v) implies 0 <= np[v] < k by { inw_is(d, lb, ub, v); assert(member(wn(d, lb, ub), v)); } }
pub proof fn cc_cost_len(w: Win, np: Seq<i32>, c0: Seq<F64>, nc: Seq<F64>, m: int)
    ensures cc_cost(w, np, c0, nc, m).len() == c0.len(),
    decreases m
{ if m > 0 { cc_cost_len(w, np, c0, nc, m - 1); } }
// ---- the windows of a partitioning
#[verifier::opaque]
pub open spec fn wok(d: Lv, wm: Seq<i32>) -> bool { lv_ok(d) && wm_ok(d, wm) }
pub proof fn wok_at(d: Lv, wm: Seq<i32>, q: int)
    requires wok(d, wm), 0 <= q, q + 1 < wm.len(),
    ensures 0 <= wm[q] < wm[q + 1] <= d.c, 0 <= d.lp[wm[q] as int] <= d.lp[wm[q + 1] as int] <= d.n, wn(d, wm[q] as int, wm[q + 1] as int).k == d.lp[wm[q + 1] as int] - d.lp[wm[q] as int], win_ok(wn(d, wm[q] as int, wm[q + 1] as int)), lv_ok(d), wm.len() - 1 <= d.n, d.n < i32::MAX, d.lp.len() > d.c,
{ reveal(wok); wm_at(d, wm, q); lv_win(d, wm[q] as int, wm[q + 1] as int); wm_len(d, wm); lv_sizes(d); }
proof fn wok_lt(d: Lv, wm: Seq<i32>, q: int, r: int)
    requires wok(d, wm), 0 <= q < r < wm.len(),
    ensures wm[q + 1] <= wm[r],
{ reveal(wok); if q + 1 < r { assert(wm[q + 1] < wm[r]); } }
pub open spec fn amg(a: Seq<i32>, m: int, q: int) -> bool { exists|x: int| 0 <= x < m && #[trigger] a[x] == q }
#[verifier::opaque]
pub open spec fn split_in(a: Seq<i32>, b: Seq<i32>, l: int) -> bool {
    inc(a) && inc(b) && a.len() <= l && b.len() <= l && (forall|x: int| 0 <= x < a.len() ==> 0 <= #[trigger] a[x] < l) && (forall|x: int| 0 <= x < b.len() ==> 0 <= #[trigger] b[x] < l)
    && (forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < b.len() ==> #[trigger] a[x] != #[trigger] b[y]) && forall|q: int| 0 <= q < l ==> #[trigger] amg(a, a.len() as int, q) || amg(b, b.len() as int, q)
}
pub proof fn split_none()
    ensures split_in(seq![], seq![], 0),
{ reveal(split_in); reveal(inc); }
pub proof fn split_push(a: Seq<i32>, b: Seq<i32>, l: i32)
    requires split_in(a, b, l as int), 0 <= l < i32::MAX,
    ensures split_in(a.push(l), b, l + 1), split_in(a, b.push(l), l + 1),
{
    reveal(split_in);
    if a.len() > 0 { assert(a[a.len() - 1] < l); } if b.len() > 0 { assert(b[b.len() - 1] < l); } inc_push(a, l); inc_push(b, l);
    assert forall|q: int| amg(a, a.len() as int, q) implies #[trigger] amg(a.push(l), a.len() as int + 1, q) by { let x = choose|x: int| 0 <= x < a.len() && #[trigger] a[x] == q; assert(a.push(l)[x] == q); }
    assert forall|q: int| amg(b, b.len() as int, q) implies #[trigger] amg(b.push(l), b.len() as int + 1, q) by { let x = choose|x: int| 0 <= x < b.len() && #[trigger] b[x] == q; assert(b.push(l)[x] == q); }
    assert(a.push(l)[a.len() as int] == l); assert(b.push(l)[b.len() as int] == l);
    assert forall|q: int| 0 <= q < l + 1 implies #[trigger] amg(a.push(l), a.push(l).len() as int, q) || amg(b, b.len() as int, q) by { if q < l { assert(amg(a, a.len() as int, q) || amg(b, b.len() as int, q)); } else { assert(a.push(l)[a.len() as int] == q); } }
    assert forall|q: int| 0 <= q < l + 1 implies #[trigger] amg(a, a.len() as int, q) || amg(b.push(l), b.push(l).len() as int, q) by { if q < l { assert(amg(a, a.len() as int, q) || amg(b, b.len() as int, q)); } else { assert(b.push(l)[b.len() as int] == q); } }
}
// windows done so far have their lists, the others none
pub open spec fn wdone(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, q: int) -> bool { let w = wn(d, wm[q] as int, wm[q + 1] as int); lists_sched(w, m[q]@, o[q] as int) && o[q] <= w.k }
#[verifier::opaque]
pub open spec fn some_done(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, na: int, b: Seq<i32>, nb: int) -> bool {
    m.len() == wm.len() - 1 && o.len() == m.len() && forall|q: int| 0 <= q < m.len() ==> if amg(a, na, q) || amg(b, nb, q) { wdone(d, wm, m, o, q) } else { (#[trigger] m[q])@.len() == 0 }
}
pub proof fn some_none(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, b: Seq<i32>)
    requires m.len() == wm.len() - 1, o.len() == m.len(), forall|q: int| 0 <= q < m.len() ==> (#[trigger] m[q])@.len() == 0,
    ensures some_done(d, wm, m, o, a, 0, b, 0),
{ reveal(some_done); }
pub open spec fn wnx(wm: Seq<i32>, a: Seq<i32>, i: int) -> int { if i <= 0 { 0 } else { wm[a[i - 1] + 1] as int } }
pub proof fn turn_a(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, i: int, b: Seq<i32>)
    requires wok(d, wm), some_done(d, wm, m, o, a, i, b, 0), split_in(a, b, wm.len() - 1), 0 <= i < a.len(),
    ensures 0 <= a[i] < wm.len() - 1, m.len() == wm.len() - 1, o.len() == m.len(), m[a[i] as int]@.len() == 0, wnx(wm, a, i) <= wm[a[i] as int],
{
    reveal(some_done); reveal(split_in); let q = a[i] as int;
    assert(!amg(a, i, q)) by { if amg(a, i, q) { reveal(inc); let x = choose|x: int| 0 <= x < i && #[trigger] a[x] == q; assert(a[x] < a[i]); } }
    assert(m[q]@.len() == 0); wok_at(d, wm, q); if i > 0 { reveal(inc); assert(a[i - 1] < a[i]); wok_lt(d, wm, a[i - 1] as int, q); }
}
pub proof fn turn_b(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, b: Seq<i32>, i: int)
    requires wok(d, wm), some_done(d, wm, m, o, a, a.len() as int, b, i), split_in(a, b, wm.len() - 1), 0 <= i < b.len(),
    ensures 0 <= b[i] < wm.len() - 1, m.len() == wm.len() - 1, o.len() == m.len(), m[b[i] as int]@.len() == 0, wnx(wm, b, i) <= wm[b[i] as int],
{
    reveal(some_done); reveal(split_in); let q = b[i] as int;
    assert(!amg(b, i, q)) by { if amg(b, i, q) { reveal(inc); let x = choose|x: int| 0 <= x < i && #[trigger] b[x] == q; assert(b[x] < b[i]); } }
    assert(!amg(a, a.len() as int, q)) by { if amg(a, a.len() as int, q) { let x = choose|x: int| 0 <= x < a.len() && #[trigger] a[x] == q; assert(a[x] != b[i]); } }
    assert(m[q]@.len() == 0); wok_at(d, wm, q); if i > 0 { reveal(inc); assert(b[i - 1] < b[i]); wok_lt(d, wm, b[i - 1] as int, q); }
}
proof fn amg_step(a: Seq<i32>, i: int, q: int)
    requires 0 <= i < a.len(),
    ensures amg(a, i + 1, q) <==> amg(a, i, q) || q == a[i],
{ if amg(a, i + 1, q) { let x = choose|x: int| 0 <= x < i + 1 && #[trigger] a[x] == q; assert(a[x] == q); } if amg(a, i, q) { let x = choose|x: int| 0 <= x < i && #[trigger] a[x] == q; assert(a[x] == q); } if q == a[i] { assert(a[i] == q); } }
proof fn done_keep(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, m2: Seq<Vec<Vec<i32>>>, o2: Seq<i32>, q: int)
    requires wdone(d, wm, m, o, q), m2[q] == m[q], o2[q] == o[q],
    ensures wdone(d, wm, m2, o2, q),
{}
pub proof fn done_a(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, i: int, b: Seq<i32>, nb: int, m2: Seq<Vec<Vec<i32>>>, o2: Seq<i32>)
    requires some_done(d, wm, m, o, a, i, b, nb), 0 <= i < a.len(), 0 <= a[i] < m.len(), m2 == m.update(a[i] as int, m2[a[i] as int]), o2 == o.update(a[i] as int, o2[a[i] as int]), wdone(d, wm, m2, o2, a[i] as int),
    ensures some_done(d, wm, m2, o2, a, i + 1, b, nb),
{
    reveal(some_done);
    assert forall|q: int| 0 <= q < m2.len() implies if amg(a, i + 1, q) || amg(b, nb, q) { wdone(d, wm, m2, o2, q) } else { (#[trigger] m2[q])@.len() == 0 } by {
        amg_step(a, i, q); if q != a[i] { assert(m2[q] == m[q]); assert(o2[q] == o[q]); assert(if amg(a, i, q) || amg(b, nb, q) { wdone(d, wm, m, o, q) } else { m[q]@.len() == 0 }); if amg(a, i, q) || amg(b, nb, q) { done_keep(d, wm, m, o, m2, o2, q); } }
    }
}
pub proof fn done_swap(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, na: int, b: Seq<i32>, nb: int)
    requires some_done(d, wm, m, o, a, na, b, nb),
    ensures some_done(d, wm, m, o, b, nb, a, na),
{ reveal(some_done); assert forall|q: int| 0 <= q < m.len() implies if amg(b, nb, q) || amg(a, na, q) { wdone(d, wm, m, o, q) } else { (#[trigger] m[q])@.len() == 0 } by { assert(if amg(a, na, q) || amg(b, nb, q) { wdone(d, wm, m, o, q) } else { m[q]@.len() == 0 }); } }
#[verifier::opaque]
pub open spec fn every_done(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>) -> bool { m.len() == wm.len() - 1 && o.len() == m.len() && forall|q: int| 0 <= q < m.len() ==> #[trigger] wdone(d, wm, m, o, q) }
pub proof fn done_all(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, a: Seq<i32>, b: Seq<i32>)
    requires some_done(d, wm, m, o, a, a.len() as int, b, b.len() as int), split_in(a, b, wm.len() - 1),
    ensures every_done(d, wm, m, o),
{ reveal(some_done); reveal(split_in); reveal(every_done); assert forall|q: int| 0 <= q < m.len() implies #[trigger] wdone(d, wm, m, o, q) by { assert(amg(a, a.len() as int, q) || amg(b, b.len() as int, q)); assert(if amg(a, a.len() as int, q) || amg(b, b.len() as int, q) { wdone(d, wm, m, o, q) } else { m[q]@.len() == 0 }); } }
pub proof fn done_get(d: Lv, wm: Seq<i32>, m: Seq<Vec<Vec<i32>>>, o: Seq<i32>, l: int)
    requires wok(d, wm), every_done(d, wm, m, o), 0 <= l < wm.len() - 1,
    ensures ({ let w = wn(d, wm[l] as int, wm[l + 1] as int); let k = o[l] as int; wsched(w, flat(m[l]@, k), offs(m[l]@, k)) && fo(m[l]@, k) == w.k && 0 <= k <= m[l]@.len() && k <= w.k && l_in(d, m[l]@, k) }), l < m.len(), l < o.len(),
{
    reveal(every_done); assert(wdone(d, wm, m, o, l)); wok_at(d, wm, l); let w = wn(d, wm[l] as int, wm[l + 1] as int); let k = o[l] as int; let t = m[l]@; lists_wsched(w, t, k);
    assert(l_in(d, t, k)) by { reveal(l_in); assert forall|x: int, i: int| #[trigger] lin(t, k, x, i) implies 0 <= lel(t, x, i) < d.n by { reveal(l_mem); assert(member(w, lel(t, x, i))); let z = choose|z: int| 0 <= z < w.k && w.nodes[z] == lel(t, x, i); assert(0 <= w.nodes[z] < w.n); } }
}
#[verifier::opaque]
pub open spec fn l_in(d: Lv, l: Seq<Vec<i32>>, k: int) -> bool { forall|x: int, i: int| #[trigger] lin(l, k, x, i) ==> 0 <= lel(l, x, i) < d.n }
pub proof fn l_in_at(d: Lv, l: Seq<Vec<i32>>, k: int, x: int, i: int)
    requires l_in(d, l, k), 0 <= x < k, 0 <= i < l[x]@.len(), k <= l.len(),
    ensures 0 <= l[x]@[i] < d.n, 0 <= fo(l, x), fo(l, x) + i < fo(l, x + 1) <= fo(l, k),
{ reveal(l_in); assert(lin(l, k, x, i)); assert(0 <= lel(l, x, i) < d.n); flat_at(l, k, x, i); }
pub proof fn sub_push(s: Seq<i32>, x: int, v: i32)
    requires 0 <= x < s.len(),
    ensures s.update(x, v).subrange(0, x + 1) == s.subrange(0, x).push(v),
{ assert(s.update(x, v).subrange(0, x + 1) =~= s.subrange(0, x).push(v)); }
// what is written of the lists of one window: the first i, and c entries of the next
pub open spec fn part_of(nd: Seq<i32>, l: Seq<Vec<i32>>, i: int, c: int) -> Seq<i32> { nd + flat(l, i) + l[i]@.subrange(0, c) }
pub proof fn part_step(nd: Seq<i32>, l: Seq<Vec<i32>>, i: int, c: int)
    requires 0 <= i < l.len(), 0 <= c < l[i]@.len(),
    ensures part_of(nd, l, i, c).push(l[i]@[c]) == part_of(nd, l, i, c + 1),
{ assert(part_of(nd, l, i, c).push(l[i]@[c]) =~= part_of(nd, l, i, c + 1)); }
pub proof fn part_start(nd: Seq<i32>, l: Seq<Vec<i32>>, i: int)
    requires 0 <= i < l.len(),
    ensures part_of(nd, l, i, 0) == nd + flat(l, i), part_of(nd, l, i, l[i]@.len() as int) == nd + flat(l, i + 1), fo(l, i + 1) == fo(l, i) + l[i]@.len(),
{ assert(part_of(nd, l, i, 0) =~= nd + flat(l, i)); assert(part_of(nd, l, i, l[i]@.len() as int) =~= nd + flat(l, i + 1)); }
pub proof fn wok_first(d: Lv, wm: Seq<i32>)
    requires wok(d, wm),
    ensures wm.len() >= 1, d.lp[wm[0] as int] == 0, d.lp[wm[wm.len() - 1] as int] == d.n, lv_ok(d), wm_pre(d, wm), wm.len() - 1 <= d.n, wm[0] == 0,
{ reveal(wok); lv_sizes(d); wm_len(d, wm); }
pub proof fn next_window(d: Lv, wm: Seq<i32>, l: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, t: Seq<Vec<i32>>, k: int, lp2: Seq<i32>, pp2: Seq<i32>, nd2: Seq<i32>)
    requires wok(d, wm), upto(d, wm, l, lp, pp, nd), 0 <= l < wm.len() - 1, wsched(wn(d, wm[l] as int, wm[l + 1] as int), flat(t, k), offs(t, k)), k >= 0, lp2.len() == l + 2, lp2.subrange(0, l + 1) == lp, lp2[l + 1] == lp[l] + k, pp2 == more(pp, offs(t, k), k + 1), nd2 == nd + flat(t, k),
    ensures upto(d, wm, l + 1, lp2, pp2, nd2),
{ wok_first(d, wm); upto_facts(d, wm, l, lp, pp, nd); assert(lp2.drop_last() =~= lp2.subrange(0, l + 1)); upto_step(d, wm, l, lp, pp, nd, flat(t, k), offs(t, k), lp2, pp2, nd2); }
#[verifier::opaque]
pub open spec fn all_pos(a: Seq<i32>, k: int) -> bool { forall|x: int| 0 <= x < k ==> #[trigger] a[x] >= 1 }
pub proof fn pos_at(a: Seq<i32>, k: int, x: int)
    requires all_pos(a, k), 0 <= x < k,
    ensures a[x] >= 1,
{ reveal(all_pos); }
pub proof fn unm_zero(d: Lv, vis: Seq<bool>, a: int, b: int)
    requires vis.len() >= d.n, forall|v: int| 0 <= v < vis.len() ==> !#[trigger] vis[v],
    ensures unm(d, vis, a, b),
{ reveal(unm); }
// ---- the level of every node, read off the lists of the levels
pub open spec fn lv_of(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int) -> Lv { Lv { p, g, n, lev: choose|lev: Seq<i32>| level_result_nl(p, g, n, lp, ls, lev, c), lp, ls, c } }
pub open spec fn relev(d: Lv, nl: Seq<i32>) -> Lv { Lv { p: d.p, g: d.g, n: d.n, lev: nl, lp: d.lp, ls: d.ls, c: d.c } }
pub proof fn lv_known(p: Seq<i32>, g: Seq<i32>, n: int, lp: Seq<i32>, ls: Seq<i32>, c: int)
    requires dag_in(p, g, n), level_result(p, g, n, lp, ls, c),
    ensures lv_ok(lv_of(p, g, n, lp, ls, c)), n > 0 ==> c > 0,
{
    let d = lv_of(p, g, n, lp, ls, c);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(p, g, n, lp, ls, lv, pos, c);
    assert(levels_ok(p, g, n, lp, ls, lv, pos, c)) by { }
    let lev = Seq::new(n as nat, |v: int| lv[v] as i32);
    assert(level_result_nl(p, g, n, lp, ls, lev, c)) by { assert(levels_ok(p, g, n, lp, ls, lv, pos, c)); assert(lev.len() >= n); assert forall|v: int| 0 <= v < n implies #[trigger] lev[v] == lv[v] by { assert(0 <= lv[v] < c); } }
    lv_mk(d);
    if n > 0 { lv_sizes(d); assert(0 <= d.lev[0] < d.c); }
}
#[verifier::opaque]
pub open spec fn named(d: Lv, nl: Seq<i32>, m: int) -> bool { forall|q: int| 0 <= q < m ==> #[trigger] nl[d.ls[q] as int] == d.lev[d.ls[q] as int] }
pub proof fn named_none(d: Lv, nl: Seq<i32>)
    ensures named(d, nl, 0),
{ reveal(named); }
pub proof fn named_step(d: Lv, nl: Seq<i32>, q: int, l: int, x: i32)
    requires lv_ok(d), named(d, nl, q), 0 <= l < d.c, d.lp[l] <= q < d.lp[l + 1], nl.len() >= d.n, x == l,
    ensures 0 <= q < d.n, 0 <= d.ls[q] < d.n, q < d.ls.len(), named(d, nl.update(d.ls[q] as int, x), q + 1),
{
    lv_sizes(d); lv_mono(d, l, l + 1); lv_mono(d, l + 1, d.c); lv_pos(d, q); let m = d.lev[d.ls[q] as int] as int; if m < l { lv_mono(d, m + 1, l); } if m > l { lv_mono(d, l + 1, m); }
    reveal(named); let n2 = nl.update(d.ls[q] as int, x);
    assert forall|r: int| 0 <= r < q + 1 implies #[trigger] n2[d.ls[r] as int] == d.lev[d.ls[r] as int] by { if r < q { assert(d.ls[r] != d.ls[q]); lv_pos(d, r); assert(nl[d.ls[r] as int] == d.lev[d.ls[r] as int]); } }
}
pub proof fn named_all(d: Lv, nl: Seq<i32>)
    requires lv_ok(d), named(d, nl, d.n), nl.len() >= d.n,
    ensures lv_ok(relev(d, nl)),
{
    assert forall|v: int| 0 <= v < d.n implies #[trigger] nl[v] == d.lev[v] by { let q = lv_at(d, v); reveal(named); assert(nl[d.ls[q] as int] == d.lev[d.ls[q] as int]); }
    reveal(lv_ok);
    let (lv, pos) = choose|lv: Seq<int>, pos: Seq<int>| levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c) && d.lev.len() >= d.n && forall|v: int| 0 <= v < d.n ==> #[trigger] d.lev[v] == lv[v];
    assert(levels_ok(d.p, d.g, d.n, d.lp, d.ls, lv, pos, d.c)); assert forall|v: int| 0 <= v < d.n implies #[trigger] nl[v] == lv[v] by { assert(nl[v] == d.lev[v]); assert(d.lev[v] == lv[v]); }
}
// ---- the boundaries as a list of windows
pub proof fn wok_mk(d: Lv, b: Seq<i32>, c: int)
    requires lv_ok(d), windows(b, c, d.c),
    ensures wok(d, b.subrange(0, c + 1)),
{ let wm = b.subrange(0, c + 1); assert forall|i: int, j: int| 0 <= i < j < wm.len() implies #[trigger] wm[i] < #[trigger] wm[j] by { assert(b[i] < b[j]); } assert(wm.last() == b[c]); assert(wm_ok(d, wm)); reveal(wok); }
pub proof fn pos_mk(s: Seq<i32>, cap: int)
    requires counts_in(s, 0, cap),
    ensures all_pos(s, s.len() as int),
{ reveal(all_pos); }
// the schedule as it lies in arrays that may be longer than it
#[verifier::opaque]
pub open spec fn in_arrays(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>) -> bool { 0 <= nl < lp.len() && 0 <= lp[nl] < pp.len() && valid_sched(p, g, n, nl, lp.subrange(0, nl + 1), pp.subrange(0, lp[nl] + 1), nd) }
pub proof fn in_arrays_mk(d: Lv, wm: Seq<i32>, c: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>)
    requires wok(d, wm), c == wm.len() - 1, 0 <= c < lp.len(), 0 <= lp[c] < pp.len(), upto(d, wm, c, lp.subrange(0, c + 1), pp.subrange(0, lp[c] + 1), nd),
    ensures in_arrays(d.p, d.g, d.n, c, lp, pp, nd),
{ reveal(wok); upto_done(d, wm, lp.subrange(0, c + 1), pp.subrange(0, lp[c] + 1), nd); reveal(in_arrays); }
pub proof fn in_arrays_at(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, i: int)
    requires in_arrays(p, g, n, nl, lp, pp, nd), 0 <= i < nl,
    ensures 0 <= lp[i] <= lp[i + 1] < pp.len(), i + 1 < lp.len(),
{ reveal(in_arrays); let a = lp.subrange(0, nl + 1); assert(a[0] <= a[i]); assert(a[i] <= a[i + 1]); assert(a[i + 1] <= a[nl]); }
pub proof fn in_arrays_part(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, i: int, k: int)
    requires in_arrays(p, g, n, nl, lp, pp, nd), 0 <= i < nl, lp[i] <= k < lp[i + 1],
    ensures 0 <= k, k + 1 < pp.len(), 0 <= pp[k] <= pp[k + 1] <= n, nd.len() == n,
{ in_arrays_at(p, g, n, nl, lp, pp, nd, i); reveal(in_arrays); let a = lp.subrange(0, nl + 1); assert(a[i + 1] <= a[nl]); let b = pp.subrange(0, lp[nl] + 1); assert(b[0] <= b[k]); assert(b[k] <= b[k + 1]); assert(b[k + 1] <= b[b.len() - 1]); }
pub proof fn in_arrays_node(p: Seq<i32>, g: Seq<i32>, n: int, nl: int, lp: Seq<i32>, pp: Seq<i32>, nd: Seq<i32>, j: int)
    requires in_arrays(p, g, n, nl, lp, pp, nd), 0 <= j < n,
    ensures 0 <= nd[j] < n, nd.len() == n,
{ reveal(in_arrays); }
