//@uses tree
// post order of a forest given by child lists: head[v] is v's first child, next[j] the sibling after j; t names the parents
pub open spec fn kid_lists(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int) -> bool {
    forest(t, n) && h.len() >= n && nx.len() >= n && (forall|v: int| 0 <= v < n ==> #[trigger] head_ok(t, h, v)) && forall|j: int| 0 <= j < n ==> #[trigger] next_ok(t, rk, nx, n, j)
}
pub open spec fn head_ok(t: Seq<i32>, h: Seq<i32>, v: int) -> bool { h[v] == -1 || (0 <= h[v] < v && t[h[v] as int] == v) }
pub open spec fn next_ok(t: Seq<i32>, rk: Seq<int>, nx: Seq<i32>, n: int, j: int) -> bool { t[j] >= 0 ==> nx[j] == -1 || (0 <= nx[j] < n && rk[j] < rk[nx[j] as int] <= 0 && t[nx[j] as int] == t[j]) }
// the subtree of v: its children's subtrees in list order, then v
pub open spec fn po(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, v: int) -> Seq<int>
    decreases v, 1int, 0int
{ if v < 0 { seq![] } else { pol(rk, h, nx, v, h[v] as int).push(v) } }
// the subtrees of j and the siblings after it (all below b)
pub open spec fn pol(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, b: int, j: int) -> Seq<int>
    decreases b, 0int, -rk[j]
{ if j < 0 || j >= b { seq![] } else { po(rk, h, nx, j) + (if 0 <= nx[j] < b && rk[j] < rk[nx[j] as int] <= 0 { pol(rk, h, nx, b, nx[j] as int) } else { seq![] }) } }
// what is left to number: the unread part of each stacked node's list, then the node
pub open spec fn rem(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, hc: Seq<i32>, st: Seq<i32>, x: int) -> Seq<int>
    decreases x + 1
{ if x < 0 { seq![] } else { pol(rk, h, nx, st[x] as int, hc[st[x] as int] as int).push(st[x] as int) + rem(rk, h, nx, hc, st, x - 1) } }
pub open spec fn under(t: Seq<i32>, n: int, v: int, r: int) -> bool
    decreases n - v
{ v == r || (0 <= v && v < t[v] < n && under(t, n, t[v] as int, r)) }
pub open spec fn seen_ok(t: Seq<i32>, rk: Seq<int>, hc: Seq<i32>, d: Set<int>, n: int, r: int, v: int) -> bool { 0 <= v < n && under(t, n, v, r) && (v != r ==> v < t[v] < n && (hc[t[v] as int] == -1 || rk[v] < rk[hc[t[v] as int] as int])) }
pub open spec fn stack_ok(t: Seq<i32>, st: Seq<i32>, d: Set<int>, n: int, r: int, x: int) -> bool {
    st.len() >= n && -1 <= x < n && (x >= 0 ==> st[0] == r) && (forall|y: int| 0 <= y <= x ==> 0 <= #[trigger] st[y] <= r - y && d.contains(st[y] as int)) && forall|y: int| 1 <= y <= x ==> t[#[trigger] st[y] as int] == st[y - 1]
}
pub open spec fn dfst(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, hc: Seq<i32>, st: Seq<i32>, d: Set<int>, n: int, r: int, x: int) -> bool {
    kid_lists(t, rk, h, nx, n) && 0 <= r < n && hc.len() == h.len() && stack_ok(t, st, d, n, r, x)
    && (forall|v: int| 0 <= v < n ==> #[trigger] head_ok(t, hc, v)) && (forall|v: int| 0 <= v < h.len() && !#[trigger] d.contains(v) ==> hc[v] == h[v]) && forall|v: int| #[trigger] d.contains(v) ==> seen_ok(t, rk, hc, d, n, r, v)
}
pub proof fn dfst_init(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, st: Seq<i32>, n: int, r: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= r < n, st.len() >= n, st[0] == r,
    ensures dfst(t, rk, h, nx, h, st, set![r], n, r, 0), rem(rk, h, nx, h, st, 0) == po(rk, h, nx, r),
{ assert(rem(rk, h, nx, h, st, 0) =~= po(rk, h, nx, r)) by { assert(rem(rk, h, nx, h, st, -1) =~= seq![]); } }
pub proof fn dfst_pop(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, hc: Seq<i32>, st: Seq<i32>, d: Set<int>, n: int, r: int, x: int)
    requires dfst(t, rk, h, nx, hc, st, d, n, r, x), x >= 0, hc[st[x] as int] == -1,
    ensures dfst(t, rk, h, nx, hc, st, d, n, r, x - 1), rem(rk, h, nx, hc, st, x) == seq![st[x] as int] + rem(rk, h, nx, hc, st, x - 1),
{ assert(rem(rk, h, nx, hc, st, x) =~= seq![st[x] as int] + rem(rk, h, nx, hc, st, x - 1)); }
proof fn rem_ext(rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, hc: Seq<i32>, st: Seq<i32>, hc2: Seq<i32>, st2: Seq<i32>, x: int)
    requires forall|y: int| 0 <= y <= x ==> #[trigger] st[y] == st2[y] && hc[st[y] as int] == hc2[st[y] as int],
    ensures rem(rk, h, nx, hc, st, x) == rem(rk, h, nx, hc2, st2, x),
    decreases x + 1
{ if x >= 0 { rem_ext(rk, h, nx, hc, st, hc2, st2, x - 1); assert(st[x] == st2[x]); } }
pub proof fn dfst_push(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, hc: Seq<i32>, st: Seq<i32>, d: Set<int>, n: int, r: int, x: int)
    requires dfst(t, rk, h, nx, hc, st, d, n, r, x), x >= 0, hc[st[x] as int] != -1, n <= i32::MAX,
    ensures x + 1 < n, 0 <= hc[st[x] as int] < n, ({ let j = hc[st[x] as int]; let h2 = hc.update(st[x] as int, nx[j as int]); let s2 = st.update(x + 1, j);
        dfst(t, rk, h, nx, h2, s2, d.insert(j as int), n, r, x + 1) && rem(rk, h, nx, h2, s2, x + 1) == rem(rk, h, nx, hc, st, x) }),
{
    let b = st[x] as int; let j = hc[b]; let h2 = hc.update(b, nx[j as int]); let s2 = st.update(x + 1, j); let d2 = d.insert(j as int);
    assert(0 <= st[x] <= r - x);
    assert(head_ok(t, hc, b)); assert(next_ok(t, rk, nx, n, j as int));
    assert(d.contains(b)); assert(seen_ok(t, rk, hc, d, n, r, b));
    assert(!d.contains(j as int)) by { if d.contains(j as int) { assert(seen_ok(t, rk, hc, d, n, r, j as int)); } }
    assert(hc[j as int] == h[j as int]);
    assert forall|y: int| 0 <= y < x implies #[trigger] st[y] > b by { below(t, st, d, n, r, x, y); }
    assert forall|v: int| 0 <= v < n implies #[trigger] head_ok(t, h2, v) by { assert(head_ok(t, hc, v)); }
    assert forall|v: int| #[trigger] d2.contains(v) implies seen_ok(t, rk, h2, d2, n, r, v) by {
        if v != j { assert(d.contains(v)); assert(seen_ok(t, rk, hc, d, n, r, v)); } else { assert(under(t, n, j as int, r)); }
    }
    assert(stack_ok(t, s2, d2, n, r, x + 1)) by {
        assert forall|y: int| 0 <= y <= x + 1 implies 0 <= #[trigger] s2[y] <= r - y && d2.contains(s2[y] as int) by { if y <= x { assert(0 <= st[y] <= r - y && d.contains(st[y] as int)); } }
        assert forall|y: int| 1 <= y <= x + 1 implies t[#[trigger] s2[y] as int] == s2[y - 1] by { if y <= x { assert(t[st[y] as int] == st[y - 1]); } }
    }
    rem_ext(rk, h, nx, hc, st, h2, s2, x - 1);
    assert(rem(rk, h, nx, h2, s2, x) == pol(rk, h, nx, b, nx[j as int] as int).push(b) + rem(rk, h, nx, h2, s2, x - 1));
    assert(rem(rk, h, nx, h2, s2, x + 1) == pol(rk, h, nx, j as int, h[j as int] as int).push(j as int) + rem(rk, h, nx, h2, s2, x));
    assert(pol(rk, h, nx, b, j as int) =~= po(rk, h, nx, j as int) + pol(rk, h, nx, b, nx[j as int] as int));
    assert(rem(rk, h, nx, h2, s2, x + 1) =~= rem(rk, h, nx, hc, st, x));
}
proof fn below(t: Seq<i32>, st: Seq<i32>, d: Set<int>, n: int, r: int, x: int, y: int)
    requires stack_ok(t, st, d, n, r, x), 0 <= y < x, forest(t, n), 0 <= r < n,
    ensures st[y] > st[x],
    decreases x - y
{
    assert(t[st[y + 1] as int] == st[y + 1 - 1]); assert(0 <= st[y + 1] <= r - (y + 1)); assert(0 <= st[y]);
    if y + 1 < x { below(t, st, d, n, r, x, y + 1); }
}
// ---- what a post order of a subtree is
pub proof fn po_range(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, v: int, x: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= v < n, 0 <= x < po(rk, h, nx, v).len(),
    ensures 0 <= po(rk, h, nx, v)[x] <= v, under(t, n, po(rk, h, nx, v)[x], v),
    decreases v, 1int, 0int
{ assert(head_ok(t, h, v)); if x < po(rk, h, nx, v).len() - 1 { pol_range(t, rk, h, nx, n, v, h[v] as int, x); } }
proof fn pol_range(t: Seq<i32>, rk: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, b: int, j: int, x: int)
    requires kid_lists(t, rk, h, nx, n), 0 <= j < b < n, t[j] == b, 0 <= x < pol(rk, h, nx, b, j).len(),
    ensures 0 <= pol(rk, h, nx, b, j)[x] < b, under(t, n, pol(rk, h, nx, b, j)[x], b),
    decreases b, 0int, -rk[j]
{
    assert(next_ok(t, rk, nx, n, j));
    let l = po(rk, h, nx, j).len();
    if x < l { po_range(t, rk, h, nx, n, j, x); under_up(t, n, po(rk, h, nx, j)[x], j, b); } else { pol_range(t, rk, h, nx, n, b, nx[j] as int, x - l); }
}
proof fn under_up(t: Seq<i32>, n: int, v: int, j: int, b: int)
    requires forest(t, n), 0 <= v < n, under(t, n, v, j), 0 <= j < b < n, t[j] == b,
    ensures under(t, n, v, b),
    decreases n - v
{ if v != j { under_up(t, n, t[v] as int, j, b); } else { assert(under(t, n, b, b)); } }

pub open spec fn po_written(all: Seq<int>, k: int, res: int, o: Seq<i32>, o0: Seq<i32>) -> bool {
    res == k + all.len() && (forall|x: int| 0 <= x < all.len() ==> o[k + x] == #[trigger] all[x]) && o.len() == o0.len() && forall|x: int| 0 <= x < o.len() && !(k <= x < res) ==> #[trigger] o[x] == o0[x]
}
pub open spec fn rest_same(t: Seq<i32>, n: int, h: Seq<i32>, h0: Seq<i32>, r: int) -> bool { forall|v: int| 0 <= v < n && !#[trigger] under(t, n, v, r) ==> h[v] == h0[v] }
// the order does not depend on how the siblings are ranked
pub proof fn po_same(t: Seq<i32>, rk: Seq<int>, t2: Seq<i32>, rk2: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, v: int)
    requires kid_lists(t, rk, h, nx, n), kid_lists(t2, rk2, h, nx, n), 0 <= v < n,
    ensures po(rk, h, nx, v) == po(rk2, h, nx, v),
    decreases v, 1int, 0int
{ assert(head_ok(t, h, v)); assert(head_ok(t2, h, v)); if h[v] >= 0 { pol_same(t, rk, t2, rk2, h, nx, n, v, h[v] as int); } }
proof fn pol_same(t: Seq<i32>, rk: Seq<int>, t2: Seq<i32>, rk2: Seq<int>, h: Seq<i32>, nx: Seq<i32>, n: int, b: int, j: int)
    requires kid_lists(t, rk, h, nx, n), kid_lists(t2, rk2, h, nx, n), 0 <= j < b < n, t[j] == b, t2[j] == b,
    ensures pol(rk, h, nx, b, j) == pol(rk2, h, nx, b, j),
    decreases b, 0int, -rk[j]
{
    assert(next_ok(t, rk, nx, n, j)); assert(next_ok(t2, rk2, nx, n, j));
    po_same(t, rk, t2, rk2, h, nx, n, j);
    if nx[j] != -1 { pol_same(t, rk, t2, rk2, h, nx, n, b, nx[j] as int); }
}
