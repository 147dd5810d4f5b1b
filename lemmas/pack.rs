//@uses sums
use vstd::multiset::Multiset;
// what bin b received from the first k components placed: component ord[q] went to bin bin[q]
pub open spec fn got(cs: Seq<Vec<i32>>, ord: Seq<int>, bin: Seq<int>, k: int, b: int) -> Seq<i32>
    decreases k
{ if k <= 0 { Seq::<i32>::empty() } else { got(cs, ord, bin, k - 1, b) + (if bin[k - 1] == b { cs[ord[k - 1]]@ } else { Seq::<i32>::empty() }) } }
pub open spec fn order_of(o: Seq<int>, n: int) -> bool {
    o.len() == n && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] o[k] < n)
    && (forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> #[trigger] o[a] != #[trigger] o[b])
}
// every component is in exactly one bin, whole and in its own order, behind what the bin held before
pub open spec fn packed(cs: Seq<Vec<i32>>, before: Seq<Vec<i32>>, after: Seq<Vec<i32>>, nb: int, ord: Seq<int>, bin: Seq<int>) -> bool {
    order_of(ord, cs.len() as int) && bin.len() == cs.len()
    && (forall|k: int| 0 <= k < bin.len() ==> 0 <= #[trigger] bin[k] < nb)
    && after.len() == before.len()
    && (forall|b: int| 0 <= b < before.len() ==> (#[trigger] after[b])@ == before[b]@ + got(cs, ord, bin, cs.len() as int, b))
}
pub proof fn got_ext(cs: Seq<Vec<i32>>, ord: Seq<int>, b1: Seq<int>, b2: Seq<int>, k: int, b: int)
    requires forall|q: int| 0 <= q < k ==> #[trigger] b1[q] == b2[q],
    ensures got(cs, ord, b1, k, b) == got(cs, ord, b2, k, b),
    decreases k
{ if k > 0 { got_ext(cs, ord, b1, b2, k - 1, b); assert(b1[k - 1] == b2[k - 1]); } }
// bins beyond the requested number get nothing
pub proof fn got_none(cs: Seq<Vec<i32>>, ord: Seq<int>, bin: Seq<int>, k: int, nb: int, b: int)
    requires b >= nb, k <= bin.len(), forall|q: int| 0 <= q < bin.len() ==> 0 <= #[trigger] bin[q] < nb,
    ensures got(cs, ord, bin, k, b) == Seq::<i32>::empty(),
    decreases k
{ if k > 0 { got_none(cs, ord, bin, k - 1, nb, b); assert(bin[k - 1] < nb); } }
// two sequences with the same elements: one is a reordering of the other
pub open spec fn reorder<T>(a: Seq<T>, b: Seq<T>, o: Seq<int>) -> bool {
    order_of(o, b.len() as int) && a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == b[#[trigger] o[k]]
}
pub proof fn multiset_order<T>(a: Seq<T>, b: Seq<T>) -> (o: Seq<int>)
    requires a.to_multiset() == b.to_multiset(),
    ensures reorder(a, b, o),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    if a.len() == 0 { Seq::<int>::empty() }
    else {
        let n = a.len() as int;
        let x = a.last();
        assert(a.contains(x)) by { assert(a[n - 1] == x); }
        assert(a.to_multiset().contains(x));
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let a1 = a.drop_last();
        let b1 = b.remove(j);
        assert(a1.push(x) =~= a);
        assert(a1.to_multiset().insert(x) == a.to_multiset());
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        let o1 = multiset_order(a1, b1);
        let o = Seq::new(n as nat, |k: int| if k == n - 1 { j } else if o1[k] < j { o1[k] } else { o1[k] + 1 });
        assert forall|k: int| 0 <= k < n implies #[trigger] a[k] == b[#[trigger] o[k]] by {
            if k < n - 1 { assert(a1[k] == b1[o1[k]]); }
        }
        assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] o[k] < n by { if k < n - 1 { assert(0 <= o1[k] < n - 1); } }
        assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && p != q implies #[trigger] o[p] != #[trigger] o[q] by {
            if p < n - 1 && q < n - 1 { assert(o1[p] != o1[q]); }
        }
        o
    }
}
// concatenation of lists a..b
pub open spec fn cat(cs: Seq<Vec<i32>>, a: int, b: int) -> Seq<i32>
    decreases b - a
{ if b <= a { Seq::<i32>::empty() } else { cat(cs, a, b - 1) + cs[b - 1]@ } }
pub open spec fn rsum(c: Seq<i32>, a: int, b: int) -> int
    decreases b - a
{ if b <= a { 0 } else { rsum(c, a, b - 1) + c[b - 1] } }
pub proof fn rsum_split(c: Seq<i32>, a: int, m: int, b: int)
    requires a <= m <= b,
    ensures rsum(c, a, b) == rsum(c, a, m) + rsum(c, m, b),
    decreases b - m
{ if m < b { rsum_split(c, a, m, b - 1); } }
pub proof fn rsum_ge0(c: Seq<i32>, a: int, b: int)
    requires 0 <= a, b <= c.len(), forall|k: int| 0 <= k < c.len() ==> 0 <= #[trigger] c[k],
    ensures 0 <= rsum(c, a, b),
    decreases b - a
{ if a < b { rsum_ge0(c, a, b - 1); assert(0 <= c[b - 1]); } }
// consecutive windows of the parts, one per merged part
pub open spec fn merged(cs: Seq<Vec<i32>>, cost: Seq<i32>, before: Seq<Vec<i32>>, after: Seq<Vec<i32>>, oc: Seq<i32>, cut: Seq<int>, m: int, done: int) -> bool {
    cut.len() == m + 1 && cut[0] == 0 && cut[m] == done && after.len() == before.len()
    && (forall|k: int| 0 <= k < m ==> #[trigger] cut[k] < cut[k + 1])
    && (forall|k: int| 0 <= k < m ==> (#[trigger] after[k])@ == before[k]@ + cat(cs, cut[k], cut[k + 1]))
    && (forall|k: int| m <= k < before.len() ==> #[trigger] after[k] == before[k])
    && (forall|k: int| 0 <= k < m ==> #[trigger] oc[k] == rsum(cost, cut[k], cut[k + 1]))
}
pub open spec fn part(n2p: Seq<i32>, l: Seq<i32>, k: int) -> int { n2p[l[k] as int] as int }
pub open spec fn has_part(n2p: Seq<i32>, l: Seq<i32>, m: int, p: int) -> bool { exists|k: int| 0 <= k < m && #[trigger] part(n2p, l, k) == p }
pub open spec fn valid_list(n2p: Seq<i32>, l: Seq<i32>, w: int) -> bool {
    forall|k: int| 0 <= k < l.len() ==> 0 <= #[trigger] l[k] < n2p.len() && 0 <= part(n2p, l, k) < w
}
pub open spec fn distinct_parts(n2p: Seq<i32>, l: Seq<i32>, m: int) -> bool {
    forall|a: int, b: int| 0 <= a < b < m ==> #[trigger] part(n2p, l, a) != #[trigger] part(n2p, l, b)
}
pub open spec fn same_parts(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>) -> bool {
    (forall|k: int| 0 <= k < l0.len() ==> has_part(n2p, l, l.len() as int, #[trigger] part(n2p, l0, k)))
    && (forall|k: int| 0 <= k < l.len() ==> l0.contains(#[trigger] l[k]))
}
pub open spec fn least_part(n2p: Seq<i32>, l: Seq<i32>, m: int, x: int) -> bool {
    (forall|k: int| 0 <= k < m ==> x <= #[trigger] part(n2p, l, k))
    && (if m > 0 { has_part(n2p, l, m, x) } else { x == i32::MAX })
}
pub open spec fn flags(n2p: Seq<i32>, l: Seq<i32>, m: int, ws: Seq<bool>) -> bool {
    forall|p: int| 0 <= p < ws.len() ==> #[trigger] ws[p] == has_part(n2p, l, m, p)
}
#[verifier::opaque]
pub open spec fn uniq_state(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>, ws: Seq<bool>, m: int, x: int) -> bool {
    0 <= m <= l.len() && valid_list(n2p, l, ws.len() as int) && distinct_parts(n2p, l, m) && flags(n2p, l, m, ws) && same_parts(n2p, l0, l) && least_part(n2p, l, m, x)
}
pub proof fn uniq_init(n2p: Seq<i32>, l0: Seq<i32>, ws: Seq<bool>)
    requires valid_list(n2p, l0, ws.len() as int), forall|p: int| 0 <= p < ws.len() ==> !(#[trigger] ws[p]),
    ensures uniq_state(n2p, l0, l0, ws, 0, i32::MAX as int),
{
    reveal(uniq_state);
    assert(same_parts(n2p, l0, l0)) by {
        assert forall|k: int| 0 <= k < l0.len() implies l0.contains(#[trigger] l0[k]) by {}
    }
}
pub proof fn uniq_get(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>, ws: Seq<bool>, m: int, x: int)
    requires uniq_state(n2p, l0, l, ws, m, x), m < l.len(),
    ensures 0 <= l[m] < n2p.len(), 0 <= n2p[l[m] as int] < ws.len(),
{ reveal(uniq_state); assert(0 <= part(n2p, l, m) < ws.len()); }
pub proof fn uniq_take(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>, ws: Seq<bool>, m: int, x: int)
    requires uniq_state(n2p, l0, l, ws, m, x), m < l.len(), !ws[part(n2p, l, m)],
    ensures uniq_state(n2p, l0, l, ws.update(part(n2p, l, m), true), m + 1, if x > part(n2p, l, m) { part(n2p, l, m) } else { x }),
{
    reveal(uniq_state);
    let t = part(n2p, l, m);
    assert(0 <= t < ws.len());
    assert(!has_part(n2p, l, m, t));
    let ws2 = ws.update(t, true);
    assert forall|p: int| 0 <= p < ws2.len() implies #[trigger] ws2[p] == has_part(n2p, l, m + 1, p) by {
        assert(ws[p] == has_part(n2p, l, m, p));
        if has_part(n2p, l, m, p) { let k = choose|k: int| 0 <= k < m && #[trigger] part(n2p, l, k) == p; assert(has_part(n2p, l, m + 1, p)); }
        if has_part(n2p, l, m + 1, p) && p != t { let k = choose|k: int| 0 <= k < m + 1 && #[trigger] part(n2p, l, k) == p; assert(k < m); }
    }
    assert(distinct_parts(n2p, l, m + 1)) by {
        assert forall|a: int, b: int| 0 <= a < b < m + 1 implies #[trigger] part(n2p, l, a) != #[trigger] part(n2p, l, b) by { }
    }
    let y = if x > t { t } else { x };
    if y == x && m > 0 { let k = choose|k: int| 0 <= k < m && #[trigger] part(n2p, l, k) == x; assert(has_part(n2p, l, m + 1, x)); }
    if y == t { assert(has_part(n2p, l, m + 1, t)); }
}
pub proof fn uniq_drop(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>, ws: Seq<bool>, m: int, x: int)
    requires uniq_state(n2p, l0, l, ws, m, x), m < l.len(), ws[part(n2p, l, m)],
    ensures uniq_state(n2p, l0, l.remove(m), ws, m, x),
{
    reveal(uniq_state);
    let t = part(n2p, l, m);
    let r = l.remove(m);
    assert(0 <= t < ws.len());
    assert(has_part(n2p, l, m, t));
    assert forall|k: int| 0 <= k < m implies #[trigger] part(n2p, r, k) == part(n2p, l, k) by {}
    assert forall|k: int| m <= k < r.len() implies #[trigger] part(n2p, r, k) == part(n2p, l, k + 1) by {}
    assert(valid_list(n2p, r, ws.len() as int)) by {
        assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] r[k] < n2p.len() && 0 <= part(n2p, r, k) < ws.len() by {
            if k < m { assert(r[k] == l[k]); } else { assert(r[k] == l[k + 1]); }
        }
    }
    assert forall|p: int| has_part(n2p, l, m, p) == #[trigger] has_part(n2p, r, m, p) by {
        if has_part(n2p, l, m, p) { let k = choose|k: int| 0 <= k < m && #[trigger] part(n2p, l, k) == p; assert(part(n2p, r, k) == p); }
        if has_part(n2p, r, m, p) { let k = choose|k: int| 0 <= k < m && #[trigger] part(n2p, r, k) == p; assert(part(n2p, l, k) == p); }
    }
    assert(flags(n2p, r, m, ws)) by {
        assert forall|p: int| 0 <= p < ws.len() implies #[trigger] ws[p] == has_part(n2p, r, m, p) by { assert(ws[p] == has_part(n2p, l, m, p)); }
    }
    assert(distinct_parts(n2p, r, m)) by {
        assert forall|a: int, b: int| 0 <= a < b < m implies #[trigger] part(n2p, r, a) != #[trigger] part(n2p, r, b) by { assert(part(n2p, l, a) != part(n2p, l, b)); }
    }
    assert(same_parts(n2p, l0, r)) by {
        assert forall|k: int| 0 <= k < l0.len() implies has_part(n2p, r, r.len() as int, #[trigger] part(n2p, l0, k)) by {
            let p = part(n2p, l0, k);
            assert(has_part(n2p, l, l.len() as int, p));
            let q = choose|q: int| 0 <= q < l.len() && #[trigger] part(n2p, l, q) == p;
            if q < m { assert(part(n2p, r, q) == p); }
            else if q == m { let z = choose|z: int| 0 <= z < m && #[trigger] part(n2p, l, z) == t; assert(part(n2p, r, z) == p); }
            else { assert(part(n2p, r, q - 1) == p); }
        }
        assert forall|k: int| 0 <= k < r.len() implies l0.contains(#[trigger] r[k]) by { if k < m { assert(r[k] == l[k]); } else { assert(r[k] == l[k + 1]); } }
    }
    assert(least_part(n2p, r, m, x)) by {
        assert forall|k: int| 0 <= k < m implies x <= #[trigger] part(n2p, r, k) by { assert(x <= part(n2p, l, k)); }
    }
}
pub proof fn uniq_done(n2p: Seq<i32>, l0: Seq<i32>, l: Seq<i32>, ws: Seq<bool>, m: int, x: int)
    requires uniq_state(n2p, l0, l, ws, m, x), m == l.len(),
    ensures valid_list(n2p, l, ws.len() as int), distinct_parts(n2p, l, m), same_parts(n2p, l0, l), least_part(n2p, l, m, x), flags(n2p, l, m, ws),
{ reveal(uniq_state); }
