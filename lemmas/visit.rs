//@uses pack perm
use vstd::multiset::Multiset;
// number of set flags
pub open spec fn nv(s: Seq<bool>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nv(s, k - 1) + (if s[k - 1] { 1int } else { 0int }) } }
pub proof fn nv_bounds(s: Seq<bool>, k: int)
    requires k >= 0,
    ensures 0 <= nv(s, k) <= k,
    decreases k
{ if k > 0 { nv_bounds(s, k - 1); } }
pub proof fn nv_mono(s: Seq<bool>, a: int, k: int)
    requires 0 <= a <= k,
    ensures nv(s, a) <= nv(s, k) <= nv(s, a) + k - a,
    decreases k
{ if a < k { nv_mono(s, a, k - 1); } }
pub proof fn nv_set(s: Seq<bool>, v: int, k: int)
    requires 0 <= v < s.len(), k <= s.len(), !s[v],
    ensures nv(s.update(v, true), k) == nv(s, k) + (if v < k { 1int } else { 0int }),
    decreases k
{ if k > 0 { nv_set(s, v, k - 1); } }
pub proof fn nv_none(s: Seq<bool>, k: int)
    requires k <= s.len(), forall|v: int| 0 <= v < k ==> !(#[trigger] s[v]),
    ensures nv(s, k) == 0,
    decreases k
{ if k > 0 { nv_none(s, k - 1); assert(!s[k - 1]); } }
pub proof fn nv_all(s: Seq<bool>, k: int)
    requires 0 <= k <= s.len(), forall|v: int| 0 <= v < k ==> #[trigger] s[v],
    ensures nv(s, k) == k,
    decreases k
{ if k > 0 { nv_all(s, k - 1); assert(s[k - 1]); } }
// the elements of all lists and of the queue
pub open spec fn held(sets: Seq<Vec<i32>>, q: Seq<i32>) -> Multiset<i32> {
    cat(sets, 0, sets.len() as int).to_multiset().add(q.to_multiset())
}
pub proof fn cat_ext(a: Seq<Vec<i32>>, b: Seq<Vec<i32>>, k: int)
    requires forall|j: int| 0 <= j < k ==> (#[trigger] a[j])@ == b[j]@,
    ensures cat(a, 0, k) == cat(b, 0, k),
    decreases k
{ if k > 0 { cat_ext(a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn cat_empty(a: Seq<Vec<i32>>, k: int)
    requires forall|j: int| 0 <= j < k ==> (#[trigger] a[j])@ == Seq::<i32>::empty(),
    ensures cat(a, 0, k) == Seq::<i32>::empty(),
    decreases k
{ if k > 0 { cat_empty(a, k - 1); assert(a[k - 1]@ == Seq::<i32>::empty()); assert(cat(a, 0, k) =~= Seq::<i32>::empty()); } }
pub proof fn cat_mono(a: Seq<Vec<i32>>, j: int, k: int)
    requires 0 <= j <= k,
    ensures cat(a, 0, j).len() <= cat(a, 0, k).len(),
        forall|x: int| 0 <= x < cat(a, 0, j).len() ==> #[trigger] cat(a, 0, k)[x] == cat(a, 0, j)[x],
    decreases k
{ if j < k { cat_mono(a, j, k - 1); } }
pub proof fn cat_push(a: Seq<Vec<i32>>, b: Seq<Vec<i32>>, i: int, x: i32, k: int)
    requires 0 <= i < a.len(), k <= a.len(), upd2(b, a, i, a[i]@.push(x)),
    ensures i < k ==> cat(b, 0, k).to_multiset() == cat(a, 0, k).to_multiset().insert(x) && cat(b, 0, k).len() == cat(a, 0, k).len() + 1,
        i >= k ==> cat(b, 0, k) == cat(a, 0, k),
    decreases k
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if k > 0 {
        cat_push(a, b, i, x, k - 1);
        if i == k - 1 { assert(cat(b, 0, k) =~= cat(a, 0, k).push(x)); }
        else {
            assert(b[k - 1] == a[k - 1]);
            if i < k - 1 {
                vstd::seq_lib::lemma_multiset_commutative(cat(b, 0, k - 1), b[k - 1]@);
                vstd::seq_lib::lemma_multiset_commutative(cat(a, 0, k - 1), a[k - 1]@);
                assert(cat(b, 0, k).to_multiset() =~= cat(a, 0, k).to_multiset().insert(x));
            }
        }
    }
}
// exactly the flagged nodes are held, each once
#[verifier::opaque]
pub open spec fn visits(u: Multiset<i32>, vis: Seq<bool>, n: int) -> bool {
    vis.len() == n && u.len() == nv(vis, n)
    && (forall|v: i32| #[trigger] u.count(v) == (if 0 <= v < n && vis[v as int] { 1nat } else { 0nat }))
}
pub proof fn held_init(sets: Seq<Vec<i32>>, q: Seq<i32>, vis: Seq<bool>, n: int)
    requires n >= 0, vis.len() == n, forall|v: int| 0 <= v < n ==> !(#[trigger] vis[v]), q.len() == 0,
        forall|j: int| 0 <= j < sets.len() ==> (#[trigger] sets[j])@ == Seq::<i32>::empty(),
    ensures visits(held(sets, q), vis, n), cat(sets, 0, sets.len() as int).len() == 0,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    cat_empty(sets, sets.len() as int);
    nv_none(vis, n);
    assert(q =~= Seq::<i32>::empty());
    assert(Seq::<i32>::empty().to_multiset() =~= Multiset::<i32>::empty());
}
pub proof fn held_len(sets: Seq<Vec<i32>>, q: Seq<i32>, vis: Seq<bool>, n: int)
    requires visits(held(sets, q), vis, n), n >= 0,
    ensures cat(sets, 0, sets.len() as int).len() + q.len() == nv(vis, n), nv(vis, n) <= n,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    nv_bounds(vis, n);
}
// what is held has been flagged
pub proof fn held_q(sets: Seq<Vec<i32>>, q: Seq<i32>, vis: Seq<bool>, n: int, k: int)
    requires visits(held(sets, q), vis, n), 0 <= k < q.len(),
    ensures 0 <= q[k] < n, vis[q[k] as int],
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    assert(q.contains(q[k]));
    assert(q.to_multiset().count(q[k]) > 0);
    assert(held(sets, q).count(q[k]) > 0);
}
// a new node enters the queue
pub proof fn held_enter(sets: Seq<Vec<i32>>, q: Seq<i32>, vis: Seq<bool>, n: int, v: i32)
    requires visits(held(sets, q), vis, n), 0 <= v < n, !vis[v as int],
    ensures visits(held(sets, q.push(v)), vis.update(v as int, true), n),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    nv_set(vis, v as int, n);
    assert(held(sets, q.push(v)) =~= held(sets, q).insert(v));
}
// a new node enters a list directly
pub proof fn held_direct(sets: Seq<Vec<i32>>, s2: Seq<Vec<i32>>, i: int, q: Seq<i32>, vis: Seq<bool>, n: int, v: i32)
    requires visits(held(sets, q), vis, n), 0 <= v < n, !vis[v as int], 0 <= i < sets.len(), upd2(s2, sets, i, sets[i]@.push(v)),
    ensures visits(held(s2, q), vis.update(v as int, true), n), cat(s2, 0, s2.len() as int).len() == cat(sets, 0, sets.len() as int).len() + 1,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    nv_set(vis, v as int, n);
    cat_push(sets, s2, i, v, sets.len() as int);
    assert(held(s2, q) =~= held(sets, q).insert(v));
}
// the entry at position k moves from the queue to list i
pub proof fn held_move(sets: Seq<Vec<i32>>, s2: Seq<Vec<i32>>, i: int, q: Seq<i32>, k: int, vis: Seq<bool>, n: int)
    requires visits(held(sets, q), vis, n), 0 <= k < q.len(), 0 <= i < sets.len(), upd2(s2, sets, i, sets[i]@.push(q[k])),
    ensures visits(held(s2, q.remove(k)), vis, n), cat(s2, 0, s2.len() as int).len() == cat(sets, 0, sets.len() as int).len() + 1,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    cat_push(sets, s2, i, q[k], sets.len() as int);
    assert(held(s2, q.remove(k)) =~= held(sets, q));
}
// the lists in order form a permutation when every node is flagged and the queue is empty
pub proof fn held_perm(sets: Seq<Vec<i32>>, q: Seq<i32>, vis: Seq<bool>, n: int)
    requires visits(held(sets, q), vis, n), n >= 0, q.len() == 0, forall|v: int| 0 <= v < n ==> #[trigger] vis[v],
    ensures is_perm(cat(sets, 0, sets.len() as int), n),  cat(sets, 0, sets.len() as int).len() == n,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(visits);
    held_len(sets, q, vis, n);
    nv_all(vis, n);
    let s = cat(sets, 0, sets.len() as int);
    assert(q =~= Seq::<i32>::empty());
    assert(held(sets, q) =~= s.to_multiset());
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] s[k] < n by {
        assert(s.contains(s[k]));
        assert(s.to_multiset().count(s[k]) > 0);
    }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] s[a] != #[trigger] s[b] by {
        if s[a] == s[b] {
            let t = s.remove(a);
            let c = if b < a { b } else { b - 1 };
            assert(t[c] == s[b]);
            assert(t.contains(s[b]));
            assert(t.to_multiset().count(s[b]) > 0);
            assert(s.to_multiset().count(s[a]) >= 2);
        }
    }
}
