//@uses sums
pub open spec fn in_range(s: Seq<i32>, n: int) -> bool {
    s.len() >= n && forall|k: int| 0 <= k < n ==> 0 <= #[trigger] s[k] < n
}
pub open spec fn inj(s: Seq<i32>, n: int) -> bool {
    forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> #[trigger] s[a] != #[trigger] s[b]
}
pub open spec fn is_perm(s: Seq<i32>, n: int) -> bool { in_range(s, n) && inj(s, n) }

pub open spec fn hit(s: Seq<i32>, k: int, j: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == j }
pub open spec fn hitf(s: Seq<i32>, k: int, f: spec_fn(int) -> int) -> spec_fn(int) -> int {
    |j: int| if hit(s, k, j) { f(j) } else { 0 }
}
// sum over the elements selected so far
pub proof fn sum_hit_step(s: Seq<i32>, n: int, k: int, f: spec_fn(int) -> int)
    requires is_perm(s, n), 0 <= k < n,
    ensures sum(hitf(s, k + 1, f), n) == sum(hitf(s, k, f), n) + f(s[k] as int),
{
    let a = hitf(s, k, f);
    let b = hitf(s, k + 1, f);
    let j0 = s[k] as int;
    assert forall|j: int| 0 <= j < n && j != j0 implies #[trigger] a(j) == b(j) by {
        if hit(s, k + 1, j) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s[i] == j; assert(i != k); assert(hit(s, k, j)); }
        if hit(s, k, j) { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == j; assert(hit(s, k + 1, j)); }
    }
    assert(!hit(s, k, j0));
    assert(s[k] == j0);
    assert(hit(s, k + 1, j0));
    sum_point(a, b, n, j0);
}
pub open spec fn one() -> spec_fn(int) -> int { |j: int| 1 }
pub proof fn sum_one(n: int)
    requires n >= 0,
    ensures sum(one(), n) == n,
    decreases n
{ if n > 0 { sum_one(n - 1); } }
pub proof fn sum_hit_count(s: Seq<i32>, n: int, k: int)
    requires is_perm(s, n), 0 <= k <= n,
    ensures sum(hitf(s, k, one()), n) == k,
    decreases k
{
    if k > 0 { sum_hit_count(s, n, k - 1); sum_hit_step(s, n, k - 1, one()); }
    else { sum_zero(hitf(s, 0, one()), n); }
}
// pigeonhole: a permutation hits everything
pub proof fn perm_onto(s: Seq<i32>, n: int, j: int)
    requires is_perm(s, n), 0 <= j < n,
    ensures hit(s, n, j),
{
    if !hit(s, n, j) {
        sum_hit_count(s, n, n);
        sum_one(n);
        let a = hitf(s, n, one());
        let b: spec_fn(int) -> int = |x: int| if x == j { 0 } else { 1 };
        sum_le(a, b, n);
        sum_point(one(), b, n, j);
        assert(false);
    }
}
pub proof fn perm_onto_all(s: Seq<i32>, n: int)
    requires is_perm(s, n),
    ensures forall|j: int| 0 <= j < n ==> #[trigger] hit(s, n, j),
{
    assert forall|j: int| 0 <= j < n implies #[trigger] hit(s, n, j) by { perm_onto(s, n, j); }
}
pub open spec fn inverse_of(q: Seq<i32>, s: Seq<i32>, n: int) -> bool {
    q.len() >= n && forall|k: int| 0 <= k < n ==> q[#[trigger] s[k] as int] == k
}
pub open spec fn inverses(q: Seq<i32>, s: Seq<i32>, n: int) -> bool {
    inverse_of(q, s, n) && inverse_of(s, q, n) && is_perm(q, n)
}
// an array that undoes a permutation on one side is its two-sided inverse
pub proof fn inv_both(q: Seq<i32>, s: Seq<i32>, n: int)
    requires is_perm(s, n), inverse_of(q, s, n),
    ensures inverses(q, s, n),
{
    perm_onto_all(s, n);
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] q[j] < n && s[q[j] as int] == j by {
        assert(hit(s, n, j));
        let i = choose|i: int| 0 <= i < n && #[trigger] s[i] == j;
        assert(q[s[i] as int] == i);
    }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] q[a] != #[trigger] q[b] by {
        assert(s[q[a] as int] == a && s[q[b] as int] == b);
    }
}
// inverting twice gives the original
pub proof fn inv_twice(r: Seq<i32>, q: Seq<i32>, s: Seq<i32>, n: int)
    requires inverses(q, s, n), is_perm(s, n), inverse_of(r, q, n),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] r[k] == s[k],
{
    assert forall|k: int| 0 <= k < n implies #[trigger] r[k] == s[k] by {
        let j = s[k] as int;
        assert(q[s[k] as int] == k);
        assert(r[q[j] as int] == j);
    }
}
pub proof fn sum_hit_le(s: Seq<i32>, n: int, k: int, f: spec_fn(int) -> int)
    requires forall|j: int| 0 <= j < n ==> 0 <= #[trigger] f(j),
    ensures sum(hitf(s, k, f), n) <= sum(f, n),
{ sum_le(hitf(s, k, f), f, n); }
pub proof fn sum_hit_all(s: Seq<i32>, n: int, f: spec_fn(int) -> int)
    requires is_perm(s, n),
    ensures sum(hitf(s, n, f), n) == sum(f, n),
{
    perm_onto_all(s, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] hitf(s, n, f)(j) == f(j) by { assert(hit(s, n, j)); }
    sum_eq(hitf(s, n, f), f, n);
}
// distinct numbers below n: at most n of them
pub proof fn distinct_len(t: Seq<int>, n: int)
    requires n >= 0, forall|x: int| 0 <= x < t.len() ==> 0 <= #[trigger] t[x] < n, t.no_duplicates(),
    ensures t.len() <= n,
{
    t.unique_seq_to_set(); vstd::set_lib::lemma_int_range(0, n); let r = vstd::set_lib::set_int_range(0, n);
    assert(t.to_set().subset_of(r)); vstd::set_lib::lemma_len_subset(t.to_set(), r);
}
