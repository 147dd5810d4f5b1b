#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, unused_parens, unreachable_code, unused_labels, non_camel_case_types, unused_braces, unused_must_use)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
use vstd::prelude::*;

// ---------------------------------------------------------------- array and container accesses
pub fn ld<T: Copy>(v: &Vec<T>, i: i32) -> (r: T)
    requires 0 <= i < v@.len(),
    ensures r == v@[i as int],
{ v[i as usize] }
pub fn ldu<T: Copy>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ v[i] }
pub fn ldr<T>(v: &Vec<T>, i: i32) -> (r: &T)
    requires 0 <= i < v@.len(),
    ensures *r == v@[i as int],
{ &v[i as usize] }
pub fn ldru<T>(v: &Vec<T>, i: usize) -> (r: &T)
    requires i < v@.len(),
    ensures *r == v@[i as int],
{ &v[i] }
pub fn st<T: Copy>(v: &mut Vec<T>, i: i32, x: T)
    requires 0 <= i < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, x),
{ v.set(i as usize, x); }
pub fn stu<T: Copy>(v: &mut Vec<T>, i: usize, x: T)
    requires i < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, x),
{ v.set(i, x); }
pub fn stv<T>(v: &mut Vec<Vec<T>>, i: i32, x: Vec<T>)
    requires 0 <= i < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, x),
{ v.set(i as usize, x); }
pub fn stvu<T>(v: &mut Vec<Vec<T>>, i: usize, x: Vec<T>)
    requires i < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, x),
{ v.set(i, x); }
pub open spec fn upd2<T>(a: Seq<Vec<T>>, b: Seq<Vec<T>>, i: int, s: Seq<T>) -> bool {
    a.len() == b.len() && a[i]@ == s && forall|k: int| 0 <= k < a.len() && k != i ==> #[trigger] a[k] == b[k]
}
pub fn st2_ii<T: Copy>(v: &mut Vec<Vec<T>>, i: i32, j: i32, x: T)
    requires 0 <= i < old(v)@.len(), 0 <= j < old(v)@[i as int]@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, old(v)@[i as int]@.update(j as int, x)),
{ v[i as usize][j as usize] = x; }
pub fn push_i<T>(v: &mut Vec<Vec<T>>, i: i32, x: T)
    requires 0 <= i < old(v)@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, old(v)@[i as int]@.push(x)),
{ v[i as usize].push(x); }
pub fn push_u<T>(v: &mut Vec<Vec<T>>, i: usize, x: T)
    requires i < old(v)@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, old(v)@[i as int]@.push(x)),
{ v[i].push(x); }
pub fn clear_i<T>(v: &mut Vec<Vec<T>>, i: i32)
    requires 0 <= i < old(v)@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, Seq::<T>::empty()),
{ v[i as usize].clear(); }
pub fn append_all_i<T>(v: &mut Vec<Vec<T>>, i: i32, w: Vec<T>)
    requires 0 <= i < old(v)@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, old(v)@[i as int]@ + w@),
{ let mut w = w; v[i as usize].append(&mut w); }
pub fn append_all<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@,
{ let mut w = w; v.append(&mut w); }
pub fn prepend_all<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == w@ + old(v)@,
{ let mut w = w; w.append(v); *v = w; }
pub fn push<T>(v: &mut Vec<T>, x: T)
    ensures final(v)@ == old(v)@.push(x),
{ v.push(x); }
pub fn pop_back<T>(v: &mut Vec<T>)
    requires old(v)@.len() > 0,
    ensures final(v)@ == old(v)@.drop_last(),
{ v.pop(); }
pub fn pop_front<T>(v: &mut Vec<T>)
    requires old(v)@.len() > 0,
    ensures final(v)@ == old(v)@.subrange(1, old(v)@.len() as int),
{ v.remove(0); }
// std::priority_queue<int, .., greater<int>>: the held values in the order of arrival; top is the smallest, pop takes out one occurrence of it
pub open spec fn pq_at(s: Seq<i32>) -> int
    decreases s.len()
{ if s.len() <= 1 { 0 } else { let j = pq_at(s.drop_last()); if s[j] <= s.last() { j } else { s.len() - 1 } } }
pub proof fn pq_least(s: Seq<i32>)
    requires s.len() > 0,
    ensures 0 <= pq_at(s) < s.len(), forall|k: int| 0 <= k < s.len() ==> s[pq_at(s)] <= #[trigger] s[k],
    decreases s.len()
{
    if s.len() > 1 {
        let d = s.drop_last(); pq_least(d);
        assert forall|k: int| 0 <= k < s.len() implies s[pq_at(s)] <= #[trigger] s[k] by { if k < d.len() { assert(d[pq_at(d)] <= d[k]); } }
    }
}
pub fn pq_find(v: &Vec<i32>) -> (r: usize)
    requires v@.len() > 0,
    ensures r == pq_at(v@), r < v@.len(),
{
    let mut r = 0; let mut k = 1;
    assert(v@.subrange(0, 1).len() == 1);
    while k < v.len()
        invariant 1 <= k <= v@.len(), r < k, r == pq_at(v@.subrange(0, k as int)),
        decreases v@.len() - k,
    {
        assert(v@.subrange(0, k + 1).drop_last() =~= v@.subrange(0, k as int));
        if !(v[r] <= v[k]) { r = k; }
        k = k + 1;
    }
    assert(v@.subrange(0, k as int) =~= v@);
    r
}
pub fn pq_top(v: &Vec<i32>) -> (r: i32)
    requires v@.len() > 0,
    ensures r == v@[pq_at(v@)],
{ let k = pq_find(v); v[k] }
pub fn pq_pop(v: &mut Vec<i32>)
    requires old(v)@.len() > 0,
    ensures final(v)@ == old(v)@.remove(pq_at(old(v)@)),
{ let k = pq_find(v); v.remove(k); }
pub fn erase_at<T>(v: &mut Vec<T>, i: usize)
    requires i < old(v)@.len(),
    ensures final(v)@ == old(v)@.remove(i as int),
{ v.remove(i); }
pub fn clear<T>(v: &mut Vec<T>)
    ensures final(v)@ == Seq::<T>::empty(),
{ v.clear(); }
pub fn resize_val<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n,
        forall|k: int| 0 <= k < n ==> #[trigger] final(v)@[k] == (if k < old(v)@.len() { old(v)@[k] } else { x }),
{
    if n < v.len() { v.truncate(n); }
    let ghost l0 = old(v)@.len();
    while v.len() < n
        invariant l0 == old(v)@.len(), v@.len() <= n, v@.len() >= l0 || v@.len() == n,
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == (if k < l0 { old(v)@[k] } else { x }),
        decreases n - v@.len(),
    { v.push(x); }
}
pub fn resize_val_i<T: Copy>(v: &mut Vec<Vec<T>>, i: i32, n: usize, x: T)
    requires 0 <= i < old(v)@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, Seq::new(n as nat, |k: int| if k < old(v)@[i as int]@.len() { old(v)@[i as int]@[k] } else { x })),
{
    let ghost o = v@[i as int]@;
    resize_val(&mut v[i as usize], n, x);
    assert(v@[i as int]@ =~= Seq::new(n as nat, |k: int| if k < o.len() { o[k] } else { x }));
}
pub fn assign_val<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(v)@[k] == x,
{ v.clear(); resize_val(v, n, x); }
pub fn resize_vv<T: Clone>(v: &mut Vec<Vec<T>>, n: usize)
    ensures final(v)@.len() == n,
        forall|k: int| 0 <= k < n && k < old(v)@.len() ==> #[trigger] final(v)@[k] == old(v)@[k],
        forall|k: int| old(v)@.len() <= k < n ==> (#[trigger] final(v)@[k])@ == Seq::<T>::empty(),
{
    if n < v.len() { v.truncate(n); }
    let ghost l0 = old(v)@.len();
    while v.len() < n
        invariant l0 == old(v)@.len(), v@.len() <= n, v@.len() >= l0 || v@.len() == n,
            forall|k: int| 0 <= k < v@.len() && k < l0 ==> #[trigger] v@[k] == old(v)@[k],
            forall|k: int| l0 <= k < v@.len() ==> (#[trigger] v@[k])@ == Seq::<T>::empty(),
        decreases n - v@.len(),
    { v.push(Vec::new()); }
}
pub fn new_vv<T: Clone>(n: usize) -> (r: Vec<Vec<T>>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == Seq::<T>::empty(),
{ let mut v = Vec::new(); resize_vv(&mut v, n); v }
#[verifier::external_body]
pub fn new_vval<T: Clone>(n: usize, x: Vec<T>) -> (r: Vec<Vec<T>>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == x@,
{ vec![x; n] }
pub fn new_val<T: Copy>(n: usize, x: T) -> (r: Vec<T>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x,
{ let mut v = Vec::new(); resize_val(&mut v, n, x); v }
pub fn new_zero_i32(n: usize) -> (r: Vec<i32>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == 0,
{ new_val(n, 0i32) }
pub fn new_arb_i32(n: usize) -> (r: Vec<i32>)
    ensures r@.len() == n,
{ new_val(n, arb_i32()) }
pub fn new_zero_usize(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == 0,
{ new_val(n, 0usize) }
pub fn new_arb_usize(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n,
{ new_val(n, arb_usize()) }
pub fn new_zero_bool(n: usize) -> (r: Vec<bool>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == false,
{ new_val(n, false) }
pub fn new_arb_bool(n: usize) -> (r: Vec<bool>)
    ensures r@.len() == n,
{ new_val(n, arb_bool()) }
pub fn new_zero_f64(n: usize) -> (r: Vec<F64>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == f64_zero_s(),
{ new_val(n, f64_zero()) }
pub fn new_arb_f64(n: usize) -> (r: Vec<F64>)
    ensures r@.len() == n,
{ new_val(n, arb_f64()) }
#[verifier::external_body]
pub fn clone_vec<T: Clone>(v: &Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@, r == *v,
{ v.clone() }
// an array cut at k for the time of a call, and put together again
pub fn cut_off<T>(v: &mut Vec<T>, k: usize) -> (r: Vec<T>)
    requires k <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, k as int), r@ == old(v)@.subrange(k as int, old(v)@.len() as int),
{ v.split_off(k) }
pub fn cut_copy<T: Clone>(v: &Vec<T>, k: usize) -> (r: Vec<T>)
    requires k <= v@.len(),
    ensures r@ == v@.subrange(k as int, v@.len() as int),
{ let mut c = clone_vec(v); c.split_off(k) }
pub fn join_on<T>(v: &mut Vec<T>, r: Vec<T>)
    ensures final(v)@ == old(v)@ + r@,
{ let mut r = r; v.append(&mut r); }
pub fn vec_range<T: Copy>(v: &Vec<T>, b: usize, e: usize) -> (r: Vec<T>)
    requires b <= e <= v@.len(),
    ensures r@ == v@.subrange(b as int, e as int),
{
    let mut r = Vec::new();
    let mut k = b;
    while k < e
        invariant b <= k <= e, e <= v@.len(), r@ == v@.subrange(b as int, k as int),
        decreases e - k,
    { r.push(v[k]); k = k + 1; assert(r@ =~= v@.subrange(b as int, k as int)); }
    r
}
pub fn last_ix(n: usize) -> (r: usize)
    requires n > 0,
    ensures r == n - 1,
{ n - 1 }
pub fn fill_range<T: Copy>(v: &mut Vec<T>, b: usize, e: usize, x: T)
    requires b <= e <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if b <= k < e { x } else { old(v)@[k] }),
{
    let mut j = b;
    while j < e
        invariant b <= j <= e, e <= v@.len(), v@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == (if b <= k < j { x } else { old(v)@[k] }),
        decreases e - j,
    { v.set(j, x); j = j + 1; }
}
pub fn fill_n<T: Copy>(v: &mut Vec<T>, b: usize, n: usize, x: T)
    requires b + n <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if b <= k < b + n { x } else { old(v)@[k] }),
{ let _l = v.len(); fill_range(v, b, b + n, x); }
pub fn copy_range<T: Copy>(d: &mut Vec<T>, o: usize, s: &Vec<T>, b: usize, e: usize)
    requires b <= e <= s@.len(), o + (e - b) <= old(d)@.len(),
    ensures final(d)@.len() == old(d)@.len(),
        forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == (if o <= k < o + (e - b) { s@[k - o + b] } else { old(d)@[k] }),
{
    let _l = d.len();
    let mut j = b;
    while j < e
        invariant b <= j <= e, e <= s@.len(), o + (e - b) <= d@.len(), d@.len() == old(d)@.len(), d@.len() <= usize::MAX,
            forall|k: int| 0 <= k < d@.len() ==> #[trigger] d@[k] == (if o <= k < o + (j - b) { s@[k - o + b] } else { old(d)@[k] }),
        decreases e - j,
    { d.set(o + (j - b), s[j]); j = j + 1; }
}

// std::sort of a range of ints: ascending permutation of that range, everything else untouched
pub open spec fn perm_range<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int) -> bool {
    a.len() == b.len()
    && (forall|k: int| 0 <= k < a.len() && !(lo <= k < hi) ==> #[trigger] a[k] == b[k])
    && a.subrange(lo, hi).to_multiset() == b.subrange(lo, hi).to_multiset()
}
#[verifier::external_body]
pub fn sort_range(v: &mut Vec<i32>, b: usize, e: usize)
    requires b <= e <= old(v)@.len(),
    ensures perm_range(final(v)@, old(v)@, b as int, e as int),
        forall|i: int, j: int| b <= i <= j < e ==> #[trigger] final(v)@[i] <= #[trigger] final(v)@[j],
{ v[b..e].sort(); }
#[verifier::external_body]
pub fn permute_range<T>(v: &mut Vec<T>, b: usize, e: usize)
    requires b <= e <= old(v)@.len(),
    ensures perm_range(final(v)@, old(v)@, b as int, e as int),
{ }
#[verifier::external_body]
pub fn sort_range_i(v: &mut Vec<Vec<i32>>, i: i32, b: usize, e: usize)
    requires 0 <= i < old(v)@.len(), b <= e <= old(v)@[i as int]@.len(),
    ensures upd2(final(v)@, old(v)@, i as int, final(v)@[i as int]@),
        perm_range(final(v)@[i as int]@, old(v)@[i as int]@, b as int, e as int),
        forall|x: int, y: int| b <= x <= y < e ==> #[trigger] final(v)@[i as int]@[x] <= #[trigger] final(v)@[i as int]@[y],
{ v[i as usize][b..e].sort(); }

// std::lower_bound on an ascending range of ints: the first position whose value is not below x
pub fn lower_bound_range(v: &Vec<i32>, b: usize, e: usize, x: i32) -> (r: usize)
    requires b <= e <= v@.len(), forall|i: int, j: int| b <= i <= j < e ==> #[trigger] v@[i] <= #[trigger] v@[j],
    ensures b <= r <= e, forall|i: int| b <= i < r ==> #[trigger] v@[i] < x, forall|i: int| r <= i < e ==> #[trigger] v@[i] >= x,
{
    let mut lo = b;
    let mut hi = e;
    while lo < hi
        invariant b <= lo <= hi <= e <= v@.len(), forall|i: int, j: int| b <= i <= j < e ==> #[trigger] v@[i] <= #[trigger] v@[j],
            forall|i: int| b <= i < lo ==> #[trigger] v@[i] < x, forall|i: int| hi <= i < e ==> #[trigger] v@[i] >= x,
        decreases hi - lo,
    {
        let mid = lo + (hi - lo) / 2;
        if v[mid] < x { lo = mid + 1; } else { hi = mid; }
    }
    lo
}
// std::find: the first position holding x, or the end of the range
pub fn find_range(v: &Vec<i32>, b: usize, e: usize, x: i32) -> (r: usize)
    requires b <= e <= v@.len(),
    ensures b <= r <= e, forall|i: int| b <= i < r ==> #[trigger] v@[i] != x, r < e ==> v@[r as int] == x,
{
    let mut k = b;
    while k < e && v[k] != x
        invariant b <= k <= e <= v@.len(), forall|i: int| b <= i < k ==> #[trigger] v@[i] != x,
        decreases e - k,
    { k = k + 1; }
    k
}
// the distance between two positions of one vector
pub fn usub_l(a: usize, b: usize) -> (r: i64)
    requires b <= a <= 0x7fff_ffff_ffff_ffff,
    ensures r == a - b,
{ (a - b) as i64 }

// std::unique over the whole vector, tail erased: neighbouring repetitions go
pub open spec fn strict(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub fn dedup(v: &mut Vec<i32>)
    ensures final(v)@.to_set() == old(v)@.to_set(), final(v)@.len() <= old(v)@.len(),
        (forall|i: int, j: int| 0 <= i <= j < old(v)@.len() ==> #[trigger] old(v)@[i] <= #[trigger] old(v)@[j]) ==> strict(final(v)@),
{
    let ghost s = v@;
    let mut r: Vec<i32> = Vec::new();
    let mut k: usize = 0;
    while k < v.len()
        invariant v@ == s, k <= s.len(), r@.len() <= k, forall|x: i32| r@.contains(x) <==> s.subrange(0, k as int).contains(x),
            k > 0 ==> r@.len() > 0 && r@[r@.len() - 1] == s[k - 1],
            (forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j]) ==> strict(r@),
        decreases s.len() - k,
    {
        let x = v[k];
        let ghost r0 = r@;
        if k == 0 || r[r.len() - 1] != x {
            r.push(x);
            proof {
                if forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] {
                    if k > 0 { assert(s[k - 1] <= s[k as int]); }
                    assert forall|i: int, j: int| 0 <= i < j < r@.len() implies #[trigger] r@[i] < #[trigger] r@[j] by {
                        if j < r0.len() { assert(r0[i] < r0[j]); } else if i < r0.len() - 1 { assert(r0[i] < r0[r0.len() - 1]); }
                    }
                }
            }
        }
        proof {
            assert forall|y: i32| r@.contains(y) <==> s.subrange(0, k + 1).contains(y) by {
                if r@.contains(y) {
                    let i = choose|i: int| 0 <= i < r@.len() && r@[i] == y;
                    if i < r0.len() { assert(r0[i] == y); assert(r0.contains(y)); let z = choose|z: int| 0 <= z < k && s.subrange(0, k as int)[z] == y; assert(s.subrange(0, k + 1)[z] == y); }
                    else { assert(s.subrange(0, k + 1)[k as int] == y); }
                }
                if s.subrange(0, k + 1).contains(y) {
                    let t = s.subrange(0, k + 1);
                    let z = choose|z: int| 0 <= z < k + 1 && t[z] == y;
                    if z < k { assert(s.subrange(0, k as int)[z] == y); assert(r0.contains(y)); let i = choose|i: int| 0 <= i < r0.len() && r0[i] == y; assert(r@[i] == y); }
                    else { assert(r@[r@.len() - 1] == y); }
                }
            }
        }
        k = k + 1;
    }
    proof { assert(s.subrange(0, s.len() as int) =~= s); assert(r@.to_set() =~= s.to_set()); }
    *v = r;
}

// ---------------------------------------------------------------- machine integers
pub open spec fn i2u_s(x: int) -> int { if x >= 0 { x } else { x + 0x1_0000_0000_0000_0000 } }
#[verifier::external_body]
pub fn i2u(x: i32) -> (r: usize) ensures r == i2u_s(x as int) { x as usize }
#[verifier::external_body]
pub fn u2i(x: usize) -> (r: i32)
    ensures x <= 0x7fff_ffff ==> r == x, x >= 0xffff_ffff_8000_0000 ==> r == x - 0x1_0000_0000_0000_0000,
{ x as i32 }
#[verifier::external_body]
pub fn l2u(x: i64) -> (r: usize) ensures r == i2u_s(x as int) { x as usize }
#[verifier::external_body]
pub fn u2l(x: usize) -> (r: i64) ensures x <= 0x7fff_ffff_ffff_ffff ==> r == x { x as i64 }
#[verifier::external_body]
pub fn l2i(x: i64) -> (r: i32) ensures -0x8000_0000 <= x <= 0x7fff_ffff ==> r == x { x as i32 }
#[verifier::external_body]
pub fn i2w(x: i32) -> (r: u32) ensures x >= 0 ==> r == x { x as u32 }
#[verifier::external_body]
pub fn u2w(x: usize) -> (r: u32) ensures x <= 0xffff_ffff ==> r == x { x as u32 }
#[verifier::external_body]
pub fn w2i(x: u32) -> (r: i32) ensures x <= 0x7fff_ffff ==> r == x { x as i32 }
pub open spec fn M64() -> int { 0x1_0000_0000_0000_0000 }
#[verifier::external_body]
pub fn wadd(a: usize, b: usize) -> (r: usize)
    ensures r == (if a + b < M64() { a + b } else { a + b - M64() }),
{ a.wrapping_add(b) }
#[verifier::external_body]
pub fn wsub(a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { a - b + M64() }),
{ a.wrapping_sub(b) }
#[verifier::external_body]
pub fn wmul(a: usize, b: usize) -> (r: usize)
    ensures r as int == (a * b) % M64(), a * b < M64() ==> r == a * b,
{ a.wrapping_mul(b) }
pub fn udiv(a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a / b { a / b }
pub fn umod(a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a % b { a % b }
#[verifier::external_body]
pub fn wadd32(a: u32, b: u32) -> (r: u32) ensures a + b <= u32::MAX ==> r == a + b { a.wrapping_add(b) }
#[verifier::external_body]
pub fn wsub32(a: u32, b: u32) -> (r: u32) ensures a >= b ==> r == a - b { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn wmul32(a: u32, b: u32) -> (r: u32) ensures a * b <= u32::MAX ==> r == a * b { a.wrapping_mul(b) }
pub open spec fn cdiv(a: int, b: int) -> int
{ if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
#[verifier::external_body]
pub fn idiv(a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == cdiv(a as int, b as int),
{ a / b }
#[verifier::external_body]
pub fn imod(a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == a - b * cdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a % b,
{ a % b }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn abs_i32(a: i32) -> (r: i32) requires a != i32::MIN ensures r == (if a < 0 { -a } else { a as int }) { if a < 0 { 0 - a } else { a } }
#[verifier::external_body]
pub fn arb_i32() -> (r: i32) { 0 }
#[verifier::external_body]
pub fn arb_usize() -> (r: usize) { 0 }
#[verifier::external_body]
pub fn arb_i64() -> (r: i64) { 0 }
#[verifier::external_body]
pub fn arb_bool() -> (r: bool) { false }
#[verifier::external_body]
pub fn arb_f64() -> (r: F64) { F64 { b: 0 } }
// throw / exit: the paths behind it are not specified
#[verifier::external_body]
pub fn abort_call() ensures false { panic!() }

// ---------------------------------------------------------------- floating point: opaque values, uninterpreted operations
#[derive(Clone, Copy)]
pub struct F64 { pub b: u64 }
pub uninterp spec fn fadd_s(a: F64, b: F64) -> F64;
pub uninterp spec fn fsub_s(a: F64, b: F64) -> F64;
pub uninterp spec fn fmul_s(a: F64, b: F64) -> F64;
pub uninterp spec fn fdiv_s(a: F64, b: F64) -> F64;
pub uninterp spec fn fneg_s(a: F64) -> F64;
pub uninterp spec fn flt_s(a: F64, b: F64) -> bool;
pub uninterp spec fn fle_s(a: F64, b: F64) -> bool;
pub uninterp spec fn feq_s(a: F64, b: F64) -> bool;
pub uninterp spec fn i2f_s(a: int) -> F64;
pub uninterp spec fn f2i_s(a: F64) -> i32;
pub uninterp spec fn f_un_s(k: int, a: F64) -> F64;
pub uninterp spec fn f64_lit_s(a: u64) -> F64;
// IEEE 754 double: integers up to 2^53 are represented, added and compared exactly
pub open spec fn fint(a: int) -> bool { -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 }
#[verifier::external_body]
pub proof fn fadd_exact(a: int, b: int)
    requires fint(a), fint(b), fint(a + b),
    ensures fadd_s(i2f_s(a), i2f_s(b)) == i2f_s(a + b),
{ }
#[verifier::external_body]
pub proof fn flt_exact(a: int, b: int)
    requires fint(a), fint(b),
    ensures flt_s(i2f_s(a), i2f_s(b)) == (a < b), fle_s(i2f_s(a), i2f_s(b)) == (a <= b), feq_s(i2f_s(a), i2f_s(b)) == (a == b),
{ }
pub open spec fn f64_zero_s() -> F64 { i2f_s(0) }
#[verifier::external_body] pub fn fadd(a: F64, b: F64) -> (r: F64) ensures r == fadd_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fsub(a: F64, b: F64) -> (r: F64) ensures r == fsub_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fmul(a: F64, b: F64) -> (r: F64) ensures r == fmul_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fdiv(a: F64, b: F64) -> (r: F64) ensures r == fdiv_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fneg(a: F64) -> (r: F64) ensures r == fneg_s(a) { unimplemented!() }
#[verifier::external_body] pub fn flt(a: F64, b: F64) -> (r: bool) ensures r == flt_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fgt(a: F64, b: F64) -> (r: bool) ensures r == flt_s(b, a) { unimplemented!() }
#[verifier::external_body] pub fn fle(a: F64, b: F64) -> (r: bool) ensures r == fle_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fge(a: F64, b: F64) -> (r: bool) ensures r == fle_s(b, a) { unimplemented!() }
#[verifier::external_body] pub fn feq(a: F64, b: F64) -> (r: bool) ensures r == feq_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn fne(a: F64, b: F64) -> (r: bool) ensures r == !feq_s(a, b) { unimplemented!() }
#[verifier::external_body] pub fn i2f(a: i32) -> (r: F64) ensures r == i2f_s(a as int) { unimplemented!() }
#[verifier::external_body] pub fn u2f(a: usize) -> (r: F64) ensures r == i2f_s(a as int) { unimplemented!() }
#[verifier::external_body] pub fn f2i(a: F64) -> (r: i32) ensures r == f2i_s(a) { unimplemented!() }
#[verifier::external_body] pub fn f2u(a: F64) -> (r: usize) { unimplemented!() }
#[verifier::external_body] pub fn f64_lit(a: u64) -> (r: F64) ensures r == f64_lit_s(a) { unimplemented!() }
#[verifier::external_body] pub fn f64_zero() -> (r: F64) ensures r == f64_zero_s() { unimplemented!() }
#[verifier::external_body] pub fn f_log(a: F64) -> (r: F64) ensures r == f_un_s(1, a) { unimplemented!() }
#[verifier::external_body] pub fn f_ceil(a: F64) -> (r: F64) ensures r == f_un_s(2, a) { unimplemented!() }
#[verifier::external_body] pub fn f_floor(a: F64) -> (r: F64) ensures r == f_un_s(3, a) { unimplemented!() }
#[verifier::external_body] pub fn f_fabs(a: F64) -> (r: F64) ensures r == f_un_s(4, a) { unimplemented!() }
#[verifier::external_body] pub fn f_sqrt(a: F64) -> (r: F64) ensures r == f_un_s(5, a) { unimplemented!() }
#[verifier::external_body] pub fn f_log2(a: F64) -> (r: F64) ensures r == f_un_s(6, a) { unimplemented!() }
#[verifier::external_body] pub fn fmin(a: F64, b: F64) -> (r: F64) ensures r == (if flt_s(b, a) { b } else { a }) { unimplemented!() }
#[verifier::external_body] pub fn fmax(a: F64, b: F64) -> (r: F64) ensures r == (if flt_s(a, b) { b } else { a }) { unimplemented!() }

// ---------------------------------------------------------------- the library's matrix structs
pub struct CSC { pub m: usize, pub n: usize, pub nnz: usize, pub stype: i32, pub is_pattern: bool, pub pre_alloc: bool, pub p: Vec<i32>, pub i: Vec<i32>, pub x: Vec<F64> }
// a pointer argument returned as it is (identity of the object is not modelled, only what it holds)
#[verifier::external_body]
pub fn given_csc(a: &CSC) -> (r: CSC)
    ensures r == *a,
{ unimplemented!() }
#[verifier::external_body]
pub fn arb_bcsc() -> (r: BCSC) { unimplemented!() }
#[verifier::external_body]
pub fn arb_bcscmatrix() -> (r: BCSCMatrix) { unimplemented!() }
#[verifier::external_body]
pub fn arb_csc() -> (r: CSC) { unimplemented!() }
#[verifier::external_body]
pub fn arb_csr() -> (r: CSR) { unimplemented!() }
pub struct CSR { pub m: usize, pub n: usize, pub nnz: usize, pub stype: i32, pub is_pattern: bool, pub pre_alloc: bool, pub p: Vec<i32>, pub i: Vec<i32>, pub x: Vec<F64> }
#[derive(Clone, Copy)]
pub struct TwoDIteration { pub i: i32, pub j: i32, pub k: i32 }
#[verifier::external_body]
pub fn arb_twoditeration() -> (r: TwoDIteration) { unimplemented!() }
pub struct BCSC { pub m: usize, pub n: usize, pub nnz: usize, pub p: Vec<i32>, pub i: Vec<i32>, pub x: Vec<F64>, pub nodes: usize, pub supernodes: Vec<i32>, pub nrows: Vec<i32> }
pub struct BCSCMatrix { pub M: BCSC }
pub struct SubTree { pub cost: F64, pub nodeList: Vec<i32> }
pub fn new_subtrees(n: usize) -> (r: Vec<SubTree>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).nodeList@ == Seq::<i32>::empty(),
{
    let mut v: Vec<SubTree> = Vec::new();
    while v.len() < n
        invariant v@.len() <= n, forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).nodeList@ == Seq::<i32>::empty(),
        decreases n - v@.len(),
    { v.push(SubTree { cost: arb_f64(), nodeList: Vec::new() }); }
    v
}
pub struct Group { pub status: Vec<i32>, pub next: Vec<i32>, pub pre: Vec<i32>, pub mP: Vec<i32>, pub mI: Vec<i32>, pub ncol: i32, pub visited: Vec<bool>, pub child: Vec<i32> }
#[verifier::external_body]
pub fn arb_group() -> (r: Group) { unimplemented!() }
} // mod pre
use pre::*;
