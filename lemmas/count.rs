//@uses sums
// occurrences of v among the first n entries of s
pub open spec fn cnt(s: Seq<i32>, n: int, v: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnt(s, n - 1, v) + (if s[n - 1] == v { 1int } else { 0int }) } }

// first slot of bucket v when the first n entries of s are bucketed by value
pub open spec fn start(s: Seq<i32>, n: int, v: int) -> int
    decreases v
{ if v <= 0 { 0 } else { start(s, n, v - 1) + cnt(s, n, v - 1) } }

// slot of entry k in its bucket (stable)
pub open spec fn slot(s: Seq<i32>, n: int, k: int) -> int { start(s, n, s[k] as int) + cnt(s, k, s[k] as int) }

pub proof fn cnt_bounds(s: Seq<i32>, n: int, v: int)
    requires n >= 0,
    ensures 0 <= cnt(s, n, v) <= n,
    decreases n
{ if n > 0 { cnt_bounds(s, n - 1, v); } }
pub proof fn cnt_mono(s: Seq<i32>, a: int, b: int, v: int)
    requires 0 <= a <= b,
    ensures cnt(s, a, v) <= cnt(s, b, v),
    decreases b
{ if a < b { cnt_mono(s, a, b - 1, v); } }
// an occurrence at k is counted between k and n
pub proof fn cnt_strict(s: Seq<i32>, k: int, n: int)
    requires 0 <= k < n,
    ensures cnt(s, k, s[k] as int) < cnt(s, n, s[k] as int),
{ cnt_mono(s, k + 1, n, s[k] as int); }
pub proof fn cnt_ext(s: Seq<i32>, t: Seq<i32>, n: int, v: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] s[k] == t[k],
    ensures cnt(s, n, v) == cnt(t, n, v),
    decreases n
{ if n > 0 { cnt_ext(s, t, n - 1, v); assert(s[n - 1] == t[n - 1]); } }
pub proof fn cnt_none(s: Seq<i32>, n: int, v: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] s[k] != v,
    ensures cnt(s, n, v) == 0,
    decreases n
{ if n > 0 { cnt_none(s, n - 1, v); assert(s[n - 1] != v); } }
pub proof fn cnt_zero_none(s: Seq<i32>, n: int, v: int)
    requires n >= 0, cnt(s, n, v) == 0,
    ensures forall|k: int| 0 <= k < n ==> #[trigger] s[k] != v,
    decreases n
{ if n > 0 { cnt_bounds(s, n - 1, v); cnt_zero_none(s, n - 1, v); } }

pub proof fn start_mono(s: Seq<i32>, n: int, a: int, b: int)
    requires a <= b, n >= 0,
    ensures 0 <= start(s, n, a) <= start(s, n, b),
    decreases (if b > 0 { b } else { 0 })
{
    if b > 0 {
        cnt_bounds(s, n, b - 1);
        if a < b { start_mono(s, n, a, b - 1); } else { start_mono(s, n, b - 1, b - 1); }
    }
}
proof fn start_step_n(s: Seq<i32>, n: int, m: int)
    requires n > 0, m >= 0,
    ensures start(s, n, m) == start(s, n - 1, m) + (if 0 <= s[n - 1] < m { 1int } else { 0int }),
    decreases m
{ if m > 0 { start_step_n(s, n, m - 1); } }
proof fn start_zero_n(s: Seq<i32>, m: int)
    requires m >= 0,
    ensures start(s, 0, m) == 0,
    decreases m
{ if m > 0 { start_zero_n(s, m - 1); } }
pub proof fn start_le(s: Seq<i32>, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures start(s, n, m) <= n,
        (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] s[k] < m) ==> start(s, n, m) == n,
    decreases n
{
    if n > 0 { start_le(s, n - 1, m); start_step_n(s, n, m); if (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] s[k] < m) { assert(0 <= s[n - 1] < m); } }
    else { start_zero_n(s, m); }
}
pub proof fn start_any(s: Seq<i32>, n: int, v: int, m: int)
    requires n >= 0, 0 <= v <= m,
    ensures 0 <= start(s, n, v) <= start(s, n, m) <= n,
{ start_le(s, n, m); start_mono(s, n, v, m); }
// the slot of an entry lies inside its bucket
pub proof fn slot_in(s: Seq<i32>, n: int, k: int, m: int)
    requires 0 <= k < n, 0 <= s[k] < m,
    ensures start(s, n, s[k] as int) <= slot(s, n, k) < start(s, n, s[k] + 1) <= start(s, n, m) <= n, 0 <= start(s, n, s[k] as int),
{
    cnt_bounds(s, k, s[k] as int);
    cnt_strict(s, k, n);
    start_any(s, n, s[k] + 1, m);
    start_mono(s, n, s[k] as int, s[k] + 1);
}
// different entries get different slots
pub proof fn slot_inj(s: Seq<i32>, n: int, k: int, l: int, m: int)
    requires 0 <= k < l < n, 0 <= s[k] < m, 0 <= s[l] < m,
    ensures slot(s, n, k) != slot(s, n, l),
        s[k] == s[l] ==> slot(s, n, k) < slot(s, n, l),
{
    slot_in(s, n, k, m);
    slot_in(s, n, l, m);
    if s[k] == s[l] { cnt_strict(s, k, l); }
    else if s[k] < s[l] { start_mono(s, n, s[k] + 1, s[l] as int); }
    else { start_mono(s, n, s[l] + 1, s[k] as int); }
}
pub proof fn slot_inj_all(s: Seq<i32>, n: int, m: int)
    requires n >= 0,
    ensures forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k != l && 0 <= s[k] < m && 0 <= s[l] < m ==> #[trigger] slot(s, n, k) != #[trigger] slot(s, n, l),
{
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k != l && 0 <= s[k] < m && 0 <= s[l] < m implies #[trigger] slot(s, n, k) != #[trigger] slot(s, n, l) by {
        if k < l { slot_inj(s, n, k, l, m); } else { slot_inj(s, n, l, k, m); }
    }
}
pub open spec fn has_occ(s: Seq<i32>, n: int, v: int, d: int, k: int) -> bool { 0 <= k < n && s[k] == v && cnt(s, k, v) == d }
// every slot of a bucket belongs to an entry
pub proof fn occ(s: Seq<i32>, n: int, v: int, d: int) -> (k: int)
    requires 0 <= d < cnt(s, n, v),
    ensures has_occ(s, n, v, d, k),
    decreases n
{
    if n <= 0 { 0 }
    else if d < cnt(s, n - 1, v) { occ(s, n - 1, v, d) }
    else { n - 1 }
}
// bucket of slot q
pub proof fn bucket(s: Seq<i32>, n: int, q: int, m: int) -> (v: int)
    requires 0 <= q < start(s, n, m), m >= 0, n >= 0,
    ensures 0 <= v < m, start(s, n, v) <= q < start(s, n, v + 1),
    decreases m
{
    if m <= 0 { 0 } else if q >= start(s, n, m - 1) { m - 1 } else { bucket(s, n, q, m - 1) }
}
// entry that owns slot q
pub proof fn slot_onto(s: Seq<i32>, n: int, q: int, m: int) -> (k: int)
    requires 0 <= q < start(s, n, m), m >= 0, n >= 0,
    ensures 0 <= k < n, 0 <= s[k] < m, slot(s, n, k) == q,
{
    let v = bucket(s, n, q, m);
    let d = q - start(s, n, v);
    occ(s, n, v, d)
}
