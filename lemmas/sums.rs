pub open spec fn sum(f: spec_fn(int) -> int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum(f, n - 1) + f(n - 1) } }

pub proof fn sum_le(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) <= g(k),
    ensures sum(f, n) <= sum(g, n),
    decreases n
{ if n > 0 { sum_le(f, g, n - 1); assert(f(n - 1) <= g(n - 1)); } }

pub proof fn sum_eq(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k),
    ensures sum(f, n) == sum(g, n),
    decreases n
{ if n > 0 { sum_eq(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }

pub proof fn sum_point(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int, j: int)
    requires 0 <= j < n, forall|k: int| 0 <= k < n && k != j ==> #[trigger] f(k) == g(k),
    ensures sum(g, n) == sum(f, n) + g(j) - f(j),
    decreases n
{
    if n > 0 {
        if j == n - 1 { sum_eq(f, g, n - 1); }
        else { sum_point(f, g, n - 1, j); assert(f(n - 1) == g(n - 1)); }
    }
}

pub proof fn sum_ge0(f: spec_fn(int) -> int, n: int)
    requires forall|k: int| 0 <= k < n ==> 0 <= #[trigger] f(k),
    ensures 0 <= sum(f, n),
    decreases n
{ if n > 0 { sum_ge0(f, n - 1); assert(0 <= f(n - 1)); } }

pub proof fn sum_mono(f: spec_fn(int) -> int, a: int, b: int)
    requires a <= b, forall|k: int| 0 <= k < b ==> 0 <= #[trigger] f(k),
    ensures sum(f, a) <= sum(f, b),
    decreases b - a
{ if a < b { sum_mono(f, a, b - 1); if b > 0 { assert(0 <= f(b - 1)); } } }

pub proof fn sum_zero(f: spec_fn(int) -> int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == 0,
    ensures sum(f, n) == 0,
    decreases n
{ if n > 0 { sum_zero(f, n - 1); assert(f(n - 1) == 0); } }

// a term is at most the sum of non-negative terms
pub proof fn sum_term(f: spec_fn(int) -> int, n: int, j: int)
    requires 0 <= j < n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] f(k),
    ensures f(j) <= sum(f, n),
    decreases n
{
    if j == n - 1 { sum_ge0(f, n - 1); }
    else { sum_term(f, n - 1, j); assert(0 <= f(n - 1)); }
}

// telescoping: pointers are sums of their differences
pub proof fn sum_diff(p: Seq<i32>, n: int)
    requires 0 <= n < p.len(),
    ensures sum(|k: int| (p[k + 1] - p[k]) as int, n) == p[n] - p[0],
    decreases n
{ if n > 0 { sum_diff(p, n - 1); } }
