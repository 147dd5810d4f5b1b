//@uses
// the weights of the first m entries / of the elements set[a..b), added up from the left
pub open spec fn wfold(w: Seq<F64>, m: int) -> F64
    decreases m
{ if m <= 0 { f64_zero_s() } else { fadd_s(wfold(w, m - 1), w[m - 1]) } }
pub open spec fn wrun(w: Seq<F64>, s: Seq<i32>, a: int, b: int) -> F64
    decreases b - a
{ if b <= a { f64_zero_s() } else { fadd_s(wrun(w, s, a, b - 1), w[s[b - 1] as int]) } }
// what part k is to weigh: its target when there is one, else an even share rounded up
pub open spec fn want(w: Seq<F64>, n: int, parts: int, t: Seq<F64>, k: int) -> F64
{ if t.len() != 0 { t[k] } else { f_un_s(2, fdiv_s(wfold(w, n), i2f_s(parts))) } }
// set[a..b) is the shortest run from a on that weighs t, or all that is left
pub open spec fn shortest(w: Seq<F64>, s: Seq<i32>, n: int, t: F64, a: int, b: int) -> bool
{ a <= b && b <= n && (forall|q: int| a <= q < b ==> flt_s(#[trigger] wrun(w, s, a, q), t)) && (b == n || !flt_s(wrun(w, s, a, b), t)) }
pub open spec fn part_ok(w: Seq<F64>, s: Seq<i32>, n: int, parts: int, t: Seq<F64>, r: Seq<i32>, k: int) -> bool
{ shortest(w, s, n, want(w, n, parts, t, k), r[k] as int, r[k + 1] as int) }
