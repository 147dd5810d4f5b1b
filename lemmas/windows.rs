// boundaries b[0..c]: start at the first level, strictly increase; with last boundary
pub open spec fn incr(b: Seq<i32>, c: int) -> bool {
    0 <= c < b.len() && b[0] == 0 && forall|a: int, d: int| 0 <= a < d <= c ==> #[trigger] b[a] < #[trigger] b[d]
}
pub proof fn incr_at_least(b: Seq<i32>, c: int)
    requires incr(b, c),
    ensures b[c] >= c,
    decreases c
{ if c > 0 { assert(b[c - 1] < b[c]); incr_at_least(b, c - 1); } }
pub open spec fn windows(b: Seq<i32>, c: int, n: int) -> bool { incr(b, c) && c >= 1 && b[c] == n }
pub open spec fn counts_in(s: Seq<i32>, lo: int, cap: int) -> bool { forall|k: int| lo <= k < s.len() ==> 1 <= #[trigger] s[k] <= cap }
