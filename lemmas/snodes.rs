//@uses graph
// maximal runs of consecutive columns with the same pattern below the diagonal
pub ghost struct Sn { pub p: Seq<i32>, pub i: Seq<i32>, pub n: int, pub lim: int }
// column c has exactly the rows of column a but the first c - a
#[verifier::opaque]
pub open spec fn same_lo(d: Sn, a: int, c: int) -> bool { d.p[c + 1] - d.p[c] == d.p[a + 1] - d.p[a] - (c - a) && forall|e: int| d.p[c] <= e < d.p[c + 1] ==> #[trigger] d.i[e] == d.i[e - d.p[c] + d.p[a] + (c - a)] }
// column c has exactly the rows of column a but the last a - c
#[verifier::opaque]
pub open spec fn same_up(d: Sn, a: int, c: int) -> bool { d.p[c + 1] - d.p[c] == d.p[a + 1] - d.p[a] - (a - c) && forall|e: int| d.p[c] <= e < d.p[c + 1] ==> #[trigger] d.i[e] == d.i[e - d.p[c + 1] + d.p[a + 1] - (a - c)] }
pub open spec fn sbound(d: Sn, w: int) -> bool { 1 <= w && (w == 1 || w <= d.lim + 1) }
// columns a .. b-1: all alike, at most lim + 1 of them, and no further one would fit
pub open spec fn snode_lo(d: Sn, a: int, b: int) -> bool {
    0 <= a < b <= d.n && sbound(d, b - a) && (forall|c: int| a < c < b ==> #[trigger] same_lo(d, a, c)) && (b == d.n || b - a > d.lim || !same_lo(d, a, b))
}
// columns b+1 .. a
pub open spec fn snode_up(d: Sn, a: int, b: int) -> bool {
    -1 <= b < a < d.n && sbound(d, a - b) && (forall|c: int| b < c < a ==> #[trigger] same_up(d, a, c)) && (b == -1 || a - b > d.lim || !same_up(d, a, b))
}
pub open spec fn nxt(t: Seq<i32>, m: int, k: int, x: int) -> int { if k + 1 < m { t[k + 1] as int } else { x } }
#[verifier::opaque]
pub open spec fn parts_lo(d: Sn, t: Seq<i32>, m: int, x: int) -> bool {
    t.len() == d.n && 0 <= m <= x <= d.n && (m == 0 ==> x == 0) && (m > 0 ==> t[0] == 0) && forall|k: int| 0 <= k < m ==> snode_lo(d, #[trigger] t[k] as int, nxt(t, m, k, x))
}
#[verifier::opaque]
pub open spec fn parts_up(d: Sn, t: Seq<i32>, m: int, x: int) -> bool {
    t.len() == d.n && 0 <= m <= d.n - 1 - x && -1 <= x && (m == 0 ==> x == d.n - 1) && (m > 0 ==> t[0] == d.n - 1) && forall|k: int| 0 <= k < m ==> snode_up(d, #[trigger] t[k] as int, nxt(t, m, k, x))
}
pub proof fn pl_init(d: Sn, t: Seq<i32>)
    requires t.len() == d.n,
    ensures parts_lo(d, t, 0, 0),
{ reveal(parts_lo); }
pub proof fn pl_step(d: Sn, t: Seq<i32>, m: int, x: int, y: int, v: i32)
    requires parts_lo(d, t, m, x), v == x, snode_lo(d, x, y),
    ensures m < t.len(), parts_lo(d, t.update(m, v), m + 1, y),
{ reveal(parts_lo); let u = t.update(m, v); assert forall|k: int| 0 <= k < m + 1 implies snode_lo(d, #[trigger] u[k] as int, nxt(u, m + 1, k, y)) by { if k < m { assert(snode_lo(d, t[k] as int, nxt(t, m, k, x))); } } }
pub proof fn pu_init(d: Sn, t: Seq<i32>)
    requires t.len() == d.n,
    ensures parts_up(d, t, 0, d.n - 1),
{ reveal(parts_up); }
pub proof fn pu_step(d: Sn, t: Seq<i32>, m: int, x: int, y: int, v: i32)
    requires parts_up(d, t, m, x), v == x, snode_up(d, x, y),
    ensures m < t.len(), parts_up(d, t.update(m, v), m + 1, y),
{ reveal(parts_up); let u = t.update(m, v); assert forall|k: int| 0 <= k < m + 1 implies snode_up(d, #[trigger] u[k] as int, nxt(u, m + 1, k, y)) by { if k < m { assert(snode_up(d, t[k] as int, nxt(t, m, k, x))); } } }
pub proof fn part_room(d: Sn, t: Seq<i32>, m: int, x: int)
    ensures parts_lo(d, t, m, x) ==> t.len() == d.n && 0 <= m <= x <= d.n, parts_up(d, t, m, x) ==> t.len() == d.n && 0 <= m <= d.n - 1 - x && -1 <= x,
{ reveal(parts_lo); reveal(parts_up); }
// the finished list of boundaries
pub open spec fn sn_lo(d: Sn, s: Seq<i32>, m: int) -> bool { 0 <= m <= d.n && s.len() == m + 1 && s[0] == 0 && s[m] == d.n && forall|k: int| 0 <= k < m ==> snode_lo(d, #[trigger] s[k] as int, s[k + 1] as int) }
pub open spec fn sn_up(d: Sn, s: Seq<i32>, m: int) -> bool { 0 <= m <= d.n && s.len() == m + 1 && s[0] == d.n - 1 && s[m] == -1 && forall|k: int| 0 <= k < m ==> snode_up(d, #[trigger] s[k] as int, s[k + 1] as int) }
pub proof fn pl_done(d: Sn, t: Seq<i32>, m: int, s: Seq<i32>)
    requires parts_lo(d, t, m, d.n), s.len() == m + 1, s[m] == d.n, forall|k: int| 0 <= k < m ==> #[trigger] s[k] == t[k],
    ensures sn_lo(d, s, m),
{ reveal(parts_lo); assert forall|k: int| 0 <= k < m implies snode_lo(d, #[trigger] s[k] as int, s[k + 1] as int) by { assert(snode_lo(d, t[k] as int, nxt(t, m, k, d.n))); if k + 1 < m { assert(s[k + 1] == t[k + 1]); } } if m > 0 { assert(s[0] == t[0]); } }
pub proof fn pu_done(d: Sn, t: Seq<i32>, m: int, s: Seq<i32>)
    requires parts_up(d, t, m, -1), s.len() == m + 1, s[m] == -1, forall|k: int| 0 <= k < m ==> #[trigger] s[k] == t[k],
    ensures sn_up(d, s, m),
{ reveal(parts_up); assert forall|k: int| 0 <= k < m implies snode_up(d, #[trigger] s[k] as int, s[k + 1] as int) by { assert(snode_up(d, t[k] as int, nxt(t, m, k, -1))); if k + 1 < m { assert(s[k + 1] == t[k + 1]); } } if m > 0 { assert(s[0] == t[0]); } }
// boundaries go up
pub proof fn sn_lo_ok(d: Sn, s: Seq<i32>, m: int)
    requires sn_lo(d, s, m),
    ensures forall|a: int, b: int| 0 <= a < b <= m ==> #[trigger] s[a] < #[trigger] s[b],
{ assert forall|a: int, b: int| 0 <= a < b <= m implies #[trigger] s[a] < #[trigger] s[b] by { up_rec(d, s, m, a, b); } }
proof fn up_rec(d: Sn, s: Seq<i32>, m: int, a: int, b: int)
    requires sn_lo(d, s, m), 0 <= a < b <= m,
    ensures s[a] < s[b],
    decreases b - a
{ assert(snode_lo(d, s[b - 1] as int, s[b - 1 + 1] as int)); if a < b - 1 { up_rec(d, s, m, a, b - 1); } }
