//@uses sums
// compressed storage: pointers start at zero, never decrease and stay inside the index array
pub open spec fn mono(p: Seq<i32>, n: int) -> bool {
    n >= 0 && p.len() == n + 1 && p[0] == 0 && forall|a: int, b: int| 0 <= a <= b <= n ==> #[trigger] p[a] <= #[trigger] p[b]
}
pub open spec fn wf(a: CSC) -> bool {
    a.n >= 1 && mono(a.p@, a.n as int) && a.i@.len() >= a.p@[a.n as int]
}
pub open spec fn wfr(a: CSR) -> bool {
    a.m >= 1 && mono(a.p@, a.m as int) && a.i@.len() >= a.p@[a.m as int]
}
