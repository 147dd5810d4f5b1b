//@uses csc graph
// column pointers of the n by n tridiagonal matrix
pub open spec fn tri_p(n: int, k: int) -> int { if k <= 0 { 0 } else if k < n { 3 * k - 1 } else { 3 * n - 2 } }
// column k of the tridiagonal matrix: rows k-1, k, k+1 (where they exist) with values a0, a1, a2
pub open spec fn tri_col(p: Seq<i32>, i: Seq<i32>, x: Seq<F64>, n: int, k: int, a0: F64, a1: F64, a2: F64) -> bool {
    let d = if k > 0 { p[k] + 1 } else { p[k] as int };
    (k > 0 ==> i[p[k] as int] == k - 1 && x[p[k] as int] == a0)
    && i[d] == k && x[d] == a1
    && (k < n - 1 ==> i[d + 1] == k + 1 && x[d + 1] == a2)
}
pub open spec fn same_csc(a: CSC, b: CSC) -> bool {
    a.m == b.m && a.n == b.n && a.nnz == b.nnz && a.stype == b.stype && a.p@.len() >= a.n + 1 && a.i@.len() >= a.nnz && a.x@.len() == b.x@.len()
    && (forall|k: int| 0 <= k <= b.n ==> #[trigger] a.p@[k] == b.p@[k])
    && (forall|k: int| 0 <= k < b.nnz ==> #[trigger] a.i@[k] == b.i@[k])
    && (forall|k: int| 0 <= k < b.nnz && b.x@.len() > 0 ==> #[trigger] a.x@[k] == b.x@[k])
}
pub open spec fn nempty(p: Seq<i32>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nempty(p, k - 1) + (if p[k] == p[k - 1] { 1int } else { 0int }) } }
// dense image of a sparse matrix: entry e of column c lands at c * m + row, and at row * n + c as well for symmetric storage
pub open spec fn dpos(m: int, c: int, r: int) -> int { c * m + r }
pub open spec fn hit(a: CSC, e: int, q: int) -> bool {
    q == dpos(a.m as int, src(a.p@, a.n as int, e), a.i@[e] as int) || (a.stype != 0 && q == dpos(a.n as int, a.i@[e] as int, src(a.p@, a.n as int, e)))
}
pub open spec fn covered(a: CSC, k: int, q: int) -> bool { exists|e: int| 0 <= e < k && hit(a, e, q) }
// no position is stored twice (counting the mirrored one for symmetric storage)
pub open spec fn once(a: CSC) -> bool {
    forall|e: int, f: int, q: int| 0 <= e < f < a.p@[a.n as int] && #[trigger] hit(a, e, q) ==> !#[trigger] hit(a, f, q)
}
pub proof fn dpos_in(n: int, m: int, c: int, r: int)
    requires 0 <= c < n, 0 <= r < m,
    ensures 0 <= dpos(m, c, r) < n * m,
{ assert(0 <= c * m) by (nonlinear_arith) requires 0 <= c, 0 <= m; assert(c * m + r < n * m) by (nonlinear_arith) requires c + 1 <= n, r < m, 0 <= m; }
