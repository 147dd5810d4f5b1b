@unit tridiag
@src utils/sparse_utilities.cpp
@ns sym_lib
@name tridiag
@props P22
@uses csc builders
@requires
1 <= n <= 700_000_000,
@ensures
res.n == n, res.m == n, res.nnz == 3 * n - 2, res.i@.len() == res.nnz, res.x@.len() == res.nnz, res.p@.len() == n + 1,
forall|k: int| 0 <= k <= n ==> #[trigger] res.p@[k] == tri_p(n as int, k),
forall|k: int| 0 <= k < n ==> #[trigger] tri_col(res.p@, res.i@, res.x@, n as int, k, a0, a1, a2),
@loop 1
invariant
    n >= 2, 0 <= i <= n, ind == tri_p(n as int, i as int), A.n == n, A.m == n, A.nnz == 3 * n - 2, A.i@.len() == A.nnz, A.x@.len() == A.nnz, A.p@.len() == n + 1,
    forall|k: int| 0 <= k <= i ==> #[trigger] A.p@[k] == tri_p(n as int, k),
    forall|k: int| 0 <= k < i ==> #[trigger] tri_col(A.p@, A.i@, A.x@, n as int, k, a0, a1, a2),
decreases n - i,
@head 1
let ghost o = A;
@end 1
proof {
    assert forall|k: int| 0 <= k <= i implies #[trigger] A.p@[k] == tri_p(n as int, k) by { assert(o.p@[i - 1] == tri_p(n as int, i - 1)); if k < i { assert(o.p@[k] == tri_p(n as int, k)); } }
    assert forall|k: int| 0 <= k < i implies #[trigger] tri_col(A.p@, A.i@, A.x@, n as int, k, a0, a1, a2) by {
        assert(o.p@[k] == tri_p(n as int, k)); 
        if k < i - 1 { assert(tri_col(o.p@, o.i@, o.x@, n as int, k, a0, a1, a2)); assert(o.p@[k] + 2 < ind || k + 1 >= n); }
    }
}
@exit
proof { if n == 1 { assert(tri_col(_res.p@, _res.i@, _res.x@, 1, 0, a0, a1, a2)); } }
