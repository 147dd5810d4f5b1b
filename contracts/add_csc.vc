@unit add_csc
@src utils/sparse_utilities.cpp
@ns sym_lib
@name add
@props P15
@uses addm
@opts isolate
@requires
A.stype == B.stype, A.n == B.n, 1 <= A.n < i32::MAX, A.m < i32::MAX, ptrs(A.p@, A.n as int), ptrs(B.p@, A.n as int), A.i@.len() >= A.p@[A.n as int], B.i@.len() >= B.p@[A.n as int], A.p@[A.n as int] + B.p@[A.n as int] <= i32::MAX,
forall|e: int| 0 <= e < A.p@[A.n as int] ==> 0 <= #[trigger] A.i@[e] < A.m, forall|e: int| 0 <= e < B.p@[A.n as int] ==> 0 <= #[trigger] B.i@[e] < A.m,
!(A.is_pattern || B.is_pattern) ==> A.x@.len() >= A.p@[A.n as int] && B.x@.len() >= B.p@[A.n as int],
@ensures
res.m == A.m, res.n == A.n, res.stype == A.stype, res.is_pattern == (A.is_pattern || B.is_pattern), res.p@.len() == A.n + 1, res.i@.len() == A.p@[A.n as int] + B.p@[A.n as int], res.x@.len() == (if A.is_pattern || B.is_pattern { 0int } else { A.p@[A.n as int] + B.p@[A.n as int] }),
is_sum(*A, *B, alpha, beta, sort, res),
@entry
let ghost N = A.n as int;
let ghost M = A.m as int;
let ghost T = A.p@[N] + B.p@[N];
proof { assert(A.p@[0] <= A.p@[N]); assert(B.p@[0] <= B.p@[N]); }
@loop 1
invariant
    N == A.n, N == B.n, N == n, M == A.m, M == m, T == A.p@[N] + B.p@[N], 1 <= N < i32::MAX, M < i32::MAX, ptrs(A.p@, N), ptrs(B.p@, N), A.i@.len() >= A.p@[N], B.i@.len() >= B.p@[N], T <= i32::MAX,
    forall|e: int| 0 <= e < A.p@[N] ==> 0 <= #[trigger] A.i@[e] < M, forall|e: int| 0 <= e < B.p@[N] ==> 0 <= #[trigger] B.i@[e] < M,
    values == (A.is_pattern || B.is_pattern), !values ==> A.x@.len() >= A.p@[N] && B.x@.len() >= B.p@[N], w@.len() == M, x@.len() == (if values { 0int } else { M }),
    C.m == M, C.n == N, C.stype == A.stype, C.is_pattern == (A.is_pattern || B.is_pattern), C.p@.len() == N + 1, C.i@.len() == T, C.x@.len() == (if values { 0int } else { T }),
    0 <= j <= n, 0 <= nz <= A.p@[j as int] + B.p@[j as int], forall|v: int| 0 <= v < M ==> 0 <= #[trigger] w@[v] <= j,
    j == 0 ==> nz == 0, j > 0 ==> C.p@[0] == 0,
    forall|a: int, b: int| 0 <= a <= b < j ==> #[trigger] C.p@[a] <= #[trigger] C.p@[b], forall|a: int| 0 <= a < j ==> 0 <= #[trigger] C.p@[a] <= nz,
    forall|c: int| 0 <= c < j ==> #[trigger] add_col(*A, *B, alpha, beta, M, sort, C.i@, C.x@, values, C.p@[c] as int, cend(C.p@, j as int, nz as int, c), c),
decreases n - j,
@head 1
let ghost w0 = w@;
let ghost x0 = x@;
let ghost C0 = C;
let ghost nz0 = nz as int;
let ghost mut ci3 = C.i@;
proof { assert(A.p@[0] <= A.p@[j as int]); assert(A.p@[j as int] <= A.p@[j + 1]); assert(A.p@[j + 1] <= A.p@[N]); assert(B.p@[0] <= B.p@[j as int]); assert(B.p@[j as int] <= B.p@[j + 1]); assert(B.p@[j + 1] <= B.p@[N]); }
@after nz = _r2.*
let ghost w1 = w@;
let ghost x1 = x@;
let ghost ci1 = C.i@;
let ghost nz1 = nz as int;
proof { assert forall|v: int| 0 <= v < M implies #[trigger] w1[v] <= j + 1 by { assert(w_at(w1, w0, j + 1, A.i@, A.p@[j as int] as int, A.p@[j + 1] as int, v)); } }
@after nz = _r4;
proof { ci3 = C.i@; add_join(*A, *B, M, j as int, w0, w1, w@, ci1, ci3, nz0, nz1, nz as int); if !values { add_xjoin(*A, *B, alpha, beta, M, j as int, w0, w1, x0, x1, x@); } }
@after sort_range\(.*
proof { sort_rows(A.p@, A.i@, B.p@, B.i@, M, ci3, C.i@, nz0, nz as int, j as int); ci3 = C.i@; }
@loop 1.1
invariant
    N == A.n, N == B.n, N == n, M == A.m, M == m, T == A.p@[N] + B.p@[N], 1 <= N < i32::MAX, M < i32::MAX, ptrs(A.p@, N), ptrs(B.p@, N), A.i@.len() >= A.p@[N], B.i@.len() >= B.p@[N], T <= i32::MAX,
    forall|e: int| 0 <= e < A.p@[N] ==> 0 <= #[trigger] A.i@[e] < M, forall|e: int| 0 <= e < B.p@[N] ==> 0 <= #[trigger] B.i@[e] < M,
    values == (A.is_pattern || B.is_pattern), !values ==> A.x@.len() >= A.p@[N] && B.x@.len() >= B.p@[N], w@.len() == M, x@.len() == (if values { 0int } else { M }),
    C.m == M, C.n == N, C.stype == A.stype, C.is_pattern == (A.is_pattern || B.is_pattern), C.p@.len() == N + 1, C.i@.len() == T, C.x@.len() == (if values { 0int } else { T }),
    0 <= j < n, nz0 <= p <= nz, 0 <= nz0, nz <= T, C.i@ == ci3, C.p@ == C0.p@.update(j as int, nz0 as i32), !values, sum_rows(A.p@, A.i@, B.p@, B.i@, M, ci3, nz0, nz as int, j as int),
    forall|v: int| 0 <= v < M && #[trigger] either(A.p@, A.i@, B.p@, B.i@, j as int, v) ==> x@[v] == sumv(*A, *B, alpha, beta, j as int, v, f64_zero_s()),
    forall|q: int| 0 <= q < nz0 ==> #[trigger] C.x@[q] == C0.x@[q],
    sum_vals(*A, *B, alpha, beta, C.i@, C.x@, nz0, p as int, j as int),
decreases nz - p,
@head 1.1
let ghost cx = C.x@;
proof { assert(row_ok(A.p@, A.i@, B.p@, B.i@, M, j as int, C.i@[p as int] as int)); }
@tail 1.1
proof { assert forall|q: int| nz0 <= q <= p implies #[trigger] val_at(*A, *B, alpha, beta, j as int, C.i@, C.x@, q) by { if q < p { assert(val_at(*A, *B, alpha, beta, j as int, C.i@, cx, q)); } } }
@tail 1
proof {
    assert forall|c: int| 0 <= c < j implies #[trigger] add_col(*A, *B, alpha, beta, M, sort, C.i@, C.x@, values, C.p@[c] as int, C.p@[c + 1] as int, c) by {
        assert(add_col(*A, *B, alpha, beta, M, sort, C0.i@, C0.x@, values, C0.p@[c] as int, cend(C0.p@, j as int, nz0, c), c));
        add_frame(*A, *B, alpha, beta, M, sort, C0.i@, C0.x@, C.i@, C.x@, values, C0.p@[c] as int, cend(C0.p@, j as int, nz0, c), c);
    }
    assert(add_col(*A, *B, alpha, beta, M, sort, C.i@, C.x@, values, C.p@[j as int] as int, nz as int, j as int));
}
@before st(&mut C.p, n, nz);
let ghost C9 = C;
@after st(&mut C.p, n, nz);
proof {
    assert forall|c: int| 0 <= c < N implies #[trigger] add_col(*A, *B, alpha, beta, M, sort, C.i@, C.x@, values, C.p@[c] as int, C.p@[c + 1] as int, c) by {
        assert(add_col(*A, *B, alpha, beta, M, sort, C9.i@, C9.x@, values, C9.p@[c] as int, cend(C9.p@, N, nz as int, c), c));
    }
}
