@unit sparse2dense
@src utils/sparse_utilities.cpp
@ns sym_lib
@name sparse2dense
@props P22
@uses builders
@rlimit 40
@requires
A.n < i32::MAX, A.m < i32::MAX, A.stype == 0 || A.stype == 1 || A.stype == -1, A.stype != 0 ==> A.n == A.m, A.n * A.m < M64(),
ptrs(A.p@, A.n as int), A.i@.len() >= A.p@[A.n as int], A.x@.len() >= A.p@[A.n as int], forall|e: int| 0 <= e < A.p@[A.n as int] ==> 0 <= #[trigger] A.i@[e] < A.m,
old(D)@.len() >= A.n * A.m, once(*A),
@ensures
D@.len() == old(D)@.len(),
// every stored entry is at its position (and mirrored), every other position is zero, nothing beyond n * m is touched
forall|e: int, q: int| 0 <= e < A.p@[A.n as int] && #[trigger] hit(*A, e, q) ==> D@[q] == A.x@[e],
forall|q: int| 0 <= q < A.n * A.m && !covered(*A, A.p@[A.n as int] as int, q) ==> #[trigger] D@[q] == f64_zero_s(),
forall|q: int| A.n * A.m <= q < D@.len() ==> #[trigger] D@[q] == old(D)@[q],
@entry
let ghost N = A.n as int;
let ghost M = A.m as int;
let ghost p = A.p@;
@loop 1
invariant
    0 <= i <= N, D@.len() == old(D)@.len(),
    forall|e: int, q: int| 0 <= e < p[i as int] && #[trigger] hit(*A, e, q) ==> D@[q] == A.x@[e],
    forall|q: int| 0 <= q < N * M && !covered(*A, p[i as int] as int, q) ==> #[trigger] D@[q] == f64_zero_s(),
    forall|q: int| N * M <= q < D@.len() ==> #[trigger] D@[q] == old(D)@[q],
decreases N - i,
@loop 1.1
invariant
    p[i as int] <= j <= p[i + 1], D@.len() == old(D)@.len(),
    forall|e: int, q: int| 0 <= e < j && #[trigger] hit(*A, e, q) ==> D@[q] == A.x@[e],
    forall|q: int| 0 <= q < N * M && !covered(*A, j as int, q) ==> #[trigger] D@[q] == f64_zero_s(),
    forall|q: int| N * M <= q < D@.len() ==> #[trigger] D@[q] == old(D)@[q],
decreases p[i + 1] - j,
@head 1.1
let ghost D0 = D@;
let ghost row = A.i@[j as int] as int;
proof {
    assert(p[i + 1] <= p[N]);
    src_is(p, N, i as int, j as int);
    dpos_in(N, M, i as int, row);
    assert(i * M <= dpos(M, i as int, row) && 0 <= i * M) by (nonlinear_arith) requires 0 <= i, 0 <= M, 0 <= row, dpos(M, i as int, row) == i * M + row;
    if A.stype != 0 { dpos_in(N, N, row, i as int); assert(0 <= row * N <= dpos(N, row, i as int)) by (nonlinear_arith) requires 0 <= i, 0 <= N, 0 <= row, dpos(N, row, i as int) == row * N + i; }
    assert(hit(*A, j as int, dpos(M, i as int, row)));
    if A.stype != 0 { assert(hit(*A, j as int, dpos(N, row, i as int))); }
}
@tail 1.1
proof {
    let a = dpos(M, i as int, row);
    let b = dpos(N, row, i as int);
    assert(D@ =~= (if A.stype == 0 { D0.update(a, A.x@[j as int]) } else { D0.update(a, A.x@[j as int]).update(b, A.x@[j as int]) }));
    assert forall|e: int, q: int| 0 <= e < j + 1 && #[trigger] hit(*A, e, q) implies D@[q] == A.x@[e] by {
        if e < j { assert(!hit(*A, j as int, q)); assert(q != a); }
    }
    assert forall|q: int| 0 <= q < N * M && !covered(*A, j + 1, q) implies #[trigger] D@[q] == f64_zero_s() by {
        assert(!hit(*A, j as int, q)); if covered(*A, j as int, q) { let e = choose|e: int| 0 <= e < j && hit(*A, e, q); assert(hit(*A, e, q)); }
    }
}
