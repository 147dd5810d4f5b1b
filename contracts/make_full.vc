@unit make_full
@src utils/sparse_utilities.cpp
@ns sym_lib
@name make_full
@props P15
@uses full
@opts isolate
@rlimit 40
@requires
A.stype != 0, wf(*A), gwf(A.p@, A.i@, A.n as int), A.m == A.n, 1 <= A.n < i32::MAX, A.nnz == A.p@[A.n as int], 2 * A.nnz < i32::MAX, A.x@.len() >= A.nnz,
@ensures
res.m == A.n, res.n == A.n, res.nnz == res.p@[A.n as int], res.i@.len() == 2 * A.nnz, !res.is_pattern,
is_full(A.p@, A.i@, A.n as int, res.p@, res.i@),
full_vals(xpand(A.p@, A.i@, A.n as int, A.nnz as int), A.x@, res.x@, xlen(A.p@, A.i@, A.n as int, A.nnz as int)),
sym_closure(A.p@, A.i@, A.n as int, res.p@, res.i@),
@entry
let ghost N = A.n as int;
let ghost E = A.p@[N] as int;
let ghost P = A.p@;
let ghost I = A.i@;
let ghost s = xpand(P, I, N, E);
let ghost L = xlen(P, I, N, E);
proof { assert(P[0] <= P[N]); xp_len(P, I, N, E); xp_rng(P, I, N, E); }
@loop 1
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i <= N, ind@.len() == N,
    forall|v: int| 0 <= v < N ==> #[trigger] ind@[v] == cnt(s.c, xlen(P, I, N, P[i as int] as int), v),
decreases N - i,
@pre 1
proof { assert(xlen(P, I, N, 0) == 0); }
@head 1
proof { assert(P[i as int] <= P[i + 1]); assert(P[0] <= P[i as int]); assert(P[i + 1] <= P[N]); }
@loop 1.1
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i < N, ind@.len() == N, 0 <= P[i as int] <= p <= P[i + 1] <= E,
    forall|v: int| 0 <= v < N ==> #[trigger] ind@[v] == cnt(s.c, xlen(P, I, N, p as int), v),
decreases P[i + 1] - p,
@head 1.1
proof {
    assert(in_col(P, i as int, p as int)); xp_at(P, I, N, i as int, p as int); let l = xlen(P, I, N, p as int);
    full_place(s, N, l); if I[p as int] != i { full_place(s, N, l + 1); }
}
@loop 2
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i <= N, ind@.len() == N, Afull.m == N, Afull.n == N, Afull.p@.len() == N + 1, Afull.i@.len() == 2 * E, Afull.x@.len() == 2 * E, !Afull.is_pattern,
    forall|v: int| 0 <= v < N ==> #[trigger] ind@[v] == cnt(s.c, L, v),
    forall|v: int| 0 <= v <= i ==> #[trigger] Afull.p@[v] == start(s.c, L, v),
decreases N - i,
@head 2
proof { start_any(s.c, L, i as int, N); start_any(s.c, L, i + 1, N); }
@loop 3
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i <= N, ind@.len() == N,
    forall|v: int| 0 <= v < i ==> #[trigger] ind@[v] == 0,
decreases N - i,
@loop 4
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i <= N, ind@.len() == N, Afull.m == N, Afull.n == N, Afull.p@.len() == N + 1, Afull.i@.len() == 2 * E, Afull.x@.len() == 2 * E, !Afull.is_pattern,
    forall|v: int| 0 <= v < N ==> #[trigger] ind@[v] == cnt(s.c, xlen(P, I, N, P[i as int] as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] Afull.p@[v] == start(s.c, L, v),
    forall|k: int| 0 <= k < xlen(P, I, N, P[i as int] as int) ==> #[trigger] full_at(s, Afull.i@, k),
    full_vals(s, A.x@, Afull.x@, xlen(P, I, N, P[i as int] as int)),
decreases N - i,
@head 4
proof { assert(P[i as int] <= P[i + 1]); assert(P[0] <= P[i as int]); assert(P[i + 1] <= P[N]); }
@loop 4.1
invariant
    N == A.n, P == A.p@, I == A.i@, E == P[N], s == xpand(P, I, N, E), L == xlen(P, I, N, E), wf(*A), gwf(P, I, N), 1 <= N < i32::MAX, A.nnz == E, 2 * E < i32::MAX, A.x@.len() >= E, s.c.len() == L, s.r.len() == L, s.e.len() == L, L <= 2 * E, forall|k: int| 0 <= k < L ==> 0 <= #[trigger] s.c[k] < N,
    0 <= i < N, ind@.len() == N, 0 <= P[i as int] <= p <= P[i + 1] <= E, Afull.m == N, Afull.n == N, Afull.p@.len() == N + 1, Afull.i@.len() == 2 * E, Afull.x@.len() == 2 * E, !Afull.is_pattern,
    forall|v: int| 0 <= v < N ==> #[trigger] ind@[v] == cnt(s.c, xlen(P, I, N, p as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] Afull.p@[v] == start(s.c, L, v),
    forall|k: int| 0 <= k < xlen(P, I, N, p as int) ==> #[trigger] full_at(s, Afull.i@, k),
    full_vals(s, A.x@, Afull.x@, xlen(P, I, N, p as int)),
decreases P[i + 1] - p,
@head 4.1
let ghost l = xlen(P, I, N, p as int);
let ghost l1 = xlen(P, I, N, p + 1);
let ghost fi = Afull.i@;
let ghost fx = Afull.x@;
proof {
    assert(in_col(P, i as int, p as int)); xp_at(P, I, N, i as int, p as int);
    full_place(s, N, l); if I[p as int] != i { full_place(s, N, l + 1); }
    assert(slot(s.c, L, l) == Afull.p@[i as int] + ind@[i as int]);
    if I[p as int] != i { assert(slot(s.c, L, l + 1) == Afull.p@[I[p as int] as int] + ind@[I[p as int] as int]); }
}
@tail 4.1
proof {
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_at(s, Afull.i@, k) by { if k < l { assert(full_at(s, fi, k)); } }
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_xat(s, A.x@, Afull.x@, k) by { if k < l { assert(full_xat(s, A.x@, fx, k)); } }
}
@exit
proof { start_le(s.c, L, N); full_finish(P, I, N, _res.p@, _res.i@); full_sym(P, I, N, _res.p@, _res.i@); }
