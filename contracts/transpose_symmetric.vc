@unit transpose_symmetric
@src utils/sparse_utilities.cpp
@ns sym_lib
@name transpose_symmetric
@props P15
@uses symt
@opts isolate
@rlimit 60
@requires
A.stype != 0, A.stype != i32::MIN, wf(*A), gwf(A.p@, A.i@, A.n as int), A.m == A.n, 1 <= A.n < i32::MAX / 2, A.nnz == A.p@[A.n as int], A.nnz < i32::MAX, !A.is_pattern ==> A.x@.len() >= A.nnz, Perm@.len() > 0 ==> Perm@.len() >= A.n,
@ensures
is_perm(perm_or_id(Perm@, A.n as int), A.n as int) ==> res.m == A.n && res.n == A.n && res.nnz == A.nnz && res.stype == -A.stype && !res.is_pattern && res.i@.len() == A.nnz
    && (exists|qi: Seq<i32>| #[trigger] inverses(qi, perm_or_id(Perm@, A.n as int), A.n as int) && symt_of(A.p@, A.i@, A.n as int, perm_or_id(Perm@, A.n as int), qi, A.stype < 0, A.x@, !A.is_pattern, res.p@, res.i@, res.x@))
    && sym_perm(A.p@, A.i@, A.n as int, perm_or_id(Perm@, A.n as int), A.stype < 0, res.p@, res.i@),
@entry
let ghost N = A.n as int;
let ghost E = A.p@[N] as int;
let ghost P = A.p@;
let ghost I = A.i@;
let ghost lower = A.stype < 0;
let ghost qs = perm_or_id(Perm@, N);
let ghost mut qi = idq(N);
let ghost mut S = tcols(P, I, qs, qi, lower, N);
let ghost mut L = 0int;
let ghost mut fin = false;
proof { idq_ok(N); assert(P[0] <= P[N]); }
@loop 1
invariant
    0 <= i <= N, n == N, _t1 == N, Iwork@.len() == 2 * N, N < i32::MAX / 2,
    forall|v: int| 0 <= v < i ==> #[trigger] Iwork@[N + v] == -1,
decreases N - i,
@loop 2
invariant
    !fin, 0 <= k <= N, n == N, N == A.n, _t1 == N, Iwork@.len() == 2 * N, N < i32::MAX / 2, qs == Perm@, qs.len() >= N, qs == perm_or_id(Perm@, N),
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == -1 || (0 <= Iwork@[N + v] < k && qs[Iwork@[N + v] as int] == v),
    forall|l: int| 0 <= l < k ==> 0 <= #[trigger] qs[l] < N && Iwork@[N + qs[l]] == l,
decreases N - k,
@head 2
proof { let z = qs[k as int] as int; if 0 <= z < N { assert(Iwork@[N + z] == -1 || (0 <= Iwork@[N + z] < k && qs[Iwork@[N + z] as int] == z)); } }
@post 2
proof {
    assert(is_perm(qs, N)) by { assert forall|a: int, b: int| 0 <= a < N && 0 <= b < N && a != b implies #[trigger] qs[a] != #[trigger] qs[b] by { assert(Iwork@[N + qs[a]] == a); assert(Iwork@[N + qs[b]] == b); } }
    qi = Seq::new(N as nat, |v: int| Iwork@[N + v]);
    assert forall|k: int| 0 <= k < N implies qi[#[trigger] qs[k] as int] == k by { assert(Iwork@[N + qs[k]] == k); }
    inv_both(qi, qs, N);
}
@pre 3
proof { fin = true; assert(tctx(P, I, N, qs, qi)); S = tcols(P, I, qs, qi, lower, N); L = S.c.len() as int; tl_all(P, I, N, qs, qi, lower); }
@loop 3
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    0 <= i <= N,
    forall|v: int| 0 <= v < i ==> #[trigger] Iwork@[v] == 0,
decreases N - i,
@loop 4
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper != 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
decreases N - j,
@head 4
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 4.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper != 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    jold == qs[j as int],
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
decreases pend - p,
@head 4.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(Iwork@[N + z] == qi[z]); }
@loop 5
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper == 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
decreases N - j,
@head 5
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 5.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper == 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    jold == qs[j as int],
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
decreases pend - p,
@head 5.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(Iwork@[N + z] == qi[z]); }
@loop 6
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper != 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
decreases N - j,
@head 6
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 6.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper != 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
decreases pend - p,
@head 6.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(qi[z] == z && qs[j as int] == j); }
@loop 7
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper == 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
decreases N - j,
@head 7
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 7.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper == 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
decreases pend - p,
@head 7.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(qi[z] == z && qs[j as int] == j); }
@loop 10
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper != 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tcols(P, I, qs, qi, lower, j as int).c.len() as int ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tcols(P, I, qs, qi, lower, j as int).c.len() as int),
decreases N - j,
@head 10
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 10.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper != 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    jold == qs[j as int],
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tln(P, I, qs, qi, lower, j as int, p as int) ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tln(P, I, qs, qi, lower, j as int, p as int)),
decreases pend - p,
@head 10.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
let ghost fi = F.i@;
let ghost fx = F.x@;
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(Iwork@[N + z] == qi[z]); }
@tail 10.1
proof {
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_at(S, F.i@, k) by { if k < l { assert(full_at(S, fi, k)); } }
    if is_np != 0 { assert forall|k: int| 0 <= k < l1 implies #[trigger] full_xat(S, A.x@, F.x@, k) by { if k < l { assert(full_xat(S, A.x@, fx, k)); } } }
}
@loop 11
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper == 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tcols(P, I, qs, qi, lower, j as int).c.len() as int ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tcols(P, I, qs, qi, lower, j as int).c.len() as int),
decreases N - j,
@head 11
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 11.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute != 0, upper == 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    jold == qs[j as int],
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tln(P, I, qs, qi, lower, j as int, p as int) ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tln(P, I, qs, qi, lower, j as int, p as int)),
decreases pend - p,
@head 11.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
let ghost fi = F.i@;
let ghost fx = F.x@;
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(Iwork@[N + z] == qi[z]); }
@tail 11.1
proof {
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_at(S, F.i@, k) by { if k < l { assert(full_at(S, fi, k)); } }
    if is_np != 0 { assert forall|k: int| 0 <= k < l1 implies #[trigger] full_xat(S, A.x@, F.x@, k) by { if k < l { assert(full_xat(S, A.x@, fx, k)); } } }
}
@loop 12
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper != 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tcols(P, I, qs, qi, lower, j as int).c.len() as int ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tcols(P, I, qs, qi, lower, j as int).c.len() as int),
decreases N - j,
@head 12
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 12.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper != 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tln(P, I, qs, qi, lower, j as int, p as int) ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tln(P, I, qs, qi, lower, j as int, p as int)),
decreases pend - p,
@head 12.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
let ghost fi = F.i@;
let ghost fx = F.x@;
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(qi[z] == z && qs[j as int] == j); }
@tail 12.1
proof {
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_at(S, F.i@, k) by { if k < l { assert(full_at(S, fi, k)); } }
    if is_np != 0 { assert forall|k: int| 0 <= k < l1 implies #[trigger] full_xat(S, A.x@, F.x@, k) by { if k < l { assert(full_xat(S, A.x@, fx, k)); } } }
}
@loop 13
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper == 0,
    0 <= j <= N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tcols(P, I, qs, qi, lower, j as int).c.len() as int, v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tcols(P, I, qs, qi, lower, j as int).c.len() as int ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tcols(P, I, qs, qi, lower, j as int).c.len() as int),
decreases N - j,
@head 13
proof { tl_next(P, I, N, qs, qi, lower, j as int); assert(qs[j as int] as int == qs[j as int]); }
@loop 13.1
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    permute == 0, upper == 0,
    0 <= j < N, P[qs[j as int] as int] <= p <= P[qs[j as int] + 1], 0 <= p <= E, pend == P[qs[j as int] + 1], 0 <= qs[j as int] < N,
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == start(S.c, L, v) + cnt(S.c, tln(P, I, qs, qi, lower, j as int, p as int), v),
    forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|k: int| 0 <= k < tln(P, I, qs, qi, lower, j as int, p as int) ==> #[trigger] full_at(S, F.i@, k),
    is_np != 0 ==> full_vals(S, A.x@, F.x@, tln(P, I, qs, qi, lower, j as int, p as int)),
decreases pend - p,
@head 13.1
let ghost l = tln(P, I, qs, qi, lower, j as int, p as int);
let ghost l1 = tln(P, I, qs, qi, lower, j as int, p + 1);
let ghost fi = F.i@;
let ghost fx = F.x@;
proof { tl_at(P, I, N, qs, qi, lower, j as int, p as int); if l < l1 { full_place(S, N, l); assert(0 <= S.c[l] < N); } let z = I[p as int] as int; assert(qi[z] == z && qs[j as int] == j); }
@tail 13.1
proof {
    assert forall|k: int| 0 <= k < l1 implies #[trigger] full_at(S, F.i@, k) by { if k < l { assert(full_at(S, fi, k)); } }
    if is_np != 0 { assert forall|k: int| 0 <= k < l1 implies #[trigger] full_xat(S, A.x@, F.x@, k) by { if k < l { assert(full_xat(S, A.x@, fx, k)); } } }
}
@loop 8
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    0 <= i <= N, p == start(S.c, L, i as int),
    forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[v] == cnt(S.c, L, v),
    forall|v: int| 0 <= v < i ==> #[trigger] F.p@[v] == start(S.c, L, v),
decreases N - i,
@head 8
proof { start_any(S.c, L, i as int, N); start_any(S.c, L, i + 1, N); }
@post 8
proof { start_le(S.c, L, N); }
@loop 9
invariant
    fin, N == A.n, n == N, N == A.m, P == A.p@, I == A.i@, E == P[N], A.nnz == E, E < i32::MAX, lower == (A.stype < 0), (upper != 0) == !lower, tctx(P, I, N, qs, qi), S == tcols(P, I, qs, qi, lower, N), L == S.c.len(), S.r.len() == L, S.e.len() == L, 0 <= L <= E,
    forall|k: int| 0 <= k < L ==> 0 <= #[trigger] S.c[k] < N, A.stype == stype, stype != 0, stype != i32::MIN,
    (is_np != 0) == !A.is_pattern, is_np != 0 ==> A.x@.len() >= E, F.m == N, F.n == N, F.nnz == E, F.p@.len() == N + 1, F.i@.len() == E, F.x@.len() == E, !F.is_pattern,
    (permute != 0) == (Perm@.len() > 0), permute != 0 ==> qs == Perm@ && qs.len() >= N && Iwork@.len() == 2 * N && _t1 == N && (forall|v: int| 0 <= v < N ==> #[trigger] Iwork@[N + v] == qi[v]),
    permute == 0 ==> Iwork@.len() == N && (forall|k: int| 0 <= k < N ==> #[trigger] qs[k] == k) && (forall|k: int| 0 <= k < N ==> #[trigger] qi[k] == k),
    0 <= i <= N, p == L, forall|v: int| 0 <= v <= N ==> #[trigger] F.p@[v] == start(S.c, L, v),
    forall|v: int| 0 <= v < i ==> #[trigger] Iwork@[v] == start(S.c, L, v),
decreases N - i,
@exit
proof { if fin { symt_finish(P, I, N, qs, qi, lower, _res.p@, _res.i@); assert(inverses(qi, qs, N)); } }
