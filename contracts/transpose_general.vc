@unit transpose_general
@src utils/sparse_utilities.cpp
@ns sym_lib
@name transpose_general
@props P14
@rlimit 40
@uses transp csc
@requires
wf(*A), 1 <= A.m < i32::MAX, A.n < i32::MAX, A.nnz == A.p@[A.n as int], A.nnz < i32::MAX,
forall|e: int| 0 <= e < A.p@[A.n as int] ==> 0 <= #[trigger] A.i@[e] < A.m, !A.is_pattern ==> A.x@.len() >= A.nnz,
@ensures
res.m == A.n, res.n == A.m, res.nnz == A.nnz, res.stype == 0, res.is_pattern == A.is_pattern, res.p@.len() == A.m + 1, res.i@.len() == A.nnz, res.x@.len() == (if A.is_pattern { 0int } else { A.nnz as int }),
is_transpose(A.p@, A.i@, A.n as int, res.p@, res.i@, A.m as int),
!A.is_pattern ==> tr_vals(A.i@, A.x@, A.nnz as int, res.x@, A.nnz as int),
@entry
let ghost N = A.n as int;
let ghost M = A.m as int;
let ghost E = A.p@[N] as int;
@loop 1
invariant
    0 <= i <= E, col_cnt@.len() == M,
    forall|v: int| 0 <= v < M ==> #[trigger] col_cnt@[v] == cnt(A.i@, i as int, v),
decreases E - i,
@head 1
proof { cnt_bounds(A.i@, i as int, A.i@[i as int] as int); }
@loop 2
invariant
    1 <= j <= M + 1, AT.stype == 0, AT.m == A.n, AT.n == A.m, AT.nnz == A.nnz, AT.is_pattern == A.is_pattern, AT.p@.len() == M + 1, AT.i@.len() == E, AT.x@.len() == (if A.is_pattern { 0int } else { E }),
    forall|v: int| 0 <= v < j ==> #[trigger] AT.p@[v] == start(A.i@, E, v),
decreases M + 1 - j,
@head 2
proof { start_any(A.i@, E, j as int, M); start_any(A.i@, E, j - 1, M); }
@loop 3
invariant
    0 <= k <= N, AT.stype == 0, AT.m == A.n, AT.n == A.m, AT.nnz == A.nnz, AT.is_pattern == A.is_pattern, AT.p@.len() == M + 1, AT.i@.len() == E, AT.x@.len() == (if A.is_pattern { 0int } else { E }), col_cnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] AT.p@[v] == start(A.i@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] col_cnt@[v] == cnt(A.i@, A.p@[k as int] as int, v),
    tr_done(A.p@, A.i@, N, AT.i@, A.p@[k as int] as int), !A.is_pattern ==> tr_vals(A.i@, A.x@, E, AT.x@, A.p@[k as int] as int),
decreases N - k,
@loop 3.1
invariant
    A.p@[k as int] <= i <= A.p@[k + 1], AT.stype == 0, AT.m == A.n, AT.n == A.m, AT.nnz == A.nnz, AT.is_pattern == A.is_pattern, AT.p@.len() == M + 1, AT.i@.len() == E, AT.x@.len() == (if A.is_pattern { 0int } else { E }), col_cnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] AT.p@[v] == start(A.i@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] col_cnt@[v] == cnt(A.i@, i as int, v),
    tr_done(A.p@, A.i@, N, AT.i@, i as int), !A.is_pattern ==> tr_vals(A.i@, A.x@, E, AT.x@, i as int),
decreases A.p@[k + 1] - i,
@head 3.1
proof { tr_place(A.p@, A.i@, N, M, k as int, i as int); }
@exit
proof { tr_finish(A.p@, A.i@, N, _res.p@, _res.i@, M); }
