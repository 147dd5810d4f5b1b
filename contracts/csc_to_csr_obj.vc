@unit csc_to_csr_obj
@src utils/sparse_utilities.cpp
@ns sym_lib
@name csc_to_csr
@sig CSR *(CSC *)
@props P14
@rlimit 40
@uses transp csc
@requires
wf(*A), 1 <= A.m < i32::MAX, A.n < i32::MAX, A.nnz == A.p@[A.n as int], A.nnz < i32::MAX,
forall|e: int| 0 <= e < A.p@[A.n as int] ==> 0 <= #[trigger] A.i@[e] < A.m, !A.is_pattern ==> A.x@.len() >= A.nnz,
@ensures
res.m == A.m, res.n == A.n, res.nnz == A.nnz, res.is_pattern == A.is_pattern,
is_transpose(A.p@, A.i@, A.n as int, res.p@, res.i@, A.m as int),
!A.is_pattern ==> tr_vals(A.i@, A.x@, A.nnz as int, res.x@, A.nnz as int),
@entry
let ghost N = A.n as int;
let ghost M = A.m as int;
let ghost E = A.p@[N] as int;
@loop 1
invariant
    0 <= i <= E, rowCnt@.len() == M,
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(A.i@, i as int, v),
decreases E - i,
@head 1
proof { cnt_bounds(A.i@, i as int, A.i@[i as int] as int); }
@loop 2
invariant
    0 <= i <= M, counter == start(A.i@, E, i as int), B.m == A.m, B.n == A.n, B.nnz == A.nnz, B.is_pattern == A.is_pattern, B.p@.len() == M + 1, B.i@.len() == E, B.x@.len() == (if A.is_pattern { 0int } else { E }),
    forall|v: int| 0 <= v < i ==> #[trigger] B.p@[v] == start(A.i@, E, v),
decreases M - i,
@head 2
proof { start_any(A.i@, E, i + 1, M); }
@post 2
proof { start_le(A.i@, E, M); }
@loop 3
invariant
    0 <= i <= N, B.m == A.m, B.n == A.n, B.nnz == A.nnz, B.is_pattern == A.is_pattern, B.p@.len() == M + 1, B.i@.len() == E, B.x@.len() == (if A.is_pattern { 0int } else { E }), rowCnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] B.p@[v] == start(A.i@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(A.i@, A.p@[i as int] as int, v),
    tr_done(A.p@, A.i@, N, B.i@, A.p@[i as int] as int), !A.is_pattern ==> tr_vals(A.i@, A.x@, E, B.x@, A.p@[i as int] as int),
decreases N - i,
@loop 3.1
invariant
    A.p@[i as int] <= j <= A.p@[i + 1], B.m == A.m, B.n == A.n, B.nnz == A.nnz, B.is_pattern == A.is_pattern, B.p@.len() == M + 1, B.i@.len() == E, B.x@.len() == (if A.is_pattern { 0int } else { E }), rowCnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] B.p@[v] == start(A.i@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(A.i@, j as int, v),
    tr_done(A.p@, A.i@, N, B.i@, j as int), !A.is_pattern ==> tr_vals(A.i@, A.x@, E, B.x@, j as int),
decreases A.p@[i + 1] - j,
@head 3.1
proof { tr_place(A.p@, A.i@, N, M, i as int, j as int); }
@exit
proof { tr_finish(A.p@, A.i@, N, _res.p@, _res.i@, M); }
