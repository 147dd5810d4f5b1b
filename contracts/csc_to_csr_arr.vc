@unit csc_to_csr_arr
@src utils/sparse_utilities.cpp
@ns sym_lib
@name csc_to_csr
@sig int (int, int, int *, int *, double *, int *&, int *&, double *&)
@props P14
@rlimit 40
@uses transp csc
@requires
0 <= nrow < i32::MAX, 0 <= ncol < i32::MAX, ptrs(Ap@, ncol as int), Ap@[ncol as int] < i32::MAX, Ai@.len() >= Ap@[ncol as int], Ax@.len() >= Ap@[ncol as int],
forall|e: int| 0 <= e < Ap@[ncol as int] ==> 0 <= #[trigger] Ai@[e] < nrow,
@ensures
res == 0, rowptr@.len() == nrow + 1, colind@.len() == Ap@[ncol as int], values@.len() == Ap@[ncol as int],
is_transpose(Ap@, Ai@, ncol as int, rowptr@, colind@, nrow as int),
tr_vals(Ai@, Ax@, Ap@[ncol as int] as int, values@, Ap@[ncol as int] as int),
@entry
let ghost N = ncol as int;
let ghost M = nrow as int;
let ghost E = Ap@[N] as int;
@loop 1
invariant
    0 <= i <= E, rowCnt@.len() == M,
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(Ai@, i as int, v),
decreases E - i,
@head 1
proof { cnt_bounds(Ai@, i as int, Ai@[i as int] as int); }
@loop 2
invariant
    0 <= i <= M, counter == start(Ai@, E, i as int), rowptr@.len() == M + 1,
    forall|v: int| 0 <= v < i ==> #[trigger] rowptr@[v] == start(Ai@, E, v),
decreases M - i,
@head 2
proof { start_any(Ai@, E, i + 1, M); }
@post 2
proof { start_le(Ai@, E, M); }
@loop 3
invariant
    0 <= i <= N, rowptr@.len() == M + 1, colind@.len() == E, values@.len() == E, rowCnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] rowptr@[v] == start(Ai@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(Ai@, Ap@[i as int] as int, v),
    tr_done(Ap@, Ai@, N, colind@, Ap@[i as int] as int), tr_vals(Ai@, Ax@, E, values@, Ap@[i as int] as int),
decreases N - i,
@loop 3.1
invariant
    Ap@[i as int] <= j <= Ap@[i + 1], rowptr@.len() == M + 1, colind@.len() == E, values@.len() == E, rowCnt@.len() == M,
    forall|v: int| 0 <= v <= M ==> #[trigger] rowptr@[v] == start(Ai@, E, v),
    forall|v: int| 0 <= v < M ==> #[trigger] rowCnt@[v] == cnt(Ai@, j as int, v),
    tr_done(Ap@, Ai@, N, colind@, j as int), tr_vals(Ai@, Ax@, E, values@, j as int),
decreases Ap@[i + 1] - j,
@head 3.1
proof { tr_place(Ap@, Ai@, N, M, i as int, j as int); }
@exit
proof { tr_finish(Ap@, Ai@, N, rowptr@, colind@, M); }
