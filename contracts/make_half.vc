@unit make_half
@src utils/sparse_utilities.cpp
@ns sym_lib
@name make_half
@props P15
@uses half
@requires
1 <= An < i32::MAX, ptrs(Ap@, An as int), Ai@.len() >= Ap@[An as int], Ax@.len() == 0 || Ax@.len() >= Ap@[An as int],
@ensures
res.m == An, res.n == An, res.nnz == res.p@[An as int], res.stype == (if lower { -1int } else { 1int }), res.is_pattern == (Ax@.len() == 0), res.i@.len() == res.nnz, res.p@.len() == An + 1,
is_half(Ap@, Ai@, An as int, lower, res.p@, res.i@),
Ax@.len() != 0 ==> res.x@.len() == res.nnz && half_vals(Ap@, Ai@, Ax@, An as int, lower, res.x@, Ap@[An as int] as int),
@entry
let ghost N = An as int;
let ghost E = Ap@[N] as int;
@loop 1
invariant
    0 <= i <= N, Bnz == hc(Ap@, Ai@, N, lower, Ap@[i as int] as int),
decreases N - i,
@head 1
proof { assert(Ap@[i as int] <= Ap@[i + 1]); assert(Ap@[0] <= Ap@[i as int]); }
@loop 1.1
invariant
    0 <= i < N, Ap@[i as int] <= j <= Ap@[i + 1], Bnz == hc(Ap@, Ai@, N, lower, j as int),
decreases Ap@[i + 1] - j,
@head 1.1
proof { half_place(Ap@, Ai@, N, lower, i as int, j as int); }
@loop 2
invariant
    0 <= i <= N, nnz_cnt == hc(Ap@, Ai@, N, lower, Ap@[i as int] as int), B.m == N, B.n == N, B.nnz == Bnz, B.p@.len() == N + 1, B.i@.len() == Bnz, B.is_pattern == (Ax@.len() == 0), B.x@.len() == (if Ax@.len() == 0 { 0int } else { Bnz as int }),
    Bnz == hc(Ap@, Ai@, N, lower, E),
    forall|c: int| 0 <= c <= i ==> #[trigger] B.p@[c] == hc(Ap@, Ai@, N, lower, Ap@[c] as int),
    forall|e: int| 0 <= e < Ap@[i as int] ==> #[trigger] half_at(Ap@, Ai@, N, lower, B.i@, e),
    Ax@.len() != 0 ==> half_vals(Ap@, Ai@, Ax@, N, lower, B.x@, Ap@[i as int] as int),
decreases N - i,
@head 2
proof { assert(Ap@[i as int] <= Ap@[i + 1]); assert(Ap@[0] <= Ap@[i as int]); }
@loop 2.1
invariant
    0 <= i < N, Ap@[i as int] <= j <= Ap@[i + 1], nnz_cnt == hc(Ap@, Ai@, N, lower, j as int), B.m == N, B.n == N, B.nnz == Bnz, B.p@.len() == N + 1, B.i@.len() == Bnz, B.is_pattern == (Ax@.len() == 0), B.x@.len() == (if Ax@.len() == 0 { 0int } else { Bnz as int }),
    Bnz == hc(Ap@, Ai@, N, lower, E),
    forall|c: int| 0 <= c <= i ==> #[trigger] B.p@[c] == hc(Ap@, Ai@, N, lower, Ap@[c] as int),
    forall|e: int| 0 <= e < j ==> #[trigger] half_at(Ap@, Ai@, N, lower, B.i@, e),
    Ax@.len() != 0 ==> half_vals(Ap@, Ai@, Ax@, N, lower, B.x@, j as int),
decreases Ap@[i + 1] - j,
@head 2.1
proof { half_place(Ap@, Ai@, N, lower, i as int, j as int); }
let ghost bi = B.i@;
let ghost bx = B.x@;
let ghost nc = nnz_cnt as int;
@tail 2.1
proof {
    assert forall|e: int| 0 <= e <= j implies #[trigger] half_at(Ap@, Ai@, N, lower, B.i@, e) by { if e < j { assert(half_at(Ap@, Ai@, N, lower, bi, e)); } }
    if Ax@.len() != 0 { assert forall|e: int| 0 <= e <= j implies #[trigger] half_x(Ap@, Ai@, Ax@, N, lower, B.x@, e) by { if e < j { assert(half_x(Ap@, Ai@, Ax@, N, lower, bx, e)); } } }
}
@exit
proof { half_finish(Ap@, Ai@, N, lower, _res.p@, _res.i@); }
