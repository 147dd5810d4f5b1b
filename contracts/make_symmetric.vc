@unit make_symmetric
@src utils/sparse_utilities.cpp
@ns sym_lib
@name make_symmetric
@props P15
@uses symm
@rlimit 40
@requires
A.stype != i32::MIN, wf(*A), gwf(A.p@, A.i@, A.n as int), A.m == A.n, 1 <= A.n < i32::MAX / 2, A.nnz == A.p@[A.n as int], 2 * A.nnz < i32::MAX, A.is_pattern ==> A.x@.len() == 0, !A.is_pattern ==> A.x@.len() >= A.nnz,
@ensures
(A.stype > 0 && !lower) || (A.stype < 0 && lower) ==> res == *A,
(A.stype > 0 && lower) || (A.stype < 0 && !lower) ==> res.stype == -A.stype && (exists|qi: Seq<i32>| #[trigger] inverses(qi, idq(A.n as int), A.n as int) && symt_of(A.p@, A.i@, A.n as int, idq(A.n as int), qi, A.stype < 0, A.x@, !A.is_pattern, res.p@, res.i@, res.x@))
    && sym_perm(A.p@, A.i@, A.n as int, idq(A.n as int), A.stype < 0, res.p@, res.i@),
A.stype == 0 ==> res.stype == (if lower { -1int } else { 1int }) && sym_half(A.p@, A.i@, A.n as int, lower, res.p@, res.i@) && (exists|t: CSC, u: CSC| #[trigger] mean_half(*A, t, u, f64_lit_s(4602678819172646912u64), lower, res)),
@entry
proof { idq_ok(A.n as int); assert(A.p@[0] <= A.p@[A.n as int]); }
@after ApAt = _r\d+;
proof { sum_has(*A, At, f64_lit_s(4602678819172646912u64), f64_lit_s(4602678819172646912u64), true, ApAt); }
@after As.stype = .*
proof { assert(mean_half(*A, At, ApAt, f64_lit_s(4602678819172646912u64), lower, As)); mean_sym(*A, At, ApAt, f64_lit_s(4602678819172646912u64), lower, As); }
