@unit scatter
@src utils/sparse_utilities.cpp
@ns sym_lib
@name scatter
@props P15
@uses addm
@requires
0 <= j < A.n, A.n < i32::MAX, A.p@.len() > A.n, 0 <= A.p@[j as int] <= A.p@[j + 1] <= A.i@.len(), old(x)@.len() == 0 || (old(x)@.len() == old(w)@.len() && A.x@.len() >= A.p@[j + 1]),
forall|e: int| A.p@[j as int] <= e < A.p@[j + 1] ==> 0 <= #[trigger] A.i@[e] < old(w)@.len(), forall|v: int| 0 <= v < old(w)@.len() ==> #[trigger] old(w)@[v] <= mark,
0 <= nz, nz + (A.p@[j + 1] - A.p@[j as int]) <= old(C).i@.len(), old(C).i@.len() <= i32::MAX,
@ensures
scattered(w@, old(w)@, mark as int, A.i@, A.p@[j as int] as int, A.p@[j + 1] as int, old(w)@.len() as int, C.i@, nz as int, res as int),
old(x)@.len() == 0 ==> x@.len() == 0,
old(x)@.len() != 0 ==> xscattered(x@, old(x)@, old(w)@, mark as int, A.i@, A.x@, beta, A.p@[j as int] as int, A.p@[j + 1] as int, old(w)@.len() as int),
C.i@.len() == old(C).i@.len(), forall|q: int| 0 <= q < nz ==> #[trigger] C.i@[q] == old(C).i@[q],
C.m == old(C).m, C.n == old(C).n, C.nnz == old(C).nnz, C.stype == old(C).stype, C.is_pattern == old(C).is_pattern, C.pre_alloc == old(C).pre_alloc, C.p@ == old(C).p@, C.x@ == old(C).x@,
@entry
let ghost w0 = w@;
let ghost x0 = x@;
let ghost C0 = *C;
let ghost nz0 = nz as int;
let ghost M = w@.len() as int;
let ghost lo = A.p@[j as int] as int;
let ghost hi = A.p@[j + 1] as int;
proof { scat_init(w@, mark as int, A.i@, lo, M, C.i@, nz0); }
@loop 1
invariant
    lo <= p <= hi, scattered(w@, w0, mark as int, A.i@, lo, p as int, M, C.i@, nz0, nz as int),
    x0.len() == 0 ==> x@.len() == 0, x0.len() != 0 ==> xscattered(x@, x0, w0, mark as int, A.i@, A.x@, beta, lo, p as int, M),
    C.i@.len() == C0.i@.len(), forall|q: int| 0 <= q < nz0 ==> #[trigger] C.i@[q] == C0.i@[q],
    C.m == C0.m, C.n == C0.n, C.nnz == C0.nnz, C.stype == C0.stype, C.is_pattern == C0.is_pattern, C.pre_alloc == C0.pre_alloc, C.p@ == C0.p@, C.x@ == C0.x@,
decreases hi - p,
@head 1
let ghost w1 = w@;
let ghost x1 = x@;
let ghost c1 = C.i@;
let ghost nz1 = nz as int;
@tail 1
proof {
    scat_step(w1, w@, w0, mark as int, A.i@, lo, p as int, M, c1, C.i@, nz0, nz1, nz as int);
    if x0.len() != 0 { xscat_step(x1, x@, x0, w0, mark as int, A.i@, A.x@, beta, lo, p as int, M, w1[A.i@[p as int] as int] >= mark); }
}
