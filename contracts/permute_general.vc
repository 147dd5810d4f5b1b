@unit permute_general
@src utils/sparse_utilities.cpp
@ns sym_lib
@name permute_general
@rlimit 150
@props P16
@uses perm csc
@requires
wf(*A), A.m <= 0x7fff_ffff, A.n < 0x7fff_ffff, A.nnz <= 0x7fff_ffff, A.nnz == A.p@[A.n as int],
forall|t: int| 0 <= t < A.nnz ==> 0 <= #[trigger] A.i@[t] < A.m,
q@.len() > 0 ==> is_perm(q@, A.n as int), pinv@.len() > 0 ==> pinv@.len() >= A.m,
A.x@.len() == 0 || A.x@.len() >= A.nnz,
@ensures
res.m == A.m, res.n == A.n, res.nnz == A.nnz, wf(res), res.p@[res.n as int] == A.nnz,
A.x@.len() == 0 ==> res.x@.len() == 0,
// column k holds, in order, column q[k] of A with the rows renamed
forall|k: int| 0 <= k < A.n ==> pcol(res, *A, pinv@, #[trigger] qat(q@, k), k),
@lib
pub open spec fn qat(q: Seq<i32>, k: int) -> int { if q.len() > 0 { q[k] as int } else { k } }
pub open spec fn rat(pinv: Seq<i32>, r: int) -> int { if pinv.len() > 0 { pinv[r] as int } else { r } }
pub open spec fn pcole(c: CSC, a: CSC, pinv: Seq<i32>, j: int, k: int, end: int) -> bool {
    (forall|e: int| c.p@[k] <= e < end ==> #[trigger] c.i@[e] == rat(pinv, a.i@[a.p@[j] + (e - c.p@[k])] as int))
    && (a.x@.len() > 0 ==> forall|e: int| c.p@[k] <= e < end ==> #[trigger] c.x@[e] == a.x@[a.p@[j] + (e - c.p@[k])])
}
pub open spec fn pcol(c: CSC, a: CSC, pinv: Seq<i32>, j: int, k: int) -> bool {
    c.p@[k + 1] - c.p@[k] == a.p@[j + 1] - a.p@[j] && pcole(c, a, pinv, j, k, c.p@[k + 1] as int)
}
pub open spec fn pcolp(c: CSC, a: CSC, pinv: Seq<i32>, j: int, k: int, end: int) -> bool {
    end - c.p@[k] == a.p@[j + 1] - a.p@[j] && pcole(c, a, pinv, j, k, end)
}
@entry
let ghost nn = A.n as int;
let ghost qs: Seq<i32> = if q@.len() > 0 { q@ } else { Seq::new(A.n as nat, |i: int| i as i32) };
let ghost len = |k: int| (A.p@[k + 1] - A.p@[k]) as int;
proof {
    sum_diff(A.p@, nn);
    sum_eq(len, |k: int| (A.p@[k + 1] - A.p@[k]) as int, nn);
    sum_zero(hitf(qs, 0, len), nn);
    sum_hit_all(qs, nn, len);
}
@loop 1
invariant
    0 <= k <= n, n == nn, m == A.m, C.m == A.m, C.n == A.n, C.nnz == A.nnz, C.p@.len() == nn + 1, C.i@.len() == A.nnz,
    C.x@.len() == (if A.x@.len() == 0 { 0int } else { A.nnz as int }),
    wf(*A), A.nnz == A.p@[nn], A.x@.len() == 0 || A.x@.len() >= A.nnz, nn < 0x7fff_ffff, A.nnz <= 0x7fff_ffff,
    forall|t: int| 0 <= t < A.nnz ==> 0 <= #[trigger] A.i@[t] < A.m,
    q@.len() > 0 ==> qs == q@, q@.len() == 0 ==> forall|i: int| 0 <= i < nn ==> #[trigger] qs[i] == i,
    is_perm(qs, nn),
    pinv@.len() == 0 || pinv@.len() >= A.m,
    forall|j: int| 0 <= j < nn ==> #[trigger] len(j) == A.p@[j + 1] - A.p@[j],
    forall|j: int| 0 <= j < nn ==> 0 <= #[trigger] len(j),
    sum(len, nn) == A.nnz,
    0 <= nz, nz == sum(hitf(qs, k as int, len), nn),
    k > 0 ==> C.p@[0] == 0, k == 0 ==> nz == 0,
    forall|a: int, b: int| 0 <= a <= b < k ==> #[trigger] C.p@[a] <= #[trigger] C.p@[b],
    forall|a: int| 0 <= a < k ==> 0 <= #[trigger] C.p@[a] <= nz,
    forall|a: int| 0 <= a < k - 1 ==> pcol(C, *A, pinv@, #[trigger] qat(q@, a), a),
    k > 0 ==> pcolp(C, *A, pinv@, qat(q@, k - 1), k - 1, nz as int),
decreases n - k,
@head 1
proof {
    let j = qat(q@, k as int);
    assert(j == qs[k as int]);
    sum_hit_step(qs, nn, k as int, len);
    sum_hit_le(qs, nn, k + 1, len);
    assert(len(j) == A.p@[j + 1] - A.p@[j]);
}
let ghost nz0 = nz as int;
let ghost C0 = C;
let ghost jj = qat(q@, k as int);
@loop 1.1
invariant
    jj == j, 0 <= jj < nn, A.p@[jj] <= t <= A.p@[jj + 1], nz == nz0 + (t - A.p@[jj]),
    nz0 + (A.p@[jj + 1] - A.p@[jj]) <= A.nnz,
    C.m == A.m, C.n == A.n, C.nnz == A.nnz, C.p@.len() == nn + 1, C.i@.len() == A.nnz,
    C.x@.len() == (if A.x@.len() == 0 { 0int } else { A.nnz as int }),
    C.p@ == C0.p@.update(k as int, nz0 as i32),
    forall|e: int| 0 <= e < nz0 ==> #[trigger] C.i@[e] == C0.i@[e],
    A.x@.len() > 0 ==> forall|e: int| 0 <= e < nz0 ==> #[trigger] C.x@[e] == C0.x@[e],
    pcole(C, *A, pinv@, jj, k as int, nz as int),
decreases A.p@[jj + 1] - t,
@post 1.1
proof {
    assert forall|a: int| 0 <= a < k implies pcol(C, *A, pinv@, #[trigger] qat(q@, a), a) by {
        if a == k - 1 { assert(pcolp(C0, *A, pinv@, qat(q@, k - 1), k - 1, nz0)); } else { assert(pcol(C0, *A, pinv@, qat(q@, a), a)); assert(C0.p@[a + 1] <= nz0); }
    }
}
@after st(&mut C.p, n, nz);
proof {
    assert forall|a: int| 0 <= a < nn implies pcol(C, *A, pinv@, #[trigger] qat(q@, a), a) by { }
}
