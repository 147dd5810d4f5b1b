@unit coarsen_k_times
@src utils/sparse_utilities.cpp
@ns sym_lib
@name coarsen_k_times
@props P20
@uses coarsen
@requires
1 <= n, k >= 1, n + k <= i32::MAX, gwf(Ap@, Ai@, n as int), nnz >= Ap@[n as int],
@ensures
res.n == blocks(n as int, k as int), res.m == res.n, res.stype == stype, res.p@.len() == res.n + 1, res.p@[0] == 0, res.nnz == res.p@[res.n as int], res.nnz <= res.i@.len(),
forall|c: int| 0 <= c < res.n ==> #[trigger] kcol(Ap@, Ai@, n as int, k as int, res.p@, res.i@, c),
forall|q: int| 0 <= q < res.nnz ==> 0 <= #[trigger] res.i@[q] < res.n,
@entry
let ghost N = n as int;
let ghost K = k as int;
proof { blocks_at(N, K, 0); blocks_at(N, K, 1); assert(n / k >= 0) by (nonlinear_arith) requires n >= 0, k >= 1; }
@loop 1
invariant
    N == n, K == k, 1 <= n, k >= 1, n + k <= i32::MAX, gwf(Ap@, Ai@, N), nnz >= Ap@[N], new_n == blocks(N, K), new_n >= 1,
    c_mat.n == new_n, c_mat.m == new_n, c_mat.stype == stype, c_mat.p@.len() == new_n + 1, c_mat.i@.len() == nnz, c_mat.p@[0] == 0,
    1 <= cur_col <= new_n + 1, j == (cur_col - 1) * k, 0 <= j, c_mat.p@[cur_col - 1] == cur_nnz, 0 <= cur_nnz <= Ap@[least(j as int, N)],
    is_exist@.len() == N, forall|x: int| 0 <= x < N ==> !#[trigger] is_exist@[x], faled_vals@.len() == 0,
    forall|a: int| 0 <= a < cur_col ==> 0 <= #[trigger] c_mat.p@[a] <= cur_nnz,
    forall|c: int| 0 <= c < cur_col - 1 ==> #[trigger] kcol(Ap@, Ai@, N, K, c_mat.p@, c_mat.i@, c),
    forall|q: int| 0 <= q < cur_nnz ==> 0 <= #[trigger] c_mat.i@[q] < new_n,
decreases N - least(j as int, N),
@head 1
let ghost mut fv: Seq<i32> = Seq::empty(); let ghost bp0 = c_mat.p@; let ghost bi0 = c_mat.i@; let ghost s = cur_nnz as int; let ghost c0 = cur_col - 1; let ghost a0 = Ap@[j as int] as int;
proof { blocks_at(N, K, c0); assert((c0 + 1) * k == j + k) by (nonlinear_arith) requires j == c0 * k; kst_start(Ai@, K, N, a0, c_mat.i@, s, is_exist@, faled_vals@); assert(Ap@[0] <= Ap@[j as int] && Ap@[j as int] <= Ap@[N]); }
@loop 1.1
invariant
    N == n, K == k, 1 <= n, k >= 1, gwf(Ap@, Ai@, N), nnz >= Ap@[N], new_n == blocks(N, K), c_mat.p@ == bp0, c_mat.n == new_n, c_mat.m == new_n, c_mat.stype == stype,
    0 <= j <= l <= bnd, bnd <= n, j < n, c_mat.i@.len() == nnz, a0 == Ap@[j as int], 0 <= s <= a0, bi0.len() == nnz,
    kst(Ai@, K, N, a0, Ap@[l as int] as int, c_mat.i@, s, cur_nnz as int, is_exist@, faled_vals@),
    forall|q: int| 0 <= q < s ==> #[trigger] c_mat.i@[q] == bi0[q],
    forall|q: int| 0 <= q < cur_nnz ==> 0 <= #[trigger] c_mat.i@[q] < new_n,
decreases bnd - l,
@head 1.1
proof { assert(Ap@[0] <= Ap@[j as int] && Ap@[j as int] <= Ap@[l as int] && Ap@[l as int] <= Ap@[l + 1] && Ap@[l + 1] <= Ap@[N]); }
@loop 1.1.1
invariant
    N == n, K == k, 1 <= n, k >= 1, gwf(Ap@, Ai@, N), nnz >= Ap@[N], new_n == blocks(N, K), c_mat.p@ == bp0, c_mat.n == new_n, c_mat.m == new_n, c_mat.stype == stype,
    0 <= j <= l < bnd, bnd <= n, j < n, c_mat.i@.len() == nnz, 0 <= s <= a0 <= Ap@[l as int], bi0.len() == nnz, 0 <= Ap@[l as int] <= m <= Ap@[l + 1], Ap@[l + 1] <= Ap@[N],
    kst(Ai@, K, N, a0, m as int, c_mat.i@, s, cur_nnz as int, is_exist@, faled_vals@),
    forall|q: int| 0 <= q < s ==> #[trigger] c_mat.i@[q] == bi0[q],
    forall|q: int| 0 <= q < cur_nnz ==> 0 <= #[trigger] c_mat.i@[q] < new_n,
decreases Ap@[l + 1] - m,
@head 1.1.1
proof { let v = Ai@[m as int] as int; assert(0 <= v < N); kdiv(v, K, N); assert(N <= i32::MAX);
  if is_exist@[v / K] { kst_old(Ai@, K, N, a0, m as int, c_mat.i@, s, cur_nnz as int, is_exist@, faled_vals@); } else { kst_new(Ai@, K, N, a0, m as int, c_mat.i@, s, cur_nnz as int, is_exist@, faled_vals@); } }
@before st(&mut c_mat.p, cur_col, cur_nnz);
let ghost ex0 = is_exist@;
proof { fv = faled_vals@; }
proof { assert(bnd == least(c0 * K + K, N)); assert(kst(Ai@, K, N, a0, Ap@[bnd as int] as int, c_mat.i@, s, cur_nnz as int, is_exist@, faled_vals@)); assert(Ap@[bnd as int] <= Ap@[N]); assert(Ap@[j as int] <= Ap@[bnd as int]);
  assert forall|x: int| 0 <= x < N implies (#[trigger] lists(c_mat.i@, s, cur_nnz as int, x) <==> hask(Ai@, K, a0, Ap@[bnd as int] as int, x)) by { assert(is_exist@[x] <==> hask(Ai@, K, a0, Ap@[bnd as int] as int, x)); assert(is_exist@[x] <==> lists(c_mat.i@, s, cur_nnz as int, x)); }
  assert forall|x: int| 0 <= x < is_exist@.len() && #[trigger] is_exist@[x] implies lists(faled_vals@, 0, faled_vals@.len() as int, x) by { let q = choose|q: int| s <= q < cur_nnz && #[trigger] c_mat.i@[q] == x; assert(faled_vals@[q - s] == x); } }
@loop 1.2
invariant
    N == n, faled_vals@ == fv, 0 <= _r1 <= fv.len(), is_exist@.len() == N, forall|q: int| 0 <= q < fv.len() ==> 0 <= #[trigger] fv[q] < N,
    undone(is_exist@, fv, _r1 as int),
decreases fv.len() - _r1,
@head 1.2
let ghost e1 = is_exist@;
@end 1.2
proof { assert forall|x: int| 0 <= x < is_exist@.len() && #[trigger] is_exist@[x] implies lists(fv, _r1 as int, fv.len() as int, x) by { assert(e1[x]); let q = choose|q: int| _r1 - 1 <= q < fv.len() && #[trigger] fv[q] == x; assert(fv[q] == x); } }
@tail 1
proof {
  assert forall|x: int| 0 <= x < N implies !#[trigger] is_exist@[x] by { if is_exist@[x] { assert(lists(fv, fv.len() as int, fv.len() as int, x)); } }
  assert(kcol(Ap@, Ai@, N, K, c_mat.p@, c_mat.i@, c0));
  assert forall|c: int| 0 <= c < cur_col - 1 implies #[trigger] kcol(Ap@, Ai@, N, K, c_mat.p@, c_mat.i@, c) by { if c < c0 { assert(bp0[c + 1] <= s); kcol_keep(Ap@, Ai@, N, K, bp0, bi0, c_mat.p@, c_mat.i@, c); } }
  assert(j + k == c0 * K + K);
}
@exit
proof { blocks_at(N, K, cur_col - 1); blocks_at(N, K, cur_col - 2); }
