@unit partialSparsification
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name partialSparsification
@props P18
@uses sparse
@opts complex isolate
@requires
n >= 1, n < i32::MAX, lowdag(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), nnz == DAG_ptr_not_prune@[n as int], nnz < i32::MAX - 2, old(DAG_ptr)@.len() == 0, old(DAG_set)@.len() == 0,
@ensures
sparsified(DAG_ptr_not_prune@, DAG_set_not_prune@, DAG_ptr@, DAG_set@, n as int),
@entry
let ghost P = DAG_ptr_not_prune@; let ghost I = DAG_set_not_prune@; let ghost N = n as int;
let ghost mut qp: Seq<i32> = P; let ghost mut qs: Seq<i32> = I;
proof { assert(P[0] == 0); }
let ghost mut cp: Seq<i32> = I; let ghost mut nc: Seq<i32> = I;
@before let mut end_col: .*
proof { let q = cdiv(n as int, bins as int); assert(bins == 1 && tid == 0); assert(q == n) by { assert(n as int / 1 == n) by (nonlinear_arith); } assert(q * (tid + 1) == n) by (nonlinear_arith) requires q == n, tid == 0; }
@loop 1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, start_col == 0, end_col == n, limit == n, 0 <= col <= n, clq_parts(P, I, clique_ptr_per_thread@), clique_ptr_per_thread@[clique_ptr_per_thread@.len() - 1] == col, clique_ptr_per_thread@.len() <= col + 1, col > 0 ==> clique_ptr_per_thread@.len() >= 2,
decreases n - col,
@pre 1.1
let ghost cp0 = clique_ptr_per_thread@;
proof { clq_one(P, I, first as int); }
@loop 1.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, limit == n, 0 <= first < n, last == first + width, first < last <= n, clq(P, I, first as int, last as int), clique_ptr_per_thread@ == cp0,
decreases n - last,
@head 1.1
proof { assert(own1(P, I, first as int)); assert(P[0] <= P[first as int] && P[first as int + 1] <= P[N]); assert(own1(P, I, last as int)); assert(P[0] <= P[last as int] && P[last as int + 1] <= P[N]); assert(P[first as int] <= P[last as int]); }
@loop 1.1.1
invariant_except_break can_form_clique,
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, 0 <= row <= off_first, 0 <= first < last < n, diff == last - first, off_first == P[first + 1] - P[first as int] - diff, off_first == P[last + 1] - P[last as int],
    0 <= P[first as int] <= P[first + 1] <= P[N], 0 <= P[last as int] <= P[last + 1] <= P[N],
    can_form_clique ==> forall|x: int| P[last as int] <= x < P[last as int] + row ==> #[trigger] I[x] == I[P[first as int] + diff + (x - P[last as int])],
ensures can_form_clique ==> row == off_first,
decreases off_first - row,
@then can_form_clique
proof { assert(clq_at(P, I, first as int, last as int)); assert(clq(P, I, first as int, last + 1)); }
@tail 1
proof {
    assert(clique_ptr_per_thread@ =~= cp0.push(col));
    assert(clq1(P, I, clique_ptr_per_thread@, cp0.len() - 1));
    assert forall|x: int| 0 <= x < cp0.len() - 1 implies #[trigger] clq1(P, I, clique_ptr_per_thread@, x) by { assert(clq1(P, I, cp0, x)); }
}
@post 1
proof { cp = clique_ptr_per_thread@; nc = node_to_clique@; }
@loop 2
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, start_col == 0, cp == clique_ptr_per_thread@, clq_parts(P, I, cp), cp[cp.len() - 1] == n, 2 <= cp.len() <= n + 1, node_to_clique@.len() == n, 0 <= i <= cp.len() - 1, forall|d: int| 0 <= d < cp[i as int] ==> #[trigger] of_clq(cp, node_to_clique@, d),
decreases cp.len() - i,
@head 2
proof { assert(clq1(P, I, cp, i as int)); cp_mono(P, I, cp, i + 1, cp.len() - 1); cp_mono(P, I, cp, 0, i as int); }
@loop 2.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, start_col == 0, cp == clique_ptr_per_thread@, 2 <= cp.len() <= n + 1, node_to_clique@.len() == n, 0 <= i < cp.len() - 1, start_node == cp[i as int], end_node == cp[i + 1], 0 <= start_node <= j <= end_node <= n, forall|d: int| 0 <= d < j ==> #[trigger] of_clq(cp, node_to_clique@, d),
decreases end_node - j,
@head 2.1
let ghost n0 = node_to_clique@;
@tail 2.1
proof { assert forall|d: int| 0 <= d < j + 1 implies #[trigger] of_clq(cp, node_to_clique@, d) by { if d < j { assert(of_clq(cp, n0, d)); } } }
@post 2
proof { nc = node_to_clique@; }
@loop 3
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, cl_ok(P, I, cp, nc, N), cp.len() >= 2, cp.len() <= n + 1, nc == node_to_clique@, 0 <= _r2 <= n, node_cnt == _r2, 0 <= back < cp.len() - 1, _r2 == 0 ==> back == 0, _r2 > 0 ==> back == nc[_r2 - 1], clique_ptr@ == cp.subrange(0, back + 1),
decreases n - _r2,
@head 3
proof { cl_step(P, I, cp, nc, N, _r2 as int); assert(cp.subrange(0, back + 2) =~= cp.subrange(0, back + 1).push(cp[back + 1])) by { } }
@pre 4
proof { cl_step(P, I, cp, nc, N, N - 1); assert(clique_ptr@ =~= cp); assert(DAG_set_no_clique@ =~= qflat(P, I, cp, nc, 0)); }
@loop 4
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, cl_ok(P, I, cp, nc, N), cp.len() >= 2, cp.len() <= n + 1, clique_ptr@ == cp, 0 <= i <= cp.len() - 1, DAG_ptr_no_clique@.len() == n + 1, edge_cnt == DAG_set_no_clique@.len(), DAG_set_no_clique@ == qflat(P, I, cp, nc, cp[i as int] as int), edge_cnt <= nnz, forall|d: int| 0 <= d < cp[i as int] ==> #[trigger] DAG_ptr_no_clique@[d] == qflat(P, I, cp, nc, d).len(),
decreases cp.len() - i,
@head 4
proof { assert(clq1(P, I, cp, i as int)); cl_is(P, I, cp, nc, N, i as int, cp[i as int] as int); cl_is(P, I, cp, nc, N, i as int, cp[i + 1] - 1); }
@loop 4.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, cl_ok(P, I, cp, nc, N), cp.len() >= 2, cp.len() <= n + 1, clique_ptr@ == cp, 0 <= i < cp.len() - 1, cp[i as int] <= j < cp[i + 1], 0 <= cp[i as int], cp[i + 1] <= n, DAG_ptr_no_clique@.len() == n + 1, edge_cnt == DAG_set_no_clique@.len(), DAG_set_no_clique@ == qflat(P, I, cp, nc, j as int), edge_cnt <= nnz, forall|d: int| 0 <= d < j ==> #[trigger] DAG_ptr_no_clique@[d] == qflat(P, I, cp, nc, d).len(),
decreases cp[i + 1] - j,
@head 4.1
let ghost q0 = DAG_set_no_clique@;
proof { cl_is(P, I, cp, nc, N, i as int, j as int); qflat_next(P, I, cp, nc, j as int); cl_len(P, I, cp, nc, N, j as int); cl_len(P, I, cp, nc, N, j + 1); assert(P[j + 1] <= P[N]); assert(P[j as int] <= P[N]); assert(!ends(cp, nc, j as int)); }
@tail 4.1
proof { assert(DAG_set_no_clique@ =~= q0 + seq![j, (j + 1) as i32]); }
@pre 4.2
let ghost q0 = DAG_set_no_clique@;
let ghost e0 = edge_cnt as int;
proof { qflat_next(P, I, cp, nc, last_node as int); cl_is(P, I, cp, nc, N, i as int, last_node as int); cl_len(P, I, cp, nc, N, last_node as int); cl_len(P, I, cp, nc, N, last_node + 1); assert(own1(P, I, last_node as int)); assert(P[0] <= P[last_node as int] && P[last_node as int + 1] <= P[N]);
    assert(I.subrange(P[last_node as int] as int, P[last_node as int] as int) =~= seq![]); assert(q0 =~= q0 + seq![]); }
@loop 4.2
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, 0 <= last_node < n, 0 <= P[last_node as int] <= j <= P[last_node + 1] <= nnz, e0 <= P[last_node as int], q0.len() == e0, edge_cnt == DAG_set_no_clique@.len(), edge_cnt == e0 + (j - P[last_node as int]), DAG_set_no_clique@ =~= q0 + I.subrange(P[last_node as int] as int, j as int),
decreases P[last_node + 1] - j,
@head 4.2
proof { assert(I.subrange(P[last_node as int] as int, j + 1) =~= I.subrange(P[last_node as int] as int, j as int).push(I[j as int])); }
@post 4.2
proof { assert(ends(cp, nc, last_node as int)); assert(edge_cnt <= nnz); }
@pre 5
proof { qp = DAG_ptr_no_clique@; qs = DAG_set_no_clique@; clique_done(P, I, cp, nc, N, qp, qs); del_init(qp, qs, N, deleted_edge@); }
@loop 5
invariant
    lowdag(qp, qs, N), N == n, 1 <= n < i32::MAX, qp[0] == 0, qp[N] == edge_cnt, qp == DAG_ptr_no_clique@, qs == DAG_set_no_clique@, 0 <= edge_cnt < i32::MAX - 2, deleted_edge@.len() == edge_cnt, 0 <= i <= n, del_ok(qp, qs, N, deleted_edge@),
decreases n - i,
@head 5
proof { assert(own1(qp, qs, i as int)); assert(qp[0] <= qp[i as int] && qp[i as int + 1] <= qp[N]); }
@loop 5.1
invariant
    lowdag(qp, qs, N), N == n, 1 <= n < i32::MAX, qp[0] == 0, qp[N] == edge_cnt, qp == DAG_ptr_no_clique@, qs == DAG_set_no_clique@, 0 <= edge_cnt < i32::MAX - 2, deleted_edge@.len() == edge_cnt, 0 <= i < n, start_i_child_ptr == qp[i as int] + 1, end_i_child_ptr == qp[i + 1], 0 <= qp[i as int] < k_ptr <= qp[i + 1] <= edge_cnt, del_ok(qp, qs, N, deleted_edge@),
decreases qp[i + 1] - k_ptr,
@head 5.1
proof { assert(0 <= qs[k_ptr as int] < n); assert(own1(qp, qs, qs[k_ptr as int] as int)); assert(qp[0] <= qp[qs[k_ptr as int] as int] && qp[qs[k_ptr as int] as int + 1] <= qp[N]); }
@loop 5.1.1
invariant
    lowdag(qp, qs, N), N == n, 1 <= n < i32::MAX, qp[0] == 0, qp[N] == edge_cnt, qp == DAG_ptr_no_clique@, qs == DAG_set_no_clique@, 0 <= edge_cnt < i32::MAX - 2, deleted_edge@.len() == edge_cnt, 0 <= i < n, 0 <= qp[i as int] < k_ptr < qp[i + 1] <= edge_cnt, k == qs[k_ptr as int], 0 <= k < n, u1 == qp[i + 1], u2 == qp[k + 1], 0 <= qp[i as int] < l1 <= u1, 0 <= qp[k as int] < l2 <= u2 <= edge_cnt, del_ok(qp, qs, N, deleted_edge@),
decreases (u1 - l1) + (u2 - l2),
@head 5.1.1
proof { if qs[l1 as int] == qs[l2 as int] { assert(in_col(qp, i as int, l1 as int)); del_step(qp, qs, N, deleted_edge@, deleted_edge@.update(l1 as int, 1i32), i as int, l1 as int, k_ptr as int, l2 as int); } }
@pre 6
proof { assert(DAG_set@ =~= keeps(qs, deleted_edge@, 0)); }
@loop 6
invariant
    lowdag(qp, qs, N), N == n, 1 <= n < i32::MAX, qp[0] == 0, qp[N] == edge_cnt, qp == DAG_ptr_no_clique@, qs == DAG_set_no_clique@, 0 <= edge_cnt < i32::MAX - 2, deleted_edge@.len() == edge_cnt, 0 <= i <= n, DAG_ptr@.len() == n + 1, DAG_set@ == keeps(qs, deleted_edge@, qp[i as int] as int), edge_counter == DAG_set@.len(), forall|c: int| 0 <= c <= i ==> #[trigger] DAG_ptr@[c] == kept(deleted_edge@, qp[c] as int),
decreases n - i,
@head 6
proof { assert(own1(qp, qs, i as int)); assert(qp[0] <= qp[i as int] && qp[i as int + 1] <= qp[N]); }
@loop 6.1
invariant
    lowdag(qp, qs, N), N == n, 1 <= n < i32::MAX, qp[0] == 0, qp[N] == edge_cnt, qp == DAG_ptr_no_clique@, qs == DAG_set_no_clique@, 0 <= edge_cnt < i32::MAX - 2, deleted_edge@.len() == edge_cnt, 0 <= i < n, 0 <= qp[i as int] <= k_ptr <= qp[i + 1] <= edge_cnt, DAG_set@ == keeps(qs, deleted_edge@, k_ptr as int), edge_counter == DAG_set@.len(),
decreases qp[i + 1] - k_ptr,
@head 6.1
proof { keeps_len(qs, deleted_edge@, k_ptr as int); }
@tail 6
proof { keeps_len(qs, deleted_edge@, qp[i + 1] as int); }
@post 6
proof { sparse_done(qp, qs, N, deleted_edge@, DAG_ptr@, DAG_set@); sparsified_via(P, I, qp, qs, DAG_ptr@, DAG_set@, N); }
@pre 7
proof { del_init(P, I, N, deleted_edge@); }
@loop 7
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, deleted_edge@.len() == nnz, 0 <= i <= n, del_ok(P, I, N, deleted_edge@),
decreases n - i,
@head 7
proof { assert(own1(P, I, i as int)); assert(P[0] <= P[i as int] && P[i as int + 1] <= P[N]); }
@loop 7.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, 0 <= i < n, 0 <= P[i as int] < k_ptr <= P[i + 1] <= nnz, start_k_ptr == P[i as int] + 1, cnt == k_ptr - start_k_ptr, child@.len() == P[i + 1] - (P[i as int] + 1), forall|x: int| 0 <= x < cnt ==> #[trigger] child@[x] == I[start_k_ptr + x],
decreases P[i + 1] - k_ptr,
@pre 7.2
proof { assert(up_at(P, I, i as int)); assert forall|x: int, y: int| 0 <= x <= y < child@.len() implies #[trigger] child@[x] <= #[trigger] child@[y] by { if x < y { assert(I[start_k_ptr + x] < I[start_k_ptr + y]); } } }
@loop 7.2
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, deleted_edge@.len() == nnz, 0 <= i < n, 0 <= P[i as int] < k_ptr <= P[i + 1] <= nnz, start_k_ptr == P[i as int] + 1, del_ok(P, I, N, deleted_edge@), child@.len() == P[i + 1] - (P[i as int] + 1), forall|x: int| 0 <= x < child@.len() ==> #[trigger] child@[x] == I[start_k_ptr + x], forall|x: int, y: int| 0 <= x <= y < child@.len() ==> #[trigger] child@[x] <= #[trigger] child@[y],
decreases P[i + 1] - k_ptr,
@head 7.2
proof { assert(0 <= I[k_ptr as int] < n); assert(own1(P, I, I[k_ptr as int] as int)); assert(P[0] <= P[I[k_ptr as int] as int] && P[I[k_ptr as int] as int + 1] <= P[N]); }
@loop 7.2.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, deleted_edge@.len() == nnz, 0 <= i < n, 0 <= P[i as int] < k_ptr < P[i + 1] <= nnz, start_k_ptr == P[i as int] + 1, k == I[k_ptr as int], 0 <= k < n, 0 <= P[k as int] < j_ptr <= P[k + 1] <= nnz, del_ok(P, I, N, deleted_edge@), child@.len() == P[i + 1] - (P[i as int] + 1), forall|x: int| 0 <= x < child@.len() ==> #[trigger] child@[x] == I[start_k_ptr + x], forall|x: int, y: int| 0 <= x <= y < child@.len() ==> #[trigger] child@[x] <= #[trigger] child@[y],
decreases P[k + 1] - j_ptr,
@after let mut id: .*
proof { let e = start_k_ptr + iter; assert(child@[iter as int] == I[e]); assert(I[e] == j); assert(in_col(P, i as int, e)); del_step(P, I, N, deleted_edge@, deleted_edge@.update(e, 1i32), i as int, e, k_ptr as int, j_ptr as int); }
@pre 8
proof { assert(DAG_set@ =~= keeps(I, deleted_edge@, 0)); }
@loop 8
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, deleted_edge@.len() == nnz, 0 <= i <= n, DAG_ptr@.len() == n + 1, DAG_set@ == keeps(I, deleted_edge@, P[i as int] as int), edge_counter == DAG_set@.len(), forall|c: int| 0 <= c <= i ==> #[trigger] DAG_ptr@[c] == kept(deleted_edge@, P[c] as int),
decreases n - i,
@head 8
proof { assert(own1(P, I, i as int)); assert(P[0] <= P[i as int] && P[i as int + 1] <= P[N]); }
@loop 8.1
invariant
    lowdag(P, I, N), P == DAG_ptr_not_prune@, I == DAG_set_not_prune@, N == n, 1 <= n < i32::MAX, P[0] == 0, P[N] == nnz, 0 <= nnz < i32::MAX - 2, deleted_edge@.len() == nnz, 0 <= i < n, 0 <= P[i as int] <= k_ptr <= P[i + 1] <= nnz, DAG_set@ == keeps(I, deleted_edge@, k_ptr as int), edge_counter == DAG_set@.len(),
decreases P[i + 1] - k_ptr,
@head 8.1
proof { keeps_len(I, deleted_edge@, k_ptr as int); }
@tail 8
proof { keeps_len(I, deleted_edge@, P[i + 1] as int); }
@post 8
proof { sparse_done(P, I, N, deleted_edge@, DAG_ptr@, DAG_set@); }
