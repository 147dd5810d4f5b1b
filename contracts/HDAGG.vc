@unit HDAGG
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name HDAGG
@props P07
@uses sched
@opts complex isolate
@requires
n >= 0, dag_in(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), acyclic(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), cores >= 1, cores < i32::MAX, n * cores <= i32::MAX, node_cost@.len() >= n, !parallelLevelset,
postOrder ==> po_pre(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), bin_pack && !postOrder ==> key_ok(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int, ident(n as int)),
@ensures
*final(coarse_level_no) == res@.len() - 1, res@.len() >= 1,
valid_sched(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int, res@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@),
bin_pack ==> few_parts(res@.len() - 1, coarse_level_ptr@, cores as int),
@pre 1
let ghost d = Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int };
proof { lv_mk(d); lv_sizes(d); assert(inc(WM@)) by { reveal(inc); } assert(stored(d, WM@, chunk_sizes@, cores as int)) by { reveal(stored); } }
@loop 1
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, WM@.len() >= 1, WM@[0] == 0, WM@.last() == lvl, 0 <= lvl <= nlevels, WM@.len() - 1 <= lvl, inc(WM@), stored(d, WM@, chunk_sizes@, cores as int),
decreases nlevels - lvl,
@head 1
let ghost lb = lvl as int; let ghost k = WM@.len() - 1; let ghost CS0 = chunk_sizes@; let ghost WM0 = WM@; let ghost mut m0 = minus(n as int); let ghost mut w = wn(d, lb, lb); let ghost mut cu0 = lb; let ghost mut k0 = 0int; let ghost mut S1 = chunk_sizes@;
proof { lv_sizes(d); }
@loop 1.1
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, WM@.len() >= 1, WM@[0] == 0, WM@.last() == lvl, 0 <= lvl <= nlevels, WM@.len() - 1 <= lvl, inc(WM@), WM@ == WM0, k == WM0.len() - 1, lb == lvl, lvl < nlevels, lb == lb_level, lb <= computed_up_to_lvl <= ub_level <= nlevels, lb < ub_level, node2partition@.len() == n, chunk_array@.len() == cores + 1, chunk_array@[0] == 0, effective_cores <= cores, forall|q: int| 0 <= q < k ==> #[trigger] chunk_sizes@[q] == CS0[q], stored(d, WM0, CS0, cores as int),
    iteration_counter >= 0, !done_flag ==> iteration_counter == computed_up_to_lvl - lb,
    iteration_counter == 0 ==> !done_flag && computed_up_to_lvl == lb && ub_level == lb + 1 && prev_upper_bound == 0 && WM_condidate == lb + 1 && forall|v: int| 0 <= v < n ==> #[trigger] node2partition@[v] == -1,
    iteration_counter > 0 && !done_flag ==> WM_condidate == computed_up_to_lvl && lb < computed_up_to_lvl && (ub_level == computed_up_to_lvl + 1 || ub_level == nlevels && computed_up_to_lvl == nlevels) && prev_upper_bound == ub_level && chunk_ok(chunk_array@, cores as int, ncomp(wn(d, lb, computed_up_to_lvl as int))) && is_cc(wn(d, lb, computed_up_to_lvl as int), node2partition@, minus(n as int)),
    done_flag ==> lb < WM_condidate <= nlevels && chunk_ok(chunk_sizes@[k]@, cores as int, ncomp(wn(d, lb, WM_condidate as int))),
decreases if done_flag { 0int } else { nlevels - computed_up_to_lvl + 1 },
@head 1.1
let ghost cu = computed_up_to_lvl as int; let ghost ub = ub_level as int; let ghost N0 = node2partition@; let ghost ch0 = chunk_array@; let ghost it0 = iteration_counter as int; let ghost mut w1 = wn(d, lb, ub); let ghost mut K = 0int;
proof {
    lv_sizes(d); lv_mono(d, lb, cu); lv_mono(d, cu, ub); lv_mono(d, ub - 1, ub); lv_win(d, lb, ub); w1 = wn(d, lb, ub);
    if it0 == 0 { prior_zero(w1, N0); } else { lv_prior(d, lb, cu, ub, N0, minus(n as int)); }
    assert(prior_ok(w1, N0, d.lp[cu] - d.lp[lb])); assert(forall|v: int| 0 <= v < n && !member(w1, v) ==> #[trigger] N0[v] == -1);
}
@after computeCC\(.*
proof {
    cc_base(w1, node2partition@, N0, minus(n as int)); ncomp_is(w1, node2partition@, N0); K = part_cnt as int; assert(K == ncomp(w1)); assert(K <= w1.k <= n);
    if it0 > 0 && ub == cu + 1 { ncomp_grow(d, lb, cu, N0, minus(n as int), node2partition@, minus(n as int)); }
}
@loop 1.1.1
invariant
    0 <= part <= part_cnt, part_cnt < cores, cores < i32::MAX, part_cnt == K, part_cnt <= n, chunk_array@.len() == cores + 1, cost@.len() == cores, partition_cost@.len() == n, chunk_array@[0] == 0, forall|j: int| 1 <= j <= part ==> #[trigger] chunk_array@[j] == j,
decreases part_cnt - part,
@loop 1.1.2
invariant_except_break
    forall|i: int, j: int| 0 <= i <= j < thread_id ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], chunk_array@[thread_id - 1] <= part,
invariant
    0 <= part <= part_cnt, part_cnt >= cores, cores >= 1, cores < i32::MAX, part_cnt == K, part_cnt <= n, chunk_array@.len() == cores + 1, cost@.len() == cores, partition_cost@.len() == n, 1 <= thread_id <= cores, chunk_array@[0] == 0,
ensures
    1 <= thread_id <= cores, chunk_array@.len() == cores + 1, cost@.len() == cores, chunk_array@[0] == 0, forall|i: int, j: int| 0 <= i <= j < thread_id ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], chunk_array@[thread_id - 1] <= part_cnt,
decreases part_cnt - part + cores - thread_id,
@pre 1.1.3
let ghost t0 = thread_id as int;
proof { assert(0 <= t0 <= cores); assert(forall|i: int, j: int| 0 <= i <= j < t0 ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j]); assert(t0 > 0 ==> chunk_array@[t0 - 1] <= part_cnt); assert(t0 == 0 ==> part_cnt == 0); }
@loop 1.1.3
invariant
    0 <= t0 <= cores, t0 - 1 <= i <= cores, cores < i32::MAX, chunk_array@.len() == cores + 1, part_cnt == K, K >= 0, t0 == 0 ==> part_cnt == 0, chunk_array@[0] == 0, forall|i: int, j: int| 0 <= i <= j < t0 ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], t0 > 0 ==> chunk_array@[t0 - 1] <= part_cnt, forall|j: int| t0 <= j <= i ==> #[trigger] chunk_array@[j] == part_cnt,
decreases cores - i,
@post 1.1.3
proof { assert(chunk_ok(chunk_array@, cores as int, K)) by { assert forall|i: int, j: int| 0 <= i <= j <= cores implies #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j] by { if i < t0 && j >= t0 { assert(chunk_array@[i] <= chunk_array@[t0 - 1]); } } } }
@loop 1.1.4
invariant
    0 <= i, effective_cores <= cores, cost@.len() == cores,
decreases effective_cores - i,
@tail 1
proof { assert(stored(d, WM@, chunk_sizes@, cores as int)) by { reveal(stored); assert forall|q: int| 0 <= q && q + 1 < WM@.len() implies chunk_ok((#[trigger] chunk_sizes@[q])@, cores as int, ncomp(wn(d, WM@[q] as int, WM@[q + 1] as int))) by { if q < k { assert(WM@[q] == WM0[q]); assert(WM@[q + 1] == WM0[q + 1]); assert(chunk_sizes@[q] == CS0[q]); } } }
    assert(inc(WM@)) by { reveal(inc); } }
@before computeSchedule\(.*
proof { let d = Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }; lv_mk(d); lv_sizes(d); assert(wm_ok(d, WM@)) by { reveal(inc); } reveal(stored); assert(chunks_ok(d, WM@, _a23@, cores as int)); wm_len(d, WM@); assert((WM@.len() - 1) * cores <= n * cores) by (nonlinear_arith) requires WM@.len() - 1 <= n, cores >= 1; }
