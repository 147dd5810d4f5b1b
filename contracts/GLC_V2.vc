@unit GLC_V2
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name GLC_V2
@props P07
@uses sched
@opts complex isolate spinoff
@requires
n >= 0, dag_in(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), acyclic(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int), cores >= 1, cores < i32::MAX, n * cores <= i32::MAX, node_cost@.len() >= n, !parallelLevelset,
@ensures
*final(coarse_level_no) == res@.len() - 1, res@.len() >= 1,
valid_sched(DAG_ptr_not_prune@, DAG_set_not_prune@, n as int, res@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@),
bin_pack ==> few_parts(res@.len() - 1, coarse_level_ptr@, cores as int),
@pre 1
let ghost d = Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int };
proof { lv_mk(d); lv_sizes(d); assert(inc(WM@)) by { reveal(inc); } assert(stored(d, WM@, chunk_sizes@, cores as int)) by { reveal(stored); } upto_init(d, WM@, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); assert(coarse_level_ptr@.last() == 0 * cores); }
@loop 1
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, WM@.len() >= 1, WM@[0] == 0, WM@.last() == lvl, 0 <= lvl <= nlevels, WM@.len() - 1 <= lvl, inc(WM@), stored(d, WM@, chunk_sizes@, cores as int), n * cores <= i32::MAX, coarse_level_ptr@.len() == WM@.len(), upto(d, WM@, WM@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@), bin_pack ==> coarse_level_ptr@.last() == (WM@.len() - 1) * cores && few_parts(WM@.len() - 1, coarse_level_ptr@, cores as int), !bin_pack ==> coarse_level_ptr@.last() <= d.lp[lvl as int],
decreases nlevels - lvl,
@head 1
let ghost lb = lvl as int; let ghost k = WM@.len() - 1; let ghost CS0 = chunk_sizes@; let ghost WM0 = WM@; let ghost mut w = wn(d, lb, lb); let ghost LP0 = coarse_level_ptr@; let ghost PP0 = coarse_part_ptr@; let ghost ND0 = coarse_node_ptr@; let ghost mut ub = lb; let ghost mut bf: Seq<int> = Seq::empty(); let ghost mut b: Seq<int> = Seq::empty(); let ghost mut s0 = level_ptr@; let ghost mut bm: Seq<int> = Seq::empty();
proof { lv_sizes(d); }
@loop 1.1
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, WM@.len() >= 1, WM@[0] == 0, WM@.last() == lvl, 0 <= lvl <= nlevels, WM@.len() - 1 <= lvl, inc(WM@), n * cores <= i32::MAX, coarse_level_ptr@.len() == WM@.len(), upto(d, WM@, WM@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@), bin_pack ==> coarse_level_ptr@.last() == (WM@.len() - 1) * cores && few_parts(WM@.len() - 1, coarse_level_ptr@, cores as int), !bin_pack ==> coarse_level_ptr@.last() <= d.lp[lvl as int], coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, WM@ == WM0, k == WM0.len() - 1, lb == lvl, lvl < nlevels, lb == lb_level, lb <= computed_up_to_lvl <= ub_level <= nlevels, lb < ub_level, node2partition@.len() == n, chunk_array@.len() == cores + 1, chunk_array@[0] == 0, effective_cores <= cores, forall|q: int| 0 <= q < k ==> #[trigger] chunk_sizes@[q] == CS0[q], stored(d, WM0, CS0, cores as int),
    iteration_counter >= 0, !done_flag ==> iteration_counter == computed_up_to_lvl - lb,
    iteration_counter == 0 ==> !done_flag && computed_up_to_lvl == lb && ub_level == lb + 1 && prev_upper_bound == 0 && WM_condidate == lb + 1 && forall|v: int| 0 <= v < n ==> #[trigger] node2partition@[v] == -1,
    iteration_counter > 0 && !done_flag ==> WM_condidate == computed_up_to_lvl && lb < computed_up_to_lvl && (ub_level == computed_up_to_lvl + 1 || ub_level == nlevels && computed_up_to_lvl == nlevels) && prev_upper_bound == ub_level && chunk_ok(chunk_array@, cores as int, ncomp(wn(d, lb, computed_up_to_lvl as int))) && is_cc(wn(d, lb, computed_up_to_lvl as int), node2partition@, minus(n as int)) && is_cc(wn(d, lb, computed_up_to_lvl as int), node2partition_accepted@, minus(n as int)),
    done_flag ==> lb < WM_condidate <= nlevels && chunk_ok(chunk_sizes@[k]@, cores as int, ncomp(wn(d, lb, WM_condidate as int))) && is_cc(wn(d, lb, WM_condidate as int), node2partition_accepted@, minus(n as int)),
    node2partition_accepted@.len() == n,
decreases if done_flag { 0int } else { nlevels - computed_up_to_lvl + 1 },
@head 1.1
let ghost cu = computed_up_to_lvl as int; let ghost ub = ub_level as int; let ghost N0 = node2partition@; let ghost ch0 = chunk_array@; let ghost it0 = iteration_counter as int; let ghost mut w1 = wn(d, lb, ub); let ghost mut K = 0int;
proof {
    lv_sizes(d); lv_mono(d, lb, cu); lv_mono(d, cu, ub); lv_mono(d, ub - 1, ub); lv_win(d, lb, ub); w1 = wn(d, lb, ub);
    if it0 == 0 { prior_zero(w1, N0); } else { lv_prior(d, lb, cu, ub, N0, minus(n as int)); }
    assert(prior_ok(w1, N0, d.lp[cu] - d.lp[lb])); assert(forall|v: int| 0 <= v < n && !member(w1, v) ==> #[trigger] N0[v] == -1);
}
@after computeCC\(.*
proof {
    cc_base(w1, node2partition@, N0, minus(n as int)); ncomp_is(w1, node2partition@, N0); K = part_cnt as int; assert(K == ncomp(w1)); assert(K <= w1.k <= n);
    if it0 > 0 && ub == cu + 1 { ncomp_grow(d, lb, cu, N0, minus(n as int), node2partition@, minus(n as int)); }
}
@loop 1.1.1
invariant
    0 <= part <= part_cnt, part_cnt < cores, cores < i32::MAX, part_cnt == K, part_cnt <= n, chunk_array@.len() == cores + 1, cost@.len() == cores, partition_cost@.len() == n, chunk_array@[0] == 0, forall|j: int| 1 <= j <= part ==> #[trigger] chunk_array@[j] == j,
decreases part_cnt - part,
@loop 1.1.2
invariant_except_break
    forall|i: int, j: int| 0 <= i <= j < thread_id ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], chunk_array@[thread_id - 1] <= part,
invariant
    0 <= part <= part_cnt, part_cnt >= cores, cores >= 1, cores < i32::MAX, part_cnt == K, part_cnt <= n, chunk_array@.len() == cores + 1, cost@.len() == cores, partition_cost@.len() == n, 1 <= thread_id <= cores, chunk_array@[0] == 0,
ensures
    1 <= thread_id <= cores, chunk_array@.len() == cores + 1, cost@.len() == cores, chunk_array@[0] == 0, forall|i: int, j: int| 0 <= i <= j < thread_id ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], chunk_array@[thread_id - 1] <= part_cnt,
decreases part_cnt - part + cores - thread_id,
@pre 1.1.3
let ghost t0 = thread_id as int;
proof { assert(0 <= t0 <= cores); assert(forall|i: int, j: int| 0 <= i <= j < t0 ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j]); assert(t0 > 0 ==> chunk_array@[t0 - 1] <= part_cnt); assert(t0 == 0 ==> part_cnt == 0); }
@loop 1.1.3
invariant
    0 <= t0 <= cores, t0 - 1 <= i <= cores, cores < i32::MAX, chunk_array@.len() == cores + 1, part_cnt == K, K >= 0, t0 == 0 ==> part_cnt == 0, chunk_array@[0] == 0, forall|i: int, j: int| 0 <= i <= j < t0 ==> #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j], t0 > 0 ==> chunk_array@[t0 - 1] <= part_cnt, forall|j: int| t0 <= j <= i ==> #[trigger] chunk_array@[j] == part_cnt,
decreases cores - i,
@post 1.1.3
proof { assert(chunk_ok(chunk_array@, cores as int, K)) by { assert forall|i: int, j: int| 0 <= i <= j <= cores implies #[trigger] chunk_array@[i] <= #[trigger] chunk_array@[j] by { if i < t0 && j >= t0 { assert(chunk_array@[i] <= chunk_array@[t0 - 1]); } } } }
@loop 1.1.4
invariant
    0 <= i, effective_cores <= cores, cost@.len() == cores,
decreases effective_cores - i,
@before let mut numNodesAtCurLevel.*
proof { lv_sizes(d); lv_mono(d, lb, lvl as int); assert(WM@[k] == WM0[k]); }
@pre 1.2
proof {
    ub = lvl as int; w = wn(d, lb, ub); lv_sizes(d); lv_win(d, lb, ub); lv_mono(d, lb, ub);
    assert(stored(d, WM@, chunk_sizes@, cores as int)) by { reveal(stored); assert forall|q: int| 0 <= q && q + 1 < WM@.len() implies chunk_ok((#[trigger] chunk_sizes@[q])@, cores as int, ncomp(wn(d, WM@[q] as int, WM@[q + 1] as int))) by { if q < k { assert(WM@[q] == WM0[q]); assert(WM@[q + 1] == WM0[q + 1]); assert(chunk_sizes@[q] == CS0[q]); } } }
    assert(inc(WM@)) by { reveal(inc); }
    assert(wm_pre(d, WM@)) by { reveal(inc); }
    assert(WM@ == WM0.push(ub as i32)); upto_ext(d, WM0, k, LP0, PP0, ND0, ub as i32); upto_facts(d, WM@, k, LP0, PP0, ND0);
    assert(chunk_ok(chunk_sizes@[k]@, cores as int, ncomp(w)));
    assert(lbl == lb && ubl == ub);
    assert(k * cores + cores <= n * cores) by (nonlinear_arith) requires k + 1 <= n, cores >= 1;
    cntv_init(w, node2partition_accepted@, w_part_size_cnt@);
}
@loop 1.2
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], node2partition_accepted@.len() == n, is_cc(w, node2partition_accepted@, minus(w.n)), coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, 0 <= _r23 <= n, cntv(w, node2partition_accepted@, w_part_size_cnt@, _r23 as int),
decreases n - _r23,
@head 1.2
proof { cntv_step(w, node2partition_accepted@, w_part_size_cnt@, _r23 as int); }
@post 1.2
proof { scanv_init(w, node2partition_accepted@, w_part_size_cnt@); }
@loop 1.3
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], node2partition_accepted@.len() == n, is_cc(w, node2partition_accepted@, minus(w.n)), coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, 1 <= i, i <= n || n == 0 && i == 1, w_part_size_cnt@.len() == n + 1, scanv(w, node2partition_accepted@, w_part_size_cnt@, i as int),
decreases n - i,
@head 1.3
proof { scanv_step(w, node2partition_accepted@, w_part_size_cnt@, i as int); }
@post 1.3
proof { scanv_end(w, node2partition_accepted@, w_part_size_cnt@, if n == 0 { 1 } else { n as int }); }
@pre 1.4
proof { pptr_init(w, node2partition_accepted@, part_ptr@); }
@loop 1.4
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], node2partition_accepted@.len() == n, is_cc(w, node2partition_accepted@, minus(w.n)), coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, 0 <= i <= n, w_part_size_cnt@.len() == n + 1, forall|l: int| 0 <= l <= w.n ==> #[trigger] w_part_size_cnt@[l] == cbase(w, node2partition_accepted@, l), ctr(w, node2partition_accepted@, w_part_size_cnt@, 0), pptr(w, node2partition_accepted@, part_ptr@, i as int), node_ptr@.len() == 0,
decreases n - i,
@head 1.4
proof { pptr_step(w, node2partition_accepted@, part_ptr@, i as int, w_part_size_cnt@[i as int], w_part_size_cnt@[i + 1]); }
@pre 1.5
proof { scat_init(w, node2partition_accepted@, node_ptr@); }
@loop 1.5
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], node2partition_accepted@.len() == n, is_cc(w, node2partition_accepted@, minus(w.n)), coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, 0 <= i <= w.k, numNodesAtCurLevel == w.k, _t30 == d.lp[lb], level_set@.len() >= n, ctr(w, node2partition_accepted@, w_part_size_cnt@, i as int), scat(w, node2partition_accepted@, node_ptr@, i as int), pptr(w, node2partition_accepted@, part_ptr@, n as int),
decreases w.k - i,
@head 1.5
proof { scat_step(w, node2partition_accepted@, w_part_size_cnt@, node_ptr@, i as int); assert(w.nodes[i as int] == d.ls[d.lp[lb] + i]); }
@post 1.5
proof { b = toi(part_ptr@); s0 = node_ptr@; comp_sched(d, lb, ub, node2partition_accepted@, part_ptr@, node_ptr@); ncomp_is(w, node2partition_accepted@, minus(w.n)); assert(bnds(w.k, b)) by { reveal(wsched); } }
@loop 1.6
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], node2partition_accepted@.len() == n, is_cc(w, node2partition_accepted@, minus(w.n)), coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, bin_pack, _t36 == k, k < nlevels, chunk_ok(chunk_sizes@[k]@, cores as int, ncomp(w)), 0 <= i <= cores, part_ptr_merged@.len() == cores + 1, b == toi(part_ptr@), part_ptr@.len() >= 1, part_ptr@.len() - 1 == ncomp(w), part_ptr@.len() <= n + 1, part_ptr_merged@[0] == 0, forall|j: int| 1 <= j <= i ==> #[trigger] part_ptr_merged@[j] == joined(b, chunk_sizes@[k]@, j),
decreases cores - i,
@head 1.6
proof { chunk_at(chunk_sizes@[k]@, cores as int, ncomp(w), i + 1); }
@post 1.6
proof { bm = toi(part_ptr_merged@); bf = bm; let ch = chunk_sizes@[k]@;
    assert forall|j: int| 0 <= j <= cores implies #[trigger] bm[j] == joined(b, ch, j) by { if j > 0 { assert(part_ptr_merged@[j] == joined(b, ch, j)); } }
    join_sched(w, s0, b, ch, cores as int, bm); join_bnds(w, s0, bm); more_one(PP0, bm); }
@loop 1.7
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], coarse_node_ptr@ == ND0, bin_pack, coarse_level_ptr@ == LP0.push((LP0.last() + cores) as i32), PP0.len() >= 1, last_part == PP0.last(), last_part == d.lp[lb], bm == toi(part_ptr_merged@), bm.len() == cores + 1, bnds(w.k, bm), 1 <= p <= cores + 1, coarse_part_ptr@ == more(PP0, bm, p as int),
decreases cores + 1 - p,
@head 1.7
proof { assert(bm[p as int] == part_ptr_merged@[p as int]); assert(bm[0] <= bm[p as int]); assert(bm[p as int] <= bm[bm.len() - 1]); more_step(PP0, bm, p as int, (part_ptr_merged@[p as int] + last_part) as i32); }
@pre 1.8
proof { bf = b; more_one(PP0, b); }
@loop 1.8
invariant
    d == (Lv { p: DAG_ptr_not_prune@, g: DAG_set_not_prune@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: nlevels as int }), lv_ok(d), 0 <= n < i32::MAX, 0 <= nlevels <= n, cores >= 1, cores < i32::MAX, node_cost@.len() >= n, chunk_sizes@.len() == nlevels, n * cores <= i32::MAX, LP0.len() >= 1, 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.n == n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, bin_pack ==> LP0.last() == k * cores && 0 <= k * cores && k * cores + cores <= i32::MAX, !bin_pack ==> 0 <= LP0.last() <= d.lp[lb], coarse_node_ptr@ == ND0, !bin_pack, coarse_level_ptr@ == LP0.push((LP0.last() + b.len() - 1) as i32), PP0.len() >= 1, last_part == PP0.last(), last_part == d.lp[lb], b == toi(part_ptr@), part_ptr@.len() <= n + 1, bnds(w.k, b), 1 <= p <= b.len(), coarse_part_ptr@ == more(PP0, b, p as int),
decreases b.len() - p,
@head 1.8
proof { assert(b[p as int] == part_ptr@[p as int]); assert(b[0] <= b[p as int]); assert(b[p as int] <= b[b.len() - 1]); more_step(PP0, b, p as int, (part_ptr@[p as int] + last_part) as i32); }
@tail 1
proof {
    assert(wsched(w, node_ptr@, bf)); assert(coarse_level_ptr@.drop_last() =~= LP0); assert(coarse_level_ptr@.last() == LP0.last() + bf.len() - 1); assert(coarse_part_ptr@ == more(PP0, bf, bf.len() as int)); assert(coarse_node_ptr@ =~= ND0 + node_ptr@);
    assert(WM@[k] == lb); assert(WM@[k + 1] == ub);
    upto_step(d, WM@, k, LP0, PP0, ND0, node_ptr@, bf, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); assert((k + 1) * cores == k * cores + cores) by (nonlinear_arith);
}
@post 1
proof { assert(wm_ok(d, WM@)) by { reveal(inc); } upto_done(d, WM@, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); wm_len(d, WM@); }
