@unit computeCC
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computeCC
@props P08 P07
@uses cc
@opts isolate
@requires
0 <= lb_level <= computed_up_to <= ub_level < level_ptr@.len(), lb_level < ub_level, 0 <= level_ptr@[lb_level as int] <= level_ptr@[computed_up_to as int] <= level_ptr@[ub_level as int] <= level_set@.len(),
win_ok(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@)), n < i32::MAX, levelled(DAG_ptr@, DAG_set@, n as int, node_to_level@),
old(node2partition)@.len() == n, prior_ok(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), old(node2partition)@, level_ptr@[computed_up_to as int] - level_ptr@[lb_level as int]),
old(partition_cost)@.len() >= n, node_cost@.len() >= n,
@ensures
is_cc(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), node2partition@, old(node2partition)@),
*final(part_cnt) == rootcnt(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), node2partition@, cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).k),
partition_cost@.len() == old(partition_cost)@.len(),
*final(total_cost) == cost_to(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), *old(total_cost), node_cost@, cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).k),
ub_level - lb_level == 1 ==> *final(part_cnt) == cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).k && (forall|i: int| 0 <= i < cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).k ==> rootcnt(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), node2partition@, #[trigger] f(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), node2partition@, i)) == i && partition_cost@[i] == node_cost@[cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).nodes[i] as int]),
ub_level - lb_level != 1 ==> partition_cost@ == cc_acc(cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@), node2partition@, old(partition_cost)@, node_cost@, cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@).k),
@entry
let ghost N0 = node2partition@; let ghost W0 = cc_win(DAG_ptr@, DAG_set@, n as int, node_to_level@, lb_level as int, ub_level as int, level_ptr@, level_set@); let ghost w = W0; let ghost L = level_ptr@; let ghost lo = L[lb_level as int] as int; let ghost hi = L[ub_level as int] as int; let ghost m0 = L[computed_up_to as int] - lo; let ghost C0 = partition_cost@; let ghost T0 = *total_cost;
proof { win_fits(w); }
@pre 1
proof { assert(w.k == hi - lo); }
@loop 1
invariant
    win_ok(w), w == W0, N0.len() == w.n, level_ptr@ == L, lo == L[w.lb], w.lb == lb_level, w.ub == ub_level, lb_level < L.len(), ub_level < L.len(), 0 <= lb_level < ub_level, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), prior_ok(w, N0, m0), w.k <= w.n, w.n == n, n < i32::MAX, C0.len() >= n, node_cost@.len() >= n, lo <= node_ptr <= hi, node2partition@.len() == w.n, partition_cost@.len() == C0.len(), *total_cost == cost_to(w, T0, node_cost@, node_ptr - lo), *part_cnt == hi - lo,
    forall|x: int| 0 <= x < node_ptr - lo ==> #[trigger] node2partition@[w.nodes[x] as int] == x, forall|v: int| 0 <= v < w.n && !member(w, v) ==> #[trigger] node2partition@[v] == N0[v],
    forall|x: int| 0 <= x < node_ptr - lo ==> partition_cost@[x] == #[trigger] node_cost@[w.nodes[x] as int],
decreases hi - node_ptr,
@head 1
let ghost xi = node_ptr - lo;
proof { assert(w.nodes[xi] == level_set@[lo + xi]); assert(0 <= w.nodes[xi] < w.n); assert(member(w, w.nodes[xi] as int)); assert forall|x: int| 0 <= x < xi implies w.nodes[x] != w.nodes[xi] by { } }
@post 1
proof { one_level(w, node2partition@, N0); assert forall|i: int| 0 <= i < w.k implies rootcnt(w, node2partition@, #[trigger] f(w, node2partition@, i)) == i by { assert(node2partition@[w.nodes[i] as int] == i); } assert(rootcnt(w, node2partition@, w.k) == w.k); }
@loop 2
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, m0 <= i <= w.k, 
    forall|x: int| m0 <= x < i ==> node2partition@[#[trigger] w.nodes[x] as int] == x, forall|x: int| i <= x < w.k ==> node2partition@[#[trigger] w.nodes[x] as int] == -1, forall|x: int| 0 <= x < m0 ==> node2partition@[#[trigger] w.nodes[x] as int] == N0[w.nodes[x] as int], forall|v: int| 0 <= v < N0.len() && !member(w, v) ==> #[trigger] node2partition@[v] == N0[v],
decreases w.k - i,
@head 2
proof { assert(w.nodes[i as int] == level_set@[lo + i as int]); assert(0 <= w.nodes[i as int] < w.n); assert(member(w, w.nodes[i as int] as int)); assert forall|x: int| 0 <= x < w.k && x != i implies w.nodes[x] != w.nodes[i as int] by { if x < i { assert(w.nodes[x] != w.nodes[i as int]); } else { assert(w.nodes[i as int] != w.nodes[x]); } } }
@post 2
proof { cc_join(w, node2partition@, N0, m0); }
@loop 3
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, cc_state(w, node2partition@, N0), stars(w, node2partition@, w.k), !change ==> same_upto(w, node2partition@, w.k),
decreases fsum(w, node2partition@, w.k), (if change { 1int } else { 0int }),
@head 3
let ghost S = fsum(w, node2partition@, w.k); let ghost P0 = node2partition@;
proof { fsum_ge(w, node2partition@, N0, w.k); }
@loop 3.1
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, cc_state(w, node2partition@, N0), 0 <= i <= num_nodes_in_sub_DAG, stars(w, P0, w.k), S == fsum(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, node2partition@, i as int), change ==> fsum(w, node2partition@, w.k) < S,
decreases num_nodes_in_sub_DAG - i,
@head 3.1
proof { assert(w.nodes[i as int] == level_set@[lo + i as int]); assert(0 <= w.nodes[i as int] < w.n); let u = w.nodes[i as int] as int; assert(w.p[0] <= w.p[u]); assert(w.p[u] <= w.p[u + 1]); assert(w.p[u + 1] <= w.p[w.n]); }
@loop 3.1.1
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, cc_state(w, node2partition@, N0), 0 <= i < num_nodes_in_sub_DAG, u == w.nodes[i as int], 0 <= u < w.n, 0 <= w.p[u as int] <= r <= w.p[u + 1] <= w.p[w.n] <= i32::MAX, stars(w, P0, w.k), S == fsum(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, node2partition@, i as int) && same_col(w, node2partition@, u as int, r as int), change ==> fsum(w, node2partition@, w.k) < S,
decreases w.p[u + 1] - r,
@head 3.1.1
proof { cc_edge(w, node2partition@, N0, i as int, r as int); 
    if inwin(w, w.g[r as int] as int) { let cu = node2partition@[u as int]; let cv = node2partition@[w.g[r as int] as int]; let h = if cu > cv { cu } else { cv }; let l = if cu > cv { cv } else { cu }; assert(w.nodes[h as int] == level_set@[lo + h as int]); assert(0 <= w.nodes[h as int] < w.n);
        if cu != cv && node2partition@[w.nodes[h as int] as int] == h { cc_hook(w, node2partition@, N0, i as int, r as int, h, l); } } }
@tail 3.1
proof { if !change { assert forall|x: int, e: int| 0 <= x < i + 1 && #[trigger] in_col(w.p, w.nodes[x] as int, e) && inwin(w, w.g[e] as int) implies node2partition@[w.nodes[x] as int] == node2partition@[w.g[e] as int] by { if x == i { assert(inwin(w, w.g[e] as int)); } } } }
@pre 3.2
let ghost P1 = node2partition@; let ghost S1 = fsum(w, node2partition@, w.k);
@loop 3.2
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, cc_state(w, node2partition@, N0), 0 <= i <= num_nodes_in_sub_DAG, stars(w, node2partition@, i as int), stars(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, P0, w.k), fsum(w, node2partition@, w.k) <= S1,
decreases num_nodes_in_sub_DAG - i,
@head 3.2
proof { assert(w.nodes[i as int] == level_set@[lo + i as int]); assert(lab_ok(w, node2partition@, i as int)); assert(w.nodes[node2partition@[w.nodes[i as int] as int] as int] == level_set@[lo + node2partition@[w.nodes[i as int] as int] as int]); cc_jump(w, node2partition@, N0, i as int); }
@loop 3.2.1
invariant
    win_ok(w), w == W0, N0.len() == node2partition@.len(), N0.len() == w.n, lo == L[w.lb] && level_ptr@ == L, _t1 == lo, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), num_nodes_in_sub_DAG == w.k, num_nodes_processed == m0, prior_ok(w, N0, m0), w.k <= w.n, w.p == DAG_ptr@, w.g == DAG_set@, w.lev == node_to_level@, w.lb == lb_level, w.ub == ub_level, w.n == n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, C0.len() >= n, node_cost@.len() >= n, node2partition_map@.len() == n, part_exist@.len() == n, forall|x: int| 0 <= x < n ==> #[trigger] part_exist@[x] == 0, cc_state(w, node2partition@, N0), 0 <= i < num_nodes_in_sub_DAG, stars(w, node2partition@, i as int), stars(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, P0, w.k), fsum(w, node2partition@, w.k) <= S1, node == w.nodes[i as int], 0 <= node < w.n, 0 <= node2partition@[node as int] <= i, 0 <= w.nodes[node2partition@[node as int] as int] < w.n, forall|x: int| 0 <= x < w.k ==> #[trigger] w.nodes[x] == level_set@[lo + x],
decreases node2partition@[node as int],
@head 3.2.1
proof { cc_jump(w, node2partition@, N0, i as int); assert(is_root(w, P0, i as int)); }
@end 3.2.1
proof { cc_jump(w, node2partition@, N0, i as int); }
@post 3.2
proof { fsum_ge(w, node2partition@, N0, w.k); }
@tail 3.2
proof { assert forall|x: int| 0 <= x < i + 1 implies #[trigger] is_root(w, node2partition@, x) by { if x < i { } else { assert(f(w, node2partition@, i as int) == node2partition@[node as int]); } } }
@post 3
proof { cc_done(w, node2partition@, N0); }
@pre 4
proof { assert(is_cc(w, node2partition@, N0)); }
@loop 4
invariant
    win_ok(w), w == W0, N0.len() == w.n, level_ptr@ == L, lo == L[w.lb], w.lb == lb_level, w.ub == ub_level, lb_level < L.len(), ub_level < L.len(), 0 <= lb_level < ub_level, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), prior_ok(w, N0, m0), w.k <= w.n, w.n == n, n < i32::MAX, C0.len() >= n, node_cost@.len() >= n, C0 == partition_cost@, T0 == *total_cost, *part_cnt == 0, node2partition_map@.len() == n, node2partition@ == node2partition@, is_cc(w, node2partition@, N0), prior_ok(w, N0, m0), node2partition@.len() == w.n, 0 <= i <= w.n, part_exist@.len() == n, forall|l: int| 0 <= l < n ==> (#[trigger] part_exist@[l] != 0 <==> used(node2partition@, i as int, l)),
decreases n - i,
@head 4
proof { let v = i as int; if member(w, v) { let x = choose|x: int| 0 <= x < w.k && w.nodes[x] == v; assert(lab_ok(w, node2partition@, x)); assert(f(w, node2partition@, x) == node2partition@[v]); } else { assert(node2partition@[v] == N0[v]); }
    assert forall|l: int| 0 <= l < n implies (#[trigger] used(node2partition@, v + 1, l) <==> used(node2partition@, v, l) || node2partition@[v] == l) by { if used(node2partition@, v + 1, l) { let u = choose|u: int| 0 <= u < v + 1 && #[trigger] node2partition@[u] == l; assert(u == v || used(node2partition@, v, l)); } if used(node2partition@, v, l) { let u = choose|u: int| 0 <= u < v && #[trigger] node2partition@[u] == l; assert(used(node2partition@, v + 1, l)); } } }
@post 4
proof { assert forall|l: int| 0 <= l < n implies (#[trigger] part_exist@[l] != 0 <==> l < w.k && f(w, node2partition@, l) == l) by { used_is_root(w, node2partition@, N0, l); } }
@loop 5
invariant
    win_ok(w), w == W0, N0.len() == w.n, level_ptr@ == L, lo == L[w.lb], w.lb == lb_level, w.ub == ub_level, lb_level < L.len(), ub_level < L.len(), 0 <= lb_level < ub_level, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), prior_ok(w, N0, m0), w.k <= w.n, w.n == n, n < i32::MAX, C0.len() >= n, node_cost@.len() >= n, C0 == partition_cost@, T0 == *total_cost, is_cc(w, node2partition@, N0), 0 <= i <= n, part_exist@.len() == n, node2partition_map@.len() == n, *part_cnt == rootcnt(w, node2partition@, i as int), forall|l: int| 0 <= l < n ==> (#[trigger] part_exist@[l] != 0 <==> l < w.k && f(w, node2partition@, l) == l),
    forall|l: int| 0 <= l < i && part_exist@[l] != 0 ==> #[trigger] node2partition_map@[l] == rootcnt(w, node2partition@, l),
decreases n - i,
@head 5
proof { rootcnt_le(w, node2partition@, 0, i as int); }
@post 5
proof { rootcnt_le(w, node2partition@, w.k, n as int); }
@loop 6
invariant
    win_ok(w), w == W0, N0.len() == w.n, level_ptr@ == L, lo == L[w.lb], w.lb == lb_level, w.ub == ub_level, lb_level < L.len(), ub_level < L.len(), 0 <= lb_level < ub_level, hi == L[w.ub], w.k == hi - lo, 0 <= lo <= hi <= level_set@.len(), w.nodes == level_set@.subrange(lo, hi), prior_ok(w, N0, m0), w.k <= w.n, w.n == n, n < i32::MAX, C0.len() >= n, node_cost@.len() >= n, *part_cnt == rootcnt(w, node2partition@, w.k), _t1 == lo, node2partition@ == node2partition@, is_cc(w, node2partition@, N0), 0 <= node_ptr <= w.k, num_nodes_in_sub_DAG == w.k, node2partition_map@.len() == n, part_exist@.len() == n, forall|l: int| 0 <= l < n ==> (#[trigger] part_exist@[l] != 0 <==> l < w.k && f(w, node2partition@, l) == l), forall|l: int| 0 <= l < n && part_exist@[l] != 0 ==> #[trigger] node2partition_map@[l] == rootcnt(w, node2partition@, l),
    partition_cost@ == cc_acc(w, node2partition@, C0, node_cost@, node_ptr as int), partition_cost@.len() == C0.len(), *total_cost == cost_to(w, T0, node_cost@, node_ptr as int),
decreases w.k - node_ptr,
@head 6
proof { assert(w.nodes[node_ptr as int] == level_set@[lo + node_ptr as int]); assert(0 <= w.nodes[node_ptr as int] < w.n); assert(lab_ok(w, node2partition@, node_ptr as int)); assert(is_root(w, node2partition@, node_ptr as int)); let l = f(w, node2partition@, node_ptr as int); assert(part_exist@[l] != 0); rootcnt_le(w, node2partition@, 0, l); rootcnt_le(w, node2partition@, l, l); }
