@unit chainGrouping
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name chainGrouping
@props P09
@uses chains
@opts complex isolate spinoff
@rlimit 20
@requires
ch_in_ok(DAG_ptr@, DAG_set@, n as int),
@ensures
chain_groups(DAG_ptr@, DAG_set@, n as int, *final(ngroups) as int, final(group_ptr)@, final(group_set)@), res,
@entry
let ghost d = Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }; let ghost mut t: Gt = Gt { n: 0, ng: 0, gp: seq![], gs: seq![] }; let ghost mut bv: Seq<int> = seq![]; let ghost mut pos: Seq<int> = ch_none(n as int);
proof { ch_start(DAG_ptr@, DAG_set@, n as int); ch_n(d); }
@pre 1
proof { ch_cnt_init(d, in_degree@); }
@loop 1
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, 0 <= i <= n, ch_cnt(d, in_degree@, DAG_ptr@[i as int] as int),
decreases n - i,
@head 1
proof { ch_cnt_diag(d, in_degree@, i as int); }
@loop 1.1
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, 0 <= i < n, 0 <= DAG_ptr@[i as int] < child_ptr <= DAG_ptr@[i + 1] <= DAG_ptr@[n as int], ch_cnt(d, in_degree@, child_ptr as int),
decreases DAG_ptr@[i + 1] - child_ptr,
@head 1.1
proof { assert(ch_edge(d.p, d.n, i as int, child_ptr as int)); ch_cnt_edge(d, in_degree@, i as int, child_ptr as int); }
@pre 2
proof { ch_rts_init(d, root_id@); }
@loop 2
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, ch_cnt(d, in_degree@, DAG_ptr@[n as int] as int), 0 <= j <= n, ch_rts(d, root_id@, j as int),
decreases n - j,
@head 2
proof { ch_dg(d, in_degree@, j as int); ch_rts_step(d, root_id@, j as int); }
@pre 3
proof { ch_begin(d, group_set@, root_id@); ch_vis_init(d, visited@); ch_lists_init(d, group_set@, group_ptr@); }
@loop 3
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, ch_cnt(d, in_degree@, DAG_ptr@[n as int] as int), group_set@.len() == n, pos.len() == n, visited@.len() == n, 0 <= set_cnt <= n, *ngroups == group_ptr@.len(), group_stack@.len() == 0, ch_core(d, group_set@, set_cnt as int, pos, root_id@, -1, 0), ch_vis(d, visited@, pos, -1), ch_lists(d, group_set@, group_ptr@, set_cnt as int, -1),
decreases n - set_cnt,
@head 3
let ghost R0 = root_id@; let ghost R1 = R0.drop_last(); let ghost h0 = R0.last(); let ghost c0 = set_cnt;
proof { assert(R0 =~= R1.push(h0)); ch_take(d, group_set@, set_cnt as int, pos, R1, h0); ch_vis_set(d, visited@, pos, h0 as int); ch_lists_len(d, group_set@, group_ptr@, set_cnt as int, -1); ch_lists_open(d, group_set@, group_ptr@, set_cnt as int, h0 as int); assert(R1 + seq![h0] =~= R0); }
@pre 3.1
proof { assert(group_stack@ =~= seq![h0]); assert(root_id@ =~= R1); }
@loop 3.1
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, ch_cnt(d, in_degree@, DAG_ptr@[n as int] as int), group_set@.len() == n, pos.len() == n, visited@.len() == n, 0 <= set_cnt <= n, *ngroups == group_ptr@.len(), group_stack@.len() <= 1, ch_core(d, group_set@, set_cnt as int, pos, root_id@ + group_stack@, -1, 0), ch_vis(d, visited@, pos, ch_y(group_stack@)), ch_lists(d, group_set@, group_ptr@, set_cnt as int, ch_y(group_stack@)), set_cnt >= c0, group_stack@.len() == 0 ==> set_cnt > c0,
decreases n - set_cnt,
@head 3.1
let ghost h = group_stack@[0]; let ghost V = visited@.update(h as int, true); let ghost RR = root_id@;
proof { assert(root_id@ + group_stack@ =~= root_id@.push(h)); ch_take(d, group_set@, set_cnt as int, pos, root_id@, h); ch_vis_set(d, visited@, pos, h as int); assert(h == group_stack@.last()); assert(group_stack@.drop_last() =~= seq![]);
    if DAG_ptr@[h + 1] - DAG_ptr@[h as int] == 2 { let e = DAG_ptr@[h as int] + 1; ch_child(d, group_set@, set_cnt as int, pos, root_id@, h as int, e); ch_dg(d, in_degree@, DAG_set@[e] as int); ch_vis_at(d, V, pos, h as int, DAG_set@[e] as int); } }
@loop 3.1.1
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, in_degree@.len() == n, ch_cnt(d, in_degree@, DAG_ptr@[n as int] as int), group_set@.len() == n, pos.len() == n, visited@.len() == n, 0 <= set_cnt <= n, *ngroups == group_ptr@.len(), 0 <= head < n, 0 <= DAG_ptr@[head as int] < i <= DAG_ptr@[head + 1] <= DAG_ptr@[n as int], set_cnt < n, group_stack@.len() == 0, ch_core(d, group_set@, set_cnt as int, pos, root_id@, head as int, i as int), ch_vis(d, visited@, pos, head as int),
decreases DAG_ptr@[head + 1] - i,
@head 3.1.1
proof { ch_child(d, group_set@, set_cnt as int, pos, root_id@, head as int, i as int); ch_vis_at(d, visited@, pos, head as int, DAG_set@[i as int] as int); }
@before let _o6: i32 = set_cnt;
proof { let P = root_id@ + group_stack@; if group_stack@.len() > 0 { assert(P =~= RR.push(group_stack@[0])); } else { assert(P =~= root_id@); }
    ch_place(d, group_set@, set_cnt as int, pos, P, h as int); ch_lists_put(d, group_set@, group_ptr@, set_cnt as int, h, ch_y(group_stack@)); let p2 = pos.update(h as int, set_cnt as int); assert(ch_vis(d, V, p2, -1)); ch_vis_any(d, V, p2, ch_y(group_stack@)); pos = p2; }
@post 3.1
proof { assert(root_id@ + group_stack@ =~= root_id@); }
@post 3
proof { assert(root_id@ =~= seq![]); ch_all(d, group_set@, set_cnt as int, pos); ch_tail(d, group_set@, group_ptr@, set_cnt as int); t = ch_gt(d, group_ptr@.push(set_cnt), group_set@); }
@pre 4
proof { gt_start(t, group_id@, group_size@); }
@loop 4
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), t.gp == group_ptr@, 0 <= g <= t.ng, gt_gid(t, group_id@, t.gp[g as int] as int), gt_sz(t, group_size@, t.gp[g as int] as int),
decreases t.ng - g,
@head 4
proof { gt_grp(t, g as int); }
@loop 4.1
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), t.gp == group_ptr@, 0 <= g < t.ng, 0 <= t.gp[g as int] <= i <= t.gp[g + 1] <= n, id == gt_min(t.gs, t.gp[g as int] as int, i as int, n as int),
decreases t.gp[g + 1] - i,
@head 4.1
proof { gt_node(t, i as int); }
@post 4.1
proof { let w = gt_min_is(t, g as int); gt_sz_step(t, group_size@, g as int); assert(id == gt_mn(t, g as int)); }
@loop 4.2
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), t.gp == group_ptr@, 0 <= g < t.ng, 0 <= t.gp[g as int] <= i <= t.gp[g + 1] <= n, id == gt_mn(t, g as int), gt_gid(t, group_id@, i as int), gt_sz(t, group_size@, t.gp[g + 1] as int),
decreases t.gp[g + 1] - i,
@head 4.2
proof { gt_gid_step(t, group_id@, g as int, i as int); }
@pre 5
proof { gt_pre_init(t, group_id@, group_size@); }
@loop 5
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), t.gp == group_ptr@, 1 <= i <= n, gt_gid(t, group_id@, n as int), gt_pre(t, group_size@, i as int),
decreases n - i,
@head 5
proof { gt_pre_step(t, group_size@, i as int); }
@pre 6
proof { bv = seq![]; gt_ptr_init(t, group_ptr@); }
@loop 6
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), 0 <= i <= n, gt_gid(t, group_id@, n as int), gt_pre(t, group_size@, n as int), gt_ptr(t, group_ptr@, bv, i as int),
decreases n - i,
@head 6
proof { gt_ptr_step(t, group_size@, group_ptr@, bv, i as int); if group_size@[i + 1] != group_size@[i as int] { bv = bv.push(i as int); } }
@pre 7
proof { gt_put_init(t, group_size@, unordered_group_set@); }
@loop 7
invariant d == (Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }), ch_ok(d), 1 <= n < i32::MAX, DAG_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), DAG_ptr@[0] == 0, gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_linked(d, t.gp, t.gs, t.ng), 0 <= i <= n, gt_gid(t, group_id@, n as int), gt_ptr(t, group_ptr@, bv, n as int), gt_cur(t, group_size@, i as int), gt_put(t, unordered_group_set@, i as int), unordered_group_set@.len() == n,
decreases n - i,
@head 7
proof { gt_put_step(t, group_id@, group_size@, unordered_group_set@, i as int); }
@exit
proof { let ord = gt_done(t, group_ptr@, bv, unordered_group_set@); ch_result(d, t, group_ptr@, group_set@, ord); }
