@unit treeBasedGrouping
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name treeBasedGrouping
@props P09
@uses gtree csc
@opts complex isolate spinoff
@rlimit 20
@requires
ch_in_ok(DAG_ptr@, DAG_set@, n as int), n < 0x7fff_fffe, DAG_ptr@.len() == n + 1, DAG_set@.len() == DAG_ptr@[n as int],
@ensures
tree_groups(DAG_ptr@, DAG_set@, n as int, *final(ngroups) as int, final(group_ptr)@, final(group_set)@, !Lfactor), res,
@entry
hide(ch_in_ok); hide(is_transpose);
let ghost mut d = Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: seq![], ti: seq![] }; let ghost wh = !Lfactor; let ghost mut t: Gt = Gt { n: 0, ng: 0, gp: seq![], gs: seq![] }; let ghost mut bv: Seq<int> = seq![];
let ghost mut pos: Seq<int> = ch_none(n as int); let ghost mut mk: Seq<int> = tg_zero(n as int); let ghost mut tr: Seq<int> = tg_zero(n as int); let ghost mut ts: int = -1;
proof { ch_start(DAG_ptr@, DAG_set@, n as int); ch_n(d.c); }
@before let _r3: CSR = csc_to_csr_obj(&DAG);
proof { assert(DAG.p@ =~= DAG_ptr@); assert(DAG.i@ =~= DAG_set@); tg_pre(DAG_ptr@, DAG_set@, n as int, DAG); }
@after let mut DAG_inv: CSR = _r3;
proof { tg_start(d.c, DAG_inv.p@, DAG_inv.i@); }
@pre 1
proof { assert(DAG_inv_ptr@ == DAG_inv.p@.subrange(0, n + 1)); assert(DAG_inv_set@ == DAG_inv.i@.subrange(0, DAG_ptr@[n as int] as int)); d = Tg { c: d.c, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }; tg_snk_init(d, root_id@); }
@loop 1
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), 0 <= i <= n, tg_l(root_id@, mk, 1), tg_snk(d, mk, i as int), mk.len() == n,
decreases n - i,
@head 1
let ghost m0 = mk; proof { tg_snk_step(d, root_id@, mk, i as int); if tg_sink(d, i as int) { mk = mk.update(i as int, 1); } }
@pre 2
proof { assert(group_stack@ =~= seq![]); tg_begin(d, group_set@, mk, visited@); tg_tr_init(d, group_set@, pos); tg_gp_init(group_ptr@, n as int, tr, wh); }
@loop 2
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), size_restriction == n || !wh, group_set@.len() == n, pos.len() == n, mk.len() == n, visited@.len() == n, tr.len() == n, 0 <= set_cnt <= n, *ngroups == group_ptr@.len(), group_ptr@.len() >= 1, group_stack@.len() == 0, tg_l(root_id@, mk, 1), tg_l(group_stack@, mk, 2), tg_co(d, group_set@, set_cnt as int, pos, mk, visited@, -1, 0), tg_tr(d, group_set@, set_cnt as int, pos, tr), tg_gp(group_ptr@, n as int, set_cnt as int, tr, -1, wh),
decreases n - set_cnt,
@head 2
let ghost c0 = set_cnt; let ghost R = root_id@; let ghost M = mk; let ghost h0 = root_id@.last();
proof { tg_l_back(R, M, 1, 2); tg_l_push(group_stack@, M, 2, h0); assert(M[h0 as int] == 1); tg_move(d, group_set@, set_cnt as int, pos, M, visited@, -1, 0, h0 as int, 2); mk = M.update(h0 as int, 2); tg_take(d, group_set@, set_cnt as int, pos, mk, visited@.update(h0 as int, true), 0, h0 as int); ts = set_cnt as int;
    tg_gp_open(group_ptr@, n as int, set_cnt as int, tr, wh); tg_gp_len(group_ptr@, n as int, set_cnt as int, tr, -1, wh); }
@loop 2.1
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), size_restriction == n || !wh, group_set@.len() == n, pos.len() == n, mk.len() == n, visited@.len() == n, tr.len() == n, 0 <= set_cnt <= n, 0 <= ts == c0 <= set_cnt, *ngroups == group_ptr@.len(), group_ptr@.len() >= 1, tg_l(root_id@, mk, 1), tg_l(group_stack@, mk, 2), tg_co(d, group_set@, set_cnt as int, pos, mk, visited@, -1, 0), tg_tr(d, group_set@, set_cnt as int, pos, tr), tg_gp(group_ptr@, n as int, set_cnt as int, tr, ts, wh), 0 <= last_size <= set_cnt, wh ==> last_size == ts || set_cnt == n, tg_cur(d, set_cnt as int, pos, tr, ts, mk, -1) || (ts == set_cnt && group_stack@.len() == 1), set_cnt > c0 || group_stack@.len() > 0,
decreases n - set_cnt,
@head 2.1
proof { let h = group_stack@[0]; tg_l_front(group_stack@, mk, 2, 3); tg_l_other(root_id@, mk, 1, h as int, 3); tg_take(d, group_set@, set_cnt as int, pos, mk, visited@, 0, h as int); tg_cur_take(d, group_set@, set_cnt as int, pos, tr, ts, mk, group_stack@); mk = mk.update(h as int, 3); }
@loop 2.1.1
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), size_restriction == n || !wh, group_set@.len() == n, pos.len() == n, mk.len() == n, visited@.len() == n, tr.len() == n, 0 <= set_cnt <= n, 0 <= head < n, set_cnt < n, 0 <= ts == c0 <= set_cnt, 0 <= DAG_inv_ptr@[head as int] <= DAG_inv_ptr@[head + 1] <= DAG_ptr@[n as int], DAG_inv_ptr@[head as int] <= child_ptr, tg_l(root_id@, mk, 1), tg_l(group_stack@, mk, 2), tg_co(d, group_set@, set_cnt as int, pos, mk, visited@, head as int, child_ptr as int), tg_tr(d, group_set@, set_cnt as int, pos, tr), tg_gp(group_ptr@, n as int, set_cnt as int, tr, ts, wh), tg_cur(d, set_cnt as int, pos, tr, ts, mk, head as int),
decreases DAG_inv_ptr@[head + 1] - child_ptr,
@head 2.1.1
proof { let e = tg_child(d, group_set@, set_cnt as int, pos, mk, visited@, head as int, child_ptr as int); let v = DAG_inv_set@[child_ptr as int] as int; if !visited@[v] {
    tg_cur_child(d, set_cnt as int, pos, tr, ts, mk, head as int, v, e);
    if DAG_ptr@[v + 1] - DAG_ptr@[v] > 2 { tg_l_push(root_id@, mk, 1, v as i32); tg_l_other(group_stack@, mk, 2, v, 1); mk = mk.update(v, 1); } else { tg_l_push(group_stack@, mk, 2, v as i32); tg_l_other(root_id@, mk, 1, v, 2); mk = mk.update(v, 2); } } }
@post 2.1.1
proof { let h = head as int; let c = set_cnt as int; tg_place(d, group_set@, c, pos, mk, visited@, h, child_ptr as int); tg_cur_put(d, group_set@, c, pos, tr, ts, mk, h); tg_gp_put(group_ptr@, n as int, c, tr, ts, wh); tg_l_other(root_id@, mk, 1, h, 4); tg_l_other(group_stack@, mk, 2, h, 4);
    tr = tr.update(c, ts); pos = pos.update(h, c); mk = mk.update(h, 4); tg_gp_len(group_ptr@, n as int, c + 1, tr, ts, wh);
    if c + 1 - last_size == size_restriction { tg_gp_cut(group_ptr@, n as int, c + 1, tr, ts, wh); } }
@post 2.1
proof { tg_gp_shut(group_ptr@, n as int, set_cnt as int, tr, ts, wh); }
@post 2
proof { assert(root_id@ =~= seq![] && group_stack@ =~= seq![]); tg_all(d, group_set@, set_cnt as int, pos, mk, visited@); tg_gp_end(group_ptr@, n as int, tr, wh); tg_gp_len(group_ptr@, n as int, n as int, tr, -1, wh); let gpf = if group_ptr@.last() != n { group_ptr@.push(n) } else { group_ptr@ }; tg_gt(d, gpf, group_set@, tr, wh); t = ch_gt(d.c, gpf, group_set@); }
@pre 3
proof { gt_start(t, group_id@, group_size@); }
@loop 3
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), t.gp == group_ptr@, 0 <= g <= t.ng, gt_gid(t, group_id@, t.gp[g as int] as int), gt_sz(t, group_size@, t.gp[g as int] as int),
decreases t.ng - g,
@head 3
proof { gt_grp(t, g as int); }
@loop 3.1
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), t.gp == group_ptr@, 0 <= g < t.ng, 0 <= t.gp[g as int] <= i <= t.gp[g + 1] <= n, id == gt_min(t.gs, t.gp[g as int] as int, i as int, n as int),
decreases t.gp[g + 1] - i,
@head 3.1
proof { gt_node(t, i as int); }
@post 3.1
proof { let w = gt_min_is(t, g as int); gt_sz_step(t, group_size@, g as int); assert(id == gt_mn(t, g as int)); }
@loop 3.2
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), t.gp == group_ptr@, 0 <= g < t.ng, 0 <= t.gp[g as int] <= i <= t.gp[g + 1] <= n, id == gt_mn(t, g as int), gt_gid(t, group_id@, i as int), gt_sz(t, group_size@, t.gp[g + 1] as int),
decreases t.gp[g + 1] - i,
@head 3.2
proof { gt_gid_step(t, group_id@, g as int, i as int); }
@pre 4
proof { gt_pre_init(t, group_id@, group_size@); }
@loop 4
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), t.gp == group_ptr@, 1 <= i <= n, gt_gid(t, group_id@, n as int), gt_pre(t, group_size@, i as int),
decreases n - i,
@head 4
proof { gt_pre_step(t, group_size@, i as int); }
@pre 5
proof { bv = seq![]; gt_ptr_init(t, group_ptr@); }
@loop 5
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), 0 <= i <= n, gt_gid(t, group_id@, n as int), gt_pre(t, group_size@, n as int), gt_ptr(t, group_ptr@, bv, i as int),
decreases n - i,
@head 5
proof { gt_ptr_step(t, group_size@, group_ptr@, bv, i as int); if group_size@[i + 1] != group_size@[i as int] { bv = bv.push(i as int); } }
@pre 6
proof { gt_put_init(t, group_size@, unordered_group_set@); }
@loop 6
invariant d == (Tg { c: Ch { p: DAG_ptr@, s: DAG_set@, n: n as int }, tp: DAG_inv_ptr@, ti: DAG_inv_set@ }), tg_ok(d), 1 <= n < 0x7fff_fffe, DAG_ptr@.len() > n, DAG_inv_ptr@.len() > n, 0 <= DAG_ptr@[n as int] < i32::MAX, DAG_ptr@[n as int] <= DAG_set@.len(), gt_ok(t), t.n == n, t.gs == group_set@, group_set@.len() == n, t.ng == *ngroups, 0 <= t.ng <= n, t.gp.len() == t.ng + 1, t.gp[0] == 0, t.gp[t.ng] == n, group_id@.len() == n, group_size@.len() == n + 1, ch_pl(d.c, t.gs, t.n, pos), tg_tr(d, t.gs, t.n, pos, tr), tg_gp(t.gp, t.n, t.n, tr, -1, wh), 0 <= i <= n, gt_gid(t, group_id@, n as int), gt_ptr(t, group_ptr@, bv, n as int), gt_cur(t, group_size@, i as int), gt_put(t, unordered_group_set@, i as int), unordered_group_set@.len() == n,
decreases n - i,
@head 6
proof { gt_put_step(t, group_id@, group_size@, unordered_group_set@, i as int); }
@exit
proof { let ord = gt_done(t, group_ptr@, bv, unordered_group_set@); tg_result(d, t, pos, tr, wh, group_ptr@, group_set@, ord); }
