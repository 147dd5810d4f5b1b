@unit ungroup
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name ungroupingScheduleAndApplyOrdering
@props P12
@uses ungroup
@opts complex isolate spinoff
@requires
upt_ok(final_level_ptr@, final_level_no as int),
ug_ok(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int)),
apply_post_order ==> po_pre(DAG_ptr@, DAG_set@, n as int),
@ensures
bounds_done(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), final(final_part_ptr)@),
parts_same(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), final(final_node_ptr)@),
each_once(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int)) ==> is_perm(final(final_node_ptr)@, n as int),
apply_sort_order ==> parts_asc(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), final(final_node_ptr)@),
apply_post_order ==> parts_topo(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), final(final_node_ptr)@, DAG_ptr@, DAG_set@),
!apply_sort_order && !apply_post_order ==> final(final_node_ptr)@ == base(ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int)),
@entry
let ghost d = ug_of(group_ptr@, group_set@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int);
proof { lv_start(final_level_ptr@, final_level_no as int); ug_bounds(d); }
@exit
proof { once_done(d, final_node_ptr@); }
@loop 1
invariant
    d == ug_of(group_ptr@, group_set@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), final_part_ptr@ == old(final_part_ptr)@, final_node_ptr@ == old(final_node_ptr)@, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, 0 <= i1 <= final_level_no, pts_upto(d, unpack_part_ptr@, final_level_ptr@[i1 as int] as int), wr(d, unpack_node_ptr@, d.pp[final_level_ptr@[i1 as int] as int] as int, gst(d, d.pp[final_level_ptr@[i1 as int] as int] as int), node_cnt as int), 0 <= node_cnt <= d.n,
decreases final_level_no - i1,
@pre 1
proof { wr_init(d, unpack_node_ptr@); }
@head 1
proof { upt_at(final_level_ptr@, final_level_no as int, i1 as int); }
@loop 1.1
invariant
    d == ug_of(group_ptr@, group_set@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), final_part_ptr@ == old(final_part_ptr)@, final_node_ptr@ == old(final_node_ptr)@, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, 0 <= i1 < final_level_no, final_level_ptr@[i1 as int] <= j1 <= final_level_ptr@[i1 + 1] <= d.np, 0 <= j1, pts_upto(d, unpack_part_ptr@, j1 as int), wr(d, unpack_node_ptr@, d.pp[j1 as int] as int, gst(d, d.pp[j1 as int] as int), node_cnt as int), 0 <= node_cnt <= d.n,
decreases final_level_ptr@[i1 + 1] - j1,
@head 1.1
proof { ug_part(d, j1 as int); wr_len(d, unpack_node_ptr@, d.pp[j1 as int] as int, node_cnt as int); }
@loop 1.1.1
invariant
    d == ug_of(group_ptr@, group_set@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), final_part_ptr@ == old(final_part_ptr)@, final_node_ptr@ == old(final_node_ptr)@, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, 0 <= i1 < final_level_no, final_level_ptr@[i1 as int] <= j1 < final_level_ptr@[i1 + 1] <= d.np, 0 <= j1 < d.np, pts_upto(d, unpack_part_ptr@, j1 + 1), d.pp[j1 as int] <= k1 <= d.pp[j1 + 1] <= d.pp[d.np], 0 <= k1, wr(d, unpack_node_ptr@, k1 as int, gst(d, k1 as int), node_cnt as int), 0 <= node_cnt <= d.n,
decreases d.pp[j1 + 1] - k1,
@head 1.1.1
proof { ug_pos(d, k1 as int); }
@loop 1.1.1.1
invariant
    d == ug_of(group_ptr@, group_set@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), final_part_ptr@ == old(final_part_ptr)@, final_node_ptr@ == old(final_node_ptr)@, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, 0 <= i1 < final_level_no, final_level_ptr@[i1 as int] <= j1 < final_level_ptr@[i1 + 1] <= d.np, 0 <= j1 < d.np, pts_upto(d, unpack_part_ptr@, j1 + 1), d.pp[j1 as int] <= k1 < d.pp[j1 + 1] <= d.pp[d.np], 0 <= k1 < d.ns.len(), g == d.ns[k1 as int], 0 <= g < d.ng, d.ng < d.gp.len(), 0 <= d.gp[g as int] <= k <= d.gp[g + 1] <= d.gs.len(), wr(d, unpack_node_ptr@, k1 as int, k as int, node_cnt as int), 0 <= node_cnt <= d.n,
decreases d.gp[g + 1] - k,
@head 1.1.1.1
proof { wr_step(d, unpack_node_ptr@, k1 as int, k as int, node_cnt as int); }
@post 1.1.1.1
proof { wr_next(d, unpack_node_ptr@, k1 as int, node_cnt as int); }
@post 1
proof { pts_done(d, unpack_part_ptr@, unpack_node_ptr@, d.pp[d.np] as int, node_cnt as int); re_init(d, unpack_node_ptr@, Seq::<i32>::empty()); assert(unpack_part_ptr@.push(node_cnt).len() == d.np + 1); }
@loop 2
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= i1 <= final_level_no, tail_same(d, final_node_ptr@, final_level_ptr@[i1 as int] as int), done_same(d, final_node_ptr@, final_level_ptr@[i1 as int] as int), done_asc(d, final_node_ptr@, final_level_ptr@[i1 as int] as int),
decreases final_level_no - i1,
@head 2
proof { upt_at(final_level_ptr@, final_level_no as int, i1 as int); }
@loop 2.1
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= i1 < final_level_no, 0 <= final_level_ptr@[i1 as int] <= j1 <= final_level_ptr@[i1 + 1] <= d.np, tail_same(d, final_node_ptr@, j1 as int), done_same(d, final_node_ptr@, j1 as int), done_asc(d, final_node_ptr@, j1 as int),
decreases final_level_ptr@[i1 + 1] - j1,
@head 2.1
let ghost S1 = final_node_ptr@;
proof { ug_part(d, j1 as int); assert(final_part_ptr@[j1 as int] == pt(d, j1 as int)); assert(final_part_ptr@[j1 + 1] == pt(d, j1 + 1)); assert(S1.len() == d.n) by { reveal(tail_same); } }
@tail 2.1
proof { if pt(d, j1 as int) != pt(d, j1 + 1) { sorted_part(d, S1, final_node_ptr@, j1 as int); } else { same_part(d, S1, j1 as int); } re_step(d, S1, final_node_ptr@, j1 as int); re_asc(d, S1, final_node_ptr@, j1 as int); }
@post 2
proof { same_done(d, final_node_ptr@); asc_done(d, final_node_ptr@); }
@loop 3
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= i <= n, post_order@.len() == n, post_orderInv@.len() == n, is_perm(post_order@, n as int), forall|k: int| 0 <= k < i ==> post_orderInv@[#[trigger] post_order@[k] as int] == k,
decreases n - i,
@post 3
proof { inv_both(post_orderInv@, post_order@, n as int); re_init(d, final_node_ptr@, post_orderInv@); }
@loop 4
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= lvl <= final_level_no, topological(DAG_ptr@, DAG_set@, n as int, post_order@), inverses(post_orderInv@, post_order@, n as int), is_perm(post_order@, n as int), post_order@.len() == n, post_orderInv@.len() == n, node_ptr_order@.len() == n, tail_same(d, final_node_ptr@, final_level_ptr@[lvl as int] as int), done_same(d, final_node_ptr@, final_level_ptr@[lvl as int] as int), done_pos(d, final_node_ptr@, post_orderInv@, final_level_ptr@[lvl as int] as int),
decreases final_level_no - lvl,
@head 4
proof { upt_at(final_level_ptr@, final_level_no as int, lvl as int); }
@loop 4.1
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= lvl < final_level_no, topological(DAG_ptr@, DAG_set@, n as int, post_order@), inverses(post_orderInv@, post_order@, n as int), is_perm(post_order@, n as int), post_order@.len() == n, post_orderInv@.len() == n, node_ptr_order@.len() == n, 0 <= final_level_ptr@[lvl as int] <= p <= final_level_ptr@[lvl + 1] <= d.np, tail_same(d, final_node_ptr@, p as int), done_same(d, final_node_ptr@, p as int), done_pos(d, final_node_ptr@, post_orderInv@, p as int),
decreases final_level_ptr@[lvl + 1] - p,
@head 4.1
let ghost S1 = final_node_ptr@; let ghost mut w1 = node_ptr_order@;
proof { ug_part(d, p as int); assert(final_part_ptr@[p as int] == pt(d, p as int)); assert(final_part_ptr@[p + 1] == pt(d, p + 1)); assert(S1.len() == d.n) by { reveal(tail_same); } got_init(d, S1, post_orderInv@, node_ptr_order@, p as int); }
@loop 4.1.1
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= lvl < final_level_no, topological(DAG_ptr@, DAG_set@, n as int, post_order@), inverses(post_orderInv@, post_order@, n as int), is_perm(post_order@, n as int), post_order@.len() == n, post_orderInv@.len() == n, node_ptr_order@.len() == n, 0 <= p < d.np, S1 == final_node_ptr@, tail_same(d, final_node_ptr@, p as int), done_same(d, final_node_ptr@, p as int), done_pos(d, final_node_ptr@, post_orderInv@, p as int), p + 1 < final_part_ptr@.len(), final_part_ptr@[p as int] == pt(d, p as int), final_part_ptr@[p + 1] == pt(d, p + 1), 0 <= pt(d, p as int) <= pt(d, p + 1) <= d.n, pt(d, p as int) <= np <= pt(d, p + 1), cnt == np - pt(d, p as int), got_pos(d, S1, post_orderInv@, node_ptr_order@, p as int, cnt as int),
decreases pt(d, p + 1) - np,
@head 4.1.1
proof { in_nodes(d, S1, p as int, np as int); got_step(d, S1, post_orderInv@, node_ptr_order@, p as int, cnt as int); }
@post 4.1.1
proof { w1 = node_ptr_order@; }
@pre 4.1.2
let ghost w2 = node_ptr_order@; let ghost c = pt(d, p + 1) - pt(d, p as int);
proof { sorted_range(d, S1, post_orderInv@, post_order@, w1, w2, p as int, c); put_init(d, S1, post_order@, w2, p as int); }
@loop 4.1.2
invariant
    d == ug_of(group_ptr@, group_set@, old(final_part_ptr)@, old(final_node_ptr)@, final_level_ptr@, final_level_no as int, n as int), d.n == n, ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, bounds_done(d, final_part_ptr@), final_part_ptr@.len() == d.np + 1, final_node_ptr@.len() == d.n, 0 <= lvl < final_level_no, topological(DAG_ptr@, DAG_set@, n as int, post_order@), inverses(post_orderInv@, post_order@, n as int), is_perm(post_order@, n as int), post_order@.len() == n, post_orderInv@.len() == n, node_ptr_order@.len() == n, 0 <= p < d.np, S1.len() == d.n, tail_same(d, S1, p as int), done_same(d, S1, p as int), done_pos(d, S1, post_orderInv@, p as int), p + 1 < final_part_ptr@.len(), final_part_ptr@[p as int] == pt(d, p as int), final_part_ptr@[p + 1] == pt(d, p + 1), 0 <= pt(d, p as int) <= pt(d, p + 1) <= d.n, pt(d, p as int) <= np <= pt(d, p + 1), cnt == np - pt(d, p as int), c == pt(d, p + 1) - pt(d, p as int),
    w2 == node_ptr_order@, final_node_ptr@.len() == d.n, forall|x: int| 0 <= x < c ==> 0 <= #[trigger] w2[x] < d.n, put_pos(d, S1, final_node_ptr@, post_order@, w2, p as int, cnt as int),
decreases pt(d, p + 1) - np,
@head 4.1.2
proof { assert(0 <= w2[cnt as int] < d.n); put_step(d, S1, final_node_ptr@, post_order@, w2, p as int, cnt as int); }
@post 4.1.2
proof { put_done(d, S1, final_node_ptr@, post_orderInv@, post_order@, w1, w2, p as int, c); re_step(d, S1, final_node_ptr@, p as int); re_pos(d, S1, final_node_ptr@, post_orderInv@, p as int); }
@post 4
proof { same_done(d, final_node_ptr@); topo_done(d, final_node_ptr@, DAG_ptr@, DAG_set@, post_order@, post_orderInv@); }
