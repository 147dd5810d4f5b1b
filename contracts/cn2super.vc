@unit cn2super
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name convertCNScheduleToSuperNode
@props P12
@uses cnsup
@opts complex isolate spinoff
@requires
upt_ok(coarse_level_ptr@, coarse_level_no as int), sp_ok(supernode_ptr@, num_supernode as int, n as int),
ug_ok(ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int)),
@ensures
sup_bounds(ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), supernode_ptr@, num_supernode as int, old(coarse_part_ptr)@, final(coarse_part_ptr)@),
sup_cover(ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), supernode_ptr@, num_supernode as int, final(coarse_part_ptr)@, final(coarse_node_ptr)@),
final(coarse_node_ptr)@ == sflat(ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), supernode_ptr@, num_supernode as int, old(coarse_part_ptr)@[coarse_level_ptr@[coarse_level_no as int] as int] as int),
@entry
let ghost d = ug_of(group_ptr@, group_set@, coarse_part_ptr@, coarse_node_ptr@, coarse_level_ptr@, coarse_level_no as int, n as int); let ghost sp = supernode_ptr@; let ghost m = num_supernode as int;
proof { lv_start(coarse_level_ptr@, coarse_level_no as int); ug_bounds(d); sp_ends(sp, m, n as int); }
@pre 1
proof { iu_init(sp, m, n as int, supernode_inv@); }
@loop 1
invariant
    d == ug_of(group_ptr@, group_set@, coarse_part_ptr@, coarse_node_ptr@, coarse_level_ptr@, coarse_level_no as int, n as int), sp == supernode_ptr@, m == num_supernode, 0 <= n < i32::MAX, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, 0 <= super_ <= m, inv_upto(sp, m, n as int, supernode_inv@, sp[super_ as int] as int),
decreases m - super_,
@head 1
proof { sp_at(sp, m, n as int, super_ as int); }
@loop 1.1
invariant
    d == ug_of(group_ptr@, group_set@, coarse_part_ptr@, coarse_node_ptr@, coarse_level_ptr@, coarse_level_no as int, n as int), sp == supernode_ptr@, m == num_supernode, 0 <= n < i32::MAX, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, 0 <= super_ < m, 0 <= sp[super_ as int] <= start_node <= sp[super_ + 1] <= n, inv_upto(sp, m, n as int, supernode_inv@, start_node as int),
decreases sp[super_ + 1] - start_node,
@head 1.1
proof { iu_step(sp, m, n as int, supernode_inv@, super_, start_node as int); }
@pre 2
proof { assert(supernode_inv@.len() == n) by { reveal(inv_upto); } sw_init(d, sp, m, coarse_node_ptr@); spts_init(d, sp, m); }
@loop 2
invariant
    d == ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), d.pp == current_part_ptr@, d.ns == current_node_ptr@, sp == supernode_ptr@, m == num_supernode, d.n == n, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, ug_ok(d), upt_ok(coarse_level_ptr@, coarse_level_no as int), d.np == coarse_level_ptr@[coarse_level_no as int], 0 <= d.np < d.pp.len(), coarse_level_no < coarse_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, inv_upto(sp, m, d.n, supernode_inv@, d.n), supernode_inv@.len() == n, 0 <= lvl <= coarse_level_no, sw(d, sp, m, coarse_node_ptr@, d.pp[coarse_level_ptr@[lvl as int] as int] as int, gst(d, d.pp[coarse_level_ptr@[lvl as int] as int] as int)), spts(d, sp, m, coarse_part_ptr@, coarse_level_ptr@[lvl as int] as int),
decreases coarse_level_no - lvl,
@head 2
proof { upt_at(coarse_level_ptr@, coarse_level_no as int, lvl as int); }
@loop 2.1
invariant
    d == ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), d.pp == current_part_ptr@, d.ns == current_node_ptr@, sp == supernode_ptr@, m == num_supernode, d.n == n, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, ug_ok(d), upt_ok(coarse_level_ptr@, coarse_level_no as int), d.np == coarse_level_ptr@[coarse_level_no as int], 0 <= d.np < d.pp.len(), coarse_level_no < coarse_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, inv_upto(sp, m, d.n, supernode_inv@, d.n), supernode_inv@.len() == n, 0 <= lvl < coarse_level_no, 0 <= coarse_level_ptr@[lvl as int] <= lvl_ptr <= coarse_level_ptr@[lvl + 1] <= d.np, sw(d, sp, m, coarse_node_ptr@, d.pp[lvl_ptr as int] as int, gst(d, d.pp[lvl_ptr as int] as int)), spts(d, sp, m, coarse_part_ptr@, lvl_ptr as int),
decreases coarse_level_ptr@[lvl + 1] - lvl_ptr,
@head 2.1
proof { ug_part(d, lvl_ptr as int); sw_len(d, sp, m, coarse_node_ptr@, d.pp[lvl_ptr as int] as int); }
@loop 2.1.1
invariant
    d == ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), d.pp == current_part_ptr@, d.ns == current_node_ptr@, sp == supernode_ptr@, m == num_supernode, d.n == n, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, ug_ok(d), upt_ok(coarse_level_ptr@, coarse_level_no as int), d.np == coarse_level_ptr@[coarse_level_no as int], 0 <= d.np < d.pp.len(), coarse_level_no < coarse_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, inv_upto(sp, m, d.n, supernode_inv@, d.n), supernode_inv@.len() == n, 0 <= lvl < coarse_level_no, 0 <= lvl_ptr < coarse_level_ptr@[lvl + 1] <= d.np, coarse_level_ptr@[lvl as int] <= lvl_ptr, spts(d, sp, m, coarse_part_ptr@, lvl_ptr as int), new_num_parts == coarse_node_ptr@.len() - spt(d, sp, m, lvl_ptr as int), 0 <= new_num_parts, coarse_node_ptr@.len() <= d.n, d.pp[lvl_ptr as int] <= part_ptr <= d.pp[lvl_ptr + 1] <= d.pp[d.np], 0 <= part_ptr, sw(d, sp, m, coarse_node_ptr@, part_ptr as int, gst(d, part_ptr as int)),
decreases d.pp[lvl_ptr + 1] - part_ptr,
@head 2.1.1
proof { ug_pos(d, part_ptr as int); }
@loop 2.1.1.1
invariant
    d == ug_of(group_ptr@, group_set@, old(coarse_part_ptr)@, old(coarse_node_ptr)@, coarse_level_ptr@, coarse_level_no as int, n as int), d.pp == current_part_ptr@, d.ns == current_node_ptr@, sp == supernode_ptr@, m == num_supernode, d.n == n, sp_ok(sp, m, n as int), 0 <= m < sp.len(), m <= i32::MAX, ug_ok(d), upt_ok(coarse_level_ptr@, coarse_level_no as int), d.np == coarse_level_ptr@[coarse_level_no as int], 0 <= d.np < d.pp.len(), coarse_level_no < coarse_level_ptr@.len(), 0 <= d.n < i32::MAX, d.ng <= i32::MAX, inv_upto(sp, m, d.n, supernode_inv@, d.n), supernode_inv@.len() == n, 0 <= lvl < coarse_level_no, 0 <= lvl_ptr < coarse_level_ptr@[lvl + 1] <= d.np, coarse_level_ptr@[lvl as int] <= lvl_ptr, spts(d, sp, m, coarse_part_ptr@, lvl_ptr as int), new_num_parts == coarse_node_ptr@.len() - spt(d, sp, m, lvl_ptr as int), 0 <= new_num_parts, coarse_node_ptr@.len() <= d.n, d.pp[lvl_ptr as int] <= part_ptr < d.pp[lvl_ptr + 1] <= d.pp[d.np], 0 <= part_ptr < d.ns.len(), group == d.ns[part_ptr as int], 0 <= group < d.ng, d.ng < d.gp.len(), 0 <= d.gp[group as int] <= node_ptr <= d.gp[group + 1] <= d.gs.len(),
    sw(d, sp, m, coarse_node_ptr@, part_ptr as int, node_ptr as int), prev_node == last_sup(d, sp, m, d.gp[group as int] as int, node_ptr as int),
decreases d.gp[group + 1] - node_ptr,
@head 2.1.1.1
proof { iu_use(d, sp, m, supernode_inv@, part_ptr as int, node_ptr as int); sw_step(d, sp, m, coarse_node_ptr@, part_ptr as int, node_ptr as int); }
@post 2.1.1.1
proof { sw_next(d, sp, m, coarse_node_ptr@, part_ptr as int); }
@post 2.1.1
proof { part_len(d, sp, m, coarse_node_ptr@, lvl_ptr as int, d.pp[lvl_ptr + 1] as int); sw_len(d, sp, m, coarse_node_ptr@, d.pp[lvl_ptr + 1] as int); spts_get(d, sp, m, coarse_part_ptr@, lvl_ptr as int); spts_step(d, sp, m, coarse_part_ptr@, lvl_ptr as int, coarse_node_ptr@.len() as i32); }
@post 2
proof { ug_end(d); sw_len(d, sp, m, coarse_node_ptr@, d.pp[d.np] as int); sup_done(d, sp, m, coarse_part_ptr@, coarse_node_ptr@); }
