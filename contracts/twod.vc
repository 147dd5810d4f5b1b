@unit twod
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name twoDReordering
@props P12
@uses iters
@opts complex isolate spinoff
@requires
upt_ok(final_level_ptr@, final_level_no as int), 0 <= n < Lp@.len(), 0 <= Lp@[n as int] <= Li@.len(),
ug_ok(row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int)),
@ensures
tuples(row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), old(final_tuple_ptr)@, final(final_tuple_ptr)@, final_level_ptr@[final_level_no as int] + 1),
items_ok(Lp@, Li@, n as int, final(final_iter_ptr)@),
parts_same(row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), ks(final(final_iter_ptr)@)),
@entry
let ghost d = row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int); let ghost p = Lp@; let ghost T0 = final_tuple_ptr@; let ghost mut un = Seq::<i32>::empty();
proof { lv_start(final_level_ptr@, final_level_no as int); ug_bounds(d); }
@pre 1
proof { wr_init(d, un); it_init(p, Li@, n as int, final_iter_ptr@, un); ro_init(d, cnc_group_ptr@); }
@loop 1
invariant
    d == row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), d.ng == n, p == Lp@, p == d.gp, d.gs == ident(d.n), d.n == p[n as int], d.n <= Li@.len(), 0 <= n < p.len(), ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, 0 <= cnt <= d.n, cnc_group_ptr@.len() > 0, items(p, Li@, n as int, final_iter_ptr@, un), 0 <= i1 <= final_level_no, tuples(d, T0, final_tuple_ptr@, final_level_ptr@[i1 as int] as int + 1), runs_ok(d, cnc_group_ptr@, final_level_ptr@[i1 as int] as int, cnt as int), cnc_group_ptr@[cnc_group_ptr@.len() - 1] == cnt, wr(d, un, d.pp[final_level_ptr@[i1 as int] as int] as int, gst(d, d.pp[final_level_ptr@[i1 as int] as int] as int), cnt as int),
decreases final_level_no - i1,
@head 1
proof { upt_at(final_level_ptr@, final_level_no as int, i1 as int); }
@loop 1.1
invariant
    d == row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), d.ng == n, p == Lp@, p == d.gp, d.gs == ident(d.n), d.n == p[n as int], d.n <= Li@.len(), 0 <= n < p.len(), ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, 0 <= cnt <= d.n, cnc_group_ptr@.len() > 0, items(p, Li@, n as int, final_iter_ptr@, un), 0 <= i1 < final_level_no, 0 <= final_level_ptr@[i1 as int] <= j1 <= final_level_ptr@[i1 + 1] <= d.np, tuples(d, T0, final_tuple_ptr@, j1 as int + 1), runs_ok(d, cnc_group_ptr@, j1 as int, cnt as int), cnc_group_ptr@[cnc_group_ptr@.len() - 1] == cnt, wr(d, un, d.pp[j1 as int] as int, gst(d, d.pp[j1 as int] as int), cnt as int),
decreases final_level_ptr@[i1 + 1] - j1,
@head 1.1
proof { ug_part(d, j1 as int); }
@loop 1.1.1
invariant
    d == row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), d.ng == n, p == Lp@, p == d.gp, d.gs == ident(d.n), d.n == p[n as int], d.n <= Li@.len(), 0 <= n < p.len(), ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, 0 <= cnt <= d.n, cnc_group_ptr@.len() > 0, items(p, Li@, n as int, final_iter_ptr@, un), 0 <= i1 < final_level_no, 0 <= j1 < final_level_ptr@[i1 + 1] <= d.np, final_level_ptr@[i1 as int] <= j1, tuples(d, T0, final_tuple_ptr@, j1 + 1), runs_ok(d, cnc_group_ptr@, j1 as int, cnt as int), d.pp[j1 as int] <= k1 <= d.pp[j1 + 1] <= d.pp[d.np], 0 <= k1, -2 <= prev_i < n, wr(d, un, k1 as int, gst(d, k1 as int), cnt as int),
decreases d.pp[j1 + 1] - k1,
@head 1.1.1
proof { ug_pos(d, k1 as int); ro_push(d, cnc_group_ptr@, j1 as int, cnt); }
@loop 1.1.1.1
invariant
    d == row_ug(Lp@, final_part_ptr@, final_node_ptr@, final_level_ptr@, final_level_no as int, n as int), d.ng == n, p == Lp@, p == d.gp, d.gs == ident(d.n), d.n == p[n as int], d.n <= Li@.len(), 0 <= n < p.len(), ug_ok(d), upt_ok(final_level_ptr@, final_level_no as int), d.np == final_level_ptr@[final_level_no as int], 0 <= d.np < d.pp.len(), final_level_no < final_level_ptr@.len(), 0 <= d.n < i32::MAX, 0 <= cnt <= d.n, cnc_group_ptr@.len() > 0, items(p, Li@, n as int, final_iter_ptr@, un), 0 <= i1 < final_level_no, 0 <= j1 < final_level_ptr@[i1 + 1] <= d.np, final_level_ptr@[i1 as int] <= j1, tuples(d, T0, final_tuple_ptr@, j1 + 1), runs_ok(d, cnc_group_ptr@, j1 as int, cnt as int), d.pp[j1 as int] <= k1 < d.pp[j1 + 1] <= d.pp[d.np], 0 <= k1 < d.ns.len(), i == d.ns[k1 as int], 0 <= i < n, n < d.gp.len(), 0 <= p[i as int] <= k <= p[i + 1], prev_i == i, wr(d, un, k1 as int, k as int, cnt as int),
decreases p[i + 1] - k,
@head 1.1.1.1
let ghost U1 = un; let ghost I1 = final_iter_ptr@;
proof { row_entry(p, Li@, d, k1 as int, k as int); wr_step(d, un, k1 as int, k as int, cnt as int); ro_cnt(d, cnc_group_ptr@, j1 as int, cnt as int, cnt + 1); un = un.push(d.gs[k as int]); }
@tail 1.1.1.1
proof { it_step(p, Li@, n as int, I1, U1, iteration); }
@post 1.1.1.1
proof { wr_next(d, un, k1 as int, cnt as int); }
@post 1.1.1
proof { wr_len(d, un, d.pp[j1 + 1] as int, cnt as int); ro_push(d, cnc_group_ptr@, j1 as int, cnt); }
@tail 1.1
proof { ro_part(d, cnc_group_ptr@, j1 as int, cnt as int); }
@pre 2
let ghost mut o = Seq::<int>::empty(); let ghost I0 = final_iter_ptr@;
proof { ug_end2(d); wr_len(d, un, d.pp[d.np] as int, cnt as int); ug_total(d); assert(I0.len() == d.n) by { reveal(items); } o = mv_init(d, I0); ro_size(d, cnc_group_ptr@, d.np, cnt as int); assert(cnc_group_ptr@[0] == 0) by { reveal(runs_ok); } }
@loop 2
invariant
    d.n < i32::MAX, 0 <= g < cnc_group_ptr@.len() <= d.n + 1, runs_ok(d, cnc_group_ptr@, d.np, d.n), moved(d, I0, final_iter_ptr@, o, cnc_group_ptr@[g as int] as int),
decreases cnc_group_ptr@.len() - g,
@head 2
let ghost I2 = final_iter_ptr@;
proof { ro_run(d, cnc_group_ptr@, d.np, d.n, g as int); mv_len(d, I0, I2, o, cnc_group_ptr@[g as int] as int); }
@tail 2
proof { o = mv_step(d, I0, I2, o, final_iter_ptr@, cnc_group_ptr@, g as int); }
@post 2
proof { mv_done(d, p, Li@, n as int, I0, final_iter_ptr@, o, cnc_group_ptr@[g as int] as int); }
