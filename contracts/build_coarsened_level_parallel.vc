@unit build_coarsened_level_parallel
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name build_coarsened_level_parallel
@props P24
@uses fall
@opts complex isolate
@requires
n >= 0, n < i32::MAX, dag_in(Lp@, Li@, n as int), acyclic(Lp@, Li@, n as int), cores >= 1, cores < i32::MAX,
@ensures
res == 1,
good_sched(Lp@, Li@, n as int, *final(coarse_level_no) as int, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@),
@pre 1
let ghost d = Lv { p: Lp@, g: Li@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: n_levels as int };
proof { lv_mk(d); lv_sizes(d); assert(n > 0); lv_pos(d, 0); assert(n_levels > 0); assert(inc(WM@)) by { reveal(inc); } }
@loop 1
invariant_except_break
    0 <= i, WM@.len() > 0 ==> i < n_levels && WM@.last() < i && WM@[0] == 0, WM@.len() == 0 ==> i == 0,
invariant
    d == (Lv { p: Lp@, g: Li@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: n_levels as int }), lv_ok(d), 0 < n_levels <= n, coarsen_factor > 0, n + coarsen_factor <= i32::MAX, inc(WM@),
ensures
    WM@.len() >= 1, WM@[0] == 0, WM@.last() == n_levels,
decreases n_levels - i,
@head 1
proof { inc_push(WM@, i); if i + coarsen_factor >= n_levels { inc_push(WM@.push(i), n_levels); } }
@post 1
proof { inc_wm(d, WM@); }
@after computeSchedule\(.*
proof { good_mk(Lp@, Li@, n as int, WM@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); }
@pre 2
let ghost d = Lv { p: Lp@, g: Li@, n: n as int, lev: node_to_level@, lp: coarse_part_ptr@, ls: coarse_node_ptr@, c: *coarse_level_no as int };
proof { lv_mk(d); lv_sizes(d); }
@loop 2
invariant
    d == (Lv { p: Lp@, g: Li@, n: n as int, lev: node_to_level@, lp: coarse_part_ptr@, ls: coarse_node_ptr@, c: *coarse_level_no as int }), lv_ok(d), 0 <= *coarse_level_no < i32::MAX, coarse_node_ptr@.len() == n, coarse_level_ptr@.len() == *coarse_level_no + 1, 0 <= i <= *coarse_level_no + 1, forall|j: int| 0 <= j < i ==> #[trigger] coarse_level_ptr@[j] == j,
decreases *coarse_level_no + 1 - i,
@post 2
proof { level_sched(d, coarse_level_ptr@); }
