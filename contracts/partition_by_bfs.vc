@unit partition_by_bfs
@src utils/utils.cpp
@ns sym_lib
@name partition_by_bfs
@props P23
@uses visit graph
@opts complex
@requires
n >= 0, 1 <= part_no < i32::MAX, gwf(df.p@, df.i@, n as int), weight@.len() >= n, target_weight@.len() == 0 || target_weight@.len() >= part_no,
@ensures
*final(final_level_no) == 1, fina_level_ptr@.len() == 2, fina_level_ptr@[0] == 0, fina_level_ptr@[1] == part_no,
final_part_ptr@.len() == part_no + 1, final_part_ptr@[0] == 0, final_part_ptr@[part_no as int] == n, forall|k: int| 0 <= k < part_no ==> #[trigger] final_part_ptr@[k] <= final_part_ptr@[k + 1],
final_node_ptr@.len() == n, is_perm(final_node_ptr@, n as int),
@entry
let ghost pn = part_no as int; let ghost mut fin: Seq<bool> = Seq::empty(); let ghost mut fs: Seq<Vec<i32>> = Seq::empty();
@loop 1
invariant 0 <= i <= n_in1, n_in1 == n, weight@.len() >= n,
decreases n_in1 - i,
@pre 2
proof { held_init(set_temp@, stack@, is_visited@, n as int); }
@loop 2
invariant
    0 <= i <= part_no, part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, n >= 0, gwf(df.p@, df.i@, n as int), weight@.len() >= n, even_weight@.len() >= pn,
    visits(held(set_temp@, stack@), is_visited@, n as int), visited_nodes == cat(set_temp@, 0, pn).len(), visited_nodes <= n, is_visited@.len() == n,
decreases part_no - i,
@loop 2.1
invariant
    0 <= i < part_no, part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, n >= 0, gwf(df.p@, df.i@, n as int), weight@.len() >= n, even_weight@.len() >= pn,
    visits(held(set_temp@, stack@), is_visited@, n as int), visited_nodes == cat(set_temp@, 0, pn).len(), visited_nodes <= n, is_visited@.len() == n,
decreases n - visited_nodes,
@head 2.1
let ghost vn0 = visited_nodes as int;
@loop 2.1.1
invariant_except_break
    nxt_start == -1,
invariant
    0 <= k <= n, is_visited@.len() == n,
ensures
    nxt_start == -1 || (0 <= nxt_start < n && !is_visited@[nxt_start as int]),
decreases n - k,
@before push(&mut stack, nxt_start);
proof { held_enter(set_temp@, stack@, is_visited@, n as int, nxt_start); }
@loop 2.1.2
invariant_except_break
    vn0 < visited_nodes || stack@.len() > 0,
invariant
    0 <= i < part_no, part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, n >= 0, gwf(df.p@, df.i@, n as int), weight@.len() >= n, even_weight@.len() >= pn,
    visits(held(set_temp@, stack@), is_visited@, n as int), visited_nodes == cat(set_temp@, 0, pn).len(), vn0 <= visited_nodes <= n, is_visited@.len() == n,
ensures
    vn0 < visited_nodes,
decreases n - visited_nodes,
@head 2.1.2
let ghost st0 = set_temp@; let ghost q0 = stack@;
proof { held_len(set_temp@, stack@, is_visited@, n as int); held_q(set_temp@, stack@, is_visited@, n as int, 0); }
@pre 2.1.2.1
proof { held_move(st0, set_temp@, i as int, q0, 0, is_visited@, n as int); }
@loop 2.1.2.1
invariant
    gwf(df.p@, df.i@, n as int), 0 <= cn < n, df.p@[cn as int] <= k <= df.p@[cn + 1], n >= 0, set_temp@.len() == pn,
    visits(held(set_temp@, stack@), is_visited@, n as int), is_visited@.len() == n,
decreases df.p@[cn + 1] - k,
@before push(&mut stack, cnn);
proof { held_enter(set_temp@, stack@, is_visited@, n as int, cnn); }
@pre 3
proof { held_len(set_temp@, stack@, is_visited@, n as int); }
let ghost q3 = stack@;
proof { assert(stack@.subrange(0, stack@.len() as int) =~= stack@); }
@loop 3
invariant
    0 <= m <= stack@.len(), part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, n >= 0, stack@ == q3, is_visited@.len() == n, stack@.len() <= n,
    visits(held(set_temp@, stack@.subrange(m as int, stack@.len() as int)), is_visited@, n as int),
decreases stack@.len() - m,
@head 3
let ghost s3 = set_temp@; let ghost r3 = stack@.subrange(m as int, stack@.len() as int);
@tail 3
proof {
    held_move(s3, set_temp@, pn - 1, r3, 0, is_visited@, n as int);
    assert(r3.remove(0) =~= stack@.subrange(m + 1, stack@.len() as int));
}
@pre 4
proof { assert(stack@.subrange(stack@.len() as int, stack@.len() as int) =~= Seq::<i32>::empty()); fin = is_visited@; }
@loop 4
invariant
    0 <= k <= n, part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, n >= 0, is_visited@.len() == n, fin.len() == n,
    visits(held(set_temp@, Seq::<i32>::empty()), fin, n as int),
    forall|v: int| 0 <= v < k ==> #[trigger] fin[v], forall|v: int| k <= v < n ==> #[trigger] fin[v] == is_visited@[v],
decreases n - k,
@head 4
let ghost s4 = set_temp@;
@tail 4
proof {
    if !is_visited@[k as int] { held_direct(s4, set_temp@, pn - 1, Seq::<i32>::empty(), fin, n as int, k); fin = fin.update(k as int, true); }
}
@pre 5
proof { held_perm(set_temp@, Seq::<i32>::empty(), fin, n as int); cat_mono(set_temp@, 0, pn); fs = set_temp@; }
@loop 5
invariant
    0 <= l <= pn, part_no == pn, 1 <= pn < i32::MAX, set_temp@.len() == pn, set_temp@ == fs, n >= 0, cat(fs, 0, pn).len() == n,
    final_part_ptr@.len() == pn + 1, final_node_ptr@.len() == n, final_part_ptr@[0] == 0,
    forall|k: int| 0 <= k <= l ==> #[trigger] final_part_ptr@[k] == cat(fs, 0, k).len(),
    forall|x: int| 0 <= x < cat(fs, 0, l as int).len() ==> #[trigger] final_node_ptr@[x] == cat(fs, 0, l as int)[x],
decreases pn - l,
@head 5
proof { cat_mono(fs, l as int, pn); cat_mono(fs, l + 1, pn); cat_mono(fs, l as int, l + 1); assert(cat(fs, 0, l + 1) == cat(fs, 0, l as int) + fs[l as int]@); }
@loop 5.1
invariant
    0 <= i <= ss, 0 <= l < pn, ss == fs[l as int]@.len(), set_temp@ == fs, set_temp@.len() == pn, cat(fs, 0, l + 1).len() <= n, cat(fs, 0, l + 1) == cat(fs, 0, l as int) + fs[l as int]@,
    ip == cat(fs, 0, l as int).len() + i, final_node_ptr@.len() == n, n >= 0,
    forall|x: int| 0 <= x < ip ==> #[trigger] final_node_ptr@[x] == cat(fs, 0, l + 1)[x],
decreases ss - i,
@exit
proof {
    assert(final_node_ptr@ =~= cat(fs, 0, pn));
    assert forall|k: int| 0 <= k < pn implies #[trigger] final_part_ptr@[k] <= final_part_ptr@[k + 1] by { cat_mono(fs, k, k + 1); }
}
