@unit computeSchedule
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computeSchedule
@props P07
@uses sched
@opts complex isolate spinoff
@requires
n >= 0, dag_in(DAG_ptr@, DAG_set@, n as int), WM@.len() >= 1, level_result_nl(DAG_ptr@, DAG_set@, n as int, level_ptr@, level_set@, node_to_level@, WM@.last() as int),
wm_ok(Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }, WM@),
num_threads >= 1, num_threads < i32::MAX, postOrder ==> po_pre(DAG_ptr@, DAG_set@, n as int), apply_serial_schedule && !postOrder ==> key_ok(DAG_ptr@, DAG_set@, n as int, ident(n as int)),
apply_serial_schedule ==> chunks_ok(Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }, WM@, Chunk_Sizes@, num_threads as int) && (WM@.len() - 1) * num_threads <= i32::MAX,
@ensures
*final(coarse_level_no) == WM@.len() - 1,
valid_sched(DAG_ptr@, DAG_set@, n as int, WM@.len() - 1, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@),
apply_serial_schedule ==> few_parts(WM@.len() - 1, coarse_level_ptr@, num_threads as int),
@entry
let ghost d = Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }; let ghost M = WM@.len() - 1;
proof { lv_mk(d); lv_sizes(d); wm_len(d, WM@); }
@loop 1
invariant
    0 <= i <= n, n < i32::MAX, post_order@.len() == n, post_orderInv@.len() == n, is_perm(post_order@, n as int), forall|x: int| 0 <= x < i ==> post_orderInv@[#[trigger] post_order@[x] as int] == x,
decreases n - i,
@head 1
proof { assert(0 <= post_order@[i as int] < n); assert forall|x: int| 0 <= x < i implies post_order@[x] != post_order@[i as int] by { } }
@post 1
proof { inv_both(post_orderInv@, post_order@, n as int); topo_key(d.p, d.g, d.n, post_order@, post_orderInv@); }
@pre 2
proof { upto_init(d, WM@, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); assert(apply_serial_schedule ==> coarse_level_ptr@.last() == 0 * num_threads); }
@loop 2
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n,
    0 <= wm <= M, coarse_level_ptr@.len() == wm + 1, upto(d, WM@, wm as int, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@), apply_serial_schedule ==> coarse_level_ptr@.last() == wm * num_threads, !apply_serial_schedule ==> coarse_level_ptr@.last() <= d.lp[WM@[wm as int] as int], apply_serial_schedule ==> few_parts(wm as int, coarse_level_ptr@, num_threads as int),
    *coarse_level_no == M,
decreases M - wm,
@head 2
let ghost LP0 = coarse_level_ptr@; let ghost PP0 = coarse_part_ptr@; let ghost ND0 = coarse_node_ptr@; let ghost lb = WM@[wm as int] as int; let ghost ub = WM@[wm + 1] as int; let ghost w = wn(d, lb, ub); let ghost mut bf: Seq<int> = Seq::empty(); let ghost mut N0 = node_to_level@; let ghost mut w2 = w; let ghost mut b: Seq<int> = Seq::empty(); let ghost mut s0 = level_ptr@; let ghost mut bm: Seq<int> = Seq::empty();
proof { wm_at(d, WM@, wm as int); lv_win(d, lb, ub); lv_sizes(d); upto_facts(d, WM@, wm as int, LP0, PP0, ND0); }
@loop 2.1
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, lb_level == lb, ub_level == ub, lb <= ii <= ub, nodes_at_cur_level@.len() == n, numNodesAtCurLevel == d.lp[ii as int] - d.lp[lb], forall|x: int| 0 <= x < numNodesAtCurLevel ==> #[trigger] nodes_at_cur_level@[x] == d.ls[d.lp[lb] + x], node2partition@.len() == n, forall|v: int| 0 <= v < n ==> #[trigger] node2partition@[v] == -1,
decreases ub - ii,
@head 2.1
proof { lv_sizes(d); lv_mono(d, lb, ii as int); lv_mono(d, ii as int, ii + 1); lv_mono(d, ii + 1, ub); }
@loop 2.1.1
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, lb_level == lb, ub_level == ub, lb <= ii < ub, d.lp.len() > d.c, d.ls.len() >= n, 0 <= d.lp[lb] <= d.lp[ii as int] <= j <= d.lp[ii + 1] <= d.lp[ub] <= n, nodes_at_cur_level@.len() == n, numNodesAtCurLevel == j - d.lp[lb], forall|x: int| 0 <= x < numNodesAtCurLevel ==> #[trigger] nodes_at_cur_level@[x] == d.ls[d.lp[lb] + x], node2partition@.len() == n, forall|v: int| 0 <= v < n ==> #[trigger] node2partition@[v] == -1,
decreases d.lp[ii + 1] - j,
@post 2.1
proof { N0 = node2partition@; w2 = Win { p: d.p, g: d.g, n: d.n, lev: d.lev, lb: lb, ub: ub, nodes: nodes_at_cur_level@, k: numNodesAtCurLevel as int }; lv_win(d, lb, ub); assert(numNodesAtCurLevel == w.k); assert forall|x: int| 0 <= x < w.k implies #[trigger] nodes_at_cur_level@[x] == w.nodes[x] by { assert(w.nodes[x] == d.ls[d.lp[lb] + x]); } win_conv(w, w2, node2partition@, node2partition@); }
@pre 2.2
proof { assert(N0 =~= minus(w.n)); win_conv(w, w2, node2partition@, minus(w.n));  cntv_init(w, node2partition@, w_part_size_cnt@); }
@loop 2.2
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, numNodesAtCurLevel == w.k, nodes_at_cur_level@.len() == n, forall|x: int| 0 <= x < w.k ==> #[trigger] nodes_at_cur_level@[x] == w.nodes[x], node2partition@.len() == n, is_cc(w, node2partition@, minus(w.n)), 0 <= _r5 <= n, cntv(w, node2partition@, w_part_size_cnt@, _r5 as int),
decreases n - _r5,
@head 2.2
proof { cntv_step(w, node2partition@, w_part_size_cnt@, _r5 as int); }
@post 2.2
proof { scanv_init(w, node2partition@, w_part_size_cnt@); }
@loop 2.3
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, numNodesAtCurLevel == w.k, nodes_at_cur_level@.len() == n, forall|x: int| 0 <= x < w.k ==> #[trigger] nodes_at_cur_level@[x] == w.nodes[x], node2partition@.len() == n, is_cc(w, node2partition@, minus(w.n)), 1 <= i, i <= n || n == 0 && i == 1, w_part_size_cnt@.len() == n + 1, scanv(w, node2partition@, w_part_size_cnt@, i as int),
decreases n - i,
@head 2.3
proof { scanv_step(w, node2partition@, w_part_size_cnt@, i as int); }
@post 2.3
proof { scanv_end(w, node2partition@, w_part_size_cnt@, if n == 0 { 1 } else { n as int }); }
@pre 2.4
proof { pptr_init(w, node2partition@, part_ptr@); }
@loop 2.4
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, numNodesAtCurLevel == w.k, nodes_at_cur_level@.len() == n, forall|x: int| 0 <= x < w.k ==> #[trigger] nodes_at_cur_level@[x] == w.nodes[x], node2partition@.len() == n, is_cc(w, node2partition@, minus(w.n)), 0 <= i <= n, w_part_size_cnt@.len() == n + 1, forall|l: int| 0 <= l <= w.n ==> #[trigger] w_part_size_cnt@[l] == cbase(w, node2partition@, l), ctr(w, node2partition@, w_part_size_cnt@, 0), pptr(w, node2partition@, part_ptr@, i as int), node_ptr@.len() == 0,
decreases n - i,
@head 2.4
proof { pptr_step(w, node2partition@, part_ptr@, i as int, w_part_size_cnt@[i as int], w_part_size_cnt@[i + 1]); }
@pre 2.5
proof { scat_init(w, node2partition@, node_ptr@); }
@loop 2.5
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, numNodesAtCurLevel == w.k, nodes_at_cur_level@.len() == n, forall|x: int| 0 <= x < w.k ==> #[trigger] nodes_at_cur_level@[x] == w.nodes[x], node2partition@.len() == n, is_cc(w, node2partition@, minus(w.n)), 0 <= i <= w.k, ctr(w, node2partition@, w_part_size_cnt@, i as int), scat(w, node2partition@, node_ptr@, i as int), pptr(w, node2partition@, part_ptr@, n as int),
decreases w.k - i,
@head 2.5
proof { scat_step(w, node2partition@, w_part_size_cnt@, node_ptr@, i as int); assert(nodes_at_cur_level@[i as int] == w.nodes[i as int]); }
@post 2.5
proof { b = toi(part_ptr@); s0 = node_ptr@; comp_sched(d, lb, ub, node2partition@, part_ptr@, node_ptr@); }
@loop 2.6
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, coarse_level_ptr@ == LP0, coarse_part_ptr@ == PP0, coarse_node_ptr@ == ND0, *coarse_level_no == M, apply_serial_schedule, _t17 == wm, 0 <= i <= num_threads, part_ptr_merged@.len() == num_threads + 1, b == toi(part_ptr@), part_ptr@.len() >= 1, part_ptr@.len() - 1 == ncomp(w), part_ptr@.len() <= n + 1, part_ptr_merged@[0] == 0, forall|j: int| 1 <= j <= i ==> #[trigger] part_ptr_merged@[j] == joined(b, Chunk_Sizes@[wm as int]@, j),
decreases num_threads - i,
@pre 2.6
proof { ncomp_is(w, node2partition@, minus(w.n)); }
@head 2.6
let ghost ch = Chunk_Sizes@[wm as int]@;
proof { assert(chunk_ok(ch, num_threads as int, ncomp(w))); chunk_at(ch, num_threads as int, ncomp(w), i + 1); }
@post 2.6
proof { bm = toi(part_ptr_merged@); bf = bm; let ch = Chunk_Sizes@[wm as int]@; assert(chunk_ok(ch, num_threads as int, ncomp(w))); assert(bnds(w.k, b)) by { reveal(wsched); }
    assert forall|j: int| 0 <= j <= num_threads implies #[trigger] bm[j] == joined(b, ch, j) by { if j > 0 { assert(part_ptr_merged@[j] == joined(b, ch, j)); } }
    join_sched(w, s0, b, ch, num_threads as int, bm); join_bnds(w, s0, bm); upto_facts(d, WM@, wm as int, LP0, PP0, ND0); more_one(PP0, bm);
    assert(wm * num_threads + num_threads <= M * num_threads) by (nonlinear_arith) requires wm + 1 <= M, num_threads >= 1; }
@loop 2.7
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, coarse_level_ptr@ == LP0.push((LP0.last() + num_threads) as i32), coarse_node_ptr@ == ND0, PP0.len() >= 1, last_part == PP0.last(), last_part == d.lp[lb], bm == toi(part_ptr_merged@), bm.len() == num_threads + 1, bnds(w.k, bm), 1 <= p <= num_threads + 1, coarse_part_ptr@ == more(PP0, bm, p as int),
decreases num_threads + 1 - p,
@head 2.7
proof { assert(bm[p as int] == part_ptr_merged@[p as int]); assert(bm[0] <= bm[p as int]); assert(bm[p as int] <= bm[bm.len() - 1]); more_step(PP0, bm, p as int, (part_ptr_merged@[p as int] + last_part) as i32); }
@pre 2.8
proof { srt_init(node_ptr@, bm, post_orderInv@); }
@loop 2.8
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, postOrder, coarse_level_ptr@ == LP0.push((LP0.last() + num_threads) as i32), coarse_node_ptr@ == ND0, coarse_part_ptr@ == more(PP0, bm, num_threads + 1), bm == toi(part_ptr_merged@), bm.len() == num_threads + 1, 0 <= i <= num_threads, wset(w, node_ptr@, bm), srt(node_ptr@, bm, i as int, post_orderInv@),
decreases num_threads - i,
@head 2.8
let ghost s1 = node_ptr@; let ghost lo = bm[i as int]; let ghost hi = bm[i + 1]; let ghost mut a1 = node_ptr_order@;
proof { part_in(w, node_ptr@, bm, i as int); assert(bm[i as int] == part_ptr_merged@[i as int]); assert(bm[i + 1] == part_ptr_merged@[i + 1]); gotk_init(s1, post_orderInv@, node_ptr_order@, lo); }
@loop 2.8.1
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, postOrder, coarse_level_ptr@ == LP0.push((LP0.last() + num_threads) as i32), coarse_node_ptr@ == ND0, coarse_part_ptr@ == more(PP0, bm, num_threads + 1), bm == toi(part_ptr_merged@), bm.len() == num_threads + 1, 0 <= i < num_threads, wset(w, s1, bm), srt(s1, bm, i as int, post_orderInv@), node_ptr@ == s1, s1.len() == w.k, lo == bm[i as int], hi == bm[i + 1], lo == part_ptr_merged@[i as int], hi == part_ptr_merged@[i + 1], 0 <= lo <= j <= hi <= w.k, cnt == j - lo, gotk(s1, post_orderInv@, node_ptr_order@, lo, cnt as int),
decreases hi - j,
@head 2.8.1
proof { node_in(w, s1, bm, j as int); gotk_step(s1, post_orderInv@, node_ptr_order@, lo, cnt as int); assert(lo + cnt == j); }
@post 2.8.1
proof { a1 = node_ptr_order@; }
@pre 2.8.2
proof { sortk(w, s1, bm, i as int, post_orderInv@, post_order@, a1, node_ptr_order@); putk_init(s1, post_order@, node_ptr_order@, lo); }
@loop 2.8.2
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, postOrder, coarse_level_ptr@ == LP0.push((LP0.last() + num_threads) as i32), coarse_node_ptr@ == ND0, coarse_part_ptr@ == more(PP0, bm, num_threads + 1), bm == toi(part_ptr_merged@), bm.len() == num_threads + 1, 0 <= i < num_threads, wset(w, s1, bm), srt(s1, bm, i as int, post_orderInv@), s1.len() == w.k, lo == bm[i as int], hi == bm[i + 1], lo == part_ptr_merged@[i as int], hi == part_ptr_merged@[i + 1], 0 <= lo <= j <= hi <= w.k, cnt == j - lo, gotk(s1, post_orderInv@, a1, lo, hi - lo), a1.len() == n, perm_range(node_ptr_order@, a1, 0, hi - lo), forall|x: int, y: int| 0 <= x <= y < hi - lo ==> #[trigger] node_ptr_order@[x] <= #[trigger] node_ptr_order@[y], putk(s1, node_ptr@, post_order@, node_ptr_order@, lo, cnt as int), forall|x: int| 0 <= x < hi - lo ==> 0 <= #[trigger] node_ptr_order@[x] < n && 0 <= post_order@[node_ptr_order@[x] as int] < n,
decreases hi - j,
@head 2.8.2
proof { putk_step(s1, node_ptr@, post_order@, node_ptr_order@, lo, cnt as int); assert(lo + cnt == j); }
@post 2.8.2
proof { putk_done(w, s1, node_ptr@, bm, i as int, post_orderInv@, post_order@, a1, node_ptr_order@); srt_step(w, s1, node_ptr@, bm, i as int, post_orderInv@); }
@post 2.8
proof { srt_done(w, node_ptr@, bm, post_orderInv@); }
@pre 2.9
proof { srt_init(node_ptr@, bm, ident(d.n)); }
@loop 2.9
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, !postOrder, apply_serial_schedule, coarse_level_ptr@ == LP0.push((LP0.last() + num_threads) as i32), coarse_node_ptr@ == ND0, coarse_part_ptr@ == more(PP0, bm, num_threads + 1), bm == toi(part_ptr_merged@), bm.len() == num_threads + 1, 0 <= i <= num_threads, wset(w, node_ptr@, bm), srt(node_ptr@, bm, i as int, ident(d.n)),
decreases num_threads - i,
@head 2.9
let ghost s1 = node_ptr@;
proof { part_in(w, node_ptr@, bm, i as int); assert(bm[i as int] == part_ptr_merged@[i as int]); assert(bm[i + 1] == part_ptr_merged@[i + 1]); }
@tail 2.9
proof { moved_sort(node_ptr@, s1, bm[i as int], bm[i + 1]); keyed(w, s1, node_ptr@, bm, i as int); srt_step(w, s1, node_ptr@, bm, i as int, ident(d.n)); }
@post 2.9
proof { srt_done(w, node_ptr@, bm, ident(d.n)); }
@pre 2.10
proof { ncomp_is(w, node2partition@, minus(w.n)); upto_facts(d, WM@, wm as int, LP0, PP0, ND0); bf = b; more_one(PP0, b); assert(bnds(w.k, b)) by { reveal(wsched); } }
@loop 2.10
invariant
    d == (Lv { p: DAG_ptr@, g: DAG_set@, n: n as int, lev: node_to_level@, lp: level_ptr@, ls: level_set@, c: WM@.last() as int }), lv_ok(d), wm_ok(d, WM@), 0 <= n < i32::MAX, num_threads >= 1, num_threads < i32::MAX, M == WM@.len() - 1, M <= n, apply_serial_schedule ==> chunks_ok(d, WM@, Chunk_Sizes@, num_threads as int) && M * num_threads <= i32::MAX, postOrder ==> inverses(post_orderInv@, post_order@, n as int) && post_orderInv@.len() == n && post_order@.len() == n && key_ok(d.p, d.g, d.n, post_orderInv@), apply_serial_schedule && !postOrder ==> key_ok(d.p, d.g, d.n, ident(d.n)), node_ptr_order@.len() == n, 0 <= wm < M, LP0.len() == wm + 1, upto(d, WM@, wm as int, LP0, PP0, ND0), lb == WM@[wm as int], ub == WM@[wm + 1], 0 <= lb < ub <= d.c, w == wn(d, lb, ub), win_ok(w), w.k <= n, w.k == d.lp[ub] - d.lp[lb], 0 <= d.lp[lb] <= d.lp[ub] <= n, apply_serial_schedule ==> LP0.last() == wm * num_threads, !apply_serial_schedule ==> LP0.last() <= d.lp[lb], d.lp[lb] + w.k <= n, *coarse_level_no == M, !apply_serial_schedule, coarse_level_ptr@ == LP0.push((LP0.last() + b.len() - 1) as i32), coarse_node_ptr@ == ND0, PP0.len() >= 1, last_part == PP0.last(), last_part == d.lp[lb], b == toi(part_ptr@), part_ptr@.len() <= n + 1, bnds(w.k, b), 1 <= p <= b.len(), coarse_part_ptr@ == more(PP0, b, p as int),
decreases b.len() - p,
@head 2.10
proof { assert(b[p as int] == part_ptr@[p as int]); assert(b[0] <= b[p as int]); assert(b[p as int] <= b[b.len() - 1]); more_step(PP0, b, p as int, (part_ptr@[p as int] + last_part) as i32); }
@tail 2
proof { assert(wsched(w, node_ptr@, bf)); assert(coarse_level_ptr@.drop_last() =~= LP0); assert(coarse_level_ptr@.last() == LP0.last() + bf.len() - 1); assert(coarse_part_ptr@ == more(PP0, bf, bf.len() as int)); assert(coarse_node_ptr@ =~= ND0 + node_ptr@); upto_step(d, WM@, wm as int, LP0, PP0, ND0, node_ptr@, bf, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); assert((wm + 1) * num_threads == wm * num_threads + num_threads) by (nonlinear_arith); }
@post 2
proof { upto_done(d, WM@, coarse_level_ptr@, coarse_part_ptr@, coarse_node_ptr@); }
