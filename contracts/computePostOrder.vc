@unit computePostOrder
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computePostOrder
@props P13
@uses porder
@opts complex isolate spinoff
@requires
po_pre(DAG_ptr@, DAG_set@, n as int),
@ensures
topological(DAG_ptr@, DAG_set@, n as int, post_order@), post_order@.len() == n,
@entry
let ghost d = Po { p: DAG_ptr@, g: DAG_set@, n: n as int, rk: choose|rk: Seq<int>| ranked(DAG_ptr@, DAG_set@, n as int, rk) };
proof { po_start(DAG_ptr@, DAG_set@, n as int); }
@loop 1
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, d.p[0] == 0, 0 <= i <= n, deg_is(d, in_degree@, i - 1, d.p[i as int] as int),
decreases n - i,
@pre 1
proof { deg_init(d, in_degree@); }
@head 1
proof { deg_col(d, in_degree@, i as int); }
@loop 1.1
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, 0 <= i < n, 0 <= d.p[i as int] < child_ptr <= d.p[i + 1] <= d.p[n as int], d.p[n as int] < i32::MAX, d.p[n as int] <= d.g.len(), deg_is(d, in_degree@, i as int, child_ptr as int),
decreases d.p[i + 1] - child_ptr,
@head 1.1
proof { deg_step(d, in_degree@, i as int, child_ptr as int); }
@post 1
proof { assert(i == n); assert(d.p[i as int] == d.p[d.n]); assert(deg_is(d, in_degree@, d.n - 1, d.p[d.n] as int)); reveal(deg_is); }
@pre 2
proof { leaves_zero(d, leaf_id@); }
@loop 2
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, 0 <= i <= n, in_degree@.len() == n, deg_is(d, in_degree@, d.n - 1, d.p[d.n] as int), leaves_upto(d, leaf_id@, i as int),
decreases n - i,
@head 2
proof { deg_done(d, in_degree@, i as int); leaves_step(d, leaf_id@, i as int, i); }
@post 2
proof { leaves_end(d, leaf_id@); }
@pre 3
proof { post_init(d, stack@, post_order@, visited@, leaf_id@); reveal(started); }
@loop 3
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, visited@.len() == n, post_order@.len() == n, 0 <= leaf_ptr <= leaf_id@.len() <= n, stack@.len() == 0, post(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, leaf_id@.len() - leaf_ptr), leaves_ok(d, leaf_id@), started(visited@, leaf_id@, leaf_id@.len() - leaf_ptr),
decreases leaf_id@.len() - leaf_ptr,
@head 3
let ghost lo = leaf_id@.len() - leaf_ptr; let ghost S0 = stack@; let ghost V0 = visited@;
proof { leaf_fresh(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, lo); }
@pre 3.1
proof { assert(stack@ == S0.push(leaf_id@[lo - 1])); assert(visited@ == V0.update(leaf_id@[lo - 1] as int, true)); }
@loop 3.1
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, visited@.len() == n, post_order@.len() == n, 0 <= leaf_ptr < leaf_id@.len() <= n, lo == leaf_id@.len() - leaf_ptr, post(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, lo - 1), leaves_ok(d, leaf_id@), started(visited@, leaf_id@, lo - 1), stack@.len() > 0 ==> head == stack@.last(),
    0 <= order_cnt, order_cnt + stack@.len() <= n,
decreases 2 * (n - order_cnt) - stack@.len(),
@head 3.1
let ghost S1 = stack@; let ghost V1 = visited@; let ghost h0 = head as int;
proof { post_top(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, lo - 1); }
@loop 3.1.1
invariant_except_break
    all_parent_visited, head == h0, stack@ == S1, visited@ == V1, d.p[h0] <= child_ptr < d.p[h0 + 1], forall|e: int| child_ptr < e < d.p[h0 + 1] ==> V1[#[trigger] d.g[e] as int],
invariant
    d.p == DAG_ptr@, d.g == DAG_set@, d.n == n, n < i32::MAX, po_ok(d), d.p.len() > n, n >= 0, visited@.len() == n, 0 <= lo - 1, S1.len() > 0, h0 == S1.last(), 0 <= h0 < n, 0 <= d.p[h0] < d.p[h0 + 1] <= d.p[n as int], d.p[n as int] <= d.g.len(), d.p[n as int] < i32::MAX, forall|e: int| d.p[h0] < e < d.p[h0 + 1] ==> 0 <= #[trigger] d.g[e] < n,
    V1.len() == n, post(d, S1, post_order@, order_cnt as int, V1, leaf_id@, lo - 1), order_cnt + S1.len() <= n, leaves_ok(d, leaf_id@), started(V1, leaf_id@, lo - 1),
ensures
    all_parent_visited ==> head == h0 && stack@ == S1 && visited@ == V1 && forall|e: int| #[trigger] succ_e(d, h0, e) ==> V1[d.g[e] as int],
    !all_parent_visited ==> stack@.len() == S1.len() + 1 && head == stack@.last() && post(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, lo - 1) && order_cnt + stack@.len() <= n && started(visited@, leaf_id@, lo - 1),
decreases child_ptr,
@head 3.1.1
proof { let c = d.g[child_ptr as int]; po_col(d, h0); assert(succ_e(d, h0, child_ptr as int)); if !V1[c as int] { assert(has_pred(d, c as int)); post_push(d, S1, post_order@, order_cnt as int, V1, leaf_id@, lo - 1, c, lo - 1); post_room(d, S1.push(c), post_order@, order_cnt as int, V1.update(c as int, true), leaf_id@, lo - 1); started_more(V1, c as int, leaf_id@, lo - 1, d); } }
@then all_parent_visited
proof { post_pop(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@, lo - 1); post_room(d, stack@.drop_last(), post_order@.update(d.n - 1 - order_cnt, stack@.last()), order_cnt + 1, visited@, leaf_id@, lo - 1); }
@exit
proof { leaves_all(d, stack@, post_order@, order_cnt as int, visited@, leaf_id@); }
