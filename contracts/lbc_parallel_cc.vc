@unit lbc_parallel_cc
@src src/lbc_csc_dag.cpp
@ns sym_lib
@name parallel_cc
@props P08
@uses cc
@opts isolate
@requires
win_ok(Win { p: lC@, g: lR@, n: lC@.len() - 1, lev: node2Level@, lb: dfsLevel as int, ub: ubLevel as int, nodes: nodes@, k: numNodes as int }), old(node2partition)@.len() >= lC@.len() - 1, old(outCost)@.len() >= numNodes, nodeCost@.len() >= lC@.len() - 1,
@ensures
is_cc(Win { p: lC@, g: lR@, n: lC@.len() - 1, lev: node2Level@, lb: dfsLevel as int, ub: ubLevel as int, nodes: nodes@, k: numNodes as int }, node2partition@, old(node2partition)@),
outCost@ == cc_cost(Win { p: lC@, g: lR@, n: lC@.len() - 1, lev: node2Level@, lb: dfsLevel as int, ub: ubLevel as int, nodes: nodes@, k: numNodes as int }, node2partition@, old(outCost)@, nodeCost@, numNodes as int),
numNodes == 0 ==> res == -1, numNodes > 0 ==> (forall|i: int| 0 <= i < numNodes ==> #[trigger] node2partition@[nodes@[i] as int] < res) && exists|i: int| 0 <= i < numNodes && #[trigger] node2partition@[nodes@[i] as int] + 1 == res,
@entry
let ghost N0 = node2partition@;
let ghost w = Win { p: lC@, g: lR@, n: lC@.len() - 1, lev: node2Level@, lb: dfsLevel as int, ub: ubLevel as int, nodes: nodes@, k: numNodes as int };
@loop 1
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, 0 <= i <= numNodes, forall|x: int| 0 <= x < i ==> #[trigger] node2partition@[w.nodes[x] as int] == x, forall|v: int| 0 <= v < N0.len() && !member(w, v) ==> #[trigger] node2partition@[v] == N0[v],
decreases numNodes - i,
@head 1
proof { assert(0 <= w.nodes[i as int] < w.n); assert(member(w, w.nodes[i as int] as int)); assert forall|x: int| 0 <= x < i implies w.nodes[x] != w.nodes[i as int] by { } }
@post 1
proof { cc_init(w, node2partition@, N0); }
@loop 2
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, cc_state(w, node2partition@, N0), stars(w, node2partition@, w.k), !change ==> same_upto(w, node2partition@, w.k),
decreases fsum(w, node2partition@, w.k), (if change { 1int } else { 0int }),
@head 2
let ghost S = fsum(w, node2partition@, w.k); let ghost P0 = node2partition@;
proof { fsum_ge(w, node2partition@, N0, w.k); }
@loop 2.1
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, cc_state(w, node2partition@, N0), 0 <= i <= numNodes, stars(w, P0, w.k), S == fsum(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, node2partition@, i as int), change ==> fsum(w, node2partition@, w.k) < S,
decreases numNodes - i,
@head 2.1
proof { assert(0 <= w.nodes[i as int] < w.n); let u = w.nodes[i as int] as int; assert(w.p[0] <= w.p[u]); assert(w.p[u] <= w.p[u + 1]); assert(w.p[u + 1] <= w.p[w.n]); }
@loop 2.1.1
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, cc_state(w, node2partition@, N0), 0 <= i < numNodes, u == w.nodes[i as int], 0 <= u < w.n, 0 <= w.p[u as int] <= r <= w.p[u + 1] <= w.p[w.n] <= i32::MAX, stars(w, P0, w.k), S == fsum(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, node2partition@, i as int) && same_col(w, node2partition@, u as int, r as int), change ==> fsum(w, node2partition@, w.k) < S,
decreases w.p[u + 1] - r,
@head 2.1.1
proof { cc_edge(w, node2partition@, N0, i as int, r as int); 
    if inwin(w, w.g[r as int] as int) { let cu = node2partition@[u as int]; let cv = node2partition@[w.g[r as int] as int]; let h = if cu > cv { cu } else { cv }; let l = if cu > cv { cv } else { cu }; assert(0 <= w.nodes[h as int] < w.n);
        if cu != cv && node2partition@[w.nodes[h as int] as int] == h { cc_hook(w, node2partition@, N0, i as int, r as int, h, l); } } }
@tail 2.1
proof { if !change { assert forall|x: int, e: int| 0 <= x < i + 1 && #[trigger] in_col(w.p, w.nodes[x] as int, e) && inwin(w, w.g[e] as int) implies node2partition@[w.nodes[x] as int] == node2partition@[w.g[e] as int] by { if x == i { assert(inwin(w, w.g[e] as int)); } } } }
@pre 2.2
let ghost P1 = node2partition@; let ghost S1 = fsum(w, node2partition@, w.k);
@loop 2.2
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, cc_state(w, node2partition@, N0), 0 <= i <= numNodes, stars(w, node2partition@, i as int), stars(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, P0, w.k), fsum(w, node2partition@, w.k) <= S1,
decreases numNodes - i,
@head 2.2
proof { cc_jump(w, node2partition@, N0, i as int); }
@loop 2.2.1
invariant
    win_ok(w), w.p == lC@, w.g == lR@, w.lev == node2Level@, w.lb == dfsLevel, w.ub == ubLevel, w.nodes == nodes@, w.k == numNodes, N0.len() == node2partition@.len(), N0.len() >= w.n, cc_state(w, node2partition@, N0), 0 <= i < numNodes, stars(w, node2partition@, i as int), stars(w, P0, w.k), !change ==> node2partition@ == P0 && same_upto(w, P0, w.k), fsum(w, node2partition@, w.k) <= S1, node == w.nodes[i as int], 0 <= node < w.n, 0 <= node2partition@[node as int] <= i, 0 <= w.nodes[node2partition@[node as int] as int] < w.n,
decreases node2partition@[node as int],
@head 2.2.1
proof { cc_jump(w, node2partition@, N0, i as int); assert(is_root(w, P0, i as int)); }
@end 2.2.1
proof { cc_jump(w, node2partition@, N0, i as int); }
@post 2.2
proof { fsum_ge(w, node2partition@, N0, w.k); }
@tail 2.2
proof { assert forall|x: int| 0 <= x < i + 1 implies #[trigger] is_root(w, node2partition@, x) by { if x < i { } else { assert(f(w, node2partition@, i as int) == node2partition@[node as int]); } } }
@post 2
proof { cc_done(w, node2partition@, N0); }
let ghost C0 = outCost@; let ghost P9 = node2partition@;
@loop 3
invariant
    win_ok(w), w.nodes == nodes@, w.k == numNodes, w.n <= nodeCost@.len(), is_cc(w, P9, N0), P9 == node2partition@, w.n <= P9.len(), 0 <= i <= numNodes, outCost@ == cc_cost(w, P9, C0, nodeCost@, i as int), outCost@.len() == C0.len(), C0.len() >= numNodes, i == 0 ==> max_cc == -1, i > 0 ==> -1 <= max_cc <= numNodes && (forall|x: int| 0 <= x < i ==> #[trigger] node2partition@[nodes@[x] as int] < max_cc) && exists|x: int| 0 <= x < i && #[trigger] node2partition@[nodes@[x] as int] + 1 == max_cc,
decreases numNodes - i,
@head 3
proof { assert(0 <= w.nodes[i as int] < w.n); assert(lab_ok(w, P9, i as int)); }
