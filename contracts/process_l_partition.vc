@unit process_l_partition
@src src/lbc_csc_dag.cpp
@ns sym_lib
@name process_l_partition
@props P03
@uses plists
@opts complex isolate spinoff
@ghost
d: Lv
@args modified_BFS_CSC
outm(d, dfsLevel as int, ubLevel as int)
@requires
d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, old(inDegree)@.len() == n, old(visited)@.len() == n, old(node2partition)@.len() == n, old(nodesAtCurLevel)@.len() == n, old(outCost)@.len() == n, old(newOutCost)@.len() == n, l < old(outinnerPartsList)@.len(), l < old(mergedLeveledParListByL)@.len() <= i32::MAX, old(mergedLeveledParListByL)@[l as int]@.len() == 0, old(newLeveledParList)@.len() == 0, unm(d, old(visited)@, partition2Level@[l as int] as int, originalHeight as int),
@ensures
lists_sched(wn(d, partition2Level@[l as int] as int, partition2Level@[l + 1] as int), mergedLeveledParListByL@[l as int]@, outinnerPartsList@[l as int] as int), outinnerPartsList@[l as int] <= wn(d, partition2Level@[l as int] as int, partition2Level@[l + 1] as int).k,
mergedLeveledParListByL@ == old(mergedLeveledParListByL)@.update(l as int, mergedLeveledParListByL@[l as int]), outinnerPartsList@ == old(outinnerPartsList)@.update(l as int, outinnerPartsList@[l as int]), newLeveledParList@.len() == 0, unm(d, visited@, partition2Level@[l + 1] as int, originalHeight as int),
inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n,
@entry
let ghost O0 = outinnerPartsList@; let ghost M0 = mergedLeveledParListByL@; let ghost mut u: ISet<int> = ISet::empty(); let ghost NP0 = node2partition@; let ghost mut w: Win = wn(d, 0, 0); let ghost mut W: Wb = wd(d, 0, 0); let ghost mut LL: Seq<Vec<i32>> = seq![];
@pre 1
proof { lv_sizes(d); w = wn(d, dfsLevel as int, ubLevel as int); W = wd(d, dfsLevel as int, ubLevel as int); lv_win(d, dfsLevel as int, ubLevel as int); wd_ok(d, dfsLevel as int, ubLevel as int); u = wb_all(W); cnts_init(W, w.nodes, inDegree@); }
@loop 1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, unm(d, visited@, dfsLevel as int, d.c), dfsLevel <= ii <= ubLevel, numNodesAtCurLevel == d.lp[ii as int] - d.lp[dfsLevel as int], 0 <= numNodesAtCurLevel <= w.k, same_to(nodesAtCurLevel@, w.nodes, numNodesAtCurLevel as int), cnts(W, w.nodes, numNodesAtCurLevel as int, -1, 0, inDegree@, u), node2partition@ == NP0, curLeveledParCost == 0,
decreases ubLevel - ii,
@head 1
proof { lv_mono(d, ii as int, ii + 1); lv_mono(d, ii + 1, ubLevel as int); lv_mono(d, dfsLevel as int, ii as int); lv_sizes(d); }
@loop 1.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, unm(d, visited@, dfsLevel as int, d.c), dfsLevel <= ii < ubLevel, 0 <= d.lp[dfsLevel as int] <= d.lp[ii as int] <= j <= d.lp[ii + 1] <= d.lp[ubLevel as int] <= n, numNodesAtCurLevel == j - d.lp[dfsLevel as int], 0 <= numNodesAtCurLevel <= w.k, same_to(nodesAtCurLevel@, w.nodes, numNodesAtCurLevel as int), cnts(W, w.nodes, numNodesAtCurLevel as int, -1, 0, inDegree@, u), node2partition@ == NP0, curLeveledParCost == 0,
decreases d.lp[ii + 1] - j,
@head 1.1
proof { win_node(d, dfsLevel as int, ubLevel as int, numNodesAtCurLevel as int); cnts_node(W, w.nodes, numNodesAtCurLevel as int, inDegree@, u); }
@loop 1.1.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, unm(d, visited@, dfsLevel as int, d.c), dfsLevel <= ii < ubLevel, 0 <= d.lp[dfsLevel as int] <= d.lp[ii as int] <= j < d.lp[ii + 1] <= d.lp[ubLevel as int] <= n, numNodesAtCurLevel == j + 1 - d.lp[dfsLevel as int], 0 <= numNodesAtCurLevel <= w.k, same_to(nodesAtCurLevel@, w.nodes, numNodesAtCurLevel as int), cnts(W, w.nodes, numNodesAtCurLevel as int, x as int, r as int, inDegree@, u), node2partition@ == NP0, curLeveledParCost == 0, 0 <= x < n, W.p == lC@, W.g == lR@, W.n == n,
decreases d.p[x + 1] - r,
@head 1.1.1
proof { cnts_at(W, w.nodes, numNodesAtCurLevel as int, x as int, r as int, inDegree@, u); u = u.remove(r as int); }
@post 1.1.1
proof { cnts_end(W, w.nodes, numNodesAtCurLevel as int, x as int, r as int, inDegree@, u); }
@post 1
proof { assert(numNodesAtCurLevel == w.k); cnts_done(d, dfsLevel as int, ubLevel as int, inDegree@, u); lv_win(d, dfsLevel as int, ubLevel as int); wlist_ok(d, dfsLevel as int, ubLevel as int, nodesAtCurLevel@, NP0, NP0); assert(wlist(w, nodesAtCurLevel@) == (Win { p: lC@, g: lR@, n: lC@.len() - 1, lev: node2Level@, lb: dfsLevel as int, ub: ubLevel as int, nodes: nodesAtCurLevel@, k: numNodesAtCurLevel as int })); }
@before let _r\d+: i32 = lbc_parallel_cc\(.*
let ghost C0 = outCost@;
@pre 2
proof { wlist_ok(d, dfsLevel as int, ubLevel as int, nodesAtCurLevel@, node2partition@, NP0); labs_ready(w, nodesAtCurLevel@, node2partition@, NP0, cc as int); cc_cost_len(wlist(w, nodesAtCurLevel@), node2partition@, C0, nodeCost@, w.k); lv_mono(d, if lbLevel > 0 { lbLevel as int } else { 0 }, dfsLevel as int); lv_sizes(d); }
@loop 2
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, unm(d, visited@, dfsLevel as int, d.c), degs_start(W, inDegree@), is_cc(w, node2partition@, NP0), lab_below(w, node2partition@, nparts(cc as int)), nparts(cc as int) <= w.k, cc >= -1, curLeveledParCost == 0, 0 <= j, lbLevel < 0 ==> j >= d.lp[0], lbLevel >= 0 ==> d.lp[lbLevel as int] <= j,
decreases d.lp[lbLevel + 1] - j,
@head 2
proof { unm_set(d, visited@, dfsLevel as int, d.c, j as int, lbLevel as int, true); lv_mono(d, lbLevel + 1, d.c); lv_sizes(d); }
@pre 3
proof { unm_cut(d, visited@, dfsLevel as int, d.c, dfsLevel as int, ubLevel as int); setp_none(d, visited@, d.lp[ubLevel as int] as int, true); lv_sizes(d); }
@loop 3
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, degs_start(W, inDegree@), is_cc(w, node2partition@, NP0), lab_below(w, node2partition@, nparts(cc as int)), nparts(cc as int) <= w.k, cc >= -1, curLeveledParCost == 0, ubLevel <= ii <= originalHeight, unm(d, visited@, dfsLevel as int, ubLevel as int), setp(d, visited@, d.lp[ubLevel as int] as int, d.lp[ii as int] as int, true),
decreases originalHeight - ii,
@head 3
proof { lv_mono(d, ubLevel as int, ii as int); lv_mono(d, ii as int, ii + 1); lv_mono(d, ii + 1, d.c); lv_sizes(d); }
@loop 3.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, newLeveledParList@.len() == 0, degs_start(W, inDegree@), is_cc(w, node2partition@, NP0), lab_below(w, node2partition@, nparts(cc as int)), nparts(cc as int) <= w.k, cc >= -1, curLeveledParCost == 0, ubLevel <= ii < originalHeight, 0 <= d.lp[ubLevel as int] <= d.lp[ii as int] <= j <= d.lp[ii + 1] <= n, unm(d, visited@, dfsLevel as int, ubLevel as int), setp(d, visited@, d.lp[ubLevel as int] as int, j as int, true),
decreases d.lp[ii + 1] - j,
@head 3.1
proof { setp_step(d, visited@, d.lp[ubLevel as int] as int, j as int, true); unm_set(d, visited@, dfsLevel as int, ubLevel as int, j as int, ii as int, true); }
@post 3
proof { lv_sizes(d); marks_ready(d, visited@, dfsLevel as int, ubLevel as int); }
@loop 4
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, degs_start(W, inDegree@), is_cc(w, node2partition@, NP0), lab_below(w, node2partition@, nparts(cc as int)), nparts(cc as int) <= w.k, cc >= -1, curLeveledParCost == 0, marks_in(outm(d, dfsLevel as int, ubLevel as int), visited@), sees(W, visited@), 0 <= i, i <= cc || i == 0, newLeveledParList@.len() == i, all_empty(newLeveledParList@), extraDim@.len() == 0,
decreases cc - i,
@post 4
proof { assert(newLeveledParList@.len() == nparts(cc as int)); wd_ok(d, dfsLevel as int, ubLevel as int); first_level(d, dfsLevel as int, ubLevel as int); lv_sizes(d); win_labels(d, dfsLevel as int, ubLevel as int, node2partition@, nparts(cc as int)); LL = newLeveledParList@; }
@after let _r\d+: i32 = modified_BFS_CSC\(.*
proof { order_lists(d, dfsLevel as int, ubLevel as int, newLeveledParList@, LL, node2partition@, NP0); }
@pre 5
proof { setp_none(d, visited@, d.lp[ubLevel as int] as int, false); lv_sizes(d); }
@loop 5
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, curLeveledParCost == 0, newLeveledParList@.len() <= w.k, lists_sched(w, newLeveledParList@, newLeveledParList@.len() as int), ubLevel <= ii <= originalHeight, setp(d, visited@, d.lp[ubLevel as int] as int, d.lp[ii as int] as int, false),
decreases originalHeight - ii,
@head 5
proof { lv_mono(d, ubLevel as int, ii as int); lv_mono(d, ii as int, ii + 1); lv_mono(d, ii + 1, d.c); lv_sizes(d); }
@loop 5.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), outinnerPartsList@ == O0, l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, mergedLeveledParListByL@ == M0, M0[l as int]@.len() == 0, curLeveledParCost == 0, newLeveledParList@.len() <= w.k, lists_sched(w, newLeveledParList@, newLeveledParList@.len() as int), ubLevel <= ii < originalHeight, 0 <= d.lp[ubLevel as int] <= d.lp[ii as int] <= j <= d.lp[ii + 1] <= n, setp(d, visited@, d.lp[ubLevel as int] as int, j as int, false),
decreases d.lp[ii + 1] - j,
@head 5.1
proof { setp_step(d, visited@, d.lp[ubLevel as int] as int, j as int, false); lv_pos(d, j as int); }
@post 5
proof { lv_sizes(d); setp_all(d, visited@, ubLevel as int); }
@before resize_vv\(.*
let ghost NL = newLeveledParList@;
@after let _r\d+: i32 = worst_fit_bin_pack\(.*
proof { pack_lists(w, newLeveledParList@, A0, _a12@, _a13 as int); }
@before let _a13: .*
let ghost A0 = _a12@;
proof { assert(all_empty(A0)); }
@loop 6
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n < i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, 0 <= l, l + 1 < partition2Level@.len() <= i32::MAX, innerParts >= 1, l < innerPartsSize@.len(), innerPartsSize@[l as int] >= 1, 0 <= partition2Level@[l as int] < partition2Level@[l + 1] <= originalHeight, dfsLevel == partition2Level@[l as int], ubLevel == partition2Level@[l + 1], 0 <= dfsLevel < ubLevel <= originalHeight, lbLevel == dfsLevel - 1, w == wn(d, dfsLevel as int, ubLevel as int), W == wd(d, dfsLevel as int, ubLevel as int), w.k == d.lp[ubLevel as int] - d.lp[dfsLevel as int], 0 <= w.k <= n, w.nodes.len() == w.k, inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, l < outinnerPartsList@.len(), l < mergedLeveledParListByL@.len() <= i32::MAX, d.n == n, d.c == originalHeight, 0 <= i, newLeveledParList@.len() <= n, unm(d, visited@, ubLevel as int, d.c), lists_sched(w, mergedLeveledParListByL@[l as int]@, outinnerPartsList@[l as int] as int), outinnerPartsList@[l as int] <= w.k, mergedLeveledParListByL@ == M0.update(l as int, mergedLeveledParListByL@[l as int]), outinnerPartsList@ == O0.update(l as int, outinnerPartsList@[l as int]),
decreases newLeveledParList@.len() - i,
@exit
proof { assert(mergedLeveledParListByL@ =~= M0.update(l as int, mergedLeveledParListByL@[l as int])); }
