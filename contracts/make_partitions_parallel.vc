@unit make_partitions_parallel
@src src/lbc_csc_dag.cpp
@ns sym_lib
@name make_partitions_parallel
@props P03
@uses plists
@opts complex isolate spinoff
@ghost
d: Lv
@args process_l_partition
d
@requires
d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wok(d, partition2Level@.subrange(0, lClusterCnt + 1)), old(finaLevelPtr)@.len() == n + 1, old(finalPartPtr)@.len() == n + 1, old(finalNodePtr)@.len() == n, old(finaLevelPtr)@[0] == 0, old(finalPartPtr)@[0] == 0,
@ensures
upto(d, partition2Level@.subrange(0, lClusterCnt + 1), lClusterCnt as int, finaLevelPtr@.subrange(0, lClusterCnt + 1), finalPartPtr@.subrange(0, finaLevelPtr@[lClusterCnt as int] + 1), finalNodePtr@), 0 <= finaLevelPtr@[lClusterCnt as int] <= n, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, lClusterCnt <= n,
@entry
let ghost wm = partition2Level@.subrange(0, lClusterCnt + 1); let ghost mut M0: Seq<Vec<Vec<i32>>> = seq![]; let ghost mut O0: Seq<i32> = seq![]; let ghost mut ql: int = 0;
@pre 1
proof { wok_first(d, wm); split_none(); assert(largePartitions@ =~= seq![]); assert(smallPartitions@ =~= seq![]); }
@loop 1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, 0 <= l <= lClusterCnt, split_in(largePartitions@, smallPartitions@, l as int),
decreases lClusterCnt - l,
@head 1
proof { wok_at(d, wm, l as int); assert(wm[l as int] == partition2Level@[l as int]); assert(wm[l + 1] == partition2Level@[l + 1]); split_push(largePartitions@, smallPartitions@, l); lv_sizes(d); }
@loop 1.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, 0 <= l < lClusterCnt, 0 <= dfsLevel < ubLevel <= originalHeight, dfsLevel <= ii <= ubLevel, nodesAtLevel == d.lp[ii as int] - d.lp[dfsLevel as int], 0 <= d.lp[dfsLevel as int] <= d.lp[ii as int] <= n,
decreases ubLevel - ii,
@head 1.1
proof { lv_mono(d, ii as int, ii + 1); lv_mono(d, ii + 1, d.c); lv_mono(d, dfsLevel as int, ii as int); lv_sizes(d); }
@loop 1.1.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, 0 <= l < lClusterCnt, 0 <= dfsLevel < ubLevel <= originalHeight, dfsLevel <= ii < ubLevel, 0 <= d.lp[dfsLevel as int] <= d.lp[ii as int] <= j <= d.lp[ii + 1] <= n, nodesAtLevel == j - d.lp[dfsLevel as int],
decreases d.lp[ii + 1] - j,
@pre 2
proof { assert(split_in(largePartitions@, smallPartitions@, lClusterCnt as int)); assert(largePartitions@.len() <= lClusterCnt && smallPartitions@.len() <= lClusterCnt) by { reveal(split_in); } some_none(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, smallPartitions@); unm_zero(d, visited@, 0, d.c); }
@loop 2
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, mergedLeveledParListByL@.len() == lClusterCnt, outinnerPartsList@.len() == lClusterCnt, split_in(largePartitions@, smallPartitions@, lClusterCnt as int), inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, newLeveledParList@.len() == 0, 0 <= i <= largePartitions@.len(), largePartitions@.len() <= lClusterCnt, smallPartitions@.len() <= lClusterCnt, some_done(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, i as int, smallPartitions@, 0), unm(d, visited@, wnx(wm, largePartitions@, i as int), d.c),
decreases largePartitions@.len() - i,
@head 2
proof { turn_a(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, i as int, smallPartitions@); ql = largePartitions@[i as int] as int; wok_at(d, wm, ql); assert(wm[ql] == partition2Level@[ql]); assert(wm[ql + 1] == partition2Level@[ql + 1]); pos_at(innerPartsSize@, lClusterCnt as int, ql); unm_cut(d, visited@, wnx(wm, largePartitions@, i as int), d.c, wm[ql] as int, d.c); M0 = mergedLeveledParListByL@; O0 = outinnerPartsList@; }
@tail 2
proof { assert(mergedLeveledParListByL@ =~= M0.update(ql, mergedLeveledParListByL@[ql])); assert(outinnerPartsList@ =~= O0.update(ql, outinnerPartsList@[ql])); assert(wdone(d, wm, mergedLeveledParListByL@, outinnerPartsList@, ql)); done_a(d, wm, M0, O0, largePartitions@, i as int, smallPartitions@, 0, mergedLeveledParListByL@, outinnerPartsList@); assert(wnx(wm, largePartitions@, i + 1) == wm[ql + 1]); }
@pre 3
proof { done_swap(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, largePartitions@.len() as int, smallPartitions@, 0); unm_zero(d, visited@, 0, d.c); }
@loop 3
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, mergedLeveledParListByL@.len() == lClusterCnt, outinnerPartsList@.len() == lClusterCnt, split_in(largePartitions@, smallPartitions@, lClusterCnt as int), inDegree@.len() == n, visited@.len() == n, node2partition@.len() == n, nodesAtCurLevel@.len() == n, outCost@.len() == n, newOutCost@.len() == n, newLeveledParList@.len() == 0, 0 <= i <= smallPartitions@.len(), smallPartitions@.len() <= lClusterCnt, some_done(d, wm, mergedLeveledParListByL@, outinnerPartsList@, smallPartitions@, i as int, largePartitions@, largePartitions@.len() as int), unm(d, visited@, wnx(wm, smallPartitions@, i as int), d.c),
decreases smallPartitions@.len() - i,
@head 3
proof { done_swap(d, wm, mergedLeveledParListByL@, outinnerPartsList@, smallPartitions@, i as int, largePartitions@, largePartitions@.len() as int); turn_b(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, smallPartitions@, i as int); ql = smallPartitions@[i as int] as int; wok_at(d, wm, ql); assert(wm[ql] == partition2Level@[ql]); assert(wm[ql + 1] == partition2Level@[ql + 1]); pos_at(innerPartsSize@, lClusterCnt as int, ql); unm_cut(d, visited@, wnx(wm, smallPartitions@, i as int), d.c, wm[ql] as int, d.c); M0 = mergedLeveledParListByL@; O0 = outinnerPartsList@; }
@tail 3
proof { assert(mergedLeveledParListByL@ =~= M0.update(ql, mergedLeveledParListByL@[ql])); assert(outinnerPartsList@ =~= O0.update(ql, outinnerPartsList@[ql])); assert(wdone(d, wm, mergedLeveledParListByL@, outinnerPartsList@, ql)); done_a(d, wm, M0, O0, smallPartitions@, i as int, largePartitions@, largePartitions@.len() as int, mergedLeveledParListByL@, outinnerPartsList@); assert(wnx(wm, smallPartitions@, i + 1) == wm[ql + 1]); }
@pre 4
proof { done_swap(d, wm, mergedLeveledParListByL@, outinnerPartsList@, smallPartitions@, smallPartitions@.len() as int, largePartitions@, largePartitions@.len() as int); done_all(d, wm, mergedLeveledParListByL@, outinnerPartsList@, largePartitions@, smallPartitions@); wok_first(d, wm); upto_init(d, wm, finaLevelPtr@.subrange(0, 1), finalPartPtr@.subrange(0, 1), finalNodePtr@.subrange(0, 0)); }
@loop 4
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, every_done(d, wm, mergedLeveledParListByL@, outinnerPartsList@), mergedLeveledParListByL@.len() == lClusterCnt, outinnerPartsList@.len() == lClusterCnt, 0 <= l <= lClusterCnt, curNumOfPart == finaLevelPtr@[l as int], 0 <= curNumOfPart <= finalPartPtr@[curNumOfPart as int], finalPartPtr@[curNumOfPart as int] == d.lp[wm[l as int] as int], finalPartPtr@[curNumOfPart as int] <= n, curNumOfPart <= n, upto(d, wm, l as int, finaLevelPtr@.subrange(0, l + 1), finalPartPtr@.subrange(0, curNumOfPart + 1), finalNodePtr@.subrange(0, finalPartPtr@[curNumOfPart as int] as int)),
decreases lClusterCnt - l,
@head 4
let ghost L = mergedLeveledParListByL@[l as int]@; let ghost K = outinnerPartsList@[l as int] as int; let ghost w = wn(d, wm[l as int] as int, wm[l + 1] as int); let ghost base = finalPartPtr@[curNumOfPart as int] as int; let ghost c0 = curNumOfPart as int; let ghost LP0 = finaLevelPtr@.subrange(0, l + 1); let ghost PP0 = finalPartPtr@.subrange(0, c0 + 1); let ghost ND0 = finalNodePtr@.subrange(0, base);
proof { wok_at(d, wm, l as int); done_get(d, wm, mergedLeveledParListByL@, outinnerPartsList@, l as int); }
@pre 4.1
proof { assert(finaLevelPtr@.subrange(0, l + 1) =~= LP0); more_one(PP0, offs(L, K)); assert(ND0 + flat(L, 0) =~= ND0); }
@loop 4.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, every_done(d, wm, mergedLeveledParListByL@, outinnerPartsList@), mergedLeveledParListByL@.len() == lClusterCnt, outinnerPartsList@.len() == lClusterCnt, 0 <= l < lClusterCnt, L == mergedLeveledParListByL@[l as int]@, K == outinnerPartsList@[l as int], outinnerParts == K, w == wn(d, wm[l as int] as int, wm[l + 1] as int), wsched(w, flat(L, K), offs(L, K)), fo(L, K) == w.k, 0 <= K <= L.len(), K <= w.k, l_in(d, L, K), base == d.lp[wm[l as int] as int], 0 <= base, base + w.k == d.lp[wm[l + 1] as int], base + w.k <= n, upto(d, wm, l as int, LP0, PP0, ND0), LP0 == finaLevelPtr@.subrange(0, l + 1), LP0.len() == l + 1, LP0[l as int] == c0, finaLevelPtr@[l + 1] == c0 + K, 0 <= c0 <= base, PP0.len() == c0 + 1, PP0.last() == base, ND0.len() == base, 0 <= i <= K, curNumOfPart == c0 + i, finalPartPtr@.subrange(0, curNumOfPart + 1) == more(PP0, offs(L, K), i + 1), finalPartPtr@[curNumOfPart as int] == base + fo(L, i as int), finalNodePtr@.subrange(0, base + fo(L, i as int)) == ND0 + flat(L, i as int), 0 <= fo(L, i as int), base + fo(L, i as int) <= n,
decreases K - i,
@head 4.1
let ghost P0 = finalPartPtr@;
proof { part_start(ND0, L, i as int); fo_mono(L, i + 1, K); fo_mono(L, i as int, K); }
@loop 4.1.1
invariant d == (Lv { p: lC@, g: lR@, n: n as int, lev: node2Level@, lp: levelPtr@, ls: levelSet@, c: originalHeight as int }), lv_ok(d), acyclic(d.p, d.g, d.n), 0 <= n, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, originalHeight < levelPtr@.len() <= i32::MAX, n <= levelSet@.len() <= i32::MAX, node2Level@.len() >= n, nodeCost@.len() >= n, innerParts >= 1, 0 <= lClusterCnt, lClusterCnt < partition2Level@.len() <= i32::MAX, lClusterCnt <= innerPartsSize@.len(), all_pos(innerPartsSize@, lClusterCnt as int), wm == partition2Level@.subrange(0, lClusterCnt + 1), wm.len() == lClusterCnt + 1, wok(d, wm), lClusterCnt <= n, d.n == n, d.c == originalHeight, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, every_done(d, wm, mergedLeveledParListByL@, outinnerPartsList@), mergedLeveledParListByL@.len() == lClusterCnt, outinnerPartsList@.len() == lClusterCnt, 0 <= l < lClusterCnt, L == mergedLeveledParListByL@[l as int]@, K == outinnerPartsList@[l as int], outinnerParts == K, w == wn(d, wm[l as int] as int, wm[l + 1] as int), wsched(w, flat(L, K), offs(L, K)), fo(L, K) == w.k, 0 <= K <= L.len(), K <= w.k, l_in(d, L, K), base == d.lp[wm[l as int] as int], 0 <= base, base + w.k == d.lp[wm[l + 1] as int], base + w.k <= n, upto(d, wm, l as int, LP0, PP0, ND0), LP0 == finaLevelPtr@.subrange(0, l + 1), LP0.len() == l + 1, LP0[l as int] == c0, finaLevelPtr@[l + 1] == c0 + K, 0 <= c0 <= base, PP0.len() == c0 + 1, PP0.last() == base, ND0.len() == base, 0 <= i < K, curNumOfPart == c0 + i, finalPartPtr@ == P0, finalPartPtr@[curNumOfPart as int] == base + fo(L, i as int), fo(L, i + 1) == fo(L, i as int) + L[i as int]@.len(), 0 <= fo(L, i as int), fo(L, i + 1) <= w.k, 0 <= j <= L[i as int]@.len(), curPartElem == j, finalNodePtr@.subrange(0, base + fo(L, i as int) + j) == part_of(ND0, L, i as int, j as int),
decreases L[i as int]@.len() - j,
@head 4.1.1
let ghost F0 = finalNodePtr@;
proof { l_in_at(d, L, K, i as int, j as int); part_step(ND0, L, i as int, j as int); }
@tail 4.1.1
proof { sub_push(F0, base + fo(L, i as int) + j, L[i as int]@[j as int]); assert(finalNodePtr@ == F0.update(base + fo(L, i as int) + j, L[i as int]@[j as int])); }
@tail 4.1
proof { sub_push(P0, curNumOfPart as int, finalPartPtr@[curNumOfPart as int]); assert(finalPartPtr@ == P0.update(curNumOfPart as int, finalPartPtr@[curNumOfPart as int])); more_step(PP0, offs(L, K), i + 1, finalPartPtr@[curNumOfPart as int]); }
@post 4.1
proof { assert(finaLevelPtr@.subrange(0, l + 2).subrange(0, l + 1) =~= LP0); next_window(d, wm, l as int, LP0, PP0, ND0, L, K, finaLevelPtr@.subrange(0, l + 2), finalPartPtr@.subrange(0, curNumOfPart + 1), finalNodePtr@.subrange(0, base + fo(L, K))); }
@post 4
proof { wok_first(d, wm); assert(l == lClusterCnt); assert(finalNodePtr@.subrange(0, n as int) =~= finalNodePtr@); }
