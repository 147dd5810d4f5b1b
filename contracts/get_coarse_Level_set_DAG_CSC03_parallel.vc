@unit get_coarse_Level_set_DAG_CSC03_parallel
@src src/lbc_csc_dag.cpp
@ns sym_lib
@name get_coarse_Level_set_DAG_CSC03_parallel
@props P03
@uses plists windows
@opts complex isolate spinoff
@args make_partitions_parallel
d
@requires
dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX,
@ensures
1 <= *final(finaLevelNo) <= n, in_arrays(lC@, lR@, n as int, *final(finaLevelNo) as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@),
@entry
let ghost mut d0: Lv = lv_of(lC@, lR@, 0, seq![], seq![], 0); let ghost mut d: Lv = d0; let ghost mut wm: Seq<i32> = seq![];
@pre 1
proof { lv_known(lC@, lR@, n as int, levelPtr@, levelSet@, levelNo as int); d0 = lv_of(lC@, lR@, n as int, levelPtr@, levelSet@, levelNo as int); named_none(d0, node2Level@); lv_sizes(d0); }
@loop 1
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, d0 == lv_of(lC@, lR@, n as int, levelPtr@, levelSet@, levelNo as int), lv_ok(d0), 1 <= levelNo <= n, levelPtr@.len() == n + 1, levelSet@.len() == n, node2Level@.len() == n, 0 <= i <= levelNo, named(d0, node2Level@, levelPtr@[i as int] as int),
decreases levelNo - i,
@head 1
proof { lv_mono(d0, i as int, i + 1); lv_mono(d0, i + 1, levelNo as int); }
@loop 1.1
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, finaLevelPtr@[0] == 0, finalPartPtr@[0] == 0, d0 == lv_of(lC@, lR@, n as int, levelPtr@, levelSet@, levelNo as int), lv_ok(d0), 1 <= levelNo <= n, levelPtr@.len() == n + 1, levelSet@.len() == n, node2Level@.len() == n, 0 <= i < levelNo, 0 <= levelPtr@[i as int] <= j <= levelPtr@[i + 1] <= n, named(d0, node2Level@, j as int),
decreases levelPtr@[i + 1] - j,
@head 1.1
proof { named_step(d0, node2Level@, j as int, i as int, i); }
@post 1
proof { lv_sizes(d0); named_all(d0, node2Level@); d = relev(d0, node2Level@); assert forall|k: int| 0 <= k <= levelNo implies 0 <= #[trigger] levelPtr@[k] by { lv_mono(d0, k, levelNo as int); } }
@after let mut lClusterCnt: i32 = .*
proof { wm = partition2Level@.subrange(0, lClusterCnt + 1); wok_mk(d, partition2Level@, lClusterCnt as int); pos_mk(innerPartsSize@, if innerParts > 1 { innerParts as int } else { 6 }); }
@after \*finaLevelNo = lClusterCnt;
proof { in_arrays_mk(d, wm, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@); }
@loop 2
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, checkExist@.len() == n, 0 <= i <= n,
decreases n - i,
@loop 3
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, checkExist@.len() == n, in_arrays(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@), 1 <= lClusterCnt <= n, 0 <= i <= lClusterCnt,
decreases lClusterCnt - i,
@head 3
proof { in_arrays_at(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@, i as int); }
@loop 3.1
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, checkExist@.len() == n, in_arrays(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@), 1 <= lClusterCnt <= n, 0 <= i < lClusterCnt, 0 <= finaLevelPtr@[i as int] <= k <= finaLevelPtr@[i + 1] <= n,
decreases finaLevelPtr@[i + 1] - k,
@head 3.1
proof { in_arrays_part(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@, i as int, k as int); }
@loop 3.1.1
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, checkExist@.len() == n, in_arrays(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@), 1 <= lClusterCnt <= n, 0 <= i < lClusterCnt, 0 <= k < n, 0 <= finalPartPtr@[k as int] <= j <= finalPartPtr@[k + 1] <= n,
decreases finalPartPtr@[k + 1] - j,
@head 3.1.1
proof { in_arrays_node(lC@, lR@, n as int, lClusterCnt as int, finaLevelPtr@, finalPartPtr@, finalNodePtr@, j as int); }
@loop 4
invariant dag_in(lC@, lR@, n as int), acyclic(lC@, lR@, n as int), n >= 1, 2 * n <= i32::MAX, lC@.len() == n + 1, lR@.len() <= i32::MAX, nodeCost@.len() >= n, innerParts >= 1, divRate >= 1, minLevelDist >= 0, n + divRate <= i32::MAX, finaLevelPtr@.len() == n + 1, finalPartPtr@.len() == n + 1, finalNodePtr@.len() == n, checkExist@.len() == n, 0 <= i <= n,
decreases n - i,
