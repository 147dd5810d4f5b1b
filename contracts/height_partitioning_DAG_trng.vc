@unit height_partitioning_DAG_trng
@src src/lbc_utils.cpp
@ns sym_lib
@name height_partitioning_DAG_trng
@props P05
@uses windows
@opts complex
@requires
1 <= levelNo, originalHeight == levelNo, divRate >= 1, minLevelDist >= 0, levelNo + divRate <= i32::MAX, levelPtr@.len() > levelNo,
forall|k: int| 0 <= k <= levelNo ==> 0 <= #[trigger] levelPtr@[k],
old(partition2Level)@.len() > levelNo,
@ensures
// consecutive non-empty windows over all levels, one positive partition count each
1 <= res <= levelNo, windows(partition2Level@, res as int, levelNo as int), partition2Level@.len() == old(partition2Level)@.len(),
innerPartsSize@.len() == old(innerPartsSize)@.len() + res,
counts_in(innerPartsSize@, old(innerPartsSize)@.len() as int, if innerParts > 1 { innerParts as int } else { 6 }),
forall|k: int| 0 <= k < old(innerPartsSize)@.len() ==> #[trigger] innerPartsSize@[k] == old(innerPartsSize)@[k],
@entry
let ghost cap = if innerParts > 1 { innerParts as int } else { 6 };
let ghost ips0 = innerPartsSize@;
@loop 1
invariant
    -1 <= i < levelNo, 0 <= last_level <= levelNo,
decreases i + 1,
@loop 2
invariant
    0 <= i <= levelNo, accuSlackGroups@.len() == levelNo,
decreases levelNo - i,
@loop 3
invariant
    0 <= lClusterCnt, partition2Level@.len() == old(partition2Level)@.len(), incr(partition2Level@, lClusterCnt as int),
    partition2Level@[lClusterCnt as int] < tmp < levelNo + divRate, partition2Level@[lClusterCnt as int] < levelNo, 1 <= tmp, lClusterCnt < levelNo,
    innerPartsSize@.len() == ips0.len() + lClusterCnt, counts_in(innerPartsSize@, ips0.len() as int, cap),
    forall|k: int| 0 <= k < ips0.len() ==> #[trigger] innerPartsSize@[k] == ips0[k],
decreases levelNo + divRate - tmp,
@end 3
proof { incr_at_least(partition2Level@, lClusterCnt as int); }
@exit
proof { incr_at_least(partition2Level@, lClusterCnt as int); }
