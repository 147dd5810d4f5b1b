@unit height_partitioning
@src src/lbc_utils.cpp
@ns sym_lib
@name height_partitioning
@props P05
@uses windows
@opts complex
@requires
1 <= levelNo < 0x3fff_ffff, originalHeight == levelNo, 0 <= minLevelDist < 0x3fff_ffff, sw ==> minLevelDist >= 1 && innerParts >= 1, levelPtr@.len() > levelNo,
divRate <= 0xffff, -0xffff <= innerParts <= 0x7fff,
forall|k: int| 0 <= k <= levelNo ==> 0 <= #[trigger] levelPtr@[k],
old(partition2Level)@.len() > levelNo,
@ensures
1 <= res <= levelNo, windows(partition2Level@, res as int, levelNo as int), partition2Level@.len() == old(partition2Level)@.len(),
innerPartsSize@.len() >= old(innerPartsSize)@.len() + res,
counts_in(innerPartsSize@, old(innerPartsSize)@.len() as int, if sw { i32::MAX as int } else if innerParts > 1 { innerParts as int } else { 1 }),
forall|k: int| 0 <= k < old(innerPartsSize)@.len() ==> #[trigger] innerPartsSize@[k] == old(innerPartsSize)@[k],
@entry
let ghost cap = if sw { i32::MAX as int } else if innerParts > 1 { innerParts as int } else { 1 };
let ghost ips0 = innerPartsSize@;
@loop 1
invariant
    0 <= i <= levelNo, accuSlackGroups@.len() == levelNo,
decreases levelNo - i,
@pre 2
proof { assert(divRate * innerPartsTmp <= 0xffff * 0x7fff && 0 <= divRate * innerPartsTmp) by (nonlinear_arith) requires 1 <= divRate <= 0xffff, 1 <= innerPartsTmp <= 0x7fff; }
@loop 2
invariant
    0 <= lClusterCnt < levelNo, partition2Level@.len() == old(partition2Level)@.len(), incr(partition2Level@, lClusterCnt as int),
    partition2Level@[lClusterCnt as int] < i, partition2Level@[lClusterCnt as int] < levelNo, 1 <= i < levelNo + minLevelDist || i == minLevelDist,
    innerPartsSize@.len() >= ips0.len() + lClusterCnt, counts_in(innerPartsSize@, ips0.len() as int, cap),
    forall|k: int| 0 <= k < ips0.len() ==> #[trigger] innerPartsSize@[k] == ips0[k],
decreases levelNo + minLevelDist - i,
@end 2
proof { incr_at_least(partition2Level@, lClusterCnt as int); }
@loop 3
invariant
    0 <= lClusterCnt < levelNo, partition2Level@.len() == old(partition2Level)@.len(), incr(partition2Level@, lClusterCnt as int),
    partition2Level@[lClusterCnt as int] < levelNo, levelCut == 0, innerPartsTmp <= cap,
    innerPartsSize@.len() >= ips0.len() + lClusterCnt, counts_in(innerPartsSize@, ips0.len() as int, cap),
    forall|k: int| 0 <= k < ips0.len() ==> #[trigger] innerPartsSize@[k] == ips0[k],
decreases innerPartsTmp,
@head 3
proof { assert(0 <= cdiv(innerPartsTmp as int, divRate as int) < innerPartsTmp) by (nonlinear_arith) requires innerPartsTmp > 1, divRate > 1, cdiv(innerPartsTmp as int, divRate as int) == innerPartsTmp as int / divRate as int; }
@loop 3.1
invariant_except_break
    levelCut < levelNo,
invariant
    0 <= levelCut <= levelNo,
decreases levelNo - levelCut,
@end 3
proof { incr_at_least(partition2Level@, lClusterCnt as int); }
@exit
proof { incr_at_least(partition2Level@, lClusterCnt as int); }
