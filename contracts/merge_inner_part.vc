@unit merge_inner_part
@src src/lbc_utils.cpp
@ns sym_lib
@name merge_inner_part
@props P06
@uses pack
@requires
newLeveledParList@.len() < i32::MAX, inCost@.len() == newLeveledParList@.len(), costThreshold >= 1,
old(mergedLeveledParList)@.len() >= newLeveledParList@.len(), old(outCost)@.len() >= newLeveledParList@.len(),
forall|k: int| 0 <= k < inCost@.len() ==> 0 <= #[trigger] inCost@[k], rsum(inCost@, 0, inCost@.len() as int) <= i32::MAX,
@ensures
0 <= res <= newLeveledParList@.len(),
exists|cut: Seq<int>| #[trigger] merged(newLeveledParList@, inCost@, old(mergedLeveledParList)@, mergedLeveledParList@, outCost@, cut, res as int, newLeveledParList@.len() as int),
@entry
let ghost mut cut: Seq<int> = seq![0int];
let ghost m0 = mergedLeveledParList@;
@loop 1
invariant
    0 <= lClusterCnt <= i <= partNo, partNo == newLeveledParList@.len(), inCost@.len() == partNo, costThreshold >= 1,
    mergedLeveledParList@.len() >= partNo, outCost@.len() >= partNo,
    forall|k: int| 0 <= k < inCost@.len() ==> 0 <= #[trigger] inCost@[k], rsum(inCost@, 0, inCost@.len() as int) <= i32::MAX,
    merged(newLeveledParList@, inCost@, m0, mergedLeveledParList@, outCost@, cut, lClusterCnt as int, i as int),
decreases partNo - i,
@head 1
let ghost ma = mergedLeveledParList@; let ghost cut0 = cut; let ghost ia = i as int; let ghost oa = outCost@;
@loop 1.1
invariant
    ia <= i <= partNo, ia < partNo, 0 <= lClusterCnt <= ia, partNo == newLeveledParList@.len(), inCost@.len() == partNo, costThreshold >= 1,
    mergedLeveledParList@.len() >= partNo, mergedLeveledParList@.len() == ma.len(), outCost@ == oa,
    forall|k: int| 0 <= k < inCost@.len() ==> 0 <= #[trigger] inCost@[k], rsum(inCost@, 0, inCost@.len() as int) <= i32::MAX,
    curCost == rsum(inCost@, ia, i as int), i > ia || curCost == 0,
    mergedLeveledParList@[lClusterCnt as int]@ == ma[lClusterCnt as int]@ + cat(newLeveledParList@, ia, i as int),
    forall|k: int| 0 <= k < ma.len() && k != lClusterCnt ==> #[trigger] mergedLeveledParList@[k] == ma[k],
decreases partNo - i,
@head 1.1
let ghost mb = mergedLeveledParList@; let ghost ib = i as int;
proof {
    rsum_split(inCost@, 0, ia, partNo as int); rsum_split(inCost@, ia, i + 1, partNo as int);
    rsum_ge0(inCost@, 0, ia); rsum_ge0(inCost@, i + 1, partNo as int);
    assert(rsum(inCost@, ia, i + 1) == rsum(inCost@, ia, i as int) + inCost@[i as int]);
}
@end 1.1
proof {
    assert(cat(newLeveledParList@, ia, i as int) == cat(newLeveledParList@, ia, ib) + newLeveledParList@[ib]@);
    assert(mergedLeveledParList@[lClusterCnt as int]@ =~= ma[lClusterCnt as int]@ + cat(newLeveledParList@, ia, i as int));
}
@end 1
proof {
    cut = cut0.push(i as int);
    let l = lClusterCnt - 1;
    assert(i > ia);
    assert forall|k: int| 0 <= k < lClusterCnt implies #[trigger] cut[k] < cut[k + 1] by { if k < l { assert(cut0[k] < cut0[k + 1]); } }
    assert forall|k: int| 0 <= k < lClusterCnt implies (#[trigger] mergedLeveledParList@[k])@ == m0[k]@ + cat(newLeveledParList@, cut[k], cut[k + 1]) by {
        if k < l { assert(mergedLeveledParList@[k] == ma[k]); } else { assert(ma[k] == m0[k]); }
    }
    assert forall|k: int| lClusterCnt <= k < m0.len() implies #[trigger] mergedLeveledParList@[k] == m0[k] by { assert(ma[k] == m0[k]); }
    assert forall|k: int| 0 <= k < lClusterCnt implies #[trigger] outCost@[k] == rsum(inCost@, cut[k], cut[k + 1]) by { if k < l { assert(outCost@[k] == oa[k]); } }
}
@exit
proof { assert(merged(newLeveledParList@, inCost@, m0, mergedLeveledParList@, outCost@, cut, lClusterCnt as int, partNo as int)); }
