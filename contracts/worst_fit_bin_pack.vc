@unit worst_fit_bin_pack
@src src/lbc_utils.cpp
@ns sym_lib
@name worst_fit_bin_pack
@props P06
@uses pack
@requires
newLeveledParList@.len() < i32::MAX, inCost@.len() >= newLeveledParList@.len(), 1 <= numOfBins <= old(mergedLeveledParList)@.len(), old(outCost)@.len() >= numOfBins,
@ensures
res == numOfBins, outCost@.len() == old(outCost)@.len(),
exists|ord: Seq<int>, bin: Seq<int>| #[trigger] packed(newLeveledParList@, old(mergedLeveledParList)@, mergedLeveledParList@, numOfBins as int, ord, bin),
forall|b: int| numOfBins <= b < mergedLeveledParList@.len() ==> (#[trigger] mergedLeveledParList@[b])@ == old(mergedLeveledParList)@[b]@,
forall|b: int| numOfBins <= b < outCost@.len() ==> #[trigger] outCost@[b] == old(outCost)@[b],
@entry
let ghost mut pl0: Seq<SubTree> = Seq::empty(); let ghost mut bin: Seq<int> = Seq::empty(); let ghost mut ord: Seq<int> = Seq::empty();
let ghost m0 = mergedLeveledParList@;
@loop 1
invariant
    0 <= i <= partNo, partNo == newLeveledParList@.len(), inCost@.len() >= partNo, partList@.len() == partNo,
    forall|k: int| 0 <= k < i ==> (#[trigger] partList@[k]).nodeList@ == newLeveledParList@[k]@,
    forall|k: int| i <= k < partNo ==> (#[trigger] partList@[k]).nodeList@ == Seq::<i32>::empty(),
decreases partNo - i,
@post 1
proof { pl0 = partList@; }
@pre 2
proof {
    assert(partList@.subrange(0, partList@.len() as int) =~= partList@); assert(pl0.subrange(0, pl0.len() as int) =~= pl0);
ord = multiset_order(partList@, pl0);
}
@loop 2
invariant
    0 <= i <= partNo, partNo == newLeveledParList@.len(), partList@.len() == partNo, order_of(ord, partNo as int),
    1 <= numOfBins <= mergedLeveledParList@.len(), outCost@.len() == old(outCost)@.len(), outCost@.len() >= numOfBins,
    forall|k: int| 0 <= k < partNo ==> (#[trigger] partList@[k]).nodeList@ == newLeveledParList@[ord[k]]@,
    bin.len() == i, forall|k: int| 0 <= k < i ==> 0 <= #[trigger] bin[k] < numOfBins,
    mergedLeveledParList@.len() == m0.len(),
    forall|b: int| 0 <= b < m0.len() ==> (#[trigger] mergedLeveledParList@[b])@ == m0[b]@ + got(newLeveledParList@, ord, bin, i as int, b),
    forall|b: int| numOfBins <= b < outCost@.len() ==> #[trigger] outCost@[b] == old(outCost)@[b],
decreases partNo - i,
@head 2
let ghost ma = mergedLeveledParList@; let ghost bin0 = bin; let ghost ia = i as int;
@end 2
proof {
    bin = bin0.push(minBin as int);
    assert forall|b: int| 0 <= b < m0.len() implies (#[trigger] mergedLeveledParList@[b])@ == m0[b]@ + got(newLeveledParList@, ord, bin, i as int, b) by {
        got_ext(newLeveledParList@, ord, bin0, bin, ia, b);
        assert(ma[b]@ == m0[b]@ + got(newLeveledParList@, ord, bin0, ia, b));
        assert(mergedLeveledParList@[b]@ =~= m0[b]@ + got(newLeveledParList@, ord, bin, i as int, b));
    }
}
@exit
proof {
    assert(packed(newLeveledParList@, m0, mergedLeveledParList@, numOfBins as int, ord, bin));
    assert forall|b: int| numOfBins <= b < mergedLeveledParList@.len() implies (#[trigger] mergedLeveledParList@[b])@ == m0[b]@ by {
        got_none(newLeveledParList@, ord, bin, partNo as int, numOfBins as int, b); assert(m0[b]@ + Seq::<i32>::empty() =~= m0[b]@);
    }
}
