@unit NaiveGrouping
@src src/group.cpp
@ns sym_lib
@name NaiveGrouping
@props P10
@uses groups
@requires
0 <= n, blksize >= 1, old(groupPtr)@.len() > (n + blksize - 1) / blksize as int, old(groupSet)@.len() >= n, old(ginv)@.len() >= n,
@ensures
*final(ngroup) == (n + blksize - 1) / blksize as int, grouping(groupPtr@, groupSet@, ginv@, *final(ngroup) as int, n as int),
forall|k: int| 0 <= k < n ==> #[trigger] groupSet@[k] == k, forall|k: int| 0 <= k < n ==> #[trigger] ginv@[k] == k / blksize as int,
@loop 1
invariant
    0 <= i <= n, pos == i, blksize >= 1, index == (i + blksize - 1) / blksize as int, groupPtr@.len() > (n + blksize - 1) / blksize as int, groupSet@.len() >= n, ginv@.len() >= n,
    forall|k: int| 0 <= k < i ==> #[trigger] groupSet@[k] == k, forall|k: int| 0 <= k < i ==> #[trigger] ginv@[k] == k / blksize as int,
    forall|g: int| 0 <= g < index ==> #[trigger] groupPtr@[g] == g * blksize,
decreases n - i,
@head 1
proof { blocks_step(i as int, blksize as int); blocks_mono(i as int, n as int, blksize as int); }
@exit
proof {
    blocks_done(groupPtr@, groupSet@, ginv@, n as int, blksize as int);
}
@pre 1
proof { vstd::arithmetic::div_mod::lemma_basic_div(blksize - 1, blksize as int); }
