@unit copy_vector_dense
@src utils/sparse_utilities.cpp
@ns sym_lib
@name copy_vector_dense
@props P22
@requires
end <= src@.len(), end <= old(dst)@.len(),
@ensures
dst@.len() == old(dst)@.len(),
forall|k: int| 0 <= k < dst@.len() ==> #[trigger] dst@[k] == (if beg <= k < end { src@[k] } else { old(dst)@[k] }),
@loop 1
invariant
    beg <= i, i <= end || i == beg, dst@.len() == old(dst)@.len(),
    forall|k: int| 0 <= k < dst@.len() ==> #[trigger] dst@[k] == (if beg <= k < i { src@[k] } else { old(dst)@[k] }),
decreases end - i,
