@unit copy_from_to_csc
@src utils/sparse_utilities.cpp
@ns sym_lib
@name copy_from_to
@sig void (CSC *, CSC *)
@props P22
@uses csc
@requires
src.n < i32::MAX, mono(src.p@, src.n as int), src.i@.len() >= src.p@[src.n as int], src.x@.len() >= src.p@[src.n as int],
old(dst).p@.len() > src.n, old(dst).i@.len() >= src.p@[src.n as int], old(dst).x@.len() >= src.p@[src.n as int],
@ensures
dst.p@.len() == old(dst).p@.len(), dst.i@.len() == old(dst).i@.len(), dst.x@.len() == old(dst).x@.len(),
dst.m == old(dst).m, dst.n == old(dst).n, dst.nnz == old(dst).nnz, dst.stype == old(dst).stype,
forall|k: int| 0 <= k <= src.n ==> #[trigger] dst.p@[k] == src.p@[k],
forall|k: int| 0 <= k < src.p@[src.n as int] ==> #[trigger] dst.i@[k] == src.i@[k],
forall|k: int| 0 <= k < src.p@[src.n as int] ==> #[trigger] dst.x@[k] == src.x@[k],
@loop 1
invariant
    0 <= i <= src.n, dst.p@.len() == old(dst).p@.len(), dst.i@.len() == old(dst).i@.len(), dst.x@.len() == old(dst).x@.len(),
    dst.m == old(dst).m, dst.n == old(dst).n, dst.nnz == old(dst).nnz, dst.stype == old(dst).stype,
    dst.p@[src.n as int] == src.p@[src.n as int],
    forall|k: int| 0 <= k < i ==> #[trigger] dst.p@[k] == src.p@[k],
    forall|k: int| 0 <= k < src.p@[i as int] ==> #[trigger] dst.i@[k] == src.i@[k],
    forall|k: int| 0 <= k < src.p@[i as int] ==> #[trigger] dst.x@[k] == src.x@[k],
decreases src.n - i,
@loop 1.1
invariant
    src.p@[i as int] <= j <= src.p@[i + 1], dst.p@.len() == old(dst).p@.len(), dst.i@.len() == old(dst).i@.len(), dst.x@.len() == old(dst).x@.len(),
    dst.m == old(dst).m, dst.n == old(dst).n, dst.nnz == old(dst).nnz, dst.stype == old(dst).stype,
    dst.p@[src.n as int] == src.p@[src.n as int],
    forall|k: int| 0 <= k <= i ==> #[trigger] dst.p@[k] == src.p@[k],
    forall|k: int| 0 <= k < j ==> #[trigger] dst.i@[k] == src.i@[k],
    forall|k: int| 0 <= k < j ==> #[trigger] dst.x@[k] == src.x@[k],
decreases src.p@[i + 1] - j,
