@unit number_empty_col
@src utils/sparse_utilities.cpp
@ns sym_lib
@name number_empty_col
@props P22
@uses builders
@requires
A.n < i32::MAX, A.p@.len() > A.n, forall|k: int| 0 <= k <= A.n ==> 0 <= #[trigger] A.p@[k],
@ensures
res == nempty(A.p@, A.n as int),
@loop 1
invariant
    0 <= i <= A.n, cnt == nempty(A.p@, i as int), 0 <= cnt <= i,
decreases A.n - i,
