@unit verify_csc_diagonal
@src utils/sparse_utilities.cpp
@ns sym_lib
@name verify_csc_diagonal
@props P22
@uses builders
@requires
A.n < i32::MAX, A.p@.len() > A.n, forall|k: int| 0 <= k < A.n ==> 0 <= #[trigger] A.p@[k] < A.i@.len(),
@ensures
res <==> forall|k: int| 0 <= k < A.n ==> A.i@[#[trigger] A.p@[k] as int] == k,
@loop 1
invariant
    0 <= i <= A.n, forall|k: int| 0 <= k < i ==> A.i@[#[trigger] A.p@[k] as int] == k,
decreases A.n - i,
