@unit extract_diagonals
@src utils/sparse_utilities.cpp
@ns sym_lib
@name extract_diagonals
@props P22
@uses graph
@requires
0 <= n < i32::MAX, gwf(Ap@, Ai@, n as int),
@ensures
res@.len() == n,
// where a column stores its diagonal, the returned position is that entry
forall|v: int| 0 <= v < n && #[trigger] has_diag(Ap@, Ai@, v) ==> is_diag(Ap@, Ai@, v, res@[v] as int),
@opts complex
@loop 1
invariant
    0 <= i <= n, ret_ptr@.len() == n,
    forall|v: int| 0 <= v < i && #[trigger] has_diag(Ap@, Ai@, v) ==> is_diag(Ap@, Ai@, v, ret_ptr@[v] as int),
decreases n - i,
@loop 1.1
invariant
    forall|e: int| Ap@[i as int] <= e < j && #[trigger] Ai@[e] == i ==> is_diag(Ap@, Ai@, i as int, ret_ptr@[i as int] as int),
    Ap@[i as int] <= j <= Ap@[i + 1], ret_ptr@.len() == n,
    forall|v: int| 0 <= v < i && #[trigger] has_diag(Ap@, Ai@, v) ==> is_diag(Ap@, Ai@, v, ret_ptr@[v] as int),
ensures
    has_diag(Ap@, Ai@, i as int) ==> is_diag(Ap@, Ai@, i as int, ret_ptr@[i as int] as int),
decreases Ap@[i + 1] - j,
