@unit reorder_array
@src utils/sparse_utilities.cpp
@ns sym_lib
@name reorder_array
@props P16
@uses perm
@requires
n > 0 ==> old(arr)@.len() >= n && perm@.len() >= n && old(ws)@.len() >= n,
forall|k: int| 0 <= k < n ==> 0 <= #[trigger] perm@[k] < old(arr)@.len(),
@ensures
final(arr)@.len() == old(arr)@.len(), final(ws)@.len() == old(ws)@.len(),
forall|k: int| 0 <= k < n ==> final(arr)@[k] == old(arr)@[#[trigger] perm@[k] as int],
forall|k: int| 0 <= k < old(arr)@.len() && k >= n ==> #[trigger] final(arr)@[k] == old(arr)@[k],
@loop 1
invariant
    0 <= i, i <= n || i == 0,
    arr@ == old(arr)@, ws@.len() == old(ws)@.len(),
    forall|k: int| 0 <= k < i ==> ws@[k] == old(arr)@[#[trigger] perm@[k] as int],
decreases n - i,
@loop 2
invariant
    0 <= j, j <= n || j == 0,
    arr@.len() == old(arr)@.len(), ws@.len() == old(ws)@.len(),
    forall|k: int| 0 <= k < n ==> ws@[k] == old(arr)@[#[trigger] perm@[k] as int],
    forall|k: int| 0 <= k < j ==> #[trigger] arr@[k] == ws@[k],
    forall|k: int| j <= k < old(arr)@.len() ==> #[trigger] arr@[k] == old(arr)@[k],
decreases n - j,
