@unit compute_inv_perm
@src utils/sparse_utilities.cpp
@ns sym_lib
@name compute_inv_perm
@props P16
@uses perm
@requires
n > 0 ==> is_perm(perm@, n as int) && old(pinv)@.len() >= n,
@ensures
final(pinv)@.len() == old(pinv)@.len(),
n <= 0 ==> res@.len() == 0 && final(pinv)@ == old(pinv)@,
n > 0 ==> res@ == final(pinv)@ && inverses(final(pinv)@, perm@, n as int),
forall|k: int| n <= k < old(pinv)@.len() ==> #[trigger] final(pinv)@[k] == old(pinv)@[k],
@loop 1
invariant
    n > 0, 0 <= i <= n, is_perm(perm@, n as int), pinv@.len() == old(pinv)@.len(), pinv@.len() >= n,
    forall|k: int| 0 <= k < i ==> pinv@[#[trigger] perm@[k] as int] == k,
    forall|k: int| n <= k < old(pinv)@.len() ==> #[trigger] pinv@[k] == old(pinv)@[k],
decreases n - i,
@exit
proof { if n > 0 { inv_both(pinv@, perm@, n as int); } }
