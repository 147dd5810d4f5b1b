@unit inv_perm
@src utils/sparse_utilities.cpp
@ns sym_lib
@name inv_perm
@props P16
@uses perm
@requires
n > 0 ==> is_perm(perm@, n as int) && old(iperm)@.len() >= n,
@ensures
final(iperm)@.len() == old(iperm)@.len(),
n > 0 ==> inverses(final(iperm)@, perm@, n as int),
forall|k: int| 0 <= k < old(iperm)@.len() && k >= n ==> #[trigger] final(iperm)@[k] == old(iperm)@[k],
@loop 1
invariant
    n <= 0 ==> iperm@ == old(iperm)@,
    n > 0 ==> 0 <= i <= n && is_perm(perm@, n as int) && iperm@.len() >= n,
    iperm@.len() == old(iperm)@.len(),
    i >= 0,
    forall|k: int| 0 <= k < i && k < n ==> iperm@[#[trigger] perm@[k] as int] == k,
    forall|k: int| 0 <= k < old(iperm)@.len() && k >= n ==> #[trigger] iperm@[k] == old(iperm)@[k],
decreases n - i,
@exit
proof { if n > 0 { inv_both(iperm@, perm@, n as int); } }
