@unit populate_children
@src utils/sparse_utilities.cpp
@ns sym_lib
@name populate_children
@props P02
@uses tree
@requires
0 <= n < i32::MAX, forest(eTree@, n as int),
old(childPtr)@.len() > n, old(childNo)@.len() >= n, old(nChild)@.len() >= n,
forall|v: int| 0 <= v < n ==> #[trigger] old(nChild)@[v] == 0,
@ensures
counts(eTree@, nChild@, n as int),
childPtr@.len() == old(childPtr)@.len(), childNo@.len() == old(childNo)@.len(), nChild@.len() == old(nChild)@.len(),
forall|v: int| 0 <= v <= n ==> #[trigger] childPtr@[v] == start(eTree@, n as int, v),
// every non-root is listed under its parent, in order; and nothing else is listed
forall|l: int| 0 <= l < n && eTree@[l] >= 0 ==> childNo@[#[trigger] slot(eTree@, n as int, l)] == l,
forall|v: int, q: int| 0 <= v < n && childPtr@[v] <= q < childPtr@[v + 1] ==> #[trigger] in_bucket(eTree@, childNo@, v, q),
@loop 1
invariant
    0 <= k <= n, nChild@.len() == old(nChild)@.len(),
    forall|v: int| 0 <= v < n ==> #[trigger] nChild@[v] == cnt(eTree@, k as int, v),
decreases n - k,
@head 1
proof { if eTree@[k as int] >= 0 { cnt_bounds(eTree@, k as int, eTree@[k as int] as int); } }
@loop 2
invariant
    1 <= k <= n + 1, childPtr@.len() == old(childPtr)@.len(),
    forall|v: int| 0 <= v < k ==> #[trigger] childPtr@[v] == start(eTree@, n as int, v),
decreases n + 1 - k,
@head 2
proof { start_any(eTree@, n as int, k as int, n as int); assert(nChild@[k - 1] == cnt(eTree@, n as int, k - 1)); }
@loop 3
invariant
    0 <= l <= n, childNo@.len() == old(childNo)@.len(), childCnt@.len() == n,
    forall|v: int| 0 <= v < n ==> #[trigger] childCnt@[v] == cnt(eTree@, l as int, v),
    forall|k: int| 0 <= k < l && eTree@[k] >= 0 ==> childNo@[#[trigger] slot(eTree@, n as int, k)] == k,
decreases n - l,
@head 3
proof {
    if eTree@[l as int] >= 0 {
        slot_in(eTree@, n as int, l as int, n as int);
        cnt_bounds(eTree@, l as int, eTree@[l as int] as int);
        assert forall|k: int| 0 <= k < l && eTree@[k] >= 0 implies #[trigger] slot(eTree@, n as int, k) != slot(eTree@, n as int, l as int) && 0 <= slot(eTree@, n as int, k) by {
            slot_inj(eTree@, n as int, k, l as int, n as int); slot_in(eTree@, n as int, k, n as int);
        }
    }
}
@exit
proof {
    assert forall|v: int, q: int| 0 <= v < n && childPtr@[v] <= q < childPtr@[v + 1] implies #[trigger] in_bucket(eTree@, childNo@, v, q) by {
        start_any(eTree@, n as int, v, n as int); start_any(eTree@, n as int, v + 1, n as int);
        let d = q - start(eTree@, n as int, v);
        let k = occ(eTree@, n as int, v, d);
        assert(slot(eTree@, n as int, k) == q);
    }
}
