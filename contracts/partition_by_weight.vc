@unit partition_by_weight
@src utils/utils.cpp
@ns sym_lib
@name partition_by_weight
@props P23
@uses wpart
@requires
n >= 0, 1 <= n_parts < i32::MAX, set@.len() >= n, weight@.len() >= n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] set@[k] < weight@.len(), target_weight@.len() == 0 || target_weight@.len() >= n_parts,
@ensures
res@.len() == n_parts + 1, res@[0] == 0, res@[n_parts as int] == n, forall|k: int| 0 <= k < n_parts ==> #[trigger] res@[k] <= res@[k + 1],
forall|k: int| 0 <= k < n_parts - 1 ==> #[trigger] part_ok(weight@, set@, n as int, n_parts as int, target_weight@, res@, k),
@entry
let ghost mut i2: Seq<i32> = Seq::empty();
@loop 1
invariant 0 <= i <= n_in1, n_in1 == n, weight@.len() >= n, sum == wfold(weight@, i as int),
decreases n_in1 - i,
@loop 2
invariant
    0 <= i <= n_parts, 1 <= n_parts < i32::MAX, 0 <= j <= n, even_weight@.len() >= n_parts, set@.len() >= n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] set@[k] < weight@.len(),
    indices@.len() == n_parts + 1, indices@[0] == 0, indices@[i as int] == j, forall|k: int| 0 <= k < i ==> #[trigger] indices@[k] <= indices@[k + 1],
    forall|k: int| 0 <= k <= i ==> #[trigger] indices@[k] <= n,
    forall|k: int| 0 <= k < n_parts ==> #[trigger] even_weight@[k] == want(weight@, n as int, n_parts as int, target_weight@, k),
    forall|k: int| 0 <= k < i ==> #[trigger] part_ok(weight@, set@, n as int, n_parts as int, target_weight@, indices@, k),
decreases n_parts - i,
@loop 2.1
invariant
    0 <= i < n_parts, 1 <= n_parts < i32::MAX, indices@[i as int] <= j <= n, even_weight@.len() >= n_parts, set@.len() >= n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] set@[k] < weight@.len(),
    indices@ == i0, g == i, c_wgt == wrun(weight@, set@, indices@[g] as int, j as int), forall|q: int| indices@[g] <= q < j ==> flt_s(#[trigger] wrun(weight@, set@, indices@[g] as int, q), even_weight@[g]),
decreases n - j,
@head 2
let ghost i0 = indices@; let ghost g = i as int;
@end 2
proof {
    assert forall|k: int| 0 <= k < i implies #[trigger] part_ok(weight@, set@, n as int, n_parts as int, target_weight@, indices@, k) by {
        if k < g { assert(part_ok(weight@, set@, n as int, n_parts as int, target_weight@, i0, k)); assert(indices@[k] == i0[k]); assert(indices@[k + 1] == i0[k + 1]); }
        else { assert(even_weight@[g] == want(weight@, n as int, n_parts as int, target_weight@, g)); assert(indices@[g] == i0[g]); }
    }
    assert forall|k: int| 0 <= k < i implies #[trigger] indices@[k] <= indices@[k + 1] by { if k < g { assert(i0[k] <= i0[k + 1]); assert(indices@[k] == i0[k]); assert(indices@[k + 1] == i0[k + 1]); } }
}
@pre 2
proof {
    assert forall|k: int| 0 <= k < n_parts implies #[trigger] even_weight@[k] == want(weight@, n as int, n_parts as int, target_weight@, k) by { }
}
@post 2
proof { i2 = indices@; }
@exit
proof {
    assert forall|k: int| 0 <= k < n_parts - 1 implies #[trigger] part_ok(weight@, set@, n as int, n_parts as int, target_weight@, indices@, k) by { assert(part_ok(weight@, set@, n as int, n_parts as int, target_weight@, i2, k)); assert(indices@[k] == i2[k]); assert(indices@[k + 1] == i2[k + 1]); }
}
proof {
    assert forall|k: int| 0 <= k < n_parts implies #[trigger] indices@[k] <= indices@[k + 1] by { }
}
