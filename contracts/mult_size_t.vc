@unit mult_size_t
@src utils/utils.cpp
@ns sym_lib
@name mult_size_t
@props P21
@requires
old(ok)@.len() == 1,
@ensures
final(ok)@.len() == 1,
final(ok)@[0] != 0 <==> (old(ok)@[0] != 0 && a * k < M64()),
final(ok)@[0] != 0 ==> res == a * k,
final(ok)@[0] == 0 ==> res == 0,
@lib
pub proof fn mul_step(p: int, a: int, k: int)
    requires a >= 0, k >= 0,
    ensures
        k % 2 != 0 ==> p + a * k == (p + a) + (2 * a) * (k / 2),
        k % 2 == 0 ==> p + a * k == p + (2 * a) * (k / 2),
        (2 * a) * (k / 2) >= 0,
        k / 2 >= 1 ==> (2 * a) * (k / 2) >= 2 * a,
        k / 2 == 0 ==> (2 * a) * (k / 2) == 0,
{
    let h = k / 2;
    assert(k == 2 * h + k % 2);
    assert((2 * a) * h == a * (2 * h)) by (nonlinear_arith);
    assert(a * (2 * h + 1) == a * (2 * h) + a) by (nonlinear_arith);
    assert((2 * a) * h >= 0) by (nonlinear_arith) requires a >= 0, h >= 0;
    if h == 0 { assert((2 * a) * h == 0) by (nonlinear_arith) requires h == 0; }
    if h >= 1 { assert((2 * a) * h >= 2 * a) by (nonlinear_arith) requires a >= 0, h >= 1; }
}
@entry
let ghost a0 = a as int;
let ghost k0 = k as int;
@loop 1
invariant
    ok@.len() == 1,
    ok@[0] != 0 ==> old(ok)@[0] != 0 && p + a * k == a0 * k0,
    ok@[0] == 0 ==> old(ok)@[0] == 0 || a0 * k0 >= M64(),
decreases k,
@head 1
proof { mul_step(p as int, a as int, k as int); }
