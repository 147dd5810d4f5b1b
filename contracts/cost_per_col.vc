@unit cost_per_col
@src utils/lfactor_creation.cpp
@ns sym_lib
@name compute_cost_per_col
@props P17
@uses lpat
@opts complex isolate
@requires
0 <= colNo < n, gwf(cT@, rT@, n as int), cT@[n as int] > 0, is_tree(eg_low(cT@, rT@), n as int, eTree@), old(xi)@.len() >= 2 * n, plain(old(xi)@.subrange(n as int, old(xi)@.len() as int), n as int),
@ensures
0 <= *final(top) <= n, final(xi)@.len() == old(xi)@.len(), row_of(eg_low(cT@, rT@), colNo as int, final(xi)@.subrange(*final(top) as int, n as int)), final(xi)@.subrange(n as int, old(xi)@.len() as int) == old(xi)@.subrange(n as int, old(xi)@.len() as int), res == i2f_s(row_cost(eg_low(cT@, rT@), cT@, colNo as int)),
@before join_on\(.*
let ghost lo = xi@;
@pre 1
let ghost g = eg_low(cT@, rT@); let ghost t0 = *top as int; let ghost z = xi@.subrange(t0, n as int);
proof { zs_zero(cT@, z, colNo as int); assert(z.len() == n - t0); assert(z =~= lo.subrange(t0, n as int)); }
@loop 1
invariant
    g == eg_low(cT@, rT@), 0 <= t0 <= i <= n, z == xi@.subrange(t0, n as int), row_of(g, colNo as int, z), 0 <= colNo < n, gwf(cT@, rT@, n as int), total == i2f_s(zsum(cT@, z.subrange(0, i - t0), colNo as int)), xi@.len() >= n,
decreases n - i,
@head 1
proof { assert(z[i - t0] == xi@[i as int]); assert(0 <= z[i - t0] < colNo); zs_step(cT@, z, i - t0, colNo as int); zs_le(cT@, z.subrange(0, i - t0), colNo as int); zs_le(cT@, z.subrange(0, i - t0 + 1), colNo as int); let x = xi@[i as int] as int; assert(cT@[x] <= cT@[x + 1]); assert(0 <= cT@[x] && cT@[x + 1] <= cT@[n as int]); fadd_exact(zsum(cT@, z.subrange(0, i - t0), colNo as int), cT@[x + 1] - cT@[x]); }
@post 1
proof { assert(z.subrange(0, n - t0) =~= z); zs_row(g, cT@, z, colNo as int); zs_le(cT@, z, colNo as int); let x = colNo as int; assert(cT@[x] <= cT@[x + 1]); assert(0 <= cT@[x] && cT@[x + 1] <= cT@[n as int]); fadd_exact(zsum(cT@, z, x), cT@[x + 1] - cT@[x]); }
@exit
proof { assert(xi@.subrange(n as int, xi@.len() as int) =~= old(xi)@.subrange(n as int, old(xi)@.len() as int)); }
