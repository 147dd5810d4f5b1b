@unit build_L
@src utils/lfactor_creation.cpp
@ns sym_lib
@name build_L_pattern_from_col_counts
@props P17
@uses lpat
@opts complex isolate spinoff
@requires
0 < n <= i32::MAX / 2, gwf(A.p@, A.i@, n as int), A.p@[n as int] > 0, is_tree(eg_low(A.p@, A.i@), n as int, parent@), col_counts(eg_low(A.p@, A.i@), n as int, col_count@), cc_total(col_count@, n as int) <= i32::MAX, old(accessed_nnz)@.len() >= n,
@ensures
res.m == n, res.n == n, res.nnz == res.p@[n as int], is_factor(eg_low(A.p@, A.i@), n as int, res.p@, res.i@), res.x@.len() == res.nnz, res.pre_alloc == false, final(accessed_nnz)@.len() == old(accessed_nnz)@.len(), forall|s: int| 0 <= s < n ==> #[trigger] final(accessed_nnz)@[s] == i2f_s(row_cost(eg_low(A.p@, A.i@), A.p@, s)),
@entry
let ghost g = eg_low(A.p@, A.i@); let ghost N = n as int;
@pre 1
proof { lp_init(col_count@, Lp@); }
@loop 1
invariant
    g == eg_low(A.p@, A.i@), N == n, 0 < n <= i32::MAX / 2, Lp@.len() == n + 1, 1 <= l <= n + 1, lp_upto(col_count@, Lp@, l - 1), col_counts(g, N, col_count@), cc_total(col_count@, N) <= i32::MAX,
decreases n + 1 - l,
@head 1
proof { lp_room(g, N, col_count@, Lp@, l as int); lp_step(g, N, col_count@, Lp@, l as int, (Lp@[l - 1] + col_count@[l - 1]) as i32); }
@post 1
proof { lp_done(g, N, col_count@, Lp@); }
@pre 2
proof { lf_init(g, N, Lp@, Li@, finger@); let z = xi@.subrange(N, 2 * N); assert(plain(z, N)) by { reveal(plain); } }
@loop 2
invariant
    g == eg_low(A.p@, A.i@), N == n, 0 < n <= i32::MAX / 2, gwf(A.p@, A.i@, N), A.p@[N] > 0, is_tree(g, N, parent@), Lp@.len() == n + 1, 0 <= s <= n, l_full(g, N, s as int, Lp@, Li@, finger@), finger@.len() == n, xi@.len() == 2 * N, plain(xi@.subrange(N, 2 * N), N), accessed_nnz@.len() == old(accessed_nnz)@.len(), accessed_nnz@.len() >= n, forall|y: int| 0 <= y < s ==> #[trigger] accessed_nnz@[y] == i2f_s(row_cost(g, A.p@, y)),
decreases n - s,
@head 2
proof { lf_open(g, N, s as int, Lp@, Li@, finger@, Seq::<i32>::empty(), s, 1i32); }
@pre 2.1
let ghost t0 = top as int; let ghost z = xi@.subrange(t0, N);
proof { assert(z.subrange(0, 0) =~= Seq::<i32>::empty()); }
@loop 2.1
invariant
    g == eg_low(A.p@, A.i@), N == n, 0 < n <= i32::MAX / 2, Lp@.len() == n + 1, 0 <= s < n, finger@.len() == n, xi@.len() == 2 * N, 0 <= t0 <= i <= n, z == xi@.subrange(t0, N), row_of(g, s as int, z), l_part(g, N, s as int, Lp@, Li@, finger@, z.subrange(0, i - t0)),
decreases n - i,
@head 2.1
proof { let zi = z.subrange(0, i - t0); let c = z[i - t0]; assert(c == xi@[i as int]); assert(0 <= c < s); assert(!zocc(zi, c as int)) by { if zocc(zi, c as int) { let a = choose|a: int| 0 <= a < zi.len() && #[trigger] zi[a] == c; assert(z[a] != z[i - t0]); } } lf_add(g, N, s as int, Lp@, Li@, finger@, zi, c, s, (finger@[c as int] + 1) as i32); assert(zi.push(c) =~= z.subrange(0, i - t0 + 1)); }
@post 2.1
proof { assert(z.subrange(0, N - t0) =~= z); lf_close(g, N, s as int, Lp@, Li@, finger@, z); }
@post 2
proof { lf_done(g, N, Lp@, Li@, finger@); }
