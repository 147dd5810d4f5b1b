@unit merge_graph_csc
@src utils/sparse_utilities.cpp
@ns sym_lib
@name merge_graph
@sig int, int, int **, int **)
@props P20
@uses merged
@opts isolate
@requires
ngraphs >= 1, n >= 1, gs_ok(chain_gs(Gps@, Gis@, ngraphs as int, n as int)),
@ensures
merged(chain_gs(Gps@, Gis@, ngraphs as int, n as int), res.p@, res.i@), res.n == ngraphs * n, res.m == ngraphs * n, res.nnz == res.p@[ngraphs * n],
@entry
let ghost s = chain_gs(Gps@, Gis@, ngraphs as int, n as int);
proof { assert(s.k == ngraphs && s.n == n); assert(n <= ngraphs * n) by (nonlinear_arith) requires ngraphs >= 1, n >= 0; assert(vv(Gps@) == s.p && vv(Gis@) == s.i); ids_ok(s.k - 1, s.n); tot_mono(s.dp, s.di, s.n, s.k - 1, 0, s.k - 1); tot_mono(s.p, s.i, s.n, s.k, 0, s.k);
assert(0 <= ngraphs * n) by (nonlinear_arith) requires ngraphs >= 0, n >= 0; assert((ngraphs - 1) * n == ngraphs * n - n) by (nonlinear_arith); assert(0 <= (ngraphs - 1) * n) by (nonlinear_arith) requires ngraphs >= 1, n >= 0; assert(n * ngraphs == ngraphs * n) by (nonlinear_arith); }
@loop 1
invariant
    gs_ok(s), s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, 0 <= i <= ngraphs, nnz == tot(s.p, s.n, i as int),
decreases ngraphs - i,
@head 1
proof { tot_mono(s.p, s.i, s.n, s.k, i + 1, s.k); tot_mono(s.p, s.i, s.n, s.k, 0, i as int); tot_mono(s.dp, s.di, s.n, s.k - 1, 0, s.k - 1); assert(gwf(s.p[i as int], s.i[i as int], s.n)); assert(s.p[i as int] == Gps@[i as int]@); }
@pre 2
proof { mst_init(s, merged_graph.p@, merged_graph.i@); }
@loop 2
invariant
    gs_ok(s), s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, merged_graph.n == ngraphs * n, merged_graph.m == ngraphs * n, merged_graph.nnz == ni_len(s), 0 <= i <= ngraphs - 1, p_counter == col_at(s.n, i as int, 0) + 1, i_counter == flat(s, i as int, 0).len(), mst(s, merged_graph.p@, merged_graph.i@, i as int, 0),
decreases ngraphs - 1 - i,
@loop 2.1
invariant
    gs_ok(s), s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, merged_graph.n == ngraphs * n, merged_graph.m == ngraphs * n, merged_graph.nnz == ni_len(s), 0 <= i < ngraphs - 1, 0 <= j <= n, Gp@ == s.p[i as int], Gi@ == s.i[i as int], p_counter == col_at(s.n, i as int, j as int) + 1, i_counter == flat(s, i as int, j as int).len(), mst(s, merged_graph.p@, merged_graph.i@, i as int, j as int),
decreases n - j,
@head 2.1
let ghost np0 = merged_graph.p@; let ghost ni0 = merged_graph.i@; let ghost f0 = flat(s, (i as int), j as int).len();
proof { mst_room(s, np0, ni0, (i as int), j as int); if (i as int) < s.k - 1 { ids_ok(s.k - 1, s.n); } }
@pre 2.1.1
let ghost np1 = merged_graph.p@;
@loop 2.1.1
invariant
    s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, 0 <= (i as int) < ngraphs, 0 <= j < n, Gp@ == s.p[(i as int)], Gi@ == s.i[(i as int)], 0 <= s.p[(i as int)][j as int] <= s.p[(i as int)][j + 1], s.p[(i as int)].len() > s.n, s.i[(i as int)].len() >= s.p[(i as int)][j + 1], own(s, (i as int), j as int).len() == s.p[(i as int)][j + 1] - s.p[(i as int)][j as int], forall|q: int| s.p[(i as int)][j as int] <= q < s.p[(i as int)][j + 1] ==> 0 <= #[trigger] s.i[(i as int)][q] < s.n, 0 <= (i as int) * n <= s.k * s.n - s.n, s.k * s.n < i32::MAX,
    merged_graph.n == ngraphs * n, merged_graph.m == ngraphs * n, merged_graph.nnz == ni_len(s), merged_graph.p@ == np1,
    s.p[(i as int)][j as int] <= p <= s.p[(i as int)][j + 1], i_counter == f0 + (p - s.p[(i as int)][j as int]),
    f0 == flat(s, (i as int), j as int).len(), 0 <= f0, f0 + colc(s, (i as int), j as int).len() <= merged_graph.i@.len(), merged_graph.i@.len() <= i32::MAX, merged_graph.i@.len() == ni0.len(),
    forall|q: int| 0 <= q < f0 ==> #[trigger] merged_graph.i@[q] == ni0[q],
    forall|q: int| f0 <= q < i_counter ==> #[trigger] merged_graph.i@[q] == colc(s, (i as int), j as int)[q - f0],
decreases s.p[(i as int)][j + 1] - p,
@tail 2.1
proof { mst_step(s, np0, ni0, merged_graph.p@, merged_graph.i@, (i as int), j as int); }
@tail 2
proof { mst_row(s, merged_graph.p@, merged_graph.i@, i as int); }
@loop 3
invariant
    gs_ok(s), s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, merged_graph.n == ngraphs * n, merged_graph.m == ngraphs * n, merged_graph.nnz == ni_len(s), 0 <= j <= n, Gp@ == s.p[ngraphs - 1], Gi@ == s.i[ngraphs - 1], p_counter == col_at(s.n, ngraphs - 1, j as int) + 1, i_counter == flat(s, ngraphs - 1, j as int).len(), mst(s, merged_graph.p@, merged_graph.i@, ngraphs - 1, j as int),
decreases n - j,
@head 3
let ghost np0 = merged_graph.p@; let ghost ni0 = merged_graph.i@; let ghost f0 = flat(s, (ngraphs - 1), j as int).len();
proof { mst_room(s, np0, ni0, (ngraphs - 1), j as int); if (ngraphs - 1) < s.k - 1 { ids_ok(s.k - 1, s.n); } }
@pre 3.1
let ghost np1 = merged_graph.p@;
@loop 3.1
invariant
    s == chain_gs(Gps@, Gis@, ngraphs as int, n as int), s.k == ngraphs, s.n == n, n >= 0, ngraphs >= 1, 0 <= (ngraphs - 1) < ngraphs, 0 <= j < n, Gp@ == s.p[(ngraphs - 1)], Gi@ == s.i[(ngraphs - 1)], 0 <= s.p[(ngraphs - 1)][j as int] <= s.p[(ngraphs - 1)][j + 1], s.p[(ngraphs - 1)].len() > s.n, s.i[(ngraphs - 1)].len() >= s.p[(ngraphs - 1)][j + 1], own(s, (ngraphs - 1), j as int).len() == s.p[(ngraphs - 1)][j + 1] - s.p[(ngraphs - 1)][j as int], forall|q: int| s.p[(ngraphs - 1)][j as int] <= q < s.p[(ngraphs - 1)][j + 1] ==> 0 <= #[trigger] s.i[(ngraphs - 1)][q] < s.n, 0 <= (ngraphs - 1) * n <= s.k * s.n - s.n, s.k * s.n < i32::MAX,
    merged_graph.n == ngraphs * n, merged_graph.m == ngraphs * n, merged_graph.nnz == ni_len(s), merged_graph.p@ == np1,
    s.p[(ngraphs - 1)][j as int] <= p <= s.p[(ngraphs - 1)][j + 1], i_counter == f0 + (p - s.p[(ngraphs - 1)][j as int]),
    f0 == flat(s, (ngraphs - 1), j as int).len(), 0 <= f0, f0 + colc(s, (ngraphs - 1), j as int).len() <= merged_graph.i@.len(), merged_graph.i@.len() <= i32::MAX, merged_graph.i@.len() == ni0.len(),
    forall|q: int| 0 <= q < f0 ==> #[trigger] merged_graph.i@[q] == ni0[q],
    forall|q: int| f0 <= q < i_counter ==> #[trigger] merged_graph.i@[q] == colc(s, (ngraphs - 1), j as int)[q - f0],
decreases s.p[(ngraphs - 1)][j + 1] - p,
@tail 3
proof { mst_step(s, np0, ni0, merged_graph.p@, merged_graph.i@, (ngraphs - 1), j as int); }
@exit
proof { mst_done(s, merged_graph.p@, merged_graph.i@); }
