@unit dfs_bcsc_cc
@src src/lbc_utils.cpp
@ns sym_lib
@name dfs_BCSC_CC
@props P08
@uses dfs
@opts complex isolate
@requires
top == n, n < i32::MAX, blk_ok(Gi_ptr@, Gi@, blk2Col@, col2Blk@, n as int), dg_ok(mkd(bptr(Gi_ptr@, blk2Col@, n as int), btgt(Gi@, col2Blk@), n as int, old(marked)@, j as int)), old(xi)@.len() >= n, old(pstack)@.len() >= n,
@ensures
is_dfs(mkd(bptr(Gi_ptr@, blk2Col@, n as int), btgt(Gi@, col2Blk@), n as int, old(marked)@, j as int), ints(xi@), res as int, marked@, clashedNodes@, old(clashedNodes)@),
xi@.len() == old(xi)@.len(),
@entry
proof { assert(blk2Col@[j as int] < blk2Col@[j + 1]); if j > 0 { assert(blk2Col@[0] < blk2Col@[j as int]); } if j + 1 < n { assert(blk2Col@[j + 1] < blk2Col@[n as int]); } }
let ghost D0 = mkd(bptr(Gi_ptr@, blk2Col@, n as int), btgt(Gi@, col2Blk@), n as int, marked@, j as int); let ghost d = D0; let ghost N = d.n; let ghost cl0 = clashedNodes@; let ghost mut fresh = true; let ghost xl = xi@.len();
@pre 1
proof { assert(blk2Col@[d.j] < blk2Col@[d.j + 1]); if d.j > 0 { assert(blk2Col@[0] < blk2Col@[d.j]); } if d.j + 1 < N { assert(blk2Col@[d.j + 1] < blk2Col@[N]); } assert(col_in(Gi_ptr@, blk2Col@, col2Blk@, N, blk2Col@[d.j] as int)); same_block(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N, blk2Col@[d.j] as int, d.j); assert(0 <= d.j < d.n); dst_init(d, Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }, cl0); }
@loop 1
invariant
    d == D0, dg_ok(d), N == d.n, d.p == bptr(Gi_ptr@, blk2Col@, N), d.g == btgt(Gi@, col2Blk@), blk_ok(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N),  xi@.len() >= N, pstack@.len() >= N, marked@.len() == d.m0.len(), N < i32::MAX, xi@.len() == xl, fresh ==> head >= 0, path_cols(xi@, blk2Col@[N] as int, head as int), -1 <= head < top <= N, dst(d, Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }, clashedNodes@, cl0, fresh),
decreases 2 * top - head,
@head 1
proof { assert(0 <= xi@[head as int] < blk2Col@[N]); blk_col(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N, xi@[head as int] as int); }
let ghost h0 = head as int; let ghost t0 = top as int; let ghost X0 = xi@;
let ghost v = col2Blk@[xi@[head as int] as int];
proof { dst_top(d, Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }, clashedNodes@, cl0, fresh); assert(bxs(xi@, col2Blk@, head as int)[head as int] == v);
    if fresh { let s1 = Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }; dst_mark(d, s1, Ds { ps: s1.ps.update(s1.head, d.p[s1.xs[s1.head]]), mk: s1.mk.update(s1.xs[s1.head], 1i32), ..s1 }, clashedNodes@, cl0); fresh = false; } }
@pre 1.1
proof { dst_top(d, Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }, clashedNodes@, cl0, false); assert(pstack@.update(h0, pstack@[h0]) =~= pstack@); }
@loop 1.1
invariant_except_break
    head == h0, done == 1, xi@ == X0, !fresh, p1 <= d.p[v + 1], dst(d, Ds { xs: bxs(X0, col2Blk@, h0), ps: pstack@.update(h0, p1 as i32), mk: marked@, head: h0, top: t0 }, clashedNodes@, cl0, false),
invariant
    d == D0, dg_ok(d), N == d.n, d.p == bptr(Gi_ptr@, blk2Col@, N), d.g == btgt(Gi@, col2Blk@), blk_ok(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N),  xi@.len() >= N, pstack@.len() >= N, marked@.len() == d.m0.len(), N < i32::MAX, xi@.len() == xl, 0 <= h0 < t0 <= N, top == t0, 0 <= v < N, v == col2Blk@[X0[h0] as int], p2 == d.p[v + 1], d.p == bptr(Gi_ptr@, blk2Col@, N), d.g == btgt(Gi@, col2Blk@), blk_ok(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N), jnew == v, path_cols(X0, blk2Col@[N] as int, h0), done == 1 || done == 0, 0 <= p1,
ensures
    path_cols(xi@, blk2Col@[N] as int, head as int),
    done == 1 ==> head == h0 && xi@ == X0 && !fresh && p1 == p2 && dst(d, Ds { xs: bxs(X0, col2Blk@, h0), ps: pstack@.update(h0, p1 as i32), mk: marked@, head: h0, top: t0 }, clashedNodes@, cl0, false),
    done != 1 ==> done == 0 && head == h0 + 1 && fresh && dst(d, Ds { xs: bxs(xi@, col2Blk@, h0 + 1), ps: pstack@, mk: marked@, head: h0 + 1, top: t0 }, clashedNodes@, cl0, true) && h0 + 1 < t0,
decreases d.p[v + 1] - p1,
@head 1.1
let ghost e = p1 as int;
proof { let s1 = Ds { xs: bxs(X0, col2Blk@, h0), ps: pstack@.update(h0, p1 as i32), mk: marked@, head: h0, top: t0 }; dst_top(d, s1, clashedNodes@, cl0, false); assert(s1.xs[s1.head] == v); assert(s1.ps[s1.head] == e); let w = d.g[e] as int; blk_edge(Gi_ptr@, Gi@, blk2Col@, col2Blk@, N, e); assert(w == col2Blk@[Gi@[e] as int]);
    if marked@[w] == -1 { dst_clash(d, s1, clashedNodes@, cl0); dst_skip(d, s1, Ds { ps: s1.ps.update(s1.head, (s1.ps[s1.head] + 1) as i32), ..s1 }, clashedNodes@.push(d.g[e]), cl0); assert(pstack@.update(h0, p1 as i32).update(h0, (e + 1) as i32) =~= pstack@.update(h0, (e + 1) as i32)); }
    else if marked@[w] != 0 { dst_skip(d, s1, Ds { ps: s1.ps.update(s1.head, (s1.ps[s1.head] + 1) as i32), ..s1 }, clashedNodes@, cl0); assert(pstack@.update(h0, p1 as i32).update(h0, (e + 1) as i32) =~= pstack@.update(h0, (e + 1) as i32)); }
    else { dst_rm(d, s1, clashedNodes@, cl0, w); let x2 = X0.update(h0 + 1, Gi@[e]); let s2 = Ds { xs: bxs(x2, col2Blk@, h0 + 1), head: h0 + 1, ..s1 }; dst_push(d, s1, s2, clashedNodes@, cl0); dst_top(d, s2, clashedNodes@, cl0, true); fresh = true; } }
@then (done != 0i32)
proof { let s1 = Ds { xs: bxs(X0, col2Blk@, h0), ps: pstack@.update(h0, p2), mk: marked@, head: h0, top: t0 }; let x2 = X0.update(t0 - 1, v as i32); let s2 = Ds { xs: bxs(x2, col2Blk@, h0 - 1), ps: pstack@, head: h0 - 1, top: t0 - 1, ..s1 }; dst_pop(d, s1, s2, clashedNodes@, cl0); }
@exit
proof { let s = Ds { xs: bxs(xi@, col2Blk@, head as int), ps: pstack@, mk: marked@, head: head as int, top: top as int }; dst_done(d, s, clashedNodes@, cl0); assert(s.xs =~= ints(xi@)); }
