@unit rc_counts
@src utils/lfactor_creation.cpp
@ns sym_lib
@name row_col_counts_symmetric
@props P17
@uses ccend
@opts complex isolate spinoff
@requires
A.n == A.m, 0 <= A.n <= i32::MAX, ptrs(A.p@, A.n as int), A.p@.len() > A.n, A.i@.len() >= A.p@[A.n as int], rows_in(A.i@, A.p@[A.n as int] as int, A.n as int), 2 + A.n + A.p@[A.n as int] < i32::MAX, 2 * A.n <= i32::MAX, is_tree(eg_cols(A.p@, A.i@), A.n as int, Parent@), postordered(Parent@, Post@, A.n as int), old(RowCount)@.len() == 0, old(ColCount)@.len() >= A.n, old(First)@.len() >= A.n, old(Level)@.len() >= A.n,
@ensures
res == (A.stype < 0), A.stype < 0 ==> col_counts(eg_cols(A.p@, A.i@), A.n as int, final(ColCount)@), A.stype < 0 ==> dep_upto(the_fo(Parent@, Post@, A.n as int), A.n as int, final(Level)@) && first_upto(the_fo(Parent@, Post@, A.n as int), A.n as int, final(First)@), A.stype >= 0 ==> final(ColCount)@ == old(ColCount)@,
@args rc_edge
f; g; dn; bb
@entry
let ghost ip = A.p@; let ghost ii = A.i@; let ghost n = A.n as int; let ghost g = eg_cols(ip, ii); let ghost f = the_fo(Parent@, Post@, n); let ghost mut dn: Dn = dn0(f); let ghost mut bb: int = 1; let ghost mut dj: int = 0; let ghost mut w0 = Seq::<i32>::empty();
proof { po_fo(Parent@, Post@, n); fo_len(f); reveal(fo_list); }
@pre 1
proof { bl_0(First@); }
@loop 1
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0,
    0 <= i <= n, blank_to(First@, i as int),
decreases n - i,
@head 1
proof { bl_1(First@, i as int, -1i32); }
@post 1
proof { assert(forall|v: int| 0 <= v < n ==> #[trigger] First@[v] == -1) by { reveal(blank_to); } ft_init(f, First@); lv_init(f, Level@); wu_init(f, ColCount@); }
@loop 2
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0,
    0 <= k <= n, first_upto(f, k as int, First@), dep_upto(f, k as int, Level@), w_upto(f, k as int, ColCount@),
decreases n - k,
@head 2
proof { li_at(f, Post@, k as int); let i0 = Post@[k as int] as int; ft_begin(f, k as int, i0, First@); wu_step(f, k as int, ColCount@, i0, if First@[i0] == -1 { 1i32 } else { 0i32 }); lv_begin(f, k as int, i0, Level@); dp_at(f, i0); }
@loop 2.1
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0,
    0 <= k < n, 0 <= i < n, f.pos[i as int] == k, first_mid(f, k as int, i as int, r as int, First@), dep_upto(f, k as int, Level@), lev_mid(f, k as int, i as int, i as int, Level@), w_upto(f, k + 1, ColCount@), r == -1 || 0 <= r < n, 0 <= dep(f, i as int) < n, r == -1 ==> len == dep(f, i as int) + 1, r != -1 ==> 0 <= dep(f, r as int) <= dep(f, i as int) && len == dep(f, i as int) - dep(f, r as int),
decreases if r == -1 { 0 } else { n - r },
@head 2.1
proof { ft_in(f, k as int, i as int, r as int, First@); ft_step(f, k as int, i as int, r as int, First@, k); dp_at(f, r as int); if Parent@[r as int] != -1 { dp_at(f, Parent@[r as int] as int); } }
@post 2.1
proof { fo_at(f, i as int); ft_done(f, k as int, i as int, r as int, First@); if r != -1 { ft_in(f, k as int, i as int, r as int, First@); lv_get(f, k as int, Level@, r as int); } }
@loop 2.2
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0,
    0 <= k < n,
    0 <= i < n,
    f.pos[i as int] == k,
    first_upto(f, k + 1, First@),
    first_mid(f, k as int, i as int, r as int, First@),
    r != -1 ==> 0 <= r < n && f.fs[r as int] < k && dsc(f, i as int, r as int),
    lev_mid(f, k as int, i as int, s as int, Level@),
    w_upto(f, k + 1, ColCount@),
    s == -1 || 0 <= s < n && dsc(f, i as int, s as int),
    s == -1 ==> r == -1,
    s != -1 ==> len == dep(f, s as int),
    r != -1 && s != -1 ==> dsc(f, s as int, r as int),
    s != -1 ==> 0 <= len <= n,
    s == -1 ==> len == -1,
decreases if s == -1 { 0 } else { n - s },
@head 2.2
proof { lv_step(f, k as int, i as int, s as int, Level@, len); dp_at(f, s as int); if Parent@[s as int] != -1 { dp_at(f, Parent@[s as int] as int); dsc_par(f, s as int); dsc_trans(f, i as int, s as int, Parent@[s as int] as int); } if r != -1 { fo_climb(f, s as int, r as int); } }
@post 2.2
proof { lv_done(f, k as int, i as int, s as int, First@, Level@); }
@post 2
proof { wu_all(f, ColCount@); }
@loop 3
invariant
    false,
decreases 0int,
@pre 4
proof { bl_0(PrevLeaf@); iw_0(n, Iwork@); }
@loop 4
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0, First@.len() == First@.len(), first_upto(f, n, First@), dep_upto(f, n, Level@),
    0 <= i <= n, cc_inv(f, dn0(f), 0, ColCount@), cbd(n, ColCount@, 1), blank_to(PrevLeaf@, i as int), iw_upto(n, i as int, Iwork@),
decreases n - i,
@head 4
proof { bl_1(PrevLeaf@, i as int, -1i32); iw_1(n, i as int, Iwork@, i); }
@post 4
proof { assert(forall|v: int| 0 <= v < n ==> #[trigger] PrevLeaf@[v] == -1) by { reveal(blank_to); } iw_done(g, f, Iwork@, PrevLeaf@); ft_all(f, First@); wd_0(f, ip); du_init(ip, ii, f); let j1 = if n > 0 { li_at(f, Post@, 0); Post@[0] as int } else { n }; du_next(ip, ii, f, dn, -1, 0, -1, j1); }
@loop 5
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0, First@.len() == First@.len(), first_upto(f, n, First@), dep_upto(f, n, Level@),
    0 <= k <= n, ft_eq(f, First@), cc_inv(f, dn, k as int, ColCount@), bb == 1 + k + wdone(f, ip, k as int), cbd(n, ColCount@, bb), fnd(f, k as int, Iwork@.subrange(0, n)), rs(g, f, dn, k - 1, Iwork@.subrange(n, 2 * n), PrevLeaf@), dn_upto(ip, ii, f, dn, k as int, if k < n { ip[Post@[k as int] as int] as int } else { 0 }), 0 <= anz <= n + wdone(f, ip, k as int), 0 <= wdone(f, ip, k as int) <= ip[n],
decreases n - k,
@head 5
let ghost c0 = ColCount@;
proof { li_at(f, Post@, k as int); dj = Post@[k as int] as int; w0 = Iwork@; fo_at(f, dj); wd_1(f, ip, k as int, dj); if Parent@[dj] != -1 { cb_at(n, ColCount@, bb, Parent@[dj] as int); } rs_node(g, f, dn, k as int, Iwork@.subrange(n, 2 * n), PrevLeaf@, dj, k); }
@after join_on(&mut Iwork, _h15);
proof { halves(w0.subrange(0, n), w0.subrange(n, 2 * n).update(dj, k), n); ci_node(f, dn, k as int, c0, dj, ColCount@); if Parent@[dj] != -1 { cb_upd(n, c0, bb, Parent@[dj] as int, (c0[Parent@[dj] as int] - 1) as i32); } else { cb_up(n, c0, bb, bb + 1); } bb = bb + 1; }
@loop 5.1
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0, First@.len() == First@.len(), first_upto(f, n, First@), dep_upto(f, n, Level@),
    0 <= k < n,
    ft_eq(f, First@),
    0 <= j < n,
    j == dj,
    j == Post@[k as int],
    f.pos[j as int] == k,
    ip[j as int] <= p <= pend,
    pend == ip[j + 1],
    0 <= ip[j as int],
    pend <= ip[n],
    cc_inv(f, dn, k + 1, ColCount@),
    1 <= bb <= 2 + k + wdone(f, ip, k as int) + (p - ip[j as int]),
    cbd(n, ColCount@, bb),
    fnd(f, k as int, Iwork@.subrange(0, n)),
    rs(g, f, dn, k as int, Iwork@.subrange(n, 2 * n), PrevLeaf@),
    dn_upto(ip, ii, f, dn, k as int, p as int),
    0 <= anz <= n + wdone(f, ip, k as int) + (p - ip[j as int]),
    wdone(f, ip, k as int) + (pend - ip[j as int]) <= ip[n],
    0 <= wdone(f, ip, k as int),
decreases pend - p,
@head 5.1
proof { ri_at(ii, ip[n] as int, n, p as int); w0 = Iwork@; let u = ii[p as int] as int; if u > j { du_add(ip, ii, f, dn, k as int, p as int, j as int); nb_dsc(g, f, j as int, u); ft_at(f, First@, j as int); assert((w0.subrange(0, n) + w0.subrange(n, 2 * n)) =~= w0); } else { du_skip(ip, ii, f, dn, k as int, p as int, j as int); } }
@before join_on(&mut Iwork, _h18);
let ghost sa = Iwork@; let ghost sb = _h18@;
@after join_on(&mut Iwork, _h18);
proof { halves(sa, sb, n); dn = dn_add(dn, i as int, j as int); bb = bb + 1; }
@post 5.1
proof { w0 = Iwork@; half_upd(w0, n, j as int, Parent@[j as int]); fd_fin(f, k as int, w0.subrange(0, n), j as int, if Parent@[j as int] != -1 { w0.subrange(0, n).update(j as int, Parent@[j as int]) } else { w0.subrange(0, n) }); let j1 = if k + 1 < n { li_at(f, Post@, k + 1); Post@[k + 1] as int } else { n }; du_next(ip, ii, f, dn, k as int, pend as int, j as int, j1); wd_1(f, ip, k as int, j as int); cb_up(n, ColCount@, bb, 2 + k + wdone(f, ip, k + 1)); bb = 2 + k + wdone(f, ip, k + 1); }
@post 5
proof { du_full(ip, ii, f, dn); tot_end(g, f, Post@, dn, ColCount@); w0 = ColCount@; ac_init(f, w0); }
@loop 6
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0, First@.len() == First@.len(), first_upto(f, n, First@), dep_upto(f, n, Level@),
    0 <= j <= n, tot_ok(g, f, w0), acc_at(f, w0, ColCount@, j as int), w0.len() == ColCount@.len(),
decreases n - j,
@head 6
let ghost c6 = ColCount@;
proof { fo_at(f, j as int); if Parent@[j as int] != -1 { ac_room(g, f, w0, ColCount@, j as int); } }
@tail 6
proof { ac_step(f, w0, c6, j as int, ColCount@); }
@post 6
proof { ac_done(g, f, w0, ColCount@); }
@loop 7
invariant
    f == the_fo(Parent@, Post@, n), fo_ok(f), f.par == Parent@, f.n == n, fo_list(f, Post@), n == A.n, n == A.m, nrow == n, ncol == n, 0 <= n <= i32::MAX, ip == A.p@, ii == A.i@, g == eg_cols(ip, ii), is_tree(g, n, Parent@), ptrs(ip, n), ip.len() > n, ii.len() >= ip[n], rows_in(ii, ip[n] as int, n), 2 + n + ip[n] < i32::MAX, 2 * n <= i32::MAX, First@.len() >= n, Level@.len() >= n, ColCount@.len() >= n, RowCount@.len() == 0, PrevLeaf@.len() == n, Iwork@.len() == 2 * n, _t7 == n, n <= Post@.len(), n <= Parent@.len(), stype < 0, First@.len() == First@.len(), first_upto(f, n, First@), dep_upto(f, n, Level@),
    0 <= j <= n, col_counts(g, n, ColCount@),
decreases n - j,
