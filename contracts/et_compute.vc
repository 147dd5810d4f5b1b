@unit et_compute
@src utils/etree.cpp
@ns sym_lib
@name compute_etree
@props P17
@uses etree
@opts complex isolate spinoff
@requires
A.n + A.m <= i32::MAX, ptrs(A.p@, A.n as int), A.i@.len() >= A.p@[A.n as int], rows_in(A.i@, A.p@[A.n as int] as int, A.m as int), A.stype != 0 ==> A.m >= A.n, A.stype == 0 ==> once_cols(A.p@, A.i@, A.n as int), old(Parent)@.len() >= A.n,
@ensures
A.stype > 0 ==> res == 1 && etree_upto(eg_low(A.p@, A.i@), A.n as int, final(Parent)@), A.stype == 0 ==> res == 1 && etree_upto(eg_share(A.p@, A.i@), A.n as int, final(Parent)@), A.stype < 0 ==> res == 0, A.stype >= 0 ==> forall|x: int| 0 <= x < A.n ==> #[trigger] final(Parent)@[x] == -1 || x < final(Parent)@[x] < A.n, final(Parent)@.len() == old(Parent)@.len(),
@entry
let ghost ip = A.p@; let ghost ii = A.i@; let ghost n = A.n as int; let ghost m = A.m as int; let ghost g: Eg = if A.stype > 0 { eg_low(ip, ii) } else { eg_path(ip, ii) };
@pre 1
proof { bl_0(Parent@); bl_0(Iwork@); }
@loop 1
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    0 <= j <= n, blank_to(Parent@, j as int), blank_to(Iwork@, j as int),
decreases n - j,
@head 1
proof { bl_1(Parent@, j as int, -1i32); bl_1(Iwork@, j as int, -1i32); }
@post 1
proof { bl_all(Parent@, n); bl_all(Iwork@, n); et_init(g, n, Parent@, Iwork@); }
@loop 2
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    A.stype > 0, 0 <= j <= n, et_ok(g, n, j as int, Parent@, Iwork@), blank_from(Parent@, j as int, n), blank_from(Iwork@, j as int, n),
decreases n - j,
@head 2
let ghost a0 = Iwork@;
proof { bl_at(Parent@, j as int, n); bl_at(Iwork@, j as int, n); et_open(g, n, j as int, Parent@, Iwork@); assert(ip[0] <= ip[j as int]); assert(ip[j as int] <= ip[j + 1]); assert(ip[j + 1] <= ip[n]); sl_init(ii, j as int, Iwork@, ip[j as int] as int); }
@loop 2.1
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    A.stype > 0, 0 <= j < n, et_mid(g, n, j as int, a0, Parent@, Iwork@, -1), blank_from(Parent@, j + 1, n), blank_from(Iwork@, j + 1, n), 0 <= ip[j as int] <= p <= pend, pend == ip[j + 1], pend <= ip[n], seen_low(ii, j as int, Iwork@, ip[j as int] as int, p as int),
decreases pend - p,
@head 2.1
let ghost pp = Parent@; let ghost aa = Iwork@;
proof { ri_at(ii, ip[n] as int, m, p as int); if ii[p as int] < j { assert(eg_in(ip, ii, ip[j as int] as int, ip[j + 1] as int, ii[p as int] as int)); assert(g(ii[p as int] as int, j as int)); et_start(g, n, j as int, a0, pp, aa, -1, ii[p as int] as int); eo_mid(g, n, j as int, a0, pp, aa, -1); } }
@tail 2.1
proof { if i < j { ew_use(g, n, a0, j as int, i as int, pp, aa, Parent@, Iwork@); ew_seen(ii, ip[j as int] as int, p as int, j as int, i as int, pp, aa, Parent@, Iwork@); bl_keep(pp, Parent@, j as int, j + 1, n); bl_keep(aa, Iwork@, j as int, j + 1, n); } sl_step(ii, j as int, Iwork@, ip[j as int] as int, p as int); }
@post 2.1
proof { sl_done(ip, ii, j as int, Iwork@); et_close(g, n, j as int, a0, Parent@, Iwork@, -1); }
@post 2
proof { et_done(g, n, Parent@, Iwork@); }
@pre 3
proof { pv_c0(m, n, Iwork@); }
@loop 3
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    A.stype == 0, 0 <= i <= m, et_ok(g, n, 0, Parent@, Iwork@), blank_from(Parent@, 0, n), blank_from(Iwork@, 0, n), pv_clear(m, n, Iwork@, i as int), _t7 == n,
decreases m - i,
@head 3
proof { pv_c1(m, n, Iwork@, i as int, -1i32); bl_far(Iwork@, 0, n, n + i, -1i32); }
@tail 3
proof { et_init(g, n, Parent@, Iwork@); }
@post 3
proof { pv_init(ip, ii, m, n, Iwork@); }
@loop 4
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    A.stype == 0, 0 <= j <= n, et_ok(g, n, j as int, Parent@, Iwork@), blank_from(Parent@, j as int, n), blank_from(Iwork@, j as int, n), pv_ok(ip, ii, m, n, j as int, ip[j as int] as int, Iwork@), _t7 == n,
decreases n - j,
@head 4
let ghost a0 = Iwork@;
proof { bl_at(Parent@, j as int, n); bl_at(Iwork@, j as int, n); et_open(g, n, j as int, Parent@, Iwork@); assert(ip[0] <= ip[j as int]); assert(ip[j as int] <= ip[j + 1]); assert(ip[j + 1] <= ip[n]); sp_init(ip, ii, n, j as int, Iwork@, ip[j as int] as int); }
@loop 4.1
invariant
    ip == A.p@, ii == A.i@, n == A.n, m == A.m, 0 <= n <= i32::MAX, 0 <= m <= i32::MAX, n + m <= i32::MAX, ptrs(ip, n as int), ii.len() >= ip[n as int], rows_in(ii, ip[n as int] as int, m as int), ncol == n, nrow == m, Parent@.len() >= n, packed == 1, stype == A.stype, Iwork@.len() >= n, A.stype > 0 ==> g == eg_low(ip, ii), A.stype == 0 ==> (g == eg_path(ip, ii) && Iwork@.len() >= n + m && once_cols(ip, ii, n as int)), old(Parent)@.len() == Parent@.len(),
    A.stype == 0, 0 <= j < n, et_mid(g, n, j as int, a0, Parent@, Iwork@, -1), blank_from(Parent@, j + 1, n), blank_from(Iwork@, j + 1, n), 0 <= ip[j as int] <= p <= pend, pend == ip[j + 1], pend <= ip[n], seen_path(ip, ii, n, j as int, Iwork@, ip[j as int] as int, p as int), pv_ok(ip, ii, m, n, j as int, p as int, Iwork@), _t7 == n,
decreases pend - p,
@head 4.1
let ghost pp = Parent@; let ghost aa = Iwork@;
proof { ri_at(ii, ip[n] as int, m, p as int); oc_at(ip, ii, n, j as int, p as int); pv_read(ip, ii, m, n, j as int, p as int, aa); let u = aa[n + ii[p as int]]; if u != -1 { et_start(g, n, j as int, a0, pp, aa, -1, u as int); eo_mid(g, n, j as int, a0, pp, aa, -1); } }
@after et_update\(jprev, j.*
proof { ew_use(g, n, a0, j as int, jprev as int, pp, aa, Parent@, Iwork@); sp_move(ip, ii, n, j as int, jprev as int, pp, aa, Parent@, Iwork@, ip[j as int] as int, p as int); bl_keep(pp, Parent@, j as int, j + 1, n); bl_keep(aa, Iwork@, j as int, j + 1, n); pv_keep(ip, ii, m, n, j as int, p as int, aa, Iwork@); }
@before st\(&mut Iwork, _x\d+, j\);
let ghost ab = Iwork@; proof { sp_step(ip, ii, n, j as int, ab, ip[j as int] as int, p as int, n + i, j); et_far(g, n, j as int, a0, Parent@, ab, -1, n + i, j); bl_far(ab, j + 1, n, n + i, j); pv_set(ip, ii, m, n, j as int, p as int, ab, j); }
@post 4.1
proof { sp_done(ip, ii, n, j as int, Iwork@); et_close(g, n, j as int, a0, Parent@, Iwork@, -1); pv_next(ip, ii, m, n, j as int, Iwork@); }
@post 4
proof { share_done(ip, ii, n, Parent@, Iwork@); }
