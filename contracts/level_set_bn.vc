@unit level_set_bn
@src utils/sparse_inspector.cpp
@ns sym_lib
@name level_set_bn
@props P01
@uses mblk
@opts complex isolate spinoff
@rlimit 20
@requires
mb_in(mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower)),
@ensures
copies_leveled(mb_of(mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower)), levelptr@, levels@, res as int), levelptr@.len() == res + 1, levels@.len() == n_kern * num_nodes,
@entry
let ghost B = mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower); let ghost d = mb_of(B);
let ghost mut q: Seq<i32> = seq![]; let ghost mut t: int = 0; let ghost mut cur: int = -1; let ghost mut rl: int = 0; let ghost mut rh: int = 0; let ghost mut lv: Seq<int> = lv_start(d); let ghost mut us: Seq<ISet<int>> = us_start(d); let ghost mut b: int = 0; let ghost mut A: int = 0;
proof { mb_ok(B, d); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); assert(0 <= n * (n_kern - 1) && n * (n_kern - 1) + n == n * n_kern) by (nonlinear_arith) requires n >= 1, n_kern >= 1; assert(Lp@[0] <= Lp@[n as int]); reveal(kd); }
@loop 1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], forall|x: int| 0 <= x < d.n * d.K ==> #[trigger] degrees@[x] == (if x >= d.n { BASE() } else { 0 }), 0 <= i <= num_nodes, counter == supernodes@[i as int], supers_up(B, supers@, counter as int),
decreases num_nodes - i,
@head 1
proof { sn_in(B, i as int); sn_in(B, i + 1); }
@loop 1.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], forall|x: int| 0 <= x < d.n * d.K ==> #[trigger] degrees@[x] == (if x >= d.n { BASE() } else { 0 }), 0 <= i < num_nodes, 0 <= supernodes@[i as int] <= counter <= supernodes@[i + 1] <= n, supers_up(B, supers@, counter as int),
decreases supernodes@[i + 1] - counter,
@head 1.1
proof { assert(in_blk(B, i as int, counter as int)); supers_put(B, supers@, counter as int, i as int); }
@pre 2
proof { assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); assert(degrees@.len() == d.n * d.K); deg_init(d, degrees@); }
@loop 2
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, B.n), 0 <= i <= num_nodes, deg_part(d, degrees@, i as int, 0, 0, -1, 0),
decreases num_nodes - i,
@head 2
let ghost ix = supernodes@[i as int] as int;
proof { sn_in(B, i as int); mb_col(B, d, ix); A = Lp@[ix] + 1; deg_start(d, degrees@, i as int, 0, 0, A); }
@loop 2.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, B.n), 0 <= i < num_nodes, index == supernodes@[i as int], 0 <= index < n, 0 <= Lp@[index as int] <= Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), hd(d, index as int), is_hd(B, index as int), Lp@.len() > n, A == Lp@[index as int] + 1, A <= p <= Lp@[index + 1], deg_part(d, degrees@, i as int, A, p as int, -1, 0),
decreases Lp@[index + 1] - p,
@head 2.1
let ghost w = supers@[Li@[p as int] as int] as int;
proof { mb_entry(B, d, supers@, index as int, p as int); deg_e0(d, degrees@, i as int, A, p as int, w); assert(d.hl[i as int] == index); if w == index { deg_e(d, degrees@, i as int, A, p as int, p as int, A, p + 1); } }
@loop 2.1.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, B.n), 0 <= i < num_nodes, index == supernodes@[i as int], 0 <= index < n, 0 <= Lp@[index as int] <= Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), hd(d, index as int), is_hd(B, index as int), Lp@.len() > n, A == Lp@[index as int] + 1, A <= p < Lp@[index + 1], w == super_, 0 <= w < n, hd(d, w), d.tg[p as int] == w, d.s[p as int] == index, d.lo[index as int] <= p < d.hi[index as int], w != index, 0 <= q <= n_kern, deg_part(d, degrees@, i as int, A, p as int, w, q as int),
decreases n_kern - q,
@head 2.1.1
proof { deg_at(d, degrees@, i as int, A, p as int, w, q as int); deg_q(d, degrees@, i as int, A, p as int, w, q as int, (degrees@[cd(d, w, q as int)] + 1) as i32); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); assert(q * n == n * q) by (nonlinear_arith); }
@post 2.1.1
proof { assert(d.hl[i as int] == index); deg_e(d, degrees@, i as int, A, p as int, p as int, A, p + 1); }
@post 2.1
proof { mb_col(B, d, index as int); assert(d.hl[i as int] == index); deg_node(d, degrees@, i as int, A, p as int); }
@pre 3
proof { deg_done(d, degrees@, 0, 0); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); srcs_init(d, inqueue@); assert(queue@ =~= seq![]); }
@loop 3
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, supers_up(B, supers@, B.n), 0 <= i <= num_nodes, deg_is(d, degrees@), srcs_part(d, i as int, queue@, inqueue@), queue@.len() <= num_nodes,
decreases num_nodes - i,
@head 3
proof { srcs_at(d, degrees@, i as int, queue@, inqueue@); assert(d.hl[i as int] == supernodes@[i as int]); srcs_next(d, i as int, queue@, inqueue@); }
@pre 4
proof { assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); q = queue@; ml_init(d, q, levelPtr@, visited@, inqueue@); b = q.len() as int; assert(queue@ =~= q.subrange(t, q.len() as int)); }
@loop 4
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, supers_up(B, supers@, B.n), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, b == q.len(), t == levelPtr@[cur_level as int], 0 <= t, next_n == 0, cur_n == b - t, lev_num == t, 0 <= cur_level < levelPtr@.len(), ptr_num <= t + cur_n, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases n_kern * num_nodes - t,
@head 4
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_lp(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, b as i32); }
let ghost T0 = t; 
@loop 4.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, supers_up(B, supers@, B.n), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i, cur_n == b - T0, 0 <= i <= cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases cur_n - i,
@head 4.1
let ghost IX = q[t]; 
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); q_front(q, t, 0i32); ml_take(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, (visited@[IX as int] + 1) as i32); div_is(n as int, IX as int);
    cur = IX as int; rl = d.lo[vx(d, cur)]; rh = d.hi[vx(d, cur)]; t = t + 1; assert(d.n * kx(d, cur) == kx(d, cur) * n) by (nonlinear_arith) requires d.n == n; assert(queue@.subrange(1, queue@.len() as int) =~= q.subrange(t, q.len() as int)); let v0 = vx(d, cur); mb_col(B, d, v0); cod(d.n, v0, kx(d, cur), d.K); }
@loop 4.1.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), isLower, supers_up(B, supers@, B.n), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur >= 0, index == vx(d, cur), kern_num == kx(d, cur), 0 <= index < n, 0 <= kern_num < n_kern, rl == p, rh == d.hi[index as int], rh == Lp@[index + 1], Lp@[index as int] + 1 <= p <= rh, 0 <= Lp@[index as int], Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), Lp@.len() > n, is_hd(B, index as int), T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i + 1, cur_n == b - T0, 0 <= i < cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases rh - p,
@head 4.1.1
let ghost e = p as int; let ghost V0 = visited@; let ghost I0 = inqueue@; let ghost q0 = q;
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); mb_entry(B, d, supers@, index as int, e); ml_at(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e); ml_read(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e, rl + 1, rh); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith);
    q_front(q, t, offs(d, cur, e) as i32);
    let q2 = q_next(d, us, q, cur, e); let lv2 = lv_after(d, us, lv, cur, e, cur_level as int); let us2 = us_after(d, us, cur, e); assert(vis_after(d, us, visited@, cur, e) == visited@.update(offs(d, cur, e), (visited@[offs(d, cur, e)] + 1) as i32));
    ml_len(d, q2, t, cur, rl + 1, rh, lv2, us2, levelPtr@, cur_level as int, b, vis_after(d, us, visited@, cur, e), inq_after(d, us, inqueue@, cur, e)); q = q2; lv = lv2; us = us2; rl = rl + 1; }
@post 4.1.1
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); ml_copy(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); q_front(q, t, nxt(d, cur) as i32); let q2 = q_copy(d, q, cur); ml_len(d, q2, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inq_copy(d, inqueue@, cur)); q = q2; assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); cur = -1; rl = 0; rh = 0; }
@post 4.1
proof { ml_len(d, q, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_level(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); b = q.len() as int; }
@post 4
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_done(d, q, t, lv, us, levelPtr@, cur_level as int, visited@, inqueue@, levels@); }
@loop 5
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], forall|x: int| 0 <= x < d.n * d.K ==> #[trigger] degrees@[x] == (if x >= d.n { BASE() } else { 0 }), 0 <= i <= num_nodes, counter == supernodes@[i as int], supers_up(B, supers@, counter as int),
decreases num_nodes - i,
@head 5
proof { sn_in(B, i as int); sn_in(B, i + 1); }
@loop 5.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], forall|x: int| 0 <= x < d.n * d.K ==> #[trigger] degrees@[x] == (if x >= d.n { BASE() } else { 0 }), 0 <= i < num_nodes, -1 <= supernodes@[i + 1] <= counter <= supernodes@[i as int] < n, supers_up(B, supers@, counter as int),
decreases counter - supernodes@[i + 1],
@head 5.1
proof { assert(in_blk(B, i as int, counter as int)); supers_put(B, supers@, counter as int, i as int); }
@pre 6
proof { assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); assert(degrees@.len() == d.n * d.K); deg_init(d, degrees@); }
@loop 6
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, -1), 0 <= i <= num_nodes, deg_part(d, degrees@, i as int, 0, 0, -1, 0),
decreases num_nodes - i,
@head 6
let ghost ix = supernodes@[i as int] as int;
proof { sn_in(B, i as int); mb_col(B, d, ix); A = Lp@[ix + 1] as int; deg_start(d, degrees@, i as int, 0, 0, A); }
@loop 6.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, -1), 0 <= i < num_nodes, index == supernodes@[i as int], 0 <= index < n, 0 <= Lp@[index as int] <= Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), hd(d, index as int), is_hd(B, index as int), Lp@.len() > n, A == Lp@[index + 1], Lp@[index as int] - 1 <= p < A, deg_part(d, degrees@, i as int, p + 1, A, -1, 0),
decreases p + 1 - Lp@[index as int],
@head 6.1
let ghost w = supers@[Li@[p as int] as int] as int;
proof { mb_entry(B, d, supers@, index as int, p as int); deg_e0(d, degrees@, i as int, p + 1, A, w); assert(d.hl[i as int] == index); if w == index { deg_e(d, degrees@, i as int, p + 1, A, p as int, p as int, A); } }
@loop 6.1.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], supers_up(B, supers@, -1), 0 <= i < num_nodes, index == supernodes@[i as int], 0 <= index < n, 0 <= Lp@[index as int] <= Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), hd(d, index as int), is_hd(B, index as int), Lp@.len() > n, A == Lp@[index + 1], Lp@[index as int] <= p < A, w == super_, 0 <= w < n, hd(d, w), d.tg[p as int] == w, d.s[p as int] == index, d.lo[index as int] <= p < d.hi[index as int], w != index, 0 <= q <= n_kern, deg_part(d, degrees@, i as int, p + 1, A, w, q as int),
decreases n_kern - q,
@head 6.1.1
proof { deg_at(d, degrees@, i as int, p + 1, A, w, q as int); deg_q(d, degrees@, i as int, p + 1, A, w, q as int, (degrees@[cd(d, w, q as int)] + 1) as i32); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); assert(q * n == n * q) by (nonlinear_arith); }
@post 6.1.1
proof { assert(d.hl[i as int] == index); deg_e(d, degrees@, i as int, p + 1, A, p as int, p as int, A); }
@post 6.1
proof { mb_col(B, d, index as int); assert(d.hl[i as int] == index); deg_node(d, degrees@, i as int, p + 1, A); }
@pre 7
proof { deg_done(d, degrees@, 0, 0); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); srcs_init(d, inqueue@); assert(queue@ =~= seq![]); }
@loop 7
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, cur_level == 0, levelPtr@[0] == 0, supers_up(B, supers@, -1), 0 <= i <= num_nodes, deg_is(d, degrees@), srcs_part(d, i as int, queue@, inqueue@), queue@.len() <= num_nodes,
decreases num_nodes - i,
@head 7
proof { srcs_at(d, degrees@, i as int, queue@, inqueue@); assert(d.hl[i as int] == supernodes@[i as int]); srcs_next(d, i as int, queue@, inqueue@); }
@pre 8
proof { assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); q = queue@; ml_init(d, q, levelPtr@, visited@, inqueue@); b = q.len() as int; assert(queue@ =~= q.subrange(t, q.len() as int)); }
@loop 8
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, supers_up(B, supers@, -1), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, b == q.len(), t == levelPtr@[cur_level as int], 0 <= t, next_n == 0, cur_n == b - t, lev_num == t, 0 <= cur_level < levelPtr@.len(), ptr_num <= t + cur_n, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases n_kern * num_nodes - t,
@head 8
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_lp(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, b as i32); }
let ghost T0 = t; 
@loop 8.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, supers_up(B, supers@, -1), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i, cur_n == b - T0, 0 <= i <= cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases cur_n - i,
@head 8.1
let ghost IX = q[t]; 
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); q_front(q, t, 0i32); ml_take(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, (visited@[IX as int] + 1) as i32); div_is(n as int, IX as int);
    cur = IX as int; rl = d.lo[vx(d, cur)]; rh = d.hi[vx(d, cur)]; t = t + 1; assert(d.n * kx(d, cur) == kx(d, cur) * n) by (nonlinear_arith) requires d.n == n; assert(queue@.subrange(1, queue@.len() as int) =~= q.subrange(t, q.len() as int)); let v0 = vx(d, cur); mb_col(B, d, v0); cod(d.n, v0, kx(d, cur), d.K); }
@loop 8.1.1
invariant B == mblk_of(Lp@, Li@, n as int, supernodes@, num_nodes as int, n_kern as int, isLower), d == mb_of(B), mb_in(B), ml_ok(d), d.bn, d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, num_nodes >= 1, num_nodes < supernodes@.len(), n_kern * n < i32::MAX, 0 <= n_kern * num_nodes <= n_kern * n, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * num_nodes, levelPtr@.len() == n_kern * num_nodes + 1, supers@.len() == n, d.hl.len() == num_nodes, (forall|i: int| 0 <= i < num_nodes ==> #[trigger] d.hl[i] == supernodes@[i]), (forall|i: int| 0 <= i < num_nodes ==> hd(d, #[trigger] supernodes@[i] as int)), !isLower, supers_up(B, supers@, -1), deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur >= 0, index == vx(d, cur), kern_num == kx(d, cur), 0 <= index < n, 0 <= kern_num < n_kern, rh == p + 1, rl == d.lo[index as int], rl == Lp@[index as int], rl <= rh <= Lp@[index + 1], 0 <= Lp@[index as int], Lp@[index + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), Lp@.len() > n, is_hd(B, index as int), T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i + 1, cur_n == b - T0, 0 <= i < cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases p + 1 - rl,
@head 8.1.1
let ghost e = p as int; let ghost V0 = visited@; let ghost I0 = inqueue@; let ghost q0 = q;
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); mb_entry(B, d, supers@, index as int, e); ml_at(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e); ml_read(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e, rl, rh - 1); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith);
    q_front(q, t, offs(d, cur, e) as i32);
    let q2 = q_next(d, us, q, cur, e); let lv2 = lv_after(d, us, lv, cur, e, cur_level as int); let us2 = us_after(d, us, cur, e); assert(vis_after(d, us, visited@, cur, e) == visited@.update(offs(d, cur, e), (visited@[offs(d, cur, e)] + 1) as i32));
    ml_len(d, q2, t, cur, rl, rh - 1, lv2, us2, levelPtr@, cur_level as int, b, vis_after(d, us, visited@, cur, e), inq_after(d, us, inqueue@, cur, e)); q = q2; lv = lv2; us = us2; rh = rh - 1; }
@post 8.1.1
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); ml_copy(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); q_front(q, t, nxt(d, cur) as i32); let q2 = q_copy(d, q, cur); ml_len(d, q2, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inq_copy(d, inqueue@, cur)); q = q2; assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); cur = -1; rl = 0; rh = 0; }
@post 8.1
proof { ml_len(d, q, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_level(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); b = q.len() as int; }
@post 8
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(n_kern * num_nodes == num_nodes * n_kern) by (nonlinear_arith); ml_done(d, q, t, lv, us, levelPtr@, cur_level as int, visited@, inqueue@, levels@); }
@exit
proof { copies_cut(d, levelPtr@, levels@, cur_level as int, levelptr@); }
