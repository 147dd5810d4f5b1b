@unit level_set_multi
@src utils/sparse_inspector.cpp
@ns sym_lib
@name level_set_multi_graphs
@props P01
@uses mlev
@opts complex isolate spinoff
@rlimit 20
@requires
mm_in(Lp@, Li@, n as int, n_kern as int),
@ensures
copies_leveled(mm_of(Lp@, Li@, n as int, n_kern as int), levelptr@, levels@, res as int), levelptr@.len() == res + 1, levels@.len() == n_kern * n,
n_kern == 1 ==> level_result(Lp@, Li@, n as int, levelptr@, levels@, res as int),
@entry
let ghost d = mm_of(Lp@, Li@, n as int, n_kern as int);
let ghost mut q: Seq<i32> = seq![]; let ghost mut t: int = 0; let ghost mut cur: int = -1; let ghost mut rl: int = 0; let ghost mut rh: int = 0; let ghost mut lv: Seq<int> = lv_start(d); let ghost mut us: Seq<ISet<int>> = us_start(d); let ghost mut b: int = 0; let ghost mut A: int = 0;
proof { mm_ok(Lp@, Li@, n as int, n_kern as int); assert(n_kern * n == n * n_kern) by (nonlinear_arith); assert(0 <= n * (n_kern - 1) && n * (n_kern - 1) + n == n * n_kern) by (nonlinear_arith) requires n >= 1, n_kern >= 1; assert(Lp@[0] <= Lp@[n as int]); reveal(kd); }
@pre 1
proof { assert(degrees@.len() == d.n * d.K); deg_init(d, degrees@); assert(d.n * d.K == n_kern * n); }
@loop 1
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, 0 <= i <= n, queue@.len() == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], deg_part(d, degrees@, i as int, 0, 0, -1, 0),
decreases n - i,
@head 1
proof { assert(hd(d, i as int) && d.hl[i as int] == i); A = d.lo[i as int]; assert(Lp@[0] <= Lp@[i as int] && Lp@[i as int] < Lp@[i + 1] && Lp@[i + 1] <= Lp@[n as int]); deg_start(d, degrees@, i as int, 0, 0, A); }
@loop 1.1
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, 0 <= i < n, queue@.len() == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], A == Lp@[i as int] + 1, 0 <= Lp@[i as int], A <= p <= Lp@[i + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), deg_part(d, degrees@, i as int, A, p as int, -1, 0),
decreases Lp@[i + 1] - p,
@head 1.1
let ghost w = Li@[p as int] as int;
proof { assert(in_col(Lp@, i as int, p as int)); src_is(Lp@, n as int, i as int, p as int); assert(d.s[p as int] == i); assert(0 <= Li@[p as int] < n); assert(hd(d, w) && d.hl[w] == w); assert(d.tg[p as int] == w); deg_e0(d, degrees@, i as int, A, p as int, w);
    assert(Lp@[i as int] < Lp@[i + 1] && Li@[Lp@[i as int] as int] == i); if w == i { assert(is_diag(Lp@, Li@, i as int, p as int) && is_diag(Lp@, Li@, i as int, Lp@[i as int] as int)); } }
@loop 1.1.1
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, 0 <= i < n, queue@.len() == 0, forall|x: int| 0 <= x < inqueue@.len() ==> !#[trigger] inqueue@[x], A == Lp@[i as int] + 1, 0 <= Lp@[i as int], A <= p < Lp@[i + 1] <= Lp@[n as int], Lp@[n as int] <= Li@.len(), w == Li@[p as int], 0 <= w < n, hd(d, w), d.tg[p as int] == w, d.s[p as int] == i, w != i, 0 <= q <= n_kern, deg_part(d, degrees@, i as int, A, p as int, w, q as int),
decreases n_kern - q,
@head 1.1.1
proof { deg_at(d, degrees@, i as int, A, p as int, w, q as int); deg_q(d, degrees@, i as int, A, p as int, w, q as int, (degrees@[cd(d, w, q as int)] + 1) as i32); assert(n_kern * n == n * n_kern) by (nonlinear_arith); }
@post 1.1.1
proof { assert(d.hl[i as int] == i); deg_e(d, degrees@, i as int, A, p as int, p as int, A, p + 1); }
@post 1.1
proof { assert(d.hl[i as int] == i); deg_node(d, degrees@, i as int, A, p as int); }
@post 1
proof { deg_done(d, degrees@, 0, 0); assert(n_kern * n == n * n_kern) by (nonlinear_arith); srcs_init(d, inqueue@); assert(queue@ =~= seq![]); }
@loop 2
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, forall|x: int| 0 <= x < visited@.len() ==> #[trigger] visited@[x] == 0, 0 <= i <= n, deg_is(d, degrees@), srcs_part(d, i as int, queue@, inqueue@), queue@.len() <= n,
decreases n - i,
@head 2
proof { srcs_at(d, degrees@, i as int, queue@, inqueue@); assert(d.hl[i as int] == i); srcs_next(d, i as int, queue@, inqueue@); }
@pre 3
proof { assert(n_kern * n == n * n_kern) by (nonlinear_arith); q = queue@; ml_init(d, q, levelPtr@, visited@, inqueue@); b = q.len() as int; assert(queue@ =~= q.subrange(t, q.len() as int)); }
@loop 3
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, b == q.len(), t == levelPtr@[cur_level as int], 0 <= t, next_n == 0, cur_n == b - t, lev_num == t, 0 <= cur_level < levelPtr@.len(), ptr_num <= t + cur_n, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases n_kern * n - t,
@head 3
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); ml_lp(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, b as i32); }
let ghost T0 = t; 
@loop 3.1
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur == -1, rl == 0, rh == 0, T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i, cur_n == b - T0, 0 <= i <= cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases cur_n - i,
@head 3.1
let ghost IX = q[t]; 
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); q_front(q, t, 0i32); ml_take(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, (visited@[IX as int] + 1) as i32); div_is(n as int, IX as int);
    cur = IX as int; rl = d.lo[vx(d, cur)]; rh = d.hi[vx(d, cur)]; t = t + 1; assert(d.n * kx(d, cur) == kx(d, cur) * n) by (nonlinear_arith) requires d.n == n; assert(queue@.subrange(1, queue@.len() as int) =~= q.subrange(t, q.len() as int)); let v0 = vx(d, cur); assert(Lp@[0] <= Lp@[v0] && Lp@[v0] < Lp@[v0 + 1] && Lp@[v0 + 1] <= Lp@[n as int]); cod(d.n, v0, kx(d, cur), d.K); }
@loop 3.1.1
invariant d == mm_of(Lp@, Li@, n as int, n_kern as int), mm_in(Lp@, Li@, n as int, n_kern as int), ml_ok(d), d.n == n, d.K == n_kern, d.m == Lp@[n as int], n >= 1, n_kern >= 1, n_kern * n < i32::MAX, degrees@.len() == n_kern * n, visited@.len() == n_kern * n, inqueue@.len() == n_kern * n, levels@.len() == n_kern * n, levelPtr@.len() == n_kern * n + 1, d.hl.len() == n, forall|v: int| 0 <= v < n ==> hd(d, v) && #[trigger] d.hl[v] == v, deg_is(d, degrees@), queue@ == q.subrange(t, q.len() as int), cur >= 0, index == vx(d, cur), kern_n == kx(d, cur), 0 <= index < n, 0 <= kern_n < n_kern, rl == p, rh == d.hi[vx(d, cur)], rh == Lp@[index + 1], 0 <= p <= rh <= Lp@[n as int], Lp@[n as int] <= Li@.len(), T0 == levelPtr@[cur_level as int], b > T0, t == T0 + i + 1, cur_n == b - T0, 0 <= i < cur_n, 0 <= T0, next_n == q.len() - b, lev_num == t, 0 <= cur_level, cur_level + 1 < levelPtr@.len(), levelPtr@[cur_level + 1] == b, ptr_num <= b, 0 <= ptr_num, forall|x: int| 0 <= x < t ==> #[trigger] levels@[x] == q[x], ml(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@),
decreases rh - p,
@head 3.1.1
let ghost e = p as int; let ghost V0 = visited@; let ghost I0 = inqueue@; let ghost q0 = q;
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); ml_at(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e); ml_read(d, degrees@, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@, e, rl + 1, rh); assert(n_kern * n == n * n_kern) by (nonlinear_arith);
    assert(d.tg[e] == Li@[e]); q_front(q, t, offs(d, cur, e) as i32);
    let q2 = q_next(d, us, q, cur, e); let lv2 = lv_after(d, us, lv, cur, e, cur_level as int); let us2 = us_after(d, us, cur, e); assert(vis_after(d, us, visited@, cur, e) == visited@ || vis_after(d, us, visited@, cur, e) == visited@.update(offs(d, cur, e), (visited@[offs(d, cur, e)] + 1) as i32));
    ml_len(d, q2, t, cur, rl + 1, rh, lv2, us2, levelPtr@, cur_level as int, b, vis_after(d, us, visited@, cur, e), inq_after(d, us, inqueue@, cur, e)); q = q2; lv = lv2; us = us2; rl = rl + 1; }
@post 3.1.1
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); ml_copy(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); q_front(q, t, nxt(d, cur) as i32); let q2 = q_copy(d, q, cur); ml_len(d, q2, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inq_copy(d, inqueue@, cur)); q = q2; assert(n_kern * n == n * n_kern) by (nonlinear_arith); cur = -1; rl = 0; rh = 0; }
@post 3.1
proof { ml_len(d, q, t, -1, 0, 0, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n_kern * n == n * n_kern) by (nonlinear_arith); ml_level(d, q, t, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); b = q.len() as int; }
@post 3
proof { ml_len(d, q, t, cur, rl, rh, lv, us, levelPtr@, cur_level as int, b, visited@, inqueue@); assert(n * n_kern == n_kern * n) by (nonlinear_arith); ml_done(d, q, t, lv, us, levelPtr@, cur_level as int, visited@, inqueue@, levels@); }
@exit
proof { copies_cut(d, levelPtr@, levels@, cur_level as int, levelptr@); if n_kern == 1 { mm_plain(Lp@, Li@, n as int, levelptr@, levels@, cur_level as int); } }
