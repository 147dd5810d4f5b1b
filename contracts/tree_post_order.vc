@unit tree_post_order
@src utils/lfactor_creation.cpp
@ns sym_lib
@name tree_post_order
@props P13
@uses treepo
@opts isolate complex
@args dfs_tree
t; rk; N
@requires
3 * n + 1 <= i32::MAX, forest(Parent@, n as int), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] Parent@[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, old(Post)@.len() >= n, old(Post)@.len() <= i32::MAX,
@ensures
res == n, postordered(Parent@, Post@, n as int), is_perm(Post@, n as int), Post@.len() == old(Post)@.len(),
@entry
let ghost t = Parent@; let ghost N = n as int; let ghost mut rk: Seq<int> = Seq::new(n as nat, |i: int| 0int); let ghost WT = Weight@;
let ghost mut m: int = 0; let ghost mut D: Set<int> = Set::empty(); let ghost mut H0: Seq<i32> = seq![]; let ghost mut NX: Seq<i32> = seq![]; let ghost mut c: int = 0;
@loop 1
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, 0 <= i <= n + 1,
    forall|v: int| 0 <= v < i ==> #[trigger] Iwork@[v] == -1,
decreases n + 1 - i,
@post 1
proof { H0 = hd(Iwork@, N); assert forall|v: int| 0 <= v < N implies #[trigger] H0[v] == -1 by { assert(H0[v] == Iwork@[v]); } kl_init(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N); }
@loop 2
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, -1 <= j < n,
    kl(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N, D, m),
    forall|v: int| #[trigger] D.contains(v) ==> v > j,
    forall|v: int| j < v < n && #[trigger] t[v] >= 0 ==> D.contains(v),
decreases j + 1,
@head 2
let ghost A0 = Iwork@; let ghost j0 = j as int;
proof { assert(t[j as int] >= -1); assert(t[j as int] < 0 || j < t[j as int] < N);
    if t[j as int] >= 0 { let p0 = t[j as int]; assert(hd(A0, N)[p0 as int] == A0[p0 as int]); put_nx(A0, N, j0, A0[p0 as int]); put_hd(A0.update(N + 1 + j0, A0[p0 as int]), N, p0 as int, j);
        kl_put(t, rk, hd(A0, N), nxs(A0, N), N, D, m, j0); rk = rk.update(j0, -(m + 1)); D = D.insert(j0); m = m + 1; } }
@post 2
proof { kl_done(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N, D, m); }
@loop 3
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, Weight@.len() >= n, _t6 == _t2, 0 <= w <= n, hd(Iwork@, N) == H0,
    forall|v: int| 0 <= v < w ==> #[trigger] pst(Iwork@, N)[v] == -1,
decreases n - w,
@head 3
proof { put_ps(Iwork@, N, w as int, -1i32); }
@post 3
proof { wh_init(t, WT, N, pst(Iwork@, N), nxs(Iwork@, N)); }
@loop 4
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, Weight@.len() >= n, _t6 == _t2, 0 <= j <= n, hd(Iwork@, N) == H0,
    wh_ok(t, WT, N, pst(Iwork@, N), j as int), wn_ok(t, WT, N, nxs(Iwork@, N), j as int, Set::empty()),
decreases n - j,
@head 4
let ghost A0 = Iwork@; let ghost j0 = j as int;
proof { assert(t[j as int] >= -1); assert(t[j as int] < 0 || j < t[j as int] < N);
    wh_step(t, WT, N, pst(A0, N), nxs(A0, N), j0);
    if t[j as int] >= 0 { let b = wbkt(WT, N, j0); assert(pst(A0, N)[b] == A0[2 * N + 1 + b]); put_nx(A0, N, j0, A0[2 * N + 1 + b]); put_ps(A0.update(N + 1 + j0, A0[2 * N + 1 + b]), N, b, j); } }
@post 4
proof { kl_init(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N); d_init(t, WT, N); D = Set::empty(); }
@loop 5
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, Weight@.len() >= n, _t6 == _t2, -1 <= w < n,
    wh_ok(t, WT, N, pst(Iwork@, N), N),
    wn_ok(t, WT, N, nxs(Iwork@, N), N, D),
    d_is(t, WT, N, D, w as int, N), kl(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N, D, m),
decreases w + 1,
@head 5
proof { c = N; reveal(wh_ok); assert(pst(Iwork@, N)[w as int] == Iwork@[2 * N + 1 + w]); lastb_is(t, WT, N, c, w as int); }
@loop 5.1
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, _t6 == _t2, 0 <= w < n, -1 <= j < c, c <= N,
    wh_ok(t, WT, N, pst(Iwork@, N), N),
    wn_ok(t, WT, N, nxs(Iwork@, N), N, D),
    d_is(t, WT, N, D, w as int, c), kl(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N, D, m),
    j == lastb(t, WT, N, c, w as int),
decreases j + 1,
@head 5.1
let ghost A0 = Iwork@; let ghost j0 = j as int;
proof { lastb_is(t, WT, N, c, w as int); assert(t[j as int] >= 0); assert(t[j as int] < 0 || j < t[j as int] < N); assert(nxs(A0, N)[j0] == A0[N + 1 + j0]);
    let p0 = t[j as int]; assert(hd(A0, N)[p0 as int] == A0[p0 as int]); put_nx(A0, N, j0, A0[p0 as int]); put_hd(A0.update(N + 1 + j0, A0[p0 as int]), N, p0 as int, j);
    d_take(t, WT, N, D, w as int, c, nxs(A0, N), A0[p0 as int]);
    kl_put(t, rk, hd(A0, N), nxs(A0, N), N, D, m, j0); rk = rk.update(j0, -(m + 1)); D = D.insert(j0); m = m + 1; c = j0; lastb_is(t, WT, N, c, w as int); }
@post 5.1
proof { d_next(t, WT, N, D, w as int, c); }
@post 5
proof { d_all(t, WT, N, D); kl_done(t, rk, hd(Iwork@, N), nxs(Iwork@, N), N, D, m); }
@pre 6
proof { H0 = hd(Iwork@, N); NX = nxs(Iwork@, N); }
@loop 6
invariant 0 <= n, 3 * n + 1 <= i32::MAX, t == Parent@, N == n, forest(t, N), Parent@.len() <= i32::MAX, forall|v: int| 0 <= v < n ==> #[trigger] t[v] >= -1, Weight@.len() == 0 || Weight@.len() >= n, Weight@.len() <= i32::MAX, Iwork@.len() == 3 * n + 1, _t1 == n + 1, _t2 == 2 * n + 1, rk.len() == n, WT == Weight@, 0 <= j <= n, n <= Post@.len() <= i32::MAX, Post@.len() == old(Post)@.len(), nxs(Iwork@, N) == NX, H0.len() == N + 1,
    kid_lists(t, rk, H0, NX, N), kids_in(t, H0, NX, N), rk_from(t, rk, N, m),
    kid_lists(t, rk, hd(Iwork@, N), NX, N),
    k == all_to(t, rk, H0, NX, j as int).len(),
    forall|x: int| 0 <= x < k ==> Post@[x] == #[trigger] all_to(t, rk, H0, NX, j as int)[x],
    forall|v: int| 0 <= v < N && #[trigger] top(t, N, v) >= j ==> hd(Iwork@, N)[v] == H0[v],
decreases n - j,
@head 6
let ghost A0 = Iwork@; let ghost P0 = Post@; let ghost k0 = k as int; let ghost j0 = j as int; let ghost al = all_to(t, rk, H0, NX, j as int); let ghost seg = po(rk, H0, NX, j as int); let ghost al2 = all_to(t, rk, H0, NX, j + 1);
proof { assert(t[j as int] >= -1);
    if t[j as int] == -1 {
        assert forall|u: int| 0 <= u < N && #[trigger] under(t, N, u, j0) implies H0[u] == hd(A0, N)[u] by { top_is(t, N, u, j0); }
        po_frame(t, rk, H0, hd(A0, N), NX, N, j0);
        all_range(t, rk, H0, NX, N, j + 1); assert(al2 == al + seg);
        assert(hd(A0, N) =~= A0.subrange(0, 2 * N + 1).subrange(0, N + 1)); assert(nxs(A0, N) =~= A0.subrange(0, 2 * N + 1).subrange(N + 1, 2 * N + 1));
    } else { assert(al2 == al); } }
@tail 6
proof {
    assert forall|x: int| 0 <= x < k implies Post@[x] == #[trigger] al2[x] by { if t[j0] == -1 { if x < k0 { assert(Post@[x] == P0[x]); assert(al2[x] == al[x]); } else { assert(Post@[k0 + (x - k0)] == seg[x - k0]); } } else { assert(al2[x] == al[x]); } }
    assert(hd(Iwork@, N).len() == N + 1);
    assert forall|v: int| 0 <= v < N && #[trigger] top(t, N, v) >= j0 + 1 implies hd(Iwork@, N)[v] == H0[v] by { assert(hd(A0, N)[v] == H0[v]); if t[j0] == -1 { if under(t, N, v, j0) { top_is(t, N, v, j0); } } }
}
@after let _r18: .*
let ghost HH = Iwork@; let ghost SS = _h16@;
@after join_on\(&mut Iwork, _h16\);
proof { assert(Iwork@.len() == 3 * N + 1); assert(hd(Iwork@, N) =~= HH); assert(nxs(Iwork@, N) =~= NX); }
@post 6
proof { po_done(t, rk, H0, NX, N, m, Post@); }
@loop 7
invariant 0 <= j <= n, 3 * n + 1 <= i32::MAX, Iwork@.len() == 3 * n + 1,
decreases n - j,
