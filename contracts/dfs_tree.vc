@unit dfs_tree
@src utils/sparse_inspector.cpp
@ns sym_lib
@name dfs_tree
@props P02 P13
@uses postorder
@opts isolate
@ghost
t: Seq<i32>; rk: Seq<int>; N: int
@requires
0 <= k, 0 <= p < N <= i32::MAX, N <= old(Head)@.len(), old(Pstack)@.len() >= N, old(Post)@.len() <= i32::MAX, kid_lists(t, rk, old(Head)@, Next@, N), k + po(rk, old(Head)@, Next@, p as int).len() <= old(Post)@.len(),
@ensures
po_written(po(rk, old(Head)@, Next@, p as int), k as int, res as int, Post@, old(Post)@), kid_lists(t, rk, Head@, Next@, N), rest_same(t, N, Head@, old(Head)@, p as int),
Head@.len() == old(Head)@.len(), Pstack@.len() == old(Pstack)@.len(),
@entry
let ghost H0 = Head@; let ghost NX = Next@; let ghost P0 = Post@; let ghost r = p as int; let ghost k0 = k as int; let ghost S = Pstack@.len();
let ghost mut d: Set<int> = set![p as int];
let ghost all = po(rk, Head@, Next@, p as int);
@pre 1
proof { dfst_init(t, rk, H0, NX, Pstack@, N, r); }
@loop 1
invariant
    N <= H0.len(), Pstack@.len() == S, N <= i32::MAX, NX == Next@, 0 <= r < N, 0 <= k0 <= k, -1 <= phead < N, Post@.len() == P0.len(), Post@.len() <= i32::MAX, k0 + all.len() <= Post@.len(), all == po(rk, H0, NX, r),
    kid_lists(t, rk, H0, NX, N), dfst(t, rk, H0, NX, Head@, Pstack@, d, N, r, phead as int), (k - k0) + rem(rk, H0, NX, Head@, Pstack@, phead as int).len() == all.len(),
    forall|x: int| k - k0 <= x < all.len() ==> rem(rk, H0, NX, Head@, Pstack@, phead as int)[x - (k - k0)] == #[trigger] all[x],
    forall|x: int| 0 <= x < k - k0 ==> Post@[k0 + x] == #[trigger] all[x], forall|x: int| 0 <= x < P0.len() && !(k0 <= x < k) ==> #[trigger] Post@[x] == P0[x],
decreases rem(rk, H0, NX, Head@, Pstack@, phead as int).len(), N - phead,
@head 1
let ghost s0 = rem(rk, H0, NX, Head@, Pstack@, phead as int); let ghost top = Pstack@[phead as int];
proof { assert(0 <= Pstack@[phead as int] <= r - phead); assert(head_ok(t, Head@, Pstack@[phead as int] as int));
    if Head@[Pstack@[phead as int] as int] == -1 { dfst_pop(t, rk, H0, NX, Head@, Pstack@, d, N, r, phead as int); assert(s0[0] == top); assert(all[k - k0] == top);
        let s1 = rem(rk, H0, NX, Head@, Pstack@, phead - 1);
        assert forall|x: int| (k + 1) - k0 <= x < all.len() implies s1[x - ((k + 1) - k0)] == #[trigger] all[x] by { assert(s0[x - (k - k0)] == all[x]); } }
    else { dfst_push(t, rk, H0, NX, Head@, Pstack@, d, N, r, phead as int); d = d.insert(Head@[Pstack@[phead as int] as int] as int); } }
@exit
proof {
    assert(dfst(t, rk, H0, NX, Head@, Pstack@, d, N, r, phead as int));
    assert forall|v: int| 0 <= v < N && !#[trigger] under(t, N, v, r) implies Head@[v] == H0[v] by { if d.contains(v) { assert(seen_ok(t, rk, Head@, d, N, r, v)); } }
}
