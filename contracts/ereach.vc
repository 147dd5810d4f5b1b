@unit ereach
@src utils/sparse_inspector.cpp
@ns sym_lib
@name ereach
@props P17
@uses rowpat
@opts complex isolate spinoff
@requires
0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), Ai@.len() > 0, forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e], is_tree(eg_low(Ap@, Ai@), n as int, parent@), old(s)@.len() >= n, plain(old(w)@, n as int),
@ensures
0 <= res <= n, row_of(eg_low(Ap@, Ai@), k as int, final(s)@.subrange(res as int, n as int)), final(s)@.len() == old(s)@.len(), final(w)@ == old(w)@,
@entry
let ghost g = eg_low(Ap@, Ai@); let ghost par = parent@; let ghost e0 = n as int; let ghost w0 = neg(w@); proof { flp_init(w@, n as int); flp_set(w@, w@, n as int, k as int); reveal(unmk); } let ghost mut cu: int = -1; let ghost mut zz = Seq::<i32>::empty();
@pre 1
proof { rp_init(g, n as int, k as int, par, w0, neg(w@), ends(s@, 0, e0, e0)); sm_init(Ai@, k as int, neg(w@), Ap@[k as int] as int); }
@loop 1
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e], par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), neg(w@).len() >= n, w@.len() == old(w)@.len(), flp(old(w)@, w@, n as int),
    0 <= top <= e0, Ap@[k as int] <= p <= Ap@[k + 1], rp(g, n as int, k as int, par, neg(w@), ends(s@, 0, top as int, e0), cu), cu == -1 || 0 <= cu < n && neg(w@)[cu], seen_mk(Ai@, k as int, neg(w@), Ap@[k as int] as int, p as int),
decreases Ap@[k + 1] - p,
@head 1
proof { assert(0 <= Ai@[p as int]); if Ai@[p as int] > k { sm_step(Ai@, k as int, neg(w@), Ap@[k as int] as int, p as int); } else { if Ai@[p as int] < k { assert(eg_in(Ap@, Ai@, Ap@[k as int] as int, Ap@[k + 1] as int, Ai@[p as int] as int)); assert(g(Ai@[p as int] as int, k as int)); } rp_start(g, n as int, k as int, par, neg(w@), ends(s@, 0, top as int, e0), cu, Ai@[p as int] as int); } rp_facts(g, n as int, k as int, par, neg(w@), ends(s@, 0, top as int, e0), cu); }
@loop 1.1
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e], par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), neg(w@).len() >= n, w@.len() == old(w)@.len(), flp(old(w)@, w@, n as int),
    0 <= len <= top <= e0, Ap@[k as int] <= p < Ap@[k + 1], 0 <= Ai@[p as int] <= k, 0 <= i <= k, rp(g, n as int, k as int, par, neg(w@), ends(s@, len as int, top as int, e0), i as int), seen_mk(Ai@, k as int, neg(w@), Ap@[k as int] as int, p as int), neg(w@)[k as int], i == Ai@[p as int] || neg(w@)[Ai@[p as int] as int],
ensures
    neg(w@)[i as int],
decreases k - i,
@head 1.1
proof { rp_push(g, n as int, k as int, par, neg(w@), ends(s@, len as int, top as int, e0), i, len as int); assert(len < top); ends_push(s@, len as int, top as int, e0, i); sm_keep(Ai@, k as int, neg(w@), Ap@[k as int] as int, p as int, i as int); flp_set(old(w)@, w@, n as int, i as int); }
@post 1.1
proof { sm_step(Ai@, k as int, neg(w@), Ap@[k as int] as int, p as int); cu = i as int; }
@loop 1.2
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e], par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), neg(w@).len() >= n, w@.len() == old(w)@.len(), flp(old(w)@, w@, n as int),
    0 <= len <= top <= e0, Ap@[k as int] <= p < Ap@[k + 1], rp(g, n as int, k as int, par, neg(w@), ends(s@, len as int, top as int, e0), cu), 0 <= cu < n && neg(w@)[cu], seen_mk(Ai@, k as int, neg(w@), Ap@[k as int] as int, p + 1),
decreases len,
@head 1.2
proof { ends_move(s@, len as int, top as int, e0); }
@post 1
let ghost z = s@.subrange(top as int, e0);
proof { assert(ends(s@, 0, top as int, e0) =~= z); rp_facts(g, n as int, k as int, par, neg(w@), z, cu); rp_done(Ap@, Ai@, n as int, k as int, par, neg(w@), z, cu); zz = z; }
@loop 2
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e], par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), neg(w@).len() >= n, w@.len() == old(w)@.len(), flp(old(w)@, w@, n as int),
    zz == s@.subrange(top as int, e0), row_of(g, k as int, zz), 0 <= top <= p <= e0, mkd(neg(w@), n as int, k as int, s@.subrange(p as int, e0)),
decreases e0 - p,
@head 2
let ghost zp = s@.subrange(p as int, e0);
proof { assert forall|a: int| 0 <= a < zp.len() implies 0 <= #[trigger] zp[a] < k by { assert(zp[a] == zz[a + p - top]); } assert(dist(zp)) by { assert forall|a: int, b: int| 0 <= a < b < zp.len() implies #[trigger] zp[a] != #[trigger] zp[b] by { assert(zz[a + p - top] != zz[b + p - top]); } } mk_pop(neg(w@), n as int, k as int, zp); assert(zp.drop_first() =~= s@.subrange(p + 1, e0)); flp_set(old(w)@, w@, n as int, s@[p as int] as int); }
@post 2
proof { mk_last(neg(w@), n as int, k as int, s@.subrange(p as int, e0)); flp_set(old(w)@, w@, n as int, k as int); let wl = w@.update(k as int, (0 - w@[k as int] - 2) as i32); assert(neg(w@)[k as int]) by { reveal(mkd); } assert(neg(wl) =~= neg(w@).update(k as int, false)); flp_done(old(w)@, wl, n as int); assert(s@.subrange(top as int, e0) =~= zz); }
