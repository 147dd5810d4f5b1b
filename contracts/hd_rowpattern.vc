@unit hd_rowpattern
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computeNoneZeroPatternOfRowK
@props P17
@uses rowpat
@opts complex isolate spinoff
@requires
0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e] <= k, is_tree(eg_low(Ap@, Ai@), n as int, parent@), old(s)@.len() >= n, old(w)@.len() >= n, unmk(old(w)@, n as int),
@ensures
0 <= res < n, row_of(eg_low(Ap@, Ai@), k as int, final(s)@.subrange(res as int, n - 1)), final(s)@[n - 1] == k, final(s)@.len() == old(s)@.len(), unmk(final(w)@, n as int), final(w)@.len() == old(w)@.len(),
@entry
let ghost g = eg_low(Ap@, Ai@); let ghost par = parent@; let ghost e0 = n - 1; let ghost w0 = w@; let ghost mut cu: int = -1; let ghost mut zz = Seq::<i32>::empty();
@pre 1
proof { rp_init(g, n as int, k as int, par, w0, w@, ends(s@, 0, e0, e0)); sm_init(Ai@, k as int, w@, Ap@[k as int] as int); }
@loop 1
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n - 1, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e] <= k, par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), w@.len() >= n, w@.len() == old(w)@.len(),
    0 <= top <= e0, Ap@[k as int] <= p <= Ap@[k + 1], rp(g, n as int, k as int, par, w@, ends(s@, 0, top as int, e0), cu), cu == -1 || 0 <= cu < n && w@[cu], seen_mk(Ai@, k as int, w@, Ap@[k as int] as int, p as int),
decreases Ap@[k + 1] - p,
@head 1
proof { assert(0 <= Ai@[p as int] <= k); if Ai@[p as int] < k { assert(eg_in(Ap@, Ai@, Ap@[k as int] as int, Ap@[k + 1] as int, Ai@[p as int] as int)); assert(g(Ai@[p as int] as int, k as int)); } rp_start(g, n as int, k as int, par, w@, ends(s@, 0, top as int, e0), cu, Ai@[p as int] as int); rp_facts(g, n as int, k as int, par, w@, ends(s@, 0, top as int, e0), cu); }
@loop 1.1
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n - 1, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e] <= k, par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), w@.len() >= n, w@.len() == old(w)@.len(),
    0 <= len <= top <= e0, Ap@[k as int] <= p < Ap@[k + 1], 0 <= Ai@[p as int] <= k, 0 <= i <= k, rp(g, n as int, k as int, par, w@, ends(s@, len as int, top as int, e0), i as int), seen_mk(Ai@, k as int, w@, Ap@[k as int] as int, p as int), w@[k as int], i == Ai@[p as int] || w@[Ai@[p as int] as int],
ensures
    w@[i as int],
decreases k - i,
@head 1.1
proof { rp_push(g, n as int, k as int, par, w@, ends(s@, len as int, top as int, e0), i, len as int); assert(len < top); ends_push(s@, len as int, top as int, e0, i); sm_keep(Ai@, k as int, w@, Ap@[k as int] as int, p as int, i as int); }
@post 1.1
proof { sm_step(Ai@, k as int, w@, Ap@[k as int] as int, p as int); cu = i as int; }
@loop 1.2
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n - 1, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e] <= k, par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), w@.len() >= n, w@.len() == old(w)@.len(),
    0 <= len <= top <= e0, Ap@[k as int] <= p < Ap@[k + 1], rp(g, n as int, k as int, par, w@, ends(s@, len as int, top as int, e0), cu), 0 <= cu < n && w@[cu], seen_mk(Ai@, k as int, w@, Ap@[k as int] as int, p + 1),
decreases len,
@head 1.2
proof { ends_move(s@, len as int, top as int, e0); }
@post 1
let ghost z = s@.subrange(top as int, e0);
proof { assert(ends(s@, 0, top as int, e0) =~= z); rp_facts(g, n as int, k as int, par, w@, z, cu); rp_done(Ap@, Ai@, n as int, k as int, par, w@, z, cu); zz = z; }
@loop 2
invariant
    g == eg_low(Ap@, Ai@), par == parent@, e0 == n - 1, 0 <= k < n, Ap@.len() > n, 0 <= Ap@[k as int] <= Ap@[k + 1] <= Ai@.len(), forall|e: int| Ap@[k as int] <= e < Ap@[k + 1] ==> 0 <= #[trigger] Ai@[e] <= k, par.len() >= n, s@.len() >= n, s@.len() == old(s)@.len(), w@.len() >= n, w@.len() == old(w)@.len(),
    zz == s@.subrange(top as int, e0), row_of(g, k as int, zz), 0 <= top <= p <= e0, mkd(w@, n as int, k as int, s@.subrange(p as int, e0)),
decreases e0 - p,
@head 2
let ghost zp = s@.subrange(p as int, e0);
proof { assert forall|a: int| 0 <= a < zp.len() implies 0 <= #[trigger] zp[a] < k by { assert(zp[a] == zz[a + p - top]); } assert(dist(zp)) by { assert forall|a: int, b: int| 0 <= a < b < zp.len() implies #[trigger] zp[a] != #[trigger] zp[b] by { assert(zz[a + p - top] != zz[b + p - top]); } } mk_pop(w@, n as int, k as int, zp); assert(zp.drop_first() =~= s@.subrange(p + 1, e0)); }
@post 2
proof { mk_last(w@, n as int, k as int, s@.subrange(p as int, e0)); }
@exit
proof { assert(s@.subrange(top as int, e0) =~= zz); }
