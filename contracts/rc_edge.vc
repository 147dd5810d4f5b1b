@unit rc_edge
@src utils/lfactor_creation.cpp
@ns sym_lib
@name process_edge
@props P17
@uses ccend
@opts complex
@ghost
f: Fo; g: Eg; dn: Dn; b: int
@requires
fo_ok(f), 0 <= p < u < f.n, f.pos[p as int] == k, dsc(f, p as int, u as int), g(p as int, u as int), p < First@.len(), First@[p as int] == f.fs[p as int], rs(g, f, dn, k as int, old(PrevNbr)@, old(PrevLeaf)@), cc_inv(f, dn, k + 1, old(ColCount)@), fnd(f, k as int, old(SetParent)@), cbd(f.n, old(ColCount)@, b), 1 <= b < i32::MAX, old(RowCount)@.len() == 0,
@ensures
rs(g, f, dn_add(dn, u as int, p as int), k as int, final(PrevNbr)@, final(PrevLeaf)@), cc_inv(f, dn_add(dn, u as int, p as int), k + 1, final(ColCount)@), fnd(f, k as int, final(SetParent)@), cbd(f.n, final(ColCount)@, b + 1), final(RowCount)@.len() == 0, final(PrevNbr)@.len() == old(PrevNbr)@.len(), final(PrevLeaf)@.len() == old(PrevLeaf)@.len(), final(ColCount)@.len() == old(ColCount)@.len(), final(SetParent)@.len() == old(SetParent)@.len(),
@entry
let ghost sp0 = SetParent@; let ghost cc0 = ColCount@; let ghost mut c1 = ColCount@; let ghost kk = k as int; let ghost pp = p as int; let ghost uu = u as int;
proof { dsc_lt(f, pp, uu); fo_at(f, pp); rs_get(g, f, dn, kk, PrevNbr@, PrevLeaf@, uu, pp); cb_at(f.n, cc0, b, pp); fo_at(f, pp); fo_at(f, uu); fo_len(f); assert(f.n <= cc0.len()) by { reveal(cbd); } rs_edge(g, f, dn, kk, PrevNbr@, PrevLeaf@, pp, uu, k, p); }
@after prevleaf = ld(&*PrevLeaf, u);
proof { c1 = ColCount@; }
@pre 1
proof { fw_init(f, kk, prevleaf as int); fw_in(f, kk, sp0, prevleaf as int, prevleaf as int); }
@loop 1
invariant
    SetParent@ == sp0, fwalk(f, kk, prevleaf as int, q as int), 0 <= q < f.n, q < sp0.len(), 0 <= f.pos[q as int] < f.n,
decreases f.n - f.pos[q as int],
@head 1
proof { fw_in(f, kk, sp0, prevleaf as int, q as int); fw_step(f, kk, sp0, prevleaf as int, q as int); fo_at(f, sp0[q as int] as int); fw_in(f, kk, sp0, prevleaf as int, sp0[q as int] as int); }
@post 1
proof { fw_end(f, kk, sp0, prevleaf as int, q as int, uu); fo_at(f, prevleaf as int); }
@loop 2
invariant
    fnd(f, kk, SetParent@), SetParent@.len() == sp0.len(), fwalk(f, kk, prevleaf as int, q as int), 0 <= q < f.n, f.pos[q as int] >= k, dsc(f, q as int, uu), dsc(f, prevleaf as int, q as int), dsc(f, prevleaf as int, s as int), dsc(f, s as int, q as int), 0 <= s < f.n,
decreases f.n - f.pos[s as int],
@head 2
proof { fd_short(f, kk, SetParent@, prevleaf as int, q as int, s as int, q); fo_at(f, s as int); }
@post 2
proof { cb_at(f.n, cc0, b, q as int); assert(q != p); ci_leaf(g, f, dn, kk, kk + 1, cc0, PrevNbr@, PrevLeaf@, pp, uu, q as int); cb_two(f.n, cc0, b, pp, (cc0[pp] + 1) as i32, q as int, (cc0[q as int] - 1) as i32); }
@after q = u;
proof { ci_first(g, f, dn, kk, kk + 1, cc0, PrevNbr@, PrevLeaf@, pp, uu); cb_upd(f.n, cc0, b, pp, (cc0[pp] + 1) as i32); }
@exit
proof { if f.fs[pp] <= old(PrevNbr)@[uu] { ci_skip(g, f, dn, kk, kk + 1, cc0, old(PrevNbr)@, old(PrevLeaf)@, pp, uu); cb_up(f.n, cc0, b, b + 1); } }
