@unit et_update
@src utils/etree.cpp
@ns sym_lib
@name update_etree
@props P17
@uses etree
@opts complex
@requires
0 <= k < i, i < old(Parent)@.len(), et_ord(old(Ancestor)@, i as int),
@ensures
et_moved(i as int, k as int, old(Parent)@, old(Ancestor)@, final(Parent)@, final(Ancestor)@),
@entry
let ghost k0 = k as int; let ghost p0 = Parent@; let ghost a0 = Ancestor@;
proof { ew_init(i as int, k0, p0, a0); eo_at(a0, i as int, k0); }
@loop 1
invariant
    0 <= k0 <= k < i, i < p0.len(), p0.len() == Parent@.len(), a0.len() == Ancestor@.len(), i < a0.len(), et_ord(Ancestor@, i as int), et_walked(i as int, k0, p0, a0, Parent@, Ancestor@, k as int), et_same(i as int, a0, Ancestor@), et_same(i as int, p0, Parent@), seen_kept(i as int, a0, Ancestor@), k == k0 || Ancestor@[k0] == i,
ensures false,
decreases i - k,
@head 1
proof { eo_at(Ancestor@, i as int, k as int); ew_step(i as int, k0, p0, a0, Parent@, Ancestor@, k as int, i); }
