@unit make_unique
@src src/lbc_utils.cpp
@ns sym_lib
@name make_unique
@props P06
@uses pack
@requires
old(list)@.len() < i32::MAX, valid_list(node2Par@, old(list)@, old(ws)@.len() as int),
forall|p: int| 0 <= p < old(ws)@.len() ==> !(#[trigger] old(ws)@[p]),
@ensures
ws@.len() == old(ws)@.len(), forall|p: int| 0 <= p < ws@.len() ==> !(#[trigger] ws@[p]),
distinct_parts(node2Par@, list@, list@.len() as int), same_parts(node2Par@, old(list)@, list@), least_part(node2Par@, list@, list@.len() as int, res as int),
@entry
let ghost l0 = list@; let ghost w0 = ws@.len() as int; let ghost mut w1: Seq<bool> = ws@;
@pre 1
proof { uniq_init(node2Par@, list@, ws@); }
@loop 1
invariant
    0 <= ii <= list@.len(), list@.len() <= l0.len(), l0.len() < i32::MAX, ws@.len() == w0,
    uniq_state(node2Par@, l0, list@, ws@, ii as int, min as int),
decreases list@.len() - ii,
@head 1
proof { uniq_get(node2Par@, l0, list@, ws@, ii as int, min as int);
    if ws@[part(node2Par@, list@, ii as int)] { uniq_drop(node2Par@, l0, list@, ws@, ii as int, min as int); } else { uniq_take(node2Par@, l0, list@, ws@, ii as int, min as int); } }
@post 1
proof { uniq_done(node2Par@, l0, list@, ws@, list@.len() as int, min as int); w1 = ws@; }
@loop 2
invariant
    0 <= ii <= list@.len(), list@.len() < i32::MAX, ws@.len() == w0, w1.len() == w0, valid_list(node2Par@, list@, w0), flags(node2Par@, list@, list@.len() as int, w1),
    forall|p: int| 0 <= p < w0 ==> #[trigger] ws@[p] == (w1[p] && !has_part(node2Par@, list@, ii as int, p)),
decreases list@.len() - ii,
@head 2
proof { assert(part(node2Par@, list@, ii as int) < w0); }
let ghost wa = ws@; let ghost ia = ii as int;
@end 2
proof {
    assert forall|p: int| 0 <= p < w0 implies #[trigger] ws@[p] == (w1[p] && !has_part(node2Par@, list@, ii as int, p)) by {
        assert(wa[p] == (w1[p] && !has_part(node2Par@, list@, ia, p)));
        if p == tmp { assert(part(node2Par@, list@, ia) == p); }
        else {
            if has_part(node2Par@, list@, ii as int, p) { let k = choose|k: int| 0 <= k < ii && #[trigger] part(node2Par@, list@, k) == p; assert(k < ia); assert(has_part(node2Par@, list@, ia, p)); }
            if has_part(node2Par@, list@, ia, p) { let k = choose|k: int| 0 <= k < ia && #[trigger] part(node2Par@, list@, k) == p; assert(k < ii); assert(has_part(node2Par@, list@, ii as int, p)); }
        }
    }
}
@exit
proof {
    assert forall|p: int| 0 <= p < ws@.len() implies !(#[trigger] ws@[p]) by { assert(w1[p] == has_part(node2Par@, list@, list@.len() as int, p)); }
}
