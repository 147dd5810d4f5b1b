@unit get_tree_height
@src utils/sparse_utilities.cpp
@ns sym_lib
@name get_tree_height
@props P02
@uses tree
@callee get_node_depth=get_node_depth
@requires
forest(tree@, n as int), counts(tree@, nChild1@, n as int),
weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int),
@ensures
forall|v: int| 0 <= v < n ==> #[trigger] pathlen(tree@, weight@, n as int, v) <= res,
res == 0 || exists|v: int| 0 <= v < n && #[trigger] pathlen(tree@, weight@, n as int, v) == res,
@loop 1
invariant
    0 <= i <= n, forest(tree@, n as int), weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int), counts(tree@, nChild1@, n as int),
    forall|v: int| 0 <= v < i && nChild1@[v] == 0 ==> #[trigger] pathlen(tree@, weight@, n as int, v) <= maxLen,
    maxLen == 0 || exists|v: int| 0 <= v < n && #[trigger] pathlen(tree@, weight@, n as int, v) == maxLen,
decreases n - i,
@tail 1
proof { if nChild1@[i as int] == 0 { assert(pathlen(tree@, weight@, n as int, i as int) <= maxLen); } }
@exit
proof {
    let w = weight@; let t = tree@; let nn = n as int;
    if w.len() > 0 {
        assert forall|u: int| 0 <= u < nn && nChild1@[u] == 0 implies #[trigger] pw(t, w, nn, u) <= maxLen by { assert(pathlen(t, w, nn, u) <= maxLen); }
    } else {
        assert forall|u: int| 0 <= u < nn && nChild1@[u] == 0 implies #[trigger] depth(t, nn, u) <= maxLen by { assert(pathlen(t, w, nn, u) <= maxLen); }
    }
    assert forall|v: int| 0 <= v < nn implies #[trigger] pathlen(t, w, nn, v) <= maxLen by {
        if w.len() > 0 { leaf_boundw(t, nChild1@, w, nn, maxLen as int, v); } else { leaf_bound(t, nChild1@, nn, maxLen as int, v); }
    }
}
