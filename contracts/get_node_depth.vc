@unit get_node_depth
@src utils/sparse_utilities.cpp
@ns sym_lib
@name get_node_depth
@props P02
@uses tree
@requires
forest(tree@, n as int), 0 <= node < n,
weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int),
@ensures
weight@.len() == 0 ==> res == depth(tree@, n as int, node as int),
weight@.len() > 0 ==> res == pw(tree@, weight@, n as int, node as int),
@entry
let ghost node0 = node as int;
proof { if weight@.len() > 0 { pw_ge0(tree@, weight@, n as int, node0); assert(pw(tree@, weight@, n as int, node0) <= i32::MAX); } depth_bound(tree@, n as int, node0); }
@loop 1
invariant
    forest(tree@, n as int), 0 <= node < n,
    weight@.len() > 0 ==> weights_ok(tree@, weight@, n as int),
    0 <= level,
    weight@.len() == 0 ==> level + depth(tree@, n as int, node as int) == depth(tree@, n as int, node0) && depth(tree@, n as int, node0) < n,
    weight@.len() > 0 ==> level + pw(tree@, weight@, n as int, node as int) - weight@[node as int] == pw(tree@, weight@, n as int, node0) && pw(tree@, weight@, n as int, node0) <= i32::MAX,
decreases n - node,
@head 1
proof {
    let u = tree@[node as int] as int;
    depth_bound(tree@, n as int, u);
    if weight@.len() > 0 {
        assert(0 <= weight@[u]); assert(0 <= weight@[node as int]);
        if tree@[u] >= 0 { pw_ge0(tree@, weight@, n as int, tree@[u] as int); }
        assert(pw(tree@, weight@, n as int, node as int) == weight@[node as int] + pw(tree@, weight@, n as int, u));
        assert(pw(tree@, weight@, n as int, u) >= weight@[u]);
        assert(level + weight@[u] <= pw(tree@, weight@, n as int, node0));
    }
}
