@unit costComputation
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name costComputation
@props P19
@uses cost
@rlimit 80
@opts isolate
@requires
cost_ctx(kernel as int, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int),
@ensures
cost@.len() == nodes,
forall|g: int| 0 <= g < nodes ==> #[trigger] cost@[g] == i2f_s(exact_cost(kernel as int, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
@entry
let ghost N = CSC_Lp@.len() - 1;
let ghost K = kernel as int;
@loop 1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K <= 1, Lp@ == (if K == 0 { CSR_Lp@ } else { CSC_Lp@ }),
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 1
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K <= 1, Lp@ == (if K == 0 { CSR_Lp@ } else { CSC_Lp@ }), 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 1.1
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    fadd_exact(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, v));
    assert(Lp@[v] <= Lp@[v + 1] <= Lp@[N]); assert(0 <= Lp@[v]);
}
@loop 2
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K <= 1, Lp@ == (if K == 0 { CSR_Lp@ } else { CSC_Lp@ }),
    0 <= row <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < row ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| row <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - row,
@head 2
proof {
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, row as int);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, row as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, row as int));
    fadd_exact(0, node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, row as int));
    assert(Lp@[row as int] <= Lp@[row + 1] <= Lp@[N]); assert(0 <= Lp@[row as int]);
}
@loop 3
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 2,
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 3
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 3.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 2, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 3.1
let ghost G = group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int);
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 3.1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 2, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int], 0 <= node < N, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N], group_ptr@[group as int] <= node_ptr < group_ptr@[group + 1], node == group_set@[node_ptr as int], G == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), 0 <= G, G + node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(G + wsum(CSC_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 3.1.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSC_Lp@[d] <= CSC_Lp@[d + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[d]);
    wsum_le(CSC_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSC_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(G + wsum(CSC_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSC_Lp@[d + 1] - CSC_Lp@[d]);
}
@loop 4
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 2,
    0 <= node <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - node,
@head 4
proof {
    let v = node as int;
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, node as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int));
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 4.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 2, 0 <= node < nodes, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N],node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[node as int] == i2f_s(wsum(CSC_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 4.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSC_Lp@[d] <= CSC_Lp@[d + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[d]);
    wsum_le(CSC_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSC_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(wsum(CSC_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSC_Lp@[d + 1] - CSC_Lp@[d]);
}
@loop 5
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 3,
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 5
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 5.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 3, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 5.1
let ghost G = group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int);
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    assert(CSC_Lp@[v] <= CSC_Lp@[v + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[v]);
}
@loop 5.1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 3, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int], 0 <= node < N, 0 <= CSC_Lp@[node as int] <= CSC_Lp@[node + 1] <= CSC_Lp@[N], group_ptr@[group as int] <= node_ptr < group_ptr@[group + 1], node == group_set@[node_ptr as int], G == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), 0 <= G, G + node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSC_Lp@[node as int] <= j <= CSC_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(G + wsum(CSC_Lp@, CSC_Li@, CSC_Lp@[node as int] as int, j as int)),
decreases CSC_Lp@[node + 1] - j,
@head 5.1.1
proof {
    let d = CSC_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSC_Lp@[d] <= CSC_Lp@[d + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[d]);
    wsum_le(CSC_Lp@, CSC_Li@, N, CSC_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSC_Lp@, CSC_Li@, N, CSC_Lp@[node as int] as int, j + 1, CSC_Lp@[node + 1] as int);
    fadd_exact(G + wsum(CSC_Lp@, CSC_Li@, CSC_Lp@[node as int] as int, j as int), CSC_Lp@[d + 1] - CSC_Lp@[d]);
}
@loop 6
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 3,
    0 <= node <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - node,
@head 6
proof {
    let v = node as int;
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, node as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int));
    assert(CSC_Lp@[v] <= CSC_Lp@[v + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[v]);
}
@loop 6.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 3, 0 <= node < nodes, 0 <= CSC_Lp@[node as int] <= CSC_Lp@[node + 1] <= CSC_Lp@[N],node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSC_Lp@[node as int] <= j <= CSC_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[node as int] == i2f_s(wsum(CSC_Lp@, CSC_Li@, CSC_Lp@[node as int] as int, j as int)),
decreases CSC_Lp@[node + 1] - j,
@head 6.1
proof {
    let d = CSC_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSC_Lp@[d] <= CSC_Lp@[d + 1] <= CSC_Lp@[N]); assert(0 <= CSC_Lp@[d]);
    wsum_le(CSC_Lp@, CSC_Li@, N, CSC_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSC_Lp@, CSC_Li@, N, CSC_Lp@[node as int] as int, j + 1, CSC_Lp@[node + 1] as int);
    fadd_exact(wsum(CSC_Lp@, CSC_Li@, CSC_Lp@[node as int] as int, j as int), CSC_Lp@[d + 1] - CSC_Lp@[d]);
}
@loop 7
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 4,
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 7
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 7.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 4, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 7.1
let ghost G = group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int);
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 7.1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 4, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int], 0 <= node < N, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N], group_ptr@[group as int] <= node_ptr < group_ptr@[group + 1], node == group_set@[node_ptr as int], G == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), 0 <= G, G + node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 7.1.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
@loop 8
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 4,
    0 <= node <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - node,
@head 8
proof {
    let v = node as int;
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, node as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int));
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 8.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 4, 0 <= node < nodes, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N],node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[node as int] == i2f_s(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 8.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
@loop 9
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 5,
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 9
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 9.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 5, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 9.1
let ghost G = group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int);
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 9.1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 5, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int], 0 <= node < N, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N], group_ptr@[group as int] <= node_ptr < group_ptr@[group + 1], node == group_set@[node_ptr as int], G == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), 0 <= G, G + node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 9.1.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
@loop 10
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 5,
    0 <= node <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - node,
@head 10
proof {
    let v = node as int;
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, node as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int));
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 10.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 5, 0 <= node < nodes, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N],node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[node as int] == i2f_s(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 10.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
@loop 11
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 6,
    0 <= group <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - group,
@head 11
proof { assert(0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int]); }
@loop 11.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 6, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int],
    group_ptr@[group as int] <= node_ptr <= group_ptr@[group + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int)),
decreases group_ptr@[group + 1] - node_ptr,
@head 11.1
let ghost G = group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int);
proof {
    let v = group_set@[node_ptr as int] as int;
    node_cost_ge(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, N, v);
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, group as int) == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, group_ptr@[group + 1] as int));
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr as int, node_ptr + 1);
    group_cost_le(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, N, group_ptr@[group as int] as int, node_ptr + 1, group_ptr@[group + 1] as int);
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 11.1.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), grouped, K == 6, 0 <= group < nodes, 0 <= group_ptr@[group as int] <= group_ptr@[group + 1] <= group_ptr@[nodes as int], 0 <= node < N, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N], group_ptr@[group as int] <= node_ptr < group_ptr@[group + 1], node == group_set@[node_ptr as int], G == group_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_set@, group_ptr@[group as int] as int, node_ptr as int), 0 <= G, G + node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < group ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| group < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[group as int] == i2f_s(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 11.1.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(G + wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
@loop 12
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 6,
    0 <= node <= nodes, cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node <= g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
decreases nodes - node,
@head 12
proof {
    let v = node as int;
    assert(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, node as int) == node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int));
    assert(CSR_Lp@[v] <= CSR_Lp@[v + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[v]);
}
@loop 12.1
invariant
    N == CSC_Lp@.len() - 1, K == kernel, cost_ctx(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, nodes as int), !grouped, K == 6, 0 <= node < nodes, 0 <= CSR_Lp@[node as int] <= CSR_Lp@[node + 1] <= CSR_Lp@[N],node_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, node as int) <= 0x20_0000_0000_0000,
    CSR_Lp@[node as int] <= j <= CSR_Lp@[node + 1],
    cost@.len() == nodes,
    forall|g: int| 0 <= g < node ==> #[trigger] cost@[g] == i2f_s(exact_cost(K, CSC_Lp@, CSC_Li@, CSR_Lp@, CSR_Li@, group_ptr@, group_set@, grouped, g)),
    forall|g: int| node < g < nodes ==> #[trigger] cost@[g] == i2f_s(0),
    cost@[node as int] == i2f_s(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int)),
decreases CSR_Lp@[node + 1] - j,
@head 12.1
proof {
    let d = CSR_Li@[j as int] as int;
    assert(0 <= d < N); assert(CSR_Lp@[d] <= CSR_Lp@[d + 1] <= CSR_Lp@[N]); assert(0 <= CSR_Lp@[d]);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j as int, j + 1);
    wsum_le(CSR_Lp@, CSR_Li@, N, CSR_Lp@[node as int] as int, j + 1, CSR_Lp@[node + 1] as int);
    fadd_exact(wsum(CSR_Lp@, CSR_Li@, CSR_Lp@[node as int] as int, j as int), CSR_Lp@[d + 1] - CSR_Lp@[d]);
}
