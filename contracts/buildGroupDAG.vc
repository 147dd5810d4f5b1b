@unit buildGroupDAG
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name buildGroupDAG
@props P11
@uses gdag
@requires
0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX,
@ensures
exists|inv: Seq<i32>| #[trigger] group_graph(group_DAG_ptr@, group_DAG_set@, group_ptr@, group_set@, inv, DAG_ptr@, DAG_set@, ngroups as int),
@entry
let ghost mut inv: Seq<i32> = Seq::empty();
@loop 1
invariant
    0 <= g <= ngroups, 0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX, group_inv@.len() == n, inv_of(group_ptr@, group_set@, group_inv@, g as int),
decreases ngroups - g,
@head 1
proof { assert(group_ptr@[0] <= group_ptr@[g as int]); assert(group_ptr@[g as int] <= group_ptr@[g + 1]); assert(group_ptr@[g + 1] <= group_ptr@[ngroups as int]); }
@loop 1.1
invariant
    0 <= g < ngroups, 0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX, group_inv@.len() == n, 0 <= group_ptr@[g as int] <= i <= group_ptr@[g + 1], group_ptr@[g + 1] <= n, inv_of(group_ptr@, group_set@, group_inv@, g as int),
    forall|q: int| group_ptr@[g as int] <= q < i ==> group_inv@[#[trigger] group_set@[q] as int] == g,
decreases group_ptr@[g + 1] - i,
@head 1.1
let ghost v0 = group_inv@;
@tail 1.1
proof {
    assert forall|h: int, q: int| 0 <= h < g && #[trigger] in_part(group_ptr@, h, q) implies group_inv@[group_set@[q] as int] == h by {
        assert(group_ptr@[0] <= group_ptr@[h]); assert(group_ptr@[h + 1] <= group_ptr@[g as int]); assert(v0[group_set@[q] as int] == h); assert(group_set@[q] != group_set@[i as int]);
    }
    assert forall|q: int| group_ptr@[g as int] <= q < i + 1 implies group_inv@[#[trigger] group_set@[q] as int] == g by { if q < i { assert(group_set@[q] != group_set@[i as int]); assert(v0[group_set@[q] as int] == g); } }
}
@tail 1
proof {
    assert forall|h: int, q: int| 0 <= h < g + 1 && #[trigger] in_part(group_ptr@, h, q) implies group_inv@[group_set@[q] as int] == h by { if h < g { } else { assert(group_ptr@[g as int] <= q); } }
}
@post 1
proof { inv = group_inv@; }
@pre 2
proof { lists_init(DAG@, group_ptr@, group_set@, inv, DAG_ptr@, DAG_set@); }
@loop 2
invariant
    0 <= g <= ngroups, 0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX, group_inv@ == inv, inv.len() == n, DAG@.len() == ngroups, lists_ok(DAG@, group_ptr@, group_set@, inv, DAG_ptr@, DAG_set@, g as int),
    nnz == cat(DAG@, 0, g as int).len(), nnz <= dsum(group_set@, DAG_ptr@, group_ptr@[g as int] as int),
    forall|k: int| g <= k < ngroups ==> (#[trigger] DAG@[k])@ == Seq::<i32>::empty(),
decreases ngroups - g,
@head 2
let ghost d0 = DAG@; let ghost mut l2: Seq<i32> = Seq::empty();
proof { assert(group_ptr@[0] <= group_ptr@[g as int]); assert(group_ptr@[g as int] <= group_ptr@[g + 1]); assert(group_ptr@[g + 1] <= group_ptr@[ngroups as int]); assert(DAG@[g as int]@.to_set() =~= Set::<i32>::empty()); }
@loop 2.1
invariant
    0 <= g < ngroups, 0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX, group_inv@ == inv, inv.len() == n, DAG@.len() == ngroups, 0 <= group_ptr@[g as int] <= node_ptr <= group_ptr@[g + 1], group_ptr@[g + 1] <= n,
    d0.len() == ngroups, forall|k: int| 0 <= k < ngroups && k != g ==> #[trigger] DAG@[k] == d0[k],
    DAG@[g as int]@.to_set() == mset(group_set@, inv, DAG_ptr@, DAG_set@, group_ptr@[g as int] as int, node_ptr as int),
    DAG@[g as int]@.len() == dsum(group_set@, DAG_ptr@, node_ptr as int) - dsum(group_set@, DAG_ptr@, group_ptr@[g as int] as int),
decreases group_ptr@[g + 1] - node_ptr,
@head 2.1
let ghost nd = group_set@[node_ptr as int] as int; let ghost l0 = DAG@[g as int]@; let ghost ms = mset(group_set@, inv, DAG_ptr@, DAG_set@, group_ptr@[g as int] as int, node_ptr as int);
proof { assert(0 <= group_set@[node_ptr as int] < n); assert(DAG_ptr@[0] <= DAG_ptr@[nd]); assert(DAG_ptr@[nd] <= DAG_ptr@[nd + 1]); assert(DAG_ptr@[nd + 1] <= DAG_ptr@[n as int]); assert(ms.union(Set::<i32>::empty()) =~= ms); }
@loop 2.1.1
invariant
    0 <= g < ngroups, 0 <= ngroups, ngroups < i32::MAX, cuts(group_ptr@, ngroups as int), group_ptr@[ngroups as int] == n, is_perm(group_set@, n as int), gwf(DAG_ptr@, DAG_set@, n as int), n < i32::MAX, group_inv@ == inv, inv.len() == n, DAG@.len() == ngroups, 0 <= node < n, node == nd, 0 <= DAG_ptr@[nd] <= child_ptr <= DAG_ptr@[nd + 1], DAG_ptr@[nd + 1] <= DAG_ptr@[n as int],
    d0.len() == ngroups, forall|k: int| 0 <= k < ngroups && k != g ==> #[trigger] DAG@[k] == d0[k],
    DAG@[g as int]@.to_set() == ms.union(tset(inv, DAG_set@, DAG_ptr@[nd] as int, child_ptr as int)),
    DAG@[g as int]@.len() == l0.len() + child_ptr - DAG_ptr@[nd],
decreases DAG_ptr@[nd + 1] - child_ptr,
@head 2.1.1
let ghost l1 = DAG@[g as int]@;
proof { assert(0 <= DAG_set@[child_ptr as int] < n); }
@tail 2.1.1
proof {
    push_set(l1, child);
    assert(ms.union(tset(inv, DAG_set@, DAG_ptr@[nd] as int, child_ptr as int)).insert(child) =~= ms.union(tset(inv, DAG_set@, DAG_ptr@[nd] as int, child_ptr + 1)));
}
@post 2.1
proof { l2 = DAG@[g as int]@; dsum_le(group_set@, DAG_ptr@, n as int, group_ptr@[g + 1] as int); dsum_le(group_set@, DAG_ptr@, n as int, group_ptr@[g as int] as int); }
@tail 2
proof {
    lists_step(d0, DAG@, group_ptr@, group_set@, inv, DAG_ptr@, DAG_set@, g as int);
}
@before dedup(&mut DAG[g as usize]);
proof { perm_set(DAG@[g as int]@, l2); }
@pre 3
proof { cat_mono(DAG@, 0, ngroups as int); dsum_le(group_set@, DAG_ptr@, n as int, n as int); }
@loop 3
invariant
    0 <= cti <= ngroups, ngroups < i32::MAX, DAG@.len() == ngroups, 0 <= edges == cat(DAG@, 0, cti as int).len(), cat(DAG@, 0, ngroups as int).len() == group_DAG_set@.len(), group_DAG_set@.len() <= i32::MAX, group_DAG_ptr@.len() == ngroups + 1,
    forall|k: int| 0 <= k < cti ==> #[trigger] group_DAG_ptr@[k] == cat(DAG@, 0, k).len(),
    forall|x: int| 0 <= x < edges ==> #[trigger] group_DAG_set@[x] == cat(DAG@, 0, cti as int)[x],
decreases ngroups - cti,
@head 3
proof { cat_mono(DAG@, cti as int, ngroups as int); cat_mono(DAG@, cti + 1, ngroups as int); cat_mono(DAG@, cti as int, cti + 1); assert(cat(DAG@, 0, cti + 1) == cat(DAG@, 0, cti as int) + DAG@[cti as int]@); }
@loop 3.1
invariant
    0 <= cti < ngroups, ngroups < i32::MAX, DAG@.len() == ngroups, 0 <= ctj <= DAG@[cti as int]@.len(), cat(DAG@, 0, cti + 1) == cat(DAG@, 0, cti as int) + DAG@[cti as int]@, cat(DAG@, 0, cti + 1).len() <= group_DAG_set@.len(), group_DAG_set@.len() <= i32::MAX, edges == cat(DAG@, 0, cti as int).len() + ctj,
    cat(DAG@, 0, ngroups as int).len() == group_DAG_set@.len(), 
    forall|x: int| 0 <= x < edges ==> #[trigger] group_DAG_set@[x] == cat(DAG@, 0, cti + 1)[x],
decreases DAG@[cti as int]@.len() - ctj,
@exit
proof {
    gdag_done(DAG@, group_DAG_ptr@, group_DAG_set@, group_ptr@, group_set@, inv, DAG_ptr@, DAG_set@, ngroups as int);
}
