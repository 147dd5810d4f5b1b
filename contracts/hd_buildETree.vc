@unit hd_buildETree
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name buildETree
@props P17
@uses etree
@opts complex isolate
@requires
A.n <= i32::MAX / 2, gwf(A.p@, A.i@, A.n as int),
@ensures
exists|par: Seq<i32>| #[trigger] par.len() == A.n && etree_upto(eg_low(A.p@, A.i@), A.n as int, par) && tree_list(par, A.n as int, final(tree_ptr)@, final(tree_set)@), *final(nedges) == final(tree_set)@.len(), final(tree_ptr)@.len() == A.n + 1,
@entry
let ghost mut tpn = Seq::<i32>::empty();
@pre 1
proof { tl_init(parents@, tree_ptr@, tree_set@); }
@loop 1
invariant
    0 <= n <= i32::MAX / 2, n == A.n, parents@.len() == n, 0 <= i <= n, tl_upto(parents@, i as int, tree_ptr@, tree_set@), *nedges == tree_set@.len(), *nedges <= 2 * i, tree_ptr@.len() == i, etree_upto(eg_low(A.p@, A.i@), n as int, parents@),
decreases n - i,
@head 1
let ghost tp0 = tree_ptr@; let ghost ts0 = tree_set@;
@tail 1
proof { tl_step(parents@, i as int, tp0, ts0, tree_ptr@, tree_set@, ts0.len() as i32); }
@post 1
proof { tpn = tree_ptr@; }
@exit
proof { assert(tree_ptr@.drop_last() =~= tpn); tl_close(parents@, n as int, tree_ptr@, tree_set@); assert(parents@.len() == A.n); }
