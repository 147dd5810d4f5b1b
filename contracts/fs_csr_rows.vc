@unit fs_csr_rows
@src src/group_utils.cpp
@ns sym_lib
@name fs_csr_inspector_dep
@sig (int, int *, int *, std
@props P10
@uses deps
@requires
n >= 0, gwf(Lp@, Li@, n as int), forall|c: int| 0 <= c < n ==> #[trigger] Lp@[c] < Lp@[c + 1], old(DAG)@.len() >= n,
@ensures
DAG@.len() == old(DAG)@.len(),
forall|v: int, w: i32| 0 <= v < DAG@.len() ==> #[trigger] times(DAG@, v, w) == times(old(DAG)@, v, w) + dep_rows(Lp@, Li@, n as int, v, w as int),
@entry
let ghost d0 = DAG@;
@loop 1
invariant
    0 <= i <= n, gwf(Lp@, Li@, n as int), forall|c: int| 0 <= c < n ==> #[trigger] Lp@[c] < Lp@[c + 1], DAG@.len() == d0.len(), d0.len() >= n,
    forall|v: int, w: i32| 0 <= v < DAG@.len() ==> #[trigger] times(DAG@, v, w) == times(d0, v, w) + dep_rows(Lp@, Li@, i as int, v, w as int),
decreases n - i,
@head 1
let ghost d1 = DAG@;
@loop 1.1
invariant
    0 <= i < n, gwf(Lp@, Li@, n as int), DAG@.len() == d0.len(), d0.len() >= n, Lp@[i as int] <= k <= Lp@[i + 1] - 1,
    forall|v: int, w: i32| 0 <= v < DAG@.len() ==> #[trigger] times(DAG@, v, w) == times(d1, v, w) + dep_r(Li@, i as int, Lp@[i as int] as int, k as int, v, w as int),
decreases Lp@[i + 1] - k,
@head 1.1
let ghost d2 = DAG@;
proof { assert(0 <= Li@[k as int] < n); }
@tail 1.1
proof { if sid != i { times_push(d2, DAG@, sid as int, i); } }
