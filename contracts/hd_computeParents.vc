@unit hd_computeParents
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computeParents
@props P17
@uses etree
@opts complex isolate spinoff
@requires
0 <= n, gwf(Ap@, Ai@, n as int),
@ensures
final(parents)@.len() == n, etree_upto(eg_low(Ap@, Ai@), n as int, final(parents)@), forall|i: int| 0 <= i < n ==> #[trigger] final(parents)@[i] == -1 || i < final(parents)@[i] < n,
@entry
let ghost g = eg_low(Ap@, Ai@);
@pre 1
proof { et_init(g, n as int, parents@, ancestor@); }
@loop 1
invariant
    g == eg_low(Ap@, Ai@), 0 <= n, gwf(Ap@, Ai@, n as int), 0 <= k <= n, parents@.len() == n, ancestor@.len() == n, et_ok(g, n as int, k as int, parents@, ancestor@),
decreases n - k,
@head 1
proof { et_open(g, n as int, k as int, parents@, ancestor@); assert(Ap@[0] <= Ap@[k as int]); assert(Ap@[k as int] <= Ap@[k + 1]); assert(Ap@[k + 1] <= Ap@[n as int]); }
let ghost a0 = ancestor@.update(k as int, -1i32); let ghost mut cu: int = -1;
@pre 1.1
proof { sl_init(Ai@, k as int, ancestor@, Ap@[k as int] as int); }
@loop 1.1
invariant
    g == eg_low(Ap@, Ai@), 0 <= n, gwf(Ap@, Ai@, n as int), 0 <= k < n, parents@.len() == n, ancestor@.len() == n, et_mid(g, n as int, k as int, a0, parents@, ancestor@, cu), cu == -1 || cu >= k, 0 <= Ap@[k as int] <= p <= Ap@[k + 1] <= Ap@[n as int], seen_low(Ai@, k as int, ancestor@, Ap@[k as int] as int, p as int),
decreases Ap@[k + 1] - p,
@head 1.1
proof { assert(0 <= Ai@[p as int] < n); if Ai@[p as int] < k { assert(eg_in(Ap@, Ai@, Ap@[k as int] as int, Ap@[k + 1] as int, Ai@[p as int] as int)); assert(g(Ai@[p as int] as int, k as int)); et_start(g, n as int, k as int, a0, parents@, ancestor@, cu, Ai@[p as int] as int); } else { et_cur(g, n as int, k as int, a0, parents@, ancestor@, cu, Ai@[p as int] as int); } cu = Ai@[p as int] as int; }
@loop 1.1.1
invariant
    0 <= Ai@[p as int] < n, g == eg_low(Ap@, Ai@), 0 <= n, gwf(Ap@, Ai@, n as int), 0 <= k < n, parents@.len() == n, ancestor@.len() == n, et_mid(g, n as int, k as int, a0, parents@, ancestor@, i as int), i >= -1, 0 <= Ap@[k as int] <= p < Ap@[k + 1] <= Ap@[n as int], seen_low(Ai@, k as int, ancestor@, Ap@[k as int] as int, p as int), i == Ai@[p as int] || 0 <= Ai@[p as int] < k && ancestor@[Ai@[p as int] as int] == k,
decreases (if i == -1 { 0 } else { n - i }),
@head 1.1.1
proof { et_step(g, n as int, k as int, a0, parents@, ancestor@, i as int, k); sl_keep(Ai@, k as int, ancestor@, Ap@[k as int] as int, p as int, i as int, k); }
@post 1.1.1
proof { cu = i as int; sl_step(Ai@, k as int, ancestor@, Ap@[k as int] as int, p as int); }
@post 1.1
proof { sl_done(Ap@, Ai@, k as int, ancestor@); et_close(g, n as int, k as int, a0, parents@, ancestor@, cu); }
@exit
proof { et_done(g, n as int, parents@, ancestor@); }
