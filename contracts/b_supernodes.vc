@unit b_supernodes
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name supernodes
@props P25
@uses snodes
@opts complex isolate spinoff
@requires
0 < A.n < i32::MAX, gwf(A.p@, A.i@, A.n as int),
@ensures
isLower ==> sn_lo(Sn { p: A.p@, i: A.i@, n: A.n as int, lim: if limit == 0 { A.n as int } else { limit as int } }, this.M.supernodes@, res as int),
!isLower ==> sn_up(Sn { p: A.p@, i: A.i@, n: A.n as int, lim: if limit == 0 { A.n as int } else { limit as int } }, this.M.supernodes@, res as int),
isLower ==> forall|a: int, b: int| 0 <= a < b <= res ==> #[trigger] this.M.supernodes@[a] < #[trigger] this.M.supernodes@[b],
final(this).M == (BCSC { supernodes: final(this).M.supernodes, ..old(this).M }),
@entry
let ghost d = Sn { p: A.p@, i: A.i@, n: A.n as int, lim: if limit == 0 { A.n as int } else { limit as int } };
@pre 1
proof { pl_init(d, temp_nodes@); }
@loop 1
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), 0 <= i <= n, parts_lo(d, temp_nodes@, num_nodes as int, i as int),
decreases n - i,
@head 1
let ghost t0 = temp_nodes@; let ghost m0 = num_nodes as int; let ghost x0 = i as int;
proof { part_room(d, t0, m0, x0); }
@loop 1.1
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), x0 == i, pre == i, cur == i + 1 + sim, 0 <= i < n, cur <= n, 0 <= sim, sbound(d, sim + 1), forall|c: int| i < c < cur ==> #[trigger] same_lo(d, i as int, c),
ensures
    cur == n || sim >= limit || !same_lo(d, i as int, cur as int),
decreases n - cur,
@head 1.1
proof { assert(d.p[0] <= d.p[pre as int]); assert(d.p[pre as int] <= d.p[pre + 1]); assert(d.p[pre + 1] <= d.p[n as int]); assert(d.p[0] <= d.p[cur as int]); assert(d.p[cur as int] <= d.p[cur + 1]); assert(d.p[cur + 1] <= d.p[n as int]); assert(d.p[cur + 1] - d.p[cur as int] != d.p[pre + 1] - d.p[pre as int] - (cur - pre) ==> !same_lo(d, i as int, cur as int)) by { reveal(same_lo); } }
@loop 1.1.1
invariant_except_break
    col_sim, forall|e: int| d.p[cur as int] <= e < d.p[cur as int] + j ==> #[trigger] d.i[e] == d.i[e - d.p[cur as int] + d.p[pre as int] + (cur - pre)],
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), 0 <= pre < n, 0 <= cur < n, A.p@.len() > n, 0 <= d.p[pre as int] <= d.p[pre + 1] <= d.p[n as int], 0 <= d.p[cur as int] <= d.p[cur + 1] <= d.p[n as int], d.p[n as int] <= d.i.len(), off_cur == d.p[cur + 1] - d.p[cur as int], off_cur == d.p[pre + 1] - d.p[pre as int] - diff, diff > 0, diff == cur - pre, 0 <= j <= off_cur,
ensures
    col_sim ==> forall|e: int| d.p[cur as int] <= e < d.p[cur + 1] ==> #[trigger] d.i[e] == d.i[e - d.p[cur as int] + d.p[pre as int] + (cur - pre)], !col_sim ==> !same_lo(d, pre as int, cur as int),
decreases off_cur - j,
@head 1.1.1
proof { assert(d.i[d.p[pre as int] + diff + j] != d.i[d.p[cur as int] + j] ==> !same_lo(d, pre as int, cur as int)) by { reveal(same_lo); let e = d.p[cur as int] + j; if d.i[d.p[pre as int] + diff + j] != d.i[e] { assert(d.p[cur as int] <= e < d.p[cur + 1]); } } }
@post 1.1.1
proof { assert(col_sim ==> same_lo(d, pre as int, cur as int)) by { reveal(same_lo); } }
@post 1.1
proof { assert(snode_lo(d, x0, cur as int)); pl_step(d, t0, m0, x0, cur as int, pre); }
@pre 2
proof { pu_init(d, temp_nodes@); }
@loop 2
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), -1 <= i < n, parts_up(d, temp_nodes@, num_nodes as int, i as int),
decreases i + 1,
@head 2
let ghost t0 = temp_nodes@; let ghost m0 = num_nodes as int; let ghost x0 = i as int;
proof { part_room(d, t0, m0, x0); }
@loop 2.1
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), x0 == i, pre == i, cur == i - 1 - sim, 0 <= i < n, -1 <= cur, 0 <= sim, sbound(d, sim + 1), forall|c: int| cur < c < i ==> #[trigger] same_up(d, i as int, c),
ensures
    cur == -1 || sim >= limit || !same_up(d, i as int, cur as int),
decreases cur + 1,
@head 2.1
proof { assert(d.p[0] <= d.p[pre as int]); assert(d.p[pre as int] <= d.p[pre + 1]); assert(d.p[pre + 1] <= d.p[n as int]); assert(d.p[0] <= d.p[cur as int]); assert(d.p[cur as int] <= d.p[cur + 1]); assert(d.p[cur + 1] <= d.p[n as int]); assert(d.p[cur + 1] - d.p[cur as int] != d.p[pre + 1] - d.p[pre as int] - (pre - cur) ==> !same_up(d, i as int, cur as int)) by { reveal(same_up); } }
@loop 2.1.1
invariant_except_break
    col_sim, forall|e: int| d.p[cur + 1] - j <= e < d.p[cur + 1] ==> #[trigger] d.i[e] == d.i[e - d.p[cur + 1] + d.p[pre + 1] - (pre - cur)],
invariant
    d == (Sn { p: A.p@, i: A.i@, n: A.n as int, lim: limit as int }), n == d.n, 0 <= n < i32::MAX, gwf(d.p, d.i, d.n), 0 <= pre < n, 0 <= cur < n, A.p@.len() > n, 0 <= d.p[pre as int] <= d.p[pre + 1] <= d.p[n as int], 0 <= d.p[cur as int] <= d.p[cur + 1] <= d.p[n as int], d.p[n as int] <= d.i.len(), off_cur == d.p[cur + 1] - d.p[cur as int], off_cur == d.p[pre + 1] - d.p[pre as int] - diff, diff > 0, diff == pre - cur, 0 <= j <= off_cur,
ensures
    col_sim ==> forall|e: int| d.p[cur as int] <= e < d.p[cur + 1] ==> #[trigger] d.i[e] == d.i[e - d.p[cur + 1] + d.p[pre + 1] - (pre - cur)], !col_sim ==> !same_up(d, pre as int, cur as int),
decreases off_cur - j,
@head 2.1.1
proof { assert(d.i[d.p[pre + 1] - diff - j - 1] != d.i[d.p[cur + 1] - j - 1] ==> !same_up(d, pre as int, cur as int)) by { reveal(same_up); let e = d.p[cur + 1] - j - 1; if d.i[d.p[pre + 1] - diff - j - 1] != d.i[e] { assert(d.p[cur as int] <= e < d.p[cur + 1]); } } }
@post 2.1.1
proof { assert(col_sim ==> same_up(d, pre as int, cur as int)) by { reveal(same_up); } }
@post 2.1
proof { assert(snode_up(d, x0, cur as int)); pu_step(d, t0, m0, x0, cur as int, pre); }
@before this\.M\.supernodes = new_arb_i32.*
proof { part_room(d, temp_nodes@, num_nodes as int, if isLower { n as int } else { -1 }); }
@exit
proof { if isLower { pl_done(d, temp_nodes@, num_nodes as int, this.M.supernodes@); sn_lo_ok(d, this.M.supernodes@, num_nodes as int); } else { pu_done(d, temp_nodes@, num_nodes as int, this.M.supernodes@); } }
