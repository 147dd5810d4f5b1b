@unit levelset_queue
@src utils/sparse_inspector.cpp
@ns sym_lib
@name buildLevelSet_CSC_Queue
@props P01
@uses lqueue
@opts complex
@rlimit 60
@requires
dag_in(Lp@, Li@, n as int), diag_first(Lp@, Li@, n as int), n > 0,
old(levelPtr)@.len() > n, old(levelSet)@.len() >= n, old(levelPtr)@[0] == 0,
@ensures
0 <= res <= n, 0 <= levelPtr@[res as int] <= n,
levelPtr@[res as int] == n <==> acyclic(Lp@, Li@, n as int),
levelPtr@[res as int] == n ==> level_result(Lp@, Li@, n as int, levelPtr@, levelSet@, res as int),
levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(),
@entry
let ghost N = n as int;
let ghost E = Lp@[N] as int;
let ghost mut d = Lq { p: Lp@, g: Li@, n: N, dead: Seq::new(E as nat, |e: int| false), lv: Seq::new(N as nat, |v: int| -1int), pos: Seq::new(N as nat, |v: int| -1int) };
@loop 1
invariant
    0 <= i <= E, inDegree@.len() == n,
    forall|v: int| 0 <= v < n ==> #[trigger] inDegree@[v] == live(Li@, d.dead, i as int, v),
decreases E - i,
@head 1
proof { live_bounds(Li@, d.dead, i as int, Li@[i as int] as int); }
@pre 2
proof { qfirst_init(inDegree@, dq@); }
@loop 2
invariant
    0 <= i <= n, inDegree@.len() == n, qfirst(inDegree@, dq@, i as int),
decreases n - i,
@head 2
proof { qfirst_step(inDegree@, dq@, i as int); }
@post 2
proof { q_init(d, inDegree@, levelSet@, levelPtr@, dq@); }
@pre 3
proof { q_begin(d, inDegree@, levelSet@, levelPtr@, 0, 0, dq@); }
@loop 3
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), inDegree@.len() == n,
    d.p == Lp@, d.g == Li@, d.n == n, d.dead.len() == E, 0 <= curLevel <= n, 0 <= curLevelCol <= n,
    qtop(d, inDegree@, levelSet@, levelPtr@, curLevel as int, curLevelCol as int, dq@),
decreases n + 1 - curLevel,
@head 3
let ghost c = curLevel as int;
let ghost m0 = curLevelCol as int;
proof { q_begin(d, inDegree@, levelSet@, levelPtr@, curLevel as int, curLevelCol as int, dq@); }
@loop 3.1
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), inDegree@.len() == n,
    d.p == Lp@, d.g == Li@, d.n == n, d.dead.len() == E, 0 <= i <= len, dq@.len() == len - i, curLevelCol == m0 + i, curLevelCol <= n, levelPtr@[c] == m0,
    qcol(d, inDegree@, levelSet@, levelPtr@, c, curLevelCol as int, dq@),
decreases len - i,
@head 3.1
proof { 
    q_take(d, inDegree@, levelSet@, levelPtr@, c, curLevelCol as int, dq@);
    d = Lq { lv: d.lv.update(dq@[0] as int, c), pos: d.pos.update(dq@[0] as int, curLevelCol as int), ..d };
}
@post 3.1
proof { q_level(d, inDegree@, levelSet@, levelPtr@, c, curLevelCol as int, dq@); }
@pre 3.2
proof { q_kcol(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, m0); }
@loop 3.2
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), inDegree@.len() == n,
    d.p == Lp@, d.g == Li@, d.n == n, d.dead.len() == E, curLevel == c + 1, m0 <= l, levelPtr@[c + 1] == curLevelCol, 0 <= curLevelCol <= n,
    qkill(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int, 0, 0),
decreases curLevelCol - l,
@head 3.2
proof { q_kcol(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int); }
@loop 3.2.1
invariant
    inDegree@.len() == n, d.p == Lp@, d.g == Li@, d.n == n, d.dead.len() == E, 0 <= cc < n, d.lv[cc as int] >= 0, d.pos[cc as int] == l, Lp@[cc as int] < j <= Lp@[cc + 1] <= E,
    qkill(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int, cc as int, j as int),
decreases Lp@[cc + 1] - j,
@head 3.2.1
proof {
    q_kedge(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int, cc as int, j as int);
    d = Lq { dead: d.dead.update(j as int, true), ..d };
}
@post 3.2.1
proof { q_knext(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int, cc as int); }
@post 3.2
proof { q_kcol(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int); q_kend(d, inDegree@, levelSet@, levelPtr@, c + 1, curLevelCol as int, dq@, l as int); }
@exit
proof { q_done(d, inDegree@, levelSet@, levelPtr@, curLevel as int, curLevelCol as int, dq@); }
