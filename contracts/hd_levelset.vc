@unit hd_levelset
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name build_levelSet_CSC
@props P01
@uses lset
@opts complex
@rlimit 60
@requires
dag_in(Lp@, Li@, n as int),
old(levelPtr)@.len() > n, old(levelSet)@.len() >= n, old(levelPtr)@[0] == 0,
old(node_to_level)@.len() >= n,
@ensures
res == -1 || 0 <= res <= n,
res == -1 <==> !acyclic(Lp@, Li@, n as int),
res >= 0 ==> level_result_nl(Lp@, Li@, n as int, levelPtr@, levelSet@, node_to_level@, res as int),
levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(),
node_to_level@.len() == old(node_to_level)@.len(),
@entry
let ghost N = n as int;
let ghost p = Lp@;
let ghost g = Li@;
let ghost E = p[N] as int;
let ghost mut dead: Seq<bool> = Seq::new(E as nat, |e: int| false);
let ghost mut lv: Seq<int> = Seq::new(N as nat, |v: int| -1int);
let ghost mut pos: Seq<int> = Seq::new(N as nat, |v: int| -1int);
@loop 1
invariant
    0 <= i <= E, inDegree@.len() == n,
    forall|v: int| 0 <= v < n ==> #[trigger] inDegree@[v] == live(g, dead, i as int, v),
decreases E - i,
@head 1
proof { live_bounds(g, dead, i as int, g[i as int] as int); }
@pre 2
proof { lset_init(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@); }
@loop 2
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), visited@.len() == n, inDegree@.len() == n, lv.len() == n, pos.len() == n,
    n > 0 ==> end < n, 0 <= begin <= n, begin <= end ==> 0 <= end < n && lv[begin as int] < 0, 0 <= cur_level <= n,
    forall|v: int| 0 <= v < N && (v < begin || v > end) ==> #[trigger] lv[v] >= 0,
    lstate(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int),
    node_to_level@.len() == old(node_to_level)@.len(), forall|v: int| 0 <= v < n && #[trigger] lv[v] >= 0 ==> node_to_level@[v] == lv[v],
decreases n + 1 - cur_level,
@head 2
proof { scan_begin(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int, begin as int); }
@loop 2.1
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), visited@.len() == n, inDegree@.len() == n, lv.len() == n, pos.len() == n,
    begin <= i <= end + 1,
    forall|v: int| 0 <= v < N && (v < begin || v > end) ==> #[trigger] lv[v] >= 0,
    sstate(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int),
    node_to_level@.len() == old(node_to_level)@.len(), forall|v: int| 0 <= v < n && #[trigger] lv[v] >= 0 ==> node_to_level@[v] == lv[v],
decreases end + 1 - i,
@head 2.1
proof {
    scan_facts(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int);
    if inDegree@[i as int] == 1 && !visited@[i as int] {
        scan_hit(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int, begin as int, i as int);
        lv = lv.update(i as int, cur_level as int);
        pos = pos.update(i as int, cur_levelCol as int);
    }
}
@post 2.1
proof { scan_end(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int, begin as int, end + 1); }
@loop 2.2
invariant_except_break
    begin < n,
invariant
    0 <= begin <= n,
    forall|v: int| 0 <= v < begin ==> #[trigger] lv[v] >= 0,
ensures
    begin >= n || inDegree@[begin as int] != 1,
decreases n - begin,
@loop 2.3
invariant
    0 <= end < n, begin <= end + 1 || begin == n || end < begin,
    forall|v: int| end < v < N ==> #[trigger] lv[v] >= 0,
decreases end + 1,
@pre 2.4
let ghost c = cur_level as int;
let ghost m = cur_levelCol as int;
@loop 2.4
invariant
    levelPtr@.len() == old(levelPtr)@.len(), levelSet@.len() == old(levelSet)@.len(), inDegree@.len() == n,
    levelPtr@[c - 1] <= l,
    kstate(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int, 0, 0),
decreases levelPtr@[c] - l,
@head 2.4
proof { kill_col(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int); }
@loop 2.4.1
invariant
    0 <= cc < n, lv[cc as int] >= 0, pos[cc as int] == l, p[cc as int] <= j <= p[cc + 1], inDegree@.len() == n,
    kstate(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int, cc as int, j as int),
decreases p[cc + 1] - j,
@head 2.4.1
proof {
    kill_edge(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int, cc as int, j as int);
    if g[j as int] != cc { dead = dead.update(j as int, true); }
}
@post 2.4.1
proof { kill_next(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int, cc as int); }
@post 2.4
proof { kill_end(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, c, m, l as int); }
@exit
proof { if _res >= 0 { lset_done(p, g, N, dead, lv, pos, inDegree@, visited@, levelSet@, levelPtr@, cur_level as int, cur_levelCol as int); } }
