@unit node2level
@src src/hdagg/hdagg.cpp
@ns HDAGG
@name computingNode2Level
@props P01
@uses lset
@requires
nlevels >= 0, num_nodes >= 0, LevelPtr@.len() > nlevels,
forall|a: int, b: int| 0 <= a <= b <= nlevels ==> 0 <= #[trigger] LevelPtr@[a] <= #[trigger] LevelPtr@[b],
LevelPtr@[nlevels as int] <= LevelSet@.len(),
forall|j: int| LevelPtr@[0] <= j < LevelPtr@[nlevels as int] ==> 0 <= #[trigger] LevelSet@[j] < num_nodes,
forall|j: int, k: int| LevelPtr@[0] <= j < k < LevelPtr@[nlevels as int] ==> #[trigger] LevelSet@[j] != #[trigger] LevelSet@[k],
@ensures
Node2Level@.len() == num_nodes,
// every listed node is given the level whose range lists it
forall|l: int, j: int| 0 <= l < nlevels && #[trigger] in_col(LevelPtr@, l, j) ==> Node2Level@[LevelSet@[j] as int] == l,
@loop 1
invariant
    0 <= lvl <= nlevels, Node2Level@.len() == num_nodes,
    forall|l: int, j: int| 0 <= l < lvl && #[trigger] in_col(LevelPtr@, l, j) ==> Node2Level@[LevelSet@[j] as int] == l,
decreases nlevels - lvl,
@loop 1.1
invariant
    0 <= lvl < nlevels, Node2Level@.len() == num_nodes, LevelPtr@[lvl as int] <= j <= LevelPtr@[lvl + 1],
    forall|l: int, k: int| 0 <= l < lvl && #[trigger] in_col(LevelPtr@, l, k) ==> Node2Level@[LevelSet@[k] as int] == l,
    forall|k: int| LevelPtr@[lvl as int] <= k < j ==> Node2Level@[(#[trigger] LevelSet@[k]) as int] == lvl,
decreases LevelPtr@[lvl + 1] - j,
@head 1.1
proof { assert(LevelPtr@[0] <= LevelPtr@[lvl as int]); assert(LevelPtr@[lvl + 1] <= LevelPtr@[nlevels as int]);
 assert forall|l: int, k: int| 0 <= l < lvl && #[trigger] in_col(LevelPtr@, l, k) implies LevelSet@[j as int] != LevelSet@[k] && 0 <= LevelSet@[k] < num_nodes by { assert(LevelPtr@[l + 1] <= LevelPtr@[lvl as int]); assert(LevelPtr@[0] <= LevelPtr@[l]); } }
