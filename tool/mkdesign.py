#!/usr/bin/env python3
"""Writes DESIGN.md from tool/DESIGN.tmpl.md: section 3 from props.json and the contracts, section 6 from seeded/*/meta.json."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
"P01": "Contracts: the level arrays are a partition of all nodes into consecutive non-empty levels (bucket counting, `lemmas/lset.rs`), every edge goes to a later level, a node's level is one plus the largest level of its predecessors; for a cyclic graph the number of levels reported is at most n and no index leaves its array. `level_set_multi_graphs` and `level_set_bn` (K copies of a graph, of a graph of column blocks, ascending or descending) keep a ghost queue of all items listed, the set of entries unread per copy and the level of every node (`lemmas/mlev.rs`, `lemmas/mblk.rs`); the result lists every copy of every listed node once, in the level of its node plus the number of the copy, levels grow along the entries and are tight, and for one copy this is the plain level-set result. Assumed of the input: n*K and the entry count (+16843009 when K > 1, the memset value) fit an int, an own-entry count below 16843008 per block. Oracle of the executable contract: longest path by relaxation.",
"P02": "Depth, height and child lists are spec functions over the parent array (`lemmas/tree.rs`); the loops are proved to compute exactly them; `build_level_set_tree` is proved to place every node once on level (height of the tree minus ...), `dfs_tree` to write exactly the recursive post order `po`. Parents are numbered after their children in the proofs (what elimination trees guarantee); arbitrary numberings only run in the executable contract.",
"P03": "Two parts. Proved for every input: the parallel-form driver get_coarse_Level_set_DAG_CSC03_parallel with make_partitions_parallel and process_l_partition under contract, on top of the proved level set, height partitioning, component labelling, windowed traversal and packing (postcondition in_arrays: the returned pointers and node list are a valid schedule - every node once, every dependence in a later window or earlier in the same partition - and fit the arrays). Bounded for the other four drivers: the whole schedule of the real driver is checked on enumerated and random DAGs (every node once, pointers monotone, every edge inside a part goes forward, no edge between parts of one level, no edge backwards between levels). The check is labelled exploration because of those four",
"P04": "Bounded for the drivers (same schedule oracle as P03 on elimination forests), on top of the proved P02, P05, P06.",
"P05": "Contract `win_*` (`lemmas/windows.rs`): the cut points start at 0, end at the number of levels, strictly increase; proved for every level array and parameter.",
"P06": "Ghost multiset argument (`lemmas/pack.rs`): the bins together are a permutation of the components' nodes, the number of bins is within the limit, each bin sorted and free of duplicates, merged part costs are the sums.",
"P07": "`lemmas/sched.rs`: `valid_sched` (every node once; every dependence to a later level, or inside one part with the predecessor first; pointers monotone, within the arrays) and `few_parts` are postconditions of `HDAGG` and `GLC_V2`. `computeSchedule` and the emission in `GLC_V2` are proved by counting sort over component labels (`scat`, `pptr`), joining components to bins (`join_sched`) and sorting by a key that increases along edges (`srt_done`); the drivers by the invariant that the stored bin boundaries belong to the accepted window or to the window one level shorter, whose components only merge when it grows (`ncomp_grow`). The balance decision is arbitrary floating point in the proof: the schedule is valid whichever way it goes. Needs an acyclic graph, n * cores within an int and, for packing without post order, edges to higher numbers.",
"P08": "`is_cc` (`lemmas/cc.rs`): labels are equal exactly for nodes connected inside the window (soundness through a ghost edge set, completeness by closure under edges), labels are consecutive; `computeCC` also: the component costs are the sums of the node costs. `computeCC` requires nodes of the window unlabelled and earlier labels to stem from an earlier window, which its own postcondition re-establishes (`prior_from_cc`).",
"P09": "For the chain grouping and the three tree groupings: the returned lists are a partition (boundaries strictly ascending from 0 to n, every node listed once); the groups can be ranked so that every dependence between two groups goes to a higher rank (an existential rank is constructed, so contraction is acyclic); consecutive members of a chain are linked by the only dependence of the earlier and the only one on the later; without a size limit (always for the breadth-first variant) every member after the first has exactly one dependence, on a member listed before it. The size limit is computed in floating point and treated as arbitrary. The shared renumbering tail (groups listed by smallest member) is a lemma library of its own. aggressiveSupernodeGrouping is covered by the executable contract only.",
"P10": "`groups_ok` (`lemmas/groups.rs`): group pointers start at 0, end at n, strictly increase, the set lists each row once in ascending order, the inverse map agrees; the dependence inspectors list exactly the earlier groups with an entry (`lemmas/deps.rs`), each once.",
"P11": "`lemmas/gdag.rs`: an edge a->b is in the contracted graph iff some node of a has an edge to a node of b, each once, own entry first, rows within bounds.",
"P12": "`lemmas/ungroup.rs`, `cnsup.rs`, `iters.rs`: the nodes of part j of the result are exactly the nodes of the groups of part j of the given schedule (in group order; as a reordering of them when sorted ascending or put in postorder, where no node precedes a predecessor of its part); boundaries are the running totals, ending at n; when every group is scheduled once every node is listed once. Supernode form: part j lists the supernodes of the entries of its groups in order, runs once; every node's supernode is listed, nothing else. Iteration list: part j is a reordering of the entries of its rows, each naming a row, one of its entries and that entry's column.",
"P13": "`topological` (`lemmas/porder.rs`): the result is a permutation and every node precedes its successors; loop invariant: stack plus written part are distinct, ranks increase along the stack, each written node has all successors after it. Tree (`lemmas/postorder.rs`, `treepo.rs`): tree_post_order is proved to build each node's list of children (plain, or bucketed by weight), and the order it writes root after root (dfs_tree, a verified callee) is proved a permutation in which every subtree is the run of positions that ends at its root (`postordered`, the same predicate the column counts take as premise). Partitions (`lemmas/wbfs.rs`): modified_BFS_CSC and modified_BFS_BCSC hand the nodes of the window, each once, to their partitions' lists in one topological order; invariant: a node is in the queue or taken iff it has no unread predecessor and is a begun source or had one; completeness by the node of least rank left. Premises: acyclic graph, the nodes outside the window marked as visited, in-degrees of the window plus one, all sources of the window listed.",
"P14": "`lemmas/transp.rs`, `lemmas/count.rs`: the output holds entry (c,r,x) at the place given by stable counting: bucket start plus the number of earlier entries of the bucket; so nothing is lost, duplicated or reordered within a column.",
"P15": "`lemmas/half.rs`, `full.rs`, `addm.rs`, `symt.rs`, `symm.rs`: output columns are spec sequences (filtered / merged / counted) of the input; equality is proved position by position.",
"P16": "Postconditions give inverse[perm[i]] == i for all i, moved elements position by position, the permuted matrix entry by entry.",
"P17": "`lemmas/etree.rs`, `rowpat.rs`, `lpat.rs`: a graph is its edge relation; `econ(g, k, a, b)` says a and b are joined by a walk through nodes below k. The tree is proved to be `epar`: the least later node m joined to i through nodes up to m (for the row-stored and the column-stored construction, and, for A'A, for the graph of columns that share a row, through the path graph the code follows). Row k's pattern is proved to be exactly `fill(k, i)`: i joined to a neighbour of k through nodes up to i, each once, with the marks restored. The factor built from the column counts is proved to hold, in column j, j and then exactly the rows k with fill(k, j), ascending; the cost of a row is the exact number of entries read. The column counts (`ccount.rs`, `ccend.rs`; row_col_counts_symmetric and its three helpers, the skeleton-leaf algorithm of Gilbert, Ng and Peyton) are proved to be exactly 1 + the number of rows k with fill(k, j): the sum of the weights over a subtree equals, at every step, the number of rows with a counted entry below minus the rows finished; the representative found for the previous leaf is the least unfinished ancestor (union-find with path compression, with termination); the closing accumulation is proved without overflow. Levels and first descendants are exact too. Premise: Parent is the tree, Post one of its postorders (`postordered`); n + nnz + 2 and 2n fit an int.",
"P18": "`lemmas/sparse.rs`: every kept edge was there, every dropped edge u->w has a node v with edges u->v and v->w in the input (so reachability is kept), the own entry stays.",
"P19": "Costs are spec sums over rows and groups (`lemmas/cost.rs`), one per kernel, proved equal to what the loops accumulate.",
"P20": "`lemmas/merged.rs`, `coarsen.rs`: the block of each input graph appears shifted, cross edges exactly the given ones; coarsening keeps exactly the pairs with an edge between members.",
"P21": "Contracts over mathematical integers: *ok is set iff the result fits the machine word, the result is the exact value then.",
"P22": "Postconditions describe the whole output matrix position by position.",
"P23": "Cut points start at 0, end at n, never decrease, and each part but the last is exactly the shortest run whose in-order float sum reaches its target; breadth-first parts contain each node once in order of depth.",
"P24": "lbc_config: for all sizes, entry counts and thread counts the partition count is positive, factor and cut are both positive or both zero, a positive factor only occurs with columns to coarsen and leaves the window arithmetic inside int, and no packing is asked for (the driver has no chunks to give). build_coarsened_level_parallel is a verified caller of it, of the level-set builder and of computeSchedule: in both branches its result is a schedule in which every node occurs once and every dependence leads to a later level or stays inside its part in order; termination of the window loop is part of the proof.",
"P25": "Supernodes: consecutive runs, each column the tail of the first one, at most limit + 1 wide, maximal, covering every column in order (lower and upper). Sizes and layout: block k starts at the sum over the blocks before it of width times number of distinct rows; row s of column u sits at start + u * rows + s, rows ascending and exactly those of the block; the value is that of the entry, or 0. Both constructors and generateBCSC are verified callers. The graph over supernodes lists block b under block k exactly when a row of block k lies in b, once, and a lemma over the layout (st_graph) turns that into: exactly when an entry of the matrix does.",
}
P = json.load(open(V + "/props.json")); M = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
title = {}; 
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); title[p["id"]] = p["title"]
out = []
for k in sorted(P["claimed"]):
    c = P["claimed"][k]
    out.append("**%s %s** (level: %s). %s %s Executable contract (`replay/%s`): %s." % (k, title[k], c["level"], HOW[k], M[k]["level_note"].split("  Trusted")[0].strip(), c["harness"] + ("" if c["harness"].endswith(".cpp") else ".cpp"), c["rule"]))
for k, r in sorted(P["not_applicable"].items()): out.append("**%s %s** (not applicable). %s" % (k, title[k], r))
bugs = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); d = os.path.dirname(f)
    files = re.findall(r"^\+\+\+ b/(\S+)", open(d + "/patch.diff").read(), re.M)
    bugs.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(files), m["what_it_breaks"].replace("|", "/"), m.get("caught_by", "check of " + m["property"])))
t = open(V + "/tool/DESIGN.tmpl.md").read()
t = t.replace("@@PROPS@@", "\n\n".join(out)).replace("@@BUGS@@", "| id | property | file | what it breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(bugs))
open(V + "/DESIGN.md", "w").write(t)
