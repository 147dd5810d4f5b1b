#include "common.h"
#include "aggregation/lbc.h"
using namespace sym_lib;
namespace sym_lib { int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr, int *finalNodePtr, int *finalPartPtr, int innerParts, int originalHeight, double *nodeCost, int *node2Level, std::vector<int> &innerPartsSize, int lClusterCnt, int *partition2Level, int *levelPtr, int *levelSet, int numThreads, bool binPacking); }
struct Out { int nl = -1, np = -1; int *lp = nullptr, *pp = nullptr, *nd = nullptr; ~Out() { delete[] lp; delete[] pp; delete[] nd; }
  void check(const G &g, const char *what) {
    CHECK(nl >= 1 && nl <= g.n, what << ": " << nl << " coarsened levels"); VI L(lp, lp + nl + 1); CHECK(L[nl] >= 0 && L[nl] <= g.n, what << ": " << L[nl] << " partitions");
    checkSchedule(g, nl, L, VI(pp, pp + L[nl] + 1), VI(nd, nd + g.n), what); } };
static void one(const G &g, Rng &r, const VD &cost, int parts, int cut, int div, bool lower) {
  int th = r.in(1, 4); auto d = [&]() { std::ostringstream o; o << g.s() << " parts=" << parts << " initial cut=" << cut << " coarsening=" << div << " threads=" << th << " cost=" << str(cost); return o.str(); };
  bool nt = g.m() > 1;
  for (int bp = 0; bp < 2; bp++) {
    if (H::begin(bp ? "get_coarse_levelSet_DAG_CSC" : "get_coarse_levelSet_DAG_CSC(no packing)", d, nt)) { IA p(g.p), i(g.i); DA c(cost); Out o; get_coarse_levelSet_DAG_CSC(g.n, p.p, i.p, o.nl, o.lp, o.np, o.pp, o.nd, parts, cut, div, c.p, bp); o.check(g, "schedule"); CHECK(p.vec() == g.p && i.vec() == g.i && c.vec() == cost, "inputs changed"); H::end(); }
    if (H::begin(bp ? "get_coarse_Level_set_DAG_CSC03_parallel" : "get_coarse_Level_set_DAG_CSC03_parallel(no packing)", d, nt)) { IA p(g.p), i(g.i); DA c(cost); Out o; get_coarse_Level_set_DAG_CSC03_parallel(g.n, p.p, i.p, o.nl, o.lp, o.np, o.pp, o.nd, parts, cut, div, c.p, th, bp); o.check(g, "schedule"); H::end(); }
  }
  if (H::begin("get_coarse_Level_set_DAG_CSC03", d, nt)) { IA p(g.p), i(g.i); DA c(cost); Out o; get_coarse_Level_set_DAG_CSC03(g.n, p.p, i.p, o.nl, o.lp, o.np, o.pp, o.nd, parts, cut, div, c.p); o.check(g, "schedule"); H::end(); }
  if (lower && H::begin("get_coarse_levelSet_DAG_CSC_tree", d, nt)) { IA p(g.p), i(g.i); DA c(cost); Out o; get_coarse_levelSet_DAG_CSC_tree(g.n, p.p, i.p, -1, o.nl, o.lp, o.np, o.pp, o.nd, parts, cut, div, c.p); o.check(g, "schedule"); H::end(); }
  if (lower && H::begin("get_coarse_levelSet_DAG_CSC_tree(upper)", d, nt)) { G t = g.transposed(); /* upper triangle by columns: rows ascending, diagonal last */ VI tp(1, 0), ti; for (int v = 0; v < g.n; v++) { for (int w : t.succ[v]) ti.push_back(w); ti.push_back(v); tp.push_back((int)ti.size()); } IA p(tp), i(ti); DA c(cost); Out o; get_coarse_levelSet_DAG_CSC_tree(g.n, p.p, i.p, 1, o.nl, o.lp, o.np, o.pp, o.nd, parts, cut, div, c.p); o.check(g, "schedule"); H::end(); }
  if (lower) {
    BG b(r, g);
    if (H::begin("getCoarseLevelSet_DAG_BCSC02", [&]() { return b.s() + " " + d(); }, nt)) {
      std::vector<size_t> a(b.p.begin(), b.p.end()), a2(b.lip.begin(), b.lip.end()); size_t *A = heap(a), *A2 = heap(a2); IA li(b.li), s2c(b.sup2col), c2s(b.col2sup); DA c(cost); Out o; int *ls = nullptr;
      getCoarseLevelSet_DAG_BCSC02(g.n, A, A2, li.p, s2c.p, c2s.p, o.nl, o.lp, ls, o.np, o.pp, o.nd, parts, cut, div, c.p); o.check(g, "blocked schedule"); delete[] A; delete[] A2; H::end(); }
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) { G g = lowerMask(n, m); VD w = randCost(r, n); int t = (int)(m % 18); one(g, r, w, 1 + t % 3, 1 + t / 3 % 2, 1 + t / 6, true); one(relabel(g, randPerm(r, n)), r, w, r.in(1, 4), r.in(1, 4), r.in(1, 4), false); }
  { // windows of more than 250000 nodes take a path of their own
    int w = 130000 + r.below(5000), n = 2 * w + 3; std::vector<std::pair<int, int>> e; for (int v = 0; v < w; v++) e.push_back({v, w + v}); e.push_back({n - 4, n - 3}); e.push_back({n - 3, n - 2}); G g(n, e); VD cost(n, 1);
    for (int bp = 0; bp < 2; bp++) if (H::begin("get_coarse_Level_set_DAG_CSC03_parallel(large window)", [&]() { return "n=" + std::to_string(n) + ": " + std::to_string(w) + " chains of two nodes and one of four" + (bp ? ", packed" : ""); }, true)) {
      IA p(g.p), i(g.i); DA c(cost); Out o; int k = bp ? 5 : n; get_coarse_Level_set_DAG_CSC03_parallel(g.n, p.p, i.p, o.nl, o.lp, o.np, o.pp, o.nd, bp ? k : 3, 2, 2, c.p, 2, bp); o.check(g, "schedule"); H::end(); } }
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 150 : 24); bool low = !r.chance(25); if (!low) g = relabel(g, randPerm(r, g.n)); one(g, r, randCost(r, g.n), r.in(1, r.chance(20) ? 40 : 5), r.in(1, r.chance(20) ? 40 : 5), r.in(1, r.chance(20) ? 40 : 5), low); }
  return H::finish();
}
