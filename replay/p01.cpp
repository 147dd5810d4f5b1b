#include "common.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/hdagg.h"
using namespace sym_lib;

static void checkLevels(const G &g, int nl, const VI &lp, const VI &ls, const char *what) {
  VI lev = g.levels(); int depth = 0; for (int v = 0; v < g.n; v++) depth = std::max(depth, lev[v] + 1);
  CHECK(nl == depth, what << ": " << nl << " levels returned, the graph has " << depth);
  CHECK(lp[0] == 0 && lp[nl] == g.n, what << ": level pointers do not cover the nodes");
  for (int l = 0; l < nl; l++) CHECK(lp[l] <= lp[l + 1], what << ": level pointers decrease");
  CHECK(isPerm(ls.data(), g.n), what << ": level set is not a permutation of the nodes");
  for (int l = 0; l < nl; l++) for (int k = lp[l]; k < lp[l + 1]; k++)
    CHECK(lev[ls[k]] == l, what << ": node " << ls[k] << " is in level " << l << ", expected " << lev[ls[k]]);
}
static void more(const G &g, Rng &r) {   // acyclic graphs only
  auto d = [&]() { return g.s(); };
  if (H::begin("buildLevelSet_CSC_Queue", d, g.m() > 0)) {
    IA p(g.p), i(g.i), lp(g.n + 1, 0), ls(g.n); int *a = lp.p, *b = ls.p;
    int nl = buildLevelSet_CSC_Queue(g.n, 0, p.p, i.p, a, b); checkLevels(g, nl, lp.vec(), ls.vec(), "level set"); H::end();
  }
  int K = r.in(1, 3);
  if (g.n > 0 && H::begin("level_set_multi_graphs", [&]() { return g.s() + " copies=" + std::to_string(K); }, g.m() > 0)) {
    IA p(g.p), i(g.i); int *lp = nullptr, *ls = nullptr; int nl = level_set_multi_graphs(g.n, p.p, i.p, lp, ls, K);
    std::vector<std::pair<int, int>> e; for (int q = 0; q < K; q++) for (int v = 0; v < g.n; v++) { for (int w : g.succ[v]) e.push_back({q * g.n + v, q * g.n + w}); if (q + 1 < K) e.push_back({q * g.n + v, (q + 1) * g.n + v}); }
    checkLevels(G(K * g.n, e), nl, VI(lp, lp + nl + 1), VI(ls, ls + K * g.n), "level set of the copies"); delete[] lp; delete[] ls; H::end();
  }
  if (g.n > 0) {
    BG b(r, g); auto db = [&]() { return b.s(); };
    if (H::begin("build_levelSet_BCSC", db, g.m() > 0)) {
      std::vector<size_t> lp_(b.p.begin(), b.p.end()), lip_(b.lip.begin(), b.lip.end()); size_t *lp0 = heap(lp_), *lip = heap(lip_); IA li(b.li), s2c(b.sup2col), c2s(b.col2sup); int *lp = nullptr; size_t *ls = nullptr;
      int nl = build_levelSet_BCSC(0, 0, lp0, lip, li.p, g.n, s2c.p, c2s.p, lp, ls);
      checkLevels(g, nl, VI(lp, lp + nl + 1), VI(ls, ls + g.n), "blocked level set"); delete[] lp0; delete[] lip; delete[] lp; delete[] ls; H::end();
    }
    if (H::begin("level_set_bn", [&]() { return b.s() + " copies=" + std::to_string(K); }, g.m() > 0)) {
      IA p(b.p), i(b.i), s2c(b.sup2col); int *lp = nullptr, *ls = nullptr; int nl = level_set_bn(b.n, p.p, i.p, lp, ls, s2c.p, g.n, K, true);
      std::vector<std::pair<int, int>> e; for (int q = 0; q < K; q++) for (int v = 0; v < g.n; v++) { for (int w : g.succ[v]) e.push_back({q * g.n + v, q * g.n + w}); if (q + 1 < K) e.push_back({q * g.n + v, (q + 1) * g.n + v}); }
      VI got; for (int k = 0; k < K * g.n; k++) { int x = ls[k]; CHECK(x >= 0 && x < K * b.n, "entry " << x); got.push_back(x / b.n * g.n + b.col2sup[x % b.n]); }
      checkLevels(G(K * g.n, e), nl, VI(lp, lp + nl + 1), got, "level set of the blocks");
      int *s2n = nullptr; sup2node_gen(b.n, K * g.n, ls, g.n, s2c.p, s2n); for (int k = 0; k < K * g.n; k++) CHECK(s2n[k] == got[k] % g.n, "entry " << k << " is supernode " << got[k] % g.n << ", reported " << s2n[k]); delete[] s2n;
      delete[] lp; delete[] ls; H::end();
    }
    if (H::begin("level_set_bn(upper)", [&]() { return b.s() + " mirrored, copies=" + std::to_string(K); }, g.m() > 0)) {   // the mirror image: blocks from the last column down, each headed by its last column
      VI up(1, 0), ui, us; for (int c = b.n - 1; c >= 0; c--) { for (int z = b.p[c + 1] - 1; z >= b.p[c]; z--) ui.push_back(b.n - 1 - b.i[z]); up.push_back((int)ui.size()); } for (int v = 0; v <= g.n; v++) us.push_back(b.n - 1 - b.sup2col[v]);
      IA p(up), i(ui), s2c(us); int *lp = nullptr, *ls = nullptr; int nl = level_set_bn(b.n, p.p, i.p, lp, ls, s2c.p, g.n, K, false);
      std::vector<std::pair<int, int>> e; for (int q = 0; q < K; q++) for (int v = 0; v < g.n; v++) { for (int w : g.succ[v]) e.push_back({q * g.n + v, q * g.n + w}); if (q + 1 < K) e.push_back({q * g.n + v, (q + 1) * g.n + v}); }
      VI got; for (int k = 0; k < K * g.n; k++) { int x = ls[k]; CHECK(x >= 0 && x < K * b.n, "entry " << x); got.push_back(x / b.n * g.n + b.col2sup[b.n - 1 - x % b.n]); }
      checkLevels(G(K * g.n, e), nl, VI(lp, lp + nl + 1), got, "level set of the mirrored blocks"); delete[] lp; delete[] ls; H::end();
    }
  }
}
static void one(const G &g) {
  static Rng mr(77); if (g.acyclic()) { bool low = true; for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) low = low && w > v; if (low) more(g, mr); }
  auto d = [&]() { return g.s(); };
  bool ac = g.acyclic();
  if (H::begin("build_levelSet_CSC(alloc)", d, g.m() > 0)) {
    IA p(g.p), i(g.i); int *lp = nullptr, *ls = nullptr;
    int nl = build_levelSet_CSC((size_t)g.n, p.p, i.p, lp, ls);
    if (!ac) CHECK(nl == -1, "cyclic graph not reported");
    else { CHECK(nl >= 0, "acyclic graph reported as cyclic"); checkLevels(g, nl, VI(lp, lp + nl + 1), VI(ls, ls + g.n), "level set"); }
    if (nl >= 0) { delete[] lp; delete[] ls; }
    H::end();
  }
  if (H::begin("build_levelSet_CSC(given)", d, g.m() > 0)) {
    IA p(g.p), i(g.i), lp(g.n + 1, 0), ls(g.n);
    int nl = build_levelSet_CSC((size_t)g.n, (const int *)p.p, (const int *)i.p, lp.p, ls.p);
    if (!ac) CHECK(nl == -1, "cyclic graph not reported");
    else { CHECK(nl >= 0, "acyclic graph reported as cyclic"); checkLevels(g, nl, lp.vec(), ls.vec(), "level set"); }
    H::end();
  }
  if (H::begin("HDAGG::build_levelSet_CSC", d, g.m() > 0)) {
    IA p(g.p), i(g.i), lp(g.n + 1, 0), ls(g.n), nl2(g.n);
    int nl = HDAGG::build_levelSet_CSC((size_t)g.n, p.p, i.p, lp.p, ls.p, nl2.p);
    if (!ac) CHECK(nl == -1, "cyclic graph not reported");
    else {
      CHECK(nl >= 0, "acyclic graph reported as cyclic"); checkLevels(g, nl, lp.vec(), ls.vec(), "level set");
      VI lev = g.levels(); for (int v = 0; v < g.n; v++) CHECK(nl2.p[v] == lev[v], "node-to-level map wrong at " << v);
      VI a = lp.vec(), b = ls.vec(), n2l(g.n, -7);
      HDAGG::computingNode2Level(a, b, nl, g.n, n2l);
      for (int v = 0; v < g.n; v++) CHECK(n2l[v] == lev[v], "level inversion wrong at " << v);
    }
    H::end();
  }
  if (ac && H::begin("computingLevelSet_CSC", d, g.m() > 0)) {
    IA p(g.p), i(g.i); VI lp(g.n + 1, 0), ls(g.n, 0); int nl = 0;
    sym_lib::computingLevelSet_CSC(g.n, p.p, i.p, lp, ls, nl);
    checkLevels(g, nl, lp, ls, "level set");
    H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v);
  one(G(0, {}));
  for (int n = 1; n <= 3; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1))); m++) one(anyMask(n, m));
  for (unsigned long m = 0; m < 4096; m++) one(anyMask(4, m));
  for (unsigned long m = 0; m < 1024; m++) one(lowerMask(5, m));
  Rng r(H::seed);
  while (H::timeleft()) {
    G g = randLower(r, r.chance(10) ? 200 : 30);
    if (r.chance(50)) g = relabel(g, randPerm(r, g.n));
    if (r.chance(10) && g.n > 1) { std::vector<std::pair<int, int>> e; for (int a = 0; a < g.n; a++) for (int b : g.succ[a]) e.push_back({a, b}); e.push_back({r.below(g.n), r.below(g.n)}); g = G(g.n, e); }
    one(g);
  }
  return H::finish();
}
