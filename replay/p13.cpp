#include "group.h"
#include "aggregation/hdagg.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_inspector.h"
namespace HDAGG { void computePostOrderAndGroup(int n, const std::vector<int> &DAG_ptr, const std::vector<int> &DAG_set, int &ngroups, std::vector<int> &groupPtr, std::vector<int> &post_order, std::vector<int> &group_DAG_ptr, std::vector<int> &group_DAG_set); }
using namespace sym_lib;
static void topo(const G &g, const VI &po, const char *what) { CHECK((int)po.size() == g.n && isPerm(po, g.n), what << " is no permutation: " << str(po)); VI pos(g.n); for (int k = 0; k < g.n; k++) pos[po[k]] = k; for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) CHECK(pos[v] < pos[w], what << ": " << w << " comes before its predecessor " << v); }
static void one(const G &g, Rng &r) {
  auto d = [&]() { return g.s(); };
  if (H::begin("computePostOrder", d, g.m() > 0)) { IA p(g.p), i(g.i); VI po; if (r.chance(20)) po = VI(g.n + 3, 7); HDAGG::computePostOrder(g.n, p.p, i.p, po); topo(g, po, "postorder"); H::end(); }
  if (H::begin("computePostOrderAndGroup", d, g.m() > 0)) {
    VI p = g.p, i = g.i, gp, po, dp, ds; p.shrink_to_fit(); i.shrink_to_fit(); int ng = -1; HDAGG::computePostOrderAndGroup(g.n, p, i, ng, gp, po, dp, ds); topo(g, po, "postorder"); VI inv = checkGroups(g.n, ng, gp, po, "chains"); checkConnected(g, ng, inv, "chains");
    VI ind(g.n, 0); for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) ind[w]++;
    for (int k = 0; k < ng; k++) for (int z = gp[k]; z + 1 < gp[k + 1]; z++) CHECK(g.succ[po[z]].size() == 1 && ind[po[z + 1]] == 1, "group " << k << " is no chain");
    CHECK((int)dp.size() == ng + 1 && dp[0] == 0 && dp[ng] == (int)ds.size(), "group graph pointers"); G c = contract(g, ng, inv);
    for (int k = 0; k < ng; k++) { VI got(ds.begin() + dp[k], ds.begin() + dp[k + 1]), want = c.succ[k]; CHECK(!got.empty() && got[0] == k, "group " << k << " does not list itself first"); want.push_back(k); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "group " << k << " lists " << str(got) << " expected " << str(want)); } H::end();
  }
}
static void tree(const VI &par, Rng &r) {
  int n = (int)par.size(); VI w(n); for (auto &x : w) x = r.in(-2, n + 2); VVI kid(n + 1); for (int v = 0; v < n; v++) kid[par[v] < 0 ? n : par[v]].push_back(v);
  for (int k = 0; k < 2; k++) {
    if (!H::begin(k ? "tree_post_order(weights)" : "tree_post_order", [&]() { return "parents=" + str(par) + (k ? " weights=" + str(w) : ""); }, n > 2)) continue;
    IA p(par), ww(w), po(n); int c = tree_post_order(p.p, n, k ? ww.p : nullptr, po.p); CHECK(c == n, c << " nodes ordered"); CHECK(isPerm(po.p, n), "no permutation"); CHECK(p.vec() == par, "parents changed");
    VI sz(n, 1), first(n), pos(n); for (int z = 0; z < n; z++) pos[po.p[z]] = z; for (int v = 0; v < n; v++) { int a = par[v]; while (a >= 0) { sz[a]++; a = par[a]; } }
    for (int v = 0; v < n; v++) for (int a = par[v]; a >= 0; a = par[a]) CHECK(pos[v] < pos[a] && pos[v] > pos[a] - sz[a], "node " << v << " outside the run of its ancestor " << a);
    if (!k) for (auto &q : kid) for (size_t z = 1; z < q.size(); z++) CHECK(pos[q[z - 1]] < pos[q[z]], "children out of order");
    else for (int v = 0; v < n; v++) { auto cl = [&](int x) { return std::min(std::max(0, w[x]), n - 1); }; for (int a : kid[v]) for (int b : kid[v]) if (pos[a] < pos[b]) CHECK(cl(a) <= cl(b), "children of " << v << " not by weight"); } H::end();
  }
}
// breadth-first placement: every node goes to the list of its partition, predecessors inside the window first
static void bfs(const G &g, Rng &r) {
  int n = g.n; VI lev = g.levels(); int L = 0; for (int l : lev) L = std::max(L, l + 1); int lb = r.below(L), ub = r.in(lb + 1, L);
  VI lp(1, 0), ls; for (int l = 0; l < L; l++) { for (int v = 0; v < n; v++) if (lev[v] == l) ls.push_back(v); lp.push_back((int)ls.size()); }
  auto in = [&](int v) { return lev[v] >= lb && lev[v] < ub; };
  VI c(n); for (int v = 0; v < n; v++) c[v] = v; std::function<int(int)> f = [&](int x) { return c[x] == x ? x : c[x] = f(c[x]); }; for (int v = 0; v < n; v++) for (int w : g.succ[v]) if (in(v) && in(w)) c[f(v)] = f(w);
  std::map<int, int> id; VI part(n, -1); for (int v = 0; v < n; v++) if (in(v)) { if (!id.count(f(v))) { int k = (int)id.size(); id[f(v)] = k; } part[v] = id[f(v)]; }
  // in-degrees inside the window plus one, nodes after the window marked as visited: how the drivers call it
  VI deg(n, 1); std::vector<char> vis(n, 0); for (int v = 0; v < n; v++) { if (!in(v)) vis[v] = 1; if (in(v)) for (int w : g.succ[v]) deg[w]++; }
  auto lists = [&](const VVI &o, const VI &pt) { VI pos(n, -1); int k = 0; for (size_t q = 0; q < o.size(); q++) for (int v : o[q]) { CHECK(v >= 0 && v < n && in(v), "node " << v << " is not in the window"); CHECK(pos[v] < 0, "node " << v << " listed twice"); CHECK(pt[v] == (int)q, "node " << v << " in the list of another partition"); pos[v] = k++; } for (int v = 0; v < n; v++) if (in(v)) { CHECK(pos[v] >= 0, "node " << v << " lost"); for (int w : g.succ[v]) if (in(w)) CHECK(pos[v] < pos[w], "dependence " << v << "->" << w << " broken"); } };
  auto dsc = [&]() { return g.s() + " window " + std::to_string(lb) + ".." + std::to_string(ub) + " partitions " + str(part); };
  if (H::begin("modified_BFS_CSC", dsc, ub - lb > 1)) {
    IA p(g.p), i(g.i), dg(deg), pa(part), P(lp), S(ls); bool *vs = new bool[n]; for (int v = 0; v < n; v++) vs[v] = vis[v];
    VVI o(id.size()); modified_BFS_CSC(n, p.p, i.p, dg.p, vs, pa.p, P.p, S.p, lb, o); lists(o, part); delete[] vs; H::end();
  }
  BG b(r, g);
  if (H::begin("modified_BFS_BCSC", [&]() { return b.s() + " window " + std::to_string(lb) + ".." + std::to_string(ub) + " partitions " + str(part); }, ub - lb > 1)) {
    VI dg2(n, 1); for (int v = 0; v < n; v++) if (in(v)) for (int q = b.lip[b.sup2col[v]] + b.sup2col[v + 1] - b.sup2col[v]; q < b.lip[b.sup2col[v + 1]]; q++) dg2[b.col2sup[b.li[q]]]++;
    std::vector<size_t> a(b.p.begin(), b.p.end()), a2(b.lip.begin(), b.lip.end()), s2(ls.begin(), ls.end()); size_t *A = heap(a), *A2 = heap(a2), *S = heap(s2); IA li(b.li), s2c(b.sup2col), c2s(b.col2sup), dg(dg2), pa(part), P(lp); bool *vs = new bool[n]; for (int v = 0; v < n; v++) vs[v] = vis[v];
    VVI o(id.size()); modified_BFS_BCSC(n, A, A2, li.p, s2c.p, c2s.p, dg.p, vs, pa.p, P.p, S, lb, o); lists(o, part); delete[] vs; delete[] A; delete[] A2; delete[] S; H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) { G g = lowerMask(n, m); one(g, r); bfs(g, r); }
  for (int n = 1; n <= 6; n++) { long f = 1; for (int k = 2; k <= n; k++) f *= k; for (long no = 0; no < f; no++) { VI p; forestNo(n, no, p); tree(p, r); } }
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 90 : 14); bfs(g, r); one(r.chance(40) ? relabel(g, randPerm(r, g.n)) : g, r); VI f = randForest(r, r.in(1, r.chance(10) ? 60 : 12)); if (r.chance(40)) { int n = (int)f.size(); VI q = randPerm(r, n), h(n); for (int v = 0; v < n; v++) h[q[v]] = f[v] < 0 ? -1 : q[f[v]]; f = h; } tree(f, r); }
  return H::finish();
}
