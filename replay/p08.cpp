#include "common.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc_utils.h"
namespace sym_lib { int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level, int *levelPtr, int *levelSet, int *node2partition, double *outCost, double *nodeCost, int &curLeveledParCost, int numNodes, int *nodes, int numThreads); }
using namespace sym_lib;
static VI components(const G &g, const VI &in) { VI c(g.n, -1); int k = 0; VVI adj(g.n); for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (in[v] && in[w]) { adj[v].push_back(w); adj[w].push_back(v); }
  for (int v = 0; v < g.n; v++) if (in[v] && c[v] < 0) { VI st{v}; c[v] = k; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int w : adj[x]) if (c[w] < 0) { c[w] = k; st.push_back(w); } } k++; } return c; }
static void labels(const G &g, const VI &in, const VI &c, const VI &lab) {
  std::map<int, int> a, b;
  for (int v = 0; v < g.n; v++) if (in[v]) { if (!a.count(c[v])) a[c[v]] = lab[v]; CHECK(a[c[v]] == lab[v], "connected nodes labelled " << a[c[v]] << " and " << lab[v]); if (!b.count(lab[v])) b[lab[v]] = c[v]; CHECK(b[lab[v]] == c[v], "two components share label " << lab[v]); }
}
static void one(const G &g, Rng &r) {
  VI lev = g.levels(); int L = 0; for (int l : lev) L = std::max(L, l + 1);
  VI lp(1, 0), ls; for (int l = 0; l < L; l++) { for (int v = 0; v < g.n; v++) if (lev[v] == l) ls.push_back(v); lp.push_back((int)ls.size()); }
  for (int lb = 0; lb < L; lb++) for (int ub = lb + 1; ub <= L; ub++) {
    if (L > 6 && !r.chance(15)) continue;
    VI in(g.n); for (int v = 0; v < g.n; v++) in[v] = lev[v] >= lb && lev[v] < ub; VI c = components(g, in); int N = lp[ub] - lp[lb]; int nc = 0; for (int x : c) nc = std::max(nc, x + 1);
    auto d = [&]() { return g.s() + " levels " + std::to_string(lb) + ".." + std::to_string(ub); };
    if (H::begin("HDAGG::parallel_cc", d, ub - lb > 1 && N > 2)) {
      IA p(g.p), i(g.i), n2l(lev), nodes(VI(ls.begin() + lp[lb], ls.begin() + lp[ub])), lab(g.n, -55);
      HDAGG::parallel_cc(g.n, p.p, i.p, lb, ub, n2l.p, N, nodes.p, lab.p);
      for (int v = 0; v < g.n; v++) if (!in[v]) CHECK(lab.p[v] == -55, "node " << v << " outside the window relabelled"); else CHECK(lab.p[v] >= 0 && lab.p[v] < N, "label " << lab.p[v] << " of " << v << " is no label of the window");
      labels(g, in, c, lab.vec()); H::end();
    }
    VD cost = randCost(r, g.n);
    if (H::begin("computeCC", d, ub - lb > 1 && N > 2)) {
      IA p(g.p), i(g.i), n2l(lev), L0(lp), S(ls); VI lab(g.n, -1); int pc = 0; VD pcst(g.n, 0); double tot = 0;
      int up = r.in(lb, ub - 1); if (up > lb) { HDAGG::computeCC(lb, lb, up, g.n, p.p, i.p, L0.p, S.p, n2l.p, lab, pc, pcst, cost, tot); pc = 0; tot = 0; pcst.assign(g.n, 0); }
      HDAGG::computeCC(lb, up, ub, g.n, p.p, i.p, L0.p, S.p, n2l.p, lab, pc, pcst, cost, tot);
      CHECK(pc == nc, pc << " components reported, there are " << nc); labels(g, in, c, lab); double t = 0; std::map<int, double> cc; for (int v = 0; v < g.n; v++) { if (in[v]) { t += cost[v]; cc[c[v]] += cost[v]; } else CHECK(lab[v] == -1, "node " << v << " outside the window labelled"); }
      CHECK(t == tot, "total cost " << tot << " expected " << t); VD a, b; for (auto &z : cc) a.push_back(z.second); for (int k = 0; k < pc; k++) b.push_back(pcst[k]); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "component costs " << str(b)); H::end();
    }
    if (H::begin("sym_lib::parallel_cc", d, ub - lb > 1 && N > 2)) {
      IA p(g.p), i(g.i), n2l(lev), L0(lp), S(ls), nodes(VI(ls.begin() + lp[lb], ls.begin() + lp[ub])), lab(g.n, -55); DA oc(g.n, 0), nc_(cost);
      int cur = 0, mc = parallel_cc(p.p, i.p, lb, ub, n2l.p, L0.p, S.p, lab.p, oc.p, nc_.p, cur, N, nodes.p, 1); double t = 0;
      int hi = -1; for (int v = 0; v < g.n; v++) if (in[v]) { hi = std::max(hi, lab.p[v]); t += cost[v]; } CHECK(mc == hi + 1, "label bound " << mc); for (int v = 0; v < g.n; v++) t -= oc.p[v]; CHECK(t == 0, "component costs do not add up");
      for (int v = 0; v < g.n; v++) if (!in[v]) CHECK(lab.p[v] == -55, "node " << v << " outside the window relabelled"); else CHECK(lab.p[v] >= 0 && lab.p[v] < N, "label " << lab.p[v] << " of " << v << " is no label of the window");
      labels(g, in, c, lab.vec()); H::end();
    }
  }
  // depth-first labelling: one search marks exactly what is reachable through unmarked nodes
  VI mk(g.n); for (auto &z : mk) z = r.chance(70) ? 0 : r.chance(50) ? 1 : -1; int s = r.below(g.n); mk[s] = 0;
  auto judge = [&](int top, const VI &xi, const VI &m, const VI &clash) {
    VI rc(g.n, 0); VI q{s}; rc[s] = 1; std::set<int> cl; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int w : g.succ[x]) { if (mk[w] == -1) cl.insert(w); if (!mk[w] && !rc[w]) { rc[w] = 1; q.push_back(w); } } }
    VI got(g.n, 0); CHECK(top >= 0 && top <= g.n, "top " << top); for (int k = top; k < g.n; k++) { CHECK(xi[k] >= 0 && xi[k] < g.n, "entry " << xi[k]); CHECK(!got[xi[k]], "node listed twice"); got[xi[k]] = 1; }
    for (int v = 0; v < g.n; v++) { CHECK(got[v] == rc[v], "node " << v << (rc[v] ? " missing" : " listed without reason")); CHECK(m[v] == (rc[v] ? 1 : mk[v]), "mark of " << v); }
    CHECK(std::set<int>(clash.begin(), clash.end()) == cl, "nodes of earlier components: " << str(clash)); for (int k = top; k < g.n; k++) for (int l = top; l < k; l++) CHECK(!std::count(g.succ[xi[k]].begin(), g.succ[xi[k]].end(), xi[l]), "output order breaks a dependence"); };
  if (H::begin("dfs_CSC_CC", [&]() { return g.s() + " marks=" + str(mk) + " start=" + std::to_string(s); }, g.m() > 0)) {
    IA p(g.p), i(g.i), m(mk), xi(g.n), st(g.n); VI clash; int top = dfs_CSC_CC(g.n, s, p.p, i.p, m.p, g.n, xi.p, st.p, clash, nullptr);
    judge(top, xi.vec(), m.vec(), clash); H::end();
  }
  bool lower = true; for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) lower = lower && w > v;
  if (lower) {
    BG b(r, g);
    if (H::begin("dfs_BCSC_CC", [&]() { return b.s() + " marks=" + str(mk) + " start=" + std::to_string(s); }, g.m() > 0)) {
      std::vector<size_t> a(b.p.begin(), b.p.end()), a2(b.lip.begin(), b.lip.end()); size_t *A = heap(a), *A2 = heap(a2); IA li(b.li), s2c(b.sup2col), c2s(b.col2sup), m(mk), xi(g.n), st(g.n); VI clash;
      int top = dfs_BCSC_CC(g.n, s, A, A2, li.p, s2c.p, c2s.p, m.p, g.n, xi.p, st.p, clash, nullptr); delete[] A; delete[] A2;
      judge(top, xi.vec(), m.vec(), clash); H::end();
    }
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 4; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) one(lowerMask(n, m), r);
  for (unsigned long m = 0; m < 1024; m++) one(lowerMask(5, m), r);
  while (H::timeleft()) { G g = randLower(r, r.chance(5) ? 80 : 16); if (r.chance(50)) g = relabel(g, randPerm(r, g.n)); one(g, r); }
  return H::finish();
}
