#include "group.h"
#include "aggregation/hdagg.h"
#include "aggregation/group_utils.h"
using namespace sym_lib;
static void check(const G &g, int ng, const VI &inv, const VI &dp, const VI &ds, const char *what) {
  CHECK((int)dp.size() >= ng + 1 && dp[0] == 0 && dp[ng] == (int)ds.size(), what << ": pointers " << str(dp)); VVI want(ng);
  for (int v = 0; v < g.n; v++) { want[inv[v]].push_back(inv[v]); for (int w : g.succ[v]) want[inv[v]].push_back(inv[w]); }
  for (int k = 0; k < ng; k++) { std::sort(want[k].begin(), want[k].end()); want[k].erase(std::unique(want[k].begin(), want[k].end()), want[k].end()); CHECK(dp[k] <= dp[k + 1], what << ": pointers decrease"); VI got(ds.begin() + dp[k], ds.begin() + dp[k + 1]); CHECK(got == want[k], what << ": group " << k << " lists " << str(got) << ", expected " << str(want[k])); }
}
static void one(const G &g, Rng &r) {
  int ng; VI gp, gs; randGroups(r, g.n, ng, gp, gs, r.chance(40)); VI inv(g.n); for (int k = 0; k < ng; k++) for (int z = gp[k]; z < gp[k + 1]; z++) inv[gs[z]] = k;
  auto d = [&]() { return g.s() + " group pointers " + str(gp) + " groups " + str(gs); };
  if (H::begin("buildGroupDAG", d, g.m() > 0 && ng > 1)) {
    IA p(g.p), i(g.i), a(gp), b(gs); VI dp, ds; if (r.chance(30)) { dp = VI(2, 5); ds = VI(40, 9); } HDAGG::buildGroupDAG(g.n, ng, a.p, b.p, p.p, i.p, dp, ds); check(g, ng, inv, dp, ds, "group graph"); H::end();
  }
  if (H::begin("Group_DAG", d, g.m() > 0 && ng > 1)) {
    IA a(gp), b(gs), c(inv); VVI D(g.n); for (int v = 0; v < g.n; v++) { D[v] = g.succ[v]; if (r.chance(30)) D[v].push_back(v); for (int w : g.succ[v]) if (r.chance(10)) D[v].push_back(w); } VVI o = Group_DAG(D, a.p, b.p, c.p, ng);
    CHECK((int)o.size() == ng, "size"); VVI want(ng); for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (inv[w] != inv[v]) want[inv[v]].push_back(inv[w]);
    for (int k = 0; k < ng; k++) { std::sort(want[k].begin(), want[k].end()); want[k].erase(std::unique(want[k].begin(), want[k].end()), want[k].end()); CHECK(o[k] == want[k], "group " << k << " lists " << str(o[k]) << ", expected " << str(want[k])); } H::end();
  }
  if (!g.acyclic()) return;
  int nl; VI lp, pp, nodes; randSchedule(r, g, nl, lp, pp, nodes);
  if (H::begin("getFinalScheduleDAG", [&]() { return g.s() + " levels " + str(lp) + " parts " + str(pp) + " nodes " + str(nodes); }, g.m() > 0 && nl > 1)) {
    IA p(g.p), i(g.i), a(lp), b(pp), c(nodes); int n2 = -1; VI gp2, gs2, dp, ds; if (r.chance(30)) { gp2 = gs2 = dp = ds = VI(5, 8); } HDAGG::getFinalScheduleDAG(g.n, nl, a.p, b.p, c.p, p.p, i.p, n2, gp2, gs2, dp, ds);
    CHECK((int)gp2.size() == n2 + 1 && (int)gs2.size() == g.n, "sizes"); VI iv = checkGroups(g.n, n2, gp2, gs2, "parts of the schedule"); int k = 0; for (size_t q = 0; q + 1 < pp.size(); q++) if (pp[q] < pp[q + 1]) { for (int z = pp[q]; z < pp[q + 1]; z++) CHECK(iv[nodes[z]] == k, "node " << nodes[z] << " not in its part"); k++; } CHECK(k == n2, "parts"); CHECK(gs2 == nodes, "order of the nodes changed");
    check(g, n2, iv, dp, ds, "schedule graph"); H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 4; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) for (int t = 0; t < 10; t++) one(lowerMask(n, m), r);
  for (unsigned long m = 0; m < 64; m++) for (int t = 0; t < 20; t++) one(anyMask(3, m), r);
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 90 : 14); one(r.chance(40) ? relabel(g, randPerm(r, g.n)) : g, r); }
  return H::finish();
}
