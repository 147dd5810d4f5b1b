#include "group.h"
#include "aggregation/hdagg.h"
namespace HDAGG { bool treeBasedGrouping_Aggressive(int n, std::vector<int> &DAG_ptr, std::vector<int> &DAG_set, int &ngroups, std::vector<int> &group_ptr, std::vector<int> &group_set, bool r); }
typedef bool (*GF)(int, VI &, VI &, int &, VI &, VI &, bool);
static bool chain(int n, VI &p, VI &i, int &ng, VI &gp, VI &gs, bool) { return HDAGG::chainGrouping(n, p, i, ng, gp, gs); }
static void one(const G &g, Rng &r) {
  struct { const char *nm; GF f; int kind; } fs[] = {{"treeBasedGrouping", HDAGG::treeBasedGrouping, 0}, {"treeBasedGrouping_Aggressive", HDAGG::treeBasedGrouping_Aggressive, 0}, {"treeBasedGroupingBFS", HDAGG::treeBasedGroupingBFS, 0}, {"chainGrouping", chain, 1}};
  for (auto &q : fs) for (int lim = 0; lim < (q.kind ? 1 : 2); lim++) {
    if (!H::begin(q.nm, [&]() { return g.s() + (lim ? " size limit" : ""); }, g.m() > 1)) continue;
    VI p = g.p, i = g.i, gp, gs; if (r.chance(40)) { gp = VI(3, 7); gs = VI(2, 9); } int ng = -3; q.f(g.n, p, i, ng, gp, gs, lim);
    CHECK((int)gp.size() == ng + 1, ng << " groups but " << gp.size() << " pointers"); VI inv = checkGroups(g.n, ng, gp, gs, q.nm);
    CHECK(contract(g, ng, inv).acyclic(), "contracting the groups " << str(inv) << " makes a cycle");
    if (!lim) checkConnected(g, ng, inv, q.nm);
    for (int k = 1; k < ng; k++) { int a = g.n, b = g.n; for (int z = gp[k - 1]; z < gp[k]; z++) a = std::min(a, gs[z]); for (int z = gp[k]; z < gp[k + 1]; z++) b = std::min(b, gs[z]); CHECK(a < b, "groups are not numbered by their smallest nodes"); }
    VI outd(g.n, 0), ind(g.n, 0); for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) { outd[v]++; ind[w]++; }
    if (q.kind) for (int k = 0; k < ng; k++) for (int z = gp[k]; z + 1 < gp[k + 1]; z++) CHECK(outd[gs[z]] == 1 && g.succ[gs[z]][0] == gs[z + 1] && ind[gs[z + 1]] == 1, "group " << k << " is no chain");
    else if (!lim) { VI leave(ng, 0); for (int v = 0; v < g.n; v++) { bool out = outd[v] == 0; for (int w : g.succ[v]) out = out || inv[w] != inv[v]; if (out) leave[inv[v]]++; } for (int k = 0; k < ng; k++) CHECK(leave[k] == 1, "group " << k << " has " << leave[k] << " roots"); }
    CHECK(p == g.p && i == g.i, "input graph changed"); H::end();
  }
  // supernodes inside a schedule of groups
  int ng; VI gp, gs; randGroups(r, g.n, ng, gp, gs, true); VI inv(g.n); for (int k = 0; k < ng; k++) for (int z = gp[k]; z < gp[k + 1]; z++) inv[gs[z]] = k;
  int nl; VI lp, pp, nodes; randSchedule(r, contract(g, ng, inv), nl, lp, pp, nodes);
  if (H::begin("aggressiveSupernodeGrouping", [&]() { return g.s() + " groups " + str(gp) + " levels " + str(lp) + " parts " + str(pp) + " nodes " + str(nodes); }, g.m() > 1)) {
    IA p(g.p), i(g.i), a(gp), b(gs); VI l2 = lp, p2 = pp, n2 = nodes; double av = HDAGG::aggressiveSupernodeGrouping(g.n, a.p, b.p, p.p, i.p, nl, l2, p2, n2);
    CHECK(l2 == lp && p2 == pp && n2 == nodes && a.vec() == gp && b.vec() == gs, "input changed");
    double c = g.n / av; CHECK(av >= 1 && av <= g.n && fabs(c - (int)(c + 0.5)) < 1e-9, "average size " << av << " of " << g.n << " nodes"); H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) one(lowerMask(n, m), r);
  while (H::timeleft()) one(randLower(r, r.chance(3) ? 3000 : r.chance(10) ? 100 : 14), r);
  return H::finish();
}
