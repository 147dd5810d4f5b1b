#include "group.h"
#include "aggregation/hdagg.h"
static void one(const G &g, Rng &r) {
  // groups of a contraction without cycles: levels of a coarse order, or consecutive runs
  int ng; VI gp, gs; randGroups(r, g.n, ng, gp, gs, true); VI inv(g.n); for (int k = 0; k < ng; k++) for (int z = gp[k]; z < gp[k + 1]; z++) inv[gs[z]] = k;
  VI shuf = gs; for (int k = 0; k < ng; k++) for (int z = gp[k + 1] - 1; z > gp[k]; z--) std::swap(shuf[z], shuf[gp[k] + r.below(z - gp[k] + 1)]);
  int nl; VI lp, pp, nodes; randSchedule(r, contract(g, ng, inv), nl, lp, pp, nodes);
  for (int mode = 0; mode < 3; mode++) {
    VI set = mode ? shuf : gs;
    if (!H::begin(mode == 2 ? "ungrouping(post order)" : mode ? "ungrouping(sorted)" : "ungrouping", [&]() { return g.s() + " group pointers " + str(gp) + " groups " + str(set) + " levels " + str(lp) + " parts " + str(pp) + " scheduled groups " + str(nodes); }, nl > 1 && ng < g.n)) continue;
    IA p(g.p), i(g.i); VI l2 = lp, p2 = pp, n2 = nodes, a = gp, b = set; HDAGG::ungroupingScheduleAndApplyOrdering(g.n, nl, l2, p2, n2, a, b, p.p, i.p, mode == 1, mode == 2);
    CHECK(l2 == lp && a == gp && b == set, "levels or groups changed"); CHECK(p2.size() == (size_t)lp[nl] + 1 && (int)n2.size() == g.n, "sizes");
    int q = 0; for (int k = 0; k < lp[nl]; k++) { VI want; for (int z = pp[k]; z < pp[k + 1]; z++) for (int t = gp[nodes[z]]; t < gp[nodes[z] + 1]; t++) want.push_back(set[t]); if (mode == 1) std::sort(want.begin(), want.end());
      CHECK(p2[k] == q, "part " << k << " starts at " << p2[k]); q += (int)want.size(); VI got(n2.begin() + p2[k], n2.begin() + std::min((int)n2.size(), q)); if (mode == 2) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); } CHECK(got == want, "part " << k << " lists " << str(got) << ", expected " << str(want)); }
    CHECK(p2[lp[nl]] == g.n, "last boundary"); checkSchedule(g, nl, l2, p2, n2, "ungrouped schedule"); H::end();
  }
  // supernodes from groups of consecutive nodes
  VI sp(1, 0); { VI cut; for (int k = 1; k <= ng; k++) cut.push_back(gp[k]); for (int x : cut) { while (r.chance(40) && sp.back() + 1 < x) sp.push_back(r.in(sp.back() + 1, x - 1)); sp.push_back(x); } }
  int ns = (int)sp.size() - 1;
  if (H::begin("convertCNScheduleToSuperNode", [&]() { return "group pointers " + str(gp) + " supernodes " + str(sp) + " levels " + str(lp) + " parts " + str(pp) + " groups " + str(nodes); }, nl > 1)) {
    IA a(gp), b(gs), c(sp); VI l2 = lp, p2 = pp, n2 = nodes; int L = nl; HDAGG::convertCNScheduleToSuperNode(g.n, ns, a.p, b.p, c.p, L, l2, p2, n2); CHECK(L == nl && l2 == lp, "levels changed"); int q = 0; CHECK(p2[0] == 0, "first boundary");
    for (int k = 0; k < lp[nl]; k++) { VI want; for (int z = pp[k]; z < pp[k + 1]; z++) for (int s = 0; s < ns; s++) if (sp[s] >= gp[nodes[z]] && sp[s + 1] <= gp[nodes[z] + 1]) want.push_back(s); q += (int)want.size(); CHECK(p2[k + 1] == q, "boundary of part " << k); CHECK((int)n2.size() >= q, "node list"); CHECK(VI(n2.begin() + p2[k], n2.begin() + q) == want, "part " << k); } CHECK((int)n2.size() == ns, "supernodes listed"); H::end();
  }
  // loop reordering
  int nl2; VI lp2, pp2, nd2; randSchedule(r, g, nl2, lp2, pp2, nd2);
  if (H::begin("twoDReordering", [&]() { return g.s() + " levels " + str(lp2) + " parts " + str(pp2) + " nodes " + str(nd2); }, g.m() > 0)) {
    IA p(g.p), i(g.i); VI a = lp2, b = pp2, c = nd2, tp; std::vector<HDAGG::twoDIteration> it; HDAGG::twoDReordering(g.n, (int)g.i.size(), p.p, i.p, nl2, a, b, c, 3, tp, it);
    CHECK(a == lp2 && b == pp2 && c == nd2, "schedule changed"); CHECK((int)tp.size() == lp2[nl2] + 1 && tp[0] == 0 && tp.back() == (int)it.size() && it.size() == g.i.size(), "tuple pointers " << str(tp));
    for (int k = 0; k < lp2[nl2]; k++) { std::multiset<int> want, got; for (int z = pp2[k]; z < pp2[k + 1]; z++) for (int t = g.p[nd2[z]]; t < g.p[nd2[z] + 1]; t++) want.insert(t); for (int z = tp[k]; z < tp[k + 1]; z++) { got.insert(it[z].k); CHECK(it[z].k >= g.p[it[z].i] && it[z].k < g.p[it[z].i + 1] && it[z].j == g.i[it[z].k], "iteration " << z); } CHECK(want == got, "part " << k);
      std::map<int, int> seen; // within a row the entries keep ascending columns
      for (int z = tp[k]; z < tp[k + 1]; z++) { if (seen.count(it[z].i)) CHECK(seen[it[z].i] <= it[z].j, "row " << it[z].i << " out of order"); seen[it[z].i] = it[z].j; } } H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 4; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) for (int t = 0; t < 10; t++) one(lowerMask(n, m), r);
  while (H::timeleft()) one(randLower(r, r.chance(10) ? 90 : 14), r);
  return H::finish();
}
