#include "group.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
using namespace sym_lib;
static void check(int n, int ng, IA &gp, IA &gs, IA &gi) { VI p(gp.p, gp.p + gp.n); CHECK(ng >= 0 && ng <= n, ng << " groups"); VI inv = checkGroups(n, ng, p, gs.vec(), "grouping"); for (int v = 0; v < n; v++) CHECK(gi.p[v] == inv[v], "node " << v << " is in group " << inv[v] << " but recorded in " << gi.p[v]); }
static void one(const G &g, Rng &r) {
  auto d = [&]() { return g.s(); }; G t = g.transposed(); // rows with the diagonal last
  VI rp(1, 0), ri; for (int v = 0; v < g.n; v++) { for (int w : t.succ[v]) ri.push_back(w); ri.push_back(v); rp.push_back((int)ri.size()); }
  for (int k = 0; k < 4; k++) {
    const char *nm[] = {"inspection_spicocsc_v1", "inspection_spicocsc_v2", "inspection_sptrsvcsr_v1", "inspection_sptrsvcsr_v2"};
    if (!H::begin(nm[k], d, g.m() > 0)) continue;
    IA p(k < 2 ? g.p : rp), i(k < 2 ? g.i : ri), gp(g.n + 1), gs(g.n), gi(g.n); int ng = -1; group q(g.n, p.p, i.p);
    if (k == 0) q.inspection_spicocsc_v1(gp.p, gs.p, ng, gi.p); else if (k == 1) q.inspection_spicocsc_v2(gp.p, gs.p, ng, gi.p); else if (k == 2) q.inspection_sptrsvcsr_v1(gp.p, gs.p, ng, gi.p); else q.inspection_sptrsvcsr_v2(gp.p, gs.p, ng, gi.p);
    check(g.n, ng, gp, gs, gi);
    if (k == 0 || k == 2) for (int a = 0; a < ng; a++) for (int z = gp.p[a]; z + 1 < gp.p[a + 1]; z++) { int u = gs.p[z]; CHECK(gs.p[z + 1] == u + 1 && std::count(g.succ[u].begin(), g.succ[u].end(), u + 1), "group " << a << " joins " << u << " and " << gs.p[z + 1]); }
    H::end();
  }
  int blk = r.in(1, 5);
  if (H::begin("NaiveGrouping", [&]() { return "n=" + std::to_string(g.n) + " block=" + std::to_string(blk); }, g.n > blk)) {
    int ng = -1, want = (g.n + blk - 1) / blk; IA p(g.p), i(g.i), gp(want + 1), gs(g.n), gi(g.n); group q(g.n, p.p, i.p); q.NaiveGrouping(g.n, gp.p, gs.p, ng, gi.p, blk); check(g.n, ng, gp, gs, gi); CHECK(ng == want, ng << " groups"); for (int v = 0; v < g.n; v++) CHECK(gs.p[v] == v && gi.p[v] == v / blk, "node " << v); H::end();
  }
  int ng; VI gp, gs; randGroups(r, g.n, ng, gp, gs, r.chance(40)); VI inv(g.n); for (int k = 0; k < ng; k++) for (int z = gp[k]; z < gp[k + 1]; z++) inv[gs[z]] = k;
  auto dg = [&]() { return g.s() + " group pointers " + str(gp) + " groups " + str(gs); };
  VVI want(ng); for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (inv[v] != inv[w]) want[inv[v]].push_back(inv[w]); for (auto &x : want) std::sort(x.begin(), x.end());
  if (H::begin("fs_csr_inspector_dep(groups)", dg, g.m() > 0)) { IA a(gp), b(gs), c(inv), p(rp), i(ri); VVI D(ng); fs_csr_inspector_dep(ng, a.p, b.p, c.p, p.p, i.p, D); for (auto &x : D) std::sort(x.begin(), x.end()); CHECK(D == want, "dependences " << str2(D) << " expected " << str2(want)); H::end(); }
  if (H::begin("fs_ic0csc_inspector_group", dg, g.m() > 0)) { IA a(gp), b(gs), c(inv), p(g.p), i(g.i); VVI D(ng); fs_ic0csc_inspector_group(ng, a.p, b.p, c.p, p.p, i.p, D); for (auto &x : D) std::sort(x.begin(), x.end()); CHECK(D == want, "dependences " << str2(D) << " expected " << str2(want)); H::end(); }
  if (H::begin("Group_DAG", dg, g.m() > 0)) { IA a(gp), b(gs), c(inv); VVI D = g.succ; for (int v = 0; v < g.n; v++) if (r.chance(30)) D[v].push_back(v); VVI o = Group_DAG(D, a.p, b.p, c.p, ng), w = want; for (auto &x : w) x.erase(std::unique(x.begin(), x.end()), x.end()); CHECK(o == w, "group graph " << str2(o) << " expected " << str2(w)); H::end(); }
  if (H::begin("fs_csr_inspector_dep", d, g.m() > 0)) { IA p(rp), i(ri); VVI D(g.n); fs_csr_inspector_dep(g.n, p.p, i.p, D); for (auto &x : D) std::sort(x.begin(), x.end()); CHECK(D == g.succ, "dependences " << str2(D)); H::end(); }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) one(lowerMask(n, m), r);
  while (H::timeleft()) one(randLower(r, r.chance(10) ? 90 : 14), r);
  return H::finish();
}
