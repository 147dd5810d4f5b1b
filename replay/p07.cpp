#include "common.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
using namespace sym_lib;
static void verify(const G &g, int nl, const VI &lp, const VI &pp, const VI &nd, int cores, bool pack, const VI &wm) {
  CHECK(nl >= 1 && nl <= g.n, nl << " aggregated levels"); CHECK((int)lp.size() == nl + 1, "level pointers: " << lp.size() << " for " << nl << " levels"); checkSchedule(g, nl, lp, pp, nd, "schedule"); CHECK((int)nd.size() == g.n, nd.size() << " nodes listed");
  if (pack) for (int l = 0; l < nl; l++) CHECK(lp[l + 1] - lp[l] <= cores, "level " << l << " has " << lp[l + 1] - lp[l] << " partitions for " << cores << " cores");
  CHECK((int)wm.size() == nl + 1 && wm[0] == 0, "merged windows " << str(wm)); VI lev = g.levels(); int L = 0; for (int l : lev) L = std::max(L, l + 1); for (int l = 0; l < nl; l++) CHECK(wm[l] < wm[l + 1], "merged windows " << str(wm)); CHECK(wm[nl] == L, "merged windows " << str(wm) << " of " << L << " levels");
  for (int l = 0; l < nl; l++) for (int k = lp[l]; k < lp[l + 1]; k++) for (int z = pp[k]; z < pp[k + 1]; z++) CHECK(lev[nd[z]] >= wm[l] && lev[nd[z]] < wm[l + 1], "node " << nd[z] << " of level " << lev[nd[z]] << " in window " << l << " of " << str(wm));
}
static void one(const G &g, Rng &r, const VD &cost, int cores, bool low) {
  auto d = [&]() { std::ostringstream o; o << g.s() << " cores=" << cores << " cost=" << str(cost); return o.str(); };
  VI A, B, C; if (r.chance(20)) { A = VI(3, 7); B = VI(4, 9); C = VI(2, 5); } int z = 0;
  for (int po = 0; po < 2; po++) for (int bp = 0; bp < 2; bp++) {
    std::string o = std::string(po ? "(postorder" : "(") + (bp ? "pack)" : ")");
    if ((low || po || !bp) && H::begin(("HDAGG" + o).c_str(), d, g.m() > 1)) { VI p = g.p, i = g.i; p.shrink_to_fit(); i.shrink_to_fit(); VI lp = A, pp = B, nd = C; int nl = -1; VI wm = HDAGG::HDAGG(g.n, (int)i.size(), p, i, cost, cores, nl, lp, pp, nd, false, po, bp); verify(g, nl, lp, pp, nd, cores, bp, wm); CHECK(p == g.p && i == g.i, "graph changed"); H::end(); }
    if (H::begin(("GLC_V2" + o).c_str(), d, g.m() > 1)) { VI p = g.p, i = g.i; p.shrink_to_fit(); i.shrink_to_fit(); VI lp = A, pp = B, nd = C; int nl = -1; VI wm = HDAGG::GLC_V2(g.n, (int)i.size(), p, i, cost, cores, nl, lp, pp, nd, false, po, bp); verify(g, nl, lp, pp, nd, cores, bp, wm); CHECK(p == g.p && i == g.i, "graph changed"); H::end(); }
  }
  VI lev = g.levels(); int L = 0; for (int l : lev) L = std::max(L, l + 1); VI lp(1, 0), ls; for (int l = 0; l < L; l++) { for (int v = 0; v < g.n; v++) if (lev[v] == l) ls.push_back(v); lp.push_back((int)ls.size()); }
  VI wm(1, 0); while (wm.back() < L) wm.push_back(std::min(L, wm.back() + r.in(1, 4)));
  if (H::begin("computeSchedule", [&]() { return d() + " windows=" + str(wm); }, g.m() > 1)) { IA p(g.p), i(g.i), P(lp), S(ls), N(lev); VI a = A, b = B, c = C, W = wm; int nl = -1; HDAGG::computeSchedule(cores, g.n, p.p, i.p, P.p, S.p, N.p, W, {{0}}, nl, a, b, c, false, false); verify(g, nl, a, b, c, cores, false, wm); H::end(); }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  auto cost = [&](int n) { VD w = randCost(r, n); int k = r.below(5); if (k == 0) for (auto &x : w) x = 0; else if (k == 1) for (auto &x : w) if (r.chance(50)) x = 0; if (k == 2) for (auto &x : w) x = x / 10.0; return w; };
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) { G g = lowerMask(n, m); one(g, r, cost(n), 1 + (int)(m % 4), true); one(relabel(g, randPerm(r, n)), r, cost(n), r.in(1, 4), false); }
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 150 : 24); bool low = !r.chance(25); if (!low) g = relabel(g, randPerm(r, g.n)); one(g, r, cost(g.n), r.in(1, r.chance(20) ? 40 : 5), low); }
  return H::finish();
}
