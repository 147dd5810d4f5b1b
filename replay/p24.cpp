#include "common.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
using namespace sym_lib;
static void cfg(int n, int nnz, int th) {
  if (!H::begin("lbc_config", [&]() { std::ostringstream o; o << "n=" << n << " entries=" << nnz << " threads=" << th; return o.str(); }, n > 0)) return;
  int lp = -7, cp = -7, ic = -7; bool bp = true; lbc_config(n, nnz, th, lp, cp, ic, bp); CHECK(lp >= 1, "partition count " << lp); CHECK(cp >= 0 && ic >= 0, "coarsening factor " << cp << ", initial cut " << ic); CHECK((cp == 0) == (ic == 0), "coarsening factor " << cp << " with initial cut " << ic); H::end();
}
static void drv(const G &g, Rng &r, int cores) {
  VI A, B, C; if (r.chance(40)) { A = VI(r.in(0, 3), 7); B = VI(r.in(0, g.n + 4), 9); C = VI(r.in(0, g.n + 3), 5); }
  if (!H::begin("build_coarsened_level_parallel", [&]() { std::ostringstream o; o << g.s() << " cores=" << cores << " preloaded=" << str(A) << str(B) << str(C); return o.str(); }, g.m() > 0)) return;
  IA p(g.p), i(g.i); int nl = -1; VI lp = A, pp = B, nd = C; HDAGG::build_coarsened_level_parallel(g.n, p.p, i.p, cores, nl, lp, pp, nd);
  checkSchedule(g, nl, lp, pp, nd, "schedule"); H::end();
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 0; n <= 12; n++) for (int k = 0; k <= 12; k++) for (int z = 0; z < 20; z++) for (int th = 1; th <= 3; th++) cfg(n, z < 13 ? n * k / 2 + z : n * 10 * (z - 12) + k - 6 < 0 ? 0 : n * 10 * (z - 12) + k - 6, th);
  drv(G(0, {}), r, 1);
  for (int n = 1; n <= 4; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) { G g = lowerMask(n, m); drv(g, r, 1 + (int)(m % 3)); drv(relabel(g, randPerm(r, n)), r, 2); }
  while (H::timeleft()) {
    cfg(r.chance(50) ? r.below(50) : r.below(2000000000), r.chance(50) ? r.below(5000) : r.below(2000000000), r.in(1, 100));
    G g = randLower(r, 40); if (r.chance(30)) g = relabel(g, randPerm(r, g.n)); drv(g, r, r.in(1, 6));
    // dense enough to reach the coarsened path
    int n = r.in(20, r.chance(10) ? 230 : 60), pct = n > 100 ? r.in(85, 100) : r.in(30, 100); std::vector<std::pair<int, int>> e; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (r.chance(pct)) e.push_back({a, b}); G h(n, e); if (r.chance(30)) h = relabel(h, randPerm(r, n)); drv(h, r, r.in(1, 6));
    // many short columns joined by hubs: few levels, high ratio
    e.clear(); int hubs = r.in(1, 3); for (int a = 0; a < n; a++) for (int k = 0; k < 24; k++) { int b = r.in(0, n - 1); if (a % (hubs + 4) < b % (hubs + 4)) e.push_back({a, b}); } drv(G(n, e), r, r.in(1, 6));
  }
  return H::finish();
}
