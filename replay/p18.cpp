#include "common.h"
#include "aggregation/hdagg.h"
static void one(const G &g) {
  for (int cl = 0; cl < 2; cl++) {
    if (!H::begin(cl ? "partialSparsification(cliques)" : "partialSparsification", [&]() { return g.s(); }, g.m() > 1)) continue;
    IA p(g.p), i(g.i); VI dp, ds; HDAGG::partialSparsification(g.n, (int)g.i.size(), p.p, i.p, dp, ds, cl); CHECK((int)dp.size() == g.n + 1 && dp[0] == 0 && dp[g.n] == (int)ds.size(), "pointers " << str(dp)); G h; h.n = g.n; h.succ = VVI(g.n);
    for (int v = 0; v < g.n; v++) { CHECK(dp[v] < dp[v + 1] && ds[dp[v]] == v, "node " << v << " does not come first in its list"); int last = v; for (int k = dp[v] + 1; k < dp[v + 1]; k++) { CHECK(ds[k] > last && ds[k] < g.n, "list of " << v << " is not ascending"); last = ds[k]; CHECK(std::count(g.succ[v].begin(), g.succ[v].end(), ds[k]), "new edge " << v << "->" << ds[k]); h.succ[v].push_back(ds[k]); } }
    h.build(); CHECK(h.reach() == g.reach(), "a dependence was lost: " << h.s()); H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) one(lowerMask(n, m));
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 70 : 14); if (r.chance(30)) { // cliques: consecutive nodes sharing their successors
      std::vector<std::pair<int, int>> e; int n = g.n; for (int v = 0; v < n;) { int w = std::min(n, v + r.in(1, 4)); VI t; for (int k = w; k < n; k++) if (r.chance(20)) t.push_back(k); for (int a = v; a < w; a++) { for (int b = a + 1; b < w; b++) e.push_back({a, b}); for (int k : t) e.push_back({a, k}); } v = w; } g = G(n, e); } one(g); }
  return H::finish();
}
