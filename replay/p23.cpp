#include "mat.h"
#include "aggregation/utils.h"
using namespace sym_lib;
static VD wts(Rng &r, int n) { VD w(n); int k = r.below(7); for (int v = 0; v < n; v++) w[v] = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? r.in(0, 3) : k == 3 ? r.in(1, 100) : k == 4 ? (v == 0 ? 50 : 0) : k == 5 ? r.in(1, 9) / 4.0 : (r.chance(10) ? 1000 : 1); return w; }
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int it = 0; it < 3000 || H::timeleft(); it++) {
    int n = r.in(1, it < 3000 ? 5 : r.chance(10) ? 60 : 12), parts = r.in(1, r.chance(20) ? n + 4 : 5);
    VD w = wts(r, n); VI set = r.chance(50) ? randPerm(r, n) : VI(); if (set.empty()) { set.resize(n); for (int k = 0; k < n; k++) set[k] = k; }
    VD tw(parts); for (auto &z : tw) z = r.in(0, 40); bool given = r.chance(40);
    auto d = [&]() { return "set=" + str(set) + " weight=" + str(w) + " parts=" + std::to_string(parts) + (given ? " target=" + str(tw) : std::string()); };
    if (H::begin("partition_by_weight", d, n > 1 && parts > 1)) {
      IA s(set); DA W(w), T(tw); int *b = partition_by_weight(n, s.p, W.p, parts, given ? T.p : nullptr);
      CHECK(b[0] == 0, "starts at " << b[0]); for (int k = 0; k < parts; k++) CHECK(b[k] <= b[k + 1], "boundaries decrease");
      double all = 0; for (int k = 0; k < n; k++) all += w[k];
      for (int k = 0; k + 1 < parts; k++) { double t = given ? tw[k] : std::ceil(all / parts), s = 0; int e = b[k]; while (e < n && s < t) s += w[set[e++]]; CHECK(b[k + 1] == e, "part " << k << " of target " << t << " ends at " << b[k + 1] << " instead of " << e); }
      CHECK(b[parts] == n, "boundaries end at " << b[parts] << " of " << n);
      delete[] b; H::end();
    }
    M a = randM(r, n, n, false, r.chance(30), r.in(0, 60));
    if (H::begin("partition_by_bfs", [&]() { return a.s() + " " + d(); }, n > 1 && parts > 1)) {
      CSC *A = a.csc(); DA W(w), T(tw); int nl = 0, *lp = nullptr, *pp = nullptr, *np = nullptr;
      partition_by_bfs(n, A, W.p, nl, lp, parts, pp, np, given ? T.p : nullptr);
      CHECK(nl == 1 && lp[0] == 0 && lp[1] == parts, "level pointers");
      CHECK(pp[0] == 0 && pp[parts] == n, "partition pointers end at " << pp[parts]); for (int k = 0; k < parts; k++) CHECK(pp[k] <= pp[k + 1], "partition pointers decrease");
      CHECK(isPerm(np, n), "not every node in exactly one part: " << str(VI(np, np + n)));
      delete A; delete[] lp; delete[] pp; delete[] np; H::end();
    }
  }
  return H::finish();
}
