#include "mat.h"
using namespace sym_lib;
static VVI rnd(Rng &r, int n) { VVI s(n); int pct = r.in(0, 70); for (int v = 0; v < n; v++) for (int w = 0; w < n; w++) if (r.chance(pct)) s[v].push_back(w); return s; }
static void flat(const VVI &s, VI &p, VI &i) { p.assign(1, 0); i.clear(); for (auto &x : s) { for (int w : x) i.push_back(w); p.push_back((int)i.size()); } }
static void cmp(int N, const int *p, const int *i, const VVI &want, const char *what) {
  CHECK(p[0] == 0, what << ": first pointer is not 0");
  for (int v = 0; v < N; v++) {
    CHECK(p[v] <= p[v + 1], what << ": pointers decrease");
    VI got(i + p[v], i + p[v + 1]), w = want[v]; std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end());
    CHECK(got == w, what << ": node " << v << " has edges " << str(got) << ", expected " << str(w));
  }
}
static void one(Rng &r, int n, int k, std::vector<VVI> g, std::vector<VVI> dg) {
  std::vector<VI> P(k), I(k), DP(k), DI(k); std::vector<int *> gp, gi, dp, di;
  for (int q = 0; q < k; q++) { flat(g[q], P[q], I[q]); gp.push_back(heap(P[q])); gi.push_back(heap(I[q])); }
  for (int q = 0; q + 1 < k; q++) { flat(dg[q], DP[q], DI[q]); dp.push_back(heap(DP[q])); di.push_back(heap(DI[q])); }
  auto d = [&]() { std::string s = "n=" + std::to_string(n) + " graphs="; for (auto &x : g) s += str2(x) + " "; s += "between="; for (auto &x : dg) s += str2(x) + " "; return s; };
  VVI want(n * k), wantp(n * k); for (int q = 0; q < k; q++) for (int v = 0; v < n; v++) { for (int w : g[q][v]) { want[q * n + v].push_back(q * n + w); wantp[q * n + v].push_back(q * n + w); } if (q + 1 < k) { want[q * n + v].push_back((q + 1) * n + v); for (int w : dg[q][v]) wantp[q * n + v].push_back((q + 1) * n + w); } }
  int **GP = heap(gp), **GI = heap(gi), **XP = heap(dp), **XI = heap(di);
  if (H::begin("merge_graph(arrays)", d, k > 1)) { int *p = nullptr, *i = nullptr; merge_graph(k, n, GP, GI, p, i); cmp(n * k, p, i, want, "merged"); delete[] p; delete[] i; H::end(); }
  if (n > 0 && H::begin("merge_graph(CSC)", d, k > 1)) { CSC *C = merge_graph(k, n, GP, GI); CHECK((int)C->n == n * k && (int)C->m == n * k && (int)C->nnz == C->p[n * k], "shape"); cmp(n * k, C->p, C->i, want, "merged"); delete C; H::end(); }
  if (n > 0 && H::begin("merge_DAGs_with_partial_order", d, k > 1)) {
    CSC *C = merge_DAGs_with_partial_order(k, n, GP, GI, k - 1, XP, XI); CHECK((int)C->n == n * k && (int)C->m == n * k && (int)C->nnz == C->p[n * k], "shape: " << C->nnz << " entries announced, " << C->p[n * k] << " stored");
    cmp(n * k, C->p, C->i, wantp, "merged"); delete C; H::end();
  }
  for (auto *x : gp) delete[] x; for (auto *x : gi) delete[] x; for (auto *x : dp) delete[] x; for (auto *x : di) delete[] x;
  delete[] GP; delete[] GI; delete[] XP; delete[] XI;
}
static void coarse(Rng &r, const VVI &s, int k) {
  int n = (int)s.size(); VI p, i; flat(s, p, i);
  if (!H::begin("coarsen_k_times", [&]() { return "ptr=" + str(p) + " idx=" + str(i) + " k=" + std::to_string(k); }, i.size() > 1)) return;
  IA P(p), I(i); CSC *C = coarsen_k_times(n, (int)i.size(), P.p, I.p, -1, k); int N = (n + k - 1) / k;
  CHECK((int)C->n == N && (int)C->m == N && (int)C->nnz == C->p[N] && C->stype == -1, "shape");
  VVI want(N); for (int v = 0; v < n; v++) for (int w : s[v]) want[v / k].push_back(w / k);
  for (auto &w : want) { std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); }
  cmp(N, C->p, C->i, want, "coarsened"); H::end();
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int k = 1; k <= 3; k++) for (int n = 1; n <= 2; n++) for (int t = 0; t < 60; t++) { std::vector<VVI> g, dg; for (int q = 0; q < k; q++) { g.push_back(rnd(r, n)); if (q) dg.push_back(rnd(r, n)); } one(r, n, k, g, dg); }
  while (H::timeleft()) {
    int n = r.in(1, r.chance(10) ? 30 : 6), k = r.in(1, 4); std::vector<VVI> g, dg; for (int q = 0; q < k; q++) { g.push_back(rnd(r, n)); if (q) dg.push_back(rnd(r, n)); }
    one(r, n, k, g, dg); coarse(r, g[0], r.in(1, n + 2));
  }
  return H::finish();
}
