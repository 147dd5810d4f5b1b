#include "mat.h"
namespace sym_lib { CSC *permute_general(const CSC *A, const int *pinv, const int *q); void reorder_tree(int n, int *tree, int *post, int *ipost, int *ws); }
using namespace sym_lib;
static void perm(const VI &q, Rng &r) {
  int n = (int)q.size(); auto d = [&]() { return "perm=" + str(q); };
  if (H::begin("compute_inv_perm", d, n > 1)) {
    IA p(q), o(n); int *ret = compute_inv_perm(n, p.p, o.p); CHECK(ret == o.p, "result pointer");
    for (int k = 0; k < n; k++) { CHECK(o.p[q[k]] == k, "inverse wrong"); CHECK(p.p[k] == q[k], "input changed"); }
    H::end();
  }
  if (H::begin("inv_perm", d, n > 1)) {
    IA p(q), o(n), b(n); inv_perm(n, p.p, o.p);
    for (int k = 0; k < n; k++) CHECK(o.p[q[k]] == k && q[o.p[k]] == k, "inverse wrong");
    inv_perm(n, o.p, b.p); CHECK(b.vec() == q, "inverting twice"); H::end();
  }
  if (H::begin("reorder_array", d, n > 1)) {
    VI a(n); for (auto &z : a) z = r.in(-100, 100);
    IA x(a), p(q), w(n); reorder_array(n, x.p, p.p, w.p);
    for (int k = 0; k < n; k++) CHECK(x.p[k] == a[q[k]], "element " << k);
    CHECK(p.vec() == q, "permutation changed"); H::end();
  }
}
static void mat(const M &a, Rng &r) {
  VI q = randPerm(r, a.n), pr = randPerm(r, a.m);
  for (int k = 0; k < 8; k++) {
    bool uq = k & 1, up = k & 2, pat = k & 4;
    if (!H::begin(pat ? "permute_general(pattern)" : "permute_general", [&]() { return a.s() + (uq ? " q=" + str(q) : "") + (up ? " pinv=" + str(pr) : ""); }, a.nnz() > 1)) continue;
    CSC *A = a.csc(pat); IA Q(q), P(pr); CSC *C = permute_general(A, up ? P.p : nullptr, uq ? Q.p : nullptr);
    std::vector<E3> e; for (int c = 0; c < a.n; c++) { int j = uq ? q[c] : c; for (int t = a.p[j]; t < a.p[j + 1]; t++) e.push_back(E3(up ? pr[a.i[t]] : a.i[t], c, pat ? 0 : a.x[t])); }
    std::sort(e.begin(), e.end());
    CHECK((int)C->m == a.m && (int)C->n == a.n, "shape");
    SAME(entOf(a.n, a.m, C->p, C->i, pat ? nullptr : C->x, false, false, "permuted"), e, "permuted entries");
    delete A; delete C; H::end();
  }
}
static void tree(const VI &par0, Rng &r) {
  VI par = par0; if (r.chance(50)) { VI z = randPerm(r, (int)par0.size()); for (int v = 0; v < (int)par0.size(); v++) par[z[v]] = par0[v] < 0 ? -1 : z[par0[v]]; } // any numbering, children after parents too
  int n = (int)par.size(); VI q = randPerm(r, n), inv(n); for (int k = 0; k < n; k++) inv[q[k]] = k;
  if (H::begin("reorder_tree", [&]() { return "parents=" + str(par) + " post=" + str(q); }, n > 1)) {
    IA t(par), P(q), I(inv), w(n); reorder_tree(n, t.p, P.p, I.p, w.p);
    for (int v = 0; v < n; v++) CHECK(t.p[inv[v]] == (par[v] < 0 ? -1 : inv[par[v]]), "parent of relabelled " << v << " is " << t.p[inv[v]]);
    H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) { VI q(n); for (int k = 0; k < n; k++) q[k] = k; do perm(q, r); while (std::next_permutation(q.begin(), q.end())); }
  for (int n = 1; n <= 4; n++) { VI p; long f = 1; for (int k = 2; k <= n; k++) f *= k; for (long no = 0; no < f; no++) { forestNo(n, no, p); tree(p, r); } }
  for (int m = 1; m <= 2; m++) for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (m * n)); k++) mat(maskM(m, n, k), r);
  while (H::timeleft()) { int mx = r.chance(10) ? 60 : 8; perm(randPerm(r, r.in(1, mx)), r); mat(randM(r, r.in(1, mx), r.in(1, mx), r.chance(30), true, r.in(5, 60)), r); tree(randForest(r, r.in(1, mx)), r); }
  return H::finish();
}
