#include "mat.h"
#include "aggregation/BCSCMatrix.h"
using namespace sym_lib;
static void checkB(BCSC *B, const M &a, const char *what) {
  int n = a.n, ns = (int)B->nodes; CHECK(ns >= 1 && ns <= n, what << ": " << ns << " supernodes"); CHECK(B->supernodes[0] == 0 && B->supernodes[ns] == n, what << ": supernodes do not cover the columns");
  std::vector<E3> e; CHECK(B->p[0] == 0, "first pointer");
  for (int k = 0; k < ns; k++) { int s = B->supernodes[k], t = B->supernodes[k + 1]; CHECK(s < t, what << ": supernode " << k << " is empty"); std::set<int> rows; for (int c = s; c < t; c++) for (int z = a.p[c]; z < a.p[c + 1]; z++) rows.insert(a.i[z]);
    VI R(rows.begin(), rows.end()); int nr = (int)R.size(); CHECK(B->nrows[k] == nr, what << ": block " << k << " has " << B->nrows[k] << " rows, expected " << nr); CHECK(B->p[k + 1] - B->p[k] == nr * (t - s), what << ": size of block " << k);
    for (int c = s; c < t; c++) for (int z = 0; z < nr; z++) { int q = B->p[k] + (c - s) * nr + z; CHECK(B->i[q] == R[z], what << ": row at " << q); double w = 0; for (int y = a.p[c]; y < a.p[c + 1]; y++) if (a.i[y] == R[z]) w = a.x[y]; CHECK(B->x[q] == w, what << ": value of (" << R[z] << "," << c << ") is " << B->x[q] << ", expected " << w); } }
  CHECK((int)B->nnz == B->p[ns], "entry count");
}
static void graph(BCSCMatrix &X, const M &a) {
  BCSC *B = X.getBCSC(); int ns = (int)B->nodes; VI sup(a.n); for (int k = 0; k < ns; k++) for (int c = B->supernodes[k]; c < B->supernodes[k + 1]; c++) sup[c] = k;
  VVI want(ns); for (int c = 0; c < a.n; c++) for (int z = a.p[c]; z < a.p[c + 1]; z++) want[sup[c]].push_back(sup[a.i[z]]);
  CSC *C = X.compressed_BCSC_to_CSC(); CHECK((int)C->n == ns && (int)C->m == ns && (int)C->nnz == C->p[ns], "shape of the graph: " << C->nnz << " entries announced, " << C->p[ns] << " stored");
  for (int k = 0; k < ns; k++) { std::sort(want[k].begin(), want[k].end()); want[k].erase(std::unique(want[k].begin(), want[k].end()), want[k].end()); CHECK(C->p[k] <= C->p[k + 1], "pointers"); VI got(C->i + C->p[k], C->i + C->p[k + 1]); CHECK(got == want[k], "supernode " << k << " lists " << str(got) << ", expected " << str(want[k])); } delete C;
}
static void one(const G &g, Rng &r) {
  M a; a.m = a.n = g.n; a.p = g.p; a.i = g.i; for (int k = 0; k < (int)g.i.size(); k++) a.x.push_back(k + 1); auto d = [&]() { return a.s(); };
  CSC *A = a.csc(false, -1);
  if (H::begin("BCSCMatrix(A)", d, g.m() > 1)) {
    BCSCMatrix X(A); BCSC *B = X.getBCSC(); checkB(B, a, "blocks"); for (int k = 0; k < (int)B->nodes; k++) for (int c = B->supernodes[k] + 1; c < B->supernodes[k + 1]; c++) { VI x(a.i.begin() + a.p[c - 1] + 1, a.i.begin() + a.p[c]), y(a.i.begin() + a.p[c], a.i.begin() + a.p[c + 1]); CHECK(x == y, "columns " << c - 1 << " and " << c << " do not share their rows"); } H::end();
  }
  if (H::begin("compressed_BCSC_to_CSC", d, g.m() > 1)) { BCSCMatrix X(A); graph(X, a); H::end(); }
  VI sp(1, 0); while (sp.back() < g.n) sp.push_back(std::min(g.n, sp.back() + r.in(1, 3)));
  auto d2 = [&]() { return a.s() + " supernodes=" + str(sp); };
  if (H::begin("BCSCMatrix(A,supernodes)", d2, g.m() > 1)) { IA s(sp); BCSCMatrix X(A, (int)sp.size() - 1, s.p); BCSC *B = X.getBCSC(); CHECK(VI(B->supernodes, B->supernodes + B->nodes + 1) == sp, "supernodes changed"); checkB(B, a, "blocks"); H::end(); }
  if (H::begin("compressed_BCSC_to_CSC(supernodes)", d2, g.m() > 1)) { IA s(sp); BCSCMatrix X(A, (int)sp.size() - 1, s.p); graph(X, a); H::end(); }
  int lim = r.in(1, 4);
  if (H::begin("supernodes(limit)", [&]() { return a.s() + " limit=" + std::to_string(lim); }, g.m() > 1)) { BCSCMatrix X(A); BCSC *B = X.getBCSC(); delete[] B->supernodes; int ns = X.supernodes(A, lim, true); CHECK(B->supernodes[0] == 0 && B->supernodes[ns] == g.n, "supernodes do not cover the columns"); for (int k = 0; k < ns; k++) { int w = B->supernodes[k + 1] - B->supernodes[k]; CHECK(w >= 1 && w <= lim + 1, "width " << w); } H::end(); }
  { M u; u.m = u.n = g.n; u.p.assign(1, 0); for (int c = g.n - 1; c >= 0; c--) { for (int z = g.p[c + 1] - 1; z >= g.p[c]; z--) { u.i.push_back(g.n - 1 - g.i[z]); u.x.push_back(z + 1); } u.p.push_back((int)u.i.size()); }   // the mirror image: upper triangular
    if (H::begin("supernodes(upper)", [&]() { return u.s() + " limit=" + std::to_string(lim); }, g.m() > 1)) { CSC *U = u.csc(false, 1); BCSCMatrix X(A); BCSC *B = X.getBCSC(); delete[] B->supernodes; int ns = X.supernodes(U, lim, false); CHECK(ns >= 1 && B->supernodes[0] == g.n - 1 && B->supernodes[ns] == -1, "supernodes do not cover the columns");
      for (int k = 0; k < ns; k++) { int w = B->supernodes[k] - B->supernodes[k + 1]; CHECK(w >= 1 && w <= lim + 1, "width " << w); for (int c = B->supernodes[k] - 1; c > B->supernodes[k + 1]; c--) { VI x(u.i.begin() + u.p[c + 1], u.i.begin() + u.p[c + 2] - 1), y(u.i.begin() + u.p[c], u.i.begin() + u.p[c + 1]); CHECK(x == y, "columns " << c << " and " << c + 1 << " do not share their rows"); } } delete U; H::end(); } }
  delete A;
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) one(lowerMask(n, m), r);
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 70 : 14); if (r.chance(40)) { BG b(r, g); G h; h.n = b.n; h.succ = VVI(b.n); for (int q = 0; q < b.n; q++) for (int k = b.p[q]; k < b.p[q + 1]; k++) if (b.i[k] != q) h.succ[q].push_back(b.i[k]); h.build(); g = h; } one(g, r); }
  return H::finish();
}
