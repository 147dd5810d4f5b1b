#include "mat.h"
using namespace sym_lib;
static void sizes(int n) {
  auto d = [&]() { return "n=" + std::to_string(n); };
  if (H::begin("tridiag", d, n > 1)) {
    CSC *A = tridiag(n, 2, 3, 5); std::vector<E3> e;
    for (int c = 0; c < n; c++) { if (c) e.push_back(E3(c - 1, c, 2)); e.push_back(E3(c, c, 3)); if (c + 1 < n) e.push_back(E3(c + 1, c, 5)); }
    std::sort(e.begin(), e.end()); CHECK((int)A->n == n && (int)A->m == n && (int)A->nnz == A->p[n], "shape");
    SAME(entOf(n, n, A->p, A->i, A->x, false, true, "tridiagonal"), e, "tridiagonal entries"); H::end();
  }
  if (H::begin("diagonal", d, n > 1)) {
    CSC *A = diagonal(n, 7); std::vector<E3> e; for (int c = 0; c < n; c++) e.push_back(E3(c, c, 7));
    CHECK((int)A->n == n && (int)A->m == n && (int)A->nnz == n, "shape");
    SAME(entOf(n, n, A->p, A->i, A->x, false, true, "diagonal"), e, "diagonal entries"); delete A; H::end();
  }
}
static void tree(const VI &par) {
  int n = (int)par.size();
  if (!H::begin("tree_to_csc", [&]() { return "parents=" + str(par); }, n > 1)) return;
  IA t(par); CSC *T = tree_to_csc(n, t.p); std::vector<E3> e; for (int v = 0; v < n; v++) if (par[v] >= 0) e.push_back(E3(v, par[v], 0));
  std::sort(e.begin(), e.end());
  CHECK((int)T->n == n && (int)T->m == n && (int)T->nnz == (int)e.size(), "shape: " << T->nnz << " entries announced, the tree has " << e.size() << " edges");
  SAME(entOf(n, n, T->p, T->i, nullptr, false, true, "tree"), e, "tree edges"); H::end();
}
static void one(const M &a, Rng &r) {
  auto d = [&]() { return a.s(); };
  for (int pat = 0; pat < 2; pat++) if (H::begin(pat ? "copy_sparse(pattern)" : "copy_sparse", d, a.nnz() > 1)) {
    CSC *A = a.csc(pat, -1), *B = copy_sparse(A);
    CHECK(B->n == A->n && B->m == A->m && B->nnz == A->nnz && B->stype == -1, "shape"); CHECK(B->p != A->p, "shares storage");
    if (pat) CHECK(B->x == nullptr, "pattern-only copy has values");
    CHECK(VI(B->p, B->p + a.n + 1) == a.p && VI(B->i, B->i + a.nnz()) == a.i, "pattern differs"); if (!pat) CHECK(VD(B->x, B->x + a.nnz()) == a.x, "values differ");
    delete A; delete B; H::end();
  }
  if (H::begin("copy_from_to(CSC)", d, a.nnz() > 1)) {
    CSC *A = a.csc(), *B = new CSC(a.m, a.n, a.nnz()); for (int k = 0; k <= a.n; k++) B->p[k] = -3;
    copy_from_to(A, B); CHECK(VI(B->p, B->p + a.n + 1) == a.p, "pointers differ: " << str(VI(B->p, B->p + a.n + 1))); CHECK(VI(B->i, B->i + a.nnz()) == a.i && VD(B->x, B->x + a.nnz()) == a.x, "entries differ");
    delete A; delete B; H::end();
  }
  if (H::begin("copy_from_to(CSR)", d, a.nnz() > 1)) {
    CSR *A = new CSR(a.n, a.m, a.nnz()), *B = new CSR(a.n, a.m, a.nnz()); std::copy(a.p.begin(), a.p.end(), A->p); std::copy(a.i.begin(), a.i.end(), A->i); std::copy(a.x.begin(), a.x.end(), A->x);
    for (int k = 0; k <= a.n; k++) B->p[k] = -3;
    copy_from_to(A, B); CHECK(VI(B->p, B->p + a.n + 1) == a.p, "pointers differ"); CHECK(VI(B->i, B->i + a.nnz()) == a.i && VD(B->x, B->x + a.nnz()) == a.x, "entries differ");
    delete A; delete B; H::end();
  }
  if (H::begin("copy_vector_dense", d, a.nnz() > 1)) {
    DA s(a.x), t(a.nnz(), -1); int b = r.in(0, a.nnz()), e = r.in(b, a.nnz()); copy_vector_dense(b, e, s.p, t.p);
    for (int k = 0; k < a.nnz(); k++) CHECK(t.p[k] == (k >= b && k < e ? a.x[k] : -1), "element " << k << " for range " << b << ".." << e); H::end();
  }
  if (H::begin("number_empty_col", d, a.nnz() > 1)) { CSC *A = a.csc(); int e = 0; for (int c = 0; c < a.n; c++) e += a.p[c] == a.p[c + 1]; CHECK(number_empty_col(A) == e, "empty columns"); delete A; H::end(); }
  for (int st = -1; st <= 1; st++) {
    if (st && a.m != a.n) continue;
    M h = st ? halfOf(a, st < 0) : a;
    if (H::begin("sparse2dense", [&]() { return h.s() + " stype=" + std::to_string(st); }, a.nnz() > 1)) {
      CSC *A = h.csc(false, st); DA o(a.m * a.n, -9), w(a.m * a.n, 0); sparse2dense(A, o.p);
      for (int c = 0; c < h.n; c++) for (int k = h.p[c]; k < h.p[c + 1]; k++) { w.p[c * h.m + h.i[k]] = h.x[k]; if (st) w.p[h.i[k] * h.n + c] = h.x[k]; }
      CHECK(o.vec() == w.vec(), "dense form " << str(o.vec())); delete A; H::end();
    }
  }
  if (a.m == a.n) {
    bool first = true; for (int c = 0; c < a.n; c++) first = first && a.p[c] < a.p[c + 1] && a.i[a.p[c]] == c;
    bool nonempty = true; for (int c = 0; c < a.n; c++) nonempty = nonempty && a.p[c] < a.p[c + 1];
    if (nonempty && H::begin("verify_csc_diagonal", d, a.nnz() > 1)) { CSC *A = a.csc(); CHECK(verify_csc_diagonal(A) == first, "diagonal-first test"); delete A; H::end(); }
    if (H::begin("extract_diagonals", d, a.nnz() > 1)) {
      IA p(a.p), i(a.i); int *o = extract_diagonals(a.n, p.p, i.p);
      for (int c = 0; c < a.n; c++) { bool has = false; for (int k = a.p[c]; k < a.p[c + 1]; k++) has = has || a.i[k] == c; if (has) CHECK(o[c] >= a.p[c] && o[c] < a.p[c + 1] && a.i[o[c]] == c, "diagonal position of column " << c << " is " << o[c]); }
      delete[] o; H::end();
    }
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 40; n++) sizes(n);
  for (int n = 1; n <= 5; n++) { VI p; long f = 1; for (int k = 2; k <= n; k++) f *= k; for (long no = 0; no < f; no++) { forestNo(n, no, p); tree(p); } }
  for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (m * n)); k++) one(maskM(m, n, k), r);
  while (H::timeleft()) { int mx = r.chance(10) ? 40 : 8, m = r.in(1, mx), n = r.chance(50) ? m : r.in(1, mx); one(randM(r, m, n, false, r.chance(50), r.in(5, 80)), r); tree(randForest(r, r.in(1, mx))); sizes(r.in(1, 300)); }
  return H::finish();
}
