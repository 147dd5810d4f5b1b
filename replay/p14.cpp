#include "mat.h"
using namespace sym_lib;
static void one(const M &a) {
  auto d = [&]() { return a.s(); };
  if (H::begin("csc_to_csr(arrays)", d, a.nnz() > 1)) {
    IA p(a.p), i(a.i); DA x(a.x); int *rp = nullptr, *ci = nullptr; double *v = nullptr;
    csc_to_csr(a.m, a.n, p.p, i.p, x.p, rp, ci, v);
    SAME(entOf(a.m, a.n, rp, ci, v, true, true, "row form"), a.ent(), "row form entries");
    CHECK(rp[a.m] == a.nnz(), "entry count");
    delete[] rp; delete[] ci; delete[] v; H::end();
  }
  if (H::begin("csr_to_csc(arrays)", d, a.nnz() > 1)) {  // a read as a row-stored n x m matrix
    IA p(a.p), i(a.i); DA x(a.x); int *rp = nullptr, *ci = nullptr; double *v = nullptr;
    // the parameters named Ai and Ap are passed on in swapped order: (indices, pointers)
    csr_to_csc(a.n, a.m, i.p, p.p, x.p, rp, ci, v);
    SAME(entOf(a.m, a.n, rp, ci, v, false, true, "column form"), transposedE(a.ent()), "column form entries");
    delete[] rp; delete[] ci; delete[] v; H::end();
  }
  for (int pat = 0; pat < 2; pat++)
    if (a.m > 0 && a.n > 0) {
      auto want = pat ? noVal(a.ent()) : a.ent();
      if (H::begin(pat ? "csc_to_csr(CSC pattern)" : "csc_to_csr(CSC)", d, a.nnz() > 1)) {
        CSC *A = a.csc(pat); CSR *B = csc_to_csr(A);
        CHECK((int)B->m == a.m && (int)B->n == a.n && (int)B->nnz == a.nnz(), "shape");
        SAME(entOf(a.m, a.n, B->p, B->i, pat ? nullptr : B->x, true, true, "row form"), want, "row form entries");
        delete A; delete B; H::end();
      }
      if (H::begin(pat ? "transpose_general(pattern)" : "transpose_general", d, a.nnz() > 1)) {
        CSC *A = a.csc(pat); CSC *B = transpose_general(A);
        CHECK((int)B->m == a.n && (int)B->n == a.m && (int)B->nnz == a.nnz(), "shape");
        SAME(entOf(a.m, a.n, B->p, B->i, pat ? nullptr : B->x, false, true, "transpose"), transposedE(want), "transpose entries");
        delete A; delete B; H::end();
      }
    }
  if (a.m > 0 && a.n > 0 && H::begin("csr_to_csc(CSR)", d, a.nnz() > 1)) {
    CSR *A = new CSR(a.n, a.m, a.nnz()); // rows = a's columns
    std::copy(a.p.begin(), a.p.end(), A->p); std::copy(a.i.begin(), a.i.end(), A->i); std::copy(a.x.begin(), a.x.end(), A->x);
    CSC *B = csr_to_csc(A);
    CHECK((int)B->m == a.n && (int)B->n == a.m && (int)B->nnz == a.nnz(), "shape"); CHECK(!B->is_pattern && B->x, "the column form is marked as having no values");
    SAME(entOf(a.m, a.n, B->p, B->i, B->x, false, true, "column form"), transposedE(a.ent()), "column form entries");
    delete A; H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (m * n)); k++) one(maskM(m, n, k));
  while (H::timeleft()) { int mx = r.chance(10) ? 40 : 8; one(randM(r, r.in(1, mx), r.in(1, mx), r.chance(30), r.chance(50), r.in(5, 80))); }
  return H::finish();
}
