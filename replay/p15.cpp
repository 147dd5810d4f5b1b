#include "mat.h"
namespace sym_lib { CSC *add(CSC *A, CSC *B, double alpha, double beta, bool sort); }
using namespace sym_lib;
static std::vector<E3> mirror(const std::vector<E3> &h) { std::vector<E3> e = h; for (auto &t : h) if (std::get<0>(t) != std::get<1>(t)) e.push_back(E3(std::get<1>(t), std::get<0>(t), std::get<2>(t))); std::sort(e.begin(), e.end()); return e; }
// sum of duplicate positions
static std::vector<E3> summed(std::vector<E3> e) { std::map<std::pair<int, int>, double> q; for (auto &t : e) q[{std::get<0>(t), std::get<1>(t)}] += std::get<2>(t); std::vector<E3> o; for (auto &z : q) o.push_back(E3(z.first.first, z.first.second, z.second)); return o; }
static void one(const M &a, Rng &r) {
  int n = a.n; auto d = [&]() { return a.s(); };
  for (int lower = 0; lower < 2; lower++) {
    M h = halfOf(a, lower);
    for (int pat = 0; pat < 2; pat++)
      if (H::begin(pat ? "make_half(pattern)" : "make_half", [&]() { return a.s() + (lower ? " lower" : " upper"); }, a.nnz() > 1)) {
        IA p(a.p), i(a.i); DA x(a.x);
        CSC *B = make_half(n, p.p, i.p, pat ? nullptr : x.p, lower);
        CHECK((int)B->n == n && (int)B->m == n && (int)B->nnz == h.nnz(), "shape");
        CHECK(B->stype == (lower ? -1 : 1), "storage mark is " << B->stype);
        SAME(entOf(n, n, B->p, B->i, pat ? nullptr : B->x, false, false, "half"), pat ? noVal(h.ent()) : h.ent(), "half entries");
        delete B; H::end();
      }
    int st = lower ? -1 : 1;
    auto dh = [&]() { return h.s() + (lower ? " stored lower" : " stored upper"); };
    if (H::begin("make_full", dh, h.nnz() > 1)) {
      CSC *A = h.csc(false, st); CSC *F = make_full(A);
      CHECK((int)F->n == n && (int)F->m == n && (int)F->nnz == F->p[n], "shape");
      SAME(entOf(n, n, F->p, F->i, F->x, false, false, "full"), mirror(h.ent()), "full entries");
      CSC *B = make_half(n, F->p, F->i, F->x, lower);
      SAME(entOf(n, n, B->p, B->i, B->x, false, false, "half of full"), h.ent(), "half of full entries");
      delete A; delete F; delete B; H::end();
    }
    for (int pm = 0; pm < 2; pm++) {
      VI q = randPerm(r, n); VI inv(n); for (int k = 0; k < n; k++) inv[q[k]] = k;
      if (H::begin("transpose_symmetric", [&]() { return dh() + (pm ? " perm=" + str(q) : std::string(" no perm")); }, h.nnz() > 1)) {
        CSC *A = h.csc(false, st); IA P(q); CSC *F = transpose_symmetric(A, pm ? P.p : nullptr);
        CHECK(F, "rejected"); CHECK(F->stype == -st, "storage mark");
        std::vector<E3> w; for (auto &t : h.ent()) { int i = std::get<0>(t), j = std::get<1>(t); if (pm) { i = inv[i]; j = inv[j]; } int lo = std::min(i, j), hi = std::max(i, j); w.push_back(lower ? E3(lo, hi, std::get<2>(t)) : E3(hi, lo, std::get<2>(t))); }
        std::sort(w.begin(), w.end());
        SAME(entOf(n, n, F->p, F->i, F->x, false, false, "transpose"), w, "permuted half entries");
        delete A; delete F; H::end();
      }
      if (pm && n > 0 && H::begin("transpose_symmetric(bad perm)", [&]() { return dh() + " perm=" + str(q); }, true)) {
        int w = (q[0] + q[n - 1]) % n; q[w] = (q[0] & 1) ? n : q[(w + 1) % n];   // out of range, or twice the same
        if (n == 1) q[0] = 1;
        CSC *A = h.csc(false, st); IA P(q); CSC *F = transpose_symmetric(A, P.p);
        CHECK(!F, "an array that is no permutation was accepted"); delete A; H::end();
      }
    }
  }
  if (H::begin("make_symmetric", d, a.nnz() > 1))
    { for (int lower = 0; lower < 2; lower++) {
        CSC *A = a.csc(false, 0); CSC *S = make_symmetric(A, lower);
        std::vector<E3> e; for (auto &t : a.ent()) { int i = std::get<0>(t), j = std::get<1>(t); double v = std::get<2>(t) * 0.5; if (lower ? i >= j : i <= j) e.push_back(E3(i, j, v)); if (lower ? j >= i : j <= i) e.push_back(E3(j, i, v)); }
        CHECK(S->stype == (lower ? -1 : 1), "storage mark");
        SAME(entOf(n, n, S->p, S->i, S->x, false, true, "symmetric"), summed(e), "symmetrised entries");
        delete A; delete S;
      } H::end(); }
  for (int st = -1; st <= 1; st += 2) for (int lower = 0; lower < 2; lower++) { M h = halfOf(a, st < 0);
    if (H::begin("make_symmetric(half)", [&]() { return h.s() + (st < 0 ? " stored lower" : " stored upper") + (lower ? " asked lower" : " asked upper"); }, h.nnz() > 1)) {
      CSC *A = h.csc(false, st), *S = make_symmetric(A, lower); CHECK(S, "rejected"); CHECK(S->stype == (lower ? -1 : 1) || S == A, "storage mark is " << S->stype);
      std::vector<E3> e = mirror(entOf(n, n, S->p, S->i, S->x, false, false, "symmetric")); SAME(e, mirror(h.ent()), "entries of the symmetric matrix");
      if (S != A) delete S; delete A; H::end(); } }
  if (H::begin("add", d, a.nnz() > 1)) {
    CSC *A = a.csc(false, 0); M b = a; std::reverse(b.x.begin(), b.x.end()); for (auto &z : b.i) z = (z + 1) % std::max(1, a.m);
    CSC *B = b.csc(false, 0); CSC *C = add(A, B, 2, -3, true); std::vector<E3> e;
    for (auto &t : a.ent()) e.push_back(E3(std::get<0>(t), std::get<1>(t), 2 * std::get<2>(t)));
    for (auto &t : b.ent()) e.push_back(E3(std::get<0>(t), std::get<1>(t), -3 * std::get<2>(t)));
    SAME(entOf(n, a.m, C->p, C->i, C->x, false, true, "sum"), summed(e), "sum entries");
    delete A; delete B; delete C; H::end();
  }
  for (int k = 1; k < 4; k++) if (H::begin("add(pattern)", [&]() { return a.s() + " first " + (k & 1 ? "pattern" : "valued") + ", second " + (k & 2 ? "pattern" : "valued"); }, a.nnz() > 1)) {
    M b = a; for (auto &z : b.i) z = (z + 1) % std::max(1, a.m);
    CSC *A = a.csc(k & 1, 0), *B = b.csc(k & 2, 0); CSC *C = add(A, B, 2, -3, true); std::vector<E3> e = a.ent(), f = b.ent(); e.insert(e.end(), f.begin(), f.end());
    CHECK(C->is_pattern && !C->x, "the sum of a matrix without values is " << (C->is_pattern ? "" : "not ") << "marked pattern-only and has " << (C->x ? "" : "no ") << "values");
    SAME(entOf(n, a.m, C->p, C->i, nullptr, false, true, "sum"), noVal(summed(e)), "sum pattern");
    CSC *S = copy_sparse(C); SAME(entOf(n, a.m, S->p, S->i, nullptr, false, true, "copy"), noVal(summed(e)), "copy of the sum"); delete S;
    delete A; delete B; delete C; H::end();
  }
  if (H::begin("add(storage)", d, a.nnz() > 1)) { CSC *A = a.csc(false, 0), *B = a.csc(false, 1); CHECK(!add(A, B, 1, 1, true), "matrices stored differently were added"); B->stype = 0; CSC *C = add(A, B, 1, 1, true); CHECK(C && C->stype == 0 && !C->is_pattern, "mark of the sum"); delete A; delete B; delete C; H::end(); }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (n * n)); k++) one(maskM(n, n, k), r);
  while (H::timeleft()) { int n = r.in(1, r.chance(10) ? 30 : 8); one(randM(r, n, n, r.chance(20), r.chance(40), r.in(5, 80)), r); }
  return H::finish();
}
