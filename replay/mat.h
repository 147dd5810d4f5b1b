// Sparse matrices for the harnesses: exact-size storage, every entry with its own value.
#pragma once
#include "common.h"
#include "aggregation/def.h"
#include "aggregation/sparse_utilities.h"
using sym_lib::CSC; using sym_lib::CSR;
typedef std::tuple<int, int, double> E3;   // row, column, value
struct M {
  int m, n; VI p, i; VD x;
  M() : m(0), n(0), p(1, 0) {}
  int nnz() const { return (int)i.size(); }
  std::string s() const { std::ostringstream o; o << "rows=" << m << " cols=" << n << " ptr=" << str(p) << " idx=" << str(i) << " val=" << str(x); return o.str(); }
  std::vector<E3> ent() const { std::vector<E3> e; for (int c = 0; c < n; c++) for (int k = p[c]; k < p[c + 1]; k++) e.push_back(E3(i[k], c, x[k])); std::sort(e.begin(), e.end()); return e; }
  // owned by the caller; the arrays are exactly as long as the entry count
  CSC *csc(bool pattern = false, int st = 0) const { CSC *A = new CSC(m, n, nnz(), pattern, st); std::copy(p.begin(), p.end(), A->p); std::copy(i.begin(), i.end(), A->i); if (!pattern) std::copy(x.begin(), x.end(), A->x); return A; }
};
inline M fromEntries(int m, int n, const std::vector<E3> &e) { // column-major in the order given
  M a; a.m = m; a.n = n; a.p.assign(1, 0);
  for (int c = 0; c < n; c++) { for (auto &t : e) if (std::get<1>(t) == c) { a.i.push_back(std::get<0>(t)); a.x.push_back(std::get<2>(t)); } a.p.push_back((int)a.i.size()); }
  return a;
}
// random m x n matrix; dup: allow repeated entries; unsorted: shuffle each column
inline M randM(Rng &r, int m, int n, bool dup, bool unsorted, int pct) {
  std::vector<E3> e; int v = 1;
  for (int c = 0; c < n; c++) {
    std::vector<E3> col;
    bool empty = r.chance(15);
    for (int k = 0; k < m && !empty; k++) { int t = r.chance(pct) ? 1 + (dup && r.chance(20)) : 0; while (t--) col.push_back(E3(k, c, v++)); }
    if (unsorted) for (int k = (int)col.size() - 1; k > 0; k--) std::swap(col[k], col[r.below(k + 1)]);
    e.insert(e.end(), col.begin(), col.end());
  }
  return fromEntries(m, n, e);
}
// all m x n patterns
inline M maskM(int m, int n, unsigned long mask) { std::vector<E3> e; int b = 0; for (int c = 0; c < n; c++) for (int k = 0; k < m; k++, b++) if (mask >> b & 1) e.push_back(E3(k, c, b + 1)); return fromEntries(m, n, e); }
// square symmetric pattern's lower half incl. some diagonal
inline M halfOf(const M &a, bool lower) { std::vector<E3> e; for (int c = 0; c < a.n; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) if (lower ? a.i[k] >= c : a.i[k] <= c) e.push_back(E3(a.i[k], c, a.x[k])); return fromEntries(a.m, a.n, e); }
inline std::vector<E3> transposedE(std::vector<E3> e) { for (auto &t : e) t = E3(std::get<1>(t), std::get<0>(t), std::get<2>(t)); std::sort(e.begin(), e.end()); return e; }
inline std::string estr(const std::vector<E3> &e) { std::ostringstream o; for (auto &t : e) o << "(" << std::get<0>(t) << "," << std::get<1>(t) << ")=" << std::get<2>(t) << " "; return o.str(); }
// the entries stored in raw compressed arrays: major pointers p of length n+1
inline std::vector<E3> entOf(int nmaj, int nmin, const int *p, const int *i, const double *x, bool rowMajor, bool sortedReq, const char *what) {
  std::vector<E3> e;
  CHECK(p[0] == 0, what << ": first pointer is not 0");
  for (int c = 0; c < nmaj; c++) {
    CHECK(p[c] <= p[c + 1], what << ": pointers decrease at " << c);
    for (int k = p[c]; k < p[c + 1]; k++) {
      CHECK(i[k] >= 0 && i[k] < nmin, what << ": index " << i[k] << " out of range");
      if (sortedReq && k > p[c]) CHECK(i[k - 1] <= i[k], what << ": indices not sorted in " << c);
      e.push_back(rowMajor ? E3(c, i[k], x ? x[k] : 0) : E3(i[k], c, x ? x[k] : 0));
    }
  }
  std::sort(e.begin(), e.end()); return e;
}
inline std::vector<E3> noVal(std::vector<E3> e) { for (auto &t : e) std::get<2>(t) = 0; std::sort(e.begin(), e.end()); return e; }
#define SAME(a, b, what) do { auto _a = (a); auto _b = (b); if (_a != _b) { std::ostringstream _o; _o << what << ": got " << estr(_a) << " expected " << estr(_b); H::fail(_o.str()); } } while (0)
