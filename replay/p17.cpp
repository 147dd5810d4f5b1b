#include "mat.h"
#include "aggregation/hdagg.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/sparse_inspector.h"
using namespace sym_lib;
// fill pattern of the factor of a symmetric pattern given by its lower half; L[j] = rows below the diagonal
static VVI fill(int n, const std::vector<std::pair<int, int>> &e, VI &par) {
  std::vector<std::set<int>> L(n); for (auto &x : e) { int a = std::min(x.first, x.second), b = std::max(x.first, x.second); if (a != b) L[a].insert(b); }
  par.assign(n, -1); for (int j = 0; j < n; j++) { if (!L[j].empty()) { par[j] = *L[j].begin(); for (int k : L[j]) if (k != par[j]) L[par[j]].insert(k); } }
  VVI r(n); for (int j = 0; j < n; j++) r[j] = VI(L[j].begin(), L[j].end()); return r;
}
static void one(int n, const std::vector<std::pair<int, int>> &e, Rng &r, bool shuffle) {
  VI par; VVI L = fill(n, e, par); VVI up(n), lo(n); std::set<std::pair<int, int>> s; for (auto &x : e) s.insert({std::min(x.first, x.second), std::max(x.first, x.second)});
  for (int v = 0; v < n; v++) { up[v].push_back(v); lo[v].push_back(v); } for (auto &x : s) if (x.first != x.second) { up[x.second].push_back(x.first); lo[x.first].push_back(x.second); }
  for (int v = 0; v < n; v++) { std::sort(up[v].begin(), up[v].end()); if (shuffle) for (int k = (int)up[v].size() - 1; k > 0; k--) std::swap(up[v][k], up[v][r.below(k + 1)]); std::sort(lo[v].begin(), lo[v].end()); }
  auto mk = [&](const VVI &c, bool pat, int st) { M m; m.m = m.n = n; for (auto &x : c) { for (int w : x) { m.i.push_back(w); m.x.push_back(1); } m.p.push_back((int)m.i.size()); } return m; };
  VVI fu(n), fl2(n); bool half = r.chance(50); // columns holding entries of both halves: the functions that use one half ignore the other
  for (int v = 0; v < n; v++) { for (int x : up[v]) fu[v].push_back(x); for (int x : lo[v]) if (x != v && (!half || r.chance(50))) fu[v].push_back(x); fl2[v] = lo[v]; for (int x : up[v]) if (x != v && (!half || r.chance(50))) fl2[v].push_back(x); for (VI *z : {&fu[v], &fl2[v]}) { if (!shuffle) std::sort(z->begin(), z->end()); else for (int k = (int)z->size() - 1; k > 0; k--) std::swap((*z)[k], (*z)[r.below(k + 1)]); } }
  M U = mk(up, true, 1), Lo = mk(lo, true, -1), FU = mk(fu, true, 1), FL = mk(fl2, true, -1); auto d = [&]() { return "upper: " + U.s(); };
  bool nt = (int)s.size() > 1;
  for (int both = 0; both < 2; both++) if (H::begin("compute_etree(symmetric)", [&]() { return (both ? FU : U).s(); }, nt)) { CSC *A = (both ? FU : U).csc(false, 1); IA p(n); int ok = compute_etree(A, p.p); CHECK(ok == 1, "returned " << ok); CHECK(p.vec() == par, "tree " << str(p.vec()) << " expected " << str(par)); delete A; H::end(); }
  if (H::begin("compute_etree(lower)", d, nt)) { CSC *A = Lo.csc(false, -1); IA p(n); CHECK(!compute_etree(A, p.p), "a lower half is not supported, yet no failure reported"); delete A; H::end(); }
  M R = U; // the rows of the lower half are the columns of the upper one
  for (int both = 0; both < 2; both++) if (H::begin("computeParents", [&]() { return (both ? FU : R).s(); }, nt)) { const M &Q = both ? FU : R; IA p(Q.p), i(Q.i); VI q; if (r.chance(20)) q = VI(n + 2, 7); int nn = n; HDAGG::computeParents(nn, p.p, i.p, q); CHECK(q == par, "parents " << str(q) << " expected " << str(par)); H::end(); }
  if (H::begin("buildETree", d, nt)) {
    CSR A(n, n, R.nnz()); std::copy(R.p.begin(), R.p.end(), A.p); std::copy(R.i.begin(), R.i.end(), A.i); VI tp(2, 9), ts(3, 9); int ne = -1; HDAGG::buildETree(&A, ne, tp, ts);
    VI wp(1, 0), ws; for (int v = 0; v < n; v++) { ws.push_back(v); if (par[v] >= 0) ws.push_back(par[v]); wp.push_back((int)ws.size()); } CHECK(tp == wp && ts == ws && ne == (int)ws.size(), "tree as graph: " << str(tp) << " " << str(ts)); H::end();
  }
  VI pa = par; std::vector<VI> rows(n); for (int j = 0; j < n; j++) for (int k : L[j]) rows[k].push_back(j);
  int k = r.below(n);
  auto dk = [&]() { return d() + " row " + std::to_string(k); };
  if (H::begin("computeNoneZeroPatternOfRowK", dk, nt && k > 0)) {
    IA p(R.p), i(R.i), q(par), st(n); std::vector<bool> w(n, false); int top = HDAGG::computeNoneZeroPatternOfRowK(n, p.p, i.p, k, q.p, st.p, w); CHECK(top >= 0 && top < n, "top " << top); VI got(st.p + top, st.p + n - 1); CHECK(st.p[n - 1] == k, "last entry is not the row itself");
    VI pos(n, -1); for (size_t z = 0; z < got.size(); z++) pos[got[z]] = (int)z; for (int x : got) if (par[x] != k && par[x] >= 0) CHECK(pos[par[x]] > pos[x], "not in topological order"); std::sort(got.begin(), got.end()); CHECK(got == rows[k], "pattern " << str(got) << " expected " << str(rows[k])); for (int v = 0; v < n; v++) CHECK(!w[v], "mark left on " << v); H::end();
  }
  for (int both = 0; both < 2; both++) if (H::begin("ereach", [&]() { return (both ? FU : U).s() + " row " + std::to_string(k); }, nt && k > 0)) {
    const M &Q = both ? FU : U; IA p(Q.p), i(Q.i), q(par), st(n), w(n, 0); int top = ereach(n, p.p, i.p, k, q.p, st.p, w.p); CHECK(top >= 0 && top <= n, "top " << top); VI got(st.p + top, st.p + n); VI pos(n, -1); for (size_t z = 0; z < got.size(); z++) pos[got[z]] = (int)z; for (int x : got) if (par[x] != k && par[x] >= 0) CHECK(pos[par[x]] > pos[x], "not in topological order"); std::sort(got.begin(), got.end()); CHECK(got == rows[k], "pattern " << str(got) << " expected " << str(rows[k])); for (int v = 0; v < n; v++) CHECK(w.p[v] == 0, "mark left on " << v); H::end();
  }
  // counts: any postorder of the tree
  VI post; { VVI kid(n + 1); for (int v = 0; v < n; v++) kid[par[v] < 0 ? n : par[v]].push_back(v); for (auto &q : kid) for (int z = (int)q.size() - 1; z > 0; z--) std::swap(q[z], q[r.below(z + 1)]); std::function<void(int)> go = [&](int v) { for (int c : kid[v]) go(c); if (v < n) post.push_back(v); }; go(n); }
  VI cc(n); for (int v = 0; v < n; v++) cc[v] = 1 + (int)L[v].size();
  for (int rc = 0; rc < 4; rc++) if (H::begin("row_col_counts_symmetric", [&]() { return (rc & 2 ? FL : Lo).s() + " post=" + str(post); }, nt)) {
    CSC *A = (rc & 2 ? FL : Lo).csc(false, -1); IA p(par), po(post), a(n), b(n), f(n), l(n); size_t fl = 1; bool ok = row_col_counts_symmetric(A, p.p, po.p, rc & 1 ? a.p : nullptr, b.p, f.p, l.p, fl); CHECK(ok, "failed"); CHECK(b.vec() == cc, "column counts " << str(b.vec()) << " expected " << str(cc)); if (rc & 1) for (int v = 0; v < n; v++) CHECK(a.p[v] == 1 + (int)rows[v].size(), "row count of " << v << " is " << a.p[v]);
    size_t w = 0; for (int x : cc) w += (size_t)x * x; CHECK(fl == w, "operation count " << fl); delete A; H::end();
  }
  if (H::begin("build_L_pattern_from_col_counts", d, nt)) {
    CSC *A = U.csc(false, 1); IA c(cc), p(par); DA acc(n); CSC *F = build_L_pattern_from_col_counts(n, A, c.p, p.p, acc.p); CHECK((int)F->n == n && (int)F->m == n && (int)F->nnz == F->p[n], "shape");
    for (int v = 0; v < n; v++) { VI got(F->i + F->p[v], F->i + F->p[v + 1]), want(1, v); want.insert(want.end(), L[v].begin(), L[v].end()); CHECK(got == want, "column " << v << ": " << str(got) << " expected " << str(want)); double w = U.p[v + 1] - U.p[v]; for (int x : rows[v]) w += U.p[x + 1] - U.p[x]; CHECK(acc.p[v] == w, "accessed entries of row " << v << ": " << acc.p[v]); } delete A; delete F; H::end();
  }
}
static void uns(const M &a) { // tree of A'A
  int n = a.n; std::vector<std::pair<int, int>> e; VVI row(a.m); for (int c = 0; c < n; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) row[a.i[k]].push_back(c); for (auto &x : row) for (int u : x) for (int w : x) e.push_back({u, w}); VI par; fill(n, e, par);
  if (H::begin("compute_etree(unsymmetric)", [&]() { return a.s(); }, a.nnz() > 2)) { CSC *A = a.csc(false, 0); IA p(n); CHECK(compute_etree(A, p.p) == 1, "failed"); CHECK(p.vec() == par, "tree " << str(p.vec()) << " expected " << str(par)); delete A; H::end(); }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 5; n++) for (unsigned long m = 0; m < (1ul << (n * (n - 1) / 2)); m++) { G g = lowerMask(n, m); std::vector<std::pair<int, int>> e; for (int a = 0; a < n; a++) for (int b : g.succ[a]) e.push_back({a, b}); one(n, e, r, false); }
  for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (m * n)); k++) uns(maskM(m, n, k));
  while (H::timeleft()) { G g = randLower(r, r.chance(10) ? 60 : 14); if (r.chance(40)) g = relabel(g, randPerm(r, g.n)); std::vector<std::pair<int, int>> e; for (int a = 0; a < g.n; a++) for (int b : g.succ[a]) e.push_back({a, b}); one(g.n, e, r, r.chance(50)); int mx = r.chance(10) ? 40 : 8; uns(randM(r, r.in(1, mx), r.in(1, mx), false, r.chance(50), r.in(5, 50))); }
  return H::finish();
}
