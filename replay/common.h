// Shared by all executable-contract harnesses: case generation, case bookkeeping, oracles for graphs and matrices.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#include <vector>
#include <iostream>
#include <fstream>
typedef std::vector<int> VI;
typedef std::vector<double> VD;
typedef std::vector<std::vector<int>> VVI;

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  int in(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
};

// ------------------------------------------------------------------ bookkeeping
namespace H {
static long long cases = 0, nontrivial = 0, only = -1, shard = 0, shards = 1, idx = 0;
static double tlimit = 5;
static uint64_t seed = 1;
static std::string cur, curfn;            // description of the running case
static std::function<std::string()> curdesc;
static std::map<std::string, long long> per;
static std::set<std::string> known;       // known findings, given as function|class keys
static std::vector<std::string> samples;
static bool failed = false, rnd = false;
static struct timeval t0;
static std::string onlyfn;
static FILE *rep = stdout;
inline double now() { struct timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec); }
inline void dump(const char *why) {
  fprintf(rep, "FAIL fn=%s case=%lld why=%s\n", curfn.c_str(), idx, why);
  std::string d = curdesc ? curdesc() : cur;
  fprintf(rep, "INPUT %s\n", d.c_str());
  fflush(rep);
}
inline void on_death() { if (!failed) { failed = true; dump("sanitizer report (see log)"); } }
inline void on_alarm(int) { dump("no answer within the time allowed for one call (endless loop)"); _exit(3); }
inline void on_segv(int sg) { if (!failed) { failed = true; dump("abort (sanitizer report, library assertion or uncaught exception; see log)"); } _exit(3); }
// true if this case is to be run by this shard
inline bool begin(const char *fn, std::function<std::string()> desc, bool interesting = true) {
  idx++;
  if (!onlyfn.empty() && onlyfn != fn) return false;
  if (only >= 0) { if (idx != only) return false; }
  else if (!rnd && shards > 1 && (int)(((uint64_t)idx * 2654435761ull >> 9) % shards) != shard) return false;
  curfn = fn; curdesc = desc;
  cases++; if (interesting) nontrivial++;
  per[fn]++;
  if (samples.size() < 3 && interesting && (cases % 37) == 1) samples.push_back(std::string(fn) + ": " + desc().substr(0, 300));
  alarm(20);
  return true;
}
inline void end() { alarm(0); }
inline void fail(const std::string &why) {
  if (failed) return;
  failed = true; dump(why.c_str());
  fflush(stdout); _exit(1);
}
#define CHECK(c, msg) do { if (!(c)) { std::ostringstream _o; _o << msg << " [" << #c << "]"; H::fail(_o.str()); } } while (0)
inline bool timeleft() { rnd = true; return only < 0 ? now() < tlimit : idx < only; }
inline void init(int argc, char **argv) {
  gettimeofday(&t0, nullptr);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--time") tlimit = atof(val().c_str());
    else if (a == "--only") only = atoll(val().c_str());
    else if (a == "--fn") onlyfn = val();
    else if (a == "--shard") { std::string v = val(); shard = atoi(v.c_str()); shards = atoi(v.substr(v.find('/') + 1).c_str()); }
    else if (a == "--report") rep = fopen(val().c_str(), "w");
  }
  // the library prints progress on cout: keep it out of the way
  std::cout.setstate(std::ios_base::badbit);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  signal(SIGALRM, on_alarm); signal(SIGABRT, on_segv);
}
inline int finish() {
  fprintf(rep, "DONE cases=%lld nontrivial=%lld seconds=%.1f\n", cases, nontrivial, now());
  for (auto &p : per) fprintf(rep, "PER %s %lld\n", p.first.c_str(), p.second);
  for (auto &s : samples) fprintf(rep, "SAMPLE %s\n", s.c_str());
  fflush(rep);
  fflush(stdout);
  _exit(0);
}
}  // namespace H

template <class T> std::string str(const std::vector<T> &v) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; }
  o << "]"; return o.str();
}
inline std::string str2(const VVI &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += str(v[i]); } return o + "]"; }

// exact-size heap copies, so that the sanitizer sees every access past the end
template <class T> T *heap(const std::vector<T> &v) { T *p = new T[v.size()]; std::copy(v.begin(), v.end(), p); return p; }
struct IA {  // int array with exact bounds
  int *p; int n;
  explicit IA(int n_, int fill = 0x5a5a5a5a) : p(new int[n_]), n(n_) { std::fill(p, p + n, fill); }
  explicit IA(const VI &v) : p(heap(v)), n((int)v.size()) {}
  ~IA() { delete[] p; }
  VI vec() const { return VI(p, p + n); }
  IA(const IA &) = delete;
};
struct DA {
  double *p; int n;
  explicit DA(int n_, double fill = 0) : p(new double[n_]), n(n_) { std::fill(p, p + n, fill); }
  explicit DA(const VD &v) : p(heap(v)), n((int)v.size()) {}
  ~DA() { delete[] p; }
  VD vec() const { return VD(p, p + n); }
  DA(const DA &) = delete;
};

// ------------------------------------------------------------------ graphs
// A dependence graph in the library's layout: column v lists v itself first, then its successors in ascending order.
struct G {
  int n; VI p, i;
  VVI succ;                     // without the diagonal
  G() : n(0) {}
  G(int n_, const std::vector<std::pair<int, int>> &edges) : n(n_), succ(n_) {
    std::set<std::pair<int, int>> s(edges.begin(), edges.end());
    for (auto &e : s) if (e.first != e.second) succ[e.first].push_back(e.second);
    build();
  }
  void build() {
    p.assign(1, 0); i.clear();
    for (int v = 0; v < n; v++) { std::sort(succ[v].begin(), succ[v].end()); i.push_back(v); for (int w : succ[v]) i.push_back(w); p.push_back((int)i.size()); }
  }
  int m() const { return (int)i.size() - n; }
  std::string s() const { std::ostringstream o; o << "n=" << n << " ptr=" << str(p) << " idx=" << str(i); return o.str(); }
  bool acyclic() const {
    VI d(n, 0); for (int v = 0; v < n; v++) for (int w : succ[v]) d[w]++;
    VI q; for (int v = 0; v < n; v++) if (!d[v]) q.push_back(v);
    for (size_t k = 0; k < q.size(); k++) for (int w : succ[q[k]]) if (--d[w] == 0) q.push_back(w);
    return (int)q.size() == n;
  }
  VI levels() const {           // longest path level of each node (acyclic)
    VI d(n, 0), l(n, 0); for (int v = 0; v < n; v++) for (int w : succ[v]) d[w]++;
    VI q; for (int v = 0; v < n; v++) if (!d[v]) q.push_back(v);
    for (size_t k = 0; k < q.size(); k++) for (int w : succ[q[k]]) { l[w] = std::max(l[w], l[q[k]] + 1); if (--d[w] == 0) q.push_back(w); }
    return l;
  }
  std::vector<std::vector<char>> reach() const {
    std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
    for (int v = 0; v < n; v++) { VI st{v}; r[v][v] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int w : succ[x]) if (!r[v][w]) { r[v][w] = 1; st.push_back(w); } } }
    return r;
  }
  G transposed() const { std::vector<std::pair<int, int>> e; for (int v = 0; v < n; v++) for (int w : succ[v]) e.push_back({w, v}); return G(n, e); }
};
inline bool operator==(const G &a, const G &b) { return a.n == b.n && a.p == b.p && a.i == b.i; }

// all lower-triangular graphs on n nodes: mask in [0, 2^(n(n-1)/2))
inline G lowerMask(int n, unsigned long mask) {
  std::vector<std::pair<int, int>> e; int b = 0;
  for (int v = 0; v < n; v++) for (int w = v + 1; w < n; w++, b++) if (mask >> b & 1) e.push_back({v, w});
  return G(n, e);
}
// all digraphs on n nodes (diagonal present): mask in [0, 2^(n(n-1)))
inline G anyMask(int n, unsigned long mask) {
  std::vector<std::pair<int, int>> e; int b = 0;
  for (int v = 0; v < n; v++) for (int w = 0; w < n; w++) if (v != w) { if (mask >> b & 1) e.push_back({v, w}); b++; }
  return G(n, e);
}
// random lower-triangular DAG of a varied shape
inline G randLower(Rng &r, int maxn) {
  int n = r.in(1, maxn), kind = r.below(12);
  std::vector<std::pair<int, int>> e;
  auto add = [&](int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) e.push_back({std::min(a, b), std::max(a, b)}); };
  switch (kind) {
    case 0: break;                                                              // no edges
    case 1: for (int v = 0; v + 1 < n; v++) add(v, v + 1); break;               // chain
    case 2: { int w = r.in(1, 4); for (int v = 0; v < n; v++) for (int d = 1; d <= w; d++) add(v, v + d); break; }  // band
    case 3: for (int v = 0; v + 1 < n; v++) add(v, r.in(v + 1, n - 1)); break;  // random in-forest (one successor)
    case 4: for (int v = 1; v < n; v++) add(r.below(v), v); break;              // out-tree
    case 5: { int c = r.in(1, 5); for (int v = 0; v + c < n; v++) add(v, v + c); break; }  // c chains
    case 6: for (int v = 0; v + 1 < n; v++) add(v, n - 1); break;               // star in
    case 7: for (int v = 1; v < n; v++) add(0, v); break;                       // star out
    case 8: { int m = n * r.in(1, 4) / 2; for (int k = 0; k < m; k++) add(r.below(n), r.below(n)); break; }
    case 9: { int pct = r.in(2, 60); for (int v = 0; v < n; v++) for (int w = v + 1; w < n; w++) if (r.chance(pct)) add(v, w); break; }
    case 10: { // layered with local blocks
      int b = r.in(2, 6); for (int v = 0; v < n; v++) { int blk = v / b; for (int k = 0; k < 2; k++) { int w = (blk + 1) * b + r.below(b); add(v, w); } if (r.chance(30)) add(v, r.in(v, n - 1)); } break; }
    default: { // forest with a few cross edges and isolated nodes
      for (int v = 0; v + 1 < n; v++) if (r.chance(75)) add(v, std::min(n - 1, v + 1 + r.below(5)));
      for (int k = 0; k < n / 6; k++) add(r.below(n), r.below(n)); break; }
  }
  return G(n, e);
}
inline VI randPerm(Rng &r, int n) { VI q(n); for (int k = 0; k < n; k++) q[k] = k; for (int k = n - 1; k > 0; k--) std::swap(q[k], q[r.below(k + 1)]); return q; }
inline G relabel(const G &g, const VI &q) { std::vector<std::pair<int, int>> e; for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) e.push_back({q[v], q[w]}); return G(g.n, e); }
inline VD randCost(Rng &r, int n) {
  VD c(n); int k = r.below(6);
  for (int v = 0; v < n; v++) c[v] = k == 0 ? 1 : k == 1 ? r.in(1, 5) : k == 2 ? r.in(1, 100) : k == 3 ? (r.chance(10) ? 1000 : 1) : k == 4 ? r.in(1, 9) / 2.0 : v + 1;
  return c;
}
inline bool isPerm(const int *a, int n) { std::vector<char> s(n, 0); for (int k = 0; k < n; k++) { if (a[k] < 0 || a[k] >= n || s[a[k]]) return false; s[a[k]] = 1; } return true; }
inline bool isPerm(const VI &a, int n) { return (int)a.size() >= n && isPerm(a.data(), n); }

// schedule validity: levels -> parts -> nodes
inline void checkSchedule(const G &g, int nlev, const VI &lp, const VI &pp, const VI &nodes, const char *what) {
  CHECK(nlev >= 0, what << ": negative level count");
  CHECK((int)lp.size() > nlev, what << ": level pointer array too short");
  CHECK(lp[0] == 0, what << ": first level pointer is not 0");
  for (int l = 0; l < nlev; l++) CHECK(lp[l] <= lp[l + 1], what << ": level pointers decrease at level " << l);
  int np = lp[nlev];
  CHECK((int)pp.size() > np, what << ": partition pointer array too short");
  CHECK(pp[0] == 0, what << ": first partition pointer is not 0");
  for (int k = 0; k < np; k++) CHECK(pp[k] <= pp[k + 1], what << ": partition pointers decrease at partition " << k);
  CHECK(pp[np] == g.n, what << ": the partitions list " << pp[np] << " nodes of " << g.n);
  CHECK((int)nodes.size() >= g.n, what << ": node list too short");
  VI lev(g.n, -1), part(g.n, -1), pos(g.n, -1);
  for (int l = 0; l < nlev; l++) for (int k = lp[l]; k < lp[l + 1]; k++) for (int q = pp[k]; q < pp[k + 1]; q++) {
    int v = nodes[q];
    CHECK(v >= 0 && v < g.n, what << ": position " << q << " holds " << v << ", not a node");
    CHECK(lev[v] < 0, what << ": node " << v << " is scheduled twice");
    lev[v] = l; part[v] = k; pos[v] = q;
  }
  for (int v = 0; v < g.n; v++) CHECK(lev[v] >= 0, what << ": node " << v << " is never scheduled");
  for (int v = 0; v < g.n; v++) for (int w : g.succ[v])
    CHECK(lev[v] < lev[w] || (part[v] == part[w] && pos[v] < pos[w]),
          what << ": dependence " << v << "->" << w << " broken: level " << lev[v] << " part " << part[v] << " pos " << pos[v] << " versus level " << lev[w] << " part " << part[w] << " pos " << pos[w]);
}
// forest given by parents (parents larger than children, -1 for roots)
inline VI randForest(Rng &r, int n) {
  VI p(n, -1); int k = r.below(6);
  for (int v = 0; v + 1 < n; v++) {
    if (k == 0) p[v] = v + 1; else if (k == 1) p[v] = n - 1; else if (k == 2) p[v] = r.in(v + 1, n - 1);
    else if (k == 3) p[v] = r.chance(20) ? -1 : r.in(v + 1, std::min(n - 1, v + 4)); else if (k == 4) p[v] = r.chance(50) ? -1 : r.in(v + 1, n - 1);
    else p[v] = std::min(n - 1, v + 1 + r.below(3));
  }
  return p;
}
// all forests on n nodes: product of choices; returns false past the end
inline bool forestNo(int n, long no, VI &p) {
  p.assign(n, -1);
  for (int v = n - 1; v >= 0; v--) { int c = n - v; /* -1 or v+1..n-1 */ int d = (int)(no % c); no /= c; p[v] = d == 0 ? -1 : v + d; }
  return no == 0;
}
// supernodal ("blocked") matrices: blocks of consecutive columns whose columns share their rows below the block
struct BG {
  G b;                              // graph over the blocks
  VI sup2col, col2sup, lip, li;     // block layout: one row list per block (own columns first); every column of a block points at its list
  VI p, i;                          // the same matrix by columns, lower triangular
  int n;
  BG(Rng &r, const G &g) : b(g) {
    sup2col.push_back(0); for (int k = 0; k < g.n; k++) { int w = r.chance(50) ? 1 : r.in(1, 3); for (int c = 0; c < w; c++) col2sup.push_back(k); sup2col.push_back((int)col2sup.size()); }
    n = (int)col2sup.size(); p.push_back(0);
    for (int k = 0; k < g.n; k++) {
      VI rows; for (int c = sup2col[k]; c < sup2col[k + 1]; c++) rows.push_back(c);
      for (int s : g.succ[k]) { int w = sup2col[s + 1] - sup2col[s], m = r.in(1, (1 << w) - 1); for (int c = 0; c < w; c++) if (m >> c & 1) rows.push_back(sup2col[s] + c); }
      for (int c = sup2col[k]; c < sup2col[k + 1]; c++) { lip.push_back((int)li.size()); for (int x : rows) if (x >= c) i.push_back(x); p.push_back((int)i.size()); }
      li.insert(li.end(), rows.begin(), rows.end());
    }
    lip.push_back((int)li.size());
  }
  std::string s() const { return "block columns=" + str(sup2col) + " block pointers=" + str(lip) + " block rows=" + str(li) + " blocks: " + b.s(); }
};
