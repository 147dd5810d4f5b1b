#include "common.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_utilities.h"
using namespace sym_lib;
static void one(const VI &par, Rng &r, const VD &cost, int parts, int cut, int div) {
  int n = (int)par.size(); std::vector<std::pair<int, int>> e; for (int k = 0; k < n; k++) if (par[k] >= 0) e.push_back({k, par[k]}); G g(n, e);
  auto d = [&]() { std::ostringstream o; o << "parents=" << str(par) << " parts=" << parts << " initial cut=" << cut << " coarsening=" << div << " cost=" << str(cost); return o.str(); };
  if (H::begin("get_coarse_levelSet_tree", d, g.m() > 1)) {
    IA p(par); DA c(cost); int nl = -1, np = -1, *lp = nullptr, *pp = nullptr, *nd = nullptr;
    int ret = get_coarse_levelSet_tree(n, p.p, nl, lp, np, pp, nd, parts, cut, div, c.p); CHECK(nl >= 1 && nl <= n && ret == nl, nl << " coarsened levels");
    VI L(lp, lp + nl + 1); CHECK(L[nl] >= 0 && L[nl] <= n && np == L[nl], np << " partitions announced, " << L[nl] << " listed"); checkSchedule(g, nl, L, VI(pp, pp + np + 1), VI(nd, nd + n), "schedule"); CHECK(p.vec() == par && c.vec() == cost, "inputs changed"); delete[] lp; delete[] pp; delete[] nd; H::end(); }
  // splitting of a part of the forest: nodes marked -2 are not in it
  VI t = par; if (r.chance(50)) { VI dep(n, 0); for (int k = 0; k < n; k++) for (int a = par[k]; a >= 0; a = par[a]) dep[k]++; int cutd = r.in(0, n > 3 ? 3 : n - 1), lo = r.in(0, cutd); for (int k = 0; k < n; k++) { if (dep[k] < lo || dep[k] > cutd) t[k] = -2; } for (int k = 0; k < n; k++) if (t[k] >= 0 && t[t[k]] == -2) t[k] = -1; }
  int cnt = 0; for (int x : t) cnt += x != -2;
  if (cnt > 0 && H::begin("post_order_spliting", [&]() { return d() + " split=" + str(t); }, g.m() > 1)) {
    VI nc(n, 0), cp(1, 0), cn; VVI kid(n); for (int k = 0; k < n; k++) if (t[k] >= 0) { kid[t[k]].push_back(k); nc[t[k]]++; } for (int k = 0; k < n; k++) { cn.insert(cn.end(), kid[k].begin(), kid[k].end()); cp.push_back((int)cn.size()); } cn.resize(n, 0);
    double tot = 0; for (int k = 0; k < n; k++) if (t[k] != -2) tot += cost[k];
    IA T(t), CP(cp), CN(cn), NC(nc), par2(n, 0); DA c(cost), oc(n); int os = 0; VVI lists; post_order_spliting(n, T.p, c.p, CP.p, CN.p, NC.p, (int)tot, parts, os, oc.p, par2.p, lists);
    CHECK(os == (int)lists.size(), os << " lists announced, " << lists.size() << " given"); VI pos(n, -1), li(n, -1); int z = 0; for (size_t q = 0; q < lists.size(); q++) for (int v : lists[q]) { CHECK(v >= 0 && v < n && t[v] != -2, "node " << v << " is not to be split"); CHECK(pos[v] < 0, "node " << v << " listed twice"); pos[v] = z++; li[v] = (int)q; }
    for (int k = 0; k < n; k++) if (t[k] != -2) { CHECK(pos[k] >= 0, "node " << k << " lost"); if (t[k] >= 0) CHECK(li[k] == li[t[k]] && pos[k] < pos[t[k]], "node " << k << " (list " << li[k] << ") and its parent " << t[k] << " (list " << li[t[k]] << ")"); CHECK(par2.p[k] == li[k], "node " << k << " is in list " << li[k] << " but reported in " << par2.p[k]); } H::end(); }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 6; n++) { long f = 1; for (int k = 2; k <= n; k++) f *= k; for (long no = 0; no < f; no++) { VI p; forestNo(n, no, p); for (int t = 0; t < 4; t++) one(p, r, randCost(r, n), r.in(1, 4), r.in(1, 4), r.in(1, 4)); } }
  while (H::timeleft()) { int n = r.in(1, r.chance(10) ? 150 : 30); one(randForest(r, n), r, randCost(r, n), r.in(1, r.chance(20) ? 40 : 5), r.in(1, r.chance(20) ? 40 : 5), r.in(1, r.chance(20) ? 40 : 5)); }
  return H::finish();
}
