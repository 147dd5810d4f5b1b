#include "common.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace sym_lib;
// functions that make no use of the numbering: any forest
static void any(const VI &par, Rng &r) {
  int n = (int)par.size(); bool some = false; VVI ch(n); for (int v = 0; v < n; v++) if (par[v] >= 0) { ch[par[v]].push_back(v); some = true; }
  VI w(n), depth(n, 0), wd(n, 0), lev(n, 0), cnt(n); for (auto &z : w) z = r.in(0, 20); int H_ = 0, WH = 0, L = 0;
  for (int v = 0; v < n; v++) { cnt[v] = (int)ch[v].size(); wd[v] = w[v]; for (int a = par[v], k = 1; a >= 0; a = par[a], k++) { depth[v]++; wd[v] += w[a]; lev[a] = std::max(lev[a], k); } H_ = std::max(H_, depth[v]); WH = std::max(WH, wd[v]); }
  for (int v = 0; v < n; v++) L = std::max(L, lev[v] + 1);
  auto d = [&]() { return "parents=" + str(par) + " weights=" + str(w); };
  if (H::begin("populate_children(any numbering)", d, some)) { IA t(par), cp(n + 1), cn(n), nc(n, 0); populate_children(n, t.p, cp.p, cn.p, nc.p); CHECK(cp.p[0] == 0, "child pointers start at " << cp.p[0]);
    for (int v = 0; v < n; v++) { CHECK(cp.p[v + 1] - cp.p[v] == cnt[v] && nc.p[v] == cnt[v], "child count of " << v); VI got(cn.p + cp.p[v], cn.p + cp.p[v + 1]); std::sort(got.begin(), got.end()); CHECK(got == ch[v], "children of " << v << ": " << str(got)); } H::end(); }
  if (H::begin("tree height(any numbering)", d, some)) { IA t(par), nc(cnt), W(w);
    for (int v = 0; v < n; v++) { CHECK(get_node_depth(v, n, t.p) == depth[v], "depth of " << v); CHECK(get_node_depth(v, n, t.p, W.p) == wd[v], "weighted depth of " << v << " is " << get_node_depth(v, n, t.p, W.p) << ", expected " << wd[v]); }
    CHECK(get_tree_height_bruteforce(n, t.p) == H_ && get_tree_height_bruteforce(n, t.p, W.p) == WH, "height (brute force)"); CHECK(get_tree_height(n, t.p, nc.p) == H_ && get_tree_height(n, t.p, nc.p, W.p) == WH, "height (leaves)"); CHECK(get_tree_height_efficient(n, t.p, nc.p, nullptr) == H_, "height (efficient)"); H::end(); }
  for (int e = 0; e < 2; e++) if (H::begin(e ? "build_level_set_tree_efficient(any numbering)" : "build_level_set_tree(any numbering)", d, some)) { IA t(par), nc(cnt), lp(n + 1, 0), ls(n), n2l(n, 0);
    int nl = e ? build_level_set_tree_efficient(n, t.p, nc.p, lp.p, ls.p, n2l.p) : build_level_set_tree(n, t.p, lp.p, ls.p);
    CHECK(nl == L, nl << " levels, expected " << L); CHECK(lp.p[0] == 0 && lp.p[nl] == n && isPerm(ls.p, n), "levels do not list every node once");
    for (int l = 0; l < nl; l++) { CHECK(lp.p[l] <= lp.p[l + 1], "pointers decrease"); for (int k = lp.p[l]; k < lp.p[l + 1]; k++) CHECK(lev[ls.p[k]] == l, "node " << ls.p[k] << " in level " << l << " expected " << lev[ls.p[k]]); } if (e) for (int v = 0; v < n; v++) CHECK(n2l.p[v] == lev[v], "level of " << v); H::end(); }
}
static VI shuffled(const VI &par, Rng &r) { int n = (int)par.size(); VI q = randPerm(r, n), o(n); for (int v = 0; v < n; v++) o[q[v]] = par[v] < 0 ? par[v] : q[par[v]]; return o; }
static void one(const VI &par, Rng &r) {
  int n = (int)par.size(); bool some = false; VVI ch(n);
  for (int v = 0; v < n; v++) if (par[v] >= 0) { ch[par[v]].push_back(v); some = true; }
  VI depth(n, 0), lev(n, 0);
  for (int v = n - 1; v >= 0; v--) depth[v] = par[v] < 0 ? 0 : depth[par[v]] + 1;
  for (int v = 0; v < n; v++) for (int c : ch[v]) lev[v] = std::max(lev[v], lev[c] + 1);
  int H_ = 0, L = 0; for (int v = 0; v < n; v++) { H_ = std::max(H_, depth[v]); L = std::max(L, lev[v] + 1); }
  VI cnt(n); for (int v = 0; v < n; v++) cnt[v] = (int)ch[v].size();
  auto d = [&]() { return "parents=" + str(par); };
  if (H::begin("populate_children", d, some)) {
    IA t(par), cp(n + 1), cn(n), nc(n, 0);
    populate_children(n, t.p, cp.p, cn.p, nc.p);
    CHECK(cp.p[0] == 0, "child pointers start at " << cp.p[0]);
    for (int v = 0; v < n; v++) {
      CHECK(cp.p[v + 1] - cp.p[v] == cnt[v] && nc.p[v] == cnt[v], "child count of " << v << " wrong");
      VI got(cn.p + cp.p[v], cn.p + cp.p[v + 1]); std::sort(got.begin(), got.end());
      CHECK(got == ch[v], "children of " << v << ": " << str(got));
    }
    H::end();
  }
  if (H::begin("tree height", d, some)) {
    IA t(par), nc(cnt);
    for (int v = 0; v < n; v++) CHECK(get_node_depth(v, n, t.p) == depth[v], "depth of " << v << " is " << depth[v]);
    CHECK(get_tree_height_bruteforce(n, t.p) == H_, "height (brute force)");
    CHECK(get_tree_height(n, t.p, nc.p) == H_, "height (leaves)");
    CHECK(get_tree_height_efficient(n, t.p, nc.p, nullptr) == H_, "height (efficient)");
    H::end();
  }
  if (H::begin("build_level_set_tree", d, some)) {
    IA t(par), lp(n + 1, 0), ls(n);
    int nl = build_level_set_tree(n, t.p, lp.p, ls.p);
    CHECK(nl == L, nl << " levels, expected " << L);
    CHECK(lp.p[0] == 0 && lp.p[nl] == n && isPerm(ls.p, n), "levels do not list every node once");
    for (int l = 0; l < nl; l++) { CHECK(lp.p[l] <= lp.p[l + 1], "pointers decrease"); for (int k = lp.p[l]; k < lp.p[l + 1]; k++) CHECK(lev[ls.p[k]] == l, "node " << ls.p[k] << " in level " << l << " expected " << lev[ls.p[k]]); }
    H::end();
  }
  if (H::begin("build_level_set_tree_efficient", d, some)) {
    IA t(par), nc(cnt), lp(n + 1, 0), ls(n), n2l(n, 0);
    int nl = build_level_set_tree_efficient(n, t.p, nc.p, lp.p, ls.p, n2l.p);
    CHECK(nl == L, nl << " levels, expected " << L);
    CHECK(lp.p[0] == 0 && lp.p[nl] == n && isPerm(ls.p, n), "levels do not list every node once");
    for (int l = 0; l < nl; l++) { CHECK(lp.p[l] <= lp.p[l + 1], "pointers decrease"); for (int k = lp.p[l]; k < lp.p[l + 1]; k++) CHECK(lev[ls.p[k]] == l, "node " << ls.p[k] << " in level " << l << " expected " << lev[ls.p[k]]); }
    for (int v = 0; v < n; v++) CHECK(n2l.p[v] == lev[v], "level of " << v << " reported " << n2l.p[v]);
    H::end();
  }
  VD w(n); for (auto &z : w) z = r.in(0, 50);
  auto d2 = [&]() { return "parents=" + str(par) + " cost=" + str(w); };
  if (H::begin("compute_subtree_cost", d2, some)) {
    IA t(par); DA c(w); double *o = compute_subtree_cost(n, t.p, c.p); VD e = w;
    for (int v = 0; v < n; v++) if (par[v] >= 0) e[par[v]] += e[v];
    for (int v = 0; v < n; v++) CHECK(o[v] == e[v], "subtree cost of " << v << " is " << o[v] << ", expected " << e[v]);
    delete[] o; H::end();
  }
  if (H::begin("dfs_tree", d, some)) {   // head/next lists -> post order of each root's subtree
    IA head(n, -1), next(n, -1), post(n), st(n);
    for (int v = n - 1; v >= 0; v--) if (par[v] >= 0) { next.p[v] = head.p[par[v]]; head.p[par[v]] = v; }
    int k = 0;
    for (int v = 0; v < n; v++) if (par[v] < 0) {
      int k0 = k, sz = 0; VI in(n, 0); in[v] = 1; for (int u = v; u >= 0; u--) { if (par[u] >= 0 && in[par[u]]) in[u] = 1; sz += in[u]; }
      k = dfs_tree(v, k, post.p, head.p, next.p, st.p);
      CHECK(k == k0 + sz, "subtree of " << v << ": " << k - k0 << " nodes numbered, it has " << sz);
    }
    CHECK(k == n && isPerm(post.p, n), "not a permutation");
    VI inv(n), size(n, 1); for (int q = 0; q < n; q++) inv[post.p[q]] = q;
    for (int v = 0; v < n; v++) if (par[v] >= 0) size[par[v]] += size[v];
    for (int v = 0; v < n; v++) if (par[v] >= 0) CHECK(inv[v] < inv[par[v]] && inv[v] - size[v] >= inv[par[v]] - size[par[v]], "subtree of " << par[v] << " not contiguous");
    H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed); VI p;
  for (int n = 1; n <= 6; n++) { long f = 1; for (int k = 2; k <= n; k++) f *= k; for (long no = 0; no < f; no++) { forestNo(n, no, p); one(p, r); any(shuffled(p, r), r); } }
  while (H::timeleft()) { VI q = randForest(r, r.in(1, r.chance(10) ? 150 : 25)); one(q, r); any(shuffled(q, r), r); }
  return H::finish();
}
