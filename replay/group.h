// Groupings of graph nodes: checks shared by the harnesses.
#pragma once
#include "common.h"
// group pointers/lists cover the nodes once; returns the group of each node
inline VI checkGroups(int n, int ng, const VI &gp, const VI &gs, const char *what) {
  CHECK(ng >= 0 && (int)gp.size() > ng, what << ": " << ng << " groups, " << gp.size() << " pointers");
  CHECK(gp[0] == 0 && gp[ng] == n, what << ": group pointers run from " << gp[0] << " to " << gp[ng]);
  VI inv(n, -1);
  for (int g = 0; g < ng; g++) { CHECK(gp[g] < gp[g + 1], what << ": group " << g << " is empty or its pointers decrease"); for (int k = gp[g]; k < gp[g + 1]; k++) { CHECK(k < (int)gs.size() && gs[k] >= 0 && gs[k] < n, what << ": no node at position " << k); CHECK(inv[gs[k]] < 0, what << ": node " << gs[k] << " in two groups"); inv[gs[k]] = g; } }
  for (int v = 0; v < n; v++) CHECK(inv[v] >= 0, what << ": node " << v << " in no group");
  return inv;
}
inline G contract(const G &g, int ng, const VI &inv) { std::vector<std::pair<int, int>> e; for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (inv[v] != inv[w]) e.push_back({inv[v], inv[w]}); return G(ng, e); }
// groups connected through edges of the graph between their own members
inline void checkConnected(const G &g, int ng, const VI &inv, const char *what) {
  VI c(g.n); for (int v = 0; v < g.n; v++) c[v] = v; std::function<int(int)> f = [&](int x) { return c[x] == x ? x : c[x] = f(c[x]); };
  for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (inv[v] == inv[w]) c[f(v)] = f(w);
  VI rep(ng, -1); for (int v = 0; v < g.n; v++) { int &x = rep[inv[v]]; if (x < 0) x = f(v); CHECK(x == f(v), what << ": group " << inv[v] << " joins nodes without an edge"); }
}
// random grouping: nodes dealt to groups
inline void randGroups(Rng &r, int n, int &ng, VI &gp, VI &gs, bool consecutive) {
  VI q = consecutive ? VI() : randPerm(r, n); if (consecutive) { for (int v = 0; v < n; v++) q.push_back(v); }
  gp.assign(1, 0); gs = q; int mx = r.in(1, 4); while (gp.back() < n) gp.push_back(std::min(n, gp.back() + r.in(1, mx))); ng = (int)gp.size() - 1;
}
// a valid schedule of g: cut a topological order into levels by longest path (or merge everything in one part)
inline void randSchedule(Rng &r, const G &g, int &nl, VI &lp, VI &pp, VI &nodes) {
  VI lev = g.levels(); int L = 0; for (int l : lev) L = std::max(L, l + 1);
  lp.assign(1, 0); pp.assign(1, 0); nodes.clear(); nl = 0;
  for (int l = 0; l < L;) { int u = std::min(L, l + r.in(1, 3)); // window -> components
    VI c(g.n); for (int v = 0; v < g.n; v++) c[v] = v; std::function<int(int)> f = [&](int x) { return c[x] == x ? x : c[x] = f(c[x]); };
    auto in = [&](int v) { return lev[v] >= l && lev[v] < u; };
    for (int v = 0; v < g.n; v++) for (int w : g.succ[v]) if (in(v) && in(w)) c[f(v)] = f(w);
    std::map<int, VI> comp; for (int q = l; q < u; q++) for (int v = 0; v < g.n; v++) if (lev[v] == q) comp[f(v)].push_back(v);
    std::vector<VI> parts; for (auto &z : comp) { if (!parts.empty() && r.chance(40)) { VI &b = parts[r.below((int)parts.size())]; b.insert(b.end(), z.second.begin(), z.second.end()); } else parts.push_back(z.second); }
    if (r.chance(20)) parts.push_back(VI());
    for (auto &b : parts) { nodes.insert(nodes.end(), b.begin(), b.end()); pp.push_back((int)nodes.size()); }
    lp.push_back((int)pp.size() - 1); nl++; l = u; }
}
