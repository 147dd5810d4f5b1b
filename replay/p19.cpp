#include "mat.h"
#include "aggregation/hdagg.h"
using namespace sym_lib;
static void one(const M &a, Rng &r) {   // square, any pattern with the diagonal present
  int n = a.n; M t = fromEntries(n, n, transposedE(a.ent()));   // a read by columns, t: the same matrix by rows (t's columns are a's rows)
  VVI col(n), row(n); for (int c = 0; c < n; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) { col[c].push_back(a.i[k]); row[a.i[k]].push_back(c); }
  // groups
  VI perm = randPerm(r, n), gp(1, 0); int left = n; while (left > 0) { int s = r.chance(10) ? 0 : r.in(1, std::min(4, left)); gp.push_back(gp.back() + s); left -= s; }
  int ng = (int)gp.size() - 1;
  for (int k = 0; k < 7; k++) for (int grouped = 0; grouped < 2; grouped++) for (int pre = 0; pre < 2; pre++) {
    static const char *nm[] = {"SpTrSv_LL", "SpTrSv_RL", "SpICh0_LL", "SpICh0_RL", "SpICh0_UL", "SpILU0_UL", "General"};
    if (!H::begin((std::string("costComputation ") + nm[k] + (grouped ? " grouped" : "")).c_str(), [&]() { return a.s() + (grouped ? " group_ptr=" + str(gp) + " group_set=" + str(perm) : "") + (pre ? " result vector given with values" : " result vector empty"); }, a.nnz() > n)) continue;
    VD node(n, 0);
    for (int v = 0; v < n; v++) switch (k) {
      case 0: node[v] = row[v].size(); break;
      case 1: node[v] = col[v].size(); break;
      case 2: for (int d : row[v]) node[v] += col[d].size(); break;
      case 3: for (int d : col[v]) node[v] += col[d].size(); break;
      default: for (int d : row[v]) node[v] += row[d].size(); break;
    }
    VD want = node; if (grouped) { want.assign(ng, 0); for (int g = 0; g < ng; g++) for (int q = gp[g]; q < gp[g + 1]; q++) want[g] += node[perm[q]]; }
    IA cp(a.p), ci(a.i), rp(t.p), ri(t.i), G(gp), S(perm); int m = grouped ? ng : n; VD cost; if (pre) cost.assign(r.in(1, n + 3), 5);
    HDAGG::costComputation(m, cp.p, ci.p, rp.p, ri.p, (HDAGG::Kernel)k, grouped ? G.p : nullptr, grouped ? S.p : nullptr, grouped, cost);
    CHECK((int)cost.size() == m, "the result has " << cost.size() << " costs for " << m << (grouped ? " groups" : " nodes"));
    for (int v = 0; v < m; v++) CHECK(cost[v] == want[v], "cost of " << v << " is " << cost[v] << ", expected " << want[v]);
    H::end();
  }
  if (H::begin("compute_nnz_per_col", [&]() { return a.s(); }, a.nnz() > n)) {
    CSC *A = a.csc(); DA o(n); compute_nnz_per_col(A, o.p);
    for (int v = 0; v < n; v++) CHECK(o.p[v] == col[v].size(), "count of column " << v);
    delete A; H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int n = 1; n <= 3; n++) for (unsigned long k = 0; k < (1ul << (n * n)); k++) one(maskM(n, n, k), r);
  while (H::timeleft()) { int n = r.in(1, r.chance(10) ? 50 : 8); one(randM(r, n, n, false, r.chance(40), r.in(5, 80)), r); }
  return H::finish();
}
