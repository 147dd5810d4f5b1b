#include "common.h"
#include "aggregation/lbc_utils.h"
using namespace sym_lib;
static void one(const VI &sz, int parts, int dist, int div) {
  int L = (int)sz.size(); VI lp(1, 0); for (int s : sz) lp.push_back(lp.back() + s);
  auto chk = [&](int nw, const IA &b, const VI &ips, int maxp) {
    CHECK(nw >= 1 && nw <= L, nw << " windows for " << L << " levels"); CHECK(b.p[0] == 0, "first boundary is " << b.p[0]);
    for (int k = 0; k < nw; k++) CHECK(b.p[k] < b.p[k + 1], "boundaries do not increase: " << str(VI(b.p, b.p + nw + 1)));
    CHECK(b.p[nw] == L, "last boundary " << b.p[nw] << " of " << L << " levels");
    CHECK((int)ips.size() >= nw, "only " << ips.size() << " partition counts for " << nw << " windows");
    for (int k = 0; k < nw; k++) CHECK(ips[k] >= 1 && ips[k] <= maxp, "partition count " << ips[k] << " of window " << k);
  };
  auto d = [&]() { std::ostringstream o; o << "level sizes=" << str(sz) << " partitions=" << parts << " initial cut=" << dist << " rate=" << div; return o.str(); };
  if (div >= 1 && dist >= 0 && H::begin("height_partitioning_DAG_trng", d, L > 2)) {
    IA p(lp), b(L + 1); VI ips; VVI sg(L);
    int nw = height_partitioning_DAG_trng(L, p.p, nullptr, L, parts, dist, div, ips, sg, nullptr, b.p);
    chk(nw, b, ips, parts > 1 ? parts : 6); H::end();
  }
  for (int sw = 0; sw < 2; sw++) if ((!sw || dist >= 1) && H::begin(sw ? "height_partitioning(sw)" : "height_partitioning", d, L > 2)) {
    IA p(lp), b(L + 1); VI ips; VVI sg(L);
    int nw = height_partitioning(L, p.p, nullptr, L, parts, dist, div, ips, sg, nullptr, b.p, sw);
    chk(nw, b, ips, sw ? 1 << 30 : std::max(parts, 1)); H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int L = 1; L <= 4; L++) for (int m = 0; m < (1 << (2 * L)); m++) { static const int S[] = {1, 2, 3, 9}; VI sz; for (int k = 0; k < L; k++) sz.push_back(S[m >> (2 * k) & 3]); for (int parts = 1; parts <= 4; parts++) for (int dist = 0; dist <= 3; dist++) for (int div = 1; div <= 3; div++) one(sz, parts, dist, div); }
  while (H::timeleft()) { int L = r.in(1, r.chance(10) ? 80 : 14); VI sz(L); int k = r.below(4); for (int q = 0; q < L; q++) sz[q] = k == 0 ? r.in(1, 40) : k == 1 ? L - q : k == 2 ? r.in(1, 3) : 1 + (q < L / 2) * r.in(0, 20); one(sz, r.in(1, 12), r.chance(5) ? 1000 : r.in(0, 9), r.chance(5) ? 1000 : r.in(-1, 9)); }
  return H::finish();
}
