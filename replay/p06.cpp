#include "common.h"
#include "aggregation/lbc_utils.h"
using namespace sym_lib;
static VVI comps(Rng &r, int k, int &n) { VVI c(k); n = 0; for (auto &x : c) { int s = r.below(5); for (int q = 0; q < s; q++) x.push_back(n++); } VI q = randPerm(r, n); for (auto &x : c) for (int &z : x) z = q[z]; return c; }
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  for (int it = 0; it < 4000 || H::timeleft(); it++) {
    int k = r.in(0, it < 4000 ? 5 : r.chance(20) ? 60 : 14), n; VVI cs = comps(r, k, n); VD w(k); int kd = r.below(5); for (auto &z : w) z = kd == 0 ? 0 : kd == 1 ? 1 : kd == 2 ? r.in(0, 4) : kd == 3 ? r.in(1, 1000) : 3e9;
    int bins = r.in(1, 6), extra = r.below(3);
    if (H::begin("worst_fit_bin_pack", [&]() { return "components=" + str2(cs) + " cost=" + str(w) + " bins=" + std::to_string(bins) + " of " + std::to_string(bins + extra); }, k > 1 && bins > 1)) {
      VVI out(bins + extra); VVI pre(bins + extra); int base = 1000; for (auto &x : pre) if (r.chance(30)) x.push_back(base++); out = pre;
      DA in(w), oc(bins + extra, 0); for (int b = bins; b < bins + extra; b++) oc.p[b] = -7;
      int ret = worst_fit_bin_pack(cs, in.p, out, oc.p, 5, bins);
      CHECK(ret == bins, "reports " << ret << " bins"); CHECK((int)out.size() == bins + extra, "number of bins changed");
      for (int b = bins; b < bins + extra; b++) CHECK(out[b] == pre[b] && oc.p[b] == -7, "bin " << b << " is not to be used");
      std::map<int, int> comp; for (int q = 0; q < k; q++) for (int z : cs[q]) comp[z] = q;
      VI seen(n, 0); VD bw(bins, 0);
      for (int b = 0; b < bins; b++) {
        CHECK(out[b].size() >= pre[b].size() && std::equal(pre[b].begin(), pre[b].end(), out[b].begin()), "earlier content of bin " << b);
        size_t q = pre[b].size();
        while (q < out[b].size()) {
          int z = out[b][q]; CHECK(comp.count(z), "alien node " << z); auto &cc = cs[comp[z]];
          CHECK(q + cc.size() <= out[b].size() && std::equal(cc.begin(), cc.end(), out[b].begin() + q), "component " << comp[z] << " is split or reordered");
          for (int y : cc) { CHECK(!seen[y], "node " << y << " twice"); seen[y] = 1; } q += cc.size(); bw[b] += w[comp[z]];
        }
      }
      for (int z = 0; z < n; z++) CHECK(seen[z], "node " << z << " lost");
      double tot = 0, got = 0; for (double z : w) tot += z; for (int b = 0; b < bins; b++) got += oc.p[b]; CHECK(tot == got, "weights of the bins add up to " << got << " of " << tot);
      H::end();
    }
    int nb = r.in(1, 8); VD bc(nb); for (auto &z : bc) z = r.chance(10) ? 5e9 : r.chance(20) ? -r.in(0, 5) : r.in(0, 8);
    if (H::begin("find_min", [&]() { return "weights=" + str(bc); }, nb > 1)) {
      DA b(bc); int m = find_min(b.p, nb); CHECK(m >= 0 && m < nb, "bin " << m); for (int q = 0; q < nb; q++) CHECK(bc[m] <= bc[q] || bc[m] >= 2147483647.0, "bin " << m << " is not the lightest"); H::end();
    }
    VI ic(k); for (auto &z : ic) z = r.in(0, 9); int th = r.in(1, 12);
    if (H::begin("merge_inner_part", [&]() { return "parts=" + str2(cs) + " cost=" + str(ic) + " threshold=" + std::to_string(th); }, k > 1)) {
      VVI out(k); IA in(ic), oc(k, -1); int ret = merge_inner_part(cs, in.p, out, oc.p, th);
      CHECK(ret >= 0 && ret <= k, "number of merged parts " << ret); VI a, b; for (auto &x : cs) a.insert(a.end(), x.begin(), x.end()); for (auto &x : out) b.insert(b.end(), x.begin(), x.end());
      CHECK(a == b, "merged lists hold " << str(b)); int tot = 0, got = 0; for (int z : ic) tot += z; for (int q = 0; q < ret; q++) got += oc.p[q]; CHECK(tot == got, "costs of the merged parts add up to " << got << " of " << tot); H::end();
    }
    int nn = r.in(1, 9); VI n2p(nn); for (auto &z : n2p) z = r.below(nn); VI list(r.below(10)); for (auto &z : list) z = r.below(nn);
    if (H::begin("make_unique", [&]() { return "part=" + str(n2p) + " list=" + str(list); }, list.size() > 1)) {
      IA p(n2p); bool *ws = new bool[nn](); VI l = list; int m = make_unique(p.p, l, nn, ws); std::set<int> a, b; for (int z : list) a.insert(n2p[z]); for (int z : l) { CHECK(!b.count(n2p[z]), "part " << n2p[z] << " still twice"); b.insert(n2p[z]); }
      CHECK(a == b, "parts lost or added"); CHECK(m == (a.empty() ? INT32_MAX : *a.begin()), "smallest part reported as " << m); for (int q = 0; q < nn; q++) CHECK(!ws[q], "work space not reset"); delete[] ws; H::end();
    }
  }
  return H::finish();
}
