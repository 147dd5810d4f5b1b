#include "common.h"
#include "aggregation/utils.h"
using namespace sym_lib;
typedef unsigned __int128 W;
static void one(size_t a, size_t b, int ok) {
  auto d = [&]() { std::ostringstream o; o << "a=" << a << " b=" << b << " ok=" << ok; return o.str(); };
  for (int mul = 0; mul < 2; mul++) if (H::begin(mul ? "mult_size_t" : "add_size_t", d, a > 1 && b > 1)) {
    W w = mul ? (W)a * b : (W)a + b; bool fits = w <= (W)SIZE_MAX; int f = ok;
    size_t g = mul ? mult_size_t(a, b, &f) : add_size_t(a, b, &f);
    if (!ok) CHECK(f == 0 && g == 0, "the cleared flag was set, or a result returned");
    else if (fits) CHECK(f != 0 && g == (size_t)w, "the result fits; flag " << f << " result " << g);
    else CHECK(f == 0 && g == 0, "overflow not reported");
    H::end();
  }
}
int main(int c, char **v) {
  H::init(c, v); Rng r(H::seed);
  std::vector<size_t> e; for (int s = 0; s < 64; s++) for (int q = -2; q <= 2; q++) e.push_back(((size_t)1 << s) + q); e.push_back(0);
  for (size_t a : e) for (size_t b : e) { one(a, b, 1); if (((a ^ b) & 7) == 0) { one(a, b, 0); one(a, b, 5); } }
  while (H::timeleft()) {
    size_t a = r.next() >> r.below(64), b = r.next() >> r.below(64); one(a, b, r.chance(90)); one(a, SIZE_MAX - a + r.in(-1, 1), 1);
    if (a) { size_t q = SIZE_MAX / a; one(a, q, 1); one(a, q + 1, 1); one(q, a, 1); }
  }
  return H::finish();
}
