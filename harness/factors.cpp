// P14: the number of processes is split into factors, one per dimension, whose product is the number.
#include "vc.h"
#include "util/factor.cpp"
#include <vector>
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static void check(int n, int k, std::vector<int> &w)
{
  std::vector<int> f; if (pick("used", 2)) f.resize(5, 9);
  schnek::equalFactors(n, k, f, w);
  vc_assert((int)f.size() == k, "one-factor-per-dimension");
  int p = 1; for (int i = 0; i < k; ++i) { vc_assert(f[i] >= 1, "factors-are-positive"); p *= f[i]; }
  vc_assert(p == n, "product-of-the-factors-is-the-number");
  vc_reach("x");
}
// every number of processes up to 256
static void range(int from, int count8, int k) { int n = from + 8 * pick("n8", count8) + pick("n1", 8); std::vector<int> w(k, 10); if (k > 1 && pick("long", 2)) w[1] = 300; check(n, k, w); }
extern "C" void h_one() { range(1, 8, 1); }
extern "C" void h_two1() { range(1, 8, 2); }
extern "C" void h_two2() { range(65, 8, 2); }
extern "C" void h_two3() { range(129, 8, 2); }
extern "C" void h_two4() { range(193, 8, 2); }
extern "C" void h_three1() { range(1, 4, 3); }
extern "C" void h_three2() { range(33, 3, 3); }
extern "C" void h_three3() { range(57, 1, 3); }
extern "C" void h_three4() { range(65, 4, 3); }
extern "C" void h_four() { range(1, 3, 4); }
// every box
extern "C" void h_anybox() { static const int N[] = {1, 2, 3, 4, 5, 6, 9}; int n = N[pick("n", 7)], k = 1 + pick("k", 3); std::vector<int> w(k); for (int i = 0; i < k; ++i) w[i] = vc_int("w", 1, 100000); check(n, k, w); }
extern "C" void h_anybox2() { static const int N[] = {8, 12, 18, 16, 30}; int n = N[pick("n", 5)]; std::vector<int> w(2); for (int i = 0; i < 2; ++i) w[i] = vc_int("w", 1, 100000); check(n, 2, w); }
