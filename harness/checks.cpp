// P15: checked arrays and grids detect exactly the accesses outside their bounds.
#include <cassert>
#include "vc.h"
#include "grid/grid.hpp"
using namespace schnek;
static const int M = 1 << 16;
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
template<class F> static bool caught(F f) { try { f(); } catch (VcAssertFailed&) { return true; } return false; }
// arrays: every index, read and write
template<size_t N> static void array()
{
  Array<int,N,ArrayAssertArgCheck> a; int x[N]; for (size_t i = 0; i < N; ++i) a[i] = x[i] = vc_int("x", -M, M);
  const Array<int,N,ArrayAssertArgCheck> &c = a;
  int i = vc_int("i", -3, N + 3); bool out = i < 0 || i >= (int)N; int v = 0; size_t k = i;
  vc_assert(caught([&]{ v = c[k]; }) == out, "array-read-checked"); 
  vc_assert(caught([&]{ v = c.at(k); }) == out, "array-read-checked");
  vc_assert(caught([&]{ a[k] = 7; }) == out, "array-write-checked");
  vc_assert(caught([&]{ a.at(k) = 7; }) == out, "array-write-checked");
  for (size_t j = 0; j < N; ++j) vc_assert(c[j] == ((int)j == i ? 7 : x[j]), "array-write-hits-its-element");
  vc_reach("x");
}
template<size_t R, template<size_t> class C> struct Box
{
  typedef Grid<double,R,C> G; typedef typename G::IndexType I; I lo, hi, p; bool out, in[R];
  explicit Box(int least = 0) : out(false)
  {
    for (size_t d = 0; d < R; ++d)
    {
      lo[d] = vc_int("lo", -M, M); hi[d] = lo[d] + vc_int("n", least, R > 3 ? 50 : R > 2 ? 300 : 1000); p[d] = vc_int("p", -4 * M, 4 * M);
      if (p[d] < lo[d] || p[d] > hi[d]) out = true;
    }
  }
};
template<size_t R> struct Call;
template<> struct Call<1> { template<class G, class I> static auto at(G &g, const I &p) -> decltype(g(p[0])) { return g(p[0]); } };
template<> struct Call<2> { template<class G, class I> static auto at(G &g, const I &p) -> decltype(g(p[0], p[1])) { return g(p[0], p[1]); } };
template<> struct Call<3> { template<class G, class I> static auto at(G &g, const I &p) -> decltype(g(p[0], p[1], p[2])) { return g(p[0], p[1], p[2]); } };
template<> struct Call<4> { template<class G, class I> static auto at(G &g, const I &p) -> decltype(g(p[0], p[1], p[2], p[3])) { return g(p[0], p[1], p[2], p[3]); } };
template<size_t R> static void asserted(int form)
{
  Box<R,GridAssertCheck> b(R > 3 ? 0 : -1);  // a box may have no cells
  typename Box<R,GridAssertCheck>::G g(b.lo, b.hi); const typename Box<R,GridAssertCheck>::G &c = g;
  double v = 0, x = vc_double("x"); bool t = false;
  if (form == 0) t = caught([&]{ g[b.p] = x; });
  if (form == 1) t = caught([&]{ Call<R>::at(g, b.p) = x; });
  if (form == 2) t = caught([&]{ v = c[b.p]; });
  if (form == 3) t = caught([&]{ v = Call<R>::at(c, b.p); });
  vc_assert(t == b.out, "grid-access-checked");
  if (form < 2 && !b.out) vc_assert(g.get(b.p) == x, "checked-write-hits-its-cell");
  vc_reach("x");
}
template<size_t R> static void debugged(bool call)
{
  typedef GridDebugCheck<R> C; Box<R,GridDebugCheck> b; typename Box<R,GridDebugCheck>::G g(b.lo, b.hi); double x = vc_double("x");
  vc_assume(!C::getErrorFlag() || vc_is_native());
  bool before = C::getErrorFlag();
  if (call) Call<R>::at(g, b.p) = x; else g[b.p] = x;
  vc_assert(C::getErrorFlag() == (before || b.out), "error-flag-set-exactly-for-outside-accesses");
  if (b.out) for (size_t d = 0; d < R; ++d) vc_assert(C::getOffending()[d] == b.p[d], "offending-index-reported");
  typename Box<R,GridDebugCheck>::I q; for (size_t d = 0; d < R; ++d) q[d] = b.p[d] < b.lo[d] ? b.lo[d] : b.p[d] > b.hi[d] ? b.hi[d] : b.p[d];
  vc_assert(g.get(q) == x, "outside-access-is-moved-to-the-nearest-cell");
  vc_reach("x");
}
extern "C" void h_array1() { array<1>(); }
extern "C" void h_array2() { array<2>(); }
extern "C" void h_array3() { array<3>(); }
extern "C" void h_array6() { array<6>(); }
extern "C" void h_assert1() { asserted<1>(pick("form", 4)); }
extern "C" void h_assert2() { asserted<2>(pick("form", 4)); }
extern "C" void h_assert3() { asserted<3>(pick("form", 4)); }
extern "C" void h_debug1() { debugged<1>(pick("form", 2)); }
extern "C" void h_debug2() { debugged<2>(pick("form", 2)); }
extern "C" void h_debug3() { debugged<3>(pick("form", 2)); }

template<> struct Call<5> { template<class G, class I> static auto at(G &g, const I &p) -> decltype(g(p[0], p[1], p[2], p[3], p[4])) { return g(p[0], p[1], p[2], p[3], p[4]); } };
extern "C" void h_assert4() { asserted<4>(pick("form", 4)); }
extern "C" void h_debug4() { debugged<4>(pick("form", 2)); }
extern "C" void h_assert5() { asserted<5>(pick("form", 4)); }
extern "C" void ht_debug5() { debugged<5>(pick("form", 2)); }
