// P03: whole-grid assignment and compound assignment act on every index exactly once, element by element.
#include "vc.h"
#include "grid/grid.hpp"
#include "grid/field.hpp"
using namespace schnek;
static const int M = 1 << 16;
static const char *const KN[] = {"k0","k1","k2","k3"};

template<size_t R> struct S
{
  Array<int,R> lo, hi, k;
  S()
  {
    for (size_t d = 0; d < R; ++d) { lo[d] = vc_int("lo", -M, M); hi[d] = lo[d] + vc_int("n", 1, M) - 1; }
    for (size_t d = 0; d < R; ++d) { k[d] = lo[d] + vc_int("k", 0, hi[d] - lo[d]); }
  }
  void ghosts() { for (size_t d = 0; d < R; ++d) vc_ghost_i(KN[d], k[d]); }
};
template<class G> static void fill(G &g)
{
  vc_assume(g.end() - g.begin() <= 2147483647L);   // the number of elements is an int in the interface (getSize)
  if (vc_is_native()) for (double *p = g.begin(); p != g.end(); ++p) *p = 3;
}

template<size_t R, template<typename, size_t> class St> static void assignValue()
{
  S<R> s;
  Grid<double, R, GridNoArgCheck, St> g(s.lo, s.hi);
  fill(g);
  double v = vc_double("v");
  g[s.k] = vc_double("old");
  vc_watch_d(&g[s.k], v);
  g = v;
  vc_unwatch();
  vc_assert(g[s.k] == v, "assigning a value sets every index");
  for (size_t d = 0; d < R; ++d) vc_assert(g.getLo(d) == s.lo[d] && g.getHi(d) == s.hi[d], "assigning a value keeps the bounds");
  vc_reach("assign");
}
// same storage layout, same bounds
template<size_t R, template<typename, size_t> class St, bool PLUS> static void compound()
{
  S<R> s;
  Grid<double, R, GridNoArgCheck, St> g(s.lo, s.hi), h(s.lo, s.hi);
  fill(g); fill(h);
  double x = vc_double("x"), y = vc_double("y");
  g[s.k] = x; h[s.k] = y;
  vc_watch_d(&g[s.k], PLUS ? x + y : x - y);
  if (PLUS) g += h; else g -= h;
  vc_unwatch();
  vc_assert(g[s.k] == (PLUS ? x + y : x - y), "compound assignment combines every pair of elements with equal index exactly once");
  vc_assert(h[s.k] == y, "the right-hand side of a compound assignment is not changed");
  vc_reach("compound");
}
// a grid combined with a copy of itself
template<size_t R, template<typename, size_t> class St, bool PLUS> static void self()
{
  S<R> s;
  Grid<double, R, GridNoArgCheck, St> g(s.lo, s.hi), h(g);
  fill(g);
  double x = vc_double("x");
  g[s.k] = x;
  vc_watch_d(&g[s.k], PLUS ? x + x : 0.0);
  if (PLUS) g += h; else g -= h;
  vc_unwatch();
  vc_assert(g[s.k] == (PLUS ? x + x : 0.0), "compound assignment with a copy of the grid combines each element once");
  vc_reach("self");
}

// different storage layouts: the storages are represented by the contract of element access (P01):
// a storage is a map from index to cell; the cell of the arbitrary index k is tracked, all others are one scrap cell.
template<int TAG> struct MockBase
{
  template<typename T, size_t rank> struct Storage
  {
    typedef Array<int,rank> IndexType; typedef Range<int,rank> RangeType;
    typedef T *storage_iterator; typedef const T *const_storage_iterator;
    RangeType range; IndexType dims, k; T *cell, *scrap;
    Storage() {}
    Storage(const IndexType &lo, const IndexType &hi) : range(lo, hi) {}
    T &get(const IndexType &i)
    {
      bool in = true, same = true;
      for (size_t d = 0; d < rank; ++d) { in = in & (i[d] >= range.getLo(d)) & (i[d] <= range.getHi(d)); same = same & (i[d] == k[d]); }
      vc_assert(in, "compound assignment accesses only indices inside the bounds");
      if (same) return *cell;
      *scrap = 1.0;
      return *scrap;
    }
    const T &get(const IndexType &i) const { return const_cast<Storage*>(this)->get(i); }
    const IndexType &getLo() const { return range.getLo(); }
    const IndexType &getHi() const { return range.getHi(); }
    const RangeType &getRange() const { return range; }
    int getLo(int d) const { return range.getLo(d); }
    int getHi(int d) const { return range.getHi(d); }
  };
};
template<size_t R, bool PLUS> static void mixed()
{
  S<R> s; s.ghosts();
  Grid<double, R, GridNoArgCheck, MockBase<0>::Storage> g(s.lo, s.hi);
  Grid<double, R, GridNoArgCheck, MockBase<1>::Storage> h(s.lo, s.hi);
  double x = vc_double("x"), y = vc_double("y"), a = x, b = y, z1 = 0, z2 = 0;
  g.k = s.k; g.cell = &a; g.scrap = &z1;
  h.k = s.k; h.cell = &b; h.scrap = &z2;
  vc_watch_d(&a, PLUS ? x + y : x - y);
  if (PLUS) g += h; else g -= h;
  vc_assert(a == (PLUS ? x + y : x - y), "compound assignment across layouts combines every pair of elements with equal index exactly once");
  vc_assert(b == y, "the right-hand side of a compound assignment across layouts is not changed");
  vc_reach("mixed");
}
// the same with real storages in both layouts
template<size_t R, bool PLUS> static void mixedReal()
{
  S<R> s; s.ghosts();
  Grid<double, R, GridNoArgCheck, SingleArrayGridStorage> g(s.lo, s.hi);
  Grid<double, R, GridNoArgCheck, SingleArrayGridStorageFortran> h(s.lo, s.hi);
  fill(g); fill(h);
  double x = vc_double("x"), y = vc_double("y");
  g[s.k] = x; h[s.k] = y;
  vc_watch_d(&g[s.k], PLUS ? x + y : x - y);
  if (PLUS) g += h; else g -= h;
  vc_unwatch();
  vc_assert(g[s.k] == (PLUS ? x + y : x - y), "compound assignment across layouts combines every pair of elements with equal index exactly once (real storage)");
  vc_reach("mixed");
}
#define H(R) \
  extern "C" void h_assign_c##R() { assignValue<R, SingleArrayGridStorage>(); } \
  extern "C" void h_assign_f##R() { assignValue<R, SingleArrayGridStorageFortran>(); } \
  extern "C" void h_assign_l##R() { assignValue<R, LazyArrayGridStorage>(); } \
  extern "C" void h_add_c##R() { compound<R, SingleArrayGridStorage, true>(); } \
  extern "C" void h_sub_c##R() { compound<R, SingleArrayGridStorage, false>(); } \
  extern "C" void h_add_f##R() { compound<R, SingleArrayGridStorageFortran, true>(); } \
  extern "C" void h_sub_f##R() { compound<R, SingleArrayGridStorageFortran, false>(); } \
  extern "C" void h_addself_c##R() { self<R, SingleArrayGridStorage, true>(); } \
  extern "C" void h_subself_c##R() { self<R, SingleArrayGridStorage, false>(); } \
  extern "C" void h_addmixed##R() { mixed<R, true>(); } \
  extern "C" void h_submixed##R() { mixed<R, false>(); }
H(1) H(2) H(3)
extern "C" void h_addmixedreal1() { mixedReal<1, true>(); }
extern "C" void h_submixedreal1() { mixedReal<1, false>(); }

// a constant assigned to a field reaches every cell, ghost cells included
extern "C" void h_field_assign()
{
  double v = vc_double("v"); int a = vc_int("a", -100, 100), b = vc_int("b", -100, 100); typedef Field<double,2> F; Array<bool,2> st(false); F f(Array<int,2>(a, b), Array<int,2>(a + 1, b + 2), Range<double,2>(Array<double,2>(0.0, 0.0), Array<double,2>(1.0, 1.0)), st, 1);
  F &r = (f = v); vc_assert(&r == &f, "returns-the-field"); for (int i = a - 1; i <= a + 2; ++i) for (int j = b - 1; j <= b + 3; ++j) vc_assert(f(i, j) == v, "every-cell"); vc_assert(f.getInnerLo()[0] == a && f.getInnerHi()[1] == b + 2, "the-shape-stays"); vc_reach("x");
}
