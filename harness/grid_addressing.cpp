// P: grid index mapping -- in bounds, injective, read-your-write with frame, stride/extent accessors.
#include "vc.h"
#include "grid/grid.hpp"
using namespace schnek;

static const int M = 1 << 20;

template<size_t R> struct Box { int lo[R], n[R]; };

template<size_t R> static void arbBox(Box<R> &b)
{
  for (size_t d = 0; d < R; ++d) { b.lo[d] = vc_int("lo", -M, M); b.n[d] = vc_int("n", 1, M); }
}
template<size_t R> static void arbIndex(const Box<R> &b, int (&i)[R])
{
  for (size_t d = 0; d < R; ++d) i[d] = b.lo[d] + vc_int("x", 0, b.n[d] - 1);
}
template<size_t R> static Array<int,R> idx(const int (&i)[R])
{
  Array<int,R> a;
  for (size_t d = 0; d < R; ++d) a[d] = i[d];
  return a;
}

template<class G, size_t R> static double &viaCall(G &g, const int (&i)[R])
{
  if constexpr (R == 1) return g(i[0]);
  else if constexpr (R == 2) return g(i[0], i[1]);
  else if constexpr (R == 3) return g(i[0], i[1], i[2]);
  else if constexpr (R == 4) return g(i[0], i[1], i[2], i[3]);
  else if constexpr (R == 5) return g(i[0], i[1], i[2], i[3], i[4]);
  else return g(i[0], i[1], i[2], i[3], i[4], i[5]);
}
template<class G, size_t R> static double viaCallConst(const G &g, const int (&i)[R])
{
  if constexpr (R == 1) return g(i[0]);
  else if constexpr (R == 2) return g(i[0], i[1]);
  else if constexpr (R == 3) return g(i[0], i[1], i[2]);
  else if constexpr (R == 4) return g(i[0], i[1], i[2], i[3]);
  else if constexpr (R == 5) return g(i[0], i[1], i[2], i[3], i[4]);
  else return g(i[0], i[1], i[2], i[3], i[4], i[5]);
}

// writing one index leaves every other index alone and is read back through every access path
template<size_t R, template<typename, size_t> class Storage, bool corder> static void access()
{
  typedef Grid<double, R, GridNoArgCheck, Storage> G;
  Box<R> b; arbBox(b);
  Array<int,R> lo, hi;
  for (size_t d = 0; d < R; ++d) { lo[d] = b.lo[d]; hi[d] = b.lo[d] + b.n[d] - 1; }
  G g(lo, hi);
  int i[R], j[R]; arbIndex(b, i); arbIndex(b, j);
  double x = vc_double("x"), y = vc_double("y");
  g[idx(j)] = y;
  viaCall(g, i) = x;
  const G &cg = g;
  vc_assert(cg[idx(i)] == x, "value written at an index is read back");
  vc_assert(viaCallConst(cg, i) == x, "value written at an index is read back (call syntax)");
  vc_assert(g.get(idx(i)) == x, "value written at an index is read back (get)");
  // two arbitrary distinct indices differ first at some dimension (slowest first)
  bool same = true;
  for (size_t d = 0; d < R; ++d)
  {
    size_t e = corder ? d : R - 1 - d;
    vc_split(i[e] == j[e]);
    if (i[e] != j[e]) { vc_split(i[e] < j[e]); same = false; break; }
  }
  if (!same) vc_assert(cg[idx(j)] == y, "writing one index leaves every other index unchanged");
  vc_reach("access");
}

// extents, strides and the flat storage agree with the index mapping
template<size_t R, template<typename, size_t> class Storage, bool corder> static void layout()
{
  typedef Grid<double, R, GridNoArgCheck, Storage> G;
  Box<R> b; arbBox(b);
  Array<int,R> lo, hi;
  for (size_t d = 0; d < R; ++d) { lo[d] = b.lo[d]; hi[d] = b.lo[d] + b.n[d] - 1; }
  G g(lo, hi);
  long total = 1;
  for (size_t d = 0; d < R; ++d)
  {
    vc_assert(g.getLo(d) == b.lo[d], "reported lower bound is the requested one");
    vc_assert(g.getHi(d) == b.lo[d] + b.n[d] - 1, "reported upper bound is the requested one");
    vc_assert(g.getDims(d) == b.n[d], "reported extent is the number of indices");
    total *= b.n[d];
  }
  vc_assert(g.end() - g.begin() == total, "flat traversal covers exactly the number of indices");
  vc_assert(g.cend() - g.cbegin() == total, "flat traversal covers exactly the number of indices (const)");
  vc_assert(g.getRawData() == g.begin(), "raw data is the start of the flat storage");
  int i[R]; arbIndex(b, i);
  const double *p = &g.get(idx(i));
  long off = 0;
  for (size_t d = 0; d < R; ++d) off += long(g.stride(d)) * (i[d] - b.lo[d]);
  vc_assert(p - g.getRawData() == off, "index address equals the stride sum");
  if (corder) vc_assert(g.stride(R - 1) == 1, "last index is contiguous in C order");
  else vc_assert(g.stride(0) == 1, "first index is contiguous in Fortran order");
  for (size_t d = 0; d + 1 < R; ++d)
  {
    if (corder) vc_assert(g.stride(d) == g.stride(d + 1) * b.n[d + 1], "strides nest in C order");
    else vc_assert(g.stride(d + 1) == g.stride(d) * b.n[d], "strides nest in Fortran order");
  }
  vc_reach("layout");
}

#define H(R) \
  extern "C" void h_access_c##R() { access<R, SingleArrayGridStorage, true>(); } \
  extern "C" void h_access_f##R() { access<R, SingleArrayGridStorageFortran, false>(); } \
  extern "C" void h_layout_c##R() { layout<R, SingleArrayGridStorage, true>(); } \
  extern "C" void h_layout_f##R() { layout<R, SingleArrayGridStorageFortran, false>(); }
H(1) H(2) H(3) H(4) H(5)
