// P06: boxes (Range) and ghost-cell geometry (Boundary).
#include "vc.h"
#include "grid/grid.hpp"
#include "grid/boundary.hpp"
using namespace schnek;
static const int M = 1 << 20;

template<size_t R> static Array<int,R> arr(const char *n, int lo, int hi) { Array<int,R> a; for (size_t d = 0; d < R; ++d) a[d] = vc_int(n, lo, hi); return a; }
template<size_t R> static bool in(const Array<int,R> &p, const Array<int,R> &lo, const Array<int,R> &hi)
{ bool r = true; for (size_t d = 0; d < R; ++d) r = r & (p[d] >= lo[d]) & (p[d] <= hi[d]); return r; }
template<class A, class B, size_t R> static bool same(const A &a, const B &b) { bool r = true; for (size_t d = 0; d < R; ++d) r = r & (a[d] == b[d]); return r; }

template<size_t R> static void range()
{
  Array<int,R> lo = arr<R>("lo", -M, M), hi = arr<R>("hi", -M, M), p = arr<R>("p", -M, M);
  Range<int,R> r(lo, hi);
  const Range<int,R> &cr = r;
  vc_assert(same<Array<int,R>,Array<int,R>,R>(r.getLo(), lo) && same<Array<int,R>,Array<int,R>,R>(r.getHi(), hi), "a box reports its corners");
  for (size_t d = 0; d < R; ++d) vc_assert(r.getLo(d) == lo[d] && r.getHi(d) == hi[d] && cr.getLo(d) == lo[d] && cr.getHi(d) == hi[d], "a box reports the coordinates of its corners");
  vc_assert(r.inside(p) == in<R>(p, lo, hi), "a point is inside a box exactly if every coordinate is between the bounds");
  Range<int,R> c(r), e; e = r;
  Range<int,R,ArrayAssertArgCheck> f(r);
  for (size_t d = 0; d < R; ++d) vc_assert(c.getLo(d) == lo[d] && c.getHi(d) == hi[d] && e.getLo(d) == lo[d] && e.getHi(d) == hi[d] && f.getLo(d) == lo[d] && f.getHi(d) == hi[d], "copies of a box have its corners");
  int s = vc_int("s", -M, M);
  c.grow(s);
  for (size_t d = 0; d < R; ++d) vc_assert(c.getLo(d) == lo[d] - s && c.getHi(d) == hi[d] + s, "growing a box moves every face outwards by the same amount");
  for (size_t d = 0; d < R; ++d) vc_assert(r.getLo(d) == lo[d] && r.getHi(d) == hi[d], "changing a copy of a box leaves the box alone");
  int t = vc_int("t", -M, M);
  size_t k = vc_int("k", 0, R - 1);
  r.getLo(k) = t; r.getHi()[k] = t;
  for (size_t d = 0; d < R; ++d) vc_assert(cr.getLo(d) == (d == k ? t : lo[d]) && cr.getHi(d) == (d == k ? t : hi[d]), "setting one coordinate of a corner changes that one only");
  vc_reach("range");
}
template<size_t R> static void projectRange()
{
  Array<int,R> lo = arr<R>("lo", -M, M), hi = arr<R>("hi", -M, M);
  Range<int,R> r(lo, hi);
  for (size_t d = 0; d < R; ++d)
  {
    Range<int,R-1> q = r.projectDim(d);
    for (size_t i = 0; i < R - 1; ++i) { size_t j = i < d ? i : i + 1; vc_assert(q.getLo(i) == lo[j] && q.getHi(i) == hi[j], "projecting a box drops one dimension and keeps the others in order"); }
  }
  Range<int,R-1> q = r.template project<int(R-1)>();
  for (size_t i = 0; i < R - 1; ++i) vc_assert(q.getLo(i) == lo[i] && q.getHi(i) == hi[i], "projecting a box to fewer dimensions keeps the leading ones");
  vc_reach("project");
}
static void growck(const int *lo, const int *hi, const int *s, int d, int glo, int ghi) { vc_assert(glo == lo[d] - s[d] && ghi == hi[d] + s[d], "growing a box by one amount per dimension moves each face by the amount of its dimension"); }
extern "C" void h_growv()
{
  int l[10], h[10], s[10];
  for (int d = 0; d < 10; ++d) { l[d] = vc_int("lo", -M, M); h[d] = vc_int("hi", -M, M); s[d] = vc_int("s", -M, M); }
#define GR(n, ...) { Array<int,n> lo, hi; for (int d = 0; d < n; ++d) { lo[d] = l[d]; hi[d] = h[d]; } Range<int,n> r(lo, hi); r.grow(__VA_ARGS__); \
  for (int d = 0; d < n; ++d) growck(l, h, s, d, r.getLo(d), r.getHi(d)); }
  GR(2, s[0], s[1]) GR(3, s[0], s[1], s[2]) GR(4, s[0], s[1], s[2], s[3]) GR(5, s[0], s[1], s[2], s[3], s[4])
  GR(6, s[0], s[1], s[2], s[3], s[4], s[5]) GR(7, s[0], s[1], s[2], s[3], s[4], s[5], s[6]) GR(8, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
  GR(9, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]) GR(10, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9])
  vc_reach("growv");
}
template<size_t R> static void boundary()
{
  typedef Boundary<R> B;
  int delta = vc_int("delta", 0, 1000);
  Array<int,R> lo = arr<R>("lo", -M, M), hi;
  for (size_t d = 0; d < R; ++d) hi[d] = lo[d] + 2 * delta + vc_int("inner", 1, M) - 1;
  Range<int,R> dom(lo, hi);
  B b1(lo, hi, delta), b2(dom, delta);
  B b = vc_bool("ctor") ? b1 : b2;
  Array<int,R> p; for (size_t d = 0; d < R; ++d) p[d] = lo[d] + vc_int("p", 0, hi[d] - lo[d]);   // any cell of the domain
  vc_assert(b.getDelta() == delta, "a boundary reports its number of ghost cells");
  for (size_t d = 0; d < R; ++d) vc_assert(b.getDomain().getLo(d) == lo[d] && b.getDomain().getHi(d) == hi[d], "a boundary reports its domain");
  Range<int,R> inner = b.getInnerDomain();
  bool allInner = true;
  for (size_t d = 0; d < R; ++d)
  {
    vc_assert(inner.getLo(d) == lo[d] + delta && inner.getHi(d) == hi[d] - delta, "the inner domain is the domain without the ghost cells on every side");
    Range<int,R> gl = b.getGhostDomain(d, B::Min), gh = b.getGhostDomain(d, B::Max), sl = b.getGhostSourceDomain(d, B::Min), sh = b.getGhostSourceDomain(d, B::Max);
    for (size_t e = 0; e < R; ++e) if (e != d)
      vc_assert(gl.getLo(e) == lo[e] && gl.getHi(e) == hi[e] && gh.getLo(e) == lo[e] && gh.getHi(e) == hi[e]
             && sl.getLo(e) == lo[e] && sl.getHi(e) == hi[e] && sh.getLo(e) == lo[e] && sh.getHi(e) == hi[e], "ghost and source layers span the whole domain in the other dimensions");
    bool isl = gl.inside(p), ish = gh.inside(p), isi = p[d] >= inner.getLo(d) && p[d] <= inner.getHi(d);
    allInner = allInner & isi;
    vc_assert(int(isl) + int(ish) + int(isi) == 1, "in each dimension every cell is in exactly one of lower ghost layer, inner domain, upper ghost layer");
    vc_assert(isl == (p[d] < lo[d] + delta) && ish == (p[d] > hi[d] - delta), "the ghost layers are the outermost cells");
    vc_assert(gl.getHi(d) - gl.getLo(d) + 1 == delta && gh.getHi(d) - gh.getLo(d) + 1 == delta && sl.getHi(d) - sl.getLo(d) + 1 == delta && sh.getHi(d) - sh.getLo(d) + 1 == delta, "ghost and source layers are as thick as the number of ghost cells");
    // periodic image: shifting by the inner extent maps a ghost layer onto the source layer of the opposite side
    int n = hi[d] - lo[d] + 1 - 2 * delta;
    vc_assert(gl.getLo(d) + n == sh.getLo(d) && gl.getHi(d) + n == sh.getHi(d), "the upper source layer is the periodic image of the lower ghost layer");
    vc_assert(gh.getLo(d) - n == sl.getLo(d) && gh.getHi(d) - n == sl.getHi(d), "the lower source layer is the periodic image of the upper ghost layer");
    for (int s = 0; s < 2; ++s)
    {
      Range<int,R> bl = b.getBoundaryDomain(d, B::Min, s), bh = b.getBoundaryDomain(d, B::Max, s);
      for (size_t e = 0; e < R; ++e) if (e != d)
        vc_assert(bl.getLo(e) == lo[e] && bl.getHi(e) == hi[e] && bh.getLo(e) == lo[e] && bh.getHi(e) == hi[e], "boundary layers span the whole domain in the other dimensions");
      vc_assert(bl.getLo(d) == lo[d] && bl.getHi(d) == lo[d] + delta - 1 - s, "the lower boundary layer ends one cell earlier on a staggered grid");
      vc_assert(bh.getHi(d) == hi[d] && bh.getLo(d) == hi[d] - delta + 1, "the upper boundary layer is the upper ghost layer");
    }
  }
  vc_assert(inner.inside(p) == allInner, "a cell is inner exactly if it is in no ghost layer");
  vc_reach("boundary");
}
#define H(R) extern "C" void h_range##R() { range<R>(); } extern "C" void h_boundary##R() { boundary<R>(); }
H(1) H(2) H(3)
extern "C" void h_range4() { range<4>(); }
extern "C" void h_project2() { projectRange<2>(); }
extern "C" void h_project3() { projectRange<3>(); }
extern "C" void h_project4() { projectRange<4>(); }
