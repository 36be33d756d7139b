// P07: fields tie a grid with ghost cells to a physical domain.
#include "vc.h"
#include <cmath>
#include "grid/grid.hpp"
#include "grid/field.hpp"
using namespace schnek;
static const int M = 1 << 20;

template<size_t R> struct In
{
  Array<int,R> lo, hi, n; Array<bool,R> stg; Array<double,R> dl, dh, h; int g;
  In()
  {
    g = vc_int("ghost", 0, 1000);
    for (size_t d = 0; d < R; ++d)
    {
      lo[d] = vc_int("lo", -M, M); n[d] = vc_int("n", 1, M); hi[d] = lo[d] + n[d] - 1; stg[d] = vc_bool("stagger");
      dl[d] = vc_double("dlo"); dh[d] = vc_double("dhi");
    }
  }
};
template<class F, size_t R> static void shape(F &f, In<R> &q, bool bySize)
{
  for (size_t d = 0; d < R; ++d)
  {
    int l = bySize ? 0 : q.lo[d], u = bySize ? q.n[d] - 1 : q.hi[d];
    vc_assert(f.getLo(d) == l - q.g && f.getHi(d) == u + q.g, "a field's grid is the inner box plus the ghost cells on every side");
    vc_assert(f.getInnerLo()[d] == l && f.getInnerHi()[d] == u, "the inner box of a field is the box it was given");
    vc_assert(f.getInnerRange().getLo(d) == l && f.getInnerRange().getHi(d) == u, "the inner range of a field is the box it was given");
    vc_assert(f.getDomain().getLo(d) == q.dl[d] && f.getDomain().getHi(d) == q.dh[d], "a field reports the physical domain it was given");
    vc_assert(f.getStagger(d) == q.stg[d] && f.getStagger()[d] == q.stg[d], "a field reports the stagger it was given");
  }
}
template<size_t R> static void make()
{
  typedef Field<double,R> F;
  In<R> q;
  Range<double,R> dom(q.dl, q.dh); Range<int,R> box(q.lo, q.hi);
  { F f(q.n, dom, q.stg, q.g); shape<F,R>(f, q, true); }
  { F f(q.lo, q.hi, dom, q.stg, q.g); shape<F,R>(f, q, false); F c(f); shape<F,R>(c, q, false); F e(q.n, dom, Array<bool,R>(false), 0); e = f; shape<F,R>(e, q, false); }
  { F f(box, dom, q.stg, q.g); shape<F,R>(f, q, false); }
  vc_reach("make");
}
template<size_t R> static void remake()
{
  typedef Field<double,R> F;
  In<R> q;
  Range<double,R> dom(q.dl, q.dh), dom0(Array<double,R>(0.0), Array<double,R>(1.0)); Range<int,R> box(q.lo, q.hi);
  F f(Array<int,R>(2), dom0, Array<bool,R>(false), 1);
  f.resize(q.n, dom, q.stg, q.g); shape<F,R>(f, q, true);
  f.resize(Array<int,R>(3), dom0, Array<bool,R>(true), 2);
  f.resize(q.lo, q.hi, dom, q.stg, q.g); shape<F,R>(f, q, false);
  f.resize(Array<int,R>(3), dom0, Array<bool,R>(true), 2);
  f.resize(box, dom, q.stg, q.g); shape<F,R>(f, q, false);
  vc_reach("remake");
}
// dimension D of a field of rank R: n cells of width w from a
template<size_t R, size_t D> static void position()
{
  typedef Field<double,R> F;
  Array<int,R> lo(0), hi(1); Array<bool,R> stg(false); Array<double,R> dl(-3.0), dh(5.0);
  int g = vc_int("ghost", 0, 1000), n = vc_int("n", 1, M), s = vc_int("stagger", 0, 1);
  double w = vc_double("width"), a = vc_double("a");
  vc_assume(w > 0.001 && w < 1000.0 && a > -1000.0 && a < 1000.0);
  lo[D] = vc_int("lo", -M, M); hi[D] = lo[D] + n - 1; stg[D] = s != 0; dl[D] = a; dh[D] = a + w * n;
  F f(lo, hi, Range<double,R>(dl, dh), stg, g);
  double half = s ? 0.5 : 0.0;
  int i = vc_int("i", -2 * M, 2 * M);
  vc_assert(vc_near(f.indexToPosition(D, i), a + w * (i - lo[D] + half)), "grid point i lies i cell widths (plus half a cell if staggered) from the lower end of the inner box");
  double pos = vc_double("pos");
  vc_assume(pos > -2000.0 && pos < 2000.0);
  int idx; double off;
  f.positionToIndex(D, pos, idx, off);
  vc_assert(off >= 0.0 && (off < 1.0 || (vc_is_native() && off <= 1.0)), "the offset of a position from its index is between 0 and 1");
  vc_assert(vc_near((idx - lo[D] + half + off) * w, pos - a), "index and offset locate the position");
  vc_assert(f.positionToIndex(D, pos) == idx, "both forms of positionToIndex give the same index");
  vc_reach("position");
}
// round trip
template<size_t R, size_t D> static void roundtrip()
{
  typedef Field<double,R> F;
  Array<int,R> lo(0), hi(1); Array<bool,R> stg(false); Array<double,R> dl(-3.0), dh(5.0);
  int g = vc_int("ghost", 0, 100), n = vc_int("n", 1, M), s = vc_int("stagger", 0, 1);
  double w = vc_double("width"), a = vc_double("a"), t = vc_double("t");
  vc_assume(w > 0.001 && w < 1000.0 && a > -1000.0 && a < 1000.0 && t >= (vc_is_native() ? 0.001 : 0.0) && t < (vc_is_native() ? 0.999 : 1.0));
  lo[D] = vc_int("lo", -M, M); hi[D] = lo[D] + n - 1; stg[D] = s != 0; dl[D] = a; dh[D] = a + w * n;
  F f(lo, hi, Range<double,R>(dl, dh), stg, g);
  int i = vc_int("i", -2 * M, 2 * M);
  double pos = f.indexToPosition(D, i) + t * w;
  int idx; double off;
  f.positionToIndex(D, pos, idx, off);
  vc_assert(idx == i, "a position between grid points i and i+1 has index i");
  vc_assert(vc_near(off, t), "the offset is the fraction of a cell from that grid point");
  vc_reach("roundtrip");
}
extern "C" void h_make1() { make<1>(); }
extern "C" void h_make2() { make<2>(); }
extern "C" void h_make3() { make<3>(); }
extern "C" void h_remake1() { remake<1>(); }
extern "C" void h_remake2() { remake<2>(); }
extern "C" void h_remake3() { remake<3>(); }
extern "C" void h_pos1() { position<1,0>(); }
extern "C" void h_pos2a() { position<2,0>(); }
extern "C" void h_pos2b() { position<2,1>(); }
extern "C" void h_pos3c() { position<3,2>(); }
extern "C" void h_rt1() { roundtrip<1,0>(); }
extern "C" void h_rt2b() { roundtrip<2,1>(); }
extern "C" void h_rt3b() { roundtrip<3,1>(); }
