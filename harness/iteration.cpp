// P04: every traversal visits exactly the indices of the box, once each, in the documented order.
#include "vc.h"
#include "grid/range.hpp"
#include "grid/iteration/range-iteration.hpp"
using namespace schnek;
static const int M = 1 << 20;
static const char *const KN[] = {"k0","k1","k2","k3","k4","k5"};

template<size_t R> struct Setup
{
  Array<int,R> lo, hi, k, m;
  explicit Setup(bool in)
  {
    // n == 0 gives an empty box
    for (size_t d = 0; d < R; ++d) { lo[d] = vc_int("lo", -M, M); hi[d] = lo[d] + vc_int("n", in ? 1 : 0, M) - 1; }
    for (size_t d = 0; d < R; ++d) k[d] = lo[d] + vc_int("k", in ? 0 : -M, in ? hi[d] - lo[d] : 2*M);
    for (size_t d = 0; d < R; ++d) m[d] = in ? lo[d] + vc_int("m", 0, hi[d] - lo[d]) : 0;
    for (size_t d = 0; d < R; ++d) vc_ghost_i(KN[d], k[d]);
  }
  bool inside(const Array<int,R> &x) const
  {
    bool r = true;
    for (size_t d = 0; d < R; ++d) r = r & (x[d] >= lo[d]) & (x[d] <= hi[d]);
    return r;
  }
  // k precedes m when the last (C) or the first (Fortran) index runs fastest
  bool before(bool fortran) const
  {
    bool r = false;
    for (size_t i = 0; i < R; ++i)
    {
      size_t d = fortran ? i : R-1-i;
      r = (k[d] < m[d]) | ((k[d] == m[d]) & r);
    }
    return r;
  }
};

template<size_t R> static bool same(const Array<int,R> &p, const Array<int,R> &q)
{
  bool r = true;
  for (size_t d = 0; d < R; ++d) r = r & (p[d] == q[d]);
  return r;
}

template<size_t R> struct Counter
{
  int *cnt; const Setup<R> *s;
  void operator()(const Array<int,R> &p) const
  {
    vc_assert(s->inside(p), "only indices of the box are visited");
    if (same<R>(p, s->k)) *cnt += 1;
  }
};
template<size_t R> struct Order
{
  int *cnt; const Setup<R> *s; bool b;
  void operator()(const Array<int,R> &p) const
  {
    if (same<R>(p, s->m)) vc_assert(*cnt == (b ? 1 : 0), "an index is visited after exactly those that precede it in the traversal order");
    if (same<R>(p, s->k)) *cnt += 1;
  }
};

template<size_t R, class Policy> static void once()
{
  Setup<R> s(false);
  vc_split(s.inside(s.k));
  int cnt = 0;
  vc_watch_i(&cnt, s.inside(s.k) ? 1 : 0);
  Range<int,R> r(s.lo, s.hi);
  Counter<R> c{&cnt, &s};
  Policy::forEach(r, c);
  vc_assert(cnt == (s.inside(s.k) ? 1 : 0), "every index of the box is visited exactly once and no other");
  vc_reach("once");
}
template<size_t R, class Policy> static void order(bool fortran)
{
  Setup<R> s(true);
  vc_assume(s.inside(s.k));
  vc_assume(s.inside(s.m));
  bool b = s.before(fortran);
  vc_split(b);
  int cnt = 0;
  vc_watch_i(&cnt, 1);
  Range<int,R> r(s.lo, s.hi);
  Order<R> c{&cnt, &s, b};
  Policy::forEach(r, c);
  vc_reach("order");
}
// Range iterator: prefix and postfix increment
template<size_t R, bool POST, class F> static void walk(Range<int,R> &r, F f)
{
  typename Range<int,R>::iterator e = r.end();
  for (typename Range<int,R>::iterator it = r.begin(); it != e; )
  {
    f(*it);
    if (POST) it++; else ++it;
  }
}
template<size_t R, bool POST> static void iter_once()
{
  Setup<R> s(false);
  vc_split(s.inside(s.k));
  int cnt = 0;
  vc_watch_i(&cnt, s.inside(s.k) ? 1 : 0);
  Range<int,R> r(s.lo, s.hi);
  Counter<R> c{&cnt, &s};
  walk<R,POST>(r, c);
  vc_assert(cnt == (s.inside(s.k) ? 1 : 0), "the range iterator visits every index of the box exactly once and no other");
  vc_reach("once");
}
template<size_t R> static void iter_order()
{
  Setup<R> s(true);
  vc_assume(s.inside(s.k));
  vc_assume(s.inside(s.m));
  bool b = s.before(false);
  vc_split(b);
  int cnt = 0;
  vc_watch_i(&cnt, 1);
  Range<int,R> r(s.lo, s.hi);
  Order<R> c{&cnt, &s, b};
  walk<R,false>(r, c);
  vc_reach("order");
}
#define H(R,T) \
  extern "C" void T##once_c##R() { once<R, RangeCIterationPolicy<R> >(); } \
  extern "C" void T##once_f##R() { once<R, RangeFortranIterationPolicy<R> >(); } \
  extern "C" void T##order_c##R() { order<R, RangeCIterationPolicy<R> >(false); } \
  extern "C" void T##order_f##R() { order<R, RangeFortranIterationPolicy<R> >(true); } \
  extern "C" void T##iter##R() { iter_once<R,false>(); } \
  extern "C" void T##iterpost##R() { iter_once<R,true>(); } \
  extern "C" void T##iterorder##R() { iter_order<R>(); }
H(1,h_) H(2,h_) H(3,h_) H(4,ht_)
