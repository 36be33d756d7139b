// P08: ghost cells of a serial (periodic) domain are exchanged and accumulated with their periodic images.
// The grid is represented by the contract of element access (P01): a map from index to cell. The cells at an arbitrary index p
// and at its periodic images are tracked; all other cells are one scrap cell.
#include "vc.h"
#include "grid/grid.hpp"
#include "grid/domainsubdivision.hpp"
using namespace schnek;
static const int M = 1 << 16;
static const char *const KN[] = {"k0","k1","k2","k3"};

template<size_t R> struct MockGrid
{
  enum {Rank = R};
  typedef double value_type; typedef Array<int,R> IndexType; typedef GridNoArgCheck<R> CheckingPolicyType; typedef int StoragePolicyType;
  IndexType lo, hi, p; int n; size_t dim; double *cell, *up, *down, *scrap;    // cells at p, p+n, p-n
  const IndexType &getLo() const { return lo; } const IndexType &getHi() const { return hi; }
  double &operator[](const IndexType &i)
  {
    bool in = true, oth = true;
    for (size_t d = 0; d < R; ++d) { in = in & (i[d] >= lo[d]) & (i[d] <= hi[d]); if (d != dim) oth = oth & (i[d] == p[d]); }
    vc_assert(in, "ghost-cell exchange accesses only cells of the domain");
    if (oth & (i[dim] == p[dim])) return *cell;
    if (oth & (i[dim] == p[dim] + n)) return *up;
    if (oth & (i[dim] == p[dim] - n)) return *down;
    *scrap = 1.0;
    return *scrap;
  }
  template<class X> double &operator[](const X &x) { return (*this)[IndexType(x)]; }
  double &get(const IndexType &i) { return (*this)[i]; }
};
template<size_t R, size_t D> struct Case
{
  MockGrid<R> g; int delta, n; double x, u, w, a, b, c, z; SerialSubdivision<MockGrid<R> > sub;
  bool isLo, isHi;
  Case(int where)                                  // 0: p is a lower ghost cell, 1: upper ghost cell, 2: inner cell (in dimension D)
  {
    delta = vc_int("delta", 1, 100); z = 0;
    for (size_t d = 0; d < R; ++d)
    {
      g.lo[d] = vc_int("lo", -M, M);
      int inner = d == D ? delta + vc_int("n", 0, M) : vc_int("n", 1, M);
      g.hi[d] = g.lo[d] + 2 * delta + inner - 1;
      if (d == D) n = inner;
    }
    for (size_t d = 0; d < R; ++d)
    {
      if (d != D) g.p[d] = g.lo[d] + vc_int("p", 0, g.hi[d] - g.lo[d]);
      else if (where == 0) g.p[d] = g.lo[d] + vc_int("p", 0, delta - 1);
      else if (where == 1) g.p[d] = g.hi[d] - vc_int("p", 0, delta - 1);
      else g.p[d] = g.lo[d] + delta + vc_int("p", 0, n - 1);
      vc_ghost_i(KN[d], g.p[d]);
    }
    g.dim = D; g.n = n; g.cell = &a; g.up = &b; g.down = &c; g.scrap = &z;
    x = a = vc_double("x"); u = b = vc_double("u"); w = c = vc_double("w");
    sub.init(g.lo, g.hi, delta);
    vc_assert(sub.getDelta() == delta, "the subdivision reports its number of ghost cells");
    for (size_t d = 0; d < R; ++d)
      vc_assert(sub.getLo()[d] == g.lo[d] && sub.getHi()[d] == g.hi[d] && sub.getInnerLo()[d] == g.lo[d] + delta && sub.getInnerHi()[d] == g.hi[d] - delta, "the subdivision reports the whole domain and its inner part");
  }
};
template<size_t R, size_t D> static void exch(int where)
{
  Case<R,D> q(where);
  DomainSubdivision<MockGrid<R> > &s = q.sub;
  vc_watch_d(&q.a, where == 0 ? q.u : where == 1 ? q.w : q.x);
  s.exchange(q.g, D);
  if (where == 0) vc_assert(q.a == q.u, "exchange fills every lower ghost cell with its periodic image in the inner domain");
  if (where == 1) vc_assert(q.a == q.w, "exchange fills every upper ghost cell with its periodic image in the inner domain");
  if (where == 2) vc_assert(q.a == q.x, "exchange leaves inner cells unchanged");
  vc_reach("exchange");
}
// ghost cell p and its image, domain at least two layers thick: both end up with the sum
template<size_t R, size_t D> static void accGhost(int where)
{
  Case<R,D> q(where);
  vc_assume(q.n >= 2 * q.delta);
  DomainSubdivision<MockGrid<R> > &s = q.sub;
  double sum = q.x + (where == 0 ? q.u : q.w);
  vc_watch_d(&q.a, sum); if (where == 0) vc_watch_d(&q.b, sum); else vc_watch_d(&q.c, sum);
  s.accumulate(q.g, D);
  vc_assert(q.a == sum, "accumulate adds the inner image to every ghost cell");
  vc_assert((where == 0 ? q.b : q.c) == sum, "accumulate adds every ghost cell to its image in the inner domain");
  vc_reach("accumulate");
}
template<size_t R, size_t D> static void accInner()
{
  Case<R,D> q(2);
  DomainSubdivision<MockGrid<R> > &s = q.sub;
  bool inHi = q.g.p[D] > q.g.hi[D] - 2 * q.delta, inLo = q.g.p[D] < q.g.lo[D] + 2 * q.delta;
  vc_split(inHi); vc_split(inLo);
  double y = inHi ? q.x + q.w : q.x, v = inLo ? y + q.u : y;      // after the lower and after the upper layer
  vc_watch_d(&q.a, y); vc_watch_d(&q.a, v);
  if (inHi) vc_watch_d(&q.c, y);
  if (inLo) vc_watch_d(&q.b, v);
  s.accumulate(q.g, D);
  vc_assert(q.a == v, "accumulate adds to every inner cell its ghost images and nothing else");
  vc_reach("accumulate");
}
// the forms without a dimension act once on every dimension
template<size_t R> struct Recorder : public SerialSubdivision<MockGrid<R> >
{
  int nx[R], na[R], order; bool ordered;
  Recorder() : order(0), ordered(true) { for (size_t d = 0; d < R; ++d) nx[d] = na[d] = 0; }
  void exchange(MockGrid<R> &, size_t d) override { vc_assert(d < R, "exchange is called for a dimension of the grid"); ++nx[d]; }
  void accumulate(MockGrid<R> &, size_t d) override { vc_assert(d < R, "accumulate is called for a dimension of the grid"); ++na[d]; }
};
template<size_t R> static void all()
{
  Recorder<R> r; MockGrid<R> g;
  DomainSubdivision<MockGrid<R> > &s = r;
  s.exchange(g); 
  for (size_t d = 0; d < R; ++d) vc_assert(r.nx[d] == 1 && r.na[d] == 0, "exchange of a grid exchanges every dimension once");
  s.accumulate(g);
  for (size_t d = 0; d < R; ++d) vc_assert(r.nx[d] == 1 && r.na[d] == 1, "accumulate of a grid accumulates every dimension once");
  int v = vc_int("v", -M, M); double x = vc_double("x");
  vc_assert(s.sumReduce(v) == v && s.avgReduce(v) == v && s.maxReduce(v) == v && s.minReduce(v) == v, "reductions over one process return the value");
  vc_assert(s.sumReduce(x) == x && s.avgReduce(x) == x && s.maxReduce(x) == x && s.minReduce(x) == x, "reductions over one process return the value");
  vc_assert(s.master() && s.procnum() == 0 && s.procCount() == 1 && s.getUniqueId() == 0, "a serial run has one process, the master");
  for (size_t d = 0; d < R; ++d) vc_assert(s.isBoundLo(d) && s.isBoundHi(d), "the only process is at every bound of the domain");
  vc_reach("all");
}
#define H(R,D) \
  extern "C" void h_exlo##R##D() { exch<R,D>(0); } \
  extern "C" void h_exhi##R##D() { exch<R,D>(1); } \
  extern "C" void h_exin##R##D() { exch<R,D>(2); } \
  extern "C" void h_aclo##R##D() { accGhost<R,D>(0); } \
  extern "C" void h_achi##R##D() { accGhost<R,D>(1); }
H(1,0) H(2,0) H(2,1) H(3,0) H(3,1) H(3,2)
extern "C" void h_acin10() { accInner<1,0>(); }
extern "C" void h_acin20() { accInner<2,0>(); }
extern "C" void h_acin21() { accInner<2,1>(); }
extern "C" void ht_acin30() { accInner<3,0>(); }
extern "C" void ht_acin31() { accInner<3,1>(); }
extern "C" void ht_acin32() { accInner<3,2>(); }
extern "C" void h_all1() { all<1>(); }
extern "C" void h_all2() { all<2>(); }
extern "C" void h_all3() { all<3>(); }

// the ways of giving the domain: bounds, range, grid or size
template<size_t R> static void initForms()
{
  typedef Grid<double,R> G; typedef Array<int,R> I; I lo, hi, n; int delta = vc_int("delta", 0, 20); for (size_t d = 0; d < R; ++d) { lo[d] = vc_int("lo", -100, 100); n[d] = 2 * delta + vc_int("n", 1, 20); hi[d] = lo[d] + n[d] - 1; }
  SerialSubdivision<G> a, b, c, e; DomainSubdivision<G> *s[4] = {&a, &b, &c, &e}; G g(lo, hi); Range<int,R> r(lo, hi);
  s[0]->init(lo, hi, delta); s[1]->init(r, delta); s[2]->init(g, delta); s[3]->init(n, delta);
  for (int k = 0; k < 4; ++k) { vc_assert(s[k]->getDelta() == delta, "number-of-ghost-cells"); for (size_t d = 0; d < R; ++d) { int l = k == 3 ? 0 : lo[d], h = k == 3 ? n[d] - 1 : hi[d];
    vc_assert(s[k]->getLo()[d] == l && s[k]->getHi()[d] == h && s[k]->getDomain().getLo(d) == l && s[k]->getDomain().getHi(d) == h, "the-given-domain"); vc_assert(s[k]->getInnerLo()[d] == l + delta && s[k]->getInnerHi()[d] == h - delta && s[k]->getInnerDomain().getLo(d) == l + delta && s[k]->getInnerDomain().getHi(d) == h - delta, "its-inner-part"); } }
  vc_reach("x");
}
extern "C" void h_init_forms1() { initForms<1>(); }
extern "C" void h_init_forms2() { initForms<2>(); }
extern "C" void h_init_forms3() { initForms<3>(); }
