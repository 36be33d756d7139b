// P16: filling a field gives every point the value of the deck expression at the position of that point.
#include "deck.h"
#include "tools/fieldtools.hpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }
typedef BinaryOp<schnek::expression::OperatorAdd<double>, double> Sum;
static pFloatExpression ref(pParameter p) { return pFloatExpression(new ReferencedValue<double>(p->getVariable())); }
static pFloatExpression val(double v) { return pFloatExpression(new Value<double>(v)); }
static pFloatExpression plus(pFloatExpression a, pFloatExpression b) { return pFloatExpression(new Sum(a, b)); }
static void define(pParameter p, pFloatExpression e) { Variable v(e); *p->getVariable() = v; }
// a block with coordinates x, y, z, an intermediate m and two field values f, g
template<size_t R> struct Sim
{
  Deck d; BlockParameters par; Array<double,R> x; double m, f, g; Array<pParameter,R> px; pParameter pm, pf, pg; pDependencyMap map;
  Sim() : m(-1), f(-2), g(-3)
  {
    par.setContext(d.vars.getRootBlock()); x = Array<double,R>(0.0);
    px = par.addArrayParameter("", x, BlockParameters::readonly);
    pm = par.addParameter("m", &m, 0.0); pf = par.addParameter("f", &f, 0.0); pg = par.addParameter("g", &g, 0.0);
  }
  void start() { map = pDependencyMap(new DependencyMap(d.vars.getRootBlock())); map->updateAll(); par.evaluate(); }
};
template<size_t R> static Field<double,R> field(const char *n, int len)
{
  Array<double,R> lo, hi; Array<int,R> il, ih; Array<bool,R> st;
  for (size_t d = 0; d < R; ++d) { lo[d] = vc_double(n); hi[d] = vc_double(n); vc_assume(hi[d] > lo[d]); il[d] = d == 0 ? -1 : 2; ih[d] = il[d] + len - 1 + (int)d; st[d] = flip("stagger"); }
  return Field<double,R>(il, ih, Range<double,R>(lo, hi), st, 1);
}
template<size_t R> static void positions(Field<double,R> &F, const Array<int,R> &p, double *x) { for (size_t d = 0; d < R; ++d) x[d] = F.indexToPosition(d, p[d]); }
// f = c + x0 [+ x1 ...] [+ m], m = x_last + 1
template<size_t R> static void fill(int len, bool given)
{
  Sim<R> s; bool viaM = flip("via-m"), refill = flip("refill"); double c = vc_double("c");
  pFloatExpression e = val(c); for (size_t d = 0; d < R; ++d) e = plus(e, ref(s.px[d]));
  if (viaM) e = plus(e, ref(s.pm));
  define(s.pf, e); define(s.pm, plus(ref(s.px[R-1]), val(1.0))); define(s.pg, ref(s.px[0])); s.start();
  DependencyUpdater up(s.map); up.addIndependentArray(s.px);
  Field<double,R> F = field<R>("F", len);
  double g0 = s.g;
  if (given) { if (refill) up.addDependent(s.pg); fill_field(F, s.x, s.f, up, s.pf); }
  else { up.addDependent(s.pf); fill_field(F, s.x, s.f, up); if (refill) fill_field(F, s.x, s.f, up); }
  Range<int,R> dom(F.getLo(), F.getHi());
  for (typename Range<int,R>::iterator it = dom.begin(); it != dom.end(); ++it)
  {
    double x[R], v = c; positions<R>(F, *it, x); for (size_t d = 0; d < R; ++d) v = v + x[d];
    if (viaM) v = v + (x[R-1] + 1.0);
    vc_assert(vc_near(F[*it], v), "every-point-holds-the-expression-at-its-position");
  }
  vc_assert(s.g == g0, "other-parameters-keep-their-values");
  vc_reach("x");
}
extern "C" void h_fill1() { fill<1>(3, flip("given")); }
extern "C" void h_fill2() { fill<2>(2, flip("given")); }
extern "C" void h_fill3() { fill<3>(1, true); }
// two value types, two expressions and two sets of coordinates, collected in one or two fillers
extern "C" void h_filler()
{
  Sim<1> s, t; double c = vc_double("c"), e = vc_double("e");
  define(s.pf, plus(ref(s.px[0]), val(c))); define(s.pg, plus(plus(ref(s.px[0]), ref(s.px[0])), val(1.0))); s.start();
  define(t.pf, plus(val(e), ref(t.px[0]))); t.start();
  DependencyUpdater us(s.map), ut(t.map); us.addIndependentArray(s.px); us.addDependent(s.pf);
  bool late = flip("late"); if (!late) { us.addDependent(s.pg); ut.addIndependentArray(t.px); ut.addDependent(t.pf); }
  Field<double,1> A = field<1>("A", 2), B = field<1>("B", 3), C = field<1>("C", 2); A = 5.0; B = 6.0; C = 7.0;
  FieldFiller one, two; bool split = flip("two-fillers");
  one.set(s.x, us)(A, s.f)(B, s.g);
  (split ? two : one).set(t.x, ut)(C, t.f);
  if (late) { us.addDependent(s.pg); ut.addIndependentArray(t.px); ut.addDependent(t.pf); }
  vc_assert(A(0) == 5.0 && B(0) == 6.0 && C(0) == 7.0, "nothing-is-filled-before-it-is-asked-for");
  one.fillFields();
  for (int i = A.getLo(0); i <= A.getHi(0); ++i) vc_assert(vc_near(A(i), A.indexToPosition(0, i) + c), "first-field");
  for (int i = B.getLo(0); i <= B.getHi(0); ++i) vc_assert(vc_near(B(i), B.indexToPosition(0, i) + B.indexToPosition(0, i) + 1.0), "second-field");
  if (split) { for (int i = C.getLo(0); i <= C.getHi(0); ++i) vc_assert(C(i) == 7.0, "fields-of-another-filler-are-not-touched"); two.fillFields(); }
  for (int i = C.getLo(0); i <= C.getHi(0); ++i) vc_assert(vc_near(C(i), e + C.indexToPosition(0, i)), "other-coordinates");
  A = 5.0; one.clear(); one.fillFields(); vc_assert(A(0) == 5.0, "a-cleared-filler-fills-nothing");
  vc_reach("x");
}
