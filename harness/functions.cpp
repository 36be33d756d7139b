// P09 (continued): the functions a deck can call are the mathematical functions of that name.
#include "deck.h"
#include "variables/function_expression.cpp"
static const int M = 512;
static bool same(double a, double b) { return a == b || (a != a && b != b); }
#define FUN1(NAME, CALL) extern "C" void h_fn_##NAME() { \
  double p = vc_double("p"); vc_assume(p > -60 && p < 60); Deck d; registerAllFunctions(d.freg); d.external("p", &p); \
  d.parse("float x = " #NAME "(p);"); vc_assert(same(d.get<double>("x"), CALL(p)), "value"); vc_reach("x"); }
#define FUN2(NAME, CALL) extern "C" void h_fn_##NAME() { \
  double p = vc_double("p"), q = vc_double("q"); vc_assume(p > -60 && p < 60 && q > -60 && q < 60); Deck d; registerAllFunctions(d.freg); d.external("p", &p); d.external("q", &q); \
  d.parse("float x = " #NAME "(p,q);"); vc_assert(same(d.get<double>("x"), CALL(p, q)), "value"); vc_reach("x"); }
#define FUNI(NAME, CALL) extern "C" void h_fn_##NAME() { \
  int a = vc_int("a", -9, 9); double p = vc_double("p"); vc_assume(p > -60 && p < 60); Deck d; registerAllFunctions(d.freg); d.external("a", &a); d.external("p", &p); \
  bool thrown = false; double ref = 0; try { ref = CALL; } catch (...) { thrown = true; } \
  if (thrown) return; d.parse(TEXTI(NAME)); vc_assert(same(d.get<double>("x"), ref), "value"); vc_reach("x"); }
FUN1(cos, std::cos) FUN1(sin, std::sin) FUN1(tan, std::tan) FUN1(acos, std::acos) FUN1(asin, std::asin) FUN1(atan, std::atan)
FUN1(cosh, std::cosh) FUN1(sinh, std::sinh) FUN1(tanh, std::tanh) FUN1(exp, std::exp) FUN1(log, std::log) FUN1(log10, std::log10)
FUN1(sqrt, std::sqrt) FUN1(ceil, std::ceil) FUN1(fabs, std::fabs) FUN1(floor, std::floor)
FUN2(atan2, std::atan2) FUN2(pow, std::pow) FUN2(fmod, std::fmod)
static double rmin(double p, double q) { return p < q ? p : q; }
static double rmax(double p, double q) { return p < q ? q : p; }
FUN2(min, rmin) FUN2(max, rmax)
extern "C" void h_fn_minmaxI()
{
  int a = vc_int("a", -M, M), b = vc_int("b", -M, M); Deck d; registerAllFunctions(d.freg); d.external("a", &a); d.external("b", &b);
  d.parse("float x = minI(a,b); float y = maxI(a,b);");
  vc_assert(d.get<double>("x") == (a < b ? a : b) && d.get<double>("y") == (a < b ? b : a), "value"); vc_reach("x");
}
extern "C" void h_fn_normal()
{
  double p = vc_double("p"), s = vc_double("s"), m = vc_double("m"); vc_assume(s > 0 && s < 100 && p > -60 && p < 60 && m > -60 && m < 60);
  Deck d; registerAllFunctions(d.freg); d.external("p", &p); d.external("s", &s); d.external("m", &m);
  d.parse("float x = normal(p,s,m);");
  double y = (p - m) / s;
  vc_assert(vc_near(d.get<double>("x"), std::exp(-y * y / 2.0)), "value"); vc_reach("x");
}
#define TEXTI(NAME) "float x = " #NAME "(a,p);"
FUNI(besselj, (boost::math::cyl_bessel_j<int, double>(a, p)))
FUNI(bessely, (boost::math::cyl_neumann<int, double>(a, p)))
#undef TEXTI
#define TEXTI(NAME) "float x = " #NAME "(p,a);"
FUNI(ldexp, ldexp(p, a))
#undef TEXTI
#define TEXTI(NAME) "float x = " #NAME "(p);"
FUNI(gamma, (boost::math::tgamma<double>(p)))
FUNI(lgamma, (boost::math::lgamma<double>(p)))
FUNI(digamma, (boost::math::digamma<double>(p)))
