// P05: fixed-size arrays and array expressions act element by element.
#include "vc.h"
#include "grid/grid.hpp"
using namespace schnek;
static const int M = 1 << 14;

template<class T> struct In;
template<> struct In<int> { static int get(const char *n) { return vc_int(n, -M, M); } static int nz(const char *n) { int i = vc_int(n, -M, M); vc_assume(i != 0); return i; } };
template<> struct In<double> { static double get(const char *n) { return vc_double(n); } static double nz(const char *n) { double i = vc_double(n); vc_assume(i > 0.5 || i < -0.5); return i; } };

template<class T, size_t L> struct A3
{
  Array<T,L> a, b, c; T x[L], y[L], z[L], s;
  A3()
  {
    for (size_t i = 0; i < L; ++i) { a[i] = x[i] = In<T>::get("a"); b[i] = y[i] = In<T>::nz("b"); c[i] = z[i] = In<T>::get("c"); }
    s = In<T>::nz("s");
  }
  void same() { for (size_t i = 0; i < L; ++i) vc_assert(a[i] == x[i] && b[i] == y[i] && c[i] == z[i], "array expressions leave their operands unchanged"); }
};
#define EL(what, r, val) for (size_t i = 0; i < L; ++i) vc_assert((r)[i] == (val), what ": each element is computed from the elements at its own position")

template<class T, size_t L> static void expr()
{
  A3<T,L> d; auto &a = d.a; auto &b = d.b; auto &c = d.c; auto x = d.x; auto y = d.y; auto z = d.z; T s = d.s;
  { Array<T,L> r(a + b); EL("a+b", r, x[i] + y[i]); }
  { Array<T,L> r(a - b); EL("a-b", r, x[i] - y[i]); }
  { Array<T,L> r(a * b); EL("a*b", r, x[i] * y[i]); }
  { Array<T,L> r(a / b); EL("a/b", r, x[i] / y[i]); }
  { Array<T,L> r(a + s); EL("a+s", r, x[i] + s); }
  { Array<T,L> r(s + a); EL("s+a", r, s + x[i]); }
  { Array<T,L> r(a - s); EL("a-s", r, x[i] - s); }
  { Array<T,L> r(s - a); EL("s-a", r, s - x[i]); }
  { Array<T,L> r(a * s); EL("a*s", r, x[i] * s); }
  { Array<T,L> r(s * a); EL("s*a", r, s * x[i]); }
  { Array<T,L> r(a / s); EL("a/s", r, x[i] / s); }
  { Array<T,L> r(s / b); EL("s/b", r, s / y[i]); }
  { Array<T,L> r(-a); EL("-a", r, -x[i]); }
  { Array<T,L> r(+a); EL("+a", r, x[i]); }
  { Array<T,L> r; r = (a + b) - c; EL("(a+b)-c", r, (x[i] + y[i]) - z[i]); }
  { Array<T,L> r; r = a - (b + c); EL("a-(b+c)", r, x[i] - (y[i] + z[i])); }
  { Array<T,L> r; r = (a - b) + (c - a); EL("(a-b)+(c-a)", r, (x[i] - y[i]) + (z[i] - x[i])); }
  { Array<T,L> r; r = (a - b) - (c - a); EL("(a-b)-(c-a)", r, (x[i] - y[i]) - (z[i] - x[i])); }
  { Array<T,L> r; r = (a - b) * c; EL("(a-b)*c", r, (x[i] - y[i]) * z[i]); }
  { Array<T,L> r; r = a * (b - c); EL("a*(b-c)", r, x[i] * (y[i] - z[i])); }
  { Array<T,L> r; r = (a - b) * (c - a); EL("(a-b)*(c-a)", r, (x[i] - y[i]) * (z[i] - x[i])); }
  { Array<T,L> r; r = (a - c) / b; EL("(a-c)/b", r, (x[i] - z[i]) / y[i]); }
  { Array<T,L> r; r = a + (b - c); EL("a+(b-c)", r, x[i] + (y[i] - z[i])); }
  { Array<T,L> r; r = (a - b) + c; EL("(a-b)+c", r, (x[i] - y[i]) + z[i]); }
  { Array<T,L> r; r = a / (+b); EL("a/(+b)", r, x[i] / y[i]); }
  { Array<T,L> r; r = (a - c) / (+b); EL("(a-c)/(+b)", r, (x[i] - z[i]) / y[i]); }
  { Array<T,L> r; r = (a - b) + s; EL("(a-b)+s", r, (x[i] - y[i]) + s); }
  { Array<T,L> r; r = s + (a - b); EL("s+(a-b)", r, s + (x[i] - y[i])); }
  { Array<T,L> r; r = (a - b) - s; EL("(a-b)-s", r, (x[i] - y[i]) - s); }
  { Array<T,L> r; r = s - (a - b); EL("s-(a-b)", r, s - (x[i] - y[i])); }
  { Array<T,L> r; r = (a - b) * s; EL("(a-b)*s", r, (x[i] - y[i]) * s); }
  { Array<T,L> r; r = s * (a - b); EL("s*(a-b)", r, s * (x[i] - y[i])); }
  { Array<T,L> r; r = (a - b) / s; EL("(a-b)/s", r, (x[i] - y[i]) / s); }
  { Array<T,L> r; r = s / (+b); EL("s/(+b)", r, s / y[i]); }
  d.same();
  vc_reach("expr");
}
template<class T, size_t L> static void assign()
{
  A3<T,L> d; auto &a = d.a; auto &b = d.b; auto &c = d.c; auto x = d.x; auto y = d.y; auto z = d.z; T s = d.s;
  { Array<T,L> r(c); r += a; EL("r+=a", r, z[i] + x[i]); }
  { Array<T,L> r(c); r -= a; EL("r-=a", r, z[i] - x[i]); }
  { Array<T,L> r(c); r *= a; EL("r*=a", r, z[i] * x[i]); }
  { Array<T,L> r(c); r /= b; EL("r/=b", r, z[i] / y[i]); }
  { Array<T,L> r(c); r += s; EL("r+=s", r, z[i] + s); }
  { Array<T,L> r(c); r -= s; EL("r-=s", r, z[i] - s); }
  { Array<T,L> r(c); r *= s; EL("r*=s", r, z[i] * s); }
  { Array<T,L> r(c); r /= s; EL("r/=s", r, z[i] / s); }
  { Array<T,L> r(c); r += a - b; EL("r+=a-b", r, z[i] + (x[i] - y[i])); }
  { Array<T,L> r(c); r -= a - b; EL("r-=a-b", r, z[i] - (x[i] - y[i])); }
  { Array<T,L> r(c); r *= a - b; EL("r*=a-b", r, z[i] * (x[i] - y[i])); }
  { Array<T,L> r(c); r /= +b; EL("r/=+b", r, z[i] / y[i]); }
  { Array<T,L> r(c); r = r - a; EL("r=r-a", r, z[i] - x[i]); }
  { Array<T,L> r(c); r = a; EL("r=a", r, x[i]); r.clear(); EL("clear", r, T(0)); r.fill(s); EL("fill", r, s); }
  { Array<T,L> r(s); EL("Array(s)", r, s); }
  EL("Zero", (Array<T,L>::Zero()), T(0)); EL("Ones", (Array<T,L>::Ones()), T(1));
  d.same();
  vc_reach("assign");
}
// an expression holds the values its operands had when it was written
template<class T, size_t L> static void capture()
{
  A3<T,L> d; Array<T,L> a(d.a), b(d.b); T s = d.s; auto x = d.x; auto y = d.y;
  auto e1 = a - b; auto e2 = a * s; auto e3 = s - b; auto e4 = -a; auto e5 = (a - b) + s; auto e6 = s - (a + b); auto e7 = (a - b) - (b - a);
  T t = s; a = d.c; b = d.c; s = d.x[0];
  { Array<T,L> r(e1); EL("stored a-b", r, x[i] - y[i]); }
  { Array<T,L> r(e2); EL("stored a*s", r, x[i] * t); }
  { Array<T,L> r(e3); EL("stored s-b", r, t - y[i]); }
  { Array<T,L> r(e4); EL("stored -a", r, -x[i]); }
  { Array<T,L> r(e5); EL("stored (a-b)+s", r, (x[i] - y[i]) + t); }
  { Array<T,L> r(e6); EL("stored s-(a+b)", r, t - (x[i] + y[i])); }
  { Array<T,L> r(e7); EL("stored (a-b)-(b-a)", r, (x[i] - y[i]) - (y[i] - x[i])); }
  vc_reach("capture");
}
template<class T, size_t L> static void reduce()
{
  Array<T,L> a; T x[L]; T p = 1, s = 0, q = 0;
  for (size_t i = 0; i < L; ++i) { x[i] = a[i] = In<T>::get("a"); if (L > 4) vc_assume(x[i] > -4096 && x[i] < 4096); s += x[i]; q += x[i] * x[i]; }
  vc_assert(a.sum() == s, "sum() is the sum of all elements");
  vc_assert(a.sqr() == q, "sqr() is the sum of the squares of all elements");
  Array<T,L> b;
  for (size_t i = 0; i < L; ++i) { T t; if (sizeof(T) == 4) t = T(vc_int("b", L > 4 ? -8 : -50, L > 4 ? 8 : 50)); else t = In<T>::get("b"); b[i] = t; p *= t; }
  vc_assert(b.product() == p, "product() is the product of all elements");
  vc_reach("reduce");
}
template<class T, class U, size_t L> static void compare()
{
  Array<T,L> a; Array<U,L> b; bool eq = true, lt = true, le = true;
  for (size_t i = 0; i < L; ++i)
  {
    T x = In<T>::get("a"); U y = In<U>::get("b"); a[i] = x; b[i] = y;
    eq = eq & (x == y); lt = lt & (x < y); le = le & (x <= y);
  }
  vc_assert((a == b) == eq, "arrays are equal exactly if all elements are");
  vc_assert((a != b) == !eq, "arrays differ exactly if some element does");
  vc_assert((a < b) == lt, "an array is less than another exactly if it is in every element");
  vc_assert((a <= b) == le, "an array is less or equal exactly if it is in every element");
  vc_reach("compare");
}
template<size_t L> static void project()
{
  Array<int,L> a; for (size_t i = 0; i < L; ++i) a[i] = In<int>::get("a");
  const Array<int,L> &ca = a;
  int k = vc_int("k", 0, L - 1);
  for (size_t d = 0; d < L; ++d)
  {
    Array<int,L-1> p = a.projectDim(d);
    for (size_t i = 0; i < L - 1; ++i) vc_assert(p[i] == ca[i < d ? i : i + 1], "projecting out a dimension keeps the others in order");
  }
  Array<int,L-1> q = a.template project<L-1>();
  for (size_t i = 0; i < L - 1; ++i) vc_assert(q[i] == ca[i], "projecting to a shorter array keeps the leading elements");
  vc_assert(a.at(k) == a[k] && ca.at(k) == ca[k] && ca[k] == a[k] && &a.at(k) == &a[k], "all element accessors agree");
  vc_reach("project");
}
extern "C" void h_ctor()
{
  int v[10]; for (int i = 0; i < 10; ++i) v[i] = vc_int("v", -M, M);
  Array<int,2> a2(v[0],v[1]); Array<int,3> a3(v[0],v[1],v[2]); Array<int,4> a4(v[0],v[1],v[2],v[3]);
  Array<int,5> a5(v[0],v[1],v[2],v[3],v[4]); Array<int,6> a6(v[0],v[1],v[2],v[3],v[4],v[5]); Array<int,7> a7(v[0],v[1],v[2],v[3],v[4],v[5],v[6]);
  Array<int,8> a8(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]); Array<int,9> a9(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8]);
  Array<int,10> a10(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9]);
#define CK(n) for (int i = 0; i < n; ++i) vc_assert(a##n[i] == v[i], "the constructor from single values stores each at its position");
  CK(2) CK(3) CK(4) CK(5) CK(6) CK(7) CK(8) CK(9) CK(10)
  Array<int,3,ArrayAssertArgCheck> c3(a3); Array<int,3> e3; e3 = c3; Array<double,3> f3; f3 = a3;
  for (int i = 0; i < 3; ++i) vc_assert(c3[i] == v[i] && e3[i] == v[i] && f3[i] == double(v[i]), "copying between checking policies and element types keeps every element");
  vc_reach("ctor");
}
#define H(L) \
  extern "C" void h_expr_i##L() { expr<int, L>(); } \
  extern "C" void h_expr_d##L() { expr<double, L>(); } \
  extern "C" void h_assign_i##L() { assign<int, L>(); } \
  extern "C" void h_assign_d##L() { assign<double, L>(); } \
  extern "C" void h_capture_i##L() { capture<int, L>(); } \
  extern "C" void h_capture_d##L() { capture<double, L>(); } \
  extern "C" void h_reduce_i##L() { reduce<int, L>(); } \
  extern "C" void h_reduce_d##L() { reduce<double, L>(); } \
  extern "C" void h_cmp_i##L() { compare<int, int, L>(); } \
  extern "C" void h_cmp_d##L() { compare<double, double, L>(); } \
  extern "C" void h_cmp_m##L() { compare<int, double, L>(); }
H(1) H(2) H(3) H(4) H(5) H(9)
extern "C" void h_project2() { project<2>(); }
extern "C" void h_project3() { project<3>(); }
extern "C" void h_project4() { project<4>(); }
extern "C" void h_project5() { project<5>(); }
extern "C" void h_project8() { project<8>(); }
// operands that are elements of, or the same as, the array that is assigned to
template<class T, size_t L> static void alias()
{
  A3<T,L> d; auto &b = d.b; auto &c = d.c; auto y = d.y; auto z = d.z; const size_t K = L - 1;
  { Array<T,L> r(c); r += r[0]; EL("r+=r[0]", r, z[i] + z[0]); }
  { Array<T,L> r(c); r -= r[0]; EL("r-=r[0]", r, z[i] - z[0]); }
  { Array<T,L> r(c); r *= r[K/2]; EL("r*=r[k]", r, z[i] * z[K/2]); }
  { Array<T,L> r(b); r /= r[0]; EL("r/=r[0]", r, y[i] / y[0]); }
  { Array<T,L> r(c); r += r; EL("r+=r", r, z[i] + z[i]); }
  { Array<T,L> r(c); r *= r; EL("r*=r", r, z[i] * z[i]); }
  { Array<T,L> r(c); r -= r; EL("r-=r", r, T(0)); }
  { Array<T,L> r(b); r /= r; EL("r/=r", r, y[i] / y[i]); }
  { Array<T,L> r(c); r = r; EL("r=r", r, z[i]); }
  { Array<T,L> r(c); r = r * r[0] - b; EL("r=r*r[0]-b", r, z[i] * z[0] - y[i]); }
  { Array<T,L> r(c); r += r - b; EL("r+=r-b", r, z[i] + (z[i] - y[i])); }
  { Array<T,L> r(c), &q = (r += b); q -= b; vc_assert(&q == &r, "compound assignment returns the array"); EL("chained", r, (z[i] + y[i]) - y[i]); }
  d.same(); vc_reach("alias");
}
// other element types and checking policies on the right
template<size_t L> static void types()
{
  A3<int,L> n; A3<double,L> d; double s = vc_double("s"); vc_assume(s > -1000 && s < 1000); int k = d.s > 0 ? 3 : -3; auto z = d.z; auto x = n.x; auto y = n.y;
  Array<int,L,ArrayAssertArgCheck> a(n.a), b(n.b);
  { Array<double,L> r(d.c); r += n.a; EL("double+=int", r, z[i] + x[i]); }
  { Array<double,L> r(d.c); r -= a; EL("double-=int", r, z[i] - x[i]); }
  { Array<double,L> r(d.c); r *= a; EL("double*=int", r, z[i] * x[i]); }
  { Array<double,L> r(d.c); r /= b; EL("double/=int", r, z[i] / y[i]); }
  { Array<double,L> r(d.c); r += k; EL("double+=scalar int", r, z[i] + k); r -= k; r *= k; EL("double*=scalar int", r, (z[i] + k - k) * k); }
  { Array<int,L> r(n.a); r += s; EL("int+=double", r, (int)(x[i] + s)); }
  { Array<int,L,ArrayAssertArgCheck> r; r = n.a - n.b; EL("policy", r, x[i] - y[i]); r += a; EL("policy+=", r, x[i] - y[i] + x[i]); }
  { Array<double,L> r; r = n.a; EL("double=int", r, double(x[i])); r = n.a - n.b; EL("double=int expression", r, double(x[i] - y[i])); }
  vc_assert((a == n.a) && !(a != n.a) && (a <= n.a) && !(a < n.a), "comparison between policies");
  n.same(); d.same(); vc_reach("types");
}
extern "C" void h_alias_i1() { alias<int,1>(); }
extern "C" void h_alias_i3() { alias<int,3>(); }
extern "C" void h_alias_d4() { alias<double,4>(); }
extern "C" void h_alias_d7() { alias<double,7>(); }
extern "C" void h_types1() { types<1>(); }
extern "C" void h_types3() { types<3>(); }
extern "C" void h_types6() { types<6>(); }
