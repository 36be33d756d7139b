// P17: writing an array or a grid to a text stream writes every element once, first index fastest, with the documented separators.
#include "vc.h"
#include <sstream>
#include <iostream>
#include "grid/grid.hpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
enum { N = 400 };
static char ev[N]; static int id[N], nev;                    // 'v' element, ' ' separator, 'n' newline
static void log(char c, int i) { vc_assert(nev < N, "output-is-finite"); ev[nev] = c; id[nev] = i; ++nev; }
struct Elem { int id; Elem() : id(-1) {} Elem(int i) : id(i) {} };
#ifdef VC_SYM
extern "C" std::ostream *vc_out_str(std::ostream *o, const char *s) { for (; *s; ++s) { vc_assert(*s == ' ' || *s == '\n', "separator"); log(*s == ' ' ? ' ' : 'n', 0); } return o; }
extern "C" std::ostream *vc_out_char(std::ostream *o, char c) { vc_assert(c == ' ' || c == '\n', "separator"); log(c == ' ' ? ' ' : 'n', 0); return o; }
extern "C" std::ostream *vc_out_endl(std::ostream *o) { log('n', 0); return o; }
extern "C" std::ostream *vc_out_manip(std::ostream *o, std::ostream *(*f)(std::ostream *)) { return f(o); }
std::ostream &operator<<(std::ostream &o, const Elem &e) { log('v', e.id); return o; }
#else
std::ostream &operator<<(std::ostream &o, const Elem &e) { return o << '[' << e.id << ']'; }
#endif
namespace schnek { using ::operator<<; }
#include "datastream.hpp"
using namespace schnek;
template<class X> static void write(const X &x)
{
  nev = 0;
#ifdef VC_SYM
  static long dummy[64]; std::ostream &o = reinterpret_cast<std::ostream&>(dummy);
  std::ostream &r = o << x; vc_assert(&r == &o, "returns-the-stream");
#else
  std::ostringstream o; std::ostream &r = o << x; vc_assert(&r == &o, "returns-the-stream"); std::string s = o.str();
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == ' ' || s[i] == '\n') log(s[i] == ' ' ? ' ' : 'n', 0);
    else { vc_assert(s[i] == '[', "separator"); log('v', atoi(s.c_str() + i + 1)); while (i < s.size() && s[i] != ']') ++i; }
#endif
}
static int at; static void expect(char c, int i) { vc_assert(at < nev && ev[at] == c && (c != 'v' || id[at] == i), "elements-in-order-with-separators"); ++at; }
template<size_t L> static void arr() { Array<Elem,L> a; int v[L]; for (size_t i = 0; i < L; ++i) a[i] = Elem(v[i] = vc_int("v", 0, 1000)); write(a); at = 0; for (size_t i = 0; i < L; ++i) { if (i) expect(' ', 0); expect('v', v[i]); } vc_assert(at == nev, "nothing-else"); vc_reach("x"); }
extern "C" void h_array() { arr<1>(); arr<2>(); arr<3>(); arr<7>(); }
template<size_t R, template<typename, size_t> class S> static void grid(int maxn)
{
  typedef Grid<Elem,R,GridNoArgCheck,S> G; typename G::IndexType lo, hi; bool empty = false;
  for (size_t d = 0; d < R; ++d) { lo[d] = vc_int("lo", -100000, 100000); int n = pick("n", maxn + 1); if (R > 3 && n == 0) n = 1; hi[d] = lo[d] + n - 1; if (n == 0) empty = true; }
  if (empty) { G e(lo, hi); write(e); vc_assert(nev == 0, "an-empty-grid-writes-nothing"); return; }
  G g(lo, hi); int k = 0; typename G::IndexType p = lo;
  std::vector<int> v(g.getSize());
  for (bool more = true; more; ) { g[p] = Elem(v[k] = vc_int("v", 0, 1000)); ++k; size_t d = 0; while (d < R && ++p[d] > hi[d]) { p[d] = lo[d]; ++d; } more = d < R; }
  write(g); at = 0; k = 0; p = lo;
  for (bool more = true; more; )
  {
    if (p[0] > lo[0]) expect(' ', 0);
    expect('v', v[k++]);
    size_t d = 0; while (d < R && ++p[d] > hi[d]) { p[d] = lo[d]; if ((d == 0 && R > 1) || (d == 1 && R > 2)) expect('n', 0); ++d; } more = d < R;
  }
  vc_assert(at == nev, "nothing-else"); vc_reach("x");
}
extern "C" void h_grid1() { grid<1,SingleArrayGridStorage>(4); }
extern "C" void h_grid2() { grid<2,SingleArrayGridStorage>(3); }
extern "C" void h_grid2f() { grid<2,SingleArrayGridStorageFortran>(3); }
extern "C" void h_grid3() { grid<3,SingleArrayGridStorage>(2); }
extern "C" void h_grid4() { grid<4,SingleArrayGridStorage>(2); }
extern "C" void h_grid5() { grid<5,SingleArrayGridStorage>(2); }
