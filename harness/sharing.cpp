// P02: copies of a grid share one storage; a resize through any of them is seen by all of them and by nobody else;
// the storage lives exactly as long as its last user.
#include "vc.h"
#include <new>
#include "grid/grid.hpp"
using namespace schnek;
static const int M = 1 << 12;
static bool lazyRun = false;       // native runs of the lazy strategy: larger boxes and repeated resizes, so that buffers are released

template<size_t R> struct Box { int lo[R], n[R]; int x[R]; double v; bool set; };

template<size_t R> static void arb(Box<R> &b)
{
  for (size_t d = 0; d < R; ++d) { b.lo[d] = vc_int("lo", -M, M); b.n[d] = vc_int("n", 1, M); }
  for (size_t d = 0; d < R; ++d) b.x[d] = b.lo[d] + vc_int("x", 0, b.n[d] - 1);
  b.v = vc_double("v");
  if (vc_is_native() && lazyRun) for (size_t d = 0; d < R; ++d) if (b.n[d] % 3 == 0 && b.n[d] < 100) { b.n[d] *= 50; b.x[d] = b.lo[d] + (b.x[d] - b.lo[d]) * 50; }
}
template<size_t R> static Array<int,R> lo(const Box<R> &b) { Array<int,R> a; for (size_t d = 0; d < R; ++d) a[d] = b.lo[d]; return a; }
template<size_t R> static Array<int,R> hi(const Box<R> &b) { Array<int,R> a; for (size_t d = 0; d < R; ++d) a[d] = b.lo[d] + b.n[d] - 1; return a; }
template<size_t R> static Array<int,R> at(const Box<R> &b) { Array<int,R> a; for (size_t d = 0; d < R; ++d) a[d] = b.x[d]; return a; }

// N handles, each in a sharing group; a group has a box and a marked cell
template<size_t R, template<typename, size_t> class Storage, int N> struct World
{
  typedef Grid<double, R, GridNoArgCheck, Storage> G;
  alignas(G) char mem[N + 1][sizeof(G)];
  bool alive[N + 1];
  int group[N + 1];
  Box<R> box[N + 8];
  int ngroups;
  World() : ngroups(0) { for (int i = 0; i <= N; ++i) alive[i] = false; }
  G &g(int i) { return *reinterpret_cast<G*>(mem[i]); }
  int fresh() { arb(box[ngroups]); return ngroups++; }
  void mark(int i) { g(i)[at(box[group[i]])] = box[group[i]].v; }
  void create(int i) { int b = fresh(); new (mem[i]) G(lo(box[b]), hi(box[b])); alive[i] = true; group[i] = b; mark(i); }
  void copy(int i, int j) { new (mem[i]) G(g(j)); alive[i] = true; group[i] = group[j]; }
  void assign(int i, int j) { g(i) = g(j); group[i] = group[j]; }
  void destroy(int i) { g(i).~G(); alive[i] = false; }
  void resize(int i)
  {
    int b = fresh(), old = group[i];
    g(i).resize(lo(box[b]), hi(box[b]));
    if (vc_is_native() && lazyRun && box[b].lo[0] % 2 == 0) for (int r = 0; r < 400; ++r) g(i).resize(lo(box[b]), hi(box[b]));
    for (int k = 0; k <= N; ++k) if (alive[k] && group[k] == old) group[k] = b;
    mark(i);
  }
  void check()
  {
    for (int i = 0; i <= N; ++i) if (alive[i])
    {
      const Box<R> &b = box[group[i]];
      long total = 1;
      for (size_t d = 0; d < R; ++d)
      {
        vc_assert(g(i).getLo(d) == b.lo[d] && g(i).getHi(d) == b.lo[d] + b.n[d] - 1 && g(i).getDims(d) == b.n[d],
          "every grid reports the bounds of the last resize of the storage it shares");
        total *= b.n[d];
      }
      vc_assert(g(i).end() - g(i).begin() == total, "every grid covers exactly its bounds after resizes through any sharer");
      const G &cg = g(i);
      vc_assert(cg[at(b)] == b.v, "a value written through one grid is read through every grid sharing its storage");
      for (int k = 0; k < i; ++k) if (alive[k])
        vc_assert((g(i).getRawData() == g(k).getRawData()) == (group[i] == group[k]), "storage is shared exactly between copies");
    }
  }
  void finish()
  {
    for (int i = 0; i <= N; ++i) if (alive[i]) destroy(i);
  }
  // one arbitrary operation on live handles 0..N-1
  void op(int o)
  {
    int i = vc_int("i", 0, N - 1), j = vc_int("j", 0, N - 1);
    // concretise
    for (int a = 0; a < N; ++a) if (i == a) { i = a; break; }
    for (int a = 0; a < N; ++a) if (j == a) { j = a; break; }
    switch (o)
    {
      case 0: vc_assume(j == 0); resize(i); break;
      case 1: assign(i, j); break;
      case 2: vc_assume(i != j); destroy(i); copy(i, j); break;
      case 3: vc_assume(j == 0); destroy(i); create(i); break;
      case 4: vc_assume(j == 0); copy(N, i); destroy(i); copy(i, N); destroy(N); break;
    }
  }
};

// initial sharing pattern p of three handles
template<class W> static void init(W &w, int p)
{
  w.create(0);
  if (p == 0 || p == 2 || p == 4) { if (p == 0 || p == 2) w.copy(1, 0); else w.create(1); } else w.create(1);
  if (p == 0 || p == 1) w.copy(2, 0);
  else if (p == 4) w.copy(2, 1);
  else w.create(2);
}

template<size_t R, template<typename, size_t> class Storage, bool LAZY = false> static void history(int steps, int o1)
{
  long live = vc_heap_live();
  lazyRun = LAZY;
  {
    World<R, Storage, 3> w;
    int p = vc_int("pattern", 0, 4);
    for (int a = 0; a < 5; ++a) if (p == a) { p = a; break; }
    init(w, p);
    w.check();
    w.op(o1);
    w.check();
    for (int s = 1; s < steps; ++s)
    {
      int o = vc_int("op", 0, 4);
      for (int a = 0; a < 5; ++a) if (o == a) { o = a; break; }
      w.op(o);
      w.check();
    }
    int k = vc_int("last", 0, 2);
    for (int a = 0; a < 3; ++a) if (k == a) { k = a; break; }
    w.resize(k);
    w.check();
    w.finish();
  }
  vc_assert(vc_heap_live() == live, "all storage is released exactly when its last user goes");
  vc_reach("history");
}
#define H(NAME, R, S) \
  extern "C" void h_##NAME##_resize() { history<R, S>(1, 0); } \
  extern "C" void h_##NAME##_assign() { history<R, S>(1, 1); } \
  extern "C" void h_##NAME##_copy() { history<R, S>(1, 2); } \
  extern "C" void h_##NAME##_replace() { history<R, S>(1, 3); } \
  extern "C" void h_##NAME##_move() { history<R, S>(1, 4); }
H(c1, 1, SingleArrayGridStorage)
H(f2, 2, SingleArrayGridStorageFortran)
H(c2, 2, SingleArrayGridStorage)
#undef H
#define H(NAME, R, S) \
  extern "C" void h_##NAME##_resize() { history<R, S, true>(1, 0); } \
  extern "C" void h_##NAME##_assign() { history<R, S, true>(1, 1); } \
  extern "C" void h_##NAME##_copy() { history<R, S, true>(1, 2); } \
  extern "C" void h_##NAME##_replace() { history<R, S, true>(1, 3); } \
  extern "C" void h_##NAME##_move() { history<R, S, true>(1, 4); }
H(lazy1, 1, LazyArrayGridStorage)
#define HT(NAME, R, S) \
  extern "C" void ht_##NAME##_resize() { history<R, S>(2, 0); } \
  extern "C" void ht_##NAME##_assign() { history<R, S>(2, 1); } \
  extern "C" void ht_##NAME##_copy() { history<R, S>(2, 2); } \
  extern "C" void ht_##NAME##_replace() { history<R, S>(2, 3); } \
  extern "C" void ht_##NAME##_move() { history<R, S>(2, 4); }
HT(c1, 1, SingleArrayGridStorage)
