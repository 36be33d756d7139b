// P14: the processes of a parallel run divide the domain without gap or overlap, exchange exactly their periodic images, and reduce over all processes.
// MPI is represented by its contract (stub/mpi.h and the functions below): a Cartesian grid of processes with arbitrary dimensions and periodic neighbours, and
// messages between two processes that arrive unchanged and in order.
#include "deck.h"
#include "diagnostic/diagnostic.cpp"
#include "grid/mpisubdivision.hpp"
#include "grid/mpisubdivision.cpp"
#include "util/databuffer.hpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }
template<class Tag, typename Tag::type M> struct Expose { friend typename Tag::type get(Tag) { return M; } };
struct ManagerInstance { typedef DiagnosticManager **type; friend type get(ManagerInstance); };
struct ManagerRank { typedef int DiagnosticManager::*type; friend type get(ManagerRank); };
template struct Expose<ManagerRank, &DiagnosticManager::rank>;
struct ManagerMaster { typedef bool DiagnosticManager::*type; friend type get(ManagerMaster); };
template struct Expose<ManagerMaster, &DiagnosticManager::master>;
template struct Expose<ManagerInstance, &Singleton<DiagnosticManager>::pInstance>;

// ---------------------------------------------------------------- the environment
enum { MP = 4, MC = 8, MN = 96 };
static int w_rank, w_size, w_ndims, w_dims[3], w_coord[3], w_given[3]; static bool w_freed, w_ranked;
static struct Msg { int dest, type, count; double d[MN]; int i; unsigned char c[MN]; } msg[MP][MC], cur[MP][MC];
static int ncur[MP], nmsg[MP], me, taken[MP]; static bool last;
static double r_d[MP]; static int r_i[MP];
static void world(int n) { *get(ManagerInstance()) = 0; w_size = n; w_ndims = 0; w_freed = false; w_ranked = true; for (int i = 0; i < MP; ++i) ncur[i] = nmsg[i] = 0; }
static int rankOf(const int *c) { int r = 0; for (int d = 0; d < w_ndims; ++d) r = r * w_dims[d] + c[d]; return r; }
// contract of equalFactors (proved for the real function in factors.cpp): positive factors whose product is the number of processes; here every choice with that product
void schnek::equalFactors(int number, int nfact, std::vector<int> &factors, std::vector<int> &weights)
{
  vc_assert(number == w_size, "factors-of-the-number-of-processes");
  vc_assert((int)weights.size() == nfact, "one-weight-per-dimension");
  factors.resize(nfact);
  for (int i = 0; i < nfact; ++i) factors[i] = w_given[i];
}
extern "C" {
int MPI_Comm_size(MPI_Comm, int *n) { *n = w_size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r) { vc_assert(c == 7, "rank-in-the-process-grid"); *r = w_rank; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm *c) { vc_assert(*c == 7, "free"); *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Cart_create(MPI_Comm, int nd, const int *dims, const int *per, int, MPI_Comm *c)
{
  w_ndims = nd; int p = 1;
  for (int d = 0; d < nd; ++d) { w_dims[d] = dims[d]; vc_assert(per[d] != 0, "process-grid-is-periodic"); vc_assert(dims[d] == w_given[d], "process-grid-dimensions"); }
  w_rank = w_ranked ? rankOf(w_coord) : 5; *c = 7; return MPI_SUCCESS;
}
int MPI_Cart_coords(MPI_Comm, int r, int nd, int *c) { vc_assert(r == w_rank && nd == w_ndims, "coordinates-of-the-process"); for (int d = 0; d < nd; ++d) c[d] = w_coord[d]; return MPI_SUCCESS; }
int MPI_Cart_shift(MPI_Comm, int dir, int disp, int *src, int *dst)
{
  vc_assert(dir >= 0 && dir < w_ndims && (disp == 1 || disp == -1), "neighbours");
  if (!w_ranked) { *src = 8; *dst = 9; return MPI_SUCCESS; }
  int a[3], b[3]; for (int d = 0; d < w_ndims; ++d) a[d] = b[d] = w_coord[d];
  int n = w_dims[dir]; a[dir] = (a[dir] + n - disp) % n; b[dir] = (b[dir] + n + disp) % n;
  *src = rankOf(a); *dst = rankOf(b); return MPI_SUCCESS;
}
// processes are run one after the other, again and again; a message is delivered from the run before (the first runs receive zeros)
int MPI_Sendrecv(const void *s, int ns, MPI_Datatype ts, int dest, int stag, void *r, int nr, MPI_Datatype tr, int src, int rtag, MPI_Comm comm, MPI_Status *)
{
  vc_assert(comm == 7 && stag == rtag, "communicator");
  vc_assert(dest >= 0 && dest < w_size && src >= 0 && src < w_size, "neighbour-rank");
  vc_assert(ncur[me] < MC && ns >= 0 && ns <= MN && nr <= MN, "message");
  Msg &m = cur[me][ncur[me]++]; m.dest = dest; m.type = ts; m.count = ns;
  if (ts == MPI_DOUBLE) for (int i = 0; i < ns; ++i) m.d[i] = ((const double*)s)[i];
  else if (ts == MPI_INT) m.i = *(const int*)s;
  else for (int i = 0; i < ns; ++i) m.c[i] = ((const unsigned char*)s)[i];
  vc_assert(ts == MPI_DOUBLE || ts == MPI_INT || ts == MPI_UNSIGNED_CHAR, "message-type");
  const Msg *g = 0; int k = 0;                                        // the next message of src to me
  for (int j = 0; j < nmsg[src]; ++j) if (msg[src][j].dest == me && k++ == taken[src]) { g = &msg[src][j]; break; }
  ++taken[src];
  if (g)
  {
    if (last) vc_assert(g->type == tr && g->count == nr, "message-received-as-sent");
    if (g->type != tr || g->count != nr) return MPI_SUCCESS;
    if (tr == MPI_DOUBLE) for (int i = 0; i < nr; ++i) ((double*)r)[i] = g->d[i];
    else if (tr == MPI_INT) *(int*)r = g->i;
    else for (int i = 0; i < nr; ++i) ((unsigned char*)r)[i] = g->c[i];
  }
  else
  {
    vc_assert(!last, "every-receive-has-a-message");
    if (tr == MPI_DOUBLE) for (int i = 0; i < nr; ++i) ((double*)r)[i] = 0;
    else if (tr == MPI_INT) *(int*)r = 0;
    else for (int i = 0; i < nr; ++i) ((unsigned char*)r)[i] = 0;
  }
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  vc_assert(c == 7 && n == 1, "reduction");
  vc_assert(t == MPI_DOUBLE || t == MPI_INT, "reduction-type");
  if (t == MPI_DOUBLE)
  {
    r_d[me] = *(const double*)s; double x = r_d[0];
    for (int i = 1; i < w_size; ++i) x = op == MPI_SUM ? x + r_d[i] : op == MPI_MAX ? (r_d[i] > x ? r_d[i] : x) : (r_d[i] < x ? r_d[i] : x);
    *(double*)r = x;
  }
  else
  {
    r_i[me] = *(const int*)s; int x = r_i[0];
    for (int i = 1; i < w_size; ++i) x = op == MPI_SUM ? x + r_i[i] : op == MPI_MAX ? (r_i[i] > x ? r_i[i] : x) : (r_i[i] < x ? r_i[i] : x);
    *(int*)r = x;
  }
  return MPI_SUCCESS;
}
}
// ---------------------------------------------------------------- partition, for every domain, number of processes and coordinate
template<size_t R> struct Proc : public MPICartSubdivision<Grid<double,R> > { typedef MPICartSubdivision<Grid<double,R> > S; typedef typename S::LimitType L; using S::dims; using S::mycoord; };
template<size_t R> static void partition(int maxd, int M, size_t D, int small = 0)
{
  typedef Proc<R> P; typename P::L lo, hi; int delta = small ? 1 + pick("delta", 2) : vc_int("delta", 0, 4);
  world(1); w_ranked = false;
  int c[3];
  for (size_t d = 0; d < R; ++d)
  {
    lo[d] = vc_int("lo", -M, M);
    w_given[d] = small ? 1 + pick("procs", d == D ? small : 2) : vc_int("procs", 1, maxd); c[d] = small ? pick("coord", w_given[d]) : vc_int("coord", 0, w_given[d] - 1);
    hi[d] = lo[d] + (R == 3 && d != D ? w_given[d] + 1 + 4 * pick("cells", 2) : vc_int("cells", w_given[d] + 1, M));
    w_coord[d] = c[d];
  }
  w_size = 1; for (size_t d = 0; d < R; ++d) w_size *= w_given[d];
  P a; a.init(lo, hi, delta);
  vc_assert(a.getDelta() == delta, "ghost-cells");
  vc_assert(a.procCount() == w_size && a.procnum() == 5 && !a.master(), "process-number");
  for (size_t d = 0; d < R; ++d)
  {
    vc_assert(a.getGlobalDomain().getLo()[d] == lo[d] && a.getGlobalDomain().getHi()[d] == hi[d], "global-domain");
    vc_assert(a.getLo()[d] == a.getInnerLo()[d] - delta && a.getHi()[d] == a.getInnerHi()[d] + delta, "ghost-layers-surround-the-inner-domain");
  }
  vc_assert(a.isBoundLo(D) == (c[D] == 0) && a.isBoundHi(D) == (c[D] == w_given[D] - 1), "bound-of-the-global-domain");
  if (c[D] == 0) vc_assert(a.getInnerLo()[D] == lo[D], "first-process-starts-at-the-lower-bound");
  vc_assert(a.getInnerLo()[D] <= a.getInnerHi()[D], "every-process-has-cells");
  vc_assert(a.getInnerLo()[D] >= lo[D] && a.getInnerHi()[D] <= hi[D], "inside-the-global-domain");
  if (c[D] == w_given[D] - 1) vc_assert(a.getInnerHi()[D] == hi[D], "last-process-ends-at-the-upper-bound");
  else
  {
    w_coord[D] = c[D] + 1;
    P b; b.init(lo, hi, delta);
    vc_assert(b.getInnerLo()[D] == a.getInnerHi()[D] + 1, "next-process-starts-where-this-one-ends");
    for (size_t d = 0; d < R; ++d) if (d != D) vc_assert(b.getInnerLo()[d] == a.getInnerLo()[d] && b.getInnerHi()[d] == a.getInnerHi()[d], "neighbours-agree-in-the-other-dimensions");
  }
  vc_reach("x");
}
extern "C" void h_part1() { partition<1>(64, 1 << 16, 0); }
extern "C" void h_part20() { partition<2>(64, 1 << 8, 0, 3); }
extern "C" void h_part21() { partition<2>(64, 1 << 8, 1, 3); }
extern "C" void h_part30() { partition<3>(64, 1 << 12, 0, 2); }
extern "C" void h_part31() { partition<3>(64, 1 << 12, 1, 2); }
extern "C" void h_part32() { partition<3>(64, 1 << 12, 2, 2); }
// the identifier of a process is its own
template<size_t R> static void ids(int m)
{
  typedef Proc<R> P; typename P::L lo(0), hi(9);
  P a, b; bool same = true; world(1);
  for (size_t d = 0; d < R; ++d) { w_given[d] = 1 + pick("procs", m); w_size *= w_given[d]; }
  for (size_t d = 0; d < R; ++d) w_coord[d] = pick("a", w_given[d]);
  a.init(lo, hi, 1); int ra = rankOf(w_coord);
  vc_assert(a.procnum() == ra && a.master() == (ra == 0), "rank-in-the-process-grid");
  vc_assert(DiagnosticManager::instance().*get(ManagerRank()) == ra && DiagnosticManager::instance().*get(ManagerMaster()) == (ra == 0), "diagnostics-know-the-process");
  for (size_t d = 0; d < R; ++d) { w_coord[d] = pick("b", w_given[d]); same = same && w_coord[d] == a.mycoord[d]; }
  b.init(lo, hi, 1);
  vc_assert((a.getUniqueId() == b.getUniqueId()) == same, "unique-id"); vc_assert(a.getUniqueId() >= 0 && a.getUniqueId() < w_size, "id-range");
  vc_reach("x");
}
// reductions over all processes
template<size_t R> static void reduce(int n)
{
  typedef Proc<R> P; typename P::L lo(0), hi(9); world(n); for (size_t d = 0; d < R; ++d) w_given[d] = d ? 1 : n;
  double sd = 0, xd = 0, nd = 0; long si = 0; int xi = 0, ni = 0;
  for (int i = 0; i < n; ++i)
  {
    double v = r_d[i] = vc_double("v"); int k = r_i[i] = vc_int("k", -100000, 100000); sd = i ? sd + v : v; si += k;
    if (!i || v > xd) xd = v; if (!i || v < nd) nd = v; if (!i || k > xi) xi = k; if (!i || k < ni) ni = k;
  }
  me = pick("me", n); for (size_t d = 0; d < R; ++d) w_coord[d] = d ? 0 : me;
  P a; a.init(lo, hi, 1); const DomainSubdivision<Grid<double,R> > &s = a; double v = r_d[me]; int k = r_i[me]; r_d[me] = 1e9; r_i[me] = 12345;
  switch (pick("op", 8))
  {
    case 0: vc_assert(vc_near(s.sumReduce(v), sd), "sum"); break;
    case 1: vc_assert(vc_near(s.avgReduce(v), sd / n), "average"); break;
    case 2: vc_assert(s.maxReduce(v) == xd, "maximum"); break;
    case 3: vc_assert(s.minReduce(v) == nd, "minimum"); break;
    case 4: vc_assert(s.sumReduce(k) == si, "sum"); break;
    case 5: { int g = s.avgReduce(k); vc_assert((long)g * n <= (si < 0 ? si + n - 1 : si) && (long)g * n > (si < 0 ? si - 1 : si - n), "average"); break; }
    case 6: vc_assert(s.maxReduce(k) == xi, "maximum"); break;
    case 7: vc_assert(s.minReduce(k) == ni, "minimum"); break;
  }
  vc_reach("x");
}
// ---------------------------------------------------------------- messages: every process runs the real code, until all messages have arrived
static void round() { for (int p = 0; p < w_size; ++p) { nmsg[p] = ncur[p]; for (int k = 0; k < ncur[p]; ++k) msg[p][k] = cur[p][k]; ncur[p] = 0; } }
static void start(int p) { me = p; for (int i = 0; i < MP; ++i) taken[i] = 0; }
template<size_t R> struct Run
{
  typedef Proc<R> P; typedef Grid<double,R> G; typename P::L lo, hi; int n, delta; P *p[MP]; G *g[MP], *g0[MP]; size_t D;
  // n processes in dimension D, n2 in the others
  Run(int n_, size_t D_, int delta_, const int *cells, int base) : n(n_), delta(delta_), D(D_)
  {
    world(n);
    for (size_t d = 0; d < R; ++d) { w_given[d] = d == D ? n : 1; lo[d] = base; hi[d] = base + cells[d] - 1; }
    for (int i = 0; i < n; ++i)
    {
      for (size_t d = 0; d < R; ++d) w_coord[d] = d == D ? i : 0;
      p[i] = new P; p[i]->init(lo, hi, delta); g[i] = new G(p[i]->getLo(), p[i]->getHi()); g0[i] = new G(p[i]->getLo(), p[i]->getHi());
      fill(*g0[i]);
    }
  }
  ~Run() { for (int i = 0; i < n; ++i) { delete p[i]; delete g[i]; delete g0[i]; } }
  static void fill(G &x) { for (size_t k = 0; k < x.getSize(); ++k) x.getRawData()[k] = vc_double("x"); }
  void go(int rounds, bool acc)
  {
    for (int k = 0; k < rounds; ++k)
    {
      last = k == rounds - 1;
      for (int i = 0; i < n; ++i)
      {
        for (size_t j = 0; j < g0[i]->getSize(); ++j) g[i]->getRawData()[j] = g0[i]->getRawData()[j];
        start(i); DomainSubdivision<G> &s = *p[i];
        if (acc) s.accumulate(*g[i], D); else s.exchange(*g[i], D);
      }
      round();
    }
  }
  // the cell of another process that is the image of the ghost cell q of process i (delta not larger than any part)
  double &image(int i, typename P::L q, bool low, G **gg)
  {
    int j = low ? (i + n - 1) % n : (i + 1) % n, N = hi[D] - lo[D] + 1;
    if (low && i == 0) q[D] += N;
    if (!low && i == n - 1) q[D] -= N;
    return gg[j]->get(q);
  }
};
template<size_t R> static void messages(int n, size_t D, int delta, const int *cells, int base, bool acc)
{
  Run<R> r(n, D, delta, cells, base); typedef typename Proc<R>::L L;
  r.go(acc ? 5 : 3, acc);
  for (int i = 0; i < n; ++i)
  {
    Range<int,R> dom(r.p[i]->getLo(), r.p[i]->getHi()); L ilo = r.p[i]->getInnerLo(), ihi = r.p[i]->getInnerHi();
    for (typename Range<int,R>::iterator it = dom.begin(); it != dom.end(); ++it)
    {
      L q = *it; double v = r.g[i]->get(q), v0 = r.g0[i]->get(q);
      bool low = q[D] < ilo[D], high = q[D] > ihi[D];
      if (!acc)
      {
        if (low || high) vc_assert(v == r.image(i, q, low, r.g0), "ghost-cells-hold-their-images");
        else vc_assert(v == v0, "inner-cells-unchanged");
      }
      else
      {
        if (low || high) vc_assert(vc_near(v, v0 + r.image(i, q, low, r.g0)) && v == r.image(i, q, low, r.g), "ghost-cells-and-their-images-hold-the-sum");
        else if (q[D] >= ilo[D] + delta && q[D] <= ihi[D] - delta) vc_assert(v == v0, "inner-cells-unchanged");
      }
    }
  }
  vc_reach("x");
}
static const int c1a[] = {7}, c1b[] = {9}, c1c[] = {13}, c2a[] = {5, 3}, c2b[] = {3, 7}, c2c[] = {3, 9}, c3a[] = {5, 2, 2}, c3b[] = {2, 5, 2}, c3c[] = {2, 2, 5};
extern "C" void h_exch1() { int b = pick("base", 2) ? -3 : 0; switch (pick("case", 4)) { case 0: messages<1>(1, 0, 2, c1a, b, false); break; case 1: messages<1>(2, 0, 2, c1a, b, false); break; case 2: messages<1>(3, 0, 1, c1b, b, false); break; case 3: messages<1>(3, 0, 3, c1c, b, false); break; } }
extern "C" void h_acc1() { int b = pick("base", 2) ? 4 : 0; switch (pick("case", 4)) { case 0: messages<1>(1, 0, 2, c1a, b, true); break; case 1: messages<1>(2, 0, 1, c1a, b, true); break; case 2: messages<1>(3, 0, 1, c1b, b, true); break; case 3: messages<1>(3, 0, 2, c1c, b, true); break; } }
extern "C" void h_exch20() { messages<2>(2, 0, 2, c2a, 1, false); }
extern "C" void h_exch21() { messages<2>(3, 1, 1, c2b, 0, false); }
extern "C" void h_acc20() { messages<2>(2, 0, 1, c2a, 0, true); }
extern "C" void h_acc21() { messages<2>(2, 1, 2, c2c, -2, true); }
extern "C" void h_exch30() { messages<3>(2, 0, 1, c3a, 0, false); }
extern "C" void h_exch31() { messages<3>(2, 1, 1, c3b, 0, false); }
extern "C" void h_exch32() { messages<3>(2, 2, 1, c3c, 0, false); }
extern "C" void ht_acc30() { messages<3>(2, 0, 1, c3a, 0, true); }
extern "C" void ht_acc31() { messages<3>(2, 1, 1, c3b, 0, true); }
extern "C" void ht_acc32() { messages<3>(2, 2, 1, c3c, 0, true); }
// byte buffers travel to the neighbour in the given direction
extern "C" void h_data()
{
  enum { N = 3 }; typedef Proc<2> P; typedef P::S::BufferType B; P::L lo(0), hi(9); world(N); size_t D = pick("dim", 2); for (size_t d = 0; d < 2; ++d) w_given[d] = d == D ? N : 1;
  int o = flip("up") ? 1 : -1, sz[N]; P *p[N]; B in[N], out[N]; unsigned char x[N][3];
  for (int i = 0; i < N; ++i)
  {
    for (size_t d = 0; d < 2; ++d) w_coord[d] = d == D ? i : 0;
    p[i] = new P; p[i]->init(lo, hi, 1); sz[i] = (i + 2) % 4; in[i].resize(B::IndexType(sz[i])); out[i].resize(B::IndexType(2));
    for (int k = 0; k < sz[i]; ++k) in[i](k) = x[i][k] = vc_int("byte", 0, 255);
  }
  for (int r = 0; r < 3; ++r)
  {
    last = r == 2; for (int i = 0; i < N; ++i) { start(i); DomainSubdivision<Grid<double,2> > &s = *p[i]; s.exchangeData(D, o, in[i], out[i]); } round();
  }
  for (int i = 0; i < N; ++i)
  {
    int f = (i + N - o) % N; vc_assert((int)out[i].getSize() == sz[f] && out[i].getDims(0) == sz[f], "size");
    for (int k = 0; k < sz[f]; ++k) vc_assert(out[i](k) == x[f][k], "bytes");
    vc_assert((int)in[i].getSize() == sz[i], "sent-buffer-unchanged");
  }
  for (int i = 0; i < N; ++i) delete p[i];
  vc_reach("x");
}
extern "C" void h_ids1() { ids<1>(4); }
extern "C" void h_ids2() { ids<2>(3); }
extern "C" void h_ids3() { ids<3>(2); }
extern "C" void h_reduce1() { reduce<1>(1 + pick("n", 3)); }
extern "C" void h_reduce2() { reduce<2>(4); }
// the physical extents of the parts tile the physical extent of the domain
template<size_t R> static void extent()
{
  typedef Proc<R> P; typename P::L lo, hi; size_t D = pick("D", R); Array<double,R> xl, xh; world(1);
  for (size_t d = 0; d < R; ++d) { w_given[d] = d == D ? 1 + pick("procs", 3) : 1; w_size *= w_given[d]; lo[d] = flip("base") ? 5 : 0; hi[d] = lo[d] + 4 + (int)d; xl[d] = vc_double("xl"); xh[d] = vc_double("xh"); w_coord[d] = d == D ? pick("c", w_given[d]) : 0; }
  P a; a.init(lo, hi, 1); Range<double,R> g(xl, xh), e = a.getInnerExtent(g);
  int c = w_coord[D];
  if (c == 0) vc_assert(e.getLo()[D] == xl[D], "first-part-starts-at-the-lower-bound");
  if (c == w_given[D] - 1) vc_assert(vc_near(e.getHi()[D], xh[D]), "last-part-ends-at-the-upper-bound");
  else { w_coord[D] = c + 1; P b; b.init(lo, hi, 1); vc_assert(vc_near(b.getInnerExtent(g).getLo()[D], e.getHi()[D]), "next-part-starts-where-this-one-ends"); }
  for (size_t d = 0; d < R; ++d) vc_assert(vc_near((e.getHi()[d] - e.getLo()[d]) * (hi[d] - lo[d] + 1), (xh[d] - xl[d]) * (a.getInnerHi()[d] - a.getInnerLo()[d] + 1)), "extent-is-proportional-to-the-cells");
  Range<double,R> z = a.getInnerExtent(xh);
  for (size_t d = 0; d < R; ++d) vc_assert(vc_near(z.getHi()[d] * (hi[d] - lo[d] + 1), xh[d] * (a.getInnerHi()[d] - lo[d] + 1)) && vc_near(z.getLo()[d] * (hi[d] - lo[d] + 1), xh[d] * (a.getInnerLo()[d] - lo[d])), "extent-from-zero");
  vc_reach("x");
}
extern "C" void h_extent1() { extent<1>(); }
extern "C" void h_extent2() { extent<2>(); }
// objects packed into a byte buffer come out in order
struct Particle { int id; double x[2]; short s; };
extern "C" void h_buffer()
{
  enum { N = 3 }; Particle q[N]; int n = pick("n", N + 1); bool iters = flip("iterators"); DataBuffer<Particle> b; std::vector<Particle*> v; std::list<Particle> l; std::vector<std::list<Particle>::iterator> w;
  for (int i = 0; i < n; ++i) { q[i].id = vc_int("id", -100, 100); q[i].x[0] = vc_double("x"); q[i].x[1] = vc_double("y"); q[i].s = vc_int("s", -100, 100); v.push_back(&q[i]); l.push_back(q[i]); }
  for (std::list<Particle>::iterator it = l.begin(); it != l.end(); ++it) w.push_back(it);
  if (flip("used")) b.makeBuffer(w);
  if (iters) b.makeBuffer(w); else b.makeBuffer(v);
  int k = 0; DataBuffer<Particle> c; c.getBuffer() = b.getBuffer();
  for (DataBuffer<Particle>::iterator it = c.begin(); it != c.end(); it++, ++k) { vc_assert(k < n, "count"); vc_assert(it->id == q[k].id && it->s == q[k].s && (*it).x[0] == q[k].x[0] && it->x[1] == q[k].x[1], "object"); }
  vc_assert(k == n, "count"); vc_assert((int)b.getBuffer().getSize() == n * (int)sizeof(Particle), "bytes");
  vc_reach("x");
}
// each C++ type is sent as the MPI type of the same representation
extern "C" void h_types()
{
  vc_assert(MpiValueType<signed char>::value == MPI_CHAR && MpiValueType<short>::value == MPI_SHORT && MpiValueType<int>::value == MPI_INT && MpiValueType<long>::value == MPI_LONG, "signed");
  vc_assert(MpiValueType<unsigned char>::value == MPI_UNSIGNED_CHAR && MpiValueType<unsigned short>::value == MPI_UNSIGNED_SHORT && MpiValueType<unsigned>::value == MPI_UNSIGNED && MpiValueType<unsigned long>::value == MPI_UNSIGNED_LONG, "unsigned");
  vc_assert(MpiValueType<float>::value == MPI_FLOAT && MpiValueType<double>::value == MPI_DOUBLE && MpiValueType<long double>::value == MPI_LONG_DOUBLE, "floating");
  vc_reach("x");
}
