// P18: grids written to an HDF5 file and read from it: every process transfers exactly its inner cells, each at its global position.
#include "deck.h"
#include <sstream>
#ifdef VC_SYM
// stand-in for std::ostringstream: the stream holds the text written to it
namespace std { struct vc_ostringstream { string s; vc_ostringstream() {} 
  vc_ostringstream &operator<<(const string &t) { s += t; return *this; } vc_ostringstream &operator<<(const char *t) { s += t; return *this; }
  vc_ostringstream &operator<<(int n) { s += to_string(n); return *this; } string str() const { return s; } }; }
#define ostringstream vc_ostringstream
#endif
#include "diagnostic/diagnostic.cpp"
#include "diagnostic/hdfdiagnostic.cpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }
static bool same(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }

// ---- the library: files, data sets, spaces, and a record of every transfer -----------------------------------------
enum { FREE, FILE_, SPACE, DSET, ATTR, PLIST, R = 4, NID = 240, NF = 4, ND = 12, NT = 20 };
struct Space { int rank; hsize_t dims[R], start[R], count[R]; bool all; };
struct DataSet { char name[24]; hid_t type; int rank; hsize_t dims[R]; double cell[64]; bool given[64]; int nattr; char attr[4][24]; hid_t atype[4]; hsize_t adim[4]; double aval[4][3]; };
struct File { char name[24]; DataSet ds[ND]; int n; };
struct Transfer { bool write; DataSet *d; Space mem, file; const void *buf; hid_t type, plist; };
static File files[NF]; static int nfiles; static int kind[NID]; static Space space[NID]; static int fileOf[NID], dsetOf[NID], attrOf[NID]; static bool writable[NID]; static long nid; static int proc, nproc; static bool copying;
static Transfer tr[NT]; static int ntr; static int opens, closes; static bool activeOf[8]; static int fapl, comm, group[8], ngroup, ncomm, commgroup; static bool infoLive[32]; static int ninfo; static hid_t faplOf[NID]; static int dxpl[NID]; static hid_t openComm;
static void setname(char *to, const char *s) { int i = 0; for (; s[i]; ++i) { vc_assert(i < 22, "name-length"); to[i] = s[i]; } to[i] = 0; }
static hid_t make(int k) { vc_assert(nid < NID, "number-of-ids"); kind[nid] = k; return nid++; }
static void need(hid_t i, int k) { vc_assert(i > 0 && i < nid && kind[i] == k, "a-valid-id-of-the-right-kind"); }
static int live(int k) { int n = 0; for (long i = 1; i < nid; ++i) if (kind[i] == k) ++n; return n; }
static void library(int size = 1, int rank = 0) { nfiles = 0; nid = 1; ntr = 0; opens = closes = 0; proc = rank; nproc = size; copying = false; ngroup = ncomm = ninfo = 0; comm = 0; openComm = 0; for (int i = 0; i < 8; ++i) activeOf[i] = true; for (int i = 0; i < NID; ++i) { kind[i] = FREE; faplOf[i] = 0; dxpl[i] = 0; } }
static herr_t drop(hid_t i, int k) { need(i, k); kind[i] = FREE; return 0; }
static double value(const void *p, hid_t t, long i) { return t == H5T_NATIVE_INT ? ((const int *)p)[i] : t == H5T_NATIVE_FLOAT ? ((const float *)p)[i] : ((const double *)p)[i]; }
extern "C" {
hid_t H5Fcreate(const char *n, unsigned flags, hid_t, hid_t fa)
{
  vc_assert(flags == H5F_ACC_TRUNC, "output-starts-a-new-file"); int f = 0; while (f < nfiles && !same(files[f].name, n)) ++f;
  if (f == nfiles) { vc_assert(nfiles < NF, "number-of-files"); setname(files[f].name, n); ++nfiles; files[f].n = 0; } else if (proc == 0) files[f].n = 0;
  hid_t i = make(FILE_); fileOf[i] = f; writable[i] = true; openComm = fa ? faplOf[fa] : 0; ++opens; return i;
}
hid_t H5Fopen(const char *n, unsigned flags, hid_t fa)
{
  for (int f = 0; f < nfiles; ++f) if (same(files[f].name, n)) { hid_t i = make(FILE_); fileOf[i] = f; writable[i] = flags != H5F_ACC_RDONLY; openComm = fa ? faplOf[fa] : 0; ++opens; return i; }
  return -1;
}
herr_t H5Fclose(hid_t i) { ++closes; return drop(i, FILE_); }
hid_t H5Screate_simple(int r, const hsize_t *d, const hsize_t *)
{
  vc_assert(r > 0 && r <= R, "rank"); hid_t i = make(SPACE); Space &s = space[i]; s.rank = r; s.all = true;
  for (int k = 0; k < r; ++k) { s.dims[k] = s.count[k] = d[k]; s.start[k] = 0; } return i;
}
herr_t H5Sselect_hyperslab(hid_t i, int op, const hsize_t *start, const hsize_t *stride, const hsize_t *count, const hsize_t *block)
{
  need(i, SPACE); vc_assert(op == H5S_SELECT_SET, "selection"); Space &s = space[i]; s.all = false;
  for (int k = 0; k < s.rank; ++k) { vc_assert(!stride || stride[k] == 1, "stride"); vc_assert(!block || block[k] == 1, "block"); s.start[k] = start[k]; s.count[k] = count[k]; vc_assert(start[k] + count[k] <= s.dims[k], "selection-inside-the-extent"); }
  return 0;
}
herr_t H5Sclose(hid_t i) { return drop(i, SPACE); }
hid_t H5Dcreate2(hid_t f, const char *n, hid_t t, hid_t sp, hid_t, hid_t, hid_t)
{
  need(f, FILE_); need(sp, SPACE); vc_assert(writable[f], "file-open-for-writing"); File &F = files[fileOf[f]]; int k = 0; while (k < F.n && !same(F.ds[k].name, n)) ++k;
  if (k < F.n) { if (proc == 0) return -1; vc_assert(F.ds[k].rank == space[sp].rank && F.ds[k].type == t, "all-processes-create-the-same-data-set"); for (int j = 0; j < space[sp].rank; ++j) vc_assert(F.ds[k].dims[j] == space[sp].dims[j], "all-processes-create-the-same-data-set"); }
  else { vc_assert(F.n < ND, "number-of-data-sets"); ++F.n; DataSet &d = F.ds[k]; setname(d.name, n); d.type = t; d.rank = space[sp].rank; d.nattr = 0; for (int j = 0; j < d.rank; ++j) d.dims[j] = space[sp].dims[j]; for (int j = 0; j < 64; ++j) d.given[j] = false; }
  hid_t i = make(DSET); fileOf[i] = fileOf[f]; dsetOf[i] = k; writable[i] = true; return i;
}
hid_t H5Dopen2(hid_t f, const char *n, hid_t)
{
  need(f, FILE_); File &F = files[fileOf[f]];
  for (int k = 0; k < F.n; ++k) if (same(F.ds[k].name, n)) { hid_t i = make(DSET); fileOf[i] = fileOf[f]; dsetOf[i] = k; writable[i] = writable[f]; return i; }
  return -1;
}
hid_t H5Dget_space(hid_t d) { need(d, DSET); DataSet &D = files[fileOf[d]].ds[dsetOf[d]]; return H5Screate_simple(D.rank, D.dims, 0); }
herr_t H5Dclose(hid_t i) { return drop(i, DSET); }
static herr_t transfer(hid_t d, hid_t t, hid_t mem, hid_t file, hid_t pl, const void *buf, bool w)
{
  need(d, DSET); vc_assert(ntr < NT, "number-of-transfers"); vc_assert(!w || writable[d], "writable"); Transfer &T = tr[ntr++]; DataSet &D = files[fileOf[d]].ds[dsetOf[d]]; T.write = w; T.d = &D; T.buf = buf; T.type = t; T.plist = pl;
  Space all; all.rank = D.rank; all.all = true; for (int k = 0; k < D.rank; ++k) { all.dims[k] = all.count[k] = D.dims[k]; all.start[k] = 0; }
  if (file == H5S_ALL) T.file = all; else { need(file, SPACE); T.file = space[file]; } if (mem == H5S_ALL) T.mem = T.file; else { need(mem, SPACE); T.mem = space[mem]; }
  vc_assert(T.mem.rank == D.rank && T.file.rank == D.rank, "rank"); for (int k = 0; k < D.rank; ++k) vc_assert(T.file.dims[k] == D.dims[k] && T.mem.count[k] == T.file.count[k], "selections-of-equal-shape");
  if (copying)
  {
    hsize_t p[R] = {0, 0, 0, 0}; int r = D.rank; bool more = true; for (int k = 0; k < r; ++k) if (T.mem.count[k] == 0) more = false;
    while (more) {
      long m = 0, f = 0; for (int k = 0; k < r; ++k) { m = m*T.mem.dims[k] + T.mem.start[k] + p[k]; f = f*T.file.dims[k] + T.file.start[k] + p[k]; }
      vc_assert(f >= 0 && f < 64, "position");
      if (w) { vc_assert(!D.given[f], "no-cell-is-written-twice"); D.given[f] = true; D.cell[f] = value(buf, t, m); }
      else { vc_assert(D.given[f], "only-written-cells-are-read"); if (t == H5T_NATIVE_INT) ((int *)buf)[m] = (int)D.cell[f]; else ((double *)buf)[m] = D.cell[f]; }
      int k = r - 1; while (k >= 0 && ++p[k] >= T.mem.count[k]) { p[k] = 0; --k; } more = k >= 0;
    }
  }
  return 0;
}
herr_t H5Dwrite(hid_t d, hid_t t, hid_t m, hid_t f, hid_t p, const void *b) { return transfer(d, t, m, f, p, b, true); }
herr_t H5Dread(hid_t d, hid_t t, hid_t m, hid_t f, hid_t p, void *b) { return transfer(d, t, m, f, p, b, false); }
hid_t H5Acreate2(hid_t d, const char *n, hid_t t, hid_t sp, hid_t, hid_t)
{
  need(d, DSET); need(sp, SPACE); DataSet &D = files[fileOf[d]].ds[dsetOf[d]]; vc_assert(D.nattr < 4, "number-of-attributes"); for (int k = 0; k < D.nattr; ++k) if (same(D.attr[k], n)) return -1;
  int k = D.nattr++; setname(D.attr[k], n); D.atype[k] = t; vc_assert(space[sp].rank == 1 && space[sp].all, "attribute-space"); D.adim[k] = space[sp].dims[0]; hid_t i = make(ATTR); fileOf[i] = fileOf[d]; dsetOf[i] = dsetOf[d]; attrOf[i] = k; return i;
}
herr_t H5Awrite(hid_t a, hid_t t, const void *b) { need(a, ATTR); DataSet &D = files[fileOf[a]].ds[dsetOf[a]]; int k = attrOf[a]; vc_assert(t == D.atype[k] && D.adim[k] <= 3, "attribute"); for (hsize_t i = 0; i < D.adim[k]; ++i) D.aval[k][i] = value(b, t, i); return 0; }
herr_t H5Aclose(hid_t i) { return drop(i, ATTR); }
hid_t H5Pcreate(hid_t) { return make(PLIST); }
herr_t H5Pclose(hid_t i) { return drop(i, PLIST); }
herr_t H5Pset_sieve_buf_size(hid_t i, size_t) { need(i, PLIST); return 0; }
herr_t H5Pset_alignment(hid_t i, hsize_t, hsize_t) { need(i, PLIST); return 0; }
herr_t H5Pset_fapl_mpio(hid_t i, MPI_Comm c, MPI_Info n) { need(i, PLIST); vc_assert(n > 0 && n <= ninfo && infoLive[n - 1], "info"); faplOf[i] = c; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t i, int m) { need(i, PLIST); dxpl[i] = m; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = nproc; return 0; }
int MPI_Comm_rank(MPI_Comm, int *n) { *n = proc; return 0; }
int MPI_Comm_group(MPI_Comm, MPI_Group *g) { *g = 71; return 0; }
int MPI_Group_free(MPI_Group *g) { *g = 0; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { vc_assert(g == 71 && n >= 0 && n <= nproc, "group"); for (int i = 0; i < n; ++i) group[i] = r[i]; ngroup = n; *o = 72; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) { vc_assert(c == MPI_COMM_WORLD && g == 72, "communicator"); commgroup = ngroup; ++ncomm; bool in = false; for (int i = 0; i < ngroup; ++i) if (group[i] == proc) in = true; *o = in ? 500 + ncomm : MPI_COMM_NULL; return 0; }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  vc_assert(n == nproc && t == MPI_INT && (op == MPI_SUM || op == MPI_MAX) && c == MPI_COMM_WORLD, "reduction-over-all-processes");
  for (int i = 0; i < n; ++i) { int v = ((const int *)in)[i]; vc_assert(i == proc ? (v != 0) == activeOf[i] : v == 0, "every-process-gives-its-own-state"); ((int *)out)[i] = activeOf[i] ? 1 : 0; } return 0;
}
int MPI_Allgather(const void *in, int n, MPI_Datatype t, void *out, int m, MPI_Datatype u, MPI_Comm c)
{
  vc_assert(n == 1 && m == 1 && t == MPI_INT && u == MPI_INT && c == MPI_COMM_WORLD && (((const int *)in)[0] != 0) == activeOf[proc], "every-process-gives-its-own-state"); for (int i = 0; i < nproc; ++i) ((int *)out)[i] = activeOf[i] ? 1 : 0; return 0;
}
int MPI_Info_create(MPI_Info *i) { vc_assert(ninfo < 32, "infos"); infoLive[ninfo++] = true; *i = ninfo; return 0; }
int MPI_Info_set(MPI_Info i, const char *, const char *) { vc_assert(i > 0 && i <= ninfo && infoLive[i - 1], "info"); return 0; }
int MPI_Info_free(MPI_Info *i) { vc_assert(*i > 0 && *i <= ninfo && infoLive[*i - 1], "info"); infoLive[*i - 1] = false; *i = 0; return 0; }
}

// ---- contracts -----------------------------------------------------------------------------------------------------
static const int M = 1 << 15;
// global box, the box of the grid in memory (with ghost cells), the local box inside both, and an arbitrary cell of the grid
template<size_t N> struct Boxes
{
  typedef Array<int, N> I; I glo, ghi, lo, hi, llo, lhi, k; bool inside;
  Boxes() : inside(true)
  {
    for (size_t d = 0; d < N; ++d) {
      glo[d] = vc_int("glo", -M, M); ghi[d] = glo[d] + vc_int("gn", 0, M);
      llo[d] = glo[d] + vc_int("l", 0, M); lhi[d] = llo[d] + vc_int("n", 0, M); vc_assume(lhi[d] <= ghi[d]);
      lo[d] = llo[d] - vc_int("below", 0, M); hi[d] = lhi[d] + vc_int("above", 0, M);
      k[d] = vc_int("k", -4*M, 4*M); vc_assume(lo[d] <= k[d] && k[d] <= hi[d]);
    }
    for (size_t d = 0; d < N; ++d) { bool in = llo[d] <= k[d] && k[d] <= lhi[d]; if (!in) inside = false; }
  }
  template<class G> void container(GridContainer<G> &c) { c.global_min = glo; c.global_max = ghi; c.local_min = llo; c.local_max = lhi; }
};
// the transfer moves cell k of the grid if and only if it is a local cell, to or from its global position
template<size_t N, class G> static void mapped(const Boxes<N> &b, const Transfer &t, G &g)
{
  bool sel = true; for (size_t d = 0; d < N; ++d) { long m = b.k[d] - b.lo[d]; if (m < (long)t.mem.start[d] || m >= (long)(t.mem.start[d] + t.mem.count[d])) sel = false; }
  vc_assert(sel == b.inside, "exactly-the-local-cells-are-transferred");
  for (size_t d = 0; d < N; ++d) { vc_assert((long)t.file.dims[d] == b.ghi[d] - b.glo[d] + 1, "the-data-set-has-the-global-extent"); vc_assert((long)t.file.start[d] - (long)t.mem.start[d] + b.k[d] - b.lo[d] == b.k[d] - b.glo[d], "at-its-global-position"); }
  long m = 0; for (size_t d = 0; d < N; ++d) m = m*(long)t.mem.dims[d] + (b.k[d] - b.lo[d]);
  vc_assert((const typename G::value_type *)t.buf + m == &g[b.k], "the-cell-of-the-grid");
}
static int leaked() { return live(SPACE) + live(DSET) + live(ATTR); }
template<size_t N, class T> static void writes(hid_t type)
{
  library(); Boxes<N> b; typedef Grid<T, N> G; GridContainer<G> c; G g(b.lo, b.hi); c.grid = g; b.container(c);
  { HdfOStream o; vc_assert(!o.good(), "closed-at-first"); o.open("f.h5"); vc_assert(o.good() && live(FILE_) == 1, "open"); o.setBlockName("rho");
    o.writeGrid(c); vc_assert(ntr == 1 && tr[0].write && files[0].n == 1 && same(files[0].name, "f.h5") && same(files[0].ds[0].name, "rho") && tr[0].type == type && files[0].ds[0].type == type, "one-data-set-of-the-right-type");
    mapped<N>(b, tr[0], g); vc_assert(leaked() == 0, "nothing-left-open"); o.close(); vc_assert(!o.good() && live(FILE_) == 0, "closed"); }
  vc_assert(closes == 1, "closed-once"); vc_reach("x");
}
extern "C" void h_write1() { writes<1, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_write2() { writes<2, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_write3() { writes<3, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_write2i() { writes<2, int>(H5T_NATIVE_INT); }
extern "C" void h_write1f() { writes<1, float>(H5T_NATIVE_FLOAT); }
template<size_t N, class T> static void reads(hid_t type)
{
  library(); Boxes<N> b; typedef Grid<T, N> G; GridContainer<G> c; G g(b.lo, b.hi); c.grid = g; b.container(c);
  nfiles = 1; setname(files[0].name, "in.h5"); files[0].n = 2; setname(files[0].ds[0].name, "other"); setname(files[0].ds[1].name, "rho"); for (int i = 0; i < 2; ++i) { files[0].ds[i].rank = N; files[0].ds[i].type = type; for (size_t d = 0; d < N; ++d) files[0].ds[i].dims[d] = b.ghi[d] - b.glo[d] + 1; }
  { HdfIStream o("in.h5"); vc_assert(o.good(), "open"); o.setBlockName("rho");
    o.readGrid(c); vc_assert(ntr == 1 && !tr[0].write && tr[0].d == &files[0].ds[1] && tr[0].type == type, "the-named-data-set"); mapped<N>(b, tr[0], g); vc_assert(leaked() == 0 && live(FILE_) == 1, "nothing-left-open"); }
  vc_assert(closes == 1 && live(FILE_) == 0, "closed-once"); vc_reach("x");
}
extern "C" void h_read1() { reads<1, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_read2() { reads<2, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_read3() { reads<3, double>(H5T_NATIVE_DOUBLE); }
extern "C" void h_read2i() { reads<2, int>(H5T_NATIVE_INT); }

// names: a fresh stream numbers the data sets "data0", "data1", ...; after setBlockName the name itself and then numbered; a reader making the same calls finds them in the same order
static int ops[5]; static const char *NAMES[4][5] = {{"data0", "data1", "data2", "data3", "data4"}, {"u", "u1", "u2", "u3", "u4"}, {"rho", "rho1", "rho2", "rho3", "rho4"}, {"w", "w1", "w2", "w3", "w4"}};
extern "C" void h_names()
{
  library(); typedef Grid<double, 1> G; GridContainer<G> c; c.grid = G(Array<int, 1>(0), Array<int, 1>(3)); c.global_min = c.local_min = Array<int, 1>(0); c.global_max = c.local_max = Array<int, 1>(3);
  int n = 4; { HdfOStream o; o.open("f"); int cur = 0, cnt = 0;
    for (int k = 0; k < n; ++k) { ops[k] = pick("set", 2); if (ops[k] && cur < 3) { ++cur; cnt = 0; o.setBlockName(NAMES[cur][0]); } o.writeGrid(c); vc_assert(same(tr[k].d->name, NAMES[cur][cnt]), "name-of-the-data-set"); ++cnt; }
    vc_assert(files[0].n == n, "one-data-set-for-each-grid"); }
  { HdfIStream i; i.open("f"); int cur = 0; for (int k = 0; k < n; ++k) { if (ops[k] && cur < 3) { ++cur; i.setBlockName(NAMES[cur][0]); } i.readGrid(c); vc_assert(tr[n + k].d == tr[k].d, "found-again-in-the-same-order"); } }
  vc_assert(live(FILE_) == 0 && closes == 2, "closed"); vc_reach("x");
}
// reopening starts counting again
extern "C" void h_reopen()
{
  library(); typedef Grid<double, 1> G; GridContainer<G> c; c.grid = G(Array<int, 1>(0), Array<int, 1>(3)); c.global_min = c.local_min = Array<int, 1>(0); c.global_max = c.local_max = Array<int, 1>(3);
  { HdfOStream o; o.open("f"); o.setBlockName("u"); o.writeGrid(c); if (flip("two")) o.writeGrid(c); o.close(); int k = ntr; o.open("g"); o.setBlockName("u"); o.writeGrid(c); o.writeGrid(c); vc_assert(tr[k].d == &files[1].ds[0] && same(tr[k].d->name, "u") && same(tr[k + 1].d->name, "u1") && files[1].n == 2 && same(files[1].name, "g"), "a-new-file-starts-again");
    o.close(); o.open("h"); o.writeGrid(c); o.writeGrid(c); vc_assert(same(files[2].ds[0].name, "u0") && same(files[2].ds[1].name, "u1"), "numbered-without-a-new-name"); }
  { HdfIStream i; i.open("g"); i.setBlockName("u"); i.readGrid(c); if (flip("two")) i.readGrid(c); if (flip("close")) i.close(); i.open("h"); int k = ntr; i.readGrid(c); i.readGrid(c); vc_assert(tr[k].d == &files[2].ds[0] && tr[k + 1].d == &files[2].ds[1], "reading-starts-again"); i.open("g"); i.setBlockName("u"); i.readGrid(c); vc_assert(tr[k + 2].d == &files[1].ds[0], "and-by-name"); }
  vc_assert(closes == opens && live(FILE_) == 0, "closed"); vc_reach("x");
}
// files: a missing file leaves the stream closed; opening another closes the first; each is closed exactly once
extern "C" void h_files()
{
  library(); nfiles = 2; setname(files[0].name, "a"); setname(files[1].name, "b"); files[0].n = files[1].n = 0; bool first = flip("first-exists"), second = flip("second-exists"), shut = flip("close");
  { HdfIStream i(first ? "a" : "x"); vc_assert(i.good() == first && live(FILE_) == first, "open"); if (shut) { i.close(); vc_assert(!i.good() && live(FILE_) == 0, "close"); i.close(); } i.open(second ? "b" : "y"); vc_assert(i.good() == second && live(FILE_) == second, "open-again"); }
  vc_assert(live(FILE_) == 0 && closes == first + second && opens == closes, "each-closed-once"); { HdfOStream o("z"); vc_assert(o.good() && live(FILE_) == 1 && same(files[2].name, "z"), "created"); o.close(); o.close(); } vc_assert(live(FILE_) == 0 && opens == closes, "each-closed-once");
  { HdfIStream i; vc_assert(!i.good(), "closed-at-first"); } vc_reach("x");
}
// attributes: names, types and the values at the time of writing, written by the first process only
extern "C" void h_attributes()
{
  int n = vc_int("processes", 1, 3), r = vc_int("rank", 0, 2); vc_assume(r < n); library(n, r); typedef Grid<double, 1> G; GridContainer<G> c; c.grid = G(Array<int, 1>(0), Array<int, 1>(3)); c.global_min = c.local_min = Array<int, 1>(0); c.global_max = c.local_max = Array<int, 1>(3);
  int a = vc_int("a", -1000, 1000); double x = vc_double("x"), v[3] = {vc_double("v0"), vc_double("v1"), vc_double("v2")}; float f = 2.5f; int other = 7; bool again = flip("again"), none = flip("none");
  { HdfOStream o; o.open("f"); o.setBlockName("rho"); pHdfAttributes at(new HdfAttributes); at->set("step", a); const double *pv = v; at->set("vec", pv, 3); if (again) at->set("x", other); at->set("x", x); at->set("f", f); a += 1; v[1] = v[2]; if (!none) o.setAttributes(at); o.writeGrid(c);
    DataSet &d = files[0].ds[0]; vc_assert(d.nattr == (r == 0 && !none ? 4 : 0), "attributes-from-the-first-process-only");
    for (int k = 0; k < d.nattr; ++k) { bool s = same(d.attr[k], "step"), y = same(d.attr[k], "x"), w = same(d.attr[k], "vec"), g = same(d.attr[k], "f"); vc_assert(s || y || w || g, "names"); for (int j = 0; j < k; ++j) vc_assert(!same(d.attr[k], d.attr[j]), "names");
      vc_assert(d.adim[k] == (w ? 3u : 1u) && d.atype[k] == (s ? H5T_NATIVE_INT : g ? H5T_NATIVE_FLOAT : H5T_NATIVE_DOUBLE), "types"); if (s) vc_assert(d.aval[k][0] == a, "value"); if (y) vc_assert(d.aval[k][0] == x, "value"); if (g) vc_assert(d.aval[k][0] == 2.5, "value"); if (w) for (int j = 0; j < 3; ++j) vc_assert(d.aval[k][j] == v[j], "values"); }
    vc_assert(leaked() == 0, "nothing-left-open"); }
  vc_reach("x");
}
// active processes: exactly they share the communicator of the file and transfer data; it follows every change
static void activity(bool out)
{
  int n = pick("processes", 3) + 1, r = pick("rank", n); library(n, r); typedef Grid<double, 1> G; GridContainer<G> c; c.grid = G(Array<int, 1>(0), Array<int, 1>(3)); c.global_min = c.local_min = Array<int, 1>(0); c.global_max = c.local_max = Array<int, 1>(3);
  if (!out) { nfiles = 1; setname(files[0].name, "f"); files[0].n = 1; DataSet &d = files[0].ds[0]; setname(d.name, "u"); d.type = H5T_NATIVE_DOUBLE; d.rank = 1; d.dims[0] = 4; }
  HdfOStream o; HdfIStream i; bool first = flip("all-first"); int was = 0;
  for (int round = 0; round < 2; ++round) {
    bool set = !(round == 0 && first), me; for (int k = 0; k < n; ++k) activeOf[k] = set ? flip("active") : true; me = activeOf[r];
    int k = ntr, m = opens, nc = ncomm; if (out) { if (set) o.setActive(me); o.open("f"); o.setBlockName("u"); o.writeGrid(c); } else { if (set) i.setActive(me); i.open("f"); i.setBlockName("u"); i.readGrid(c); }
    vc_assert(ntr - k == me && opens - m == me && (out ? o.good() : i.good()) == me, "only-active-processes-take-part"); vc_assert(ncomm - nc == (set ? 1 : 0), "all-processes-agree-on-the-group");
    if (set) { int j = 0; for (int p = 0; p < n; ++p) if (activeOf[p]) { vc_assert(j < commgroup && group[j] == p, "the-active-processes-in-order"); ++j; } vc_assert(j == commgroup, "and-no-others"); }
    if (me) vc_assert(openComm == (set ? 500 + ncomm : MPI_COMM_WORLD), "the-file-is-shared-by-the-active-processes");
    if (out) o.close(); else i.close();
    if (flip("same-again")) { int t = ntr; if (out) { o.open("g"); o.setBlockName("u"); o.writeGrid(c); o.close(); } else { i.open("f"); i.setBlockName("u"); i.readGrid(c); i.close(); } vc_assert(ntr - t == me, "still-active"); if (me) vc_assert(openComm == (set ? 500 + ncomm : MPI_COMM_WORLD), "the-same-communicator"); }
  }
  vc_assert(live(FILE_) == 0, "closed"); vc_reach("x");
}
extern "C" void h_active_write() { activity(true); }
extern "C" void h_active_read() { activity(false); }
// diagnostics and readers built from an input deck
template<class Tag, typename Tag::type M_> struct Expose { friend typename Tag::type get(Tag) { return M_; } };
struct ManagerInstance { typedef DiagnosticManager **type; friend type get(ManagerInstance); };
template struct Expose<ManagerInstance, &Singleton<DiagnosticManager>::pInstance>;
typedef Field<double, 2> F2; typedef Array<int, 2> I2; typedef Range<double, 2> D2;
static I2 gmin, gmax; static F2 *theField; static bool derived, named; static double attval;
template<class G> struct Out : public HDFGridDiagnostic<G>
{
  I2 getGlobalMin() { return gmin; } I2 getGlobalMax() { return gmax; } bool isDerived() { return derived; } std::string getDatasetName() { return named ? std::string("rho") : HDFGridDiagnostic<G>::getDatasetName(); }
  pHdfAttributes getAttributes() { pHdfAttributes a = HDFGridDiagnostic<G>::getAttributes(); if (named) a->set("t", attval); return a; }
};
template<class G> struct In : public HDFGridReader<G> { static In *last; In() { last = this; } I2 getGlobalMin() { return gmin; } I2 getGlobalMax() { return gmax; } std::string getDatasetName() { return named ? std::string("rho") : HDFGridReader<G>::getDatasetName(); } void go() { this->execute(); } };
template<class G> In<G> *In<G>::last;
template<class G> struct Owner : public Block { static G *own, *decoy; void registerData() { addData("E", *own); addData("B", *decoy); } };
template<class G> G *Owner<G>::own; template<class G> G *Owner<G>::decoy;
template<class G> static void setup(Deck &d) { *get(ManagerInstance()) = 0; derived = false; named = false; d.vars = VariableStorage("root", "Root"); d.classes.registerBlock("Root").template setClass<Block>(); d.classes.registerBlock("Own").template setClass<Owner<G> >(); d.classes.registerBlock("Out").template setClass<Out<G> >(); d.classes.registerBlock("In").template setClass<In<G> >(); }
template<class G> struct Make; 
template<> struct Make<F2> { static F2 *make(Boxes<2> &b, int ghost) { Array<bool, 2> st; st[0] = st[1] = false; return new F2(b.llo, b.lhi, D2(Array<double, 2>(0, 0), Array<double, 2>(1, 1)), st, ghost); } };
template<> struct Make<Grid<double, 2> > { static Grid<double, 2> *make(Boxes<2> &b, int) { return new Grid<double, 2>(b.lo, b.hi); } };
template<class G> static void deck(bool out, int ghost)
{
  library(); Boxes<2> b; bool isField = ghost >= 0; for (int d = 0; d < 2; ++d) { if (isField) vc_assume(b.llo[d] - b.lo[d] == ghost && b.hi[d] - b.lhi[d] == ghost); else vc_assume(b.llo[d] == b.lo[d] && b.lhi[d] == b.hi[d]); }
  Deck d; setup<G>(d); gmin = b.glo; gmax = b.ghi; named = flip("named"); attval = vc_double("t"); G *f = Make<G>::make(b, ghost), *g = new G(); Owner<G>::own = f; Owner<G>::decoy = g; const char *name = named ? "rho" : "data"; 
  if (out) {
    int step = 6; DiagnosticManager &m = DiagnosticManager::instance(); m.setMaster(true); m.setRank(0); m.setTimeCounter(&step);
    { pBlock r = d.parse("Own o { Out x { file = \"f.h5\"; interval = 3; field = \"E\"; } }"); r->initAll();
      m.execute(); vc_assert(ntr == 1 && tr[0].write && same(files[0].name, "f.h5") && files[0].n == 1 && same(files[0].ds[0].name, name), "written-when-due"); mapped<2>(b, tr[0], *f);
      if (named) vc_assert(files[0].ds[0].nattr == 1 && same(files[0].ds[0].attr[0], "t") && files[0].ds[0].aval[0][0] == attval, "attributes"); else vc_assert(files[0].ds[0].nattr == 0, "no-attributes");
      vc_assert(live(FILE_) == 0 && leaked() == 0, "closed"); step = 7; m.execute(); vc_assert(ntr == 1, "not-due"); }
  } else {
    nfiles = 1; setname(files[0].name, "in.h5"); files[0].n = 2; setname(files[0].ds[0].name, "other"); setname(files[0].ds[1].name, name); for (int i = 0; i < 2; ++i) { files[0].ds[i].rank = 2; files[0].ds[i].type = H5T_NATIVE_DOUBLE; for (int k = 0; k < 2; ++k) files[0].ds[i].dims[k] = b.ghi[k] - b.glo[k] + 1; }
    pBlock r = d.parse("Own o { In x { file = \"in.h5\"; field = \"E\"; } }"); r->initAll(); vc_assert(ntr == 0, "nothing-read-yet");
    In<G>::last->go(); vc_assert(ntr == 1 && !tr[0].write && tr[0].d == &files[0].ds[1], "read-from-the-file"); mapped<2>(b, tr[0], *f); vc_assert(live(FILE_) == 0 && leaked() == 0 && opens == 1, "closed");
  }
  vc_reach("x");
}
extern "C" void h_deck_write_field() { deck<F2>(true, 2); }
extern "C" void h_deck_write_grid() { deck<Grid<double, 2> >(true, -1); }
extern "C" void h_deck_read_field() { deck<F2>(false, 2); }
extern "C" void h_deck_read_grid() { deck<Grid<double, 2> >(false, -1); }
// a derived diagnostic fills in its own container; nothing is looked up
extern "C" void h_deck_derived()
{
  library(); Deck d; setup<F2>(d); derived = true; gmin = I2(0, 0); gmax = I2(1, 1); bool thrown = false;
  try { pBlock r = d.parse("Out x { file = \"f.h5\"; field = \"none\"; }"); r->initAll(); } catch (...) { thrown = true; } vc_assert(!thrown, "derived-needs-no-field");
  derived = false; try { pBlock r = d.parse("Out y { file = \"f.h5\"; field = \"none\"; }"); r->initAll(); } catch (VariableNotFoundException &) { thrown = true; } vc_assert(thrown, "an-unknown-field-is-rejected"); vc_reach("x");
}
// round trip: two processes write their parts of a small field, then the values are read back with any other cut
extern "C" void h_roundtrip()
{
  library(2, 0); copying = true; int n = 6, cut = pick("cut", n - 1) + 1, cut2 = pick("other-cut", n - 1) + 1, base = vc_int("base", -100, 100); double v[6]; for (int i = 0; i < n; ++i) v[i] = vc_double("v"); typedef Field<double, 1> F; typedef Array<int, 1> I;
  for (int p = 0; p < 2; ++p) { proc = p; I lo(p ? base + cut : base), hi(p ? base + n - 1 : base + cut - 1); Array<bool, 1> st; st[0] = false; F f(lo, hi, Range<double, 1>(Array<double, 1>(0.0), Array<double, 1>(1.0)), st, 1); f = -1.0; for (int i = lo[0]; i <= hi[0]; ++i) f(i) = v[i - base];
    GridContainer<F> c; CopyToContainer<F>::copy(f, c); c.global_min = I(base); c.global_max = I(base + n - 1); HdfOStream o; o.open("f"); o.setBlockName("u"); o.writeGrid(c); o.close(); }
  for (int i = 0; i < n; ++i) vc_assert(files[0].ds[0].given[i] && files[0].ds[0].cell[i] == v[i], "the-file-holds-the-global-field");
  for (int p = 0; p < 2; ++p) { proc = p; I lo(p ? base + cut2 : base), hi(p ? base + n - 1 : base + cut2 - 1); Array<bool, 1> st; st[0] = false; F f(lo, hi, Range<double, 1>(Array<double, 1>(0.0), Array<double, 1>(1.0)), st, 1); f = -1.0;
    GridContainer<F> c; CopyToContainer<F>::copy(f, c); c.global_min = I(base); c.global_max = I(base + n - 1); HdfIStream o; o.open("f"); o.setBlockName("u"); o.readGrid(c); o.close();
    for (int i = lo[0]; i <= hi[0]; ++i) vc_assert(f(i) == v[i - base], "every-value-comes-back"); vc_assert(f(lo[0] - 1) == -1.0 && f(hi[0] + 1) == -1.0, "ghost-cells-untouched"); }
  vc_reach("x");
}
// a copy of a stream that has no open file writes under the same name with the same attributes
extern "C" void h_copies()
{
  library(); typedef Grid<double, 1> G; GridContainer<G> c; c.grid = G(Array<int, 1>(0), Array<int, 1>(3)); c.global_min = c.local_min = Array<int, 1>(0); c.global_max = c.local_max = Array<int, 1>(3);
  bool by = flip("assign"), used = flip("used"); double x = vc_double("x"); pHdfAttributes at(new HdfAttributes); at->set("x", x);
  { HdfOStream o, q; if (used) { o.open("a"); o.writeGrid(c); o.close(); } o.setBlockName("u"); o.setAttributes(at); HdfOStream p(o); if (by) q = o; HdfOStream &r = by ? q : p; int k = ntr; vc_assert(!r.good(), "closed"); r.open("f"); r.writeGrid(c); o.open("g"); o.writeGrid(c);
    vc_assert(same(tr[k].d->name, tr[k + 1].d->name) && tr[k].d != tr[k + 1].d && tr[k].d->nattr == 1 && same(tr[k].d->attr[0], "x") && tr[k].d->aval[0][0] == x, "like-the-original"); vc_assert(live(FILE_) == 2, "both-open"); }
  vc_assert(live(FILE_) == 0 && opens == closes, "each-closed-once");
  { nfiles = 1; setname(files[0].name, "in"); files[0].n = 1; DataSet &d = files[0].ds[0]; setname(d.name, "u0"); d.type = H5T_NATIVE_DOUBLE; d.rank = 1; d.dims[0] = 4; HdfIStream o, q; o.setBlockName("u"); HdfIStream p(o); if (by) q = o; HdfIStream &r = by ? q : p; int k = ntr; r.open("in"); r.readGrid(c); vc_assert(tr[k].d == &d && !tr[k].write, "like-the-original"); }
  vc_assert(live(FILE_) == 0 && opens == closes, "each-closed-once"); vc_reach("x");
}
