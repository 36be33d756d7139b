// Native side of the contract language: replays a counterexample or searches for one on the real code.
//   prog list | prog replay FN FILE | prog search FN SEED SECONDS RUNS LOG
#include "vc.h"
#undef VC_SYM
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <exception>
#include <typeinfo>
#include <chrono>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace {
struct Reject {};
struct Fail { std::string id; };
uint64_t rs;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
bool replaying = false;
std::vector<std::string> rin; size_t rpos = 0;
char *logbuf = nullptr; size_t logpos = 0; const size_t LOGSZ = 1 << 16;
int scale = 6;
long live = 0;
bool counting = false;
bool maythrow_ = false;
std::map<std::string,long> reached;
void logv(const char *ty, const char *name, const char *v)
{
  if (!logbuf) return;
  int n = snprintf(logbuf + logpos, LOGSZ - logpos - 1, "%s %s %s\n", ty, name, v);
  if (n > 0 && logpos + n < LOGSZ - 64) { logpos += n; logbuf[logpos] = 0; }
}
const char *next() { static std::string s; if (rpos < rin.size()) s = rin[rpos++]; else { rpos++; s = "?"; } return s.c_str(); }
}

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void *p) noexcept { if (p) --live; free(p); }
void operator delete[](void *p) noexcept { if (p) --live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --live; free(p); }

extern "C" {
int vc_int(const char *name, int lo, int hi)
{
  long v;
  char b[64];
  bool have = false;
  if (replaying) { const char *s = next(); if (*s != '?') { v = atol(s); have = true; if (v < lo || v > hi) throw Reject(); } }
  if (!have)
  {
    if (lo > hi) throw Reject();
    long l = lo, h = hi;
    uint64_t r = rnd();
    if (h - l > 64)
    {
      // keep magnitudes small so that boxes stay allocatable, touching both signs
      long s = (r >> 40) % 16 == 0 ? 4 * scale : scale;
      long a = l, c = h;
      if (l <= 0 && h >= 0) { a = l > -s ? l : -s; c = h < s ? h : s; }
      else if (l > 0) { c = l + s < h ? l + s : h; }
      else { a = h - s > l ? h - s : l; }
      l = a; h = c;
    }
    v = l + long((r >> 8) % uint64_t(h - l + 1));
    if ((r & 7) == 0) v = l; else if ((r & 7) == 1) v = h;
  }
  snprintf(b, sizeof b, "%ld", v); logv("i", name, b);
  return int(v);
}
double vc_double(const char *name)
{
  double v; char b[64]; bool have = false;
  if (replaying)
  {
    const char *s = next();
    if (*s != '?')
    {
      have = true;
      const char *sl = strchr(s, '/');
      v = strtod(s, nullptr);
      if (sl) v = v / strtod(sl + 1, nullptr);
    }
  }
  if (!have)
  {
    // small dyadic rationals: sums and products stay exact
    uint64_t r = rnd();
    v = double(long((r >> 9) % 129) - 64);
    if ((r & 3) == 0) v /= 4.0;
    if ((r & 31) == 5) v = 0.0;
  }
  snprintf(b, sizeof b, "%.17g", v); logv("d", name, b);
  return v;
}
bool vc_bool(const char *name)
{
  bool v = (rnd() >> 20) & 1;
  if (replaying) { const char *s = next(); if (*s != '?') v = atoi(s) != 0; }
  logv("b", name, v ? "1" : "0");
  return v;
}
void vc_assume(bool c) { if (!c) throw Reject(); }
void vc_assert(bool c, const char *id) { if (!c) throw Fail{id}; }
void vc_reach(const char *id) { reached[id]++; }
void vc_split(bool) {}
void vc_ghost_i(const char *, long) {}
void vc_ghost_p(const char *, const void *) {}
void vc_watch_d(const double *, double) {}
void vc_watch_i(const int *, int) {}
void vc_unwatch() {}
void vc_maythrow(bool b) { maythrow_ = b; }
void vc_havoc_d(double *p, long n) { for (long i = 0; i < n; ++i) p[i] = double(long(rnd() % 33) - 16); }
int vc_is_native() { return 1; }
bool vc_live(const void *) { return true; }
long vc_heap_live() { return live; }
long vc_obj_size(const void *) { return -1; }
}

static int run1(void (*f)(), std::string &why)
{
  maythrow_ = false;
  try { f(); }
  catch (Reject &) { return 1; }
  catch (Fail &x) { why = "assertion failed: " + x.id; return 2; }
  catch (std::bad_alloc &) { return 1; }
  catch (std::exception &e) { if (maythrow_) return 0; why = std::string("uncaught exception ") + typeid(e).name() + ": " + e.what(); return 2; }
  catch (...) { if (maythrow_) return 0; why = "uncaught exception"; return 2; }
  return 0;
}

int main(int argc, char **argv)
{
  if (argc < 4) return 3;
  void (*f)() = (void(*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!f) { fprintf(stderr, "no such function %s\n", argv[2]); return 3; }
  std::string mode = argv[1], why;
  if (mode == "replay")
  {
    replaying = true; rs = 88172645463325252ull;
    FILE *fp = fopen(argv[3], "r");
    if (!fp) return 3;
    char ty[16], nm[256], v[256];
    while (fscanf(fp, "%15s %255s %255s", ty, nm, v) == 3) rin.push_back(v);
    fclose(fp);
    int r = run1(f, why);
    if (r == 2) { printf("FAIL %s\n", why.c_str()); return 10; }
    printf(r == 1 ? "REJECT\n" : "PASS\n");
    return r == 1 ? 11 : 0;
  }
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double secs = atof(argv[4]); long runs = atol(argv[5]);
  int fd = open(argv[6], O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (ftruncate(fd, LOGSZ)) return 3;
  logbuf = (char *)mmap(nullptr, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  auto t0 = std::chrono::steady_clock::now();
  long ok = 0, rej = 0, i;
  for (i = 0; i < runs; ++i)
  {
    rs = 0x9E3779B97F4A7C15ull * (seed * 1000003ull + i + 1) ^ 0xD1B54A32D192ED03ull; if (!rs) rs = 1;
    rnd(); rnd();
    scale = (i % 3 == 0) ? 2 : (i % 3 == 1) ? 4 : 7;
    logpos = 0; logbuf[0] = 0;
    int r = run1(f, why);
    if (r == 2) { printf("FAIL run=%ld %s\n", i, why.c_str()); return 10; }
    if (r == 1) ++rej; else ++ok;
    if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { ++i; break; }
  }
  printf("PASS runs=%ld ok=%ld rejected=%ld", i, ok, rej);
  for (auto &x : reached) printf(" reach[%s]=%ld", x.first.c_str(), x.second);
  printf("\n");
  return 0;
}
