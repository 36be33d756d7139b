// P13: diagnostics write exactly when they are due.
#include "deck.h"
#include "diagnostic/diagnostic.cpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }
// every contract starts with a fresh manager (the singleton outlives one run of a contract)
template<class Tag, typename Tag::type M> struct Expose { friend typename Tag::type get(Tag) { return M; } };
struct ManagerInstance { typedef DiagnosticManager **type; friend type get(ManagerInstance); };
template struct Expose<ManagerInstance, &Singleton<DiagnosticManager>::pInstance>;
static char ev[64]; static int nev; static int who[64]; static std::string opened;
static void log(char c, int w) { ev[nev] = c; who[nev] = w; ++nev; }
template<class D> struct Rec : public D
{
  int id; bool single; static bool nextSingle; static Rec *last; static int made;
  Rec() : id(made++), single(nextSingle) { last = this; }
  void open(const std::string &f) { log('o', id); opened = f; }
  void write() { log('w', id); }
  void close() { log('c', id); }
  bool singleOut() { return single; }
};
template<class D> bool Rec<D>::nextSingle = false; template<class D> Rec<D> *Rec<D>::last; template<class D> int Rec<D>::made;
typedef Rec<IntervalDiagnostic> I; typedef Rec<DeltaTimeDiagnostic> T;
static bool seq(const char *s, int w = -1) { int n = 0; for (; s[n]; ++n) if (n >= nev || ev[n] != s[n] || (w >= 0 && who[n] != w)) return false; return n == nev; }
static void fresh() { *get(ManagerInstance()) = 0; nev = 0; I::made = T::made = 0; I::nextSingle = T::nextSingle = false; opened = ""; }
static void make(Deck &d) { fresh(); d.vars = VariableStorage("root", "Root"); d.classes.registerBlock("Root").setClass<Block>(); d.classes.registerBlock("I").setClass<I>(); d.classes.registerBlock("T").setClass<T>(); }
static pBlock run(Deck &d, const char *text) { pBlock b = d.parse(text); b->initAll(); return b; }

// one step of an interval diagnostic, at every time and for every interval
extern "C" void h_interval()
{
  int n = vc_int("interval", 1, 1000), t = vc_int("t", -1, 100000); bool app = flip("append"), single = flip("single"), master = flip("master");
  Deck d; make(d); d.constant("n", n); I::nextSingle = single;
  run(d, app ? "I x { file = \"f.dat\"; interval = n; append = 1; }" : "I x { file = \"f.dat\"; interval = n; }");
  vc_assert(I::last->getInterval() == n, "interval");
  I::last->execute(master, 3, t);
  bool active = master || !single, due = t < 0 || t % n == 0;
  if (!active) vc_assert(nev == 0, "only-the-master-writes");
  else if (app) vc_assert(seq(t == 0 ? "ow" : due ? "w" : ""), "appending-opens-once-and-writes-when-due");
  else vc_assert(seq(due ? "owc" : ""), "opens-writes-closes-when-due");
  if (active && (app ? t == 0 : due)) vc_assert(opened == "f.dat", "file-name");
  vc_reach("x");
}
// one step of a delta-time diagnostic from an arbitrary next output time
extern "C" void h_delta()
{
  double dt = vc_double("dt"), next = vc_double("next"), t = vc_double("t"), t2 = vc_double("t2"); bool app = flip("append"), single = flip("single"), master = flip("master");
  vc_assume(dt > 0 && t >= 0 && t2 > t && next >= 0);
  Deck d; make(d); d.constant("dt", dt); d.constant("next", next); T::nextSingle = single;
  run(d, app ? "T x { file = \"f.dat\"; deltaTime = dt; delay = next; append = 1; }" : "T x { file = \"f.dat\"; deltaTime = dt; delay = next; }");
  T *x = T::last; vc_assert(x->getDeltaTime() == dt && x->getNextOutput() == next, "parameters");
  x->execute(master, 0, t);
  bool active = master || !single, due = t >= next;
  if (!active) vc_assert(nev == 0 && x->getNextOutput() == next, "only-the-master-writes");
  else {
    if (app) vc_assert(seq(t == 0 ? (due ? "ow" : "o") : due ? "w" : ""), "appending-opens-once-and-writes-when-due");
    else vc_assert(seq(due ? "owc" : ""), "opens-writes-closes-when-due");
    vc_assert(x->getNextOutput() == (due ? next + dt : next), "next-output-advances-with-each-write");
    nev = 0; double nx = x->getNextOutput(); x->execute(master, 0, t2);
    vc_assert(seq(t2 >= nx ? (app ? "w" : "owc") : ""), "next-step");
  }
  vc_reach("x");
}
// the master switch, rank and times are handed to every diagnostic once per call, in order
extern "C" void h_manager()
{
  int n1 = vc_int("n1", 1, 1000), n2 = vc_int("n2", 1, 1000), t = vc_int("t", 0, 100000); double pt = vc_double("pt"), dl = vc_double("delay"); vc_assume(pt > 0 && dl >= 0);
  bool single = flip("single"), master = flip("master");
  Deck d; make(d); d.constant("n1", n1); d.constant("n2", n2); d.constant("dl", dl); I::nextSingle = single; T::nextSingle = false;
  DiagnosticManager &m = DiagnosticManager::instance(); m.setMaster(master); m.setRank(2); m.setTimeCounter(&t); m.setPhysicalTime(&pt); if (flip("counter-last")) m.setTimeCounter(&t);
  run(d, "I x { file = \"x\"; interval = n1; append = 1; } T z { file = \"z\"; delay = dl; append = 1; } I y { file = \"y\"; interval = n2; append = 1; }");
  vc_assume(t > 0);
  m.execute();
  bool a = (master || !single) && t % n1 == 0, b = (master || !single) && t % n2 == 0, c = pt >= dl;
  int k = 0; vc_assert(nev == a + b + c, "count");
  if (a) { vc_assert(who[k] == 0 && ev[k] == 'w', "first"); ++k; }
  if (b) { vc_assert(who[k] == 1 && ev[k] == 'w', "second"); ++k; }
  if (c) vc_assert(who[k] == 0 && ev[k] == 'w', "delta");
  vc_reach("x");
}
// the adjusted time step never skips an output and is otherwise the wanted one
extern "C" void h_adjust()
{
  double t = vc_double("t"), dt = vc_double("dt"), n[3] = {vc_double("n0"), vc_double("n1"), vc_double("n2")}; vc_assume(dt > 0 && t >= 0);
  Deck d; make(d); d.constant("a", n[0]); d.constant("b", n[1]); d.constant("c", n[2]);
  run(d, "T x { file = \"x\"; delay = a; } T y { file = \"y\"; delay = b; } T z { file = \"z\"; delay = c; }");
  DiagnosticManager &m = DiagnosticManager::instance(); m.setPhysicalTime(&t);
  double r = m.adjustDeltaT(dt); bool hit = false;
  vc_assert(r > 0 && r <= dt, "not-longer-than-wanted");
  for (int i = 0; i < 3; ++i) if (n[i] > t) { vc_assert(r <= n[i] - t, "no-output-is-skipped"); hit = hit || r == n[i] - t; }
  vc_assert(r == dt || hit, "shortened-only-to-meet-an-output");
  vc_assert(nev == 0 && T::last->getNextOutput() == n[2], "changes-nothing");
  vc_reach("x");
}
extern "C" void h_adjust_none() { fresh(); double dt = vc_double("dt"); vc_assert(DiagnosticManager::instance().adjustDeltaT(dt) == dt, "unchanged-without-diagnostics"); vc_reach("x"); }
// times that are needed but not known are reported
extern "C" void h_missing_time()
{
  int t = vc_int("t", 0, 10); double pt = vc_double("pt"); vc_assume(pt >= 0); bool ht = flip("counter"), hp = flip("physical"), order = flip("order"), di = flip("interval"), dd = flip("delta");
  Deck d; make(d); DiagnosticManager &m = DiagnosticManager::instance();
  if (order) { if (ht) m.setTimeCounter(&t); if (hp) m.setPhysicalTime(&pt); } else { if (hp) m.setPhysicalTime(&pt); if (ht) m.setTimeCounter(&t); }
  run(d, di ? (dd ? "I x { file = \"x\"; append = 1; } T y { file = \"y\"; append = 1; }" : "I x { file = \"x\"; append = 1; }") : dd ? "T y { file = \"y\"; append = 1; }" : "I x { file = \"x\"; append = 1; }");
  if (!di && !dd) di = true;
  bool thrown = false, thrown2 = false;
  try { m.execute(); } catch (VariableNotInitialisedException &) { thrown = true; }
  vc_assert(thrown == ((di && !ht) || (dd && !hp)), "execute"); if (thrown) vc_assert(nev == 0, "nothing-written");
  try { m.adjustDeltaT(1.0); } catch (VariableNotInitialisedException &) { thrown2 = true; }
  vc_assert(thrown2 == (dd && !hp), "adjust");
  vc_reach("x");
}
// file names: rank, time step and output counter
static bool is(const std::string &a, const char *b) { return a == b; }
extern "C" void h_names()
{
  Deck d; make(d); int k = pick("name", 4); static const int TT[4] = {0, 40, 12345, -1}; int ti = pick("time", 4); int rank = pick("rank", 2) ? 13 : 0;
  I::nextSingle = T::nextSingle = false;
  run(d, k == 0 ? "I x { file = \"a#t.h5\"; interval = 5; } T y { file = \"a#t.h5\"; }" : k == 1 ? "I x { file = \"a#p_#t\"; interval = 5; } T y { file = \"a#p_#t\"; }" :
         k == 2 ? "I x { file = \"#t-#p.dat\"; interval = 5; } T y { file = \"#t-#p.dat\"; }" : "I x { file = \"plain#q\"; interval = 5; } T y { file = \"plain#q\"; }");
  I::last->execute(true, rank, TT[ti]);
  std::string t = ti == 0 ? "0" : ti == 1 ? "40" : ti == 2 ? "12345" : "final", r = rank ? "13" : "0";
  vc_assert(opened == (k == 0 ? "a" + t + ".h5" : k == 1 ? "a" + r + "_" + t : k == 2 ? t + "-" + r + ".dat" : std::string("plain#q")), "interval-file-name");
  for (int i = 0; i < 2; ++i) {
    T::last->execute(true, rank, 3.0 * i); std::string c = i ? "1" : "0";
    vc_assert(opened == (k == 0 ? "a" + c + ".h5" : k == 1 ? "a" + r + "_" + c : k == 2 ? c + "-" + r + ".dat" : std::string("plain#q")), "delta-file-name-counts-outputs");
  }
  vc_reach("x");
}
// a history of steps: what was written before does not matter
extern "C" void h_history()
{
  int n = vc_int("interval", 1, 1000); bool app = flip("append"); Deck d; make(d); d.constant("n", n);
  run(d, app ? "I x { file = \"f#t\"; interval = n; append = 1; }" : "I x { file = \"f\"; interval = n; }");
  int t = 0;
  for (int i = 0; i < 4; ++i)
  {
    if (i) { int s = vc_int("step", 0, 50000); t = i == 3 && flip("final") ? -1 : t + s; }
    nev = 0; opened = ""; I::last->execute(true, i, t); bool due = t < 0 || t % n == 0;
    vc_assert(seq(app ? (t == 0 ? "ow" : due ? "w" : "") : due ? "owc" : ""), "each-step-writes-iff-due");
    vc_assert(opened == (app ? (t == 0 ? "f#t" : "") : due ? "f" : ""), "file-name");
  }
  vc_reach("x");
}
extern "C" void h_delta_history()
{
  double dt = vc_double("dt"), next = vc_double("next"), t = vc_double("t"); vc_assume(dt > 0 && t >= 0 && next >= 0);
  Deck d; make(d); d.constant("dt", dt); d.constant("next", next); run(d, "T x { file = \"f\"; deltaTime = dt; delay = next; }"); T *x = T::last;
  for (int i = 0; i < 4; ++i)
  {
    nev = 0; double before = x->getNextOutput(); x->execute(true, 0, t); vc_assert(seq(t >= before ? "owc" : ""), "each-step-writes-iff-due");
    vc_assert(x->getNextOutput() == (t >= before ? before + dt : before), "next-output-advances-with-each-write");
    double s = vc_double("step"); vc_assume(s >= 0); t = t + s;
  }
  vc_reach("x");
}
// the counter in the file name of a delta-time diagnostic counts its outputs, beyond one digit and only when it writes
extern "C" void h_delta_names()
{
  Deck d; make(d); bool skip = flip("skip"); run(d, "T x { file = \"a#t.h5\"; deltaTime = 2.0; delay = 1.0; }");
  static const char *N[] = {"0","1","2","3","4","5","6","7","8","9","10","11"};
  for (int i = 0; i < 12; ++i) { nev = 0; if (skip) { T::last->execute(true, 0, 2.0 * i); vc_assert(nev == 0, "not-due"); } T::last->execute(true, 0, 1.0 + 2.0 * i); vc_assert(seq("owc") && opened == std::string("a") + N[i] + ".h5", "counts-outputs"); }
  vc_reach("x");
}
// the manager hands its rank, master flag and current times on, at every step
extern "C" void h_manager_steps()
{
  int n1 = vc_int("n1", 1, 1000), n2 = vc_int("n2", 1, 1000), t = 0; double pt = 0, dl = vc_double("delay"), dt = vc_double("dt"); vc_assume(dl >= 0 && dt > 0);
  Deck d; make(d); d.constant("n1", n1); d.constant("n2", n2); d.constant("dl", dl); d.constant("dt", dt);
  DiagnosticManager &m = DiagnosticManager::instance(); m.setTimeCounter(&t); m.setPhysicalTime(&pt); bool setr = flip("set-rank"); if (setr) m.setRank(12);
  bool master = true; if (setr) m.setMaster(master = flip("master"));
  I::nextSingle = true; run(d, "I x { file = \"x#p\"; interval = n1; }"); I::nextSingle = false; I *x = I::last; x->id = 10;
  run(d, "I y { file = \"y#p\"; interval = n2; } T z { file = \"z#p\"; delay = dl; deltaTime = dt; }"); I::last->id = 11; T::last->id = 12;
  double next = dl;
  for (int i = 0; i < 2; ++i)
  {
    nev = 0; opened = ""; m.execute(); int k = 0; const char *last = ""; bool due[3] = {master && t % n1 == 0, t % n2 == 0, pt >= next};
    for (int j = 0; j < 3; ++j) if (due[j]) { vc_assert(k + 3 <= nev && ev[k] == 'o' && ev[k+1] == 'w' && ev[k+2] == 'c' && who[k] == 10 + j && who[k+1] == 10 + j && who[k+2] == 10 + j, "each-diagnostic-once-when-due"); k += 3; last = j == 0 ? (setr ? "x12" : "x0") : j == 1 ? (setr ? "y12" : "y0") : setr ? "z12" : "z0"; }
    vc_assert(k == nev && opened == last, "nothing-else-and-the-rank-in-the-name"); if (due[2]) next = next + dt;
    t = t + vc_int("step", 0, 1000); double s = vc_double("s"); vc_assume(s >= 0); pt = pt + s;
  }
  vc_reach("x");
}
