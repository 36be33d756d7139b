// P10: after an update every dependent parameter equals its defining expression at the current values of the
// independent ones, whatever the shape of the dependencies and the order of declaration.
#include "deck.h"

struct Sim
{
  Deck d; BlockParameters par; double a, b, x[3]; pParameter pa, pb, px[3]; pDependencyMap map; pDependencyUpdater up;
  Sim(double a_, double b_) : a(a_), b(b_)
  {
    par.setContext(d.vars.getRootBlock());
    pa = par.addParameter("a", &a, BlockParameters::readonly); pb = par.addParameter("b", &b, BlockParameters::readonly);
    for (int i = 0; i < 3; ++i) { char n[2] = {"xyz"[i], 0}; px[i] = par.addParameter(n, &x[i]); }
  }
  void start() { map = pDependencyMap(new DependencyMap(d.vars.getRootBlock())); map->updateAll(); par.evaluate(); up = pDependencyUpdater(new DependencyUpdater(map)); }
};

typedef BinaryOp<schnek::expression::OperatorAdd<double>, double> Sum;
static pFloatExpression sum(pFloatExpression l, pVariable v) { return pFloatExpression(new Sum(l, pFloatExpression(new ReferencedValue<double>(v)))); }
// a non-constant definition, as the parser stores it
static void define(pVariable v, pFloatExpression e) { *v = Variable(e); }
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }

// parameter p[0] = 1 + i0, p[1] = 2 + i1 [+ p[0]], p[2] = 3 + i2 [+ p[0]] [+ p[1]] with i = nothing, a or b;
// the definitions are made in the order x, y, z
struct Shape
{
  int p[3]; int ind[3]; bool e[3];
  void value(double a, double b, double *x) const
  {
    for (int i = 0; i < 3; ++i) {
      double v = i + 1;
      if (ind[i]) v = v + (ind[i] == 1 ? a : b);
      if (i > 0 && e[i == 1 ? 0 : 1]) v = v + x[p[0]];
      if (i == 2 && e[2]) v = v + x[p[1]];
      x[p[i]] = v;
    }
  }
  void build(Sim &m) const
  {
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) if (p[i] == k) {
      pFloatExpression s(new Value<double>(i + 1));
      if (ind[i]) s = sum(s, (ind[i] == 1 ? m.pa : m.pb)->getVariable());
      if (i > 0 && e[i == 1 ? 0 : 1]) s = sum(s, m.px[p[0]]->getVariable());
      if (i == 2 && e[2]) s = sum(s, m.px[p[1]]->getVariable());
      define(m.px[k]->getVariable(), s);
    }
  }
};
static void shape(int p0, int p1, int p2, int i0)
{
  Shape s = {{p0, p1, p2}, {0, 0, 0}, {false, false, false}};
  s.ind[0] = i0; s.ind[1] = pick("i1", 3); s.ind[2] = pick("i2", 3);
  s.e[0] = flip("e0"); s.e[1] = flip("e1"); s.e[2] = flip("e2");
  double a = vc_double("a"), b = vc_double("b"), a2 = vc_double("a2"), b2 = vc_double("b2");
  Sim m(a, b); s.build(m); m.start();
  double ref[3]; s.value(a, b, ref);
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(m.x[i], ref[i]), "initial-values");
  int mask = 1 << pick("dependents", 4); if (mask == 8) mask = 7;
  bool regb = flip("register-b");
  m.up->addIndependent(m.pa); if (regb) m.up->addIndependent(m.pb);
  for (int i = 0; i < 3; ++i) if (mask & (1 << i)) m.up->addDependent(m.px[i]);
  m.a = a2; if (regb) m.b = b2;
  m.up->update();
  double now[3]; s.value(m.a, m.b, now);
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(m.x[i], (mask & (1 << i)) ? now[i] : ref[i]), (mask & (1 << i)) ? "dependents-are-current" : "others-are-untouched");
  vc_reach("x");
}
extern "C" void h_shape_xyz_none() { shape(0, 1, 2, 0); }
extern "C" void h_shape_xyz_a() { shape(0, 1, 2, 1); }
extern "C" void h_shape_xyz_b() { shape(0, 1, 2, 2); }
extern "C" void h_shape_xzy_none() { shape(0, 2, 1, 0); }
extern "C" void h_shape_xzy_a() { shape(0, 2, 1, 1); }
extern "C" void h_shape_xzy_b() { shape(0, 2, 1, 2); }
extern "C" void h_shape_yxz_none() { shape(1, 0, 2, 0); }
extern "C" void h_shape_yxz_a() { shape(1, 0, 2, 1); }
extern "C" void h_shape_yxz_b() { shape(1, 0, 2, 2); }
extern "C" void h_shape_yzx_none() { shape(1, 2, 0, 0); }
extern "C" void h_shape_yzx_a() { shape(1, 2, 0, 1); }
extern "C" void h_shape_yzx_b() { shape(1, 2, 0, 2); }
extern "C" void h_shape_zxy_none() { shape(2, 0, 1, 0); }
extern "C" void h_shape_zxy_a() { shape(2, 0, 1, 1); }
extern "C" void h_shape_zxy_b() { shape(2, 0, 1, 2); }
extern "C" void h_shape_zyx_none() { shape(2, 1, 0, 0); }
extern "C" void h_shape_zyx_a() { shape(2, 1, 0, 1); }
extern "C" void h_shape_zyx_b() { shape(2, 1, 0, 2); }

// a history of one updater: dependents and independents added later, cleared and added again
extern "C" void h_history()
{
  double v[4] = {vc_double("a0"), vc_double("a1"), vc_double("a2"), vc_double("a3")}; double b = vc_double("b"), b2 = vc_double("b2");
  Shape s = {{2, 0, 1}, {1, 2, 0}, {true, false, true}};    // z = 1+a, x = 2+b+z, y = 3+x
  Sim m(v[0], b); s.build(m); m.start();
  double r0[3], r1[3], r2[3], r3[3]; s.value(v[0], b, r0); s.value(v[1], b, r1); s.value(v[2], b, r2); s.value(v[3], b2, r3);
  m.up->update(); vc_assert(vc_near(m.x[0], r0[0]) && vc_near(m.x[1], r0[1]) && vc_near(m.x[2], r0[2]), "nothing-registered");
  m.up->addIndependent(m.pa); m.up->addDependent(m.px[0]); m.up->addDependent(m.px[0]);
  m.a = v[1]; m.up->update();
  vc_assert(vc_near(m.x[0], r1[0]) && vc_near(m.x[1], r0[1]) && vc_near(m.x[2], r0[2]), "first-dependent");
  m.up->addDependent(m.px[1]); m.up->update();
  vc_assert(vc_near(m.x[0], r1[0]) && vc_near(m.x[1], r1[1]), "added-dependent");
  m.up->clearDependent(); m.up->addDependent(m.px[2]); m.a = v[2]; m.up->update();
  vc_assert(vc_near(m.x[0], r1[0]) && vc_near(m.x[1], r1[1]) && vc_near(m.x[2], r2[2]), "cleared");
  m.up->addIndependent(m.pb); m.up->addDependent(m.px[1]); m.up->addDependent(m.px[0]); m.a = v[3]; m.b = b2; m.up->update();
  vc_assert(vc_near(m.x[0], r3[0]) && vc_near(m.x[1], r3[1]) && vc_near(m.x[2], r3[2]), "added-independent");
  vc_reach("x");
}
// a definition changed after the map was made is honoured once the map is recreated
extern "C" void h_recreate()
{
  double a = vc_double("a"), a2 = vc_double("a2");
  Shape s = {{0, 1, 2}, {1, 0, 1}, {true, false, false}}, t = {{2, 1, 0}, {1, 0, 1}, {true, true, true}};
  Sim m(a, 0); s.build(m); m.start();
  t.build(m); m.map->recreate(); m.map->updateAll();
  double r[3]; t.value(a, 0, r);
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(boost::get<double>(m.px[i]->getVariable()->getValue()), r[i]), "updateAll-after-recreate");
  m.up->addIndependent(m.pa); for (int i = 0; i < 3; ++i) m.up->addDependent(m.px[i]);
  m.a = a2; m.up->update(); t.value(a2, 0, r);
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(m.x[i], r[i]), "update-after-recreate");
  vc_reach("x");
}
// decks: constants, constant variables inside expressions, integers, reassignment of a variable others refer to
extern "C" void h_deck()
{
  double a = vc_double("a"), b = vc_double("b"), k = vc_double("k"), x = 0, y = 0, z = 0; int n = vc_int("n", -500, 500), i = 0, j = 0;
  double a2 = vc_double("a2"), b2 = vc_double("b2"); int n2 = vc_int("n2", -500, 500);
  Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock()); typedef BlockParameters B;
  d.constant("k", k);
  pParameter px = par.addParameter("x", &x), py = par.addParameter("y", &y), pz = par.addParameter("z", &z), pi = par.addParameter("i", &i), pj = par.addParameter("j", &j);
  pParameter pa = par.addParameter("a", &a, B::readonly), pb = par.addParameter("b", &b, B::readonly), pn = par.addParameter("n", &n, B::readonly);
  d.parse("float c = 2.*k; x = a; y = x + c; x = a + b*k; z = k - 1.; i = n - 7; j = i*2; float w = y - i;");
  par.evaluate();
  vc_assert(vc_near(x, a + b*k) && vc_near(y, a + b*k + 2*k) && vc_near(z, k - 1) && i == n - 7 && j == 2*(n - 7), "initial");
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map);
  up.addIndependent(pa); up.addIndependent(pn); up.addIndependent(pb);
  z = 0; up.addDependent(py); up.addDependent(pz); up.addDependent(pj);
  vc_assert(vc_near(z, k - 1), "constant-dependent-is-set-at-once");
  a = a2; b = b2; n = n2; double x0 = x; int i0 = i; up.update();
  vc_assert(vc_near(y, a2 + b2*k + 2*k), "float"); vc_assert(j == 2*(n2 - 7), "int"); vc_assert(vc_near(z, k - 1), "constant");
  vc_assert(x == x0 && i == i0, "others-are-untouched");
  vc_assert(vc_near(a, a2) && vc_near(b, b2) && n == n2, "independents-are-untouched");
  vc_reach("x");
}
// variables of nested blocks: a child's parameter defined from the parent's and the other way round
extern "C" void h_blocks()
{
  double a = vc_double("a"), a2 = vc_double("a2"), x = 0, u = 0;
  Deck d; BlockParameters par, sub; par.setContext(d.vars.getRootBlock());
  pParameter px = par.addParameter("x", &x), pa = par.addParameter("a", &a, BlockParameters::readonly);
  pBlockVariables ch = d.vars.createBlock("c", "C"); sub.setContext(ch); pParameter pu = sub.addParameter("u", &u); d.vars.resetCursor();
  bool down = flip("parent-defines-child"); 
  pVariable va = pa->getVariable(), vx = px->getVariable(), vu = pu->getVariable(); pFloatExpression one(new Value<double>(1));
  if (down) { define(vu, sum(one, vx)); define(vx, sum(one, va)); } else { define(vx, sum(one, vu)); define(vu, sum(one, va)); }
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); map->updateAll(); par.evaluate(); sub.evaluate();
  vc_assert(vc_near(down ? x : u, a + 1) && vc_near(down ? u : x, a + 2), "initial");
  DependencyUpdater up(map); up.addIndependent(pa); up.addDependent(px); up.addDependent(pu); a = a2; up.update();
  vc_assert(vc_near(down ? x : u, a2 + 1) && vc_near(down ? u : x, a2 + 2), "current");
  vc_reach("x");
}
// functions that change by themselves are evaluated again at every update, other constant calls are not
static double tick; static double now(double s) { return tick + s; }
extern "C" void h_always()
{
  double t0 = vc_double("t0"), t1 = vc_double("t1"), a = vc_double("a"), a2 = vc_double("a2"), x = 0, y = 0, z = 0; tick = t0;
  Deck d; d.freg.registerFunction("now", now, true); d.freg.registerFunction("once", now); BlockParameters par; par.setContext(d.vars.getRootBlock());
  pParameter px = par.addParameter("x", &x), py = par.addParameter("y", &y), pz = par.addParameter("z", &z), pa = par.addParameter("a", &a, BlockParameters::readonly);
  d.parse("y = now(1.) - a; x = y*2.; z = once(3.);");
  par.evaluate();
  vc_assert(vc_near(x, 2*(t0 + 1 - a)) && vc_near(y, t0 + 1 - a) && vc_near(z, t0 + 3), "initial");
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map);
  bool rega = flip("register-a"); if (rega) up.addIndependent(pa);
  up.addDependent(px); up.addDependent(pz);
  tick = t1; if (rega) a = a2; up.update();
  vc_assert(vc_near(x, 2*(t1 + 1 - a)), "called-again"); vc_assert(vc_near(z, t0 + 3), "constant-call");
  vc_reach("x");
}
// arrays of parameters
extern "C" void h_arrays()
{
  Array<double, 2> p, q; p[0] = vc_double("p0"); p[1] = vc_double("p1"); q[0] = q[1] = 0; double r0 = vc_double("r0"), r1 = vc_double("r1");
  Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock());
  Array<pParameter, 2> pp = par.addArrayParameter("p", p, BlockParameters::readonly), pq = par.addArrayParameter("q", q);
  vc_assert(d.var("px") == pp[0]->getVariable() && d.var("py") == pp[1]->getVariable() && d.var("qy") == pq[1]->getVariable(), "names");
  define(pq[0]->getVariable(), sum(pFloatExpression(new Value<double>(1)), pp[1]->getVariable()));
  define(pq[1]->getVariable(), sum(pFloatExpression(new Value<double>(2)), pp[0]->getVariable()));
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map);
  up.addIndependentArray(pp); up.addDependentArray(pq);
  up.update(); vc_assert(vc_near(q[0], p[1] + 1) && vc_near(q[1], p[0] + 2), "first");
  p[0] = r0; p[1] = r1; up.update(); vc_assert(vc_near(q[0], r1 + 1) && vc_near(q[1], r0 + 2), "second");
  vc_assert(p[0] == r0 && p[1] == r1, "independents-are-untouched");
  vc_reach("x");
}
// long chains through local variables of the deck, several updates, two updaters on one map
static void longval(double a, double b, double *v) { double m1 = a + 1, m2 = m1*2, x = m2 - b, m3 = x + m1, m4 = m3 + m2, m5 = m4*b, y = m5 + x, z = y + m4 + a; v[0] = x; v[1] = y; v[2] = z; }
extern "C" void h_long()
{
  double a = vc_double("a"), b = vc_double("b"), x = 0, y = 0, z = 0, r[3], o[3]; typedef BlockParameters B; bool rev = flip("defined-backwards");
  Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock());
  pParameter px = par.addParameter("x", &x), py = par.addParameter("y", &y), pz = par.addParameter("z", &z), pa = par.addParameter("a", &a, B::readonly), pb = par.addParameter("b", &b, B::readonly);
  d.parse(rev ? "float m1 = a; float m2 = b; float m3 = b; float m4 = b; float m5 = b; z = y + m4 + a; y = m5 + x; m5 = m4*b; m4 = m3 + m2; m3 = x + m1; x = m2 - b; m2 = m1*2.; m1 = a + 1.;"
              : "float m1 = a + 1.; float m2 = m1*2.; x = m2 - b; float m3 = x + m1; float m4 = m3 + m2; float m5 = m4*b; y = m5 + x; z = y + m4 + a;");
  par.evaluate(); longval(a, b, r); vc_assert(vc_near(x, r[0]) && vc_near(y, r[1]) && vc_near(z, r[2]), "initial");
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map), other(map);
  up.addIndependent(pa); up.addIndependent(pb); up.addDependent(pz); other.addIndependent(pb); other.addIndependent(pa); other.addDependent(px);
  for (int i = 0; i < 3; ++i)
  {
    longval(a, b, o); a = vc_double("a"); b = vc_double("b"); longval(a, b, r); double x0 = x, y0 = y;
    if (i != 1) other.update();
    vc_assert(x == (i != 1 ? x : x0) && (i == 1 || vc_near(x, r[0])) && y == y0 && vc_near(z, o[2]), "other-updater");
    up.update(); vc_assert(vc_near(z, r[2]) && y == y0 && (i == 1 ? x == x0 : vc_near(x, r[0])), "current-after-every-update");
  }
  up.addDependent(py); a = vc_double("a"); longval(a, b, r); up.update(); vc_assert(vc_near(z, r[2]) && vc_near(y, r[1]), "added-after-updates");
  vc_reach("x");
}
// an independent parameter that is registered as a dependent as well keeps its value
extern "C" void h_independent_dependent()
{
  double a = vc_double("a"), a2 = vc_double("a2"), x = 0; Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock());
  pParameter pa = par.addParameter("a", &a, BlockParameters::readonly), px = par.addParameter("x", &x); d.parse("x = a*3.;"); par.evaluate(); vc_assert(vc_near(x, 3*a), "initial");
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map); if (flip("registered")) up.addIndependent(pa); up.addDependent(pa);
  a = a2; up.update(); vc_assert(a == a2, "independents-keep-their-values"); up.addIndependent(pa); up.addDependent(px); up.update(); vc_assert(a == a2 && vc_near(x, 3*a2), "current");
  vc_reach("x");
}
// parameters of type string and int, dependents of mixed types
extern "C" void h_types()
{
  std::string s = "short", t, u; int n = vc_int("n", -500, 500), i = 0; double x = 0; int n2 = vc_int("n2", -500, 500); bool swap = flip("order");
  Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock()); typedef BlockParameters B;
  pParameter ps = par.addParameter("s", &s, B::readonly), pn = par.addParameter("n", &n, B::readonly), pt = par.addParameter("t", &t), pu = par.addParameter("u", &u), pi = par.addParameter("i", &i), px = par.addParameter("x", &x);
  d.parse("u = t; t = s; x = i*0.5; i = 3 - n;"); d.parse("u = t; x = i*0.5;");
  par.evaluate(); vc_assert(t == "short" && u == "short" && i == 3 - n && vc_near(x, 0.5*(3 - n)), "initial");
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map);
  if (swap) { up.addIndependent(pn); up.addIndependent(ps); up.addDependent(px); up.addDependent(pu); } else { up.addIndependent(ps); up.addIndependent(pn); up.addDependent(pu); up.addDependent(px); }
  s = "a much longer string than before"; n = n2; int i0 = i; up.update();
  vc_assert(u == "a much longer string than before" && vc_near(x, 0.5*(3 - n2)), "current"); vc_assert(t == "short" && i == i0, "others-are-untouched");
  up.addDependent(pi); up.addDependent(pt); s = ""; up.update(); vc_assert(u == "" && t == "" && i == 3 - n2 && n == n2 && s == "", "current-again");
  vc_reach("x");
}
// parameters registered as independent or dependent between updates take effect at the next update
extern "C" void h_late()
{
  double a = vc_double("a"), b = vc_double("b"), c = vc_double("c"), x = 0, y = 0; typedef BlockParameters B; bool first = flip("b-first");
  Deck d; BlockParameters par; par.setContext(d.vars.getRootBlock());
  pParameter px = par.addParameter("x", &x), py = par.addParameter("y", &y), pa = par.addParameter("a", &a, B::readonly), pb = par.addParameter("b", &b, B::readonly), pc = par.addParameter("c", &c, B::readonly);
  d.parse("float m = b - c; x = a + m; y = x + b;"); par.evaluate(); double b0 = b, c0 = c;
  pDependencyMap map(new DependencyMap(d.vars.getRootBlock())); DependencyUpdater up(map);
  up.addIndependent(pa); up.addDependent(px); a = vc_double("a"); up.update(); vc_assert(vc_near(x, a + b0 - c0), "first");
  up.addIndependent(first ? pb : pc); if (first) b = vc_double("b"); else c = vc_double("c");
  up.update(); vc_assert(vc_near(x, a + b - c), "second-independent");
  up.addIndependent(first ? pc : pb); a = vc_double("a"); b = vc_double("b"); c = vc_double("c");
  up.update(); vc_assert(vc_near(x, a + b - c), "third-independent"); up.addDependent(py); up.update(); vc_assert(vc_near(y, a + b - c + b), "second-dependent");
  vc_reach("x");
}
