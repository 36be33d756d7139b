// P09: an expression in an input deck denotes its mathematical value, for all values of its variables.
// Decks go as text through the real scanner, LALR parser, parser actions, expression nodes and dependency update.
#include "deck.h"
static const int M = 512;

struct Num { bool isd; int i; double d; Num(int i_ = 0) : isd(false), i(i_), d(0) {} Num(double d_) : isd(true), i(0), d(d_) {} ~Num() {} };
static Num num(int i) { return Num(i); }
static Num num(double d) { return Num(d); }
static double asd(const Num &n) { return n.isd ? n.d : (double)n.i; }
// value of v0 op0 v1 op1 ... where all operators have equal precedence: the chain takes the widest type among its
// operands and is evaluated from left to right
static Num chain(const Num *v, const char *op, int n)
{
  bool d = false;
  for (int i = 0; i < n; ++i) d = d || v[i].isd;
  if (!d) {
    int r = v[0].i;
    for (int i = 1; i < n; ++i) { int y = v[i].i; char o = op[i - 1]; r = o == '+' ? r + y : o == '-' ? r - y : o == '*' ? r * y : r / y; }
    return num(r);
  }
  double r = asd(v[0]);
  for (int i = 1; i < n; ++i) { double y = asd(v[i]); char o = op[i - 1]; r = o == '+' ? r + y : o == '-' ? r - y : o == '*' ? r * y : r / y; }
  return num(r);
}
static bool mulop(char c) { return c == '*' || c == '/'; }
static Num value(const Num *v, const char *op, int n)
{
  Num t[8]; char to[8]; int nt = 0;
  for (int i = 0; i < n;) {
    int j = i; while (j < n - 1 && mulop(op[j])) ++j;
    t[nt] = chain(v + i, op + i, j - i + 1);
    if (j < n - 1) to[nt] = op[j];
    ++nt; i = j + 1;
  }
  return chain(t, to, nt);
}
static void name(Deck &d, bool constants, const char *n, int *p) { if (constants) d.constant(n, *p); else d.external(n, p); }
static void name(Deck &d, bool constants, const char *n, double *p) { if (constants) d.constant(n, *p); else d.external(n, p); }

// after the deck: x is constant iff its operands are; otherwise it depends on exactly the variables in the text
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
static bool mentions(const char *t, char c)
{
  for (int i = 0; t[i]; ++i) if (t[i] == c && (i == 0 || !letter(t[i - 1])) && !letter(t[i + 1])) return true;
  return false;
}
static void deps(Deck &d, bool constants, const char *text, const char *vars)
{
  pVariable x = d.var("x");
  vc_assert(x->isConstant() == constants, "constant-iff-operands-are");
  if (constants) return;
  DependenciesGetter g; DependencyList l = boost::apply_visitor(g, x->getExpression());
  unsigned n = 0; bool ok = true;
  for (int i = 0; vars[i]; ++i) { char s[2] = {vars[i], 0}; if (mentions(text, vars[i])) { ++n; ok = ok && l.count(d.var(s)->getId()) == 1; } }
  vc_assert(ok && l.size() == n, "depends-on-exactly-its-variables");
}

#define INT_EXPR(NAME, TEXT, PRE, REF) extern "C" void h_i_##NAME() { \
  int a = vc_int("a", -M, M), b = vc_int("b", -M, M), c = vc_int("c", -M, M); vc_assume(PRE); \
  bool k = vc_bool("constants"); Deck d; name(d, k, "a", &a); name(d, k, "b", &b); name(d, k, "c", &c); \
  d.parse("int x=0; x = " TEXT ";"); vc_assert(d.get<int>("x") == (REF), "value"); deps(d, k, TEXT, "abc"); vc_reach("x"); }
#define DBL_EXPR(NAME, TEXT, PRE, REF) extern "C" void h_d_##NAME() { \
  double p = vc_double("p"), q = vc_double("q"), r = vc_double("r"); vc_assume(PRE); \
  bool k = vc_bool("constants"); Deck d; name(d, k, "p", &p); name(d, k, "q", &q); name(d, k, "r", &r); \
  d.parse("float x=0.; x = " TEXT ";"); vc_assert(vc_near(d.get<double>("x"), (REF)), "value"); deps(d, k, TEXT, "pqr"); vc_reach("x"); }

INT_EXPR(neg, "-a + b", true, -a + b)
INT_EXPR(pos, "+a - b", true, a - b)
INT_EXPR(negmul, "-a*b - c", true, -(a * b) - c)
INT_EXPR(negparen, "-(a-b)-c", true, -(a - b) - c)
INT_EXPR(paren, "a-(b-c)", true, a - (b - c))
INT_EXPR(paren2, "a-(b+c)-a", true, a - (b + c) - a)
INT_EXPR(nest, "((a-b))-(c-(a-(b)))", true, (a - b) - (c - (a - b)))
INT_EXPR(mulsum, "(a-b)*c+a*(b-c)", true, (a - b) * c + a * (b - c))
INT_EXPR(divparen, "a/(b*c)", b * c != 0, a / (b * c))
INT_EXPR(lit, "2*a-3", true, 2 * a - 3)
INT_EXPR(twice, "a-a+b", true, b)
INT_EXPR(layout, " /* + */ a\n - // - 1\n\t b", true, a - b)
DBL_EXPR(divdiv, "p/(q/r)", q != 0 && r != 0, p / (q / r))
DBL_EXPR(muldiv, "p*(q/r)", r != 0, p * (q / r))
DBL_EXPR(nest, "p-(q-(r-p))", true, p - (q - (r - p)))
DBL_EXPR(negneg, "-p-q-r", true, -p - q - r)
DBL_EXPR(pow, "p^q", true, pow(p, q))
DBL_EXPR(pown, "p^-q", true, pow(p, -q))
DBL_EXPR(powpos, "p^+q", true, pow(p, q))
DBL_EXPR(powmul, "p*q^r", true, p * pow(q, r))
DBL_EXPR(powmul2, "p^q*r", true, pow(p, q) * r)
DBL_EXPR(negpow, "-p^q + r", true, -pow(p, q) + r)
DBL_EXPR(powpow, "(p^q)^r", true, pow(pow(p, q), r))
DBL_EXPR(powpow2, "p^(q^r)", true, pow(p, pow(q, r)))
DBL_EXPR(powdiv, "p/q^r/p", p != 0, p / pow(q, r) / p)
DBL_EXPR(powparen, "(p+q)^(r-p)", true, pow(p + q, r - p))

// every operator combination of a chain of four operands
static void ops4(int first)
{
  double v[4] = {vc_double("p"), vc_double("q"), vc_double("r"), vc_double("s")};
  int o2 = vc_int("o2", 0, 3), o3 = vc_int("o3", 0, 3);
  for (int i = 0; i < 4; ++i) vc_assume(v[i] != 0);
  for (int k2 = 0; k2 < 4; ++k2) for (int k3 = 0; k3 < 4; ++k3) if (o2 == k2 && o3 == k3) {
    char op[3] = {"+-*/"[first], "+-*/"[k2], "+-*/"[k3]};
    char t[] = "float x=p+q+r+s;"; t[9] = op[0]; t[11] = op[1]; t[13] = op[2];
    Deck d; d.external("p", v); d.external("q", v + 1); d.external("r", v + 2); d.external("s", v + 3);
    d.parse(t);
    Num n[4] = {num(v[0]), num(v[1]), num(v[2]), num(v[3])};
    vc_assert(vc_near(d.get<double>("x"), value(n, op, 4).d), "value");
    vc_reach("x");
  }
}
extern "C" void h_ops_add() { ops4(0); }
extern "C" void h_ops_sub() { ops4(1); }
extern "C" void h_ops_mul() { ops4(2); }
extern "C" void h_ops_div() { ops4(3); }
// integer operands: division truncates, nothing is promoted
static void iops(int first)
{
  int v[3] = {vc_int("a", -M, M), vc_int("b", -M, M), vc_int("c", -M, M)};
  int o2 = vc_int("o2", 0, 3);
  vc_assume(v[1] != 0 && v[2] != 0);
  for (int k2 = 0; k2 < 4; ++k2) if (o2 == k2) {
    char op[2] = {"+-*/"[first], "+-*/"[k2]};
    char t[] = "int x=a+b+c;"; t[7] = op[0]; t[9] = op[1];
    Deck d; d.external("a", v); d.external("b", v + 1); d.external("c", v + 2);
    d.parse(t);
    Num n[3] = {num(v[0]), num(v[1]), num(v[2])};
    vc_assert(d.get<int>("x") == value(n, op, 3).i, "value");
    vc_reach("x");
  }
}
extern "C" void h_iops_add() { iops(0); }
extern "C" void h_iops_sub() { iops(1); }
extern "C" void h_iops_mul() { iops(2); }
extern "C" void h_iops_div() { iops(3); }
// mixed operand types, every pair of operators
static void mixed(int mask)
{
  int iv[3] = {vc_int("a", -M, M), vc_int("b", -M, M), vc_int("c", -M, M)};
  double dv[3] = {vc_double("p"), vc_double("q"), vc_double("r")};
  int o1 = vc_int("o1", 0, 3), o2 = vc_int("o2", 0, 3);
  for (int i = 0; i < 3; ++i) vc_assume(iv[i] != 0 && dv[i] != 0);
  for (int k1 = 0; k1 < 4; ++k1) for (int k2 = 0; k2 < 4; ++k2) if (o1 == k1 && o2 == k2) {
    char op[2] = {"+-*/"[k1], "+-*/"[k2]};
    char t[] = "x=a+b+c;"; t[3] = op[0]; t[5] = op[1];
    Deck d; Num n[3]; double x = 0; d.constant("x", x);
    for (int i = 0; i < 3; ++i) {
      if (mask & (1 << i)) { t[2 + 2*i] = "pqr"[i]; n[i] = num(dv[i]); char s[2] = {"pqr"[i], 0}; d.external(s, dv + i); }
      else { n[i] = num(iv[i]); char s[2] = {"abc"[i], 0}; d.external(s, iv + i); }
    }
    d.parse(t);
    vc_assert(vc_near(d.get<double>("x"), asd(value(n, op, 3))), "value");
    vc_reach("x");
  }
}
extern "C" void h_mixed_1() { mixed(1); }
extern "C" void h_mixed_2() { mixed(2); }
extern "C" void h_mixed_3() { mixed(3); }
extern "C" void h_mixed_4() { mixed(4); }
extern "C" void h_mixed_5() { mixed(5); }
extern "C" void h_mixed_6() { mixed(6); }
// parenthesised integer sub-expressions keep integer arithmetic
extern "C" void h_mixed_paren()
{
  int a = vc_int("a", -M, M), b = vc_int("b", 1, M); double p = vc_double("p");
  Deck d; d.external("a", &a); d.external("b", &b); d.external("p", &p);
  d.parse("float x = p-(a-b); float y = p*(a/b); float z = (a/b)/p; float w = p+a/b; float u = p^a;");
  vc_assert(vc_near(d.get<double>("x"), p - (double)(a - b)), "p-(a-b)");
  vc_assert(vc_near(d.get<double>("y"), p * (double)(a / b)), "p*(a/b)");
  vc_assert(p == 0 || vc_near(d.get<double>("z"), (double)(a / b) / p), "(a/b)/p");
  vc_assert(vc_near(d.get<double>("w"), p + (double)(a / b)), "p+a/b");
  vc_assert(vc_near(d.get<double>("u"), pow(p, (double)a)), "p^a");
  vc_reach("x");
}
// assignment converts to the declared type of the variable
extern "C" void h_assign_convert()
{
  int a = vc_int("a", -M, M); double p = vc_double("p"); vc_assume(p > -1000 && p < 1000);
  bool k = vc_bool("constants"); Deck d; name(d, k, "a", &a); name(d, k, "p", &p);
  d.parse("int x=0; float y=0.; x = p; y = a;");
  vc_assert(d.get<int>("x") == (int)p, "float-to-int-truncates");
  vc_assert(d.get<double>("y") == (double)a, "int-to-float");
  vc_reach("x");
}
// statements take effect in order; a constant initialiser is evaluated where it stands
extern "C" void h_sequence()
{
  int a = vc_int("a", -M, M), b = vc_int("b", -M, M);
  Deck d; d.constant("a", a); d.constant("b", b);
  d.parse("int x = a, y = b; int z = x - y; x = b; int w = x - a; y = w*2;");
  vc_assert(d.get<int>("z") == a - b, "initialiser");
  vc_assert(d.get<int>("x") == b, "reassigned");
  vc_assert(d.get<int>("w") == b - a, "after-reassignment");
  vc_assert(d.get<int>("y") == 2 * (b - a), "last");
  vc_reach("x");
}
// a variable defined from others follows them
extern "C" void h_transitive()
{
  int a = vc_int("a", -M, M), b = vc_int("b", -M, M);
  Deck d; d.external("a", &a); d.external("b", &b);
  d.parse("int z = a - b; int y = z*2 - b; int x = y - z;");
  vc_assert(d.get<int>("z") == a - b && d.get<int>("y") == 2 * (a - b) - b && d.get<int>("x") == (a - b) - b, "value");
  vc_reach("x");
}
extern "C" void h_literals()
{
  Deck d;
  d.parse("int i = 1207; float f = 2.5, g = .25, h = 1e3, k = 1.5E-1, l = 3.; string s = \"ab:c\", t = 'x\"y';");
  vc_assert(d.get<int>("i") == 1207, "int"); vc_assert(d.get<double>("f") == 2.5, "float"); vc_assert(d.get<double>("g") == 0.25, "dot");
  vc_assert(d.get<double>("h") == 1000., "exp"); vc_assert(d.get<double>("k") == 0.15, "expdot"); vc_assert(d.get<double>("l") == 3., "trail");
  vc_assert(d.get<std::string>("s") == "ab:c", "string"); vc_assert(d.get<std::string>("t") == "x\"y", "single-quoted");
  vc_reach("x");
}
extern "C" void h_strings()
{
  Deck d; std::string e = "ext"; d.external("e", &e);
  d.parse("string s = \"a\", u = \"b\"; string v = s + \"-\" + u + e; string w = \"n\"+1+20; string z = (1+20)+\"n\"; string y=\"\"; y = 42;");
  vc_assert(d.get<std::string>("v") == "a-bext", "concatenation");
  vc_assert(d.get<std::string>("w") == "n120", "left-to-right");
  vc_assert(d.get<std::string>("z") == "21n", "parenthesised-sum-first");
  vc_assert(d.get<std::string>("y") == "42", "int-to-string");
  vc_reach("x");
}
// functions: argument order, conversion to the parameter types, nesting
static double f1(double u) { return -u; }
static double f2(double u, double v) { return u - 2 * v; }
static double f3(int i, double u, int j) { return i + 16 * u - j; }
static int fi(int i, int j) { return i - 3 * j; }
static double f0() { return 7; }
static void reg(Deck &d) { d.freg.registerFunction("f1", f1); d.freg.registerFunction("f2", f2); d.freg.registerFunction("f3", f3); d.freg.registerFunction("fi", fi); d.freg.registerFunction("f0", f0); }
#define FUN_EXPR(NAME, TYPE, TEXT, REF) extern "C" void h_f_##NAME() { \
  int a = vc_int("a", -M, M), b = vc_int("b", -M, M); double p = vc_double("p"), q = vc_double("q"); vc_assume(p > -1000 && p < 1000); \
  bool k = vc_bool("constants"); Deck d; name(d, k, "a", &a); name(d, k, "b", &b); name(d, k, "p", &p); name(d, k, "q", &q); reg(d); \
  TYPE x = 0; d.constant("x", x); d.parse("x = " TEXT ";"); vc_assert(vc_near(d.get<TYPE>("x"), (REF)), "value"); deps(d, k, TEXT, "abpq"); vc_reach("x"); }
FUN_EXPR(one, double, "f1(p)", -p)
FUN_EXPR(order, double, "f2(p,q)", p - 2 * q)
FUN_EXPR(conv, double, "f3(p,a,b)", (int)p + 16 * (double)a - b)
FUN_EXPR(intargs, int, "fi(a,b)", a - 3 * b)
FUN_EXPR(nest, double, "f2(f2(p,q),q-p)", (p - 2 * q) - 2 * (q - p))
FUN_EXPR(inchain, double, "p-f1(q)-f2(q,p)", p - (-q) - (q - 2 * p))
FUN_EXPR(args, double, "f2(p-q-p, -q)", (p - q - p) - 2 * -q)
FUN_EXPR(nullary, double, "p-f0()-q", p - 7 - q)
// a function registered as always-changing makes its expression non-constant
extern "C" void h_f_always()
{
  Deck d; reg(d); d.freg.registerFunction("g", f1, true); bool k = vc_bool("always");
  d.parse(k ? "float x = g(2.0);" : "float x = f1(2.0);");
  vc_assert(d.var("x")->isConstant() == !k && d.get<double>("x") == -2., "constness-and-value");
  vc_reach("x");
}
#define REJECTS(NAME, TEXT) extern "C" void h_r_##NAME() { \
  int a = vc_int("a", -M, M); Deck d; d.external("a", &a); reg(d); bool thrown = false; \
  try { d.parse(TEXT); } catch (SchnekException &) { thrown = true; } vc_assert(thrown, "rejected"); vc_reach("x"); }
REJECTS(toofew, "float x = f2(a);")
REJECTS(toomany, "float x = f2(a, a, a);")
REJECTS(nofunc, "float x = nofunction(a);")
REJECTS(undeclared, "int x = a + nothere;")
REJECTS(undeclared2, "nothere = a;")
REJECTS(readonly, "a = 5;")
REJECTS(redeclared, "int x = 1; float x = 2.0;")
REJECTS(type1, "int x = 1.5;")
REJECTS(type2, "float x = 1;")
REJECTS(type3, "string x = 1;")
REJECTS(uninitialised, "int x;")
REJECTS(syntax, "int x = a +;")
REJECTS(syntax2, "int x = (a;")
