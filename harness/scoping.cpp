// P11: a name in a block denotes the variable of the innermost enclosing block that has it; block:name paths, declarations.
#include "deck.h"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }
static const int N = 5;
// tree:  0 root { 1 a { 2 b { 3 a } }  4 c {} }
static const int PARENT[N] = {-1, 0, 1, 2, 0};
static const char *NAME[N] = {"r", "a", "b", "a", "c"};

struct Tree
{
  VariableStorage st; pBlockVariables blk[N]; pVariable v[N], w[N]; bool has[N];
  Tree() : st(NAME[0], "R")
  {
    blk[0] = st.getRootBlock();
    for (int i = 1; i < N; ++i) {
      blk[i] = pBlockVariables(new BlockVariables(NAME[i], "K", blk[PARENT[i]]));
      vc_assert(blk[PARENT[i]]->addChild(blk[i]), "new-child-is-added");
    }
  }
};
// reference: the variable of block b reached by path elements path[k..n-1] naming blocks, then variable presence `has`
static int child(int b, const char *n) { for (int i = 1; i < N; ++i) if (PARENT[i] == b && (NAME[i][0] == n[0] && !NAME[i][1] && !n[1])) return i; return -1; }
static int down(int b, const char *const *path, int n, const bool *has)
{
  for (int k = 0; k < n; ++k) { b = child(b, path[k]); if (b < 0) return -1; }
  return has[b] ? b : -1;
}
// the search goes outwards until a block has the first element of the path, and from there only downwards
static int resolve(int b, const char *const *path, int n, const bool *has)
{
  for (; b >= 0; b = PARENT[b]) {
    if (n == 0) { if (has[b]) return b; }
    else if (child(b, path[0]) >= 0) return down(b, path, n, has);
  }
  return -1;
}
static void lookup(int b, const char *const *path, int n, const char *query)
{
  Tree t;
  for (int i = 0; i < N; ++i) {
    t.has[i] = flip("has");
    t.w[i] = pVariable(new Variable(100 + i)); t.blk[i]->addVariable(i == 2 ? "w" : "vv", t.w[i]);     // other names never match
    if (t.has[i]) { t.v[i] = pVariable(new Variable(i)); t.blk[i]->addVariable("v", t.v[i]); }
  }
  int r = resolve(b, path, n, t.has);
  vc_assert(t.blk[b]->exists(query) == (r >= 0), "exists-iff-visible");
  pVariable found; bool thrown = false;
  try { found = t.blk[b]->getVariable(query); } catch (VariableNotFoundException &) { thrown = true; }
  vc_assert(thrown == (r < 0), "found-iff-visible");
  if (r >= 0) vc_assert(found == t.v[r], "innermost-variable");
  for (int i = 0; i < N; ++i) vc_assert(t.blk[i]->getVariables().size() == (t.has[i] ? 2u : 1u), "search-adds-nothing");
  vc_reach("x");
}
#define L(NAME, Q, ...) extern "C" void h_lookup_##NAME() { const char *p[] = {__VA_ARGS__}; int n = sizeof(p) / sizeof(*p) - 1; int b = pick("block", N); lookup(b, p, n, Q); }
L(plain, "v", "")
L(a, "a:v", "a", "")
L(b, "b:v", "b", "")
L(c, "c:v", "c", "")
L(ab, "a:b:v", "a", "b", "")
L(ba, "b:a:v", "b", "a", "")
L(aba, "a:b:a:v", "a", "b", "a", "")
L(none, "d:v", "d", "")
L(noneb, "a:d:v", "a", "d", "")

// declarations
extern "C" void h_declare()
{
  VariableStorage s("r", "R"); pVariable v(new Variable(1)), u(new Variable(2.0));
  s.addVariable("v", v); bool thrown = false;
  try { s.addVariable("v", u); } catch (DuplicateVariableException &) { thrown = true; }
  vc_assert(thrown && s.getRootBlock()->getVariable("v") == v, "redeclaration-is-rejected");
  pBlockVariables a = s.createBlock("a", "K");
  vc_assert(s.getCurrentBlock() == a && a->getParent() == s.getRootBlock() && a->getBlockName() == "a" && a->getClassName() == "K", "block");
  s.addVariable("v", u); vc_assert(a->getVariable("v") == u && s.getRootBlock()->getVariable("v") == v, "shadowing");
  pBlockVariables b = s.createBlock("a", "L"); vc_assert(b->getParent() == a && a->getChildren().size() == 1, "nested-block-of-the-same-name");
  s.cursorUp(); vc_assert(s.getCurrentBlock() == a, "up"); s.cursorUp(); vc_assert(s.getCurrentBlock() == s.getRootBlock(), "up");
  s.cursorUp(); vc_assert(s.getCurrentBlock() == s.getRootBlock(), "root-stays");
  thrown = false; try { s.createBlock("a", "M"); } catch (DuplicateBlockException &) { thrown = true; }
  vc_assert(thrown && s.getRootBlock()->getChildren().size() == 1 && s.getCurrentBlock() == s.getRootBlock(), "duplicate-block-is-rejected");
  pBlockVariables c = s.createBlock("c", "K"); s.createBlock("d", "K"); s.resetCursor();
  vc_assert(s.getCurrentBlock() == s.getRootBlock() && s.getRootBlock()->getChildren().size() == 2 && s.getRootBlock()->getChildren().front() == a && s.getRootBlock()->getChildren().back() == c, "order-of-blocks");
  VariableStorage t(s); t.addVariable("z", u); vc_assert(s.getRootBlock()->exists("z"), "copies-share-the-tree");
  vc_reach("x");
}
// a variable keeps its type and value; ids identify variables; read-only and ill-typed assignments change nothing
template<class T, class U> static void variable(T x, T y, U z, Variable::VariableTypeInfo type)
{
  bool init = flip("initialised"), ro = flip("readonly");
  Variable a(x, init, ro), b(y), c(z), d(a);
  vc_assert(a.getType() == type && a.isConstant() && a.isInitialised() == init && a.isReadOnly() == ro && boost::get<T>(a.getValue()) == x, "as-constructed");
  vc_assert(a.getId() != b.getId() && b.getId() != c.getId() && a.getId() != c.getId(), "different-variables-have-different-ids");
  vc_assert(d.getId() == a.getId() && d.getType() == type && d.isInitialised() == init && d.isReadOnly() == ro && boost::get<T>(d.getValue()) == x, "copy");
  long ida = a.getId(); bool mism = false, rdonly = false;
  try { a = c; } catch (TypeMismatchException &) { mism = true; }
  vc_assert(mism && a.getId() == ida && boost::get<T>(a.getValue()) == x && a.isInitialised() == init, "ill-typed-assignment");
  try { a = b; } catch (ReadOnlyAssignmentException &) { rdonly = true; }
  vc_assert(rdonly == ro, "read-only");
  if (ro) vc_assert(a.getId() == ida && boost::get<T>(a.getValue()) == x && a.isInitialised() == init, "read-only-unchanged");
  else vc_assert(a.getId() == b.getId() && boost::get<T>(a.getValue()) == y && a.isInitialised() && !a.isReadOnly(), "assigned");
  vc_assert(boost::get<T>(d.getValue()) == x && boost::get<T>(b.getValue()) == y, "others-unchanged");
  vc_assert(boost::get<T>(b.evaluate()) == y, "evaluate");
  vc_reach("x");
}
extern "C" void h_variable_int() { variable(vc_int("x", -1000, 1000), vc_int("y", -1000, 1000), vc_double("z"), Variable::int_type); }
extern "C" void h_variable_float() { variable(vc_double("x"), vc_double("y"), vc_int("z", -1000, 1000), Variable::float_type); }
extern "C" void h_variable_string() { variable(std::string("abc"), std::string("a longer string than fits"), vc_double("z"), Variable::string_type); }
// expression variables follow their expression when evaluated
template<class T> static void variable_expression(T p, T q, T k, T l, Variable::VariableTypeInfo type)
{
  bool init = flip("initialised"), ro = flip("readonly");
  std::shared_ptr<Expression<T> > e(new ExternalValue<T>(&p)); Variable a(e, init, ro), b(a), c(k);
  vc_assert(!a.isConstant() && a.getType() == type && a.isReadOnly() == ro && a.isInitialised() == init, "as-constructed");
  vc_assert(boost::get<T>(a.evaluateExpression()) == p && boost::get<T>(a.getValue()) == p, "evaluated");
  p = q; vc_assert(boost::get<T>(a.evaluate()) == q && boost::get<T>(b.evaluate()) == q, "evaluated-again");
  c = a; vc_assert(!c.isConstant() && c.getId() == a.getId() && c.isInitialised() == init && boost::get<T>(c.evaluate()) == q, "assigned-expression");
  Variable d(l); c = d; vc_assert(c.isConstant() && boost::get<T>(c.evaluate()) == l, "back-to-constant");
  Variable f(e); vc_assert(f.isInitialised() && !f.isReadOnly() && !f.isConstant() && d.isInitialised() && !d.isReadOnly(), "plain-construction");
  vc_reach("x");
}
extern "C" void h_variable_expression() { double p = vc_double("p"), q = vc_double("q"); variable_expression(p, q, 1.5, 2.5, Variable::float_type); }
extern "C" void h_variable_expression_int() { int p = vc_int("p", -1000, 1000), q = vc_int("q", -1000, 1000); variable_expression(p, q, 3, 4, Variable::int_type); }
extern "C" void h_variable_expression_string() { variable_expression(std::string("abc"), std::string("a longer string than fits"), std::string("k"), std::string("l"), Variable::string_type); }
// decks: nested blocks, shadowing, assignment to the innermost, paths, siblings do not see each other
extern "C" void h_deck_shadow()
{
  int k = vc_int("k", -500, 500), l = vc_int("l", -500, 500), m = vc_int("m", -500, 500);
  bool decl = flip("redeclared"); Deck d; d.constant("k", k); d.constant("l", l); d.constant("m", m); d.constant("v", k);
  d.parse(decl ? "int o = v; A a { int v = l; int r = v - 1; B b { int v = m; int q = v + 2; v = 7; } int s = v; } int t = v; A c { int u = v; v = 9; }"
               : "int o = v; A a { v = l; int r = v - 1; B b { v = m; int q = v + 2; v = 7; } int s = v; } int t = v; A c { int u = v; v = 9; }");
  vc_assert(d.get<int>("o") == k, "outer"); vc_assert(d.get<int>("a:r") == l - 1, "in-block"); vc_assert(d.get<int>("a:b:q") == m + 2, "in-nested-block");
  vc_assert(d.get<int>("a:s") == (decl ? l : 7), "after-nested-block"); vc_assert(d.get<int>("t") == (decl ? k : 7), "after-block"); vc_assert(d.get<int>("c:u") == (decl ? k : 7), "sibling");
  vc_assert(d.get<int>("v") == 9, "innermost-visible-is-assigned");
  if (decl) vc_assert(d.get<int>("a:v") == l && d.get<int>("a:b:v") == 7, "own-copies");
  else { bool gone = false; try { d.var("a:v"); } catch (VariableNotFoundException &) { gone = true; } vc_assert(gone, "not-declared-there"); }
  vc_reach("x");
}
#define REJECTS(NAME, TEXT) extern "C" void h_r_##NAME() { \
  int k = vc_int("k", -500, 500); Deck d; d.constant("k", k); bool thrown = false; \
  try { d.parse(TEXT); } catch (SchnekException &) { thrown = true; } vc_assert(thrown, "rejected"); vc_reach("x"); }
REJECTS(inner, "A a { int v = k; } int w = v;")
REJECTS(sibling, "A a { int v = k; } A b { int w = v; }")
REJECTS(path, "A a { int v = k; } int w = b:v;")
REJECTS(dup, "A a { } A a { }")
REJECTS(dup2, "A a { int v = 1; int v = 2; }")
REJECTS(close, "A a { } }")
extern "C" void h_deck_paths()
{
  int k = vc_int("k", -500, 500), l = vc_int("l", -500, 500); Deck d; d.constant("k", k); d.constant("l", l);
  d.parse("A a { int v = k; B b { int v = l; int w = a:v - v; } int x = b:v; } int y = a:v, z = a:b:v; A c { int p = a:b:w; a:v = 3; }");
  vc_assert(d.get<int>("a:b:w") == k - l && d.get<int>("a:x") == l && d.get<int>("y") == k && d.get<int>("z") == l && d.get<int>("c:p") == k - l && d.get<int>("a:v") == 3, "paths");
  vc_reach("x");
}
extern "C" void h_deck_unnamed()
{
  int k = vc_int("k", -500, 500); Deck d; d.constant("k", k);
  d.parse("A { int v = k; B { int v = k - 1; } } int w = A:v, u = A:B:v;");
  vc_assert(d.get<int>("w") == k && d.get<int>("u") == k - 1, "block-without-name-is-named-after-its-class");
  vc_reach("x");
}
