// P12: blocks of a deck become the block tree, run through their life cycle in order, and find each other's data.
#include "deck.h"
#include "variables/blockcontainer.hpp"
static int pick(const char *n, int k) { int v = vc_int(n, 0, k - 1); for (int i = 0; i < k; ++i) if (v == i) return i; return 0; }
static bool flip(const char *n) { return pick(n, 2) == 1; }

enum Phase { SETUP, REG, PRE, INIT, POST };
struct Event { char who; Phase what; };
static Event ev[128]; static int nev;
static void log(char who, Phase p) { if (nev == 128) return; ev[nev].who = who; ev[nev].what = p; ++nev; }
struct Node : public Block
{
  int x, y; double z; std::string s; bool sawParent;
  static int made;
  Node() : x(0), y(0), z(0), sawParent(true) { ++made; }
  char who() { return getName()[0]; }
  void initParameters(BlockParameters &p) { log(who(), SETUP); p.addParameter("x", &x); p.addParameter("y", &y, 42); p.addParameter("z", &z, 1.5); p.addParameter("s", &s, std::string("dflt")); }
  void registerData() { log(who(), REG); addData(std::string("d") + who(), x); addData("own", x); if (x > 0) addData("some", y); }
  void preInit() { log(who(), PRE); }
  void init() { log(who(), INIT); }
  void postInit() { log(who(), POST); }
  BlockList kids() { return getChildren(); }
  pBlockVariables all() { return getVariables(); }
  pBlockVariables own() { return getLocalVariables(); }
};
int Node::made = 0;
static int at(char who, Phase p) { int n = 0, r = -1; for (int i = 0; i < nev; ++i) if (ev[i].who == who && ev[i].what == p) { r = i; ++n; } return n == 1 ? r : -1; }

// trees over the blocks r (root), a, b, c, d: every parent function with parent[i] before i
static const int NB = 5;
static Node *kid(Node *n, int i) { BlockList l = n->kids(); BlockList::iterator it = l.begin(); for (; i > 0 && it != l.end(); --i) ++it; return it == l.end() ? 0 : static_cast<Node*>(it->get()); }
static void tree(int pc)
{
  int par[NB] = {-1, 0, pick("pb", 2), pc, 0}; par[4] = pick("pd", 4);
  vc_assume(par[3] <= 2);
  // decks list blocks depth first; d and c must not sit in a block closed before: all orders with parent before child are depth-first writable
  Deck d; d.classes.registerBlock("Root").setClass<Node>(); d.classes.registerBlock("N").setClass<Node>();
  char t[256]; int p = 0; const char *names = "rabcd"; int order[NB], n = 0;
  const char *pre = "x=1;"; for (int i = 0; pre[i]; ++i) t[p++] = pre[i];
  int stack[NB], sp = 0, next[NB]; for (int i = 0; i < NB; ++i) next[i] = 1; stack[sp++] = 0; order[n++] = 0;
  while (sp) {
    int b = stack[sp - 1]; int c = -1;
    while (next[b] < NB) { int k = next[b]++; if (par[k] == b) { c = k; break; } }
    if (c < 0) { if (--sp) { t[p++] = '}'; } continue; }
    t[p++] = 'N'; t[p++] = ' '; t[p++] = names[c]; t[p++] = '{'; t[p++] = 'x'; t[p++] = '='; t[p++] = '0' + c + 1; t[p++] = ';';
    stack[sp++] = c; order[n++] = c;
  }
  t[p] = 0; nev = 0; Node::made = 0;
  d.vars = VariableStorage("root", "Root");
  pBlock root = d.parse(t); Node *nd[NB]; nd[0] = static_cast<Node*>(root.get());
  vc_assert(nd[0] && nd[0]->getName() == "root" && !nd[0]->getParent() && Node::made == NB, "one-block-each");
  for (int i = 1; i < NB; ++i) {
    int rank = 0; for (int j = 1; j < i; ++j) if (par[j] == par[i]) ++rank;
    nd[i] = kid(nd[par[i]], rank); char nm[2] = {names[i], 0};
    vc_assert(nd[i] && nd[i]->getName() == nm && nd[i]->getParent().get() == nd[par[i]], "nesting");
    vc_assert(nd[i]->all() == d.vars.getRootBlock() && nd[i]->own()->getBlockName() == nm && nd[i]->own()->getParent() == nd[par[i]]->own(), "variables-of-the-block-and-of-the-root");
  }
  for (int i = 0; i < NB; ++i) { int k = 0; for (int j = 1; j < NB; ++j) if (par[j] == i) ++k; vc_assert((int)nd[i]->kids().size() == k, "children"); }
  nd[pick("start", 2) * 3]->initAll();
  vc_assert(nev == 5 * NB, "each-phase-once-per-block");
  for (int ph = SETUP; ph <= POST; ++ph) for (int k = 0; k < NB; ++k) vc_assert(ev[ph * NB + k].what == ph && ev[ph * NB + k].who == nd[order[k]]->who(), "phases-in-order-parents-before-children");
  for (int i = 0; i < NB; ++i) vc_assert(nd[i]->x == i + 1 && nd[i]->y == 42, "parameters");
  vc_reach("x");
}
extern "C" void h_tree_0() { tree(0); }
extern "C" void h_tree_1() { tree(1); }
extern "C" void h_tree_2() { tree(2); }

// parameters: set from the deck, default, missing, read-only, constants
struct Par : public Block
{
  int i, j, k; double f, g; std::string s, u; double ro; Array<double, 3> v; Array<int, 2> w; Array<double, 2> q;
  Par() : i(0), j(0), k(-1), f(0), g(0), ro(0) { v = 0.0; w = 0; q = 0.0; last = this; }
  static Par *last; static int dj; static double dg, dro, q0, q1; static bool missing;
  void initParameters(BlockParameters &p)
  {
    if (missing) p.addParameter("missing", &k); 
    p.addParameter("i", &i); p.addParameter("j", &j, dj); p.addParameter("f", &f); p.addParameter("g", &g, dg); p.addParameter("s", &s); p.addParameter("u", &u, std::string("deflt"));
    p.addParameter("ro", &ro, dro, BlockParameters::readonly); p.addConstant("cc", 17); p.addConstant("cd", 2.5);
    p.addArrayParameter("v", v); p.addArrayParameter("w", w, 7); Array<double, 2> dq(q0, q1); p.addArrayParameter("q", q, dq, BlockParameters::readwrite, "mn");
  }
};
Par *Par::last; int Par::dj; double Par::dg, Par::dro, Par::q0, Par::q1; bool Par::missing;
extern "C" void h_parameters()
{
  int a = vc_int("a", -500, 500); double p = vc_double("p"); Par::dj = vc_int("dj", -500, 500); Par::dg = vc_double("dg"); Par::dro = vc_double("dro"); Par::q0 = vc_double("q0"); Par::q1 = vc_double("q1"); Par::missing = false;
  bool set = flip("set-defaulted"); Deck d; d.vars = VariableStorage("root", "Root"); d.constant("a", a); d.external("p", &p); d.classes.registerBlock("Root"); d.classes.registerBlock("P").setClass<Par>();
  pBlock b = d.parse(set ? "P one { i = a - 1; f = p + ro; s = \"txt\"; vx = 1.; vy = p; vz = 3.; j = cc + 1; g = cd*2.; u = \"other\"; wx = a; qn = p; }"
                         : "P one { i = a - 1; f = p + ro; s = \"txt\"; vx = 1.; vy = p; vz = 3.; }");
  Par *x = Par::last; vc_assert(x == b.get() && x->ro == Par::dro, "read-only-default-at-once"); 
  b->initAll();
  vc_assert(x->i == a - 1 && vc_near(x->f, p + Par::dro) && x->s == "txt" && x->ro == Par::dro, "set"); vc_assert(x->v[0] == 1 && x->v[1] == p && x->v[2] == 3, "array");
  vc_assert(x->j == (set ? 18 : Par::dj) && x->g == (set ? 5.0 : Par::dg) && x->u == (set ? "other" : "deflt"), "default"); vc_assert(x->w[0] == (set ? a : 7) && x->w[1] == 7, "array-default");
  vc_assert(x->q[0] == Par::q0 && x->q[1] == (set ? p : Par::q1), "array-of-defaults"); vc_assert(x->k == -1, "others-untouched");
  vc_reach("x");
}
#define REJECTS(NAME, MISSING, TEXT) extern "C" void h_r_##NAME() { \
  int a = vc_int("a", -500, 500); Par::dj = a; Par::missing = MISSING; Deck d; d.vars = VariableStorage("root", "Root"); d.constant("a", a); d.classes.registerBlock("Root"); d.classes.registerBlock("P").setClass<Par>(); bool thrown = false; \
  try { pBlock b = d.parse(TEXT); b->initAll(); } catch (SchnekException &) { thrown = true; } vc_assert(thrown, "rejected"); vc_reach("x"); }
#define ALLSET "P one { i = a; f = 1.; s = \"t\"; vx = 1.; vy = 2.; vz = 3.; "
REJECTS(missing, true, ALLSET "}")
REJECTS(missing2, false, "P one { i = a; f = 1.; vx = 1.; vy = 2.; vz = 3.; }")
REJECTS(missing3, false, "P one { i = a; f = 1.; s = \"t\"; vx = 1.; vy = 2.; }")
REJECTS(readonly, false, ALLSET "ro = 1.; }")
REJECTS(constant, false, ALLSET "cc = 3; }")
REJECTS(unknown, false, ALLSET "nosuch = 3; }")
extern "C" void h_allset() { Par::missing = false; Deck d; d.vars = VariableStorage("root", "Root"); d.constant("a", 3); d.classes.registerBlock("Root"); d.classes.registerBlock("P").setClass<Par>(); pBlock b = d.parse(ALLSET "}"); b->initAll(); vc_int("unused", 0, 0); vc_assert(Par::last->i == 3, "accepted"); vc_reach("x"); }

// allowed children
static void allowed(bool restr)
{
  bool ab = flip("root-allows-A"), bb = flip("A-allows-B"), ca = flip("A-allows-A");
  Deck d(restr); d.vars = VariableStorage("root", "Root"); d.classes.registerBlock("Root"); d.classes.registerBlock("A").setClass<Node>(); d.classes.registerBlock("B").setClass<Node>();
  if (ab) d.classes("Root").addChildren("C")("A"); else d.classes("Root").addChildren("B")("C");
  if (bb) d.classes("A").addChildren("B"); if (ca) d.classes("A").addChildren("C")("A");
  vc_assert(d.classes.hasChild("Root", "A") == ab && d.classes.hasChild("Root", "B") == !ab && d.classes.hasChild("A", "B") == bb && d.classes.hasChild("A", "A") == ca && !d.classes.hasChild("B", "A"), "hasChild");
  bool nf = false; try { d.classes.hasChild("Nope", "A"); } catch (BlockNotFoundException &) { nf = true; } vc_assert(nf, "unknown-class");
  vc_assert(d.classes.get("A").hasBlockFactory() && !d.classes.get("Root").hasBlockFactory(), "factories");
  bool thrown = false; bool inner = flip("inner-is-A");
  try { d.parse(inner ? "A a { A i {} }" : "A a { B i {} }"); } catch (SchnekException &) { thrown = true; }
  vc_assert(thrown == (restr && !(ab && (inner ? ca : bb))), "accepted-iff-allowed");
  vc_reach("x");
}
extern "C" void h_allowed_restricted() { allowed(true); }
extern "C" void h_allowed_free() { allowed(false); }

// classes without a factory are transparent: their blocks belong to the enclosing real block
extern "C" void h_transparent()
{
  bool k = flip("nested"); Deck d; d.vars = VariableStorage("root", "Root"); d.classes.registerBlock("Root").setClass<Node>(); d.classes.registerBlock("N").setClass<Node>();
  int u = vc_int("u", -500, 500); d.constant("u", u); nev = 0;
  pBlock r = d.parse(k ? "x=0; Plain p { Plain q { N a { x = u; } } N b { x = 2; Plain z { } N c { x = 3; } } } N d { x = 4; }" : "x=0; N a { x = u; } Plain p { Plain q { } } N b { x = 2; Plain z { N c { x = 3; } } } N d { x = 4; }");
  Node *n = static_cast<Node*>(r.get()); vc_assert(n->kids().size() == 3, "children-of-root");
  vc_assert(kid(n, 0)->who() == 'a' && kid(n, 1)->who() == 'b' && kid(n, 2)->who() == 'd' && kid(kid(n, 1), 0)->who() == 'c' && kid(n, 1)->kids().size() == 1 && kid(n, 0)->kids().empty() && kid(n, 2)->kids().empty(), "tree");
  r->initAll(); vc_assert(kid(n, 0)->x == u && kid(n, 1)->x == 2 && kid(kid(n, 1), 0)->x == 3 && kid(n, 2)->x == 4, "parameters");
  vc_reach("x");
}
// containers collect their children of the right type in deck order
struct Item : public ChildBlock<Item> { int x; void initParameters(BlockParameters &p) { p.addParameter("x", &x, 0); } };
struct Box : public Block, public BlockContainer<Item> { int sum(int *a) { int n = 0; for (std::shared_ptr<Item> i : childBlocks()) a[n++] = i->x; return numChildren() == (size_t)n ? n : -1; } };
extern "C" void h_container()
{
  int u = vc_int("u", -500, 500); Deck d; d.vars = VariableStorage("root", "Root"); d.constant("u", u); d.classes.registerBlock("Root").setClass<Box>(); d.classes.registerBlock("I").setClass<Item>(); d.classes.registerBlock("N").setClass<Node>();
  pBlock r = d.parse("I a { x = u; } N n { x = 1; I inner { x = 9; } } I b { x = 2; } I c {}"); r->initAll();
  int a[8]; Box *b = static_cast<Box*>(r.get()); vc_assert(b->sum(a) == 3 && a[0] == u && a[1] == 2 && a[2] == 0, "own-children-in-order");
  vc_reach("x");
}
// groups
extern "C" void h_group()
{
  ParametersGroup g; int n = 0; BlockParameters bp; VariableStorage st("r", "R"); bp.setContext(st.getRootBlock()); int v[4]; pParameter p[4]; bool in[4]; std::set<long> ids; bool all = true;
  for (int i = 0; i < 4; ++i) { char nm[2] = {"abcd"[i], 0}; p[i] = bp.addParameter(nm, &v[i]); in[i] = flip("in"); if (in[i]) { if (i & 1) g.add(p[i]); else g.add(p[i]->getVariable()); } }
  for (int i = 0; i < 4; ++i) vc_assert(g.isElement(p[i]) == in[i] && g.isElement(p[i]->getVariable()) == in[i], "element");
  ids.insert(p[0]->getVariable()->getId()); ids.insert(p[1]->getVariable()->getId()); ids.insert(p[3]->getVariable()->getId()); all = in[0] && in[1] && in[3];
  vc_assert(g.hasElements(ids) == all, "hasElements"); 
  vc_assert(ids.count(p[0]->getVariable()->getId()) == (in[0] ? 0u : 1u) && ids.count(p[1]->getVariable()->getId()) == (in[1] ? 0u : 1u) && ids.count(p[3]->getVariable()->getId()) == (in[3] ? 0u : 1u) && ids.size() == (in[0] ? 0u : 1u) + (in[1] ? 0u : 1u) + (in[3] ? 0u : 1u), "remaining");
  vc_reach("x");
}
// data: r { a { b {} c {} } d { b {} } }
struct Plain : public Block {};
static const int ND = 6; static const int DPAR[ND] = {-1, 0, 1, 1, 0, 4}; static const char *DNAME[ND] = {"r", "a", "b", "c", "d", "b"};
struct DataTree
{
  pBlock blk[ND]; int val[ND]; double other[ND];
  DataTree() { BlockTree t; mk(t, 0); }
  void mk(BlockTree &t, int i)
  {
    blk[i] = pBlock(new Plain); blk[i]->setName(DNAME[i]); t.addChild(blk[i]);
    for (int j = 1; j < ND; ++j) if (DPAR[j] == i) mk(t, j);
    t.moveUp();
  }
};
static bool below(int b, int anc) { for (; b >= 0; b = DPAR[b]) if (b == anc) return true; return false; }
// number of blocks of the subtree at b whose data would be found going down: a block hides what is below it
static int visible(int b, const bool *has, int &which)
{
  if (has[b]) { which = b; return 1; }
  int n = 0; for (int j = 1; j < ND; ++j) if (DPAR[j] == b) n += visible(j, has, which);
  return n;
}
static void check(DataTree &t, int b, const char *key, int r)   // r: index, -1 not found, -2 ambiguous
{
  int v = -7, *p = 0; int out = 0, outp = 0;
  try { t.blk[b]->retrieveData(key, v); } catch (VariableNotFoundException &) { out = -1; } catch (DuplicateVariableException &) { out = -2; }
  try { t.blk[b]->retrieveData(key, p); } catch (VariableNotFoundException &) { outp = -1; } catch (DuplicateVariableException &) { outp = -2; }
  vc_assert(out == (r < 0 ? r : 0) && outp == out, "found-iff-unique");
  if (r >= 0) vc_assert(v == t.val[r] && p == &t.val[r], "the-right-data"); else vc_assert(v == -7 && (r == -2 || p == 0), "untouched-if-not-found");
}
extern "C" void h_data()
{
  DataTree t; bool has[ND];
  for (int i = 0; i < ND; ++i) { has[i] = flip("has"); t.val[i] = vc_int("v", -1000, 1000); t.blk[i]->addData(i % 2 ? "k2" : "kk", t.val[i]); t.blk[i]->addData("k", t.other[i]); if (has[i]) t.blk[i]->addData("k", t.val[i]); }
  int b = pick("block", ND);
  int r = -1; for (int c = b; c >= 0 && r < 0; c = DPAR[c]) if (has[c]) r = c;      // the nearest enclosing block
  if (r < 0) { int w = -1, n = visible(0, has, w); r = n == 1 ? w : n == 0 ? -1 : -2; }   // otherwise a unique one anywhere
  check(t, b, "k", r);
  vc_reach("x");
}
extern "C" void h_data_paths()
{
  DataTree t; bool h2 = flip("a.b"), h5 = flip("d.b"), h1 = flip("a"), h3 = flip("c");
  for (int i = 0; i < ND; ++i) t.val[i] = vc_int("v", -1000, 1000);
  if (h1) t.blk[1]->addData("k", t.val[1]); if (h2) t.blk[2]->addData("k", t.val[2]); if (h3) t.blk[3]->addData("k", t.val[3]); if (h5) t.blk[5]->addData("k", t.val[5]);
  int b = pick("block", ND);
  check(t, b, "a.b.k", h2 ? 2 : -1);
  check(t, b, "d.b.k", h5 ? 5 : -1);
  int any = h2 && h5 ? -2 : h2 ? 2 : h5 ? 5 : -1;
  check(t, b, "b.k", below(b, 1) && h2 ? 2 : below(b, 4) && h5 ? 5 : any);
  check(t, b, "a.k", h1 ? 1 : h2 && h3 ? -2 : h2 ? 2 : h3 ? 3 : -1);
  check(t, b, "x.k", -1);
  vc_reach("x");
}
// data registered as a pointer is found as the pointer and dereferenced once
extern "C" void h_data_pointer()
{
  pBlock a(new Plain), b(new Plain); BlockTree t; t.addChild(a); t.addChild(b); int x = vc_int("x", -9, 9), y = vc_int("y", -9, 9); int *px = &x;
  a->addData("p", px); int *q = 0; b->retrieveData("p", q); vc_assert(q == &x, "pointer-data");
  int **qq = 0; b->retrieveData("p", qq); vc_assert(qq == &px, "pointer-to-pointer");
  px = &y; b->retrieveData("p", q); vc_assert(q == &y, "latest-registration");
  a->addData("v", x); a->addData("v", y); int v = 0; a->retrieveData("v", v); vc_assert(v == y, "registered-again");
  vc_reach("x");
}
// blocks of the same name side by side (blocks of different classes without a factory give such trees): r { n { n {} } n {} m {} }
extern "C" void h_data_same()
{
  pBlock r(new Plain), n1(new Plain), n2(new Plain), n4(new Plain), m(new Plain); BlockTree t; n1->setName("n"); n2->setName("n"); n4->setName("n"); m->setName("m"); r->setName("r");
  t.addChild(r); t.addChild(n1); t.addChild(n4); t.moveUp(); t.moveUp(); t.addChild(n2); t.moveUp(); t.addChild(m);
  bool h1 = flip("h1"), h2 = flip("h2"), h4 = flip("h4"), up = flip("from-m"); int x1 = vc_int("x", -9, 9), x2 = vc_int("x", -9, 9), x4 = vc_int("x", -9, 9);
  if (h1) n1->addData("k", x1); if (h2) n2->addData("k", x2); if (h4) n4->addData("k", x4);
  int v = 77; int out = 0; try { (up ? m : r)->retrieveData("n.k", v); } catch (VariableNotFoundException &) { out = -1; } catch (DuplicateVariableException &) { out = -2; }
  vc_assert(out == ((h1 || h4) && h2 ? -2 : h1 || h4 || h2 ? 0 : -1), "ambiguous-path-is-reported");
  if (out == 0) vc_assert(v == (h1 ? x1 : h4 ? x4 : x2), "the-right-data"); else vc_assert(v == 77, "untouched-if-not-found");
  vc_reach("x");
}
// parameters with a group of allowed dependencies: required unless a default is given
struct Grp : public Block
{
  int a, b; double c; pParameter pa, pb; Array<double, 3> v; Array<double, 1> w; static Grp *last; static bool all; Grp() : a(-1), b(-1), c(-1) { last = this; v = 0.0; w[0] = 6; }
  pParametersGroup g;
  void initParameters(BlockParameters &p)
  {
    g = pParametersGroup(new ParametersGroup()); Array<pParameter, 3> pv = p.addArrayParameter("v", v, 4.0, BlockParameters::readwrite, "abc"); p.addArrayParameter("w", w, BlockParameters::readonly, "k"); g->addArray(pv);
    pa = p.addParameter("a", &a, g); pb = p.addParameter("b", &b, g, true, 9); p.addParameter("c", &c, g, true, 2.5, BlockParameters::readonly);
    all = pa->getAllowedDeps() == g && g->isElement(pv[0]) && g->isElement(pv[1]) && g->isElement(pv[2]) && !g->isElement(pa);
  }
};
Grp *Grp::last; bool Grp::all;
extern "C" void h_group_parameters()
{
  int k = vc_int("k", -99, 99); bool setA = flip("set-a"), setB = flip("set-b"), thrown = false; Deck d; d.constant("k", k); d.classes.registerBlock("Root"); d.classes.registerBlock("G").setClass<Grp>();
  pBlock b; try { b = d.parse(setA ? (setB ? "G x { a = k; b = k + 1; }" : "G x { a = k; }") : setB ? "G x { b = k + 1; }" : "G x { }"); b->initAll(); } catch (VariableNotInitialisedException &) { thrown = true; }
  vc_assert(thrown == !setA, "required-without-a-default"); vc_assert(Grp::all, "group-of-the-parameter");
  if (!thrown) vc_assert(Grp::last->a == k && Grp::last->b == (setB ? k + 1 : 9) && Grp::last->c == 2.5 && Grp::last->v[2] == 4.0 && Grp::last->w[0] == 6, "values"); 
  vc_reach("x");
}
