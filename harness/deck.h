// Shared by the input-deck properties: real sources of the variables and parser modules, and text decks.
#include "vc.h"
#include "variables/variables.cpp"
#include "variables/block.cpp"
#include "variables/blockclasses.cpp"
#include "variables/blockparameters.cpp"
#include "variables/dependencies.cpp"
#include "parser/parsertoken.cpp"
#include "parser/parser.cpp"
#include "parser/deckscanner.cpp"
#include "util/exceptions.cpp"
#include <sstream>
using namespace schnek;
#ifdef VC_SYM
// stand-in for the stream object: only istream::read and gcount are used by the scanner
struct VcIn { void *vptr; long gcount; const char *s; long left; };
extern "C" void *vc_istream_read(VcIn *in, char *p, long n)
{
  long k = n < in->left ? n : in->left;
  for (long i = 0; i < k; ++i) p[i] = in->s[i];
  in->s += k; in->left -= k; in->gcount = k;
  return in;
}
#endif
struct Deck
{
  VariableStorage vars; FunctionRegistry freg; BlockClasses classes;
  Deck(bool restr = false) : vars("root", "Root"), classes(restr) {}
  template<class T> pVariable external(const char *n, T *p) { pVariable v(new Variable(std::shared_ptr<Expression<T> >(new ExternalValue<T>(p)), true, true)); vars.addVariable(n, v); return v; }
  template<class T> pVariable constant(const char *n, T p) { pVariable v(new Variable(p)); vars.addVariable(n, v); return v; }
  // exactly what a program does with a deck: Parser(...).parse(stream)
  pBlock parse(const char *text)
  {
    Parser P(vars, freg, classes);
#ifdef VC_SYM
    VcIn in = {0, 0, text, (long)strlen(text)};
    return P.parse(reinterpret_cast<std::istream&>(in));
#else
    std::istringstream in(text);
    return P.parse(in);
#endif
  }
  template<class T> T get(const char *n) { return boost::get<T>(vars.getRootBlock()->getVariable(n)->getValue()); }
  pVariable var(const char *n) { return vars.getRootBlock()->getVariable(n); }
};
