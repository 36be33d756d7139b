// Contract language for the verifier in /verif/dv.
// The same harness source is (a) compiled to LLVM IR and proved for all inputs, and
// (b) compiled natively, with vc_* provided by native.cpp, to replay counterexamples.
#ifndef VC_H_
#define VC_H_
#ifdef VC_SYM
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1      // std::string members get IR
#endif
#include <cstddef>
extern "C" {
  int    vc_int(const char *name, int lo, int hi);        // arbitrary int in [lo,hi]
  double vc_double(const char *name);                     // arbitrary real
  bool   vc_bool(const char *name);
  void   vc_assume(bool c);                               // requires
  void   vc_assert(bool c, const char *id);               // ensures
  void   vc_reach(const char *id);                        // vacuity cover
  void   vc_split(bool c);                                // ghost case split (proof hint)
  void   vc_ghost_i(const char *name, long v);            // ghost terms offered to loop-invariant templates
  void   vc_ghost_p(const char *name, const void *p);
  void   vc_watch_d(const double *p, double newval);      // cell whose history invariants must track
  void   vc_watch_i(const int *p, int newval);
  void   vc_unwatch();
  void   vc_maythrow(bool b);
  void   vc_havoc_d(double *p, long n);                   // arbitrary contents
  int    vc_is_native();
  bool   vc_live(const void *p);
  long   vc_heap_live();
  long   vc_obj_size(const void *p);                      // bytes of the allocation holding p (symbolic only)
}
// equality of computed reals: exact in the proof, up to rounding when replayed natively
static inline bool vc_near(double a, double b)
{
  if (!vc_is_native()) return a == b;
  if (a == b || (a != a && b != b)) return true;
  double d = a < b ? b - a : a - b, m = (a < 0 ? -a : a) + (b < 0 ? -b : b) + 1;
  return d <= 1e-6 * m;
}
#ifdef VC_SYM
// libstdc++.so internals that have no IR: node linking for std::list, and red-black tree insert,
// erase and traversal (without the rebalancing, which does not change the sequence of keys).
#include <list>
#include <map>
#include <string>
namespace std {
namespace __detail {
  inline void vc_hook(_List_node_base *x, _List_node_base *pos) { x->_M_next = pos; x->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = x; pos->_M_prev = x; }
}
}
extern "C" void vc_list_hook(std::__detail::_List_node_base *x, std::__detail::_List_node_base *pos) { std::__detail::vc_hook(x, pos); }
extern "C" void vc_list_unhook(std::__detail::_List_node_base *x) { x->_M_prev->_M_next = x->_M_next; x->_M_next->_M_prev = x->_M_prev; }
extern "C" void vc_list_transfer(std::__detail::_List_node_base *self, std::__detail::_List_node_base *first, std::__detail::_List_node_base *last) {
  if (self != last) {
    last->_M_prev->_M_next = self; first->_M_prev->_M_next = last; self->_M_prev->_M_next = first;
    std::__detail::_List_node_base *tmp = self->_M_prev; self->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
static void vc_list_take(std::__detail::_List_node_base *to, std::__detail::_List_node_base *from) { to->_M_next = from->_M_next; to->_M_prev = from->_M_prev; to->_M_next->_M_prev = to->_M_prev->_M_next = to; from->_M_next = from->_M_prev = from; }
extern "C" void vc_list_swap(std::__detail::_List_node_base *x, std::__detail::_List_node_base *y) {
  bool ex = x->_M_next == x, ey = y->_M_next == y;
  if (ex && ey) return;
  if (ex) { vc_list_take(x, y); return; }
  if (ey) { vc_list_take(y, x); return; }
  std::__detail::_List_node_base *n = x->_M_next, *p = x->_M_prev;
  x->_M_next = y->_M_next; x->_M_prev = y->_M_prev; y->_M_next = n; y->_M_prev = p;
  x->_M_next->_M_prev = x->_M_prev->_M_next = x; y->_M_next->_M_prev = y->_M_prev->_M_next = y;
}
typedef std::_Rb_tree_node_base VcRb;
extern "C" void vc_rb_insert(bool left, VcRb *x, VcRb *p, VcRb &h) {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = std::_S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
extern "C" VcRb *vc_rb_inc(VcRb *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { VcRb *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
extern "C" VcRb *vc_rb_dec(VcRb *x) {
  if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { VcRb *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { VcRb *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
extern "C" VcRb *vc_rb_erase(VcRb *z, VcRb &h) {
  if (h._M_left == z) h._M_left = z->_M_right ? [](VcRb *q){ while (q->_M_left) q = q->_M_left; return q; }(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? [](VcRb *q){ while (q->_M_right) q = q->_M_right; return q; }(z->_M_left) : z->_M_parent;
  VcRb *r;                                   // subtree that replaces z
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    r = z->_M_right; while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) {
      r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right; z->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  return z;
}
#endif
#endif
