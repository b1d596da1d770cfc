// C/C++ runtime models for the symbolic run, compiled to IR and executed by the engine.
// Every function here is a stand-in for libc/libstdc++/zlib behaviour (part of the trusted base; see DESIGN.md).
#include <string>
#include <stdexcept>
#include <new>
#include <map>
#include <functional>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/utsname.h>
#include <mutex>
#include "symx_api.h"

template class std::basic_string<char>;

extern "C" {
void *memcpy(void *, const void *, size_t); char *strdup(const char *);
// ---- libstdc++ support
// red-black tree: ordering semantics only (no rebalancing)
struct RbN { int color; RbN *parent, *left, *right; };
RbN *rb_inc(RbN *x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
RbN *rb_inc(RbN *x) { if (x->right) { x = x->right; while (x->left) x = x->left; } else { RbN *y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; } return x; }
const RbN *rb_incc(const RbN *x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
const RbN *rb_incc(const RbN *x) { return rb_inc((RbN *) x); }
RbN *rb_dec(RbN *x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
RbN *rb_dec(RbN *x) { if (x->color == 0 && x->parent && x->parent->parent == x) x = x->right; else if (x->left) { RbN *y = x->left; while (y->right) y = y->right; x = y; } else { RbN *y = x->parent; while (x == y->left) { x = y; y = y->parent; } x = y; } return x; }
const RbN *rb_decc(const RbN *x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
const RbN *rb_decc(const RbN *x) { return rb_dec((RbN *) x); }
void rb_ins(bool left, RbN *x, RbN *p, RbN &h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void rb_ins(bool left, RbN *x, RbN *p, RbN &h) {
   x->parent = p; x->left = x->right = nullptr; x->color = 1;
   if (left) { p->left = x; if (p == &h) { h.parent = x; h.right = x; } else if (p == h.left) h.left = x; }
   else { p->right = x; if (p == h.right) h.right = x; }
}
RbN *rb_era(RbN *z, RbN &h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
RbN *rb_era(RbN *z, RbN &h) {
   RbN *next = nullptr, *prev = nullptr; if (h.left == z) { next = rb_inc(z); } if (h.right == z) { prev = rb_dec(z); }
   RbN *rep;
   if (!z->left) rep = z->right; else if (!z->right) rep = z->left;
   else { // successor
      RbN *y = z->right; while (y->left) y = y->left;
      if (y->parent != z) { y->parent->left = y->right; if (y->right) y->right->parent = y->parent; y->right = z->right; z->right->parent = y; }
      y->left = z->left; z->left->parent = y; rep = y;
   }
   RbN *p = z->parent; if (rep) rep->parent = p;
   if (p == &h) h.parent = rep; else if (p->left == z) p->left = rep; else p->right = rep;
   if (h.left == z) h.left = next; if (h.right == z) h.right = prev;
   if (!h.parent) { h.left = h.right = &h; }
   return z;
}
struct LsN { LsN *next, *prev; };
void ls_hook(LsN *self, LsN *pos) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void ls_hook(LsN *self, LsN *pos) { self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self; }
void ls_unhook(LsN *self) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void ls_unhook(LsN *self) { self->next->prev = self->prev; self->prev->next = self->next; }
void ls_transfer(LsN *self, LsN *first, LsN *last) __asm__("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void ls_transfer(LsN *self, LsN *first, LsN *last) { if (self != last) { last->prev->next = self; first->prev->next = last; self->prev->next = first; LsN *t = self->prev; self->prev = last->prev; last->prev = first->prev; first->prev = t; } }
void ls_reverse(LsN *self) __asm__("_ZNSt8__detail15_List_node_base10_M_reverseEv");
void ls_reverse(LsN *self) { LsN *t = self; do { LsN *n = t->next; t->next = t->prev; t->prev = n; t = n; } while (t != self); }
void ls_swap(LsN &x, LsN &y) __asm__("_ZNSt8__detail15_List_node_base4swapERS0_S1_");
void ls_swap(LsN &x, LsN &y) { if (x.next != &x) { if (y.next != &y) { LsN t = x; x = y; y = t; x.next->prev = x.prev->next = &x; y.next->prev = y.prev->next = &y; } else { y = x; y.next->prev = y.prev->next = &y; x.next = x.prev = &x; } } else if (y.next != &y) { x = y; x.next->prev = x.prev->next = &x; y.next = y.prev = &y; } }
struct PrimePol { float mlf; size_t next; };
size_t pp_next(PrimePol *p, size_t n) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
size_t pp_next(PrimePol *p, size_t n) { static const size_t pr[] = { 2, 5, 11, 23, 47, 97, 197, 397, 797, 1597, 3203, 6421, 12853, 25717, 51437 }; for (size_t q : pr) if (q >= n) { p->next = q; return q; } p->next = n | 1; return n | 1; }
struct PPR { bool b; size_t n; };
PPR pp_need(PrimePol *p, size_t bkt, size_t elt, size_t ins) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
PPR pp_need(PrimePol *p, size_t bkt, size_t elt, size_t ins) { if (elt + ins > p->next || bkt == 1) { size_t want = elt + ins; if (want < 11) want = 11; if (want > bkt || bkt == 1) { size_t n = pp_next(p, want > 2 * bkt ? want : 2 * bkt); return { true, n }; } } return { false, 0 }; }
size_t hash_bytes(const void *p, size_t n, size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
size_t hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *) p)[i]; return h; }
// exceptions: object layout { vptr, char* message }
struct ExcO { void **vp; const char *msg; };
static const char *exc_what(const ExcO *e) { return e->msg; }
static void exc_dtor(ExcO *) {}
static void exc_ddtor(ExcO *e) { free(e); }
#define EXC(cls, n) \
   extern void *ti_##cls __asm__("_ZTISt" n #cls); void *vt_##cls[5] __asm__("_ZTVSt" n #cls) = { nullptr, &ti_##cls, (void *) exc_dtor, (void *) exc_ddtor, (void *) exc_what }; \
   void c1_##cls(ExcO *e, const char *s) __asm__("_ZNSt" n #cls "C1EPKc"); void c1_##cls(ExcO *e, const char *s) { e->vp = vt_##cls + 2; e->msg = strdup(s); } \
   void c2_##cls(ExcO *e, const char *s) __asm__("_ZNSt" n #cls "C2EPKc"); void c2_##cls(ExcO *e, const char *s) { c1_##cls(e, s); } \
   void c1s_##cls(ExcO *e, const std::string &s) __asm__("_ZNSt" n #cls "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void c1s_##cls(ExcO *e, const std::string &s) { c1_##cls(e, s.c_str()); } \
   void c2s_##cls(ExcO *e, const std::string &s) __asm__("_ZNSt" n #cls "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void c2s_##cls(ExcO *e, const std::string &s) { c1_##cls(e, s.c_str()); } \
   void cc1_##cls(ExcO *e, const ExcO &o) __asm__("_ZNSt" n #cls "C1ERKS_"); void cc1_##cls(ExcO *e, const ExcO &o) { *e = o; } \
   void cc2_##cls(ExcO *e, const ExcO &o) __asm__("_ZNSt" n #cls "C2ERKS_"); void cc2_##cls(ExcO *e, const ExcO &o) { *e = o; } \
   void d1_##cls(ExcO *e) __asm__("_ZNSt" n #cls "D1Ev"); void d1_##cls(ExcO *) {} \
   void d2_##cls(ExcO *e) __asm__("_ZNSt" n #cls "D2Ev"); void d2_##cls(ExcO *) {} \
   void d0_##cls(ExcO *e) __asm__("_ZNSt" n #cls "D0Ev"); void d0_##cls(ExcO *e) { free(e); } \
   const char *w_##cls(const ExcO *e) __asm__("_ZNKSt" n #cls "4whatEv"); const char *w_##cls(const ExcO *e) { return e->msg; }
EXC(runtime_error, "13") EXC(logic_error, "11") EXC(out_of_range, "12") EXC(invalid_argument, "16") EXC(length_error, "12") EXC(range_error, "11") EXC(overflow_error, "14")
void ex_d2(ExcO *e) __asm__("_ZNSt9exceptionD2Ev"); void ex_d2(ExcO *) {}
void ex_d1(ExcO *e) __asm__("_ZNSt9exceptionD1Ev"); void ex_d1(ExcO *) {}
const char *ex_w(const ExcO *e) __asm__("_ZNKSt9exception4whatEv"); const char *ex_w(const ExcO *) { return "std::exception"; }
void *vt_exception[5] __asm__("_ZTVSt9exception") = { nullptr, nullptr, (void *) exc_dtor, (void *) exc_ddtor, (void *) ex_w };
void *vt_badfc[5] __asm__("_ZTVSt17bad_function_call") = { nullptr, nullptr, (void *) exc_dtor, (void *) exc_ddtor, (void *) ex_w };
void *vt_badalloc[5] __asm__("_ZTVSt9bad_alloc") = { nullptr, nullptr, (void *) exc_dtor, (void *) exc_ddtor, (void *) ex_w };
void *vt_badcast[5] __asm__("_ZTVSt8bad_cast") = { nullptr, nullptr, (void *) exc_dtor, (void *) exc_ddtor, (void *) ex_w };
void ba_d2(ExcO *e) __asm__("_ZNSt9bad_allocD1Ev"); void ba_d2(ExcO *) {}
long chrono_now(void) __asm__("_ZNSt6chrono3_V212system_clock3nowEv"); long chrono_now(void) { return 1700000000L * 1000000000L; }
long chrono_snow(void) __asm__("_ZNSt6chrono3_V212steady_clock3nowEv"); long chrono_snow(void) { return 1700000000L * 1000000000L; }
}
namespace std {
void __throw_out_of_range(const char *s) { throw std::out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw std::out_of_range(s); }
void __throw_logic_error(const char *s) { throw std::logic_error(s); }
void __throw_length_error(const char *s) { throw std::length_error(s); }
void __throw_invalid_argument(const char *s) { throw std::invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw std::runtime_error(s); }
void __throw_bad_alloc() { throw std::length_error("bad_alloc"); }
void __throw_bad_array_new_length() { throw std::length_error("bad_array_new_length"); }
void __throw_bad_cast() { throw std::logic_error("bad_cast"); }
void __throw_bad_function_call() { throw std::logic_error("bad_function_call"); }
__thread void *__once_callable; __thread void (*__once_call)();
sx_ostream sx_cout, sx_cerr, sx_clog; sx_istream sx_cin;
}
extern "C" void __once_proxy() { std::__once_call(); }
