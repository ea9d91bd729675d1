#include "opaque.hpp"
#include <new>
typedef dstruct::less<int> LI; typedef dstruct::greater<int> GI;
typedef dstruct::less<Elem> LE_; typedef dstruct::greater<Elem> GE_;
typedef dstruct::less<char *> LP; typedef dstruct::greater<char *> GP;
extern "C" {
bool w_less_i(const int &a, const int &b) { return LI()(a, b); }
bool w_greater_i(const int &a, const int &b) { return GI()(a, b); }
bool w_less_u(const unsigned long long &a, const unsigned long long &b) { return dstruct::less<unsigned long long>()(a, b); }
bool w_greater_u(const unsigned long long &a, const unsigned long long &b) { return dstruct::greater<unsigned long long>()(a, b); }
bool w_less_e(const Elem &a, const Elem &b) { return LE_()(a, b); }
bool w_greater_e(const Elem &a, const Elem &b) { return GE_()(a, b); }
bool w_less_p(char *a, char *b) { return LP()(a, b); }
bool w_greater_p(char *a, char *b) { return GP()(a, b); }
void w_swap(Elem &a, Elem &b) { dstruct::swap(a, b); }
void w_swap_i(int &a, int &b) { dstruct::swap(a, b); }
int w_max_i(const int &a, const int &b) { return dstruct::max(a, b); }
void w_max_e(Elem *r, const Elem &a, const Elem &b) { new (r) Elem(dstruct::max(a, b)); }
int w_abs_i(const int &a) { return dstruct::abs(a); }
long long w_abs_l(const long long &a) { return dstruct::abs(a); }
bool w_isptr() { return dstruct::IsPointer<int *>::value && !dstruct::IsPointer<int>::value; }
int *w_construct_int(void *p, const int &x) { return dstruct::construct<int>(p, x); }
Elem *w_construct(void *p, const Elem &x) { return dstruct::construct<Elem>(p, x); }
void w_destroy(Elem *p) { dstruct::destroy(p); }
int &w_move_i(int &a) { int &&r = dstruct::move(a); return r; }
int &w_remove_const(const int &a) { return dstruct::_remove_const(a); }
}
