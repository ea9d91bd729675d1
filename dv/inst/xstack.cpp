#include "opaque.hpp"
#include <new>
typedef Elem T;
typedef dstruct::stack::XValueStack<T, Cmp, dstruct::adapter::Stack<T, dstruct::Vector<T, VA>>> S;
extern "C" {
void w_ctor(S *v) { new (v) S(); }
void w_ctor_cmp(S *v, const Cmp &c) { new (v) S(c); }
void w_copy_ctor(S *v, const S &o) { new (v) S(o); }
void w_move_ctor(S *v, S &o) { new (v) S(dstruct::move(o)); }
void w_copy(S *v, const S &o) { *v = o; }
void w_move(S *v, S &o) { *v = dstruct::move(o); }
void w_dtor(S *v) { v->~S(); }
bool w_empty(const S *v) { return v->empty(); }
void w_top(T *out, const S *v) { new (out) T(v->top()); }
void w_x(T *out, const S *v) { new (out) T(v->getXValue()); }
void w_push(S *v, const T &e) { v->push(e); }
void w_pop(S *v) { v->pop(); }
void w_clear(S *v) { v->clear(); }
}
