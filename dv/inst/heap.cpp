#include "opaque.hpp"
#include <new>
typedef Elem T;
typedef dstruct::Heap<T, Cmp, VA> S;
void visit(const T &);
extern "C" {
void w_ctor(S *v) { new (v) S(); }
void w_ctor_cmp(S *v, const Cmp &c) { new (v) S(c); }
void w_ctor_range(S *v, T *b, T *e) { new (v) S(S::IteratorType(b), S::IteratorType(e)); }
void w_copy_ctor(S *v, const S &o) { new (v) S(o); }
void w_move_ctor(S *v, S &o) { new (v) S(dstruct::move(o)); }
void w_copy(S *v, const S &o) { *v = o; }
void w_move(S *v, S &o) { *v = dstruct::move(o); }
void w_dtor(S *v) { v->~S(); }
bool w_empty(const S *v) { return v->empty(); }
unsigned long long w_size(const S *v) { return v->size(); }
void w_top(T *out, const S *v) { new (out) T(v->top()); }
void w_push(S *v, const T &e) { v->push(e); }
void w_pop(S *v) { v->pop(); }
void w_iterate(const S *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_sort(T *b, T *e) { S::sort(S::IteratorType(b), S::IteratorType(e)); }
void w_build(S *out, T *b, T *e) { new (out) S(S::build(S::IteratorType(b), S::IteratorType(e))); }
}
