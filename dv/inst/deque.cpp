#include "opaque.hpp"
#include <new>
typedef dstruct::DoubleEndedQueue<Elem, DV_A, VA> L;
void visit(const Elem &);
extern "C" {
void w_ctor(L *v) { new (v) L(); }
void w_copy_ctor(L *v, const L &o) { new (v) L(o); }
void w_move_ctor(L *v, L &o) { new (v) L(dstruct::move(o)); }
void w_copy(L *v, const L &o) { *v = o; }
void w_move(L *v, L &o) { *v = dstruct::move(o); }
void w_dtor(L *v) { v->~L(); }
bool w_empty(const L *v) { return v->empty(); }
unsigned long long w_size(const L *v) { return v->size(); }
unsigned long long w_capacity(const L *v) { return v->capacity(); }
void w_front(Elem *out, const L *v) { new (out) Elem(v->front()); }
void w_back(Elem *out, const L *v) { new (out) Elem(v->back()); }
const Elem *w_index(const L *v, int i) { return &(*v)[i]; }
void w_push(L *v, const Elem &e) { v->push(e); }
void w_push_front(L *v, const Elem &e) { v->push_front(e); }
void w_push_back(L *v, const Elem &e) { v->push_back(e); }
void w_pop(L *v) { v->pop(); }
void w_pop_front(L *v) { v->pop_front(); }
void w_pop_back(L *v) { v->pop_back(); }
void w_clear(L *v) { v->clear(); }
void w_iterate(const L *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const L *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(const L *v) { for (auto &e : *v) visit(e); }
void w_reverse(const L *v) { auto it = v->end(); while (it != v->begin()) { --it; visit(*it); } }
const Elem *w_itplus(const L *v, int i) { return &*(v->begin() + i); }
const Elem *w_itminus(const L *v, int i) { return &*(v->end() - i); }
}
