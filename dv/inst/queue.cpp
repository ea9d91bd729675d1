#include "opaque.hpp"
#include <new>
typedef dstruct::DoubleEndedQueue<Elem, DV_A, VA> D_;
typedef dstruct::adapter::Queue<Elem, D_> L;
static_assert(sizeof(L) == sizeof(D_), "the adapter is its deque");
void visit(const Elem &);
extern "C" {
void w_ctor(L *v) { new (v) L(); }
void w_copy_ctor(L *v, const L &o) { new (v) L(o); }
void w_move_ctor(L *v, L &o) { new (v) L(dstruct::move(o)); }
void w_copy(L *v, const L &o) { *v = o; }
void w_move(L *v, L &o) { *v = dstruct::move(o); }
void w_dtor(L *v) { v->~L(); }
bool w_empty(const L *v) { return v->empty(); }
unsigned long long w_size(const L *v) { return v->size(); }
void w_front(Elem *out, const L *v) { new (out) Elem(v->front()); }
void w_back(Elem *out, const L *v) { new (out) Elem(v->back()); }
const Elem *w_index(L *v, int i) { return &(*v)[i]; }
void w_push(L *v, const Elem &e) { v->push(e); }
void w_pop(L *v) { v->pop(); }
void w_iterate(const L *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const L *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(const L *v) { for (auto &e : *v) visit(e); }
}
