#include "opaque.hpp"
#include <new>
typedef dstruct::Array<Elem, DV_N> V;
extern "C" {
void visit(const Elem &);
void w_ctor(V *v) { new (v) V(); }
void w_fill(V *v, const Elem &e) { new (v) V(e); }
void w_copy_ctor(V *v, const V &o) { new (v) V(o); }
void w_move_ctor(V *v, V &o) { new (v) V(dstruct::move(o)); }
void w_copy(V *v, const V &o) { *v = o; }
void w_move(V *v, V &o) { *v = dstruct::move(o); }
void w_dtor(V *v) { v->~V(); }
bool w_empty(const V *v) { return v->empty(); }
unsigned long long w_size(const V *v) { return v->size(); }
unsigned long long w_capacity(const V *v) { return v->capacity(); }
const Elem *w_back(const V *v) { return &v->back(); }
const Elem *w_front(const V *v) { return &v->front(); }
const Elem *w_cindex(const V *v, int i) { return &(*v)[i]; }
Elem *w_index(V *v, int i) { return &(*v)[i]; }
void w_write(V *v, int i, const Elem &e) { (*v)[i] = e; }
void w_iterate(V *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const V *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(V *v) { for (auto &e : *v) visit(e); }
void w_reverse(V *v) { auto it = v->end(); while (it != v->begin()) { --it; visit(*it); } }
void w_itwrite(V *v, int i, const Elem &e) { *(v->begin() + i) = e; }
}
