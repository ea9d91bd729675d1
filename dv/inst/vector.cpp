#include "opaque.hpp"
typedef DV_T T;
typedef dstruct::Vector<T, VA> V;
#include <new>
extern "C" {
void w_ctor(V *v) { new (v) V(); }
void w_ctor_n(V *v, unsigned long long n, const T &e) { new (v) V(n, e); }
void w_copy_ctor(V *v, const V &o) { new (v) V(o); }
void w_move_ctor(V *v, V &o) { new (v) V(dstruct::move(o)); }
void w_copy(V *v, const V &o) { *v = o; }
void w_move(V *v, V &o) { *v = dstruct::move(o); }
void w_dtor(V *v) { v->~V(); }
bool w_empty(const V *v) { return v->empty(); }
unsigned long long w_size(const V *v) { return v->size(); }
unsigned long long w_capacity(const V *v) { return v->capacity(); }
const T *w_back(const V *v) { return &v->back(); }
const T *w_front(const V *v) { return &v->front(); }
const T *w_cindex(const V *v, int i) { return &(*v)[i]; }
T *w_index(V *v, int i) { return &(*v)[i]; }
void w_push(V *v, const T &e) { v->push(e); }
void w_push_back(V *v, const T &e) { v->push_back(e); }
void w_pop(V *v) { v->pop(); }
void w_pop_back(V *v) { v->pop_back(); }
void w_clear(V *v) { v->clear(); }
void w_resize(V *v, unsigned long long n) { v->resize(n); }
void w_resize_fill(V *v, unsigned long long n, const T &e) { v->resize(n, e); }
void visit(const T &);
void w_iterate(V *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const V *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(V *v) { for (auto &e : *v) visit(e); }
void w_reverse(V *v) { auto it = v->end(); while (it != v->begin()) { --it; visit(*it); } }
T *w_itplus(V *v, int i) { return &*(v->begin() + i); }
T *w_itminus(V *v, int i) { return &*(v->end() - i); }
long long w_distance(V *v) { return dstruct::distance(v->begin(), v->end()); }
}
