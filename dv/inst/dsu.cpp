#include "opaque.hpp"
#include <new>
typedef dstruct::DisjointSet<VA> S;
extern "C" {
void w_ctor(S *v, int n) { new (v) S(n); }
void w_copy_ctor(S *v, const S &o) { new (v) S(o); }
void w_move_ctor(S *v, S &o) { new (v) S(dstruct::move(o)); }
void w_copy(S *v, const S &o) { *v = o; }
void w_move(S *v, S &o) { *v = dstruct::move(o); }
void w_dtor(S *v) { v->~S(); }
bool w_empty(const S *v) { return v->empty(); }
unsigned long long w_size(const S *v) { return v->size(); }
unsigned long long w_capacity(const S *v) { return v->capacity(); }
unsigned long long w_count(const S *v) { return v->count(); }
int w_find(S *v, const int &x) { return v->find(x); }
bool w_connected(S *v, const int &x, const int &y) { return v->connected(x, y); }
void w_connect(S *v, const int &x, const int &y) { v->connect(x, y); }
void w_union(S *v, const int &x, const int &y) { v->union_set(x, y); }
}
