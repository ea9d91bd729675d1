#include "opaque.hpp"
#include <new>
typedef dstruct::BasicString<char, VA> S;
void visit(const char &);
extern "C" {
void w_ctor(S *v) { new (v) S(); }
void w_ctor_text(S *v, const char *t) { new (v) S(t); }
void w_copy_ctor(S *v, const S &o) { new (v) S(o); }
void w_move_ctor(S *v, S &o) { new (v) S(dstruct::move(o)); }
void w_copy(S *v, const S &o) { *v = o; }
void w_move(S *v, S &o) { *v = dstruct::move(o); }
void w_assign_text(S *v, const char *t) { *v = t; }
void w_dtor(S *v) { v->~S(); }
bool w_empty(const S *v) { return v->empty(); }
unsigned long long w_size(const S *v) { return v->size(); }
unsigned long long w_capacity(const S *v) { return v->capacity(); }
const char *w_back(const S *v) { return &v->back(); }
const char *w_front(const S *v) { return &v->front(); }
const char *w_cindex(const S *v, int i) { return &(*v)[i]; }
char *w_index(S *v, int i) { return &(*v)[i]; }
void w_set(S *v, int i, char c) { (*v)[i] = c; }
void w_push_back(S *v, const char &c) { v->push_back(c); }
void w_clear(S *v) { v->clear(); }
const char *w_c_str(const S *v) { return v->c_str(); }
void w_append(S *v, const S &o) { *v += o; }
void w_append_text(S *v, const char *t) { *v += t; }
void w_iterate(S *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const S *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(S *v) { for (auto &e : *v) visit(e); }
void w_cat(S *out, const S &a, const S &b) { new (out) S(a + b); }
void w_cat_text(S *out, const S &a, const char *t) { new (out) S(a + t); }
void w_text_cat(S *out, const char *t, const S &b) { new (out) S(t + b); }
bool w_eq(const S &a, const S &b) { return a == b; }
bool w_ne(const S &a, const S &b) { return a != b; }
bool w_eq_text(const S &a, const char *t) { return a == t; }
bool w_text_eq(const char *t, const S &a) { return t == a; }
bool w_ne_text(const S &a, const char *t) { return a != t; }
bool w_text_ne(const char *t, const S &a) { return t != a; }
}
