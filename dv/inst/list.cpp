#include "opaque.hpp"
#include <new>
#ifdef DV_SINGLY
typedef dstruct::SinglyLinkedList<Elem, VA> L;
#else
typedef dstruct::DoublyLinkedList<Elem, VA> L;
#endif
void visit(const Elem &);
extern "C" {
void w_ctor(L *v) { new (v) L(); }
void w_ctor_n(L *v, unsigned long long n, const Elem &e) { new (v) L(n, e); }
void w_copy_ctor(L *v, const L &o) { new (v) L(o); }
void w_move_ctor(L *v, L &o) { new (v) L(dstruct::move(o)); }
void w_copy(L *v, const L &o) { *v = o; }
void w_move(L *v, L &o) { *v = dstruct::move(o); }
void w_dtor(L *v) { v->~L(); }
bool w_empty(const L *v) { return v->empty(); }
unsigned long long w_size(const L *v) { return v->size(); }
void w_front(Elem *out, const L *v) { new (out) Elem(v->front()); }
void w_back(Elem *out, const L *v) { new (out) Elem(v->back()); }
void w_push(L *v, const Elem &e) { v->push(e); }
void w_push_front(L *v, const Elem &e) { v->push_front(e); }
void w_push_back(L *v, const Elem &e) { v->push_back(e); }
void w_pop(L *v) { v->pop(); }
void w_pop_front(L *v) { v->pop_front(); }
#ifdef DV_SINGLY
void w_pop_back(L *v) { v->_pop_back(); }
#else
void w_pop_back(L *v) { v->pop_back(); }
void w_reverse(L *v) { auto it = v->end(); while (it != v->begin()) { --it; visit(*it); } }
void w_reverse2(L *v) { auto it = --(v->end()); while (it != v->end()) { visit(*it); it--; } }
#endif
void w_clear(L *v) { v->clear(); }
void w_iterate(L *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_citerate(const L *v) { for (auto it = v->begin(); it != v->end(); it++) visit(*it); }
void w_rangefor(L *v) { for (auto &e : *v) visit(e); }
}
#ifdef DV_SINGLY
typedef dstruct::SinglyLink_ K;
#else
typedef dstruct::DoublyLink_ K;
#endif
typedef dstruct::EmbeddedListNode_<Elem, K> N;
extern "C" {
void w_link_init(K *p) { K::init(p); }
bool w_link_empty(K *p) { return K::empty(p); }
void w_link_add(K *p, K *c) { K::add(p, c); }
void w_link_del(K *p, K *c) { K::del(p, c); }
void w_node_init(N *p) { N::init(p); }
bool w_node_empty(N *p) { return N::empty(p); }
void w_node_add(N *p, N *c) { N::add(p, c); }
void w_node_del(N *p, N *c) { N::del(p, c); }
N *w_node_rt(N *p) { return N::to_node(N::to_link(p)); }
K *w_link_rt(K *p) { return N::to_link(N::to_node(p)); }
K *w_node_link(N *p) { return N::to_link(p); }
K *w_member_link(N *p) { return &p->link; }
}
