#include "opaque.hpp"
#include <new>
using namespace dstruct;
typedef tree::BinaryTreeLink_ K;
#if defined(DV_BST)
typedef Elem T;
typedef tree::BinarySearchTree<T, Cmp, VA> V;
typedef tree::BinaryTree<T, VA> Base;
#define ELEM(e) (e)
#else
#if defined(DV_AVL)
typedef Elem T;
typedef AVLTree<T, Cmp, VA> V;
#else
typedef KeyValue<const Elem, Elem> T;
typedef AVLTree<T, KVCMPKey<T, Cmp>, VA> V;
#endif
typedef tree::BinaryTree<AVLData_<T>, VA> Base;
#endif
typedef V::ConstIteratorType CI;
void visit(const T &);
extern "C" {
void w_ctor(V *v) { new (v) V(); }
void w_copy_ctor(V *v, const V &o) { new (v) V(o); }
void w_move_ctor(V *v, V &o) { new (v) V(dstruct::move(o)); }
void w_copy(V *v, const V &o) { *v = o; }
void w_move(V *v, V &o) { *v = dstruct::move(o); }
void w_dtor(V *v) { v->V::~V(); }
void w_clear(V *v) { v->clear(); }
bool w_empty(const V *v) { return v->empty(); }
unsigned long long w_size(const V *v) { return v->size(); }
unsigned long long w_capacity(const V *v) { return v->capacity(); }
void w_push(V *v, const T &e) { v->push(e); }
void w_pop(V *v, const T &e) { v->pop(e); }
const T * w_find(const V *v, const T &e) { auto it = v->find(e); return it == v->end() ? nullptr : it.operator->(); }
const T * w_find_next(const V *v, const T &e) { auto it = v->find(e); ++it; return it == v->end() ? nullptr : it.operator->(); }
#ifdef DV_BST
const T * w_erase(V *v, K *l) { auto it = v->erase(CI(l, tree::next_inorder)); return it == v->end() ? nullptr : it.operator->(); }
#else
int w_height(const V *v) { return v->height(); }
const T * w_erase(V *v, K *l) { auto it = v->erase(CI(tree::BinaryTreeIterator_<AVLData_<T>>(l, tree::next_inorder))); return it == v->end() ? nullptr : it.operator->(); }
#endif
int w_true_height(V *v) { return tree::height(&v->_get_root_ptr()->link); }
void w_pre(const V *v) { auto e = v->end(V::TraversalType::PreOrder); for (auto it = v->begin(V::TraversalType::PreOrder); it != e; ++it) visit(*it); }
void w_in(const V *v) { auto e = v->end(V::TraversalType::InOrder); for (auto it = v->begin(V::TraversalType::InOrder); it != e; it++) visit(*it); }
void w_post(const V *v) { auto e = v->end(V::TraversalType::PostOrder); for (auto it = v->begin(V::TraversalType::PostOrder); it != e; ++it) visit(*it); }
void w_default(const V *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void w_rangefor(V *v) { for (const auto &e : *v) visit(e); }
#ifdef DV_BST
void w_tpre(const V *v) { v->traversal(visit, V::TraversalType::PreOrder); }
void w_tin(const V *v) { v->traversal(visit, V::TraversalType::InOrder); }
void w_tpost(const V *v) { v->traversal(visit, V::TraversalType::PostOrder); }
void w_tdefault(const V *v) { v->traversal(visit); }
void w_bpre(const V *v) { const Base *b = v; for (auto it = b->begin(V::TraversalType::PreOrder); it != b->end(V::TraversalType::PreOrder); it++) visit(*it); }
void w_bin(const V *v) { const Base *b = v; for (auto it = b->begin(V::TraversalType::InOrder); it != b->end(V::TraversalType::InOrder); it++) visit(*it); }
void w_bpost(const V *v) { const Base *b = v; for (auto it = b->begin(V::TraversalType::PostOrder); it != b->end(V::TraversalType::PostOrder); it++) visit(*it); }
K * w_left(K *r) { return tree::left_rotate(r); }
K * w_right(K *r) { return tree::right_rotate(r); }
#endif
#ifdef DV_MAP
typedef Map<Elem, Elem, Cmp, V> MM;
typedef MM::KeyValueType KV;
void m_ctor(MM *v) { new (v) MM(); }
void m_copy_ctor(MM *v, const MM &o) { new (v) MM(o); }
void m_move_ctor(MM *v, MM &o) { new (v) MM(dstruct::move(o)); }
void m_copy(MM *v, const MM &o) { *v = o; }
void m_move(MM *v, MM &o) { *v = dstruct::move(o); }
void m_dtor(MM *v) { v->MM::~MM(); }
void m_clear(MM *v) { v->clear(); }
bool m_empty(const MM *v) { return v->empty(); }
unsigned long long m_size(const MM *v) { return v->size(); }
unsigned long long m_capacity(const MM *v) { return v->capacity(); }
void m_push(MM *v, const KV &e) { v->push(e); }
void m_pop(MM *v, const Elem &k) { v->pop(k); }
const KV * m_find(const MM *v, const Elem &k) { auto it = v->find(k); return it == v->end() ? nullptr : it.operator->(); }
const KV * m_find_next(const MM *v, const Elem &k) { auto it = v->find(k); ++it; return it == v->end() ? nullptr : it.operator->(); }
const KV * m_erase(MM *v, K *l) { MM::IteratorType p(tree::BinaryTreeIterator_<AVLData_<T>>(l, tree::next_inorder)); auto it = v->erase(p); return it == v->end() ? nullptr : it.operator->(); }
void m_default(const MM *v) { for (auto it = v->begin(); it != v->end(); ++it) visit(*it); }
void m_rangefor(MM *v) { for (const auto &e : *v) visit(e); }
Elem * m_index(MM *v, const Elem &k) { return &(*v)[k]; }
const Elem * m_cindex(const MM *v, const Elem &k) { return &(*v)[k]; }
void m_set(MM *v, const Elem &k, const Elem &e) { (*v)[k] = e; }
#endif
}
