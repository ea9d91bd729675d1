#include "common.hpp"
using namespace dstruct;
typedef std::set<int> MS;
typedef tree::BinaryTreeLink_ Lk;
struct ByKey { bool operator()(const E &a, const E &b) const { E::ok(&a, "comparison"); E::ok(&b, "comparison"); return a.key < b.key; } };
template <class T> struct Down { bool operator()(const T &a, const T &b) const { return b < a; } };
typedef tree::BinarySearchTree<E, less<E>, TA> BST;
typedef AVLTree<E, less<E>, TA> AVL;
static int ckey(const Lk *l, BST *) { return tree::EmbeddedBinaryTreeNode<E>::to_node(const_cast<Lk *>(l))->data.key; }
static int ckey(const Lk *l, AVL *) { return tree::EmbeddedBinaryTreeNode<AVLData_<E>>::to_node(const_cast<Lk *>(l))->data.val.key; }
static int stored_height(const Lk *l, AVL *) { return tree::EmbeddedBinaryTreeNode<AVLData_<E>>::to_node(const_cast<Lk *>(l))->data.height; }
static int stored_height(const Lk *, BST *) { return -1; }
struct Shape { std::vector<int> pre, in, post; int h; };
template <class T> static int walk(const Lk *l, const Lk *parent, Shape &s, const char *P, T *t, int depth) {
    if (!l) return 0;
    CHECK(P, depth < 2000 && s.pre.size() < 100000, "links do not form a tree");
    CHECK(P, l->parent == parent, "parent link of %d is wrong", ckey(l, t));
    s.pre.push_back(ckey(l, t));
    int a = walk(l->left, l, s, P, t, depth + 1); s.in.push_back(ckey(l, t)); int b = walk(l->right, l, s, P, t, depth + 1); s.post.push_back(ckey(l, t));
    int h = 1 + (a > b ? a : b);
    if (stored_height(l, t) != -1) { CHECK("C19", stored_height(l, t) == h, "stored height of %d is %d, true height %d", ckey(l, t), stored_height(l, t), h); CHECK("C19", a - b <= 1 && b - a <= 1, "unbalanced at %d: %d and %d", ckey(l, t), a, b); }
    return h;
}
static void chk_height(AVL &t, int h, const char *P) { CHECK(P, t.height() == h, "height() is %d, true height %d", t.height(), h); }
static void chk_height(BST &, int, const char *) {}
template <class T> static typename T::ConstIteratorType kfind(T &t, int k) { return t.find(E(k)); }
static void collect(BST &t, BST::TraversalType o, std::vector<int> &v);
static void collect(AVL &t, AVL::TraversalType o, std::vector<int> &v);
template <class T> static void tree_cmp(T &t, const MS &m, const char *P) {
    CHECK(P, t.size() == m.size() && t.empty() == m.empty(), "size %d, expected %d", (int)t.size(), (int)m.size());
    Shape s; const Lk *root = t._get_root_ptr() ? &t._get_root_ptr()->link : nullptr;
    int h = walk(root, (const Lk *)nullptr, s, P, &t, 0); chk_height(t, h, P);
    std::vector<int> e(m.begin(), m.end());
    CHECK(P, s.in == e, "the tree does not hold exactly the expected elements in order");
    unsigned i = 0; for (auto it = t.begin(); it != t.end(); it++, i++) CHECK(P, i < e.size() && val(*it) == e[i], "in-order step %d", i);
    CHECK(P, i == e.size(), "iteration stops after %d of %d", i, (int)e.size());
    int lo = e.empty() ? 0 : e[0] - 1, hi = e.empty() ? 1 : e.back() + 1; int step = (hi - lo) > 40 ? (hi - lo) / 20 : 1;
    for (int k = lo; k <= hi; k += step) { auto it = kfind(t, k); bool f = it != t.end(); CHECK(P, f == (m.count(k) > 0), "find(%d)", k); if (f) CHECK(P, val(*it) == k, "find(%d) gives %d", k, val(*it)); }
    // the three orders
    const char *Q = "C21"; typedef typename T::TraversalType TT;
    struct { TT o; std::vector<int> *v; const char *n; } ord[3] = {{T::PreOrder, &s.pre, "pre"}, {T::InOrder, &s.in, "in"}, {T::PostOrder, &s.post, "post"}};
    for (auto &o : ord) {
        i = 0; for (auto it = t.begin(o.o); it != t.end(o.o); ++it, i++) { CHECK(Q, i < o.v->size(), "%s-order iteration runs on", o.n); CHECK(Q, val(*it) == (*o.v)[i], "%s-order step %d gives %d, expected %d", o.n, i, val(*it), (*o.v)[i]); }
        CHECK(Q, i == o.v->size(), "%s-order iteration stops after %d of %d", o.n, i, (int)o.v->size());
        std::vector<int> got;
        collect(t, o.o, got);
        CHECK(Q, got == *o.v, "%s-order traversal visits the wrong sequence", o.n);
    }
    Shape s2; const Lk *r2 = t._get_root_ptr() ? &t._get_root_ptr()->link : nullptr;
    CHECK(Q, r2 == root, "iteration changed the tree"); walk(root, (const Lk *)nullptr, s2, Q, &t, 0); CHECK(Q, s2.pre == s.pre && s2.in == s.in, "iteration changed the tree");
}
static void collect(BST &t, BST::TraversalType o, std::vector<int> &v) { t.traversal([&](const E &e) { v.push_back(val(e)); }, o); }
static void collect(AVL &t, AVL::TraversalType o, std::vector<int> &v) { t.traversal([&](const AVLData_<E> &e) { v.push_back(val(e.val)); }, o); }
static void dup_ok(BST &t, int k) { t.push(E(k)); }
static void dup_ok(AVL &, int) {}
template <class T, int C> static void tree_run(int maxops) {
    const char *P = C == 18 ? "C18" : "C19"; T t[2]; MS m[2]; if (maxops > 120) maxops = 120; int range = maxops > 12 ? 8 + choose(60) : 7;
    tree_cmp(t[0], m[0], P);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(5) == 4; T &a = t[w], &b = t[1 - w]; MS &x = m[w], &y = m[1 - w];
        switch (choose(12)) {
        case 0: case 1: case 2: { int f = choose(range); op("t%d.push(%d)", w, f); if (x.count(f)) { dup_ok(a, f); } else { a.push(E(f)); x.insert(f); } break; }
        case 3: { int f = choose(range); op("t%d.pop(%d)", w, f); a.pop(E(f)); x.erase(f); break; }
        case 4: case 5: if (x.size()) { int i = choose(x.size()); auto q = x.begin(); while (i--) ++q; int f = *q; op("t%d.erase(find(%d))", w, f); auto it = a.erase(kfind(a, f)); q = x.erase(q);
                  if (q == x.end()) CHECK(P, it == a.end(), "erase of the largest does not return the end"); else { CHECK(P, it != a.end(), "erase returned the end"); CHECK(P, val(*it) == *q, "erase returned %d, expected %d", val(*it), *q); ++it; ++q; if (q != x.end()) CHECK(P, val(*it) == *q, "iterating on from erase"); else CHECK(P, it == a.end(), "iterating on from erase"); } } break;
        case 6: if (x.size()) { int i = choose(x.size()); auto q = x.begin(); while (i--) ++q; op("t%d.pop(present %d)", w, *q); a.pop(E(*q)); x.erase(q); } break;
        case 7: { int n = 1 + choose(12); op("t%d: push x %d", w, n); int d = 1 + choose(3), f = choose(range); while (n--) { f = (f + d) % range; if (!x.count(f)) { a.push(E(f)); x.insert(f); } } break; }
        case 8: { int n = 1 + choose(8); op("t%d: erase first %d", w, n); auto it = a.begin(); while (n-- && x.size()) { CHECK(P, val(*it) == *x.begin(), "erase chain"); it = a.erase(it); x.erase(x.begin()); } break; }
        case 9: if (choose(5) == 4) { op("t%d = itself (copy)", w); auto &self = a; a = self; } else { op("t%d=t%d", w, 1 - w); a = b; x = y; } break;
        case 10: op("t%d=move(t%d)", w, 1 - w); a = dstruct::move(b); x = y; y.clear(); tree_cmp(b, y, "C22"); break;
        case 11: if (choose(2)) { op("c(t%d)", w); T c(a); tree_cmp(c, x, P); if (!x.count(99)) c.push(E(99)); if (x.size()) c.pop(E(*x.begin())); } else if (choose(2)) { op("t%d.clear", w); a.clear(); x.clear(); } else { op("c(move)"); T c(dstruct::move(a)); tree_cmp(c, x, P); tree_cmp(a, MS(), "C22"); a.push(E(4)); a = dstruct::move(c); } break;
        }
        tree_cmp(t[0], m[0], P); tree_cmp(t[1], m[1], P);
        CHECK("C22", rt::blocks.size() == m[0].size() + m[1].size(), "%d nodes held for %d elements", (int)rt::blocks.size(), (int)(m[0].size() + m[1].size()));
        CHECK("C22", rt::live.size() == m[0].size() + m[1].size(), "%d elements alive for %d", (int)rt::live.size(), (int)(m[0].size() + m[1].size()));
    }
}
// every insertion order of up to 6 keys, then every removal order step
template <class T, int C> static void perm_run(int maxops) {
    const char *P = C == 18 ? "C18" : "C19"; int n = maxops < 7 ? maxops : 4 + choose(20); T a; MS x; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) { int i = choose(left.size()); op("push(%d)", left[i]); a.push(E(left[i])); x.insert(left[i]); left.erase(left.begin() + i); if (n > 7 || left.empty()) tree_cmp(a, x, P); }
    while (!x.empty() && rt::more()) { int i = choose(x.size()); auto q = x.begin(); while (i--) ++q; int f = *q; bool er = n > 6 ? choose(2) : (f + x.size()) % 2; op(er ? "erase(%d)" : "pop(%d)", f);
        if (er) { auto it = a.erase(kfind(a, f)); q = x.erase(q); if (q == x.end()) CHECK(P, it == a.end(), "erase result"); else CHECK(P, it != a.end() && val(*it) == *q, "erase result"); } else { a.pop(E(f)); x.erase(q); }
        tree_cmp(a, x, P); if (n <= 6 && n - (int)x.size() >= 3) break; }
}
// ---------------------------------------------------------------- Map
struct V : E { V() : E(0) {} V(int k) : E(k) {} };
typedef KeyValue<const E, V> KV;
typedef Map<E, V, less<E>, AVLTree<KV, KVCMPKey<KV, less<E>>, TA>> MP;
static void map_cmp(MP &a, const std::map<int, int> &x, const char *P) {
    CHECK(P, a.size() == x.size() && a.empty() == x.empty(), "size %d, expected %d", (int)a.size(), (int)x.size());
    auto q = x.begin(); for (auto it = a.begin(); it != a.end(); it++, ++q) { CHECK(P, q != x.end(), "iteration runs on"); CHECK(P, val(it->key) == q->first && val(it->value) == q->second, "pair (%d,%d), expected (%d,%d)", val(it->key), val(it->value), q->first, q->second); }
    CHECK(P, q == x.end(), "iteration stops early");
    const MP &c = a;
    for (int k = -1; k < 70; k++) { auto it = a.find(E(k)); bool f = it != a.end(); CHECK(P, f == (x.count(k) > 0), "find(%d)", k); if (f) { CHECK(P, val(it->value) == x.at(k), "value of %d is %d, expected %d", k, val(it->value), x.at(k)); CHECK(P, val(c[E(k)]) == x.at(k), "const index of %d", k); } if (x.empty()) break; if (k > 8 && (k & 3)) k++; }
}
static void map_run(int maxops) {
    const char *P = "C20"; MP t[2]; std::map<int, int> m[2]; if (maxops > 120) maxops = 120; int range = maxops > 12 ? 8 + choose(50) : 6, fv = 0;
    map_cmp(t[0], m[0], P);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(5) == 4; MP &a = t[w], &b = t[1 - w]; auto &x = m[w]; auto &y = m[1 - w]; int f = choose(range);
        switch (choose(10)) {
        case 0: case 1: op("m%d[%d]=%d", w, f, ++fv); a[E(f)] = V(fv); x[f] = fv; break;
        case 2: op("m%d[%d]", w, f); CHECK(P, val(a[E(f)]) == x[f], "indexing %d gives %d, expected %d", f, val(a[E(f)]), x[f]); break;
        case 3: if (!x.count(f)) { op("m%d.push(%d,%d)", w, f, ++fv); a.push(KV(E(f), V(fv))); x[f] = fv; } break;
        case 4: op("m%d.pop(%d)", w, f); a.pop(E(f)); x.erase(f); break;
        case 5: case 6: if (x.size()) { int i = choose(x.size()); auto q = x.begin(); while (i--) ++q; int g = q->first; op("m%d.erase(find(%d))", w, g); auto it = a.find(E(g)); auto r = a.erase(it); q = x.erase(q); if (q == x.end()) CHECK(P, r == a.end(), "erase result"); else CHECK(P, r != a.end() && val(r->key) == q->first, "erase result"); } break;
        case 7: if (choose(5) == 4) { op("m%d = itself (copy)", w); auto &self = a; a = self; } else { op("m%d=m%d", w, 1 - w); a = b; x = y; } break;
        case 8: if (choose(2)) { op("m%d=move(m%d)", w, 1 - w); a = dstruct::move(b); x = y; y.clear(); } else { op("c(m%d)", w); MP c(a); c[E(f)] = V(-5); MP d(dstruct::move(c)); d.pop(E(f)); } break;
        case 9: if (choose(4) == 0) { op("m%d.clear", w); a.clear(); x.clear(); } else { int n = choose(10); op("m%d: fill %d", w, n); while (n--) { f = (f + 1) % range; a[E(f)] = V(++fv); x[f] = fv; } } break;
        }
        map_cmp(t[0], m[0], P); map_cmp(t[1], m[1], P);
        CHECK("C22", rt::blocks.size() == m[0].size() + m[1].size(), "%d nodes held for %d pairs", (int)rt::blocks.size(), (int)(m[0].size() + m[1].size()));
        CHECK("C22", rt::live.size() == 2 * (m[0].size() + m[1].size()), "%d keys and values alive for %d pairs", (int)rt::live.size(), (int)(m[0].size() + m[1].size()));
    }
}
// ---------------------------------------------------------------- rotations and height on arbitrary shapes
static Lk *build(std::vector<Lk> &pool, int n, Lk *parent) {
    if (n == 0) return nullptr;
    pool.push_back(Lk()); Lk *l = &pool.back(); l->parent = parent; int a = choose(n); l->left = build(pool, a, l); l->right = build(pool, n - 1 - a, l); return l;
}
static int flat(Lk *l, Lk *p, std::vector<Lk *> &v, const char *P) { if (!l) return 0; CHECK(P, l->parent == p, "parent link"); CHECK(P, v.size() < 500, "not a tree"); int a = flat(l->left, l, v, P); v.push_back(l); int b = flat(l->right, l, v, P); return 1 + (a > b ? a : b); }
static void rot_run(int maxops) {
    const char *P = "C23"; std::vector<Lk> pool; pool.reserve(64); int n = maxops < 8 ? maxops : 1 + choose(20); Lk outer; bool top = choose(2); Lk *par = top ? nullptr : &outer;
    Lk *r = build(pool, n, par); std::vector<Lk *> before; int h = flat(r, par, before, P); op("n=%d h=%d top=%d", n, h, (int)top);
    CHECK(P, tree::height(r) == h, "height is %d, expected %d", tree::height(r), h); CHECK(P, tree::height(nullptr) == 0, "height of the empty tree");
    for (int k = 0; k < 6; k++) {
        bool left = choose(2); Lk *nr = left ? r->right : r->left; if (!nr) { left = !left; nr = left ? r->right : r->left; } if (!nr) break;
        Lk o = outer; op(left ? "left" : "right"); Lk *q = left ? tree::left_rotate(r) : tree::right_rotate(r);
        CHECK(P, q == nr, "returned root is not the old child"); CHECK(P, !memcmp(&o, &outer, sizeof o), "parent was written"); CHECK(P, (left ? q->left : q->right) == r, "old root is not the child");
        std::vector<Lk *> after; flat(q, par, after, P); CHECK(P, after == before, "in-order sequence changed"); r = q;
    }
}
// a comparison with state: it travels with the contents when they are copied or moved
struct Ord { int s; Ord(int x = 1) : s(x) { } bool operator()(const E &a, const E &b) const { return s > 0 ? val(a) < val(b) : val(b) < val(a); } };
template <class T, int C> static void ord_run(int maxops) {
    const char *P = C == 18 ? "C18" : "C19"; T t[2] = {T(Ord(1)), T(Ord(-1))}; int sg[2] = {1, -1}; MS m[2]; int range = 4 + choose(20);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2);
        switch (choose(6)) {
        case 0: case 1: case 2: { int f = choose(range); op("t%d.push(%d)", w, f); if (!m[w].count(f)) { t[w].push(E(f)); m[w].insert(f); } break; }
        case 3: { int f = choose(range); op("t%d.pop(%d)", w, f); t[w].pop(E(f)); m[w].erase(f); break; }
        case 4: op("t%d=t%d", w, 1 - w); t[w] = t[1 - w]; m[w] = m[1 - w]; sg[w] = sg[1 - w]; break;
        case 5: op("t%d=move(t%d)", w, 1 - w); { T c(dstruct::move(t[1 - w])); t[w] = dstruct::move(c); m[w] = m[1 - w]; sg[w] = sg[1 - w]; m[1 - w].clear(); } break;
        }
        for (int i = 0; i < 2; i++) {
            CHECK(P, t[i].size() == m[i].size(), "size %d, expected %d", (int)t[i].size(), (int)m[i].size());
            std::vector<int> e(m[i].begin(), m[i].end()); if (sg[i] < 0) std::reverse(e.begin(), e.end()); unsigned j = 0;
            for (auto it = t[i].begin(); it != t[i].end(); it++, j++) CHECK(P, j < e.size() && val(*it) == e[j], "in-order step %d", j);
            CHECK(P, j == e.size(), "iteration stops after %d of %d", j, (int)e.size());
            for (int f = 0; f < range; f++) CHECK(P, (t[i].find(E(f)) != t[i].end()) == (m[i].count(f) > 0), "find(%d)", f);
        }
    }
}
static const rt::Scenario SC[] = {
    {"bst", "C18,C21,C22", "C22", "C18,C21,C22", tree_run<BST, 18>, 2}, {"avl", "C19,C21,C22", "C22", "C19,C21,C22", tree_run<AVL, 19>, 2},
    {"bst-perm", "C18,C21,C22", "C22", "C18,C22", perm_run<BST, 18>, 2}, {"avl-perm", "C19,C21,C22", "C22", "C19,C22", perm_run<AVL, 19>, 2},
    {"bst-stateful-order", "C18", "", "C18", ord_run<tree::BinarySearchTree<E, Ord, TA>, 18>, 1}, {"avl-stateful-order", "C19", "", "C19", ord_run<AVLTree<E, Ord, TA>, 19>, 1},
    {"map", "C20,C22", "C22", "C20,C22", map_run, 2}, {"rotate", "C23", "", "C23", rot_run, 1},
};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
