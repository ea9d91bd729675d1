#include "common.hpp"
using namespace dstruct;
typedef std::vector<int> M;
static int fresh;
template <class L> struct Back { static const bool dbl = false; };
template <> struct Back<DLinkedList<E, TA>> { static const bool dbl = true; };
static void pop_back(SLinkedList<E, TA> &l) { l._pop_back(); }
static void pop_back(DLinkedList<E, TA> &l) { l.pop_back(); }
static void back_walk(const SLinkedList<E, TA> &, const M &, const char *) {}
static void back_walk(const DLinkedList<E, TA> &l, const M &m, const char *P) {
    auto it = l.end(); for (int i = (int)m.size() - 1; i >= 0; i--) { if (i & 1) --it; else it--; CHECK(P, val(*it) == m[i], "backward iteration at %d", i); }
    --it; CHECK(P, it == l.end(), "backward iteration does not return to the end");
}
template <class L> static void list_cmp(L &l, const M &m, const char *P) {
    int n = m.size();
    CHECK(P, (int)l.size() == n && l.empty() == m.empty(), "size %d, expected %d", (int)l.size(), n);
    int i = 0; for (auto it = l.begin(); it != l.end(); it++, i++) { CHECK(P, i < n, "iteration runs past the end"); CHECK(P, val(*it) == m[i], "iteration step %d gives %d, expected %d", i, val(*it), m[i]); }
    CHECK(P, i == n, "iteration stops after %d of %d", i, n);
    const L &c = l; i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) { CHECK(P, i < n && val(*it) == m[i], "const iteration step %d", i); }
    CHECK(P, i == n, "iteration stops after %d of %d", i, n);
    if (n) CHECK(P, val(l.front()) == m[0] && val(l.back()) == m[n - 1], "front/back");
    back_walk(l, m, P);
}
template <class L> static void list_run(int maxops) {
    const char *P = Back<L>::dbl ? "C12" : "C11"; fresh = 0; long base = rt::live.size();
    L l[2]; M m[2]; if (maxops > 150) maxops = 150; long heads = rt::live.size() - base;
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2); L &a = l[w], &b = l[1 - w]; M &x = m[w], &y = m[1 - w];
        switch (choose(15)) {
        case 0: case 1: { int f = ++fresh % 100; op("l%d.push_back(%d)", w, f); a.push_back(E(f)); x.push_back(f); break; }
        case 2: { int f = ++fresh % 100; op("l%d.push_front(%d)", w, f); a.push_front(E(f)); x.insert(x.begin(), f); break; }
        case 3: { int f = ++fresh % 100; op("l%d.push(%d)", w, f); a.push(E(f)); x.insert(x.begin(), f); break; }
        case 4: if (x.size()) { op("l%d.pop_front", w); a.pop_front(); x.erase(x.begin()); } break;
        case 5: if (x.size()) { op("l%d.pop", w); a.pop(); x.erase(x.begin()); } break;
        case 6: case 7: if (x.size()) { op("l%d.pop_back", w); pop_back(a); x.pop_back(); } break;
        case 8: op("l%d.clear", w); a.clear(); x.clear(); break;
        case 9: if (choose(5) == 4) { op("l%d = itself (copy)", w); auto &self = a; a = self; } else { op("l%d=l%d", w, 1 - w); a = b; x = y; } break;
        case 10: op("l%d=move(l%d)", w, 1 - w); a = dstruct::move(b); x = y; y.clear(); break;
        case 11: { op("c(l%d)", w); L c(a); list_cmp(c, x, P); c.push_back(E(3)); c.push_front(E(4)); if (choose(2)) pop_back(c); break; }
        case 12: { op("c(move(l%d))", w); L c(dstruct::move(a)); list_cmp(c, x, P); list_cmp(a, M(), P); c.push_back(E(7)); c.push_front(E(8)); x.push_back(7); x.insert(x.begin(), 8); a.push_back(E(1)); list_cmp(c, x, P); a = dstruct::move(c); break; }
        case 13: { int s = choose(5), f = ++fresh % 100; op("L(%d,%d)", s, f); L c(s, E(f)); M z(s, f); list_cmp(c, z, P); a = c; x = z; break; }
        case 14: op("l%d=l%d (self)", w, w); a = const_cast<const L &>(a); break;
        }
        list_cmp(l[0], m[0], P); list_cmp(l[1], m[1], P);
        CHECK("C13", (long)rt::blocks.size() == (long)(m[0].size() + m[1].size()), "%d nodes held for %d elements", (int)rt::blocks.size(), (int)(m[0].size() + m[1].size()));
        CHECK("C13", (long)rt::live.size() - base - heads == (long)(m[0].size() + m[1].size()), "%d elements alive for %d", (int)((long)rt::live.size() - base - heads), (int)(m[0].size() + m[1].size()));
    }
}
// ---------------------------------------------------------------- embedded links
template <class Link> struct Prev { static void chk(Link **, int, bool, const char *) {} };
template <> struct Prev<DoublyLink_> { static void chk(DoublyLink_ **v, int n, bool circ, const char *P) {
    for (int i = 1; i < n; i++) CHECK(P, v[i]->prev == v[i - 1], "backward link %d", i);
    if (circ) CHECK(P, v[0]->prev == v[n - 1], "backward link of the head"); } };
template <class Link> static void emb_run(int maxops) {
    const char *P = "C14"; typedef EmbeddedListNode_<int, Link> N; if (maxops > 200) maxops = 200;
    static N pool[64]; for (int i = 0; i < 64; i++) { memset(&pool[i], 0, sizeof(N)); pool[i].data = 1000 + i; }
    bool circ = choose(2); std::vector<int> order(1, 0); std::vector<int> freel; for (int i = 63; i > 0; i--) freel.push_back(i);
    if (circ) { N::init(&pool[0]); CHECK(P, N::empty(&pool[0]), "initialised list is not empty"); } op(circ ? "circular" : "open");
    for (int k = 0; k < maxops && rt::more(); k++) {
        int n = order.size(), i = choose(n);
        bool node = choose(2);
        if (choose(2) && !freel.empty()) { int c = freel.back(); freel.pop_back(); op("add after %d", i);
            memset((void *)&pool[c].link, 0x5A, sizeof(Link));
            if (node) N::add(&pool[order[i]], &pool[c]); else Link::add(&pool[order[i]].link, &pool[c].link); order.insert(order.begin() + i + 1, c); }
        else if (n > 1 && i + 1 < n) { int c = order[i + 1]; op("del %d", i + 1); if (node) N::del(&pool[order[i]], &pool[c]); else Link::del(&pool[order[i]].link, &pool[c].link);
            CHECK(P, pool[c].link.next == nullptr, "removed link still points into the list"); order.erase(order.begin() + i + 1); freel.push_back(c); }
        std::vector<Link *> v; for (int o : order) v.push_back(N::to_link(&pool[o]));
        n = v.size();
        for (int j = 0; j + 1 < n; j++) CHECK(P, v[j]->next == v[j + 1], "forward link %d", j);
        CHECK(P, v[n - 1]->next == (circ ? v[0] : nullptr), "last forward link");
        Prev<Link>::chk(v.data(), n, circ, P);
        if (circ) CHECK(P, N::empty(&pool[0]) == (n == 1), "empty()");
        for (int j = 0; j < 64; j++) { CHECK(P, pool[j].data == 1000 + j, "payload changed"); CHECK(P, N::to_node(N::to_link(&pool[j])) == &pool[j], "node/link conversion"); }
        for (int f : freel) if (f < 64 && std::find(order.begin(), order.end(), f) != order.end()) CHECK(P, false, "driver");
    }
}
static const rt::Scenario SC[] = {
    {"slist", "C11,C13", "C13", "C11,C13", list_run<SLinkedList<E, TA>>, 1}, {"dlist", "C12,C13", "C13", "C12,C13", list_run<DLinkedList<E, TA>>, 1},
    {"embedded-single", "C14", "", "C14", emb_run<SinglyLink_>, 1}, {"embedded-double", "C14", "", "C14", emb_run<DoublyLink_>, 1},
};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
