#include "common.hpp"
using namespace dstruct;
typedef std::vector<int> M;
static int nid = 0;
struct ByKey { bool operator()(const E &a, const E &b) const { E::ok(&a, "comparison"); E::ok(&b, "comparison"); return a.key < b.key; } };
struct ByKeyG { bool operator()(const E &a, const E &b) const { E::ok(&a, "comparison"); E::ok(&b, "comparison"); return a.key > b.key; } };
static bool before(int a, int b, bool less) { return less ? a < b : a > b; }
typedef std::multiset<std::pair<int, int>> MS;

template <class H> static void heap_cmp(H &h, const MS &m, bool less, const char *P) {
    CHECK(P, h.size() == m.size() && h.empty() == m.empty(), "size %d, expected %d", (int)h.size(), (int)m.size());
    MS seen; std::vector<int> ks;
    for (auto it = h.begin(); it != h.end(); it++) { CHECK(P, ks.size() <= m.size(), "iteration runs on"); E::ok(&*it, "read"); seen.insert({(*it).key, (*it).id}); ks.push_back((*it).key); }
    CHECK(P, seen == m, "the heap does not hold exactly the elements pushed and not popped");
    for (int i = 2; i <= (int)ks.size(); i++) CHECK(P, !before(ks[i - 1], ks[i / 2 - 1], less), "child %d (%d) precedes its parent (%d)", i, ks[i - 1], ks[i / 2 - 1]);
    if (!m.empty()) { E t = h.top(); int e = less ? m.begin()->first : m.rbegin()->first; CHECK(P, t.key == e, "top is %d, expected %d", t.key, e); CHECK(P, m.count({t.key, t.id}), "top is not an element"); }
}
template <class H, bool LESS> static void heap_run(int maxops) {
    const char *P = "C06"; nid = 0; H h[2]; MS m[2];
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(4) == 3; H &a = h[w]; MS &x = m[w];
        switch (choose(9)) {
        case 0: case 1: { int f = choose(6); op("h%d.push(%d)", w, f); E e(f, ++nid); a.push(e); x.insert({f, nid}); break; }
        case 2: case 3: if (x.size()) { op("h%d.pop", w); E t = a.top(); a.pop(); x.erase(x.find({t.key, t.id})); } break;
        case 4: { int r = choose(30); op("h%d: push x %d", w, r); while (r--) { int f = choose(2) ? choose(10) : nid % 17; E e(f, ++nid); a.push(e); x.insert({f, nid}); } break; }
        case 5: { int r = choose(30); op("h%d: pop x %d", w, r); while (r-- && x.size()) { E t = a.top(); CHECK(P, x.count({t.key, t.id}), "top is not an element"); a.pop(); x.erase(x.find({t.key, t.id})); } break; }
        case 6: if (choose(5) == 4) { op("h%d = itself (copy)", w); auto &self = a; a = self; } else { op("h%d=h%d", w, 1 - w); a = h[1 - w]; x = m[1 - w]; } break;
        case 7: op("h%d=move(h%d)", w, 1 - w); { H c(dstruct::move(h[1 - w])); CHECK(P, h[1 - w].empty(), "moved-from heap is not empty"); a = dstruct::move(c); x = m[1 - w]; m[1 - w].clear(); } break;
        case 8: { int r = choose(12); op("h%d = H(range of %d)", w, r); std::vector<E> v; x.clear(); for (int i = 0; i < r; i++) { int f = choose(5); v.emplace_back(f, ++nid); x.insert({f, nid}); }
                  E *p = v.data(); H c(typename H::IteratorType(p), typename H::IteratorType(p + r)); a = c; break; }
        }
        heap_cmp(h[0], m[0], LESS, P); heap_cmp(h[1], m[1], LESS, P);
    }
}
// a comparison with state: it travels with the contents when they are copied or moved
struct Ord { int s; Ord(int x = 1) : s(x) { } bool operator()(const E &a, const E &b) const { return s > 0 ? val(a) < val(b) : val(b) < val(a); } };
static void ord_run(int maxops) {
    const char *P = "C06"; nid = 0; typedef Heap<E, Ord, TA> H; H h[2] = {H(Ord(1)), H(Ord(-1))}; int sg[2] = {1, -1}; MS m[2];
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2);
        switch (choose(5)) {
        case 0: case 1: { int f = choose(6); op("h%d.push(%d)", w, f); E e(f, ++nid); h[w].push(e); m[w].insert({f, nid}); break; }
        case 2: if (m[w].size()) { op("h%d.pop", w); E t = h[w].top(); h[w].pop(); m[w].erase(m[w].find({t.key, t.id})); } break;
        case 3: op("h%d=h%d", w, 1 - w); h[w] = h[1 - w]; m[w] = m[1 - w]; sg[w] = sg[1 - w]; break;
        case 4: op("h%d=move(h%d)", w, 1 - w); { H c(dstruct::move(h[1 - w])); h[w] = dstruct::move(c); m[w] = m[1 - w]; sg[w] = sg[1 - w]; m[1 - w].clear(); } break;
        }
        for (int i = 0; i < 2; i++) heap_cmp(h[i], m[i], sg[i] > 0, P);
    }
}
template <class H, bool LESS> static void sort_run(int maxops) {
    const char *P = "C07"; nid = 0;
    int n = maxops > 40 ? choose(2) ? choose(200) : choose(12) : choose(maxops < 8 ? maxops + 1 : 9), kinds = n < 8 ? 4 : 1 + choose(50);
    std::vector<E> v; MS m;
    v.emplace_back(1000, -1);
    for (int i = 0; i < n; i++) { int f = choose(kinds); v.emplace_back(f, ++nid); m.insert({f, nid}); op("%d", f); }
    v.emplace_back(2000, -2);
    E *p = v.data() + 1; typename H::IteratorType b(p), e(p + n);
    int mode = choose(2);
    if (mode) { op("sort"); H::sort(b, e); }
    else { op("build"); H h = H::build(b, e); heap_cmp(h, m, LESS, P);
        while (!m.empty()) { E t = h.top(); h.pop(); CHECK(P, m.count({t.key, t.id}), "heap from build"); m.erase(m.find({t.key, t.id})); heap_cmp(h, m, LESS, P); }
        for (int i = 1; i <= n; i++) m.insert({v[i].key, v[i].id}); }
    MS s; for (int i = 1; i <= n; i++) s.insert({v[i].key, v[i].id});
    if (mode) CHECK(P, s == m, "not a permutation of the input"); else { std::set<int> ids; for (auto &q : s) ids.insert(q.second); CHECK(P, (int)ids.size() == n, "build lost an element"); }
    CHECK(P, v[0].key == 1000 && v[n + 1].key == 2000, "outside the range changed");
    for (int i = 2; i <= n; i++) { if (mode) CHECK(P, !before(v[i].key, v[i - 1].key, LESS), "not sorted at %d", i - 1); else CHECK(P, !before(v[i].key, v[i / 2].key, LESS), "not in heap order at %d", i); }
}
static void pq_run(int maxops) {
    const char *P = "C06"; PriorityQueue<int> q; std::multiset<int> m; if (maxops > 100) maxops = 100;
    for (int k = 0; k < maxops && rt::more(); k++) {
        if (m.empty() || choose(2)) { int f = choose(9); op("push(%d)", f); q.push(f); m.insert(f); } else { op("pop"); q.pop(); m.erase(m.begin()); }
        CHECK(P, q.size() == m.size(), "size"); if (!m.empty()) CHECK(P, q.top() == *m.begin(), "top is %d, expected %d", q.top(), *m.begin());
    }
}
// ---------------------------------------------------------------- DisjointSet
static void dsu_run(int maxops) {
    const char *P = "C08"; int n = maxops > 12 ? 1 + choose(40) : 1 + choose(6);
    DisjointSet<TA> d(n); std::vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i; op("n=%d", n);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int a = choose(n), b = choose(n);
        auto join = [&](int x, int y) { int o = c[x], q = c[y]; for (auto &z : c) if (z == o) z = q; };
        switch (choose(6)) {
        case 0: case 1: op("connect(%d,%d)", a, b); d.connect(a, b); join(a, b); break;
        case 2: { op("find(%d)", a); int r = d.find(a); CHECK(P, r >= 0 && r < n && c[r] == c[a], "representative of %d is %d, not in its set", a, r); break; }
        case 3: op("connected(%d,%d)", a, b); CHECK(P, d.connected(a, b) == (c[a] == c[b]), "connected(%d,%d)", a, b); break;
        case 4: { int ra = d.find(a), rb = d.find(b); op("union_set(%d,%d)", ra, rb); d.union_set(ra, rb); join(a, b); break; }
        case 5: { op("copy"); DisjointSet<TA> e(d); for (int i = 0; i + 1 < n; i++) e.connect(i, i + 1); CHECK(P, e.count() == 1, "count of joined copy"); if (choose(2)) { DisjointSet<TA> f(d); d = dstruct::move(f); } break; }
        }
        CHECK(P, (int)d.size() == n && !d.empty(), "size");
        std::set<int> s(c.begin(), c.end()); CHECK(P, d.count() == s.size(), "count is %d, expected %d", (int)d.count(), (int)s.size());
        if (choose(2)) { DisjointSet<TA> e(d); std::map<int, int> rep; for (int i = 0; i < n; i++) { int r = e.find(i); CHECK(P, r >= 0 && r < n && c[r] == c[i], "representative of %d is %d", i, r); if (rep.count(c[i])) CHECK(P, rep[c[i]] == r, "two representatives"); rep[c[i]] = r; CHECK(P, e.find(r) == r, "representative's representative"); } }
    }
}
static void dsu_big(int) {
    const char *P = "C08"; int n = 200 + choose(800); DisjointSet<TA> d(n); int mode = choose(4); op("n=%d mode %d", n, mode);
    for (int i = 0; i + 1 < n; i++) { if (mode == 0) d.connect(i, i + 1); else if (mode == 1) d.connect(n - 1 - i, n - 2 - i); else if (mode == 2) d.connect(0, i + 1); else d.connect(i + 1, i); if (i % 97 == 0) CHECK(P, (int)d.count() == n - 1 - i, "count"); }
    for (int i = 0; i < n; i++) CHECK(P, d.find(i) == d.find(0) && d.connected(i, n - 1 - i), "connected");
}
static const rt::Scenario SC[] = {
    {"minheap", "C06", "", "C06", heap_run<Heap<E, ByKey, TA>, true>, 2}, {"maxheap", "C06", "", "C06", heap_run<Heap<E, ByKeyG, TA>, false>, 2}, {"heap-stateful-order", "C06", "", "C06", ord_run, 1}, {"priority-queue", "C06", "", "C06", pq_run, 1},
    {"sort-min", "C07", "", "C07", sort_run<Heap<E, ByKey, TA>, true>, 1}, {"sort-max", "C07", "", "C07", sort_run<Heap<E, ByKeyG, TA>, false>, 1},
    {"dsu", "C08", "", "C08", dsu_run, 3}, {"dsu-big", "C08", "", "C08", dsu_big, 1},
};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
