#include "common.hpp"
using namespace dstruct;
typedef std::vector<int> M;

// ---------------------------------------------------------------- Vector
template <class V> static void cmp_vec(const V &v, const M &m, const char *P) {
    CHECK(P, v.size() == m.size(), "size %d, expected %d", (int)v.size(), (int)m.size());
    CHECK(P, v.empty() == m.empty(), "empty() is wrong at size %d", (int)m.size());
    CHECK(P, v.capacity() >= v.size(), "capacity %d below size %d", (int)v.capacity(), (int)v.size());
    int n = m.size();
    for (int i = 0; i < n; i++) {
        CHECK(P, val(v[i]) == m[i], "element %d is %d, expected %d", i, val(v[i]), m[i]);
        CHECK(P, &v[i - n] == &v[i], "index %d is not index %d", i - n, i);
    }
    if (n) { CHECK(P, val(v.front()) == m[0], "front is wrong"); CHECK(P, val(v.back()) == m[n - 1], "back is wrong"); }
    int i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) { CHECK(P, i < n, "iteration runs past the end"); CHECK(P, val(*it) == m[i], "iteration step %d gives %d, expected %d", i, val(*it), m[i]); }
    CHECK(P, i == n, "iteration stops after %d of %d", i, n);
    i = 0; V &w = const_cast<V &>(v);
    for (auto it = w.begin(); it != w.end(); it++, ++i) { CHECK(P, i < n, "iteration runs past the end"); CHECK(P, val(*it) == m[i], "iteration step %d", i); }
    CHECK(P, i == n, "iteration stops after %d of %d", i, n);
}
static int fresh = 0;
template <class V, class T> static void vec_run(int maxops) {
    const char *P = "C01";
    fresh = 0;
    V v[2]; M m[2];
    for (int k = 0; k < maxops && rt::more(); k++) {
        int which = choose(2); V &a = v[which], &b = v[1 - which]; M &x = m[which], &y = m[1 - which];
        int n = x.size();
        switch (choose(17)) {
        case 0: { int f = ++fresh % 100; op("v%d.push_back(%d)", which, f); a.push_back(T(f)); x.push_back(f); break; }
        case 1: if (n) { op("v%d.pop_back", which); a.pop_back(); x.pop_back(); } break;
        case 2: { int f = ++fresh % 100; int r = choose(4) + 1; if (choose(2)) r *= 7; op("v%d: push x %d", which, r); while (r--) { a.push(T(f)); x.push_back(f); } break; }
        case 3: { int r = choose(3) ? choose(n + 1) : n; op("v%d: pop x %d", which, r); while (r--) { a.pop(); x.pop_back(); } break; }
        case 4: if (n) { int i = choose(n), f = ++fresh % 100; op("v%d[%d]=%d", which, i, f); a[choose(2) ? i : i - n] = T(f); x[i] = f; } break;
        case 5: { int s = choose(2 * n + 4); op("v%d.resize(%d)", which, s); a.resize(s); if (s < n) x.resize(s); CHECK(P, (int)a.capacity() == s, "capacity after resize(%d)", s); break; }
        case 6: { int s = choose(2 * n + 4), f = ++fresh % 100; op("v%d.resize(%d,%d)", which, s, f); a.resize(s, T(f)); x.resize(s, f); break; }
        case 7: op("v%d.clear", which); a.clear(); x.clear(); break;
        case 8: if (choose(5) == 4) { op("v%d = itself (copy)", which); auto &self = a; a = self; } else { op("v%d = v%d (copy)", which, 1 - which); a = b; x = y; } break;
        case 9: op("v%d = move(v%d)", which, 1 - which); a = dstruct::move(b); x = y; y.clear(); break;
        case 10: { op("V c(v%d)", which); V c(a); cmp_vec(c, x, P); c.push_back(T(7)); if (c.size() > 1) c[0] = T(8); break; }
        case 11: { op("V c(move(v%d))", which); V c(dstruct::move(a)); cmp_vec(c, x, P); cmp_vec(a, M(), P); a = dstruct::move(c); break; }
        case 12: { int s = choose(6) + 1, f = ++fresh % 100; op("v%d = V(%d,%d)", which, s, f); a = V(s, T(f)); x.assign(s, f); break; }
        case 13: op("v%d = v%d (self)", which, which); a = const_cast<const V &>(a); break;
        case 14: if (n) { int i = choose(n); op("v%d.push_back(v%d[%d])", which, which, i); a.push_back(a[i]); x.push_back(x[i]); } break;
        case 15: if (n) { int i = choose(n), s = choose(2 * n + 3); op("v%d.resize(%d, v%d[%d])", which, s, which, i); int t = x[i]; a.resize(s, a[i]); x.resize(s, t); } break;
        case 16: op("v%d = move(v%d) (self)", which, which); a = dstruct::move(a); break;
        }
        cmp_vec(v[0], m[0], P); cmp_vec(v[1], m[1], P);
    }
}
// ---------------------------------------------------------------- Array
template <int N> static void arr_cmp(const Array<E, N> &a, const int *m, const char *P) {
    CHECK(P, a.size() == N && a.capacity() == N && a.empty() == (N == 0), "size/capacity");
    for (int i = 0; i < N; i++) { CHECK(P, val(a[i]) == m[i], "element %d is %d, expected %d", i, val(a[i]), m[i]); CHECK(P, &a[i - N] == &a[i], "index %d", i - N); }
    CHECK(P, &a.front() == &a[0] && &a.back() == &a[N - 1], "front/back");
    int i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) { CHECK(P, i < N, "iteration overruns"); CHECK(P, &*it == &a[i], "iteration"); }
    CHECK(P, i == N, "iteration stops early");
    for (int x = 0; x <= N; x++) for (int y = 0; y <= N; y++) CHECK(P, dstruct::distance(a.begin() + x, a.begin() + y) == y - x, "distance %d %d", x, y);
    auto e = a.end(); for (i = N - 1; i >= 0; i--) { if (i & 1) --e; else e--; CHECK(P, &*e == &a[i], "backward iteration"); }
    for (i = 0; i < N; i++) CHECK(P, &*(a.end() - (N - i)) == &a[i], "end - n");
}
template <int N> static void arr_run(int maxops) {
    const char *P = "C03"; fresh = 0;
    Array<E, N> a, b(E(5)); int x[N], y[N];
    for (int i = 0; i < N; i++) { x[i] = 0; y[i] = 5; }
    arr_cmp<N>(a, x, P); arr_cmp<N>(b, y, P);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int i = choose(N), f = ++fresh;
        switch (choose(7)) {
        case 0: op("a[%d]=%d", i, f); a[i] = E(f); x[i] = f; break;
        case 1: op("a[%d]=%d", i - N, f); a[i - N] = E(f); x[i] = f; break;
        case 2: op("b[%d]=%d", i, f); *(b.begin() + i) = E(f); y[i] = f; break;
        case 3: op("a=b"); a = b; memcpy(x, y, sizeof x); break;
        case 4: op("b=move(a)"); b = dstruct::move(a); memcpy(y, x, sizeof x); memcpy(x, y, sizeof x); for (int j = 0; j < N; j++) a[j] = E(x[j]); break;
        case 5: { op("c(a)"); Array<E, N> c(a); arr_cmp<N>(c, x, P); c[i] = E(f); break; }
        case 6: { op("c(move(copy))"); Array<E, N> t(a); Array<E, N> c(dstruct::move(t)); arr_cmp<N>(c, x, P); break; }
        }
        arr_cmp<N>(a, x, P); arr_cmp<N>(b, y, P);
    }
}
// ---------------------------------------------------------------- Stack
template <class S> static void stack_cmp(const S &s, const M &m, const char *P) {
    CHECK(P, s.size() == m.size() && s.empty() == m.empty(), "size %d, expected %d", (int)s.size(), (int)m.size());
    if (!m.empty()) CHECK(P, val(s.top()) == m.back(), "top is %d, expected %d", val(s.top()), m.back());
    int i = 0; for (auto it = s.begin(); it != s.end(); it++, i++) { CHECK(P, i < (int)m.size() && val(*it) == m[i], "iteration step %d", i); }
    CHECK(P, i == (int)m.size(), "iteration count");
}
static void stack_run(int maxops) {
    const char *P = "C04"; fresh = 0; typedef Stack<E, TA> S; S s[2]; M m[2];
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2);
        switch (choose(7)) {
        case 0: case 1: { int f = ++fresh % 50; op("s%d.push(%d)", w, f); s[w].push(E(f)); m[w].push_back(f); break; }
        case 2: if (!m[w].empty()) { op("s%d.pop", w); s[w].pop(); m[w].pop_back(); } break;
        case 3: op("s%d.clear", w); s[w].clear(); m[w].clear(); break;
        case 4: if (choose(5) == 4) { op("s%d = itself (copy)", w); auto &self = s[w]; s[w] = self; } else { op("s%d=s%d", w, 1 - w); s[w] = s[1 - w]; m[w] = m[1 - w]; } break;
        case 5: { op("c(s%d)", w); S c(s[w]); stack_cmp(c, m[w], P); c.push(E(3)); break; }
        case 6: { int r = choose(2) ? 20 : 5; op("s%d: push x %d", w, r); while (r--) { int f = ++fresh % 50; s[w].push(E(f)); m[w].push_back(f); } break; }
        }
        // drain a copy: the whole stack comes back in reverse order
        stack_cmp(s[0], m[0], P); stack_cmp(s[1], m[1], P);
        S c(s[w]); M n = m[w];
        while (!n.empty()) { CHECK(P, !c.empty() && val(c.top()) == n.back(), "drain"); c.pop(); n.pop_back(); }
        CHECK(P, c.empty(), "not empty after draining");
    }
}
// ---------------------------------------------------------------- Min/MaxStack
template <class S, bool MIN> static void xs_run(int maxops) {
    const char *P = "C05"; S s[2]; M m[2];
    auto cmp = [&](S &t, const M &x) {
        CHECK(P, t.empty() == x.empty(), "empty() is wrong at size %d", (int)x.size());
        if (!x.empty()) {
            CHECK(P, val(t.top()) == x.back(), "top is %d, expected %d", val(t.top()), x.back());
            int e = MIN ? *std::min_element(x.begin(), x.end()) : *std::max_element(x.begin(), x.end());
            CHECK(P, val(t.getXValue()) == e, "extreme is %d, expected %d", val(t.getXValue()), e);
        }
    };
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2);
        switch (choose(7)) {
        case 0: case 1: { int f = choose(3) ? choose(3) : choose(5) - 2; op("s%d.push(%d)", w, f); s[w].push(E(f)); m[w].push_back(f); break; }
        case 2: if (!m[w].empty()) { op("s%d.pop", w); s[w].pop(); m[w].pop_back(); } break;
        case 3: op("s%d.clear", w); s[w].clear(); m[w].clear(); break;
        case 4: if (choose(5) == 4) { op("s%d = itself (copy)", w); auto &self = s[w]; s[w] = self; } else { op("s%d=s%d", w, 1 - w); s[w] = s[1 - w]; m[w] = m[1 - w]; } break;
        case 5: op("s%d=move(s%d)", w, 1 - w); { S c(dstruct::move(s[1 - w])); s[w] = dstruct::move(c); m[w] = m[1 - w]; s[1 - w] = S(); m[1 - w].clear(); } break;
        case 6: if (!m[w].empty()) { int j = choose(3), f; auto it = s[w].begin(); while (j--) { auto n = it; ++n; if (n != s[w].end()) it = n; } f = val(*it); op("s%d.push(an element of s%d)", w, w); s[w].push(*it); m[w].push_back(f); } break;
        }
        cmp(s[0], m[0]); cmp(s[1], m[1]);
        S c(s[w]); M n = m[w];
        while (!n.empty()) { c.pop(); n.pop_back(); cmp(c, n); }
    }
}
// a comparison with state: it travels with the contents when they are copied or moved
struct Ord { int s; Ord(int x = 1) : s(x) { } bool operator()(const E &a, const E &b) const { return s > 0 ? val(a) < val(b) : val(b) < val(a); } };
static void xs_ord_run(int maxops) {
    const char *P = "C05"; typedef stack::XValueStack<E, Ord, adapter::Stack<E, Vector<E, TA>>> S; S s[2] = {S(Ord(1)), S(Ord(-1))}; int sg[2] = {1, -1}; M m[2];
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2);
        switch (choose(6)) {
        case 0: case 1: { int f = choose(4); op("s%d.push(%d)", w, f); s[w].push(E(f)); m[w].push_back(f); break; }
        case 2: if (!m[w].empty()) { op("s%d.pop", w); s[w].pop(); m[w].pop_back(); } break;
        case 3: op("s%d=s%d", w, 1 - w); s[w] = s[1 - w]; m[w] = m[1 - w]; sg[w] = sg[1 - w]; break;
        case 4: { op("c(s%d)", w); S c(s[w]); int f = choose(4); c.push(E(f)); M n = m[w]; n.push_back(f); int e = sg[w] > 0 ? *std::min_element(n.begin(), n.end()) : *std::max_element(n.begin(), n.end()); CHECK(P, val(c.getXValue()) == e, "extreme of the copy is %d, expected %d", val(c.getXValue()), e); break; }
        case 5: op("s%d=move(s%d)", w, 1 - w); { S c(dstruct::move(s[1 - w])); s[w] = dstruct::move(c); m[w] = m[1 - w]; sg[w] = sg[1 - w]; s[1 - w] = S(Ord(sg[1 - w])); m[1 - w].clear(); } break;
        }
        for (int i = 0; i < 2; i++) if (!m[i].empty()) {
            int e = sg[i] > 0 ? *std::min_element(m[i].begin(), m[i].end()) : *std::max_element(m[i].begin(), m[i].end());
            CHECK(P, val(s[i].getXValue()) == e && val(s[i].top()) == m[i].back(), "extreme is %d, expected %d", val(s[i].getXValue()), e);
        }
    }
}
// ---------------------------------------------------------------- Deque
template <class D> static void deq_cmp(const D &d, const M &m, const char *P) {
    int n = m.size();
    CHECK(P, (int)d.size() == n && d.empty() == m.empty(), "size %d, expected %d", (int)d.size(), n);
    CHECK(P, d.capacity() >= d.size(), "capacity below size");
    if (n) { CHECK(P, val(d.front()) == m[0], "front is %d, expected %d", val(d.front()), m[0]); CHECK(P, val(d.back()) == m[n - 1], "back is %d, expected %d", val(d.back()), m[n - 1]); }
    int step = n > 40 ? n / 20 : 1;
    for (int i = 0; i < n; i += step) { CHECK(P, val(d[i]) == m[i], "element %d is %d, expected %d", i, val(d[i]), m[i]); CHECK(P, val(d[i - n]) == m[i], "element %d", i - n); }
    int i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) { CHECK(P, i < n, "iteration runs past the end"); CHECK(P, val(*it) == m[i], "iteration step %d gives %d, expected %d", i, val(*it), m[i]); }
    CHECK(P, i == n, "iteration stops after %d of %d", i, n);
    if (n) { auto it = d.end(); for (i = n - 1; i >= 0; i--) { if (i & 1) --it; else it--; CHECK(P, val(*it) == m[i], "backward iteration at %d", i); } CHECK(P, it == d.begin(), "backward iteration does not reach begin"); }
}
template <class D, class T> static void deq_run(int maxops) {
    const char *P = "C15"; fresh = 0; if (choose(2)) rt::AdjAlloc::down() = true; else rt::AdjAlloc::down() = false;
    D d[2]; M m[2]; unsigned long cap = 300; if (maxops > 60) maxops = 60 + maxops / 4;
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(4) == 3; D &a = d[w], &b = d[1 - w]; M &x = m[w], &y = m[1 - w];
        int c = choose(16);
        switch (c) {
        case 0: { int f = ++fresh % 100; op("d%d.push_back(%d)", w, f); a.push_back(T(f)); x.push_back(f); break; }
        case 1: { int f = ++fresh % 100; op("d%d.push_front(%d)", w, f); a.push_front(T(f)); x.insert(x.begin(), f); break; }
        case 2: if (x.size()) { op("d%d.pop_back", w); a.pop_back(); x.pop_back(); } break;
        case 3: if (x.size()) { op("d%d.pop_front", w); a.pop_front(); x.erase(x.begin()); } break;
        case 4: { int r = 1 + choose(9); op("d%d: push_back x %d", w, r); while (r-- && x.size() < cap) { int f = ++fresh % 100; a.push(T(f)); x.push_back(f); } break; }
        case 5: { int r = 1 + choose(9); op("d%d: push_front x %d", w, r); while (r-- && x.size() < cap) { int f = ++fresh % 100; a.push_front(T(f)); x.insert(x.begin(), f); } break; }
        case 6: { int r = choose(3) ? 1 + choose(9) : 1000; op("d%d: pop_back x %d", w, r); while (r-- && x.size()) { a.pop_back(); x.pop_back(); } break; }
        case 7: { int r = choose(3) ? 1 + choose(9) : 1000; op("d%d: pop_front x %d", w, r); while (r-- && x.size()) { a.pop(); x.erase(x.begin()); } break; }
        case 8: op("d%d.clear", w); a.clear(); x.clear(); break;
        case 9: if (choose(5) == 4) { op("d%d = itself (copy)", w); auto &self = a; a = self; } else { op("d%d=d%d", w, 1 - w); a = b; x = y; } break;
        case 10: op("d%d=move(d%d)", w, 1 - w); a = dstruct::move(b); x = y; y.clear(); break;
        case 11: { op("c(d%d)", w); D e(a); deq_cmp(e, x, P); e.push_back(T(1)); e.push_front(T(2)); break; }
        case 12: { op("c(move(d%d))", w); D e(dstruct::move(a)); deq_cmp(e, x, P); deq_cmp(a, M(), P); e.push_back(T(9)); M z = x; z.push_back(9); e.push_front(T(8)); z.insert(z.begin(), 8); deq_cmp(e, z, P); a = dstruct::move(e); x = z; break; }
        case 13: if (x.size()) { int i = choose(x.size()); op("d%d.push_back(d%d[%d])", w, w, i); a.push_back(a[i]); int t = x[i]; x.push_back(t); } break;
        case 14: if (x.size()) { int i = choose(x.size()); op("d%d.push_front(d%d[%d])", w, w, i); a.push_front(a[i]); int t = x[i]; x.insert(x.begin(), t); } break;
        case 15: { int r = 1 + choose(40); op("d%d: slide %d", w, r); while (r-- && x.size()) { int f = ++fresh % 100; a.pop_front(); x.erase(x.begin()); a.push_back(T(f)); x.push_back(f); } break; }
        }
        deq_cmp(d[0], m[0], P); deq_cmp(d[1], m[1], P);
    }
}
// ---------------------------------------------------------------- Queue
template <class Qu, class T> static void q_run(int maxops) {
    const char *P = "C17"; fresh = 0; Qu q[2]; M m[2]; if (maxops > 100) maxops = 100;
    auto cmp = [&](Qu &a, const M &x) {
        CHECK(P, a.size() == x.size() && a.empty() == x.empty(), "size %d, expected %d", (int)a.size(), (int)x.size());
        if (x.empty()) return;
        CHECK(P, val(a.front()) == x.front() && val(a.back()) == x.back(), "front/back");
        int st = x.size() > 20 ? x.size() / 10 : 1;
        for (int i = 0; i < (int)x.size(); i += st) CHECK(P, val(a[i]) == x[i], "index %d", i);
        int i = 0; for (auto it = a.begin(); it != a.end(); it++, i++) CHECK(P, i < (int)x.size() && val(*it) == x[i], "iteration step %d", i);
        CHECK(P, i == (int)x.size(), "iteration count");
    };
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(4) == 3;
        switch (choose(7)) {
        case 0: { int f = ++fresh % 100; op("q%d.push(%d)", w, f); q[w].push(T(f)); m[w].push_back(f); break; }
        case 1: if (m[w].size()) { op("q%d.pop", w); q[w].pop(); m[w].erase(m[w].begin()); } break;
        case 2: { int r = choose(3) ? 3 : 35; op("q%d: push x %d", w, r); while (r-- && m[w].size() < 300) { int f = ++fresh % 100; q[w].push(T(f)); m[w].push_back(f); } break; }
        case 3: { int r = choose(3) ? 3 : 40; op("q%d: pop x %d", w, r); while (r-- && m[w].size()) { q[w].pop(); m[w].erase(m[w].begin()); } break; }
        case 4: if (choose(5) == 4) { op("q%d = itself (copy)", w); auto &self = q[w]; q[w] = self; } else { op("q%d=q%d", w, 1 - w); q[w] = q[1 - w]; m[w] = m[1 - w]; } break;
        case 5: op("q%d=move(q%d)", w, 1 - w); q[w] = dstruct::move(q[1 - w]); m[w] = m[1 - w]; m[1 - w].clear(); break;
        case 6: { op("c(q%d)", w); Qu c(q[w]); cmp(c, m[w]); c.push(T(4)); break; }
        }
        cmp(q[0], m[0]); cmp(q[1], m[1]);
    }
}
static const rt::Scenario SC[] = {
    {"vector", "C01,C02", "C02", "C01,C02", vec_run<Vector<E, TA>, E>, 3},
    {"vector-int", "C01,C02", "C02", "C01,C02", vec_run<Vector<int, TA>, int>, 1},
    {"array1", "C03", "", "C03", arr_run<1>, 1}, {"array2", "C03", "", "C03", arr_run<2>, 1}, {"array7", "C03", "", "C03", arr_run<7>, 1},
    {"stack", "C04,C02", "C02", "C04", stack_run, 1},
    {"minstack", "C05", "", "C05", xs_run<MinStack<E, TA>, true>, 1}, {"maxstack", "C05", "", "C05", xs_run<MaxStack<E, TA>, false>, 1},
    {"xstack-stateful-order", "C05", "", "C05", xs_ord_run, 1},
    {"deque1", "C15,C16", "C16", "C15,C16", deq_run<Deque<E, 1, TA>, E>, 1},
    {"deque2", "C15,C16", "C16", "C15,C16", deq_run<Deque<E, 2, TA>, E>, 1},
    {"deque3", "C15,C16", "C16", "C15,C16", deq_run<Deque<E, 3, TA>, E>, 1},
    {"deque4-adjacent", "C15,C16", "C16", "C15,C16", deq_run<Deque<E, 4, rt::AdjAlloc>, E>, 1},
    {"deque2-adjacent-int", "C15,C16", "C16", "C15,C16", deq_run<Deque<int, 2, rt::AdjAlloc>, int>, 1},
    {"queue", "C17", "", "C17", q_run<Queue<E, TA>, E>, 1},
    {"queue2", "C17", "", "C17", q_run<adapter::Queue<E, DoubleEndedQueue<E, 2, TA>>, E>, 1},
};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
