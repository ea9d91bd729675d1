#include "common.hpp"
#include <climits>
using namespace dstruct;
template <class C, class F> static void range_run(C &c, F get, const std::vector<int> &m) {
    const char *P = "C27"; std::vector<int> seen;
    algorithm::for_each(c.begin(), c.end(), [&](const E &e) { seen.push_back(val(e)); });
    CHECK(P, seen == m, "for_each visited the wrong sequence");
    for (int t = -1; t < 6; t++) { auto it = algorithm::find(c.begin(), c.end(), E(t)); int i = 0; auto q = c.begin(); while (q != it && q != c.end()) { q++; i++; }
        int e = std::find(m.begin(), m.end(), t) - m.begin(); CHECK(P, i == e, "find(%d) gives position %d, expected %d", t, i, e); }
    std::vector<int> again; algorithm::for_each(c.begin(), c.end(), [&](const E &e) { again.push_back(val(e)); }); CHECK(P, again == m, "the range changed");
}
static void algo_run(int maxops) {
    int n = maxops < 8 ? maxops - 1 : choose(60); std::vector<int> m; Vector<E, TA> v; DLinkedList<E, TA> l; SLinkedList<E, TA> s; Deque<E, 3, TA> d;
    for (int i = 0; i < n; i++) { int f = choose(4); op("%d", f); m.push_back(f); v.push_back(E(f)); l.push_back(E(f)); s.push_back(E(f)); d.push_back(E(f)); }
    range_run(v, 0, m); range_run(l, 0, m); range_run(s, 0, m); range_run(d, 0, m);
}
static void cmp_run(int) {
    const char *P = "C28"; static int arr[4]; static const int iv[] = {0, 1, -1, 2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30)};
    int *ps[] = {nullptr, arr, arr + 1, arr + 2, arr + 3}; 
    int *p = ps[choose(5)], *q = ps[choose(5)], *r = ps[choose(5)]; int a = choose(4) ? iv[choose(10)] : (rt::exhaustive ? 5 : (int)rt::rnd()), b = iv[choose(10)]; op("%p %p %p %d %d", p, q, r, a, b);
    less<int *> L; greater<int *> G;
    CHECK(P, L(p, q) == (p < q || (p == nullptr && q != nullptr)), "less on pointers"); CHECK(P, G(p, q) == (q == nullptr ? p != nullptr : p != nullptr && p > q), "greater on pointers");
    CHECK(P, !L(p, p) && !G(p, p), "irreflexive"); CHECK(P, !(L(p, q) && L(q, p)) && !(G(p, q) && G(q, p)), "asymmetric"); CHECK(P, !(L(p, q) && L(q, r)) || L(p, r), "transitive"); CHECK(P, !(G(p, q) && G(q, r)) || G(p, r), "transitive");
    CHECK(P, less<int>()(a, b) == (a < b) && greater<int>()(a, b) == (a > b), "less/greater on int");
    CHECK(P, less<long long>()(a * 4000000000ll, b * 4000000000ll) == (a < b) && greater<long long>()(a * 4000000000ll, b * 4000000000ll) == (a > b), "less/greater on long long");
    CHECK(P, less<unsigned>()(a, b) == ((unsigned)a < (unsigned)b), "less on unsigned");
    E x(a), y(b); CHECK(P, less<E>()(x, y) == (a < b) && greater<E>()(x, y) == (a > b), "less/greater on a class");
    dstruct::swap(x, y); CHECK(P, val(x) == b && val(y) == a, "swap"); dstruct::swap(x, x); CHECK(P, val(x) == b, "self swap"); int c = a, d = b; dstruct::swap(c, d); CHECK(P, c == b && d == a, "swap"); dstruct::swap(c, c); CHECK(P, c == b, "self swap");
    { Vector<E, TA> v(2, E(a)), w; w.push_back(E(b)); dstruct::swap(v, w); CHECK(P, v.size() == 1 && w.size() == 2 && val(v[0]) == b && val(w[1]) == a, "swap of vectors"); dstruct::swap(v, v); CHECK(P, v.size() == 1 && val(v[0]) == b, "self swap of a vector"); }
    CHECK(P, dstruct::max(a, b) == (a > b ? a : b), "max(%d,%d)", a, b); CHECK(P, dstruct::max((long long)a * 7, (long long)b * 7) == (a > b ? a : b) * 7ll, "max");
    if (a != INT_MIN) { CHECK(P, dstruct::abs(a) == (a < 0 ? -a : a), "abs(%d)", a); } CHECK(P, dstruct::abs((long long)a) == (a < 0 ? -(long long)a : a), "abs"); double z = a / 3.0; CHECK(P, dstruct::abs(z) == (z < 0 ? -z : z), "abs of double");
}
static const rt::Scenario SC[] = {{"algorithms", "C27", "", "C27", algo_run, 1}, {"utils", "C28", "", "C28", cmp_run, 1}};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
