#include "common.hpp"
using namespace dstruct;
typedef BasicString<char, TA> S;
static const char AB[] = {'a', 'b', (char)0xe9, 'Z'};
static std::string text(int maxlen) { int n = choose(maxlen); std::string s; for (int i = 0; i < n; i++) s += AB[choose(n > 6 ? 4 : 2)]; return s; }
static void cmp(S &s, const std::string &m, const char *P) {
    int n = m.size();
    CHECK(P, (int)s.size() == n && s.empty() == m.empty(), "size %d, expected %d", (int)s.size(), n);
    CHECK(P, !memcmp(s.c_str(), m.c_str(), n + 1), "text is '%.40s', expected '%.40s'", s.c_str(), m.c_str());
    const S &c = s;
    for (int i = 0; i < n; i++) CHECK(P, s[i] == m[i] && c[i] == m[i], "character %d", i);
    if (n) CHECK(P, s.front() == m[0] && s.back() == m[n - 1], "front/back");
    int i = 0; for (auto it = s.begin(); it != s.end(); it++, i++) CHECK(P, i < n && *it == m[i], "iteration step %d", i);
    CHECK(P, i == n, "iteration count");
    i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) CHECK(P, i < n && *it == m[i], "iteration step %d", i);
    CHECK(P, i == n, "iteration count");
    CHECK(P, (int)s.capacity() > n, "capacity");
}
static void str_run(int maxops) {
    const char *P = "C09"; S s[2]; std::string m[2]; if (maxops > 100) maxops = 100;
    cmp(s[0], m[0], P);
    for (int k = 0; k < maxops && rt::more(); k++) {
        int w = choose(2); S &a = s[w], &b = s[1 - w]; std::string &x = m[w], &y = m[1 - w];
        if (x.size() > 3000) { a.clear(); x.clear(); }
        switch (choose(13)) {
        case 0: { char c = AB[choose(3)]; op("s%d.push_back", w); a.push_back(c); x += c; break; }
        case 1: { int r = 1 + choose(18); op("s%d: push x %d", w, r); while (r--) { char c = 'a' + r % 26; a.push_back(c); x += c; } break; }
        case 2: if (choose(4) == 3) { int i = choose(x.size() + 1); op("s%d += its own text from %d", w, i); std::string t = x.substr(i); a += a.c_str() + i; x += t; break; } else { std::string t = text(choose(2) ? 4 : 20); op("s%d+='%s'", w, t.c_str()); a += t.c_str(); x += t; break; }
        case 3: op("s%d+=s%d", w, 1 - w); a += b; x += y; break;
        case 4: op("s%d+=s%d", w, w); a += a; x += x; break;
        case 5: if (choose(4) == 3) { int i = choose(x.size() + 1); op("s%d = its own text from %d", w, i); std::string t = x.substr(i); a = a.c_str() + i; x = t; break; } else { std::string t = text(choose(2) ? 4 : 20); op("s%d='%s'", w, t.c_str()); a = t.c_str(); x = t; break; }
        case 6: if (choose(5) == 4) { op("s%d = itself (copy)", w); auto &self = a; a = self; } else { op("s%d=s%d", w, 1 - w); a = b; x = y; } break;
        case 7: op("s%d=move(s%d)", w, 1 - w); a = dstruct::move(b); x = y; y.clear(); break;
        case 8: { op("c(s%d)", w); S c(a); cmp(c, x, P); c.push_back('!'); S e(dstruct::move(c)); cmp(c, "", P); cmp(e, x + "!", P); c += "xy"; cmp(c, "xy", P); break; }
        case 9: op("s%d.clear", w); a.clear(); x.clear(); break;
        case 10: if (x.size()) { int i = choose(x.size()); char c = AB[choose(3)]; op("s%d[%d]=", w, i); a[i] = c; x[i] = c; } break;
        case 11: { std::string t = text(choose(2) ? 4 : 40); op("S('%s')", t.c_str()); S c(t.c_str()); cmp(c, t, P); a = c; x = t; break; }
        case 12: if (x.size()) { int i = choose(x.size()); op("s%d.push_back(s%d[%d])", w, w, i); a.push_back(a[i]); x += x[i]; } break;
        }
        cmp(s[0], m[0], P); cmp(s[1], m[1], P);
    }
}
static void cat_run(int maxops) {
    const char *P = "C10"; int L = maxops < 6 ? maxops + 1 : choose(2) ? 6 : 40;
    std::string x = text(L), y = choose(3) ? text(L) : x;
    if (!choose(4)) { y = x + text(3); } if (y.size() && !choose(4)) y[choose(y.size())] = 'q';
    op("'%s' '%s'", x.c_str(), y.c_str());
    S a(x.c_str()), b(y.c_str()); const char *px = x.c_str(), *py = y.c_str();
    S c1 = a + b, c2 = a + py, c3 = px + b; cmp(c1, x + y, P); cmp(c2, x + y, P); cmp(c3, x + y, P); cmp(a, x, P); cmp(b, y, P);
    S c4 = a + a; cmp(c4, x + x, P);
    bool e = x == y;
    CHECK(P, (a == b) == e && (b == a) == e && (a == py) == e && (px == b) == e, "== should be %d", e);
    CHECK(P, (a != b) == !e && (b != a) == !e && (a != py) == !e && (px != b) == !e, "!= should be %d", !e);
    CHECK(P, a == a && !(a != a) && (a == px) && !(px != a), "== itself");
    CHECK(P, (c1 == (x + y).c_str()), "== of sum"); cmp(a, x, P); cmp(b, y, P);
}
static const rt::Scenario SC[] = { {"string", "C09", "C09", "C09", str_run, 1}, {"string-ops", "C10", "", "C10", cat_run, 1} };
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
