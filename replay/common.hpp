// Driver runtime: runs operation histories on the REAL containers of /repo and
// compares with an ideal model. Histories are choice sequences, enumerated
// exhaustively up to a length, drawn at random, or read back from a replay file.
#ifndef RT_COMMON_HPP
#define RT_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/time.h>
#include <new>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <dstruct.hpp>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace rt {

struct Abandon {};

static const char *PROP = "";
static const char *OUT = "/tmp/replay.txt";
static const char *LIFE = "";      // properties a lifetime / allocation error counts for
static const char *CRASH = "";     // properties a crash counts for
static const char *SCEN = "";
static std::vector<int> path, radix;   // current choice sequence
static size_t pos = 0;
static bool exhaustive = false, replaying = false;
static unsigned long long rng = 88172645463325252ull;
static char trace[1 << 16];
static size_t tlen = 0;
static long runs = 0, ops = 0;

static bool has(const char *props, const char *p) {
    if (!*p) return true;
    const char *s = strstr(props, p);
    return s != nullptr;
}
static unsigned long long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static int choose(int n) {
    if (n <= 1) return 0;
    if (pos < path.size()) {
        int v = path[pos];
        if (pos >= radix.size()) radix.resize(pos + 1);
        radix[pos] = n; pos++;
        if (v >= n) v = v % n;
        return v;
    }
    if (replaying) { return 0; }
    int v = exhaustive ? 0 : (int)(rnd() % (unsigned)n);
    path.push_back(v); radix.resize(path.size()); radix[pos] = n; pos++;
    return v;
}
static bool more() { return !replaying || pos < path.size(); }
static void op(const char *fmt, ...) {
    ops++;
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof trace - 400) {
        int k = vsnprintf(trace + tlen, 300, fmt, ap);
        tlen += (k < 300 ? k : 299);
        trace[tlen++] = ';'; trace[tlen++] = ' '; trace[tlen] = 0;
    }
    va_end(ap);
}
static bool dumped = false;
static void dump(const char *what) {
    if (dumped) return;
    dumped = true;
    FILE *f = fopen(OUT, "w");
    if (f) {
        fprintf(f, "scenario %s\nchoices", SCEN);
        for (size_t i = 0; i < path.size(); i++) fprintf(f, " %d", path[i]);
        fprintf(f, "\nwhat %s\ntrace %s\n", what, trace);
        fclose(f);
    }
    printf("FAIL scenario=%s what=%s\n", SCEN, what);
    printf("TRACE %s\n", tlen > 3000 ? trace + tlen - 3000 : trace);
    fflush(stdout);
}
static void fail_now(const char *what) { dump(what); _exit(1); }

static void vreport(const char *props, bool canthrow, const char *fmt, va_list ap) {
    char b[600]; vsnprintf(b, sizeof b, fmt, ap);
    if (has(props, PROP)) fail_now(b);
    if (canthrow) throw Abandon();
}
static void fail(const char *props, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vreport(props, true, fmt, ap); va_end(ap);
}
// from inside library code: must not throw
static void note(const char *props, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vreport(props, false, fmt, ap); va_end(ap);
}
#define CHECK(props, cond, ...) do { if (!(cond)) rt::fail(props, __VA_ARGS__); } while (0)

static void on_death() {
    if (dumped) return;
    if (has(CRASH, PROP)) { dump("sanitizer error (see stderr)"); _exit(1); }
    _exit(7);
}
static void on_sig(int s) {
    if (has(CRASH, PROP)) {
        char b[100]; snprintf(b, sizeof b, s == SIGALRM || s == SIGVTALRM ? "does not terminate" : s == SIGABRT ? "assertion failed or abort" : "crash (signal %d)", s);
        dump(b); _exit(1);
    }
    _exit(7);
}

// ---- tracking allocator ------------------------------------------------
static std::unordered_map<void *, int> blocks;
struct TA {
    static void *allocate(int bytes) {
        if (bytes <= 0) { note(LIFE, "allocator asked for %d bytes", bytes); return nullptr; }
        void *p = malloc(bytes); memset(p, 0xCD, bytes); blocks[p] = bytes; return p;
    }
    static void deallocate(void *a, int bytes) {
        auto it = blocks.find(a);
        if (it == blocks.end()) { note(LIFE, "deallocate of a block not allocated (or twice), %d bytes", bytes); return; }
        if (it->second != bytes) note(LIFE, "block of %d bytes returned with size %d", it->second, bytes);
        blocks.erase(it); memset(a, 0xDD, bytes); free(a);
    }
};
// blocks next to each other, reused at once
struct AdjAlloc {
    static char *arena() { alignas(16) static char a[1 << 22]; return a; }
    static std::map<int, std::vector<char *>> &freel() { static std::map<int, std::vector<char *>> m; return m; }
    static int &top() { static int t = 0; return t; }
    static int &hi() { static int t = 1 << 22; return t; }
    static bool &down() { static bool d = false; return d; }
    static void reset() { top() = 0; hi() = 1 << 22; freel().clear(); }
    static void *allocate(int bytes) {
        if (bytes <= 0) { note(LIFE, "allocator asked for %d bytes", bytes); return nullptr; }
        auto &l = freel()[bytes]; char *p;
        if (!l.empty()) { p = l.back(); l.pop_back(); }
        else if (down()) { hi() -= bytes; p = arena() + hi(); }
        else { p = arena() + top(); top() += bytes; }
        if (top() > hi()) { printf("arena exhausted\n"); _exit(3); }
        memset(p, 0xCD, bytes); blocks[p] = bytes; return p;
    }
    static void deallocate(void *a, int bytes) {
        auto it = blocks.find(a);
        if (it == blocks.end()) { note(LIFE, "deallocate of a block not allocated (or twice), %d bytes", bytes); return; }
        if (it->second != bytes) note(LIFE, "block of %d bytes returned with size %d", it->second, bytes);
        blocks.erase(it); memset(a, 0xDD, bytes); freel()[bytes].push_back((char *)a);
    }
};
// ---- tracking element --------------------------------------------------
static std::unordered_set<const void *> live;
struct E {
    int key; int id; E *self;
    static bool ok(const E *e, const char *w) {
        if (!live.count(e)) { note(LIFE, "%s of memory that holds no element", w); return false; }
        if (e->self != e) { note(LIFE, "%s of an element that was copied bytewise", w); return false; }
        return true;
    }
    void born(const char *w) { if (!live.insert(this).second) note(LIFE, "%s over a live element", w); self = this; }
    E() : key(0), id(0) { born("construction"); }
    E(int k, int i = 0) : key(k), id(i) { born("construction"); }
    E(const E &o) : key(-999), id(-999) { if (ok(&o, "copy")) { key = o.key; id = o.id; } born("copy construction"); }
    E &operator=(const E &o) { ok(this, "assignment to"); if (ok(&o, "assignment from")) { key = o.key; id = o.id; } return *this; }
    ~E() { ok(this, "destruction"); live.erase(this); key = id = -777; self = nullptr; }
    bool operator<(const E &o) const { ok(this, "comparison"); ok(&o, "comparison"); return key < o.key; }
    bool operator>(const E &o) const { ok(this, "comparison"); ok(&o, "comparison"); return key > o.key; }
    bool operator==(const E &o) const { ok(this, "comparison"); ok(&o, "comparison"); return key == o.key && id == o.id; }
    bool operator!=(const E &o) const { return !(*this == o); }
};
static int val(const E &e) { E::ok(&e, "read"); return e.key; }
static int val(const int &e) { return e; }
static int val(const char &e) { return e; }

static void all_gone(const char *props) {
    if (!live.empty()) note(props, "%d element(s) never destroyed", (int)live.size());
    if (!blocks.empty()) note(props, "%d block(s) never returned to the allocator", (int)blocks.size());
}

struct Scenario { const char *name; const char *props; const char *life; const char *crash; void (*fn)(int maxops); int weight; };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void one(const Scenario &s, int maxops) {
    pos = 0; tlen = 0; trace[0] = 0; SCEN = s.name; LIFE = s.life; CRASH = s.crash;
    live.clear(); for (auto &b : blocks) { (void)b; } blocks.clear(); AdjAlloc::reset();
    struct itimerval tv = {{0, 0}, {4, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    try { s.fn(maxops); all_gone(s.life); } catch (Abandon &) {}
    runs++;
}

static int run_main(int argc, char **argv, const Scenario *sc, int n) {
    // usage: prog prop mode(exh|rand|replay) seconds seed out [file]
    setvbuf(stdout, nullptr, _IOLBF, 0);
    PROP = argv[1]; std::string mode = argv[2]; double budget = atof(argv[3]); unsigned long long seed = strtoull(argv[4], nullptr, 10); OUT = argv[5];
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM, SIGALRM};
    static char stk[1 << 16]; stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : sigs) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_sig; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
    rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 10; i++) rnd();
    std::vector<const Scenario *> v;
    int wsum = 0;
    for (int i = 0; i < n; i++) if (has(sc[i].props, PROP)) { v.push_back(&sc[i]); wsum += sc[i].weight; }
    if (mode == "replay") {
        FILE *f = fopen(argv[6], "r"); char name[200] = ""; replaying = true;
        if (!f || fscanf(f, "scenario %199s\nchoices", name) != 1) { printf("bad replay file\n"); return 2; }
        int x; while (fscanf(f, "%d", &x) == 1) path.push_back(x);
        fclose(f);
        for (auto s : v) if (!strcmp(s->name, name)) { one(*s, 1 << 30); }
        printf("REPLAY no failure\n%s\n", trace);
        return 0;
    }
    long complete = -1; std::string samples;
    for (auto s : v) {
        double end = now() + budget * s->weight / wsum;
        if (mode == "exh") {
            exhaustive = true;
            bool out = false;
            for (int L = 1; L < 40 && !out; L++) {
                path.clear(); radix.clear();
                for (;;) {
                    one(*s, L);
                    if ((runs & 15) == 0 && now() > end) { out = true; break; }
                    path.resize(pos < path.size() ? pos : path.size());
                    while (!path.empty() && path.back() + 1 >= radix[path.size() - 1]) path.pop_back();
                    if (path.empty()) break;
                    path.back()++;
                    radix.resize(path.size());
                }
                if (!out) printf("COMPLETE scenario=%s length=%d\n", s->name, L);
            }
        } else {
            while (now() < end) {
                static const int lens[] = {6, 12, 25, 60, 150, 400};
                path.clear(); radix.clear();
                one(*s, lens[rnd() % 6]);
            }
        }
        printf("SAMPLE scenario=%s %.300s\n", s->name, trace);
    }
    printf("DONE runs=%ld ops=%ld\n", runs, ops);
    return 0;
}
} // namespace rt
using rt::choose; using rt::op; using rt::E; using rt::TA; using rt::val;
#endif
