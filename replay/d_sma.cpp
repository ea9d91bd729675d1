#define SMA_LOGD(...) sma_log(__VA_ARGS__)
static void sma_log(const char *fmt, ...);
#include "common.hpp"
using namespace dstruct;
struct FB { int list; char *addr; int size; };
static std::vector<FB> dumped_blocks;
static void sma_log(const char *fmt, ...) {
    if (!strstr(fmt, "t-index")) return;
    va_list ap; va_start(ap, fmt); FB b; b.list = va_arg(ap, int); va_arg(ap, int); b.addr = (char *)va_arg(ap, void *); b.size = va_arg(ap, int); va_end(ap);
    dumped_blocks.push_back(b);
}
template <int MEM, int MX> static void sma_run(int maxops) {
    typedef StaticMemAllocator<MEM, MX> A;
    struct Peek : A { static A &inst() { return A::Instance_(); } };
    static std::vector<char> snap; static char *pool = nullptr;
    char *self = (char *)&Peek::inst();
    if (snap.empty()) { snap.assign(self, self + sizeof(A)); dumped_blocks.clear(); A::dump(); if (dumped_blocks.size() == 1) pool = dumped_blocks[0].addr; }
    else memcpy(self, snap.data(), snap.size());
    const char *D = "C24", *C = "C25", *M = "C26"; const int NL = MX / 8;
    if (maxops > 120) maxops = 120;
    struct Used { int size; int want; unsigned char pat; }; std::map<char *, Used> used; unsigned char pat = 0;
    auto blocks = [&]() { dumped_blocks.clear(); A::dump(); return dumped_blocks; };
    auto owner = [&](const std::vector<FB> &f) { std::vector<char> v(MEM / 8, 0);
        for (auto &u : used) for (int i = 0; i < u.second.size; i += 8) v[(u.first + i - pool) / 8]++;
        for (auto &b : f) { CHECK("C24,C25", b.addr >= pool && b.addr + b.size <= pool + MEM && (b.addr - pool) % 8 == 0 && b.size > 0, "free block outside the pool"); for (int i = 0; i < b.size; i += 8) { v[(b.addr + i - pool) / 8]++; } }
        return v; };
    auto check = [&](const std::vector<FB> &f) {
        int inuse = 0, fr = 0; for (auto &u : used) inuse += u.second.size; for (auto &b : f) fr += b.size;
        for (auto &u : used) for (int i = 0; i < u.second.want; i++) CHECK(D, (unsigned char)u.first[i] == u.second.pat, "contents of a block in use changed");
        auto v = owner(f); for (char c : v) { CHECK(D, c <= 1, "two blocks overlap"); CHECK(C, c == 1, "bytes of the pool lost or doubled"); }
        CHECK(C, A::free_mem_size() == MEM - inuse, "free size %d, expected %d", A::free_mem_size(), MEM - inuse); CHECK(C, fr == MEM - inuse, "free lists hold %d bytes, expected %d", fr, MEM - inuse);
        int pmax = 0, qmax = 0; for (auto &b : f) { if (b.list == NL) pmax = std::max(pmax, b.size); else qmax = std::max(qmax, b.size); }
        CHECK(M, A::max_free_mblock_size() == (pmax ? pmax : qmax), "max_free_mblock_size %d, expected %d", A::max_free_mblock_size(), pmax ? pmax : qmax);
    };
    auto same = [](const std::vector<FB> &a, const std::vector<FB> &b) { if (a.size() != b.size()) return false; for (unsigned i = 0; i < a.size(); i++) if (a[i].addr != b[i].addr || a[i].size != b[i].size || a[i].list != b[i].list) return false; return true; };
    check(blocks());
    for (int k = 0; k < maxops && rt::more(); k++) {
        auto before = blocks(); int c = choose(8);
        if (c < 3 || used.empty()) {
            static const int odd[] = {0, -1, -8, MEM, MEM + 1, MEM + 8, 0x7fffffff, 0x7ffffff9, (int)0x80000000, MX, MX + 1, MX - 1};
            int n = choose(6) ? (choose(3) ? 1 + choose(MX + 8) : 1 + choose(MEM / 2)) : odd[choose(12)];
            op("allocate(%d)", n);
            char *p = (char *)A::allocate(n);
            int r = n > 0 && n <= MEM ? (n + 7) & ~7 : 0; bool can = false; if (r) for (auto &b : before) if (b.size >= r) can = true;
            if (!p) { CHECK(M, !can, "allocate(%d) failed with a large enough free block", n); CHECK(D, same(before, blocks()), "a failed request changed the free lists"); }
            else {
                CHECK(D, r > 0, "allocate(%d) gave a block", n); CHECK(D, can, "allocate(%d) gave a block that was not free", n);
                CHECK(D, (p - pool) % 8 == 0 && ((unsigned long)p) % 8 == 0, "block not aligned"); CHECK(D, p >= pool && p + n <= pool + MEM, "block outside the pool");
                for (auto &u : used) CHECK(D, p + r <= u.first || u.first + u.second.size <= p, "overlaps a block in use");
                used[p] = Used{r, n, ++pat}; memset(p, pat, n);
            }
        } else if (c < 6) {
            auto q = used.begin(); int i = choose(used.size()); while (i--) ++q; int n = q->second.want;
            op("deallocate(+%d,%d)", (int)(q->first - pool), n);
            char *a = q->first; used.erase(q); bool ok = A::deallocate(a, n); CHECK(C, ok, "deallocate refused a block");
        } else if (c == 6) {
            op("merge"); auto v0 = owner(before); A::memory_merge(); auto f = blocks(); auto v1 = owner(f); CHECK("C25,C26", v0 == v1, "merge changed the set of free bytes");
            for (auto &a : f) for (auto &b : f) CHECK(M, !(a.list == NL && b.list == NL && a.addr + a.size == b.addr), "neighbouring pool blocks left unmerged");
        } else {
            op("bad deallocate"); bool r1 = A::deallocate(nullptr, 8), r2 = A::deallocate(used.begin()->first, 0), r3 = A::deallocate(used.begin()->first, -8);
            CHECK(C, !r1 && !r2 && !r3, "deallocate accepted a null or empty block"); CHECK("C24,C25", same(before, blocks()), "a refused deallocate changed the free lists");
        }
        check(blocks());
    }
    while (!used.empty()) { auto q = used.begin(); char *a = q->first; int n = q->second.want; used.erase(q); A::deallocate(a, n); }
    CHECK(C, A::free_mem_size() == MEM, "free size %d after returning everything", A::free_mem_size()); check(blocks());
}
#define S(m, x) {"sma<" #m "," #x ">", "C24,C25,C26", "", "C24,C25,C26", sma_run<m, x>, 1}
static const rt::Scenario SC[] = {S(64, 16), S(256, 32), S(1024, 128), S(96, 64), S(512, 8), S(4096, 100)};
int main(int c, char **v) { return rt::run_main(c, v, SC, sizeof SC / sizeof *SC); }
