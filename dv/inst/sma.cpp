#include <cassert>
#include <cstdlib>
#include <cstddef>
#include <cstdio>
#include <new>
#define private public
#define protected public
#include "opaque.hpp"
#include <memory/StaticMemAllocator.hpp>
typedef dstruct::StaticMemAllocator<DV_M, DV_B> S;
extern "C" {
void w_ctor(S *v) { new (v) S(); }
void *w_allocate(int n) { return S::allocate(n); }
bool w_deallocate(void *p, int n) { return S::deallocate(p, n); }
int w_free() { return S::free_mem_size(); }
int w_max() { return S::max_free_mblock_size(); }
void w_merge() { S::memory_merge(); }
}
