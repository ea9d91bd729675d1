#include <dstruct.hpp>
#include <memory/StaticMemAllocator.hpp>
typedef dstruct::StaticMemAllocator<DV_M, DV_B> S_;
