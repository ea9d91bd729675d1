#include "opaque.hpp"
typedef dstruct::Heap<Elem, Cmp, VA> S_;
typedef dstruct::PrimitiveIterator<Elem> It_;
