#include "opaque.hpp"
typedef dstruct::DisjointSet<VA> S_;
