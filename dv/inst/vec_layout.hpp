#include "opaque.hpp"
typedef dstruct::Vector<DV_T, VA> V_;
