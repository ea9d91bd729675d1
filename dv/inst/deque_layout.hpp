#include "opaque.hpp"
typedef dstruct::DoubleEndedQueue<Elem, DV_A, VA> L_;
