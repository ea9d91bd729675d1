#include "opaque.hpp"
typedef dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, VA>> S_;
