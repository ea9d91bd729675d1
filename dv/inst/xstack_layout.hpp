#include "opaque.hpp"
typedef dstruct::stack::XValueStack<Elem, Cmp, dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, VA>>> S_;
typedef dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, VA>> SS_;
