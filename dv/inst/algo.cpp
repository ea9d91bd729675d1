#include "opaque.hpp"
#include <new>
#include <core/algorithm.hpp>
typedef dstruct::PrimitiveIterator<Elem> It;
extern "C" void visit(const Elem &);
struct CB { int dummy; void operator()(const Elem &e) { visit(e); } };
extern "C" {
void w_foreach(Elem *b, Elem *e) { CB cb; dstruct::algorithm::for_each(It(b), It(e), cb); }
void w_foreach_p(Elem *b, Elem *e) { CB cb; dstruct::algorithm::for_each(b, e, cb); }
void w_foreach_fn(Elem *b, Elem *e) { dstruct::algorithm::for_each(b, e, visit); }
Elem *w_find(Elem *b, Elem *e, const Elem &x) { It r = dstruct::algorithm::find(It(b), It(e), x); return r.operator->(); }
Elem *w_find_p(Elem *b, Elem *e, const Elem &x) { return dstruct::algorithm::find(b, e, x); }
}
