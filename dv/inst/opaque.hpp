// The element type and the allocator are opaque: declared, never defined.  Their contracts are in dv/spec.py.
#pragma once
#include <dstruct.hpp>
struct Elem {
    char bytes[24];
    Elem(); Elem(const Elem &); Elem & operator=(const Elem &); ~Elem();
    bool operator==(const Elem &) const; bool operator!=(const Elem &) const;
    bool operator<(const Elem &) const; bool operator>(const Elem &) const;
    bool operator<=(const Elem &) const; bool operator>=(const Elem &) const;
};
struct VA { static void * allocate(int); static void deallocate(void *, int); };

// an opaque strict weak order; which order it is is part of its state
struct Cmp { long long id; Cmp(); Cmp(const Cmp &); Cmp & operator=(const Cmp &); bool operator()(const Elem &, const Elem &) const; };
