#include "opaque.hpp"
#ifdef DV_SINGLY
typedef dstruct::SinglyLinkedList<Elem, VA> L_;
typedef dstruct::EmbeddedListNode_<Elem, dstruct::SinglyLink_> N_;
#else
typedef dstruct::DoublyLinkedList<Elem, VA> L_;
typedef dstruct::EmbeddedListNode_<Elem, dstruct::DoublyLink_> N_;
#endif
