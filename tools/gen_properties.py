#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs", "histories"), state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
V = "core/ds/array/Vector.hpp"; A = "core/ds/array/Array.hpp"; H = "core/ds/Heap.hpp"
S = "core/ds/string/BasicString.hpp"; LL = "core/ds/linked-list/LinkedList.hpp"
SL = "core/ds/linked-list/SinglyLinkedList.hpp"; DL = "core/ds/linked-list/DoublyLinkedList.hpp"
EL = "core/ds/linked-list/EmbeddedList.hpp"; DQ = "core/ds/queue/DoubleEndedQueue.hpp"; Q = "core/ds/queue/Queue.hpp"
ST = "core/ds/stack/Stack.hpp"; XS = "core/ds/stack/XValueStack.hpp"; DS = "core/ds/set/DisjointSet.hpp"
BST = "core/ds/tree/BinarySearchTree.hpp"; BSB = "core/ds/tree/BinarySearchTreeBase.hpp"; BT = "core/ds/tree/BinaryTree.hpp"
ET = "core/ds/tree/EmbeddedBinaryTree.hpp"; AVL = "core/ds/tree/AVLTree.hpp"; MAP = "core/ds/Map.hpp"
SMA = "memory/StaticMemAllocator.hpp"; AL = "core/algorithm.hpp"; UT = "core/utils.hpp"; CO = "core/common.hpp"; IT = "core/Iterator.hpp"

p("C01", "Vector is the sequence its history built",
  "After any history of construction, push/push_back, pop/pop_back, indexed writes, resize, clear, copy and move, a Vector holds exactly the element sequence an ideal sequence would: size, empty, front, back, indexing (a negative index counts from the end) and iteration agree with it, and a reallocation never loses, duplicates or reorders elements, also when the argument is a reference to one of the vector's own elements. resize(n, x) keeps the first min(n, size) elements and fills up to n with x; copying gives an equal, independent vector and moving hands the contents over and leaves the source empty. The capacity is never smaller than the size.",
  "all element types (copyable), all values, every operation history with valid indexes and non-empty pops, sizes whose byte count fits int",
  "tests push and pop a fixed run of ints and compare a few; growth, shrink and fill boundaries at every size, and aliasing arguments, are not reachable by sampling",
  [V], [("push_back growth", "Vector::push_back"), ("reallocation loop", "Vector::resize"), ("shrink on pop", "Vector::pop_back")],
  state=[("mSize_d/mCapacity_d/mC_d", "live prefix of the buffer", V)])
p("C02", "Vector constructs, destroys and frees everything exactly once",
  "Every element a Vector creates is constructed in memory the vector obtained from its allocator and not yet holding an element, and destroyed exactly once; nothing is assigned, copied from, read or destroyed before it was constructed or after it was destroyed. Every block obtained from the allocator is returned exactly once with the byte count it was requested with, and no access leaves the block. When the vector is destroyed nothing is left over.",
  "every operation history with valid arguments, every element type and every allocator that meets the allocator interface",
  "leaks, double destroys and off-by-one accesses are silent in the existing tests, which compare values only",
  [V, CO], [("placement construct/destroy", "dstruct::construct, dstruct::destroy"), ("sized allocation", "AllocSpec::allocate/deallocate")])
p("C03", "Array is a fixed-length sequence with value semantics",
  "An Array of N elements always reports size and capacity N; element i and element i-N are the same object for every valid i, front and back are the first and last element, and a write through an index or iterator changes that element only. Filling, copying, assigning and moving give the target exactly the source's N elements and copying leaves the source unchanged. Iterating from begin to end visits elements 0..N-1 in order, and the distance of two iterators is their index difference.",
  "all N (the verified instances are listed in the evidence), all element values, all valid indexes",
  "tests use one or two sizes and constant contents", [A, IT],
  [("index folding", "Array::operator[]"), ("element copy loops", "Array::operator=")], over=("inputs",))
p("C04", "Stack is last-in-first-out",
  "top returns the most recently pushed element not yet popped, pop removes exactly that element, size counts the elements and empty is true exactly when there are none; clear leaves an empty, usable stack. Copies are independent of their source.",
  "every push/pop/clear/copy history that does not pop an empty stack, every element type",
  "tests run one short fixed history", [ST, V], [("back of the underlying sequence", "Stack::push/pop/top")])
p("C05", "MinStack/MaxStack always know the extreme element",
  "After any history of pushes and pops, also with equal elements, top is the most recently pushed element not yet popped and the reported extreme value is an element of the stack that no other element of the stack precedes under the stack's comparison; the stack is empty exactly when every push has been popped. Copying and moving carry both along.",
  "every push/pop/clear/copy/move history that does not pop or query an empty stack, every strict weak order whose equivalence is ==",
  "tests push distinct values in one order; the failures need particular interleavings of equal and extreme values",
  [XS, ST], [("saved extreme values below the elements", "XValueStack::push/pop")])
p("C06", "Heap top is extreme and contents are exactly what was pushed",
  "After any history of pushes and pops, from an empty heap or one built from a range, the heap holds exactly the multiset of elements pushed and not popped, top is an element that no other element precedes under the comparison, and pop removes one such element. size and empty count them. Iteration visits every held element once, parents before their children with no child preceding its parent.",
  "every history that does not pop or query an empty heap, every strict weak order, all multiplicities",
  "tests check one fixed input; the sift paths depend on the shape and order of the data at every size",
  [H, V], [("sift up/down", "Heap::_adjust_up, Heap::_adjust_down"), ("bottom-up build", "Heap(begin, end)")])
p("C07", "Heap::sort sorts and Heap::build heapifies in place",
  "Sorting a range through the heap leaves it a permutation of its original elements, ordered so that no element precedes an earlier one under the comparison; building a heap over a range permutes it into heap order and returns a heap with the same elements. Nothing outside the range changes, and an empty range is left alone.",
  "all ranges of any length, all contents including duplicates, every strict weak order",
  "tests sort one or two fixed arrays", [H], [("sort/build", "Heap::sort, Heap::build")], over=("inputs",))
p("C08", "DisjointSet represents exactly the connections made",
  "Two elements are connected exactly when they are equal or linked by a chain of connect calls; find returns the same representative for all elements of a set and different ones for different sets, and the representative is itself an element of that set. count is the number of sets and size the number of elements, whatever finds came before. Every find and connect terminates.",
  "all n >= 1, every history of connect, find, connected, count, copy and move on valid elements, also repeated and redundant ones, and union_set on representatives",
  "tests connect a handful of elements in one order; parent chains, ranks and path compression depend on the whole history",
  [DS, V], [("parent links and path compression", "DisjointSet::find"), ("linking roots", "DisjointSet::union_set")])
p("C09", "String holds exactly the characters put in it, always terminated",
  "After any history of construction from text, push_back, append, assignment, copy, move, indexed writes and clear, a string holds exactly the expected characters: size, empty, front, back, indexing and iteration agree, and the character pointer it gives out reads as those characters followed by a terminator. Appending never reads or writes outside the string's storage, also when a string is appended to itself; a cleared or moved-from string is the empty string and still usable.",
  "all texts of any length, every operation history with valid indexes",
  "tests append a few literals; the terminator and the growth of the storage matter at every length",
  [S, V], [("terminator maintenance", "BasicString::push_back, clear"), ("append", "BasicString::operator+=")])
p("C10", "String concatenation and comparison match the texts",
  "s1 + s2 is the characters of s1 followed by those of s2, for strings and character literals on either side, and neither operand changes; == is true exactly when both texts have the same length and the same characters, and != is its negation. All forms of the operators agree.",
  "all texts of any length including empty ones and ones that share prefixes",
  "tests compare a few short literals", [S], [("operator+, ==, !=", "BasicString free operators")], over=("inputs",))
p("C11", "SinglyLinkedList is the sequence its history built",
  "After any history of push/push_front, push_back, pop/pop_front, pop of the last element, clear, copy and move, a singly linked list holds exactly the expected sequence: size, empty, front and back agree with it and iteration visits every element once, first to last, and stops. Copies are equal and independent; moving hands the sequence over and leaves the source an empty usable list.",
  "every operation history without pops or queries of an empty list, every element type",
  "tests push and pop at one end in one order; a stale tail or link only shows after particular mixtures of front and back operations",
  [SL, LL, EL], [("circular links with head node and tail pointer", "SinglyLinkedList, LinkedList_")])
p("C12", "DoublyLinkedList is the sequence its history built, both ways",
  "After any history of push/push_front, push_back, pop/pop_front, pop_back, clear, copy and move, a doubly linked list holds exactly the expected sequence: size, empty, front and back agree with it, forward iteration visits the sequence and backward iteration visits its reverse. Copies are equal and independent; moving hands the sequence over and leaves the source an empty usable list.",
  "every operation history without pops or queries of an empty list, every element type",
  "tests walk forwards after one short history", [DL, LL, EL],
  [("circular double links with head node", "DoublyLinkedList, DoublyLink_")])
p("C13", "Linked lists construct, destroy and free every node exactly once",
  "Every node a linked list obtains from its allocator holds exactly one constructed element, is destroyed once and returned once with the size it was requested with, at the moment its element leaves the list or the list is cleared, overwritten or destroyed; no removed node is touched again. Nothing is left over when the list is destroyed.",
  "every operation history of both list kinds, every element type and allocator",
  "the existing tests never look at lifetimes", [LL, SL, DL], [("node allocation", "LinkedList_::push_front/pop_front, push_back/pop_back")])
p("C14", "Embedded list links change only the neighbours they join",
  "Inserting a link after another puts it exactly between that link and its successor and removing a link joins its neighbours, with backward links the mirror of forward ones, also in an open chain whose last successor is null; no other link changes. An initialised list is empty and stays consistent through any history of insertions and removals, and converting between a node and its link is lossless.",
  "every list shape and position, circular and open, singly and doubly linked",
  "tests build one list and walk it", [EL], [("init/empty/add/del", "SinglyLink_, DoublyLink_, EmbeddedListNode_")])
p("C15", "Deque is the sequence its history built",
  "After any history of push_front, push_back/push, pop_front/pop, pop_back, clear, copy and move, a deque holds exactly the expected sequence: size, empty, front, back, indexing (a negative index counts from the end) and iteration in both directions agree with it, for every block size. Growing keeps every element, in order; copies are equal and independent, and moving hands the sequence over and leaves the source an empty usable deque.",
  "every block size, every operation history without pops or queries of an empty deque, every element type",
  "the tests push a few elements; block boundaries, re-centring and emptying at a boundary need long mixed histories",
  [DQ, V, A], [("block table and re-centring", "DoubleEndedQueue::_resize"), ("iterator stepping over block edges", "DoubleEndedQueueIterator_")])
p("C16", "Deque constructs, destroys and frees everything exactly once",
  "Every element of a deque is constructed once in a slot holding no element and destroyed once; every block and table it obtains from the allocator is returned exactly once with its size, and no element access falls outside a block the deque owns. Nothing is left over when the deque is cleared or destroyed.",
  "every block size, operation history, element type and allocator",
  "the existing tests never look at lifetimes", [DQ, V], [("block ownership", "DoubleEndedQueue::_resize, _only_clear, _only_init")])
p("C17", "Queue is first-in-first-out",
  "front returns the element pushed longest ago and not yet popped, back the one pushed last, pop removes exactly the front; size, empty, indexing and iteration follow the push order. Copies are independent of their source.",
  "every push/pop/copy/move history that does not pop an empty queue",
  "tests run one short fixed history", [Q, DQ], [("adapter over the deque", "adapter::Queue")])
p("C18", "BinarySearchTree is the set its history built, in search order",
  "After any history of push, pop, erase, clear, copy and move, a binary search tree holds exactly the set of elements pushed and not removed, each once: size and empty agree, find locates an element exactly when it is in the set, and pushing a present or popping an absent element changes nothing. In-order iteration visits the set in ascending order; erase returns the position of the next larger element, or the end.",
  "every operation history on valid positions, every strict weak order, every tree shape",
  "the shapes that exercise deletion with two children at every depth are not in the tests",
  [BST, BSB, BT], [("search and link insertion", "BinarySearchTree::_insert"), ("delete by successor", "BinarySearchTree::_delete/_try_to_delete")])
p("C19", "AVLTree is a balanced ordered set after every operation",
  "After any history of push (of absent elements), pop, erase, clear, copy and move, an AVL tree holds exactly the set of elements pushed and not removed, in search order: find, size and iteration agree with it and erase returns the position of the next larger element, or the end. At every node the heights of the two subtrees differ by at most one and the height the tree reports is its true height, so the height stays logarithmic.",
  "every operation history on valid positions, every strict weak order, every tree shape",
  "each rotation case at each depth after insertion and deletion is far beyond the sampled inserts of the tests",
  [AVL, BSB, BT, ET], [("rotations and stored heights", "AVLTree::_insert, _delete, _rebalance_after_delete")])
p("C20", "Map is a dictionary",
  "After any history of push (of absent keys), indexed access, assignment through the index, pop, erase, clear, copy and move, a map associates each key present with exactly the value last stored for it and nothing else: find succeeds exactly for present keys, indexing an absent key inserts a default value, and iteration visits every pair once in ascending key order. Removing one key never changes the value of another.",
  "every operation history on valid positions, every key order and value type",
  "tests insert a few keys", [MAP, AVL], [("keyed AVL tree", "Map, KVCMPKey")])
p("C21", "Tree iteration visits every element once in the requested order",
  "For every tree, including the empty one, iterating from begin to end in pre-order, in-order or post-order visits exactly the elements of the tree, each once, in that order, and the callback traversal visits the same sequence. Stepping an iterator never changes the tree.",
  "all tree shapes reachable by the tree types, all three orders",
  "tests iterate one or two small trees", [BT, ET, AVL], [("successor functions", "next_preorder/next_inorder/next_postorder, first_node")])
p("C22", "Trees build, destroy and free each node exactly once; copies are independent",
  "Every node a tree (binary search tree, AVL tree or map) obtains from its allocator holds one constructed element, is destroyed once and returned once with its size, when its element leaves the tree or the tree is cleared, overwritten or destroyed, and is not touched afterwards. A copy shares no node with its source, and a moved-from tree is an empty usable tree.",
  "every operation history, element type and allocator", "the existing tests never look at lifetimes and do not copy trees",
  [BT, BST, AVL, MAP], [("node allocation and post-order clear", "BinaryTree::clear/copy, _real_delete")])
p("C23", "Tree rotations preserve the in-order sequence and all parent links",
  "A left or right rotation at a node with the needed child returns the subtree's new root with the same in-order sequence, every child's parent link naming its parent and the new root taking over the old root's parent; no node outside the subtree is written. The height function returns the length of the longest downward path.",
  "all subtree shapes", "tests only see rotations through a few AVL inserts", [ET], [("left_rotate/right_rotate/height", "EmbeddedBinaryTree.hpp")], over=("inputs",))
p("C24", "Allocator blocks are aligned, inside the pool and disjoint",
  "Every block the static memory allocator hands out is aligned to its alignment, lies wholly inside its pool, is at least as large as requested and overlaps no other block in use nor any block it still considers free; writing to blocks in use never disturbs the allocator or another block. A request it cannot satisfy, including zero, negative and oversized ones, gives null and changes nothing.",
  "every pool size and quick-list limit (the verified instances are listed in the evidence), every history of allocate, deallocate and merge with blocks returned once and with their size",
  "tests allocate a few blocks; overlap needs particular free-list states", [SMA, EL], [("free lists and splitting", "StaticMemAllocator::allocate_d, insert_mem_block_to_list_d")])
p("C25", "Allocator accounting never drifts",
  "At all times the free size the static memory allocator reports equals the pool size minus the rounded sizes of the blocks in use and equals the total size of the blocks on its free lists; every byte of the pool is in exactly one block in use or free. Allocating, freeing and merging never lose or invent memory, so returning every block restores the full pool size.",
  "every history of allocate, deallocate and merge", "drift appears only after particular histories", [SMA],
  [("free size counter and lists", "allocate_d, deallocate_d, memory_merge_d")])
p("C26", "Allocation succeeds whenever a free block is large enough",
  "A positive request succeeds whenever one of the allocator's free blocks is at least as large as the rounded request, and the largest free block size it reports is that of a free block in the pool list, or of the largest quick block if the pool list is empty. Merging joins neighbouring free blocks without changing the set of free bytes, and afterwards no two neighbouring blocks of the pool list are left unmerged.",
  "every free-list state reachable by any history", "needs fragmented states the tests never build", [SMA],
  [("first fit, quick lists and merge", "mem_pool_allocate_d, quick_mem_allocate_d, memory_merge_d")])
p("C27", "for_each and find visit a range in order and exactly once",
  "for_each calls its callback once for every element of the range, in order, and never outside it; find returns the position of the first element equal to the target, or the end of the range if there is none, and changes nothing. Both handle an empty range.",
  "all ranges of any length and all targets", "tests use one fixed array", [AL, IT], [("range loops", "algorithm::for_each/find")], over=("inputs",))
p("C28", "Comparators are strict orders and the value helpers mean what they say",
  "less and greater order values as < and > do; on pointers less ranks null first and greater ranks null last, and both are irreflexive, asymmetric and transitive on any mix of null and ordinary pointers. swap exchanges its two arguments, also when they are the same object, max returns one of its arguments not less than either, and abs returns the magnitude of every value whose magnitude is representable.",
  "all values and all pointers", "tests never call them with null pointers or extreme values", [UT], [("less, greater, swap, max, abs", "core/utils.hpp")], over=("inputs",))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
