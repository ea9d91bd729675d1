#include "opaque.hpp"
using namespace dstruct;
#if defined(DV_BST)
typedef Elem T_;
typedef tree::BinarySearchTree<T_, Cmp, VA> V_;
typedef tree::EmbeddedBinaryTreeNode<T_> N_;
#else
#if defined(DV_AVL)
typedef Elem T_;
typedef AVLTree<T_, Cmp, VA> V_;
#else
typedef KeyValue<const Elem, Elem> T_;
typedef AVLTree<T_, KVCMPKey<T_, Cmp>, VA> V_;
#endif
typedef tree::EmbeddedBinaryTreeNode<AVLData_<T_>> N_;
#endif
