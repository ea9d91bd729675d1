From aee41dbd15e8eb866e352b57de82c4e273bfa2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 01/36] fix: Vector copy destroyed elements that were never
 constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 49ad1e31480e5461b2b2f3ae5aab0cae3268ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 02/36] fix: Vector::push_back of one of the vector's own
 elements read freed memory when it grew

---
 core/ds/array/Vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..18ea041 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,12 +96,15 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            ValueType copy { element }; // element may be in the released area
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, copy);
+        } else {
+            dstruct::construct(mC_d + mSize_d, element);
         }
-        dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
     }
 
-- 
2.43.0


From 4d3e4ac62cdce1acf11629df98b377f6882cdcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 03/36] fix: Vector::resize(n, element) read freed memory when
 element is in the vector

---
 core/ds/array/Vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 18ea041..947fd8b 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -193,6 +193,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set (before release: element may be in the old area)
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -203,11 +208,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From a68e23d46593c4f493400748562eb368ca54e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 04/36] fix: XValueStack lost an element when the extreme value
 was pushed more than once

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..35c7add 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,7 +51,7 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) { // equal: save it too, pop restores by value
             mStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
-- 
2.43.0


From a41ea67be489535a6069f07f3c34e61ca8791b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 05/36] fix: DisjointSet: connecting two elements of one set
 made its root its own parent

---
 core/ds/set/DisjointSet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..ee82560 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,6 +72,7 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
+        if (root1 == root2) return; // already in the same set
         if (root1 < root2) {
             mArray_d[root2] = root1;
         } else {
-- 
2.43.0


From e2da649edd35158d2bed804ba84891d9116e9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 06/36] fix: SinglyLinkedList push/pop left the tail pointer
 stale

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..17b6539 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -116,6 +116,14 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
+    void pop() {
+        pop_front();
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
-- 
2.43.0


From f27c35d82d45f21b8190d733e053c372d71b2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 07/36] fix: SinglyLinkedList copy repeated the first element
 and kept a tail pointer into the source

---
 core/ds/linked-list/SinglyLinkedList.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 17b6539..64dacc9 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -69,18 +69,10 @@ public: // big five
     DSTRUCT_COPY_SEMANTICS(SinglyLinkedList) {
         clear();
         // copy
-        if (ds.mSize_d != 0) {
-            auto linkPtr =  ds.mHeadNode_d.link.next;
-            auto nextLinkPtr = linkPtr->next;
-            auto nodePtr = Node_::to_node(linkPtr);
-            while (nextLinkPtr != &(ds.mHeadNode_d.link)) {
-                push_back(nodePtr->data);
-                linkPtr = nextLinkPtr;
-                nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
-            }
-            push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
+        auto linkPtr = ds.mHeadNode_d.link.next;
+        while (linkPtr != &(ds.mHeadNode_d.link)) {
+            push_back(Node_::to_node(linkPtr)->data);
+            linkPtr = linkPtr->next;
         }
         return *this;
     }
-- 
2.43.0


From e0a98f2a27820ffdad45bd9f99eab3a60d48355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 08/36] fix: SinglyLinkedList move from an empty list linked
 the two lists together

---
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 64dacc9..82d4791 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -80,7 +80,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From 17a6e529f6ba057830bc305a265578f7145bc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 09/36] fix: DoublyLinkedList move from an empty list linked
 the two lists together

---
 core/ds/linked-list/DoublyLinkedList.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/linked-list/DoublyLinkedList.hpp b/core/ds/linked-list/DoublyLinkedList.hpp
index 54a96a4..e36ea7a 100644
--- a/core/ds/linked-list/DoublyLinkedList.hpp
+++ b/core/ds/linked-list/DoublyLinkedList.hpp
@@ -87,6 +87,10 @@ public: // big five
         List_::operator=(dstruct::move(ds));
         // update link: first-data and last-data point to new headNode
         auto headLinkPtr = Node_::to_link(&mHeadNode_d);
+        if (mSize_d == 0) { // ds was empty: its links point to its own headNode
+            Node_::init(&mHeadNode_d);
+            return *this;
+        }
         mHeadNode_d.link.prev->next = headLinkPtr;
         mHeadNode_d.link.next->prev = headLinkPtr;
         return *this;
-- 
2.43.0


From 871c76b6a8d87e4f140a53da15c6c5d30c0dd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 10/36] fix: BasicString("") read past the end of its argument

---
 core/ds/string/BasicString.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..c22a48f 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,11 +38,9 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
-        mCharList_d[-1] = *str;
-        while (*(++str) != '\0') {
-            mCharList_d.push_back(*str);
+        while (*str != '\0') {
+            push_back(*(str++));
         }
-        mCharList_d.push_back('\0');
     }
 
     ~BasicString() = default;
-- 
2.43.0


From a980d4fcfc140be00ec129db417535b613effabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 11/36] fix: BasicString: appending a string to itself never
 terminated

---
 core/ds/string/BasicString.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index c22a48f..67a905e 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -117,9 +117,9 @@ public:
     BasicString & operator+=(const BasicString &str) {
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
-        mCharList_d[-1] = str[0];
-        for (int i = 1; i < str.mCharList_d.size(); i++) {
-            mCharList_d.push_back(str.mCharList_d[i]);
+        SizeType size = str.size(); // str may be *this
+        for (int i = 0; i < size; i++) {
+            push_back(str[i]);
         }
         return *this;
     }
-- 
2.43.0


From ac6a4804c04ea9f93965a689311b27bf82232263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 12/36] fix: BasicString: a moved-from string had no terminator
 and size() of 2^64-1

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 67a905e..f9ca0ae 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // moved-from string is a empty string
         return *this;
     }
 
-- 
2.43.0


From 717d1b5f56b91aa40a44722c84e4349ec267a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 13/36] fix: BinarySearchTree: deleting a node with two
 children looked for the successor with the test reversed

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..44e90a3 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -209,7 +209,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 29a70adfeecb3500d3fa2c9216a88310206cd544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 14/36] fix: BinarySearchTree::push of an element already in
 the tree still counted it in size()

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 44e90a3..ff557ba 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,6 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
     }
 
     void pop(const T &obj) {
@@ -166,6 +165,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From b4c601db1d37c4a1fbbb6b72a032152771393e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 15/36] fix: BinarySearchTree/AVLTree::pop of an element not in
 the tree dereferenced null

---
 core/ds/tree/AVLTree.hpp          | 1 +
 core/ds/tree/BinarySearchTree.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..42db277 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -297,6 +297,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index ff557ba..4040cf9 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From eddbd745d0daccbdfb0e70a63a4a561e7d72f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 16/36] fix: BinaryTree::copy did not compile, so a
 BinarySearchTree could not be copied

---
 core/ds/tree/BinaryTree.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..3470025 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,15 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        newRoot->link.left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (newRoot->link.left)
+            newRoot->link.left->parent = Node_::to_link(newRoot);
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        newRoot->link.right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (newRoot->link.right)
+            newRoot->link.right->parent = Node_::to_link(newRoot);
 
         return newRoot;
     }
-- 
2.43.0


From 9d79753deb4199a7b1a14b1de9d7c18d0ad918d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 17/36] fix: AVLTree (and Map) copy and move shared the nodes,
 which were then freed twice

---
 core/ds/tree/AVLTree.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 42db277..55d5505 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,29 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From c62bb98902df5b1665087fe230c2f8731162e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 18/36] fix: AVLTree::erase of a root with fewer than two
 children left the root dangling

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 55d5505..008f924 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -289,6 +289,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -311,6 +313,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 38e6c9f54df93c2e158a7426f521309553e01a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 19/36] fix: AVLTree::erase needed default construction and
 assignment, so Map::erase did not compile

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 008f924..e9cba9c 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -164,17 +164,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // nodes are relinked, not copied: next stays valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From b35e31035b44818e56386336f1611886118c5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 20/36] fix: Map::operator[] const did not compile

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..f159e84 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -114,7 +114,7 @@ public: // Access & Modifiers
     }
 
 public:
-    IteratorType find(const KeyType &key) {
+    IteratorType find(const KeyType &key) const {
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
-- 
2.43.0


From ec4769fdd7a71e24d2f12b80eebc4cc0ac3c9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 21/36] fix: BinaryTree: begin() of an empty tree dereferenced
 null

---
 core/ds/tree/BinaryTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 3470025..63c249f 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -210,6 +210,9 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
+        if (first == nullptr) {
+            return nullptr;
+        }
         if (ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
-- 
2.43.0


From eb47bb1f00e61b722c2ffb52dbb6cdbb3f860607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 22/36] fix: BinaryTree::traversal visited only the leftmost
 subtree

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 63c249f..2bf0ab7 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From e34f403405a29dccd1ab3f1b245df7d096921004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 23/36] fix: post-order iteration did not visit a tree in
 post-order

---
 core/ds/tree/BinaryTree.hpp         |  6 +++++-
 core/ds/tree/EmbeddedBinaryTree.hpp | 27 +++++++++++++--------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 2bf0ab7..e776936 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -213,10 +213,14 @@ public:
         if (first == nullptr) {
             return nullptr;
         }
-        if (ttype != TraversalType::PreOrder) {
+        if (ttype == TraversalType::InOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
+        } else if (ttype == TraversalType::PostOrder) { // first leaf
+            while (first->left != nullptr || first->right != nullptr) {
+                first = first->left != nullptr ? first->left : first->right;
+            }
         }
         return first;
     }
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..a72a8a5 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,23 +140,22 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
-        while (link->left != nullptr || link->right != nullptr) {
-            if (link->left != nullptr) {
-                link = link->left;
-            } else {
-                link = link->right;
-            }
-        }
-        return link;
+    // link->parent != nullptr : root check
+    // link is the last of its parent's subtrees: the parent is next
+    if (link->parent == nullptr || link->parent->right == nullptr || link->parent->right == link) {
+        return link->parent;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
+    // link is the left child: next is the first leaf of the right subtree
+    link = link->parent->right;
+    while (link->left != nullptr || link->right != nullptr) {
+        if (link->left != nullptr) {
+            link = link->left;
+        } else {
+            link = link->right;
+        }
     }
-    return link->parent;
+    return link;
 }
 
 template <typename Callback>
-- 
2.43.0


From 48f74685ab13363ad20a573e23b33b62811241fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 24/36] fix: AVLTree::begin/end ignored the requested traversal
 order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index e9cba9c..8d33b38 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -178,12 +178,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From 383514fb5a6cba5b8e956720d80b884e1d5650cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 25/36] fix: Deque: begin()/end() of a deque never pushed to
 were uninitialised

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..f4cdd49 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
-- 
2.43.0


From f46446ea08fce0a886f19852e1dd4276b2922138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 26/36] fix: Deque::clear left begin()/end() pointing into
 freed blocks

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index f4cdd49..9599647 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -323,7 +323,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From 9988b3e7318d7c0a3fb61e878bebb32e9c498b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 27/36] fix: Deque: a moved-to deque kept using the map table
 of its source

---
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 9599647..0177757 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -192,6 +192,7 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From caa82713109d42d54ab8f5b602c3c6ad6b5a9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 28/36] fix: Deque filled its blocks with default elements that
 were overwritten, never destroyed

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 0177757..43c69ca 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -339,7 +339,6 @@ protected:
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
             mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -377,7 +376,6 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 0cd0f6f46c258e31a8cc9c2308ccedcedfa7427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 29/36] fix: Deque and Queue with an allocator other than
 dstruct::Alloc did not compile

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 43c69ca..3f32ae4 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From 047bad094e62802c7b4894878207cefedc18f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 30/36] fix: StaticMemAllocator: allocated blocks were not
 aligned to SMA_MEM_ALIGN

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From 091e51208184b4bd46f4e13ef15b7f88145c61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 31/36] fix: StaticMemAllocator::allocate of zero, negative or
 huge sizes corrupted the free lists

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..860d462 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0 || bytes > mFreeMemSize_d) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 98415012fbeba3ab09943fad14ddc98ba1b61202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 32/36] fix: StaticMemAllocator::memory_merge gave up on a list
 at the first lower block

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 860d462..3a4ce0b 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -258,7 +258,7 @@ protected: // quick allocator
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break;
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From b3054157be7927528d90a9262bf9530e5b584d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 33/36] fix: Deque iterators compared equal across blocks that
 are adjacent in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 3f32ae4..6e4bd12 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -122,6 +122,12 @@ public: // BidirectionalIterator
         return oldSelf;
     }
 
+public: // the end of one block can be the address of another block's first element
+    bool operator!=(const Self &it) const { return !(*this == it); }
+    bool operator==(const Self &it) const {
+        return Self::mPointer_d == it.mPointer_d && mCurrMapIndex_d == it.mCurrMapIndex_d;
+    }
+
 public: // RandomIterator
     Self operator+(int n) const {
         if (n < 0) {
-- 
2.43.0


From ac8ab2b4229091ce3e768944558e05dd1f5ecacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 34/36] fix: Vector::push_back: copy the element with its copy
 constructor, whatever its other constructors

---
 core/ds/array/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 947fd8b..dd9fde8 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,7 +96,7 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
-            ValueType copy { element }; // element may be in the released area
+            ValueType copy(element); // element may be in the released area
             if (mSize_d)
                 resize(2 * mSize_d);
             else
-- 
2.43.0


From b95f969e2040b21319be075adda280d11b3ccf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 35/36] fix: Deque growth dropped every element when the first
 block followed the last in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 6e4bd12..7fcc324 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -406,7 +406,7 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (mSize_d == 0) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From ea671e34b783a422e71cf143c91ab324195c2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 36/36] fix: MinStack/MaxStack push of an element of the stack
 itself read it after it was released

---
 core/ds/stack/XValueStack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 35c7add..e6d7b44 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -52,10 +52,13 @@ public:
 
     void push(const T &val) {
         if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) { // equal: save it too, pop restores by value
+            T newXValue = val; // val may be in mStack_d, and the next push may release it
             mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
+            mXValue_d = newXValue;
+            mStack_d.push(newXValue);
+        } else {
+            mStack_d.push(val);
         }
-        mStack_d.push(val);
     }
 
     void pop() {
-- 
2.43.0

