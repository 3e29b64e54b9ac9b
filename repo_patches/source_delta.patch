From 5eaa14c0163f034d24fe882bf4f0237882e86bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 01/14] fix: import math in utils/comparator so the package
 compiles

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 00186ccf1b9d69a2a509a4bd1872b99cca7fc1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 02/14] fix: check for an empty ketama ring under the lock that
 Get holds

---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From b46e885528cba5347eb034db1692d6c2e07147dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 03/14] fix: stop the whole hamt traversal when the visitor
 returns false

---
 ds/hamt/hamt.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..ed4e5a4 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,23 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+// traversal returns false if the visitor asked to stop
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From 0b13af7a2ecfa52f90516a7a240b5fb82968e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 04/14] fix: count an rbtree node only once it is linked, after
 the last comparator call

---
 ds/rbtree/rbtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index cf7cee9..f60d89b 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -111,17 +111,18 @@ func (t *RbTree[K, V]) Insert(key K, value V) {
 	}
 
 	z := &Node[K, V]{parent: y, color: RED, key: key, value: value}
-	t.size++
 
 	if y == nil {
 		z.color = BLACK
 		t.root = z
+		t.size++
 		return
 	} else if t.keyCmp(z.key, y.key) < 0 {
 		y.left = z
 	} else {
 		y.right = z
 	}
+	t.size++
 	t.rbInsertFixup(z)
 }
 
-- 
2.43.0


From cbfb8131a6c0e0d87fc7a6f89ab7eab876a4b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 05/14] fix: give a bloom filter rebuilt from data its own copy
 of the bits

---
 ds/bloomfilter/bloom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/bloomfilter/bloom.go b/ds/bloomfilter/bloom.go
index dfac42f..fe56426 100644
--- a/ds/bloomfilter/bloom.go
+++ b/ds/bloomfilter/bloom.go
@@ -75,7 +75,7 @@ func NewFromData(data []byte, opts ...Option) *BloomFilter {
 	reader := bytes.NewReader(data)
 	binary.Read(reader, binary.LittleEndian, &b.m)
 	binary.Read(reader, binary.LittleEndian, &b.k)
-	b.b = bitmap.NewFromData(data[8+8:])
+	b.b = bitmap.NewFromData(append([]byte(nil), data[8+8:]...))
 	return b
 }
 
-- 
2.43.0


From de5970daa2f58c6d9a9429a37e470cc8e24e2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 06/14] fix: end the recursion of Stable on an empty range

---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From aebb38a94aa44f470c7ec170b867d4b7d3ec0ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 07/14] fix: order the last two elements in NthElement

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 5015af4ec55d94b1befca8572a933692b443f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 08/14] fix: leave an empty range alone in Reverse

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From 6bf55fb74fb51104a542d73ba194b67ffbd2874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 09/14] fix: let PushBackList and PushFrontList start from an
 empty bidlist

---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a4a1932 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From 7b18e0d0a6206221aab4de16036f4ab65001f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 10/14] fix: move the front node of a bidlist after its last
 node

---
 ds/list/bidlist/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a4a1932..3e60ab9 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -247,6 +247,11 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 	if n.list != l || n == mark || mark.list != l {
 		return
 	}
+	if n == l.head && mark == n.prev {
+		// n follows mark in the circle already, only the front moves
+		l.head = n.next
+		return
+	}
 	l.moveToAfter(n, mark)
 }
 
-- 
2.43.0


From d91fb76bd5ffbc074c69199332540d4bb5e36a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 11/14] fix: point SliceWrapper.Last at the last element

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From b6f980802658c4f3f12c2cc73d00be4386bc55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 12/14] fix: compare the slices in SliceIterator.Equal

---
 ds/slice/iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/iterator.go b/ds/slice/iterator.go
index c7e22dd..f0048e7 100644
--- a/ds/slice/iterator.go
+++ b/ds/slice/iterator.go
@@ -69,7 +69,7 @@ func (iter *SliceIterator[T]) Equal(other iterator.ConstIterator[T]) bool {
 	if !ok {
 		return false
 	}
-	if otherIter.position == iter.position {
+	if otherIter.s == iter.s && otherIter.position == iter.position {
 		return true
 	}
 	return false
-- 
2.43.0


From 7f7ca4d54a7e8eaec253cb41540a91f6acf84316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 13/14] fix: compare real parts in Complex64Comparator

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From d7f02000701a659f74d1e54e62f51baae7bb7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 14/14] fix: read-lock both operands of Set Union, Intersect
 and Diff, in one order

---
 ds/set/set.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..5176952 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -3,6 +3,7 @@ package set
 import (
 	"fmt"
 	gosync "sync"
+	"sync/atomic"
 
 	"github.com/liyue201/gostl/ds/rbtree"
 	"github.com/liyue201/gostl/utils/comparator"
@@ -17,6 +18,7 @@ const (
 
 var (
 	defaultLocker sync.FakeLocker
+	lastID        uint64
 )
 
 // Options holds the Set's options
@@ -41,6 +43,7 @@ type Set[T any] struct {
 	tree   *rbtree.RbTree[T, bool]
 	locker sync.Locker
 	keyCmp comparator.Comparator[T]
+	id     uint64 // fixes the order in which two sets are locked
 }
 
 // New creates a new set
@@ -55,6 +58,26 @@ func New[T any](cmp comparator.Comparator[T], opts ...Option) *Set[T] {
 		tree:   rbtree.New[T, bool](cmp),
 		locker: option.locker,
 		keyCmp: cmp,
+		id:     atomic.AddUint64(&lastID, 1),
+	}
+}
+
+// rLockWith read-locks the set s and the passed set, in an order that does not depend on which of them is s,
+// and returns the function that unlocks them
+func (s *Set[T]) rLockWith(other *Set[T]) func() {
+	if s == other {
+		s.locker.RLock()
+		return s.locker.RUnlock
+	}
+	first, second := s, other
+	if second.id < first.id {
+		first, second = second, first
+	}
+	first.locker.RLock()
+	second.locker.RLock()
+	return func() {
+		second.locker.RUnlock()
+		first.locker.RUnlock()
 	}
 }
 
@@ -185,8 +208,7 @@ func (s *Set[T]) String() string {
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -209,8 +231,7 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -241,8 +262,7 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-- 
2.43.0

