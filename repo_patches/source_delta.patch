From 8f6621542b37660e895bf7519be48cfcf36de199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/55] fix: Vec.Reserve must only grow capacity, not append
 zero elements

---
 vec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..70cfa3d 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,9 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		data := make([]T, self.Len(), self.Len()+additional)
+		copy(data, self.data)
+		self.data = data
 	}
 }
 
-- 
2.43.0


From 1be5a7f69581ddd8a13cd260872ad517b40cdc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 02/55] fix: Vec.Set out of bounds must hand the value back
 instead of panicking

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index 70cfa3d..bab3487 100644
--- a/vec.go
+++ b/vec.go
@@ -261,7 +261,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From 34689273787685b61b380c524399bff1e9c5d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/55] fix: Vec.DedupByKey must remove consecutive duplicates
 only

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index bab3487..ca3b130 100644
--- a/vec.go
+++ b/vec.go
@@ -183,13 +183,13 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var previous any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || k != previous {
 			newData = append(newData, value)
 		}
+		previous = k
 	}
 	self.data = newData
 }
-- 
2.43.0


From 555619902bfb04dd2db784f1e418b65fad4501c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 04/55] fix: Rev on a partly consumed iterator must yield only
 the remaining elements

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 vec.go       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..481036a 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -827,8 +827,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
@@ -941,8 +941,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
@@ -1055,8 +1055,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 6a00e57..7519a03 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -368,8 +368,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..3e99007 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..645fadd 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
diff --git a/vec.go b/vec.go
index ca3b130..7b54ef8 100644
--- a/vec.go
+++ b/vec.go
@@ -596,8 +596,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := self.vec.Len() - self.position - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 3ea7126660588e2c4e33866e03f4e1f1ad6f1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 05/55] fix: CollectToVec on a partly consumed iterator must
 skip the consumed elements

---
 btree_map.go | 33 ++++++++++++++++++++++++++++++---
 btree_set.go | 11 ++++++++++-
 hash_map.go  | 33 ++++++++++++++++++++++++++++++---
 hash_set.go  | 11 ++++++++++-
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 481036a..3dd9ef2 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -843,7 +843,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -957,7 +966,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1071,7 +1089,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 7519a03..0fc3358 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -384,7 +384,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 3e99007..258c474 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -319,7 +328,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -427,7 +445,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 645fadd..c8298e7 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
-- 
2.43.0


From bdf1c5e08afa246f84c6ca57da4be170d0059c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 06/55] fix: VecDeque iterator adaptors must start at the
 current position and Rev must terminate

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..db3cfb0 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -722,7 +722,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -733,7 +733,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -747,7 +747,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -758,8 +758,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -769,7 +769,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -780,7 +780,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From 886187e762c0c53f5640790dfd3ad39c0208eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/55] fix: LinkedList iterator Rev must reverse the order

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From d3e71359e7c2b4c4c89858767a1955e3d26f8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 08/55] fix: VecDeque.AsSlice must return the elements in order
 wherever the head is

---
 vec_deque.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index db3cfb0..c22766b 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,7 +341,26 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
-	return self.buffer[:self.len]
+	if self.head+self.len > USize(len(self.buffer)) {
+		self._MakeContiguous()
+	}
+
+	return self.buffer[self.head : self.head+self.len]
+}
+
+// Rearranges the internal storage so that the elements start at physical index 0.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	buffer := make([]T, len(self.buffer))
+	for i := USize(0); i < self.len; i++ {
+		buffer[i] = self.GetUnchecked(i)
+	}
+
+	self.buffer = buffer
+	self.head = 0
 }
 
 // Require `impl Eq[T] for T`
-- 
2.43.0


From b6020a0e79875fe6c69463f2ada7f5c964659c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 09/55] fix: VecDeque binary search must index from the head of
 the deque

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index c22766b..e571057 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -432,7 +432,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -476,7 +476,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From f9486d7aed4ac03506d49eed2f73a3cba9de9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 10/55] fix: VecDeque sorting must sort the elements, not the
 front of the storage

---
 vec_deque.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index e571057..8c82235 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -510,6 +510,8 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -544,6 +546,8 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -559,6 +563,8 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -593,6 +599,8 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
-- 
2.43.0


From 873ba963fb6cf6fdeb6cb300a751c60818d5641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 11/55] fix: VecDeque.Clone must clone its elements

---
 vec_deque.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index 8c82235..695307a 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -856,7 +856,8 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := castToClone(self.Get(i).Unwrap()).Unwrap()
+		cloned.PushBack(e.Clone())
 	}
 
 	return &cloned
-- 
2.43.0


From d94f8516a8b1e3c654b8e1ac188194673b54c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 12/55] fix: BTreeMap must split full nodes at the minimum
 degree

---
 btree_map.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 3dd9ef2..7cdace5 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -414,7 +415,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +444,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < z.n; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +470,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From d76db9df66d83a5fe8d19d4ca8e4949c13edf6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 13/55] fix: BTreeMap lookups must not look at keys beyond the
 node's count

---
 btree_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7cdace5..31ea2f5 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -316,12 +316,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
-- 
2.43.0


From b71ba558fdc1fbc20c0ccbd0bd98ca5e3e37cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 14/55] fix: BTreeMap traversal must cover the last child and
 nothing beyond the node's count

---
 btree_map.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 31ea2f5..e942d03 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -236,7 +236,7 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -252,6 +252,12 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	// Traverse the subtree rooted with the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -263,7 +269,7 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -281,6 +287,12 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	// Traverse the subtree rooted with the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -292,7 +304,7 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -309,6 +321,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	// Traverse the subtree rooted with the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
-- 
2.43.0


From 19d845446278b472aa5fa815d4ea4d6f313e299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 15/55] fix: BTreeMap.Remove must return the value the key had

---
 btree_map.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index e942d03..585a99b 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -186,6 +186,11 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 	}
 
 	result, index := self.root._Search(key)
+	if result.IsNone() {
+		return None[V]()
+	}
+
+	oldValue := *result.Unwrap().values.GetUnchecked(USize(index))
 
 	// Call the remove function for root
 	self.root._Remove(key)
@@ -200,12 +205,8 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
-		self.len--
-		return Some(*result.Unwrap().values.data[index])
-	}
+	self.len--
+	return Some(oldValue)
 }
 
 // Debug only
-- 
2.43.0


From 025821c41d1be16615b4487bc299362b7fe3e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 16/55] fix: iterating an empty BTreeSet must not dereference a
 nil root

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 0fc3358..1013a50 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := VecNew[K]()
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From e8fcbecf2920fa3033dc3b07680d5d8b838ce3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 17/55] fix: BTreeSet.Clone must advance its iterator

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 1013a50..482e4c3 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -450,8 +450,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 41f55114656f0626fa844190c049e0da2b9c426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 18/55] fix: BinaryHeap.Append must leave the other heap empty

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From c2a5e9c381b26259f032694714da79744a9129a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 19/55] fix: Option.And and AndThen must return None for None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From fbda8026d9481729930c3e98d90a00fc920c35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 20/55] fix: Option.Replace must store the value when the
 option is None

---
 option.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index ea7c79a..c864c4c 100644
--- a/option.go
+++ b/option.go
@@ -333,7 +333,8 @@ func (self *Option[T]) Take() Option[T] {
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
 	if self.IsNone() {
-		return *self
+		self.value = &value
+		return None[T]()
 	} else {
 		oldValue := *self.value
 		self.value = &value
-- 
2.43.0


From 468dddf56016382987579a0e2fa5450eff7719cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 21/55] fix: ElseIf must not override a branch already taken

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..583d0f3 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if self.returnValue == nil && condition {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From 14d6c6355c5b2bc390070937c666452ed37ea50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 22/55] fix: JoinHandle.IsFinished must not consume the
 completion that Join waits for

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..08c89d7 100644
--- a/thread.go
+++ b/thread.go
@@ -48,7 +48,7 @@ func Spawn(f func()) JoinHandle {
 
 	go func() {
 		f()
-		channel <- Unit{}
+		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 3196afaba943170c7074640735951cdd69628246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 23/55] fix: assertions must format their message with the
 arguments after it

---
 panic.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..b06f283 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,7 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
 			}
 		}
 
@@ -31,11 +31,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +52,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From 62f224a346196770e1f618cde4c147d9762f0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 24/55] fix: Assert must show a message given as a plain
 string, as AssertEq does

---
 panic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panic.go b/panic.go
index b06f283..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -16,6 +16,10 @@ func Assert(condition Bool, args ...any) {
 			if message, ok := args[0].(String); ok {
 				panic(Format(message, args[1:]...))
 			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
+			}
 		}
 
 		panic(Format("assertion failed"))
-- 
2.43.0


From 62681e5eb74d6619c01773799db49b7a27e7b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 25/55] fix: RemoveDir must not remove files

---
 fs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 6f224e2..1394c29 100644
--- a/fs.go
+++ b/fs.go
@@ -3,6 +3,7 @@ package gost
 import (
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -18,7 +19,15 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err == nil {
+		if stat.IsDir() {
+			err = os.Remove(string(path))
+		} else {
+			err = &os.PathError{Op: "rmdir", Path: string(path), Err: syscall.ENOTDIR}
+		}
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 45e54f3b157777d5c40b5c2b5d6a2065459acea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 26/55] fix: RemoveFile must not remove directories

---
 fs.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 1394c29..d8c276a 100644
--- a/fs.go
+++ b/fs.go
@@ -63,7 +63,15 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err == nil {
+		if stat.IsDir() {
+			err = &os.PathError{Op: "unlink", Path: string(path), Err: syscall.EISDIR}
+		} else {
+			err = os.Remove(string(path))
+		}
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From d6512c2783d2b7295973431967f14b1cac8bebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 27/55] fix: ReadDir must not prepend empty entries

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index d8c276a..9d9ca73 100644
--- a/fs.go
+++ b/fs.go
@@ -154,7 +154,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From ed633608f0a010fc9e3c6fb4ab48bd49ec21e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 28/55] fix: ReadDir must report the type of each entry

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 9d9ca73..88de9d9 100644
--- a/fs.go
+++ b/fs.go
@@ -159,11 +159,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From feaf663ec1012f71e1c185b154153d11e0568fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 29/55] fix: Copy must copy the contents and permissions
 instead of hard-linking

---
 fs.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 88de9d9..52201f5 100644
--- a/fs.go
+++ b/fs.go
@@ -183,7 +183,25 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	stat, err := os.Stat(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	data, err := os.ReadFile(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.WriteFile(string(to), data, stat.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.Chmod(string(to), stat.Mode().Perm())
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 7dd3d56e00f2c031241fa0f5cadb26ed5c4f5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 30/55] fix: every Await of a future must return its result

---
 gokio/gokio.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..130e33b 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -3,21 +3,22 @@ package gokio
 import "github.com/myyrakle/gost"
 
 type gokioFuture[T any] struct {
-	ch chan T
+	done  chan struct{}
+	value T
 }
 
 func (self *gokioFuture[T]) Await() T {
-	return <-self.ch
+	<-self.done
+
+	return self.value
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
-
-	future := gokioFuture[T]{ch: ch}
+	future := gokioFuture[T]{done: make(chan struct{})}
 
 	go func() {
-		defer close(ch)
-		ch <- f()
+		defer close(future.done)
+		future.value = f()
 	}()
 
 	return &future
-- 
2.43.0


From 3def66f3ede40e7dcf960dbf177954b44c677ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 31/55] fix: StringFromUTF16 must decode every code unit

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..14d0d36 100644
--- a/string.go
+++ b/string.go
@@ -16,7 +16,7 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
-- 
2.43.0


From 57f6da968ddecf658078214d2d21639fbb0f5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 32/55] fix: StringFromUTF16 must return Err for lone
 surrogates

---
 string.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/string.go b/string.go
index 14d0d36..14bc81f 100644
--- a/string.go
+++ b/string.go
@@ -1,8 +1,10 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -20,6 +22,17 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
+	for i := 0; i < len(convertedData); i++ {
+		if !utf16.IsSurrogate(rune(convertedData[i])) {
+			continue
+		}
+
+		if i+1 == len(convertedData) || utf16.DecodeRune(rune(convertedData[i]), rune(convertedData[i+1])) == unicode.ReplacementChar {
+			return Err[String](errors.New("invalid utf-16: lone surrogate found"))
+		}
+		i++
+	}
+
 	decoded := utf16.Decode(convertedData)
 
 	return Ok[String](String(decoded))
-- 
2.43.0


From cd6237fabb8c3a7468468b51eef6d81fbca2c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 33/55] fix: ParseU64 must accept the whole range and reject
 negative numbers

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 14bc81f..6d93e30 100644
--- a/string.go
+++ b/string.go
@@ -143,7 +143,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From 011428c469363f6679452ed8904d7c4b68c1a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 34/55] fix: String.Pop must leave the rest of the string
 untouched

---
 string.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/string.go b/string.go
index 6d93e30..3297a14 100644
--- a/string.go
+++ b/string.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 	"unicode"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Converts a vector of bytes to a String.
@@ -74,10 +75,8 @@ func (self *String) Pop() Option[Char] {
 		return None[Char]()
 	}
 
-	runes := []rune(*self)
-
-	last := runes[len(runes)-1]
-	*self = String(runes[:len(runes)-1])
+	last, size := utf8.DecodeLastRuneInString(string(*self))
+	*self = (*self)[:len(*self)-size]
 
 	return Some[Char](Char(last))
 }
-- 
2.43.0


From 2fc344e1558c3b275c614506a78291407156efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 35/55] fix: USize.ToString must not go negative above the
 signed maximum

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From acd1977b5edd706b4e6e6e8651dabe40a9eacc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 36/55] fix: shift by the right-hand operand

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From bb657faffe7974f05bc4a874ab2dc4363d63b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 37/55] fix: 128-bit shifts must work for every shift amount

---
 bitwise.go | 88 ++++++++++++++++++++----------------------------------
 1 file changed, 32 insertions(+), 56 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..eb18920 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,23 +29,17 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
-
-	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
-
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	if rhs.low >= 64 {
+		return I128{
+			high: I64(lhs.low << (rhs.low - 64)),
+			low:  0,
+		}
 	}
 
+	// the bits that leave the low half enter the high half
 	return I128{
-		high: high,
-		low:  low,
+		high: lhs.high<<rhs.low | I64(lhs.low>>(64-rhs.low)),
+		low:  lhs.low << rhs.low,
 	}
 }
 
@@ -70,23 +64,17 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
-	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
-
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	if rhs.low >= 64 {
+		return U128{
+			high: U64(lhs.low << (rhs.low - 64)),
+			low:  0,
+		}
 	}
 
+	// the bits that leave the low half enter the high half
 	return U128{
-		high: high,
-		low:  low,
+		high: lhs.high<<rhs.low | U64(lhs.low>>(64-rhs.low)),
+		low:  lhs.low << rhs.low,
 	}
 }
 
@@ -111,23 +99,17 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
-
-	low := lhs.low >> rhs.low
-	high := lhs.high >> rhs.low
-
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	if rhs.low >= 64 {
+		return I128{
+			high: lhs.high >> 63,
+			low:  U64(lhs.high >> (rhs.low - 64)),
+		}
 	}
 
+	// the bits that leave the high half enter the low half
 	return I128{
-		high: high,
-		low:  low,
+		high: lhs.high >> rhs.low,
+		low:  lhs.low>>rhs.low | U64(lhs.high)<<(64-rhs.low),
 	}
 }
 
@@ -152,22 +134,16 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
-	low := lhs.low >> rhs.low
-	high := lhs.high >> rhs.low
-
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	if rhs.low >= 64 {
+		return U128{
+			high: 0,
+			low:  U64(lhs.high >> (rhs.low - 64)),
+		}
 	}
 
+	// the bits that leave the high half enter the low half
 	return U128{
-		high: high,
-		low:  low,
+		high: lhs.high >> rhs.low,
+		low:  lhs.low>>rhs.low | U64(lhs.high)<<(64-rhs.low),
 	}
 }
-- 
2.43.0


From b82b072b5f473df058a0dee2cac6734a3f4bcf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 38/55] fix: signed multiplication overflow must be judged
 against the minimum for negative products

---
 ops.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..3c75d07 100644
--- a/ops.go
+++ b/ops.go
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
-- 
2.43.0


From f0605538a6afc0fe83eeaaa1e1987b0bdd287a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 39/55] fix: USize multiplication must use the 64-bit maximum

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 3c75d07..1d5130b 100644
--- a/ops.go
+++ b/ops.go
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
-- 
2.43.0


From 5874563a72b57d4c864613564e8d6291570185bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 40/55] fix: ISize subtraction must use the 64-bit range

---
 ops.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops.go b/ops.go
index 1d5130b..9013475 100644
--- a/ops.go
+++ b/ops.go
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
-- 
2.43.0


From b54e078dd9e08743d62a283875ca7b091e3542ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 41/55] fix: CheckedSub must test for overflow of the
 subtraction

---
 ops.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ops.go b/ops.go
index 9013475..c91850f 100644
--- a/ops.go
+++ b/ops.go
@@ -1784,7 +1784,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1793,7 +1793,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1803,7 +1803,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1813,7 +1813,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From a5c7c42afeb5aa40e52de122cb9159e6cf3c7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 42/55] fix: SaturatingMul must saturate towards the sign of
 the product

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index c91850f..d9a89c9 100644
--- a/ops.go
+++ b/ops.go
@@ -2447,7 +2447,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2458,7 +2458,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2469,7 +2469,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2480,7 +2480,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2491,7 +2491,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From 150897c68de37836e3da0b38516243b7238e55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 43/55] fix: ISize.WrappingMul must wrap like the other widths

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index d9a89c9..07f4575 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From 191f8bf335494ff4fe7dfee8f1679a3a2c04b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 44/55] fix: signed CheckedRem must accept negative operands

---
 ops.go | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/ops.go b/ops.go
index 07f4575..05b2270 100644
--- a/ops.go
+++ b/ops.go
@@ -2075,72 +2075,52 @@ func (self U64) CheckedDiv(rhs U64) Option[U64] {
 
 // Checked integer remainder. Computes self % rhs, returning None if rhs == 0 or the operation results in overflow.
 func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[ISize]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[ISize]()
-	}
 	return Some[ISize](result)
 }
 
 func (self I8) CheckedRem(rhs I8) Option[I8] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I8]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I8]()
-	}
 	return Some[I8](result)
 }
 
 func (self I16) CheckedRem(rhs I16) Option[I16] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I16]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I16]()
-	}
 	return Some[I16](result)
 }
 
 func (self I32) CheckedRem(rhs I32) Option[I32] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I32]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I32]()
-	}
 	return Some[I32](result)
 }
 
 func (self I64) CheckedRem(rhs I64) Option[I64] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I64]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I64]()
-	}
 	return Some[I64](result)
 }
 
-- 
2.43.0


From 988be2f720851a1f994cbfd1573db7ee0e40ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 45/55] fix: subtraction overflow must not be reported for MIN
 - 0

---
 ops.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ops.go b/ops.go
index 05b2270..3105900 100644
--- a/ops.go
+++ b/ops.go
@@ -1057,40 +1057,40 @@ func (self ISize) _HasOverflow_Sub(rhs ISize) bool {
 }
 
 func (self I8) _HasOverflow_Sub(rhs I8) bool {
-	if self > 0 && rhs < math.MinInt8+self {
+	if rhs < 0 && self > math.MaxInt8+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt8+self {
+	if rhs > 0 && self < math.MinInt8+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I16) _HasOverflow_Sub(rhs I16) bool {
-	if self > 0 && rhs < math.MinInt16+self {
+	if rhs < 0 && self > math.MaxInt16+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt16+self {
+	if rhs > 0 && self < math.MinInt16+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I32) _HasOverflow_Sub(rhs I32) bool {
-	if self > 0 && rhs < math.MinInt32+self {
+	if rhs < 0 && self > math.MaxInt32+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt32+self {
+	if rhs > 0 && self < math.MinInt32+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I64) _HasOverflow_Sub(rhs I64) bool {
-	if self > 0 && rhs < math.MinInt64+self {
+	if rhs < 0 && self > math.MaxInt64+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt64+self {
+	if rhs > 0 && self < math.MinInt64+rhs {
 		return true
 	}
 	return false
-- 
2.43.0


From 7af4b8f8c7ff8589aaff15e48c313117ed7f29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 46/55] fix: I128.Neg must carry out of a zero low half

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 3105900..88f46bf 100644
--- a/ops.go
+++ b/ops.go
@@ -3028,7 +3028,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 42c0adb441b17d2ac76638285481389d7bb192f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 47/55] fix: I128.IsPositive must hold for values below 2^64

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 88f46bf..ce1301d 100644
--- a/ops.go
+++ b/ops.go
@@ -2831,7 +2831,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From 67117c569d75b196908774e266d015cf0e0393f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 48/55] fix: I128 division and remainder must work for the
 minimum value

---
 ops.go | 61 ++++++++--------------------------------------------------
 1 file changed, 8 insertions(+), 53 deletions(-)

diff --git a/ops.go b/ops.go
index ce1301d..8780191 100644
--- a/ops.go
+++ b/ops.go
@@ -405,36 +405,14 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
-		return I128{
-			high: 0,
-			low:  0,
-		}
-	}
-
-	// TODO: This is a hack, we should implement a proper division algorithm
-	bigLhs := big.NewInt(0)
-	bigRhs := big.NewInt(0)
-
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
-
-	bigLhs.Div(bigLhs, bigRhs)
+	// the magnitude of the minimum does not fit I128, but it fits U128
+	quotient := U128{high: U64(lhs.high), low: lhs.low}.Div(U128{high: U64(rhs.high), low: rhs.low})
 
 	result := I128{
-		high: 0,
-		low:  0,
+		high: I64(quotient.high),
+		low:  quotient.low,
 	}
 
-	buffer := make([]byte, 16)
-	bytes := bigLhs.FillBytes(buffer)
-
-	lowBytes := bytes[8:16]
-	highBytes := bytes[0:8]
-
-	result.high = I64(binary.BigEndian.Uint64(highBytes))
-	result.low = U64(binary.BigEndian.Uint64(lowBytes))
-
 	if isNegative {
 		result = result.Neg()
 	}
@@ -554,37 +532,14 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
-		if isNegative {
-			return lhs.Neg()
-		} else {
-			return lhs
-		}
-	}
-
-	// TODO: This is a hack, we should implement a proper division algorithm
-	bigLhs := big.NewInt(0)
-	bigRhs := big.NewInt(0)
-
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
-
-	bigLhs.Rem(bigLhs, bigRhs)
+	// the magnitude of the minimum does not fit I128, but it fits U128
+	remainder := U128{high: U64(lhs.high), low: lhs.low}.Rem(U128{high: U64(rhs.high), low: rhs.low})
 
 	result := I128{
-		high: 0,
-		low:  0,
+		high: I64(remainder.high),
+		low:  remainder.low,
 	}
 
-	buffer := make([]byte, 16)
-	bytes := bigLhs.FillBytes(buffer)
-
-	lowBytes := bytes[8:16]
-	highBytes := bytes[0:8]
-
-	result.high = I64(binary.BigEndian.Uint64(highBytes))
-	result.low = U64(binary.BigEndian.Uint64(lowBytes))
-
 	if result.high == 0 && result.low == 0 {
 		return result
 	}
-- 
2.43.0


From e71c9d0e525968069f5c8a8e47d55d3ad25eff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 49/55] fix: Stdin.ReadLine must append the whole line to the
 buffer

---
 io.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..9b6961a 100644
--- a/io.go
+++ b/io.go
@@ -1,7 +1,9 @@
 package gost
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -82,7 +84,22 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	next := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(next)
+		if n == 1 {
+			if next[0] == '\n' {
+				line = bytes.TrimSuffix(line, []byte{'\r'})
+				break
+			}
+			line = append(line, next[0])
+		}
+		if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From 3f05bb4bf44910192b92d6d41a9e739fd07758ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 50/55] fix: 128-bit shifts must shift everything out at
 amounts of 2^64 and more

---
 bitwise.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bitwise.go b/bitwise.go
index eb18920..cc59ff5 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,6 +29,11 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
+	// nothing is left of the value at such an amount
+	if rhs.high != 0 {
+		return I128{}
+	}
+
 	if rhs.low >= 64 {
 		return I128{
 			high: I64(lhs.low << (rhs.low - 64)),
@@ -64,6 +69,11 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
+	// nothing is left of the value at such an amount
+	if rhs.high != 0 {
+		return U128{}
+	}
+
 	if rhs.low >= 64 {
 		return U128{
 			high: U64(lhs.low << (rhs.low - 64)),
@@ -99,6 +109,11 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
+	// nothing is left of the value at such an amount
+	if rhs.high != 0 {
+		return I128{high: lhs.high >> 63, low: U64(lhs.high >> 63)}
+	}
+
 	if rhs.low >= 64 {
 		return I128{
 			high: lhs.high >> 63,
@@ -134,6 +149,11 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
+	// nothing is left of the value at such an amount
+	if rhs.high != 0 {
+		return U128{}
+	}
+
 	if rhs.low >= 64 {
 		return U128{
 			high: 0,
-- 
2.43.0


From 0a910402428e169036605c6b3ca080f849d2a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 51/55] fix: Read and ReadToString must return the whole
 contents whatever size is reported

---
 fs.go | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/fs.go b/fs.go
index 52201f5..28e03eb 100644
--- a/fs.go
+++ b/fs.go
@@ -94,23 +94,7 @@ func Rename(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a bytes vector.
 func Read(path String) Result[[]Byte] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -212,23 +196,7 @@ func Copy(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a string.
 func ReadToString(path String) Result[String] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From a582ed8468da1ffd38b0e883747b81957bf02a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 52/55] fix: Sleep must not panic when the duration exceeds
 time.Duration

---
 thread.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/thread.go b/thread.go
index 08c89d7..b1d792b 100644
--- a/thread.go
+++ b/thread.go
@@ -1,7 +1,6 @@
 package gost
 
 import (
-	"fmt"
 	"time"
 )
 
@@ -9,15 +8,15 @@ import (
 //
 //	gost.Sleep(gost.DurationFromSecs(5)) // Sleep for 5 seconds
 func Sleep(dur Duration) {
-	durationString := fmt.Sprintf("%ds%dns", dur.seconds, dur.nanoseconds)
+	// time.Duration holds no more than about 292 years.
+	const longest U64 = 1 << 32
 
-	duration, err := time.ParseDuration(durationString)
-
-	if err != nil {
-		panic(err)
+	for dur.seconds > longest {
+		time.Sleep(time.Duration(longest) * time.Second)
+		dur.seconds -= longest
 	}
 
-	time.Sleep(duration)
+	time.Sleep(time.Duration(dur.seconds)*time.Second + time.Duration(dur.nanoseconds))
 }
 
 // An owned permission to join on a thread (block on its termination).
-- 
2.43.0


From 96c953c1593d56bf838fd63d1a17abd866c2262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 53/55] fix: logarithms and powers of subnormal F64 values

---
 float.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/float.go b/float.go
index d0a0d31..1f2e6b9 100644
--- a/float.go
+++ b/float.go
@@ -197,6 +197,9 @@ func (self F32) Powf(n F32) F32 {
 //  gost.AssertEq(f.Powf(2.0), F64(9.0))
 //  gost.AssertEq(g.Powf(3.0), F64(27.0))
 func (self F64) Powf(n F64) F64 {
+	if x := float64(self); x > 0 && x < 0x1p-1022 {
+		return F64(math.Pow(x*(1<<54), float64(n)) * math.Exp2(-54*float64(n)))
+	}
 	return F64(math.Pow(float64(self), float64(n)))
 }
 
@@ -287,7 +290,15 @@ func (self F32) Ln() F32 {
 //  gost.AssertEq(f.Ln(), F64(1.0))
 //  gost.AssertEq(g.Ln(), F64(2.0))
 func (self F64) Ln() F64 {
-	return F64(math.Log(float64(self)))
+	return F64(ln(float64(self)))
+}
+
+// math.Log is wrong for subnormal numbers on some platforms: bring them into the normal range first.
+func ln(x float64) float64 {
+	if x > 0 && x < 0x1p-1022 {
+		return math.Log(x*(1<<54)) - 54*math.Ln2
+	}
+	return math.Log(x)
 }
 
 // Returns the logarithm of the number with respect to an arbitrary base.
@@ -311,7 +322,7 @@ func (self F32) Log(base F32) F32 {
 //  gost.AssertEq(f.Log(2.0), F64(1.0))
 //  gost.AssertEq(g.Log(2.0), F64(2.0))
 func (self F64) Log(base F64) F64 {
-	return F64(math.Log(float64(self)) / math.Log(float64(base)))
+	return F64(ln(float64(self)) / ln(float64(base)))
 }
 
 // Returns the base 2 logarithm of the number.
@@ -355,5 +366,12 @@ func (self F32) Log10() F32 {
 //  gost.AssertEq(f.Log10(), F64(1.0))
 //  gost.AssertEq(g.Log10(), F64(2.0))
 func (self F64) Log10() F64 {
-	return F64(math.Log10(float64(self)))
+	return F64(log10(float64(self)))
+}
+
+func log10(x float64) float64 {
+	if x > 0 && x < 0x1p-1022 {
+		return math.Log10(x*(1<<54)) - 54*(math.Ln2/math.Ln10)
+	}
+	return math.Log10(x)
 }
-- 
2.43.0


From 0ab88ef577c728e8424741f58571b63f3f8e4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 54/55] fix: F64.Exp overflowed to infinity below the largest
 F64

---
 float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float.go b/float.go
index 1f2e6b9..57111f5 100644
--- a/float.go
+++ b/float.go
@@ -246,6 +246,10 @@ func (self F32) Exp() F32 {
 //  gost.AssertEq(f.Exp(), F64(2.718281828459045))
 //  gost.AssertEq(g.Exp(), F64(7.38905609893065))
 func (self F64) Exp() F64 {
+	// math.Exp overflows early on some platforms
+	if self > 709 && self < 710 {
+		return F64(math.Exp(float64(self)-1) * math.E)
+	}
 	return F64(math.Exp(float64(self)))
 }
 
-- 
2.43.0


From f733ea5359f47be41c5d65719c578b9d8b8d2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:02 +0000
Subject: [PATCH 55/55] fix: Vec.Contains and Vec.Dedup must compare elements
 by their Eq

---
 vec.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vec.go b/vec.go
index 7b54ef8..f389309 100644
--- a/vec.go
+++ b/vec.go
@@ -194,6 +194,15 @@ func (self *Vec[T]) DedupByKey(key func(T) any) {
 	self.data = newData
 }
 
+// Compares two elements with their Eq implementation, structurally if there is none.
+func _ElementEq[T any](lhs T, rhs T) bool {
+	if eq, ok := any(lhs).(Eq[T]); ok {
+		return bool(eq.Eq(rhs))
+	}
+
+	return reflect.DeepEqual(lhs, rhs)
+}
+
 // Removes consecutive repeated elements in the vector according to the PartialEq trait implementation.
 // If the vector is sorted, this removes all duplicates.
 //
@@ -212,7 +221,7 @@ func (self *Vec[T]) Dedup() {
 	prev := 0
 
 	for i := 1; i < len(self.data); i++ {
-		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
+		if !_ElementEq(self.data[prev], self.data[i]) {
 			prev++
 			self.data[prev] = self.data[i]
 		}
@@ -320,7 +329,7 @@ func (self *Vec[T]) Reverse() {
 //	gost.Assert(!vec.Contains(4))
 func (self Vec[T]) Contains(value T) Bool {
 	for _, v := range self.data {
-		if reflect.DeepEqual(v, value) {
+		if _ElementEq(v, value) {
 			return true
 		}
 	}
-- 
2.43.0

