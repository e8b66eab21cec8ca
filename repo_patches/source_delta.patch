From f35f23dbb2db7c4af556229570152c681f4db11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:20 +0000
Subject: [PATCH 01/29] fix: Int8 and UInt8 MarshalBinary allocate the byte
 they write

Both methods wrote to index 0 of an empty slice and always panicked.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From ed3fd2077d2464be52e146f88e828d121c1ecc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:20 +0000
Subject: [PATCH 02/29] fix: encode Int and UInt with all 64 bits

MarshalBinary kept only the low 32 bits, so large values and all negative
Int values did not survive a round trip.
---
 types/int.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..077d3c1 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,16 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +326,16 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From 246c054fbc0422e275b7b5332a621e9766175b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:20 +0000
Subject: [PATCH 03/29] fix: copy the bytes when encoding and decoding a
 ByteSlice

The encoded form shared memory with the value, so changing one changed the
other. UnmarshalBinary must copy the data if it keeps it.
---
 types/string.go |  4 ++--
 types/util.go   | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..542ca5e 100644
--- a/types/string.go
+++ b/types/string.go
@@ -40,11 +40,11 @@ func (self String) Hash() int {
 }
 
 func (self *ByteSlice) MarshalBinary() ([]byte, error) {
-	return []byte(*self), nil
+	return append([]byte{}, *self...), nil
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..f0eb8d6 100644
--- a/types/util.go
+++ b/types/util.go
@@ -315,10 +315,16 @@ func StringMarshals() (ItemMarshal, ItemUnmarshal) {
 
 func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 	marshal := func(item Hashable) ([]byte, error) {
-		return []byte(item.(ByteSlice)), nil
+		i := item.(ByteSlice)
+		return i.MarshalBinary()
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		i := ByteSlice(nil)
+		err := i.UnmarshalBinary(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return i, nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 497b7b43325d2991da7f7c4ecf1b0d3dd24576c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:46 +0000
Subject: [PATCH 04/29] fix: list.Hash of an empty container matches List.Hash

Equal empty containers of different kinds had different hash codes, because
List.Hash returns 0 for an empty list and Hash returned the FNV offset.
---
 list/array_list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..5526457 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -249,7 +249,11 @@ func (l *List) Hash() int {
 func Hash(a types.ListIterable) int {
 	h := fnv.New32a()
 	bs := make([]byte, 4)
-	for item, next := a.Items()(); next != nil; item, next = next() {
+	item, next := a.Items()()
+	if next == nil {
+		return 0
+	}
+	for ; next != nil; item, next = next() {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
 		h.Write(bs)
 	}
-- 
2.43.0


From 3a850bf68290ef3733e2e4a1b573462d220cf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:30 +0000
Subject: [PATCH 05/29] fix: reject truncated or damaged data when
 unmarshalling lists

UnmarshalBinary of MList and MSorted indexed past the end of short data and
trusted the stored lengths, so damaged data caused a panic. Bytes behind the
end of the slice could be read as items. The lengths are now checked and the
receiver only changes on success.
---
 list/array_list.go | 35 +++++++++++++++++++++++++++--------
 list/sorted.go     |  3 +++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index 5526457..805fb44 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -56,24 +56,43 @@ func (m *MList) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MList) UnmarshalBinary(bytes []byte) error {
-	m.List.fixed = bytes[0] == 1
+	if len(bytes) < 9 {
+		return errors.Errorf("data too short, need a 9 byte header got %v bytes", len(bytes))
+	}
+	fixed := bytes[0] == 1
 	_cap := int(binary.LittleEndian.Uint32(bytes[1:5]))
 	size := int(binary.LittleEndian.Uint32(bytes[5:9]))
 	off := 9
-	m.list = make([]types.Hashable, 0, _cap)
+	// every item takes at least the 4 bytes of its length
+	if size > (len(bytes)-off)/4 {
+		return errors.Errorf("data too short for %v items", size)
+	}
+	if !fixed {
+		_cap = size
+	} else if size > _cap {
+		return errors.Errorf("%v items do not fit in a fixed list of size %v", size, _cap)
+	}
+	list := newList(_cap, fixed)
 	for i := 0; i < size; i++ {
-		s := off
-		e := off + 4
-		size := int(binary.LittleEndian.Uint32(bytes[s:e]))
-		s = e
-		e = s + size
+		if len(bytes)-off < 4 {
+			return errors.Errorf("data too short, no length for item %v", i)
+		}
+		s := off + 4
+		length := int(binary.LittleEndian.Uint32(bytes[off:s]))
+		if length > len(bytes)-s {
+			return errors.Errorf("data too short, item %v has length %v", i, length)
+		}
+		e := s + length
 		item, err := m.UnmarshalItem(bytes[s:e])
 		if err != nil {
 			return err
 		}
-		m.Append(item)
+		if err := list.Append(item); err != nil {
+			return err
+		}
 		off = e
 	}
+	m.List = *list
 	return nil
 }
 
diff --git a/list/sorted.go b/list/sorted.go
index 5e7c862..2dc7883 100644
--- a/list/sorted.go
+++ b/list/sorted.go
@@ -41,6 +41,9 @@ func (m *MSorted) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MSorted) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 1 {
+		return errors.Errorf("data too short, no duplicates flag")
+	}
 	allowDups := bytes[0]
 	if allowDups == 0 {
 		m.AllowDups = false
-- 
2.43.0


From b25f5eaaf76411aaa72cbf6d975d355e752cb6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:51 +0000
Subject: [PATCH 06/29] fix: AvlNode.Remove of an absent key must not rotate
 the tree

The error check was inverted. Removing an absent key rebalanced the nodes in
place while AvlTree.Remove kept the old root, which dropped entries. A
successful removal was never rebalanced.
---
 tree/avl/avltree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..b6fda40 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -258,9 +258,9 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 		self.right, value, err = self.right.Remove(key)
 	}
 	if err != nil {
-		return self.balance(), value, err
+		return self, value, err
 	}
-	return self, value, err
+	return self.balance(), value, nil
 }
 
 func (self *AvlNode) Height() int {
-- 
2.43.0


From c263f624e15312a048e4fa952b9620ce089e629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:51 +0000
Subject: [PATCH 07/29] fix: Hash table accepts keys with the smallest hash
 code

The absolute value of the smallest int is negative, so such a key gave a
negative bucket and a panic unless the table size was a power of two.
---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From a00d260251dc8c8b17f28953f267df092201f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:51 +0000
Subject: [PATCH 08/29] fix: Hash table created with size zero is usable

Every operation on it divided by the zero table length.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..b65073b 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From 0c04b4560cb9fb641e99945e6adf3e919a9e869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:12 +0000
Subject: [PATCH 09/29] fix: MapSet.Put replaces the value of a present key

The underlying set ignores items it already holds, so the new value was
dropped without an error.
---
 set/mapset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..16400c1 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,13 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	me := &types.MapEntry{key, value}
+	if m.Set.Has(me) {
+		if err := m.Set.Delete(me); err != nil {
+			return err
+		}
+	}
+	return m.Set.Add(me)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From a68101889f39fc2b54efaf8fa4fd8fe5be1382be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:37 +0000
Subject: [PATCH 10/29] fix: BpMap.Get and Remove on an empty map report not
 found

They indexed into the empty root leaf and panicked.
---
 tree/bptree/bpmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..5fca5ea 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -39,6 +39,9 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 }
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
+	if len(self.root.keys) == 0 {
+		return nil, errors.NotFound(key)
+	}
 	j, l := self.root.get_start(key)
 	if l.keys[j].Equals(key) {
 		return l.values[j], nil
-- 
2.43.0


From 176be945110fafb00dc1fd1f976562355f9e13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:37 +0000
Subject: [PATCH 11/29] fix: BpTree ranges start at the requested key

When the start key was absent a forward range past the last key yielded the
last entry, and a backward range yielded the next greater entry. A backward
range on an empty tree panicked. Find and Replace use the same iterator and
were affected too.
---
 tree/bptree/bptree_node.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..bd22de6 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -146,7 +146,7 @@ func (self *BpNode) get_end(key types.Hashable) (i int, leaf *BpNode) {
 	end := false
 	i, leaf = self.get_start(key)
 	pi, pleaf := i, leaf
-	for !end && leaf.keys[i].Equals(key) {
+	for !end && i < len(leaf.keys) && leaf.keys[i].Equals(key) {
 		pi, pleaf = i, leaf
 		i, leaf, end = next_location(i, leaf)
 	}
@@ -645,9 +645,12 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
-	end := false
+	end := len(l.keys) == 0 || l.keys[j].Less(from)
 	j--
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
+		if end {
+			return -1, nil, nil
+		}
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
 			return -1, nil, nil
@@ -659,7 +662,10 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_end(from)
-	end := false
+	end := len(l.keys) == 0
+	if !end && from.Less(l.keys[j]) {
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From 2c5aba3d547796acee802e31d452d6f47c842437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:37 +0000
Subject: [PATCH 12/29] fix: BpTree.Backward starts at the end of a trailing
 pure run

Only the first block of a run of equal keys is in the index, so when the
greatest key filled several blocks the later ones were skipped.
---
 tree/bptree/bptree_node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index bd22de6..d9e2eb9 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -628,6 +628,10 @@ func (self *BpNode) all() (li loc_iterator) {
 
 func (self *BpNode) all_backward() (li loc_iterator) {
 	l := self.right_most_leaf()
+	for l.next != nil {
+		// the blocks of a pure run are only reachable through its first block
+		l = l.next
+	}
 	j := len(l.keys)
 	end := false
 	j, l, end = prev_location(j, l)
-- 
2.43.0


From 0b4f455eab070a0c2cacba0cf7fd194abe51c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:01 +0000
Subject: [PATCH 13/29] fix: BpTree.RemoveWhere removes exactly the matching
 entries

Removing while iterating skipped entries, removed entries of other keys when
the key was absent, dropped blocks still in use and left runs of equal keys
with gaps that later insertions filled out of order. The size was always
reduced by one and removing from an empty tree panicked.
---
 tree/bptree/bpmap.go       |   2 +-
 tree/bptree/bptree.go      |   4 +-
 tree/bptree/bptree_node.go | 110 ++++++++++++++++++-------------------
 3 files changed, 57 insertions(+), 59 deletions(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index 5fca5ea..0321c39 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -55,7 +55,7 @@ func (self *BpMap) Remove(key types.Hashable) (value interface{}, err error) {
 		return nil, err
 	}
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, func(value interface{}) bool { return true })
+	new_root, _, err := self.root.remove(key, func(value interface{}) bool { return true })
 	if err != nil {
 		return nil, err
 	}
diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..7baaa19 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,7 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	new_root, removed, err := self.root.remove(key, where)
 	if err != nil {
 		return err
 	}
@@ -102,7 +102,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index d9e2eb9..f493fc6 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -461,15 +461,15 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 	return nil
 }
 
-func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,69 +479,78 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
-	child := self.pointers[i]
-	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
-	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
-	}
+	child, removed, err := self.pointers[i].remove(key, where)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if child == nil {
 		if err := self.remove_key_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 		if err := self.remove_ptr_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 	} else {
 		self.keys[i] = child.keys[0]
 		self.pointers[i] = child
 	}
 	if len(self.keys) == 0 {
-		return nil, nil
+		return nil, removed, nil
 	}
-	return self, nil
+	return self, removed, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+/* removes the matching entries from this leaf and, when it is the first block
+ * of a run of pure blocks, from the rest of the run. The entries which are left
+ * are packed into the first blocks of the run. So, only the last block of a run
+ * may be partially filled (which is what the insertion relies on). Blocks which
+ * become empty are unlinked. Returns nil if nothing is left.
+ */
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if self.Internal() {
-		return nil, errors.BpTreeError("Expected a leaf node")
-	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
-			if err := l.remove_key_at(j); err != nil {
-				return nil, err
-			}
-			if err := l.remove_value_at(j); err != nil {
-				return nil, err
+		return nil, 0, errors.BpTreeError("Expected a leaf node")
+	}
+	start, has := self.find(key)
+	if !has {
+		return self, 0, nil
+	}
+	end := self
+	for end.next != nil && end.next.keys[0].Equals(key) {
+		end = end.next
+	}
+	keys := make([]types.Hashable, 0, self.NodeSize())
+	values := make([]interface{}, 0, self.NodeSize())
+	for i, l := start, self; ; i, l = 0, l.next {
+		for ; i < len(l.keys); i++ {
+			if l.keys[i].Equals(key) && where(l.values[i]) {
+				removed++
+			} else {
+				keys = append(keys, l.keys[i])
+				values = append(values, l.values[i])
 			}
 		}
+		if l == end {
+			break
+		}
+	}
+	for i, l := start, self; ; i, l = 0, l.next {
+		n := copy(l.keys[i:cap(l.keys)], keys)
+		copy(l.values[i:cap(l.values)], values)
+		l.keys = l.keys[:i+n]
+		l.values = l.values[:i+n]
+		keys = keys[n:]
+		values = values[n:]
 		if len(l.keys) == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
+		}
+		if l == end {
+			break
 		}
 	}
-	return a, nil
+	if len(self.keys) == 0 {
+		return nil, removed, nil
+	}
+	return self, removed, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
@@ -555,17 +564,6 @@ func (self *BpNode) remove_key_at(i int) error {
 	return nil
 }
 
-func (self *BpNode) remove_value_at(i int) error {
-	if i >= len(self.values) || i < 0 {
-		return errors.BpTreeError("i, %v, is out of bounds, %v.", i, len(self.values))
-	}
-	for j := i; j < len(self.values)-1; j++ {
-		self.values[j] = self.values[j+1]
-	}
-	self.values = self.values[:len(self.values)-1]
-	return nil
-}
-
 func (self *BpNode) remove_ptr_at(i int) error {
 	if i >= len(self.pointers) || i < 0 {
 		return errors.BpTreeError("i, %v, is out of bounds, %v.", i, len(self.pointers))
-- 
2.43.0


From 22edd39cb1516e75f8370780d98ba598e60877f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:06 +0000
Subject: [PATCH 14/29] fix: TST keys can be put again after they were removed

Putting a key back panicked when longer keys with the same start were still
present. Removing the last key of a subtree left a dead node at its head and
putting any key there failed.
---
 trie/tst.go      | 2 +-
 trie/tst_node.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..905ae8e 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -136,7 +136,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..ffe42fd 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -168,7 +168,10 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			}
 			n.l = l
 		} else if ch == n.ch {
-			if d+1 == len(key) && ch == END {
+			if d+1 == len(key) && ch == END && n.m == nil {
+				// the key was removed before
+				n.m = NewAcceptingTSTNode(ch, key, val)
+			} else if d+1 == len(key) && ch == END {
 				n.m = n.m.Copy()
 				n.m.value = val
 			} else {
-- 
2.43.0


From cfdd1e446917d3969e172d0bdee9a5fbcbc1ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:06 +0000
Subject: [PATCH 15/29] fix: TST.PrefixFind with a prefix longer than a key
 finds nothing

It sliced the stored key past its end, which panicked or compared the
terminating zero byte with the prefix.
---
 trie/tst.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 905ae8e..2f2d8b0 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -1,6 +1,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 )
@@ -170,7 +171,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && bytes.HasPrefix(next.n.key[:len(next.n.key)-1], prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From e50f9948e88ea563f33ac75ea2ec052a6f70a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:06 +0000
Subject: [PATCH 16/29] fix: TST does not share memory with its callers

Keys were terminated with append, which wrote into the spare capacity of the
slice passed in and kept it as the stored key. Iterators handed out the
stored keys themselves.
---
 trie/tst.go      | 18 +++++++++++++-----
 trie/tst_node.go |  7 +++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index 2f2d8b0..e6860f1 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -20,6 +20,14 @@ func New() *TST {
 	return &TST{}
 }
 
+// a copy of the key which ends in END.
+func terminated(key []byte) ByteSlice {
+	symbol := make(ByteSlice, len(key)+1)
+	copy(symbol, key)
+	symbol[len(key)] = END
+	return symbol
+}
+
 func (self *TST) ValidateKey(key []byte) error {
 	if key == nil {
 		return errors.InvalidKey(key, "key is nil")
@@ -39,7 +47,7 @@ func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := terminated(key)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -63,7 +71,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := terminated(key)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -91,7 +99,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := terminated(key)
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
@@ -194,7 +202,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.userKey(), n.value, kv_iterator
 			}
 		}
 	}
@@ -222,7 +230,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.userKey(), n.value, kv_iterator
 			}
 		}
 	}
diff --git a/trie/tst_node.go b/trie/tst_node.go
index ffe42fd..c5867f9 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -36,6 +36,13 @@ func (self *KV) KeyEq(key ByteSlice) bool {
 	return true
 }
 
+// a copy of the key as the user supplied it.
+func (self *KV) userKey() ByteSlice {
+	key := make(ByteSlice, len(self.key)-1)
+	copy(key, self.key)
+	return key
+}
+
 type TSTNode struct {
 	KV
 	ch        byte     "byte to check at this node"
-- 
2.43.0


From 6cce09c7720784ec39f40d9ffa0da12b67e96afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:58 +0000
Subject: [PATCH 17/29] fix: UniquePQ.Pop returns nil when the queue is empty

Heap.Pop returns nil for an empty heap. The type assertion on that nil
made UniquePQ.Pop panic.
---
 heap/unique.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..dd776b9 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,7 +48,10 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
-	item := u.pq.Pop().(types.Hashable)
+	item, ok := u.pq.Pop().(types.Hashable)
+	if !ok {
+		return nil
+	}
 	u.set.Delete(item)
 	return item
 }
-- 
2.43.0


From a1f71d2c3bf107f7a080fd82d3291ec24b9f913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:58 +0000
Subject: [PATCH 18/29] fix: traversing an empty tree in pre- or post-order
 yields nothing

The nil root was pushed on the stack and dereferenced by the first call
of the iterator. The in-order traversal already handles an empty tree.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 95af293ef3fa8f3a0e6ef2e3fa1f7751fe8a02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:38 +0000
Subject: [PATCH 19/29] fix: IsNil accepts objects which can not be nil

reflect's IsNil panics for kinds such as structs, so a tree with nodes
that are plain values could not be traversed.
---
 types/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index f0eb8d6..c4be276 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,15 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	value := reflect.ValueOf(object)
+	switch value.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
+		return value.IsNil()
+	}
+	return false
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0


From 48a5d9443227d846f8ef0865026e04ba1e9d4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:37 +0000
Subject: [PATCH 20/29] fix: an exception thrown by a Finally does not skip the
 others

The exception left the block at once: later Finally functions did not
run, and Error and Exception panicked instead of returning it. It now
replaces the exception of the block, if any.
---
 exc/block.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index 6543f4f..dfc078a 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -144,7 +144,9 @@ func (b *Block) run() Throwable {
 		}
 	}
 	for _, finally := range b.finallies {
-		finally()
+		if e := Try(finally).exec(); e != nil {
+			err = e
+		}
 	}
 	return err
 }
-- 
2.43.0


From 20d3587d2934a6b2b25f1cb25b42b1b3c5668c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:37 +0000
Subject: [PATCH 21/29] fix: a Close block that runs again forgets the earlier
 resource

If creating the resource failed the second time, the resource of the
first run was closed again.
---
 exc/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index dfc078a..33ea462 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -46,8 +46,8 @@ func Try(try func()) *Block {
 // returned. There are also ways to deal with that situation using an outer
 // Try/Finally.
 func Close(makeCloser func() io.Closer, try func(io.Closer)) *Block {
-	var c io.Closer = nil
 	return Try(func() {
+		var c io.Closer = nil
 		Try(func() {
 			c = makeCloser()
 			try(c)
-- 
2.43.0


From 0ae07b88c5be1224adaa1779d6447939c57bf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:37 +0000
Subject: [PATCH 22/29] fix: Rethrow keeps the type of the exception

Chain is promoted from the embedded Exception and returns a pointer to
it. A rethrown custom exception could thus no longer be caught by its
own type.
---
 exc/exception.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exc/exception.go b/exc/exception.go
index f06db2f..4f4425f 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -169,7 +169,12 @@ func Throw(e Throwable) {
 //    }).Unwind()
 //
 func Rethrow(e Throwable, err *Error) {
-	throw(e.Chain(err))
+	chained := e.Chain(err)
+	if chained == Throwable(e.Exc()) {
+		// the Exception embedded in e, do not lose the type of e
+		chained = e
+	}
+	throw(chained)
 }
 
 func throw(e Throwable) {
-- 
2.43.0


From a26a3f2ef4c3ed1262588e546f767969584e971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:25 +0000
Subject: [PATCH 23/29] fix: Chain does not overwrite the errors of a copy

A custom exception is made by copying an Exception. Both then appended
to the same memory, and the error chained to one replaced the error
chained to the other.
---
 errors/errors.go | 5 ++++-
 exc/exception.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 68a21d2..af01d34 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -44,7 +44,10 @@ func Logf(level, format string, args ...interface{}) {
 }
 
 func (e *Error) Chain(err error) error {
-	e.Errs = append(e.Errs, err)
+	// append may write to memory shared with a copy of this Error
+	errs := make([]error, 0, len(e.Errs)+1)
+	errs = append(errs, e.Errs...)
+	e.Errs = append(errs, err)
 	return e
 }
 
diff --git a/exc/exception.go b/exc/exception.go
index 4f4425f..1ac5e87 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -106,7 +106,10 @@ func (e *Exception) String() string {
 
 // Add another *Error to the list of *Error
 func (e *Exception) Chain(err *Error) Throwable {
-	e.Errors = append(e.Errors, err)
+	// append may write to memory shared with a copy of this Exception
+	errs := make([]*Error, 0, len(e.Errors)+1)
+	errs = append(errs, e.Errors...)
+	e.Errors = append(errs, err)
 	return e
 }
 
-- 
2.43.0


From ab61af7428701c2075525491b115938612af556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:26 +0000
Subject: [PATCH 24/29] fix: Pool.Stop waits for workers that have not started
 yet

A worker announced itself to the WaitGroup from its own goroutine. Stop
could get there first, and return before any accepted job was run.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From 91a6c8a47023014e9364471a98c082033568ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:50 +0000
Subject: [PATCH 25/29] fix: every call of Pool.Stop waits for the jobs

When two goroutines stopped the pool, the second one returned while
accepted jobs were still running.
---
 pool/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pool/pool.go b/pool/pool.go
index 0efbbf1..3f4ba0d 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -66,6 +66,7 @@ func (p *Pool) Stop() {
 	p.mu.Lock()
 	if len(p.workers) == 0 {
 		p.mu.Unlock()
+		p.wg.Wait()
 		return
 	}
 	workers := p.workers
-- 
2.43.0


From a8c6766868cd0b949e6575fa23725ebac2f4e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:41 +0000
Subject: [PATCH 26/29] fix: AvlTree keeps the heights of its nodes and stays
 balanced

Put counted every insertion below a node as growth and Remove did not
update the heights at all, so the depth of a tree built in key order
grew with the square root of its size.
---
 tree/avl/avltree.go | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index b6fda40..e5386e8 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -137,8 +137,7 @@ func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
 		self.right = self.right.pop_node(node)
 	}
 
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
@@ -156,8 +155,7 @@ func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
 	} else {
 		self.right = self.right.push_node(node)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *AvlNode) rotate_right() *AvlNode {
@@ -168,12 +166,12 @@ func (self *AvlNode) rotate_right() *AvlNode {
 		return self
 	}
 	new_root := self.left.rmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
+	left, right := self.left.pop_node(new_root), self.right
 	self.left = nil
 	self.right = nil
-	return new_root.push_node(self)
+	new_root.left = left
+	new_root.right = right.push_node(self)
+	return new_root
 }
 
 func (self *AvlNode) rotate_left() *AvlNode {
@@ -184,12 +182,12 @@ func (self *AvlNode) rotate_left() *AvlNode {
 		return self
 	}
 	new_root := self.right.lmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
+	left, right := self.left, self.right.pop_node(new_root)
 	self.left = nil
 	self.right = nil
-	return new_root.push_node(self)
+	new_root.left = left.push_node(self)
+	new_root.right = right
+	return new_root
 }
 
 func (self *AvlNode) balance() *AvlNode {
@@ -203,6 +201,7 @@ func (self *AvlNode) balance() *AvlNode {
 			self = self.rotate_left()
 		}
 	}
+	self.height = max(self.left.Height(), self.right.Height()) + 1
 	return self
 }
 
@@ -222,7 +221,6 @@ func (self *AvlNode) Put(key types.Hashable, value interface{}) (_ *AvlNode, upd
 		self.right, updated = self.right.Put(key, value)
 	}
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -235,15 +233,18 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
-			if self.left.Size() < self.right.Size() {
-				lmd := self.right.lmd()
-				lmd.left = self.left
-				return self.right, self.value, nil
+			left, right := self.left, self.right
+			var new_root *AvlNode
+			if left.Size() < right.Size() {
+				new_root = right.lmd()
+				right = right.pop_node(new_root)
 			} else {
-				rmd := self.left.rmd()
-				rmd.right = self.right
-				return self.left, self.value, nil
+				new_root = left.rmd()
+				left = left.pop_node(new_root)
 			}
+			new_root.left = left
+			new_root.right = right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
-- 
2.43.0


From 4abe7d96b51ed642d461dce1b36a176d8f29e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:41 +0000
Subject: [PATCH 27/29] fix: ImmutableAvlTree keeps the heights of its nodes
 and stays balanced

---
 tree/avl/imm_avltree.go | 51 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..28202da 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -139,8 +139,7 @@ func (self *ImmutableAvlNode) pop_node(node *ImmutableAvlNode) (new_self, new_no
 		self.right, node = self.right.pop_node(node)
 	}
 
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self, node
+	return self.balance(), node
 }
 
 func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNode {
@@ -160,8 +159,7 @@ func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNod
 	} else {
 		self.right = self.right.push_node(node)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
@@ -171,7 +169,14 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	if self.left == nil {
 		return self
 	}
-	return self.rotate(self.left.rmd)
+	self = self.Copy()
+	left, new_root := self.left.pop_node(self.left.rmd())
+	right := self.right
+	self.left = nil
+	self.right = nil
+	new_root.left = left
+	new_root.right = right.push_node(self)
+	return new_root
 }
 
 func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
@@ -181,16 +186,14 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 	if self.right == nil {
 		return self
 	}
-	return self.rotate(self.right.lmd)
-}
-
-func (self *ImmutableAvlNode) rotate(get_new_root func() *ImmutableAvlNode) *ImmutableAvlNode {
-	self, new_root := self.pop_node(get_new_root())
-	new_root.left = self.left
-	new_root.right = self.right
+	self = self.Copy()
+	right, new_root := self.right.pop_node(self.right.lmd())
+	left := self.left
 	self.left = nil
 	self.right = nil
-	return new_root.push_node(self)
+	new_root.left = left.push_node(self)
+	new_root.right = right
+	return new_root
 }
 
 func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
@@ -204,6 +207,7 @@ func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
 			self = self.rotate_left()
 		}
 	}
+	self.height = max(self.left.Height(), self.right.Height()) + 1
 	return self
 }
 
@@ -224,10 +228,8 @@ func (self *ImmutableAvlNode) Put(key types.Hashable, value interface{}) (_ *Imm
 	} else {
 		self.right, updated = self.right.Put(key, value)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
 
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -240,15 +242,16 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
+			left, right := self.left, self.right
 			var new_root *ImmutableAvlNode
-			if self.left.Size() < self.right.Size() {
-				self, new_root = self.pop_node(self.right.lmd())
+			if left.Size() < right.Size() {
+				right, new_root = right.pop_node(right.lmd())
 			} else {
-				self, new_root = self.pop_node(self.left.rmd())
+				left, new_root = left.pop_node(left.rmd())
 			}
-			new_root.left = self.left
-			new_root.right = self.right
-			return new_root, self.value, nil
+			new_root.left = left
+			new_root.right = right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -265,11 +268,7 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	if err != nil {
-		return self.balance(), value, err
-	}
-	return self, value, err
+	return self.balance(), value, err
 }
 
 func (self *ImmutableAvlNode) Height() int {
-- 
2.43.0


From de99fdb06fe5955535085619767757aeacab8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:31 +0000
Subject: [PATCH 28/29] fix: AvlTree rotations do not walk whole subtrees

A rotation took the nearest node out of the higher subtree and inserted the
old root into the other one, rebalancing on the way. Adding or removing a key
compared a number of keys that grew with the size of the tree, not with its
depth. Rotate the links instead.
---
 tree/avl/avltree.go | 46 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index e5386e8..8e30b36 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -140,24 +140,6 @@ func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
 	return self.balance()
 }
 
-func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node now be a leaf")
-	}
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	return self.balance()
-}
-
 func (self *AvlNode) rotate_right() *AvlNode {
 	if self == nil {
 		return self
@@ -165,12 +147,11 @@ func (self *AvlNode) rotate_right() *AvlNode {
 	if self.left == nil {
 		return self
 	}
-	new_root := self.left.rmd()
-	left, right := self.left.pop_node(new_root), self.right
-	self.left = nil
-	self.right = nil
-	new_root.left = left
-	new_root.right = right.push_node(self)
+	new_root := self.left
+	self.left = new_root.right
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.right = self
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
 	return new_root
 }
 
@@ -181,12 +162,11 @@ func (self *AvlNode) rotate_left() *AvlNode {
 	if self.right == nil {
 		return self
 	}
-	new_root := self.right.lmd()
-	left, right := self.left, self.right.pop_node(new_root)
-	self.left = nil
-	self.right = nil
-	new_root.left = left.push_node(self)
-	new_root.right = right
+	new_root := self.right
+	self.right = new_root.left
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.left = self
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
 	return new_root
 }
 
@@ -196,8 +176,14 @@ func (self *AvlNode) balance() *AvlNode {
 	}
 	for abs(self.left.Height()-self.right.Height()) > 2 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
-- 
2.43.0


From c029428ad85fcdbf1cd7cb21bb3df38b5593ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:39 +0000
Subject: [PATCH 29/29] fix: ImmutableAvlTree rotations do not walk whole
 subtrees

The same change as for AvlTree. A rotation also copied every node it passed;
now it copies the nodes it changes.
---
 tree/avl/imm_avltree.go | 48 ++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 28202da..c30a0c9 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -142,26 +142,6 @@ func (self *ImmutableAvlNode) pop_node(node *ImmutableAvlNode) (new_self, new_no
 	return self.balance(), node
 }
 
-func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node must now be a leaf")
-	}
-
-	self = self.Copy()
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	return self.balance()
-}
-
 func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	if self == nil {
 		return self
@@ -170,12 +150,11 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 		return self
 	}
 	self = self.Copy()
-	left, new_root := self.left.pop_node(self.left.rmd())
-	right := self.right
-	self.left = nil
-	self.right = nil
-	new_root.left = left
-	new_root.right = right.push_node(self)
+	new_root := self.left.Copy()
+	self.left = new_root.right
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.right = self
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
 	return new_root
 }
 
@@ -187,12 +166,11 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 		return self
 	}
 	self = self.Copy()
-	right, new_root := self.right.pop_node(self.right.lmd())
-	left := self.left
-	self.left = nil
-	self.right = nil
-	new_root.left = left.push_node(self)
-	new_root.right = right
+	new_root := self.right.Copy()
+	self.right = new_root.left
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.left = self
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
 	return new_root
 }
 
@@ -202,8 +180,14 @@ func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
 	}
 	for abs(self.left.Height()-self.right.Height()) > 2 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
-- 
2.43.0

