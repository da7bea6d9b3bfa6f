From 09ffc7d80993966a03e30dbbfc0b9e55b692f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 01/15] fix: do not index past the recycler table for nodes of
 258 slots

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 3a845895f550a3d91eca71cebc079766084deb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/15] fix: end the iteration when no node on the stack has
 children left

---
 iterator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iterator.go b/iterator.go
index 6954a4f..8add0c5 100644
--- a/iterator.go
+++ b/iterator.go
@@ -201,6 +201,11 @@ searchLoop:
 		}
 		// we have arrived at the bottom of the tree (a node with only leafs)!
 
+		// drop nodes without any children left to examine
+		for len(i.stack) > 0 && !i.stack[len(i.stack)-1].more {
+			i.stack = i.stack[:len(i.stack)-1]
+		}
+
 		// if stack is empty we have exhausted the whole search space
 		if len(i.stack) == 0 {
 			i.done = true
-- 
2.43.0


From 706d78ffe55ea58937ec56ba5813f50bd9814a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 03/15] fix: forget prefetched values when the tree has shrunk
 to a single leaf

---
 iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iterator.go b/iterator.go
index 8add0c5..8739564 100644
--- a/iterator.go
+++ b/iterator.go
@@ -85,6 +85,7 @@ func (i *Iterator) Next() bool {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
 		i.pp = 0
+		i.prefetched = i.prefetched[:0]
 		i.value = getLeafValue(raw)
 		i.done = true
 		return true
-- 
2.43.0


From d0e2d7492c36da6354c25abe274fc3e7f18d2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 04/15] fix: searching an empty tree or for an empty key finds
 nothing

---
 delete.go | 2 +-
 radix.go  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/delete.go b/delete.go
index b7537db..338c633 100644
--- a/delete.go
+++ b/delete.go
@@ -78,7 +78,7 @@ func (op *DeleteOperation) prepare(key []byte) (found bool) {
 	op.allocator.startOp()
 S:
 	root := atomic.LoadUint64(&op.idx.root)
-	if root == 0 {
+	if root == 0 || len(key) == 0 {
 		op.kind = notFound
 		return false
 	}
diff --git a/radix.go b/radix.go
index d8479c0..ef21ca0 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,9 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 || len(key) == 0 {
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From 5551a9a8fe83cdcdc5601dbe69d1ad01032234c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 05/15] fix: lock a node-256 when deleting a leaf from it

---
 delete.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 338c633..ad65ddf 100644
--- a/delete.go
+++ b/delete.go
@@ -319,7 +319,11 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		// PARAMETERS: op.leafPtr, op.raw
 		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
 		// TODO(oscar): replace with a leaf when there is only one child left
-		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+		// the node may have been relocated since it was prepared
+		if op.idx.lockNode(op.node, op.nodeGen) {
+			deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+			op.idx.unlockNode(op.node)
+		}
 		if deleted {
 			op.allocator.itemCounter--
 		}
-- 
2.43.0


From deeffa2bd0e33a4cbfbca6d7be9fdeba2583dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:18 +0000
Subject: [PATCH 06/15] fix: check the generation of every node when nodes
 share a lock

---
 locks.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/locks.go b/locks.go
index ad61f9e..48bd112 100644
--- a/locks.go
+++ b/locks.go
@@ -62,6 +62,10 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// node shares its lock with child, but its generation has changed
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
@@ -75,6 +79,13 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			}
 			return false
 		}
+	} else if sharesNode := lock3 == lock2 && block3 == block2; (sharesNode && parentGen != nodeGen) || (!sharesNode && parentGen != childGen) {
+		// parent shares its lock with node or child, but its generation has changed
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		if lock2Unique {
+			atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
+		}
+		return false
 	}
 	return true
 }
@@ -135,6 +146,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// parent shares its lock with node, but its generation has changed
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 68bacfd508d4ec3671d583b6585749b6c48e9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:18 +0000
Subject: [PATCH 07/15] fix: Len leaves a stopped tree stopped

---
 radix.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/radix.go b/radix.go
index ef21ca0..889ec98 100644
--- a/radix.go
+++ b/radix.go
@@ -135,12 +135,13 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
+	if idx.stop() {
+		defer idx.Start()
+	}
 	count = int(idx.liveObjects)
 	for _, a := range idx.allocators {
 		count += int(a.itemCounter)
 	}
-	idx.Start()
 	return
 }
 
@@ -148,12 +149,18 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
+	idx.stop()
+}
+
+// stop reports whether the tree was stopped by this call.
+func (idx *Tree) stop() bool {
 	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
-		return
+		return false
 	}
 	for i := 0; i < len(idx.allocators); i++ {
 		_ = idx.allocatorQueue.get()
 	}
+	return true
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
-- 
2.43.0


From a450e249fe73ed6803e224d99192d7474332b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 08/15] fix: write the number of objects including the
 allocators' own counters

---
 state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 8f63d92..b736d8d 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,14 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// counters not yet flushed by the allocators are part of the total
+	objects := atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		objects += a.itemCounter
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 3303ed7ab30f68386cd99d52624bda117feda5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 09/15] fix: write every block that has been handed out to an
 allocator

---
 allocator.go |  2 +-
 state.go     | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1363a11 100644
--- a/allocator.go
+++ b/allocator.go
@@ -281,7 +281,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
diff --git a/state.go b/state.go
index b736d8d..2b3ca43 100644
--- a/state.go
+++ b/state.go
@@ -25,8 +25,16 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		objects += a.itemCounter
 	}
 
+	// all blocks handed out must be written, the block allocator may not yet have counted the last one
+	next := atomic.LoadUint64(&idx.nextFreeBlock)
+	for _, a := range idx.allocators {
+		if !a.empty && uint64(a.block) >= next {
+			next = uint64(a.block) + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -94,8 +102,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
-	for i := 0; i < next; i++ {
+	for i := 0; i < int(next); i++ {
 		toCompress <- i
 	}
 	close(toCompress)
-- 
2.43.0


From 374a2b5a68fddf8e8e91c80c2709a6d142330cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 10/15] fix: return a write error instead of blocking the
 compressing workers

---
 state.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/state.go b/state.go
index 2b3ca43..bb077c2 100644
--- a/state.go
+++ b/state.go
@@ -81,25 +81,32 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	writerDone := make(chan error)
 	go func() {
 		// writer
-		var writeTime time.Duration
+		var (
+			writeTime time.Duration
+			failed    error
+		)
 		for job := range toWrite {
+			if failed != nil {
+				// the compressing workers must be able to finish
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- failed
 	}()
 
 	for i := 0; i < int(next); i++ {
-- 
2.43.0


From baf32edbda08a2574615d10223d5b88d69954012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 11/15] fix: unlock the right nodes when a delete of a node
 with two children is aborted

---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index ad65ddf..f33ba78 100644
--- a/delete.go
+++ b/delete.go
@@ -345,7 +345,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 213beb2b89f751e698af54ef5d86ec4ba0387bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 12/15] fix: recycle the replaced node when a delete merges it
 with its child

---
 delete.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delete.go b/delete.go
index f33ba78..02965d7 100644
--- a/delete.go
+++ b/delete.go
@@ -293,6 +293,12 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		op.unlock3()
 		// recycle the old child node
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
+		// and the replaced node, it had two children
+		nodeSlots := 2 + ((op.prefixLen + 7) >> 3)
+		if op.prefixLen >= 255 {
+			nodeSlots++
+		}
+		op.allocator.recycle(op.node, nodeSlots)
 		op.allocator.itemCounter--
 		deleted = true
 
-- 
2.43.0


From 937151bd5628ca6859dfd606728939f7f060fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 13/15] fix: MinKey and MaxKey go on searching when a node-256
 has lost all its children

---
 radix.go | 96 +++++++++++++++++---------------------------------------
 1 file changed, 28 insertions(+), 68 deletions(-)

diff --git a/radix.go b/radix.go
index 889ec98..9b9ddc9 100644
--- a/radix.go
+++ b/radix.go
@@ -409,45 +409,25 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+	return idx.maxLeaf(raw)
+}
+
+// maxLeaf returns the value of the last leaf below raw. A node-256 may have lost all its children, then there is none.
+func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := count - 1; k >= 0; k-- {
+		a := atomic.LoadUint64(&data[k])
+		if a == 0 {
+			continue
 		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
 		if isLeaf(a) {
 			return getLeafValue(a), true
 		}
-		raw = a
+		if v, ok = idx.maxLeaf(a); ok {
+			return v, true
+		}
 	}
+	return 0, false
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
@@ -461,45 +441,25 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+	return idx.minLeaf(raw)
+}
+
+// minLeaf returns the value of the first leaf below raw. A node-256 may have lost all its children, then there is none.
+func (idx *Tree) minLeaf(raw uint64) (v uint64, ok bool) {
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := 0; k < count; k++ {
+		a := atomic.LoadUint64(&data[k])
+		if a == 0 {
+			continue
 		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
 		if isLeaf(a) {
 			return getLeafValue(a), true
 		}
-		raw = a
+		if v, ok = idx.minLeaf(a); ok {
+			return v, true
+		}
 	}
+	return 0, false
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From b73d7fbdec10d83c99c47c3eb7cbdc36007d316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 14/15] fix: MinKey and MaxKey reserve the epoch while they
 read the tree

---
 radix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/radix.go b/radix.go
index 9b9ddc9..6008c8b 100644
--- a/radix.go
+++ b/radix.go
@@ -402,6 +402,10 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -434,6 +438,10 @@ func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 0922ad02bc09c56c6f380843e0f01b9adf406514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 15/15] fix: reject a truncated or malformed state instead of
 panicking or loading part of it

---
 allocator.go | 24 ++++++++++++++---------
 state.go     | 54 +++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/allocator.go b/allocator.go
index 1363a11..712a776 100644
--- a/allocator.go
+++ b/allocator.go
@@ -277,9 +277,13 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 		}
 		// trim \n !
 		values := line[space+1 : len(line)-1]
-		v, _ := strconv.ParseUint(string(values), 10, 64)
+		header := string(line[:space])
+		v, err := strconv.ParseUint(string(values), 10, 64)
+		if err != nil && header != "empty" && header != "recycler" {
+			return fmt.Errorf("Corrupted state file, bad line %q", line)
+		}
 
-		switch string(line[:space]) {
+		switch header {
 		case "empty":
 			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
@@ -296,20 +300,22 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			if space < 0 {
 				return fmt.Errorf("Corrupted state file, ignoring bad line %v", line)
 			}
-			size, _ := strconv.Atoi(string(values[:space]))
-			count, _ := strconv.Atoi(string(values[space+1:]))
-			if count <= cap(a.recycler[size]) {
-				a.recycler[size] = a.recycler[size][0:count]
-			} else {
-				a.recycler[size] = make([]recycledItem, count)
+			size, err := strconv.Atoi(string(values[:space]))
+			if err != nil || size < 0 || size >= len(a.recycler) {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
+			count, err := strconv.Atoi(string(values[space+1:]))
+			if err != nil || count < 0 {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
 			}
+			a.recycler[size] = a.recycler[size][:0]
 			var buf [8]byte
 			for i := 0; i < count; i++ {
 				_, err := io.ReadFull(reader, buf[:])
 				if err != nil {
 					return err
 				}
-				a.recycler[size][i] = recycledItem{binary.LittleEndian.Uint64(buf[:]), 0}
+				a.recycler[size] = append(a.recycler[size], recycledItem{binary.LittleEndian.Uint64(buf[:]), 0})
 			}
 
 		}
diff --git a/state.go b/state.go
index bb077c2..2bc3893 100644
--- a/state.go
+++ b/state.go
@@ -129,12 +129,14 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+		headers    = make(map[string]bool)
+		loaded     = make(map[uint64]bool)
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
 		if err != nil {
@@ -143,9 +145,17 @@ func (idx *Tree) loadState(data io.Reader) error {
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
-		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
+		header := string(line[:space])
+		v, err := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		if err != nil && header != "compression" {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
+		headers[header] = true
 
-		switch string(line[:space]) {
+		switch header {
 		case "objects":
 			idx.liveObjects = int64(v)
 
@@ -156,15 +166,24 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 
 		case "allocated_blocks":
+			if v >= uint64(len(idx.blocks)) {
+				return fmt.Errorf("Corrupted index state file? %d allocated blocks", v)
+			}
 			idx.nextFreeBlock = v
 
 		case "epoch":
+			if idx.manager == nil {
+				return fmt.Errorf("Corrupted index state file? epoch header before allocators")
+			}
 			atomic.StoreUint64(idx.manager.globalEpoch, v)
 
 		case "root_node":
 			idx.root = v
 
 		case "allocators":
+			if v == 0 || v > maxBlockCount {
+				return fmt.Errorf("Corrupted index state file? %d allocators", v)
+			}
 			allocators = int(v)
 			idx.manager = newEpochManager(allocators)
 			idx.allocators = make([]*Allocator, allocators)
@@ -175,17 +194,18 @@ func (idx *Tree) loadState(data io.Reader) error {
 
 		case "allocator":
 			// allocator X
-			if int(v) > len(idx.allocators)-1 {
+			if v >= uint64(len(idx.allocators)) {
 				return fmt.Errorf("Corrupted index state file? Can't load allocator id %d since there are only %d allocators", v, len(idx.allocators))
 			}
 			if err := idx.allocators[v].loadState(reader); err != nil {
 				return err
 			}
+			loaded[v] = true
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
 
 		case "block":
 			// block X
-			if int(v) > len(idx.blocks)-1 {
+			if v >= uint64(len(idx.blocks)) {
 				return fmt.Errorf("Corrupted index state file? Can't load data block id %d since there are only %d blocks", v, len(idx.blocks))
 			}
 			nextBlock = int(v)
@@ -196,6 +216,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if nextBlock < 0 {
 				return fmt.Errorf("Corrupted index state file? size header before first block")
 			}
+			if v > uint64(snappy.MaxEncodedLen(blockSize)) {
+				return fmt.Errorf("Corrupted index state file? Data block of %d bytes", v)
+			}
 			if cap(readBuf) >= int(v) {
 				readBuf = readBuf[:int(v)]
 			} else {
@@ -211,6 +234,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 
 			dst := byteSliceFromUint64(idx.blocks[nextBlock].data)
+			if n, err := snappy.DecodedLen(readBuf); err != nil || n != blockSize {
+				return fmt.Errorf("Corrupted index state file? Data block decompresses to %d bytes", n)
+			}
 			if _, err := snappy.Decode(dst, readBuf); err != nil {
 				return fmt.Errorf("Corrupted index state file? Decompressing data block failed : %w", err)
 			}
@@ -218,7 +244,25 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if idx.blockMap[int(nextBlock)] != blockAllocated {
 				idx.blockMap[int(nextBlock)] = blockWritten
 			}
+			nextBlock = -1
 		}
 	}
+	// everything must have been there
+	for _, header := range []string{"objects", "blocksize", "allocated_blocks", "allocators", "root_node", "epoch"} {
+		if !headers[header] {
+			return fmt.Errorf("Truncated index state file? Missing %s", header)
+		}
+	}
+	if len(loaded) != allocators {
+		return fmt.Errorf("Truncated index state file? Only %d of %d allocators", len(loaded), allocators)
+	}
+	for i := range idx.blocks[:idx.nextFreeBlock] {
+		if idx.blocks[i] == nil {
+			return fmt.Errorf("Truncated index state file? Missing block %d", i)
+		}
+	}
+	if !isLeaf(idx.root) && idx.root != 0 && getNodeValue(idx.root)>>blockSlotsShift >= idx.nextFreeBlock {
+		return fmt.Errorf("Corrupted index state file? Root node outside of the allocated blocks")
+	}
 	return nil
 }
-- 
2.43.0

