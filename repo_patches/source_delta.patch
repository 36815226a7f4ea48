From 2fc19c8061df8017f66cc5bda8b4ace8d41d2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:48 +0000
Subject: [PATCH 01/18] fix: deleting a missing key must not drop other keys

When the search for the key ended at a node without a matching child, the
whole node was treated as deleted. A key ending inside a long compressed
path indexed past its end.
---
 txn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index ad6c6be..9a8a859 100644
--- a/txn.go
+++ b/txn.go
@@ -323,10 +323,14 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		depth += int(node.getPartialLen())
 	}
 
+	if depth >= len(key) {
+		return node, nil, false
+	}
+
 	// Find child node
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From 9b032d4511dc5c58ef72b429eabb45671bfbb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:50 +0000
Subject: [PATCH 02/18] fix: clear the vacated child slot when a child is
 removed

Small nodes kept a stale pointer in the slot after the last child. Walks
visited that child twice, and lookups could find it after its deletion.
---
 helpers.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..9914721 100644
--- a/helpers.go
+++ b/helpers.go
@@ -385,10 +385,8 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	// Clear the vacated slots, a stale pointer would keep the child reachable
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 
@@ -436,10 +434,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	// Clear the vacated slots, a stale pointer would keep the child reachable
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
-- 
2.43.0


From ca69ca5441db3e0e7dc93c7f58ef9a0c5bd5761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:52 +0000
Subject: [PATCH 03/18] fix: report updates of keys that are a prefix of other
 keys

Updating such a key returned no previous value, reported an insert and
increased the length.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 9a8a859..4fabc98 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From f4db4add332de55bd59b56aafcb4fed0d6a16bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:53 +0000
Subject: [PATCH 04/18] fix: count the children of a full 256-way node without
 overflow

An 8-bit counter wrapped to zero with 256 children. The node was then taken
for a leaf or for empty, and all its keys were lost on the next delete.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index 4fabc98..b28ed53 100644
--- a/txn.go
+++ b/txn.go
@@ -517,7 +517,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From c7a67643da8a5c01eeaece41441b75e2377532ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:55 +0000
Subject: [PATCH 05/18] fix: stop writing in place to nodes shared by Commit
 and Txn.Clone

A transaction kept treating its nodes as private after handing them to a
committed tree or to a clone. Later writes in the transaction then changed
the committed tree or showed up in the clone.
---
 txn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txn.go b/txn.go
index b28ed53..1b97706 100644
--- a/txn.go
+++ b/txn.go
@@ -66,6 +66,8 @@ func (t *Txn[T]) Clone() *Txn[T] {
 		tree:         newTree,
 		oldMaxNodeId: t.tree.maxNodeId,
 	}
+	// The nodes written so far are now shared with the clone
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return txn
 }
 
@@ -400,6 +402,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes written so far are now shared with the committed tree
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 1c6f37958bc2499e3ee627a80b67de5f540af00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:19 +0000
Subject: [PATCH 06/18] fix: return every key in order from reverse iteration
 and reverse lower bound seeks

Reverse iteration with a prefix returned keys twice or skipped them, and
SeekReverseLowerBound compared only the stored part of long compressed
paths, so it could panic or miss keys.
---
 helpers.go          |  21 ++++
 reverse_iterator.go | 259 +++++++-------------------------------------
 2 files changed, 63 insertions(+), 217 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9914721..c4eea9b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -342,6 +342,27 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// orderedChildren returns the edge bytes and the children of a node in
+// ascending order of the edge bytes.
+func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
+	nCh := int(n.getNumChildren())
+	edges := make([]byte, 0, nCh)
+	children := make([]Node[T], 0, nCh)
+	switch n.getArtNodeType() {
+	case node4, node16:
+		edges = append(edges, n.getKeys()[:nCh]...)
+		children = append(children, n.getChildren()[:nCh]...)
+	case node48, node256:
+		for i := 0; i < 256; i++ {
+			if ch, _ := findChild[T](n, byte(i)); ch != nil {
+				edges = append(edges, byte(i))
+				children = append(children, ch)
+			}
+		}
+	}
+	return edges, children
+}
+
 func getTreeKey(key []byte) []byte {
 	return append(key, '$')
 }
diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..4a40270 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -38,160 +28,73 @@ func (ri *ReverseIterator[T]) SeekPrefix(prefix []byte) {
 func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// ri.i.node starts off in the common case as pointing to the root node of the
 	// tree. By the time we return we have either found a lower bound and setup
-	// the stack to traverse all larger keys, or we have not and the stack and
-	// node should both be nil to prevent the iterator from assuming it is just
-	// iterating the whole tree from the root node. Either way this needs to end
-	// up as nil so just set it here.
-	ri.i.seenMismatch = false
-	ri.i.stack = make([]Node[T], 0)
+	// the stack to traverse all smaller keys, or we have not and the stack is
+	// empty to prevent the iterator from assuming it is just iterating the whole
+	// tree from the root node.
+	ri.i.stack = []Node[T]{}
 	n := ri.i.node
 	ri.i.node = nil
+	ri.i.path = nil
 	prefix := getTreeKey(key)
-	ri.i.path = prefix
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
-		}
-		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
-
-		if prefixCmp < 0 {
-			// Prefix is smaller than search prefix, that means there is no exact
-			// match for the search key. But we are looking in reverse, so the reverse
-			// lower bound will be the largest leaf under this subtree, since it is
-			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
-			ri.i.stack = append(ri.i.stack, n)
-			return
-		}
-
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
+	for n != nil {
+		l := minimum[T](n)
+		if l == nil {
+			// Empty tree
 			return
 		}
 
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
 		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
+			if bytes.Compare(getKey(l.key), key) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
 			}
+			return
 		}
 
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
+		// Compare the whole compressed path with the search key's same-length
+		// part.
+		end := depth + int(n.getPartialLen())
+		prefixCmp := bytes.Compare(l.key[depth:end], prefix[depth:min(len(prefix), end)])
 
-		if depth >= len(prefix) {
+		if prefixCmp < 0 {
+			// All the keys in this subtree are smaller than the search key
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
-		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
+		if prefixCmp > 0 {
+			// All the keys in this subtree are larger than the search key
+			return
 		}
 
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
-		}
+		depth = end
 
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
+		// The value stored in an internal leaf comes after all the children in
+		// reverse order
+		if nL := n.getNodeLeaf(); nL != nil && bytes.Compare(getKey(nL.key), key) <= 0 {
+			ri.i.stack = append(ri.i.stack, nL)
 		}
 
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
-			}
+		if depth >= len(prefix) {
+			return
 		}
 
-		if idx == -1 {
-			break
+		edges, children := orderedChildren[T](n)
+		for itr := 0; itr < len(edges) && edges[itr] < prefix[depth]; itr++ {
+			ri.i.stack = append(ri.i.stack, children[itr])
 		}
 
 		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
+		n, _ = findChild[T](n, prefix[depth])
 		depth++
 	}
-
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -201,98 +104,20 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 		node := ri.i.stack[len(ri.i.stack)-1]
 		ri.i.stack = ri.i.stack[:len(ri.i.stack)-1]
 
-		if node == nil {
-			return nil, zero, false
-		}
-
-		switch node.(type) {
-		case *NodeLeaf[T]:
-			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+		if leafCh, ok := node.(*NodeLeaf[T]); ok {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case *Node4[T]:
-			n4 := node.(*Node4[T])
-			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n4.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n4.children[itr])
-			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
-		case *Node16[T]:
-			n16 := node.(*Node16[T])
-			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n16.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n16.children[itr])
-			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
-		case *Node48[T]:
-			n48 := node.(*Node48[T])
-			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
-		case *Node256[T]:
-			n256 := node.(*Node256[T])
-			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
+
+		// Unlike forward iteration we need to recurse into children before we can
+		// output the value stored in an internal leaf since all children are greater.
+		if nL := node.getNodeLeaf(); nL != nil {
+			ri.i.stack = append(ri.i.stack, nL)
+		}
+		_, children := orderedChildren[T](node)
+		ri.i.stack = append(ri.i.stack, children...)
 	}
 	return nil, zero, false
 }
-- 
2.43.0


From 41e7196984274a0d5f4a559648f5fd1863c0aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:28 +0000
Subject: [PATCH 07/18] fix: seek to the lower bound in trees with long or wide
 nodes

SeekLowerBound panicked on compressed paths longer than the stored part
and on 48-way nodes, and could skip keys or return keys below the bound.
---
 lower_bound_iterator.go | 247 ++++------------------------------------
 1 file changed, 20 insertions(+), 227 deletions(-)

diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..39b94f7 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -97,262 +97,55 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
 
 	i.stack = []Node[T]{}
 
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
 	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
 	i.path = prefix
 
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
 
-	var parent Node[T]
-
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+	for node != nil {
+		l := minimum[T](node)
+		if l == nil {
+			// Empty tree
 			return
 		}
 
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
+		// The smallest key of this subtree is already large enough, the iterator
+		// starts with the whole subtree
+		if bytes.Compare(getKey(l.key), prefixKey) >= 0 {
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+		if node.isLeaf() {
 			return
 		}
 
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+		// Compare the whole compressed path with the search key's same-length
+		// part. It can't be larger as the smallest key is smaller than the search
+		// key.
+		end := depth + int(node.getPartialLen())
+		if bytes.Compare(l.key[depth:end], prefix[depth:min(len(prefix), end)]) < 0 {
+			// All the keys in this subtree are smaller than the search key
 			return
 		}
 
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
-
+		depth = end
 		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				i.stack = append(i.stack, node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
 			return
 		}
 
-		if i.seenMismatch && idx != -1 {
-			idx = 0
+		edges, children := orderedChildren[T](node)
+		for itr := len(edges) - 1; itr >= 0 && edges[itr] > prefix[depth]; itr-- {
+			i.stack = append(i.stack, children[itr])
 		}
 
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
-			return
-		}
-
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
-			}
-		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
-		}
-
-		parent = node
 		// Move to the next level in the tree
-		node = node.getChild(idx)
-
+		node, _ = findChild[T](node, prefix[depth])
 		depth++
-
 	}
-
 }
-- 
2.43.0


From 4733ffbb854b01d58e642af6d6f8530b42613708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:08 +0000
Subject: [PATCH 08/18] fix: copy key slices instead of appending to and
 retaining them

Every lookup and write appended a terminator byte to the caller's slice.
That overwrote the caller's memory when the slice had spare capacity, and
left inserted keys aliased to the caller's buffer. Concurrent lookups with
the same slice raced. Prefix iteration kept the caller's prefix slice.
---
 helpers.go  | 9 +++++++--
 iterator.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/helpers.go b/helpers.go
index c4eea9b..19ec200 100644
--- a/helpers.go
+++ b/helpers.go
@@ -363,8 +363,13 @@ func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
 	return edges, children
 }
 
+// getTreeKey returns a private copy of the key with the terminator added. The
+// caller keeps ownership of its slice.
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key)+1)
+	copy(treeKey, key)
+	treeKey[len(key)] = '$'
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
@@ -372,7 +377,7 @@ func getKey(key []byte) []byte {
 	if keyLen == 0 {
 		return key
 	}
-	return key[:keyLen-1]
+	return key[: keyLen-1 : keyLen-1]
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/iterator.go b/iterator.go
index d88db14..a7dc93d 100644
--- a/iterator.go
+++ b/iterator.go
@@ -106,7 +106,7 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	i.path = append([]byte(nil), prefix...)
 
 	i.stack = nil
 	depth := 0
-- 
2.43.0


From 3a16bb75dc51b737f3497007d03dd04e1d69cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:36 +0000
Subject: [PATCH 09/18] fix: delete exactly the keys that have the prefix

DeletePrefix rewrote the children of a node without their edge bytes, so
siblings of the deleted keys were lost or became unreachable. It kept
values stored at the prefix itself while reporting them as deleted.
---
 txn.go | 109 +++++++++++++++++++++++++++------------------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/txn.go b/txn.go
index 1b97706..e0efc5c 100644
--- a/txn.go
+++ b/txn.go
@@ -427,8 +427,10 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
-	key := getTreeKey(prefix)
-	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
+	newRoot, numDeletions := t.deletePrefix(t.tree.root, prefix, 0)
+	if numDeletions == 0 {
+		return false
+	}
 	if newRoot == nil {
 		t.tree.root = &Node4[T]{
 			leaf: &NodeLeaf[T]{
@@ -440,18 +442,15 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	} else {
 		t.tree.root = newRoot
 	}
-	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
-		t.tree.size = t.tree.size - uint64(numDeletions)
-		t.size = t.tree.size
-		return true
+	if t.trackMutate {
+		t.trackChannel(t.tree.root)
 	}
-	return false
+	t.tree.size = t.tree.size - uint64(numDeletions)
+	t.size = t.tree.size
+	return true
 }
 
-func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int) {
+func (t *Txn[T]) deletePrefix(node Node[T], prefix []byte, depth int) (Node[T], int) {
 	// Get terminated
 	if node == nil {
 		return nil, 0
@@ -459,7 +458,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	// Handle hitting a leaf node
 	if isLeaf[T](node) {
 		nL := node.getNodeLeaf()
-		if nL != nil && bytes.HasPrefix(getKey(nL.getKey()), getKey(key)) {
+		if nL != nil && bytes.HasPrefix(getKey(nL.getKey()), prefix) {
 			t.trackChannel(node)
 			t.trackChannel(nL)
 			return nil, 1
@@ -467,63 +466,59 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
+	mismatchIdx := min(prefixMismatch[T](node, prefix, len(prefix), depth), int(node.getPartialLen()))
+	if depth+mismatchIdx >= len(prefix) {
+		// The prefix is exhausted, all the keys under this node have it
+		return nil, t.trackSubtree(node)
+	}
+
 	// Bail if the prefix does not match
-	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
-		}
+	if mismatchIdx < int(node.getPartialLen()) {
+		return node, 0
 	}
+	depth += int(node.getPartialLen())
 
-	numDel := 0
+	// Find child node
+	child, idx := t.findChild(node, prefix[depth])
+	if child == nil {
+		return node, 0
+	}
 
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
-		}
+	// Recurse
+	newChild, numDel := t.deletePrefix(child, prefix, depth+1)
+	if numDel == 0 {
+		return node, 0
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, prefix[depth])
 	}
 
-	slow := 0
-	numCh := 0
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
+	}
 
-	node = t.writeNode(node, true)
+	return node, numDel
+}
 
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+// trackSubtree tracks the channels of a subtree that is about to be removed and
+// returns the number of keys in it.
+func (t *Txn[T]) trackSubtree(node Node[T]) int {
+	numKeys := 0
+	t.trackChannel(node)
+	if nL := node.getNodeLeaf(); nL != nil {
+		t.trackChannel(nL)
+		numKeys++
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	for _, ch := range node.getChildren() {
+		if ch != nil {
+			numKeys += t.trackSubtree(ch)
+		}
 	}
-	node.setNumChildren(uint16(numCh))
-
-	return node, numDel
+	return numKeys
 }
 
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
-- 
2.43.0


From aed4ffd2c7c1b2edda2380dc2bef6666f3f6310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:48 +0000
Subject: [PATCH 10/18] fix: store keys without an in-band terminator byte

Keys were stored with a '$' byte appended. Keys holding bytes up to '$'
were returned out of order, and keys that differ only around that byte
were lost, duplicated or made Insert panic. The empty tree held a
placeholder value that Minimum, Maximum, LongestPrefix and iteration
returned. Keys now end where their path ends and the value is stored in
the node at that position.
---
 helpers.go   | 19 +++++++++---------
 node_leaf.go | 10 ----------
 tree.go      | 21 +++-----------------
 txn.go       | 56 +++++++++++++++++++++-------------------------------
 4 files changed, 36 insertions(+), 70 deletions(-)

diff --git a/helpers.go b/helpers.go
index 19ec200..e294a4e 100644
--- a/helpers.go
+++ b/helpers.go
@@ -265,6 +265,11 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		return node.getNodeLeaf()
 	}
 
+	if node.getNumChildren() == 0 {
+		// Empty tree
+		return nil
+	}
+
 	var idx int
 	switch node.getArtNodeType() {
 	case node4:
@@ -363,21 +368,17 @@ func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
 	return edges, children
 }
 
-// getTreeKey returns a private copy of the key with the terminator added. The
-// caller keeps ownership of its slice.
+// getTreeKey returns the key in the form stored in the tree, a private copy.
+// The caller keeps ownership of its slice.
 func getTreeKey(key []byte) []byte {
-	treeKey := make([]byte, len(key)+1)
+	treeKey := make([]byte, len(key))
 	copy(treeKey, key)
-	treeKey[len(key)] = '$'
 	return treeKey
 }
 
+// getKey returns the key given to the caller for a key stored in the tree.
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[: keyLen-1 : keyLen-1]
+	return key
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/node_leaf.go b/node_leaf.go
index 346b7e3..aad765d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
diff --git a/tree.go b/tree.go
index b844df6..06dd0ab 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
@@ -94,9 +90,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
 
 		// Bail if the prefix does not match
@@ -108,20 +101,12 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			depth += int(n.getPartialLen())
 		}
 
-		if depth >= len(key) {
-			break
-		}
-
 		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
 			last = n.getNodeLeaf()
 		}
 
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
+		if depth >= len(key) {
+			break
 		}
 
 		// Recursively search
diff --git a/txn.go b/txn.go
index e0efc5c..783bf78 100644
--- a/txn.go
+++ b/txn.go
@@ -139,6 +139,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode.setPartialLen(uint32(longestPrefix))
 		copy(newNode.getPartial()[:], key[depth:depth+min(maxPrefixLen, longestPrefix)])
 
+		// The full key is in the leaf, only the new node has a compressed path
+		node.setPartialLen(0)
+
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
 			t.trackChannel(nodeLeaf)
@@ -195,23 +198,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 			newLeaf := t.makeLeaf(key, value)
 			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends at this node
+				node.setNodeLeaf(newLeafL)
 			}
 			return node, zero, true
 		}
@@ -240,10 +235,21 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			// The key ends at the new node
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
+	if depth >= len(key) {
+		// The key ends at this node
+		t.trackChannel(node)
+		node = t.writeNode(node, false)
+		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
+		return node, zero, true
+	}
+
 	// Find a child to recurse to
 	child, idx := t.findChild(node, key[depth])
 	if child != nil {
@@ -257,12 +263,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
-		return t.addChild(node, key[depth], newLeaf), zero, true
-	}
-	return node, zero, false
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -270,13 +273,7 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -299,7 +296,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 
 	if node.isLeaf() {
 		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
+		if node.getArtNodeType() == leafType && leafMatches(node.getKey(), key) == 0 {
 			return nil, node, true
 		}
 	}
@@ -432,13 +429,7 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 		return false
 	}
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -563,7 +554,6 @@ func (t *Txn[T]) allocNode(ntype nodeType) Node[T] {
 	n.setId(t.tree.maxNodeId)
 	if n.getArtNodeType() != leafType {
 		n.setPartial(make([]byte, maxPrefixLen))
-		n.setPartialLen(maxPrefixLen)
 	}
 	return n
 }
-- 
2.43.0


From 50274e35cec6d3f6cd66b48bc13726352dfad2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:54 +0000
Subject: [PATCH 11/18] fix: walk every key in order with its value

Walk passed zero values to the callback, skipped keys that are a prefix of
other keys, and visited the children of 48-way nodes in insertion order.
DFS stopped at the first child count slots of 48-way and 256-way nodes.
---
 tree.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index 06dd0ab..e4a2199 100644
--- a/tree.go
+++ b/tree.go
@@ -367,12 +367,13 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if nL := n.getNodeLeaf(); nL != nil && fn(getKey(nL.getKey()), nL.getValue()) {
 		return true
 	}
 
-	// Recurse on the children
-	for _, e := range n.getChildren() {
+	// Recurse on the children in order
+	_, children := orderedChildren[T](n)
+	for _, e := range children {
 		if e != nil {
 			if recursiveWalk(e, fn) {
 				return true
@@ -391,8 +392,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
+	for _, e := range n.getChildren() {
 		if e != nil {
 			t.DFSNode(e, fn)
 		}
-- 
2.43.0


From 7714c04ae4bc4b97106f36c24da1e8c6d8f79551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:00 +0000
Subject: [PATCH 12/18] fix: iterate from the first key when the iterator was
 not seeked

Next returned nothing unless SeekPrefix or SeekLowerBound had been called,
unlike Previous of the reverse iterator.
---
 iterator.go             | 5 +++++
 lower_bound_iterator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/iterator.go b/iterator.go
index a7dc93d..cd06bde 100644
--- a/iterator.go
+++ b/iterator.go
@@ -27,6 +27,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	if i.stack == nil && i.node != nil {
+		// No seek, start with the first key
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index 39b94f7..d30fb40 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -31,6 +31,11 @@ func (i *LowerBoundIterator[T]) Path() string {
 func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	if i.stack == nil && i.node != nil {
+		// No seek, start with the first key
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
-- 
2.43.0


From 40427046d9d2f0d5bade30b9b205b52d8fc85c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:51 +0000
Subject: [PATCH 13/18] fix: do not lose watchers when a transaction replaces
 channels

A tracking transaction put fresh channels on the nodes of the version it
started from. Watchers that registered on that version afterwards were
never woken, even when the transaction was aborted. Only nodes owned by
the transaction get a fresh channel now. Growing, shrinking and splitting
nodes no longer wakes the watchers of keys that were not changed.
---
 helpers.go | 18 ++++++------------
 txn.go     | 55 ++++++++++++++++++++++++------------------------------
 2 files changed, 30 insertions(+), 43 deletions(-)

diff --git a/helpers.go b/helpers.go
index e294a4e..cb7dbd5 100644
--- a/helpers.go
+++ b/helpers.go
@@ -79,8 +79,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
@@ -108,8 +107,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node48)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
@@ -135,8 +133,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node256)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
@@ -475,8 +472,7 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
@@ -496,8 +492,7 @@ func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 		t.trackChannel(n)
 		t.copyHeader(newNode, n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		child := 0
 		for i := 0; i < 256; i++ {
@@ -524,8 +519,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 		t.copyHeader(newNode, n)
 		t.trackChannel(n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		pos := 0
 		for i := 0; i < 256; i++ {
diff --git a/txn.go b/txn.go
index 783bf78..0ebc797 100644
--- a/txn.go
+++ b/txn.go
@@ -22,19 +22,17 @@ type Txn[T any] struct {
 }
 
 func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
+	if n.getId() <= t.oldMaxNodeId {
+		// The copy starts with the channel of the original, tracking it gives
+		// the copy a channel of its own
+		n = n.clone(true)
+		t.tree.maxNodeId++
+		n.setId(t.tree.maxNodeId)
+	}
 	if trackCh {
 		t.trackChannel(n)
-		if n.getNodeLeaf() != nil {
-			t.trackChannel(n.getNodeLeaf())
-		}
 	}
-	if n.getId() > t.oldMaxNodeId {
-		return n
-	}
-	nc := n.clone(!trackCh)
-	t.tree.maxNodeId++
-	nc.setId(t.tree.maxNodeId)
-	return nc
+	return n
 }
 
 // Txn starts a new transaction that can be used to mutate the tree
@@ -117,6 +115,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			*old = 1
 			oldVal := nodeLeafStored.getValue()
 			node = t.writeNode(node, true)
+			t.trackChannel(nodeLeafStored)
 			newLeaf := t.allocNode(leafType)
 			newLeaf.setKey(key)
 			newLeaf.setValue(value)
@@ -130,8 +129,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		nodeLeaf := node.getNodeLeaf()
 
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 
 		// Determine longest prefix
 		longestPrefix := longestCommonPrefix[T](newLeaf2L, nodeLeaf, depth)
@@ -144,7 +142,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
@@ -188,8 +185,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 				if child != nil {
 					newChild, val, mutatedSubTree := t.recursiveInsert(child, key, value, depth+1, old)
 					if mutatedSubTree || newChild != child {
-						t.trackChannel(node)
-						node = t.writeNode(node, false)
+						node = t.writeNode(node, true)
 						node.setChild(idx, newChild)
 					}
 					return node, val, mutatedSubTree
@@ -198,8 +194,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 			newLeaf := t.makeLeaf(key, value)
 			newLeafL := newLeaf.getNodeLeaf()
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
+			node = t.writeNode(node, true)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
@@ -215,8 +210,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode := t.allocNode(node4)
 		newNode.setPartialLen(uint32(prefixDiff))
 		copy(newNode.getPartial()[:], node.getPartial()[:min(maxPrefixLen, prefixDiff)])
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 
 		// Adjust the prefix of the old node
 		if node.getPartialLen() <= maxPrefixLen {
@@ -244,8 +238,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 	if depth >= len(key) {
 		// The key ends at this node
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
 		return node, zero, true
 	}
@@ -255,16 +248,14 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	if child != nil {
 		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
 		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
+			node = t.writeNode(node, true)
 			node.setChild(idx, newChild)
 		}
 		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.writeNode(node, true)
 	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
@@ -295,7 +286,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	}
 
 	if node.isLeaf() {
-		t.trackChannel(node)
 		if node.getArtNodeType() == leafType && leafMatches(node.getKey(), key) == 0 {
 			return nil, node, true
 		}
@@ -306,6 +296,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		nodeL := node.getNodeLeaf()
 		if leafMatches(nodeL.getKey(), key) == 0 {
 			node = t.writeNode(node, true)
+			t.trackChannel(nodeL)
 			node.setNodeLeaf(nil)
 			if node.getNumChildren() > 0 {
 				return node, nodeL, true
@@ -338,8 +329,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	newChild, val, mutate := t.recursiveDelete(child, key, depth+1)
 
 	if newChild != child || val != nil {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 		node.setChild(idx, newChild)
 		if newChild == nil {
 			node = t.removeChild(node, key[depth])
@@ -481,8 +471,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], prefix []byte, depth int) (Node[T],
 		return node, 0
 	}
 
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.writeNode(node, true)
 	node.setChild(idx, newChild)
 	if newChild == nil {
 		node = t.removeChild(node, prefix[depth])
@@ -580,7 +569,11 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	// Nodes of other versions keep their channel, otherwise it would be lost
+	// for those who watch these versions from now on
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From 85868018968ff18721bdfac9191c6403b72c4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:58 +0000
Subject: [PATCH 14/18] fix: watch the right node for missing keys with a long
 shared prefix

GetWatch compared only the stored part of a compressed path, so for a
missing key it could return the channel of a node below the one that the
insert of the key changes.
---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index e4a2199..0d90cc8 100644
--- a/tree.go
+++ b/tree.go
@@ -251,8 +251,8 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			// The whole path has to match, the insert of the key splits this node otherwise
+			if prefixMismatch[T](n, key, len(key), depth) < int(n.getPartialLen()) {
 				if n.getNodeLeaf() != nil {
 					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
 						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-- 
2.43.0


From baadfbb48e52f35a6a3ce8e3e292aa18a27758c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:04 +0000
Subject: [PATCH 15/18] fix: let transactions of the same version notify at the
 same time

Two transactions that notify concurrently could both see a shared watch
channel as open and close it twice, which panics.
---
 txn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 0ebc797..f9159c3 100644
--- a/txn.go
+++ b/txn.go
@@ -401,12 +401,21 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 func (t *Txn[T]) slowNotify() {
 	for _, ch := range t.trackChnSlice {
 		if ch != nil && !isClosed(ch) {
-			close(ch)
+			closeChannel(ch)
 		}
 	}
 	t.trackChnSlice = nil
 }
 
+// closeChannel closes the given channel. Transactions started from the same
+// version share channels, so another one may close it at the same time.
+func closeChannel(ch chan struct{}) {
+	defer func() {
+		_ = recover()
+	}()
+	close(ch)
+}
+
 func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 	return t.tree.LongestPrefix(prefix)
 }
-- 
2.43.0


From 08cb0540d3a4546b86b0982ffbb2aa32ff9d5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:33 +0000
Subject: [PATCH 16/18] fix: deleting a prefix of an empty tree must not wake
 watchers

---
 txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txn.go b/txn.go
index f9159c3..9f866e7 100644
--- a/txn.go
+++ b/txn.go
@@ -423,6 +423,9 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
+	if t.tree.size == 0 {
+		return false
+	}
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, prefix, 0)
 	if numDeletions == 0 {
 		return false
-- 
2.43.0


From 7cc05af7f4a48535be0367fbd36266112ce86e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:30 +0000
Subject: [PATCH 17/18] fix: do not scan the subtree where the search for an
 absent prefix ends

---
 iterator.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/iterator.go b/iterator.go
index cd06bde..4110335 100644
--- a/iterator.go
+++ b/iterator.go
@@ -130,6 +130,9 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 				// If there's a mismatch, set the node to nil to break the loop
 				i.node = node
 				i.stack = []Node[T]{node}
+				if nothingBelow[T](node, prefix, depth+mismatchIdx) {
+					i.stack = []Node[T]{}
+				}
 				return node
 			}
 			depth += int(node.getPartialLen())
@@ -148,6 +151,9 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 			// If the child node doesn't exist, break the loop
 			i.node = node
 			i.stack = []Node[T]{node}
+			if nothingBelow[T](node, prefix, depth) {
+				i.stack = []Node[T]{}
+			}
 			return node
 		}
 
@@ -160,3 +166,13 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 		depth++
 	}
 }
+
+// nothingBelow tells whether the search for a prefix that ended at the given
+// position of it shows that no key below the node has the prefix.
+func nothingBelow[T any](node Node[T], prefix []byte, pos int) bool {
+	if pos >= len(prefix) {
+		return false
+	}
+	l := minimum[T](node)
+	return l == nil || !hasPrefix(l.key, prefix[:pos+1])
+}
-- 
2.43.0


From ef6d091ae3aea14416968d70f011ae0b1c7e230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:42 +0000
Subject: [PATCH 18/18] fix: follow only the path in path iteration instead of
 scanning the tree

---
 path_iter.go | 107 +++++++++++++++------------------------------------
 1 file changed, 31 insertions(+), 76 deletions(-)

diff --git a/path_iter.go b/path_iter.go
index 94e942c..ddf1f8d 100644
--- a/path_iter.go
+++ b/path_iter.go
@@ -17,92 +17,47 @@ func (i *PathIterator[T]) Next() ([]byte, T, bool) {
 
 	var zero T
 
-	if len(i.stack) == 0 {
-		return nil, zero, false
-	}
-
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
-		nodeCur := i.stack[0]
+		currentNode := i.stack[0]
 		i.stack = i.stack[1:]
-		currentNode := nodeCur.(Node[T])
 
-		switch currentNode.getArtNodeType() {
-		case leafType:
-			leafCh := currentNode.(*NodeLeaf[T])
-			if leafCh.prefixContainsMatch(i.path) {
-				return getKey(leafCh.key), leafCh.value, true
-			}
-			continue
-		case node4:
-			n4 := currentNode.(*Node4[T])
-			for itr := int(n4.getNumChildren()) - 1; itr >= 0; itr-- {
-				nodeCh := n4.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				child := (n4.children[itr]).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n4.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n4.getNodeLeaf()}, i.stack...)
-			}
-		case node16:
-			n16 := currentNode.(*Node16[T])
-			for itr := int(n16.getNumChildren()) - 1; itr >= 0; itr-- {
-				nodeCh := n16.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				child := (nodeCh).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n16.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n16.getNodeLeaf()}, i.stack...)
-			}
-		case node48:
-			n48 := currentNode.(*Node48[T])
-			for itr := 255; itr >= 0; itr-- {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
+		leafCh, ok := currentNode.(*NodeLeaf[T])
+		if !ok {
+			leafCh = currentNode.getNodeLeaf()
+
+			if i.node != nil {
+				// The iterator was made for this node, or one with nothing but this
+				// node below it
+				if leafCh == nil && currentNode.getNumChildren() == 1 {
+					_, i.stack = orderedChildren[T](currentNode)
 					continue
 				}
-				child := (nodeCh).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
+				i.depth = depthOf[T](currentNode)
+				i.node = nil
 			}
-			if n48.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n48.getNodeLeaf()}, i.stack...)
-			}
-		case node256:
-			n256 := currentNode.(*Node256[T])
-			for itr := 255; itr >= 0; itr-- {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
+
+			// Only the child on the path can lead to more keys
+			i.depth += int(currentNode.getPartialLen())
+			if i.depth < len(i.path) {
+				if child, _ := findChild[T](currentNode, i.path[i.depth]); child != nil {
+					i.stack = append(i.stack, child)
 				}
-				child := (n256.children[itr]).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n256.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n256.getNodeLeaf()}, i.stack...)
+				i.depth++
 			}
 		}
+		if leafCh != nil && leafCh.prefixContainsMatch(i.path) {
+			return getKey(leafCh.key), leafCh.value, true
+		}
 	}
 	return nil, zero, false
 }
+
+// depthOf returns the length of the part of the keys below a node that leads to
+// the node. The node must not have a single child and no leaf.
+func depthOf[T any](n Node[T]) int {
+	if n.getNumChildren() == 0 {
+		return 0
+	}
+	return longestCommonPrefix[T](minimum[T](n), maximum[T](n), 0) - int(n.getPartialLen())
+}
-- 
2.43.0

