From 4ca158082dd926bb5463fdb067288a38aba5da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 01/18] fix: Range.Set() must not round an unaligned range up
 to a whole prefix

A range such as [0.0.0.1, 0.0.0.2] differs in all of its low bits without
being an aligned prefix; it was converted to 0.0.0.1/30, which has four
addresses.
---
 ipv4/setnode.go | 4 ++--
 ipv6/setnode.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..ecf0e62 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,9 +27,9 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	prefix := Prefix{r.first, uint32(numCommonBits)}
+	if prefix.Range() == r {
 		// This range is exactly one prefix, return a node with it.
-		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
 	}
 
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..a1148e5 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,9 +26,9 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	prefix := Prefix{r.first, uint32(numCommonBits)}
+	if prefix.Range() == r {
 		// This range is exactly one prefix, return a node with it.
-		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
 	}
 
-- 
2.43.0


From 7f9522f228f833c3de03d5317f79dc1d5e9119cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 02/18] fix: Range.Plus() must merge with a range that ends at
 the last address

The address after such a range wraps around to zero, so anything that
overlapped it looked disjoint from it.
---
 ipv4/range.go | 4 +++-
 ipv6/range.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..6e4d0ab 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,9 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// next() wraps around if `a` goes to the end of the IP space. So, make
+		// sure that `b` starts after `a` ends before using it.
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..60487c5 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,9 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// next() wraps around if `a` goes to the end of the IP space. So, make
+		// sure that `b` starts after `a` ends before using it.
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From b8153865d82c154be83606f3fa37c2720623d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 03/18] fix: WalkAddresses() must stop after 255.255.255.255

The loop counter wrapped around to 0.0.0.0 and visited every IPv4 address
over and over again.
---
 ipv4/prefix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..a666604 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		// Check after visiting since `a` would overflow past 255.255.255.255
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From 46da68eb2007a201087497405327142cda7e57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 04/18] fix: ipv4 Set.NumPrefixes() must report an invalid
 prefix length

It returned a count of zero and no error where Prefix.NumPrefixes() and the
IPv6 equivalent return an error.
---
 ipv4/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..c0931ea 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -251,7 +251,11 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		c, e := p.NumPrefixes(length)
+		if e != nil {
+			err = e
+			return false
+		}
 		count += c
 		return true
 	})
-- 
2.43.0


From 4bded2174c898203b7ec99814a2e459744deee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 05/18] fix: FindAvailablePrefix() must accept a nil reserved
 set

A nil SetI is documented to be treated as an empty set.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index c0931ea..67c1a01 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -350,6 +350,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..81b7c71 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 425b14af07a0145b19f9e1cf5761bbcc039e81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 06/18] fix: FindAvailablePrefix() must not return prefixes
 longer than an address

It returned prefixes like 10.0.0.0/40 which no other part of the API can
create.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 67c1a01..589f888 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -350,6 +350,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
diff --git a/ipv6/set.go b/ipv6/set.go
index 81b7c71..69e1150 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
-- 
2.43.0


From 5bdeb982d3798afd13aa1cc0f8483ad9efd54bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 07/18] fix: Prefix.Set() must ignore the host bits

The bits leaked into the set. It was not equal to other sets with the same
addresses and it showed them when walking the prefixes.
---
 ipv4/setnode.go |  2 +-
 ipv6/setnode.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index ecf0e62..87a85f3 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -15,7 +15,7 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
+		Prefix:   p.Network(),
 		size:     1,
 		h:        1,
 	}
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index a1148e5..fdab93a 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -14,9 +14,14 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
-		size:     1,
-		h:        1,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui.and(uint128{0xffffffffffffffff, 0xffffffffffffffff}.rightShift(int(p.length)).complement()), // zero out the host bits
+			},
+			length: p.length,
+		},
+		size: 1,
+		h:    1,
 	}
 }
 
-- 
2.43.0


From ab730c7a6aa633309a78417c1de208e1187d8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 08/18] fix: Table_.Remove() must return false if there is no
 such entry

It returned true when the given prefix happened to be the one that joins two
others in the underlying structure.
---
 ipv4/node.go | 4 ++++
 ipv6/node.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..f09e9c0 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -496,6 +496,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// There is no entry here, this node only joins its children
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..994caa2 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -492,6 +492,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// There is no entry here, this node only joins its children
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From 94baf3e5d1a7fce2b098d351d8c835751f723118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 09/18] fix: Diff() must visit disjoint prefixes in
 lexigraphical order

The order was backwards if the prefix on the left was longer than the one on
the right.
---
 ipv4/node.go | 5 +++--
 ipv6/node.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index f09e9c0..a466360 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -610,9 +610,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -672,7 +673,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index 994caa2..045cf3c 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -606,9 +606,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -668,7 +669,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From 2e4af51ba070583529faca052c8fa9d8a1fd30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 10/18] fix: Aggregate() must preserve the comparator of the
 table

Calling Diff, Map or Aggregate on the result panicked and a custom comparator
was lost.
---
 ipv4/table.go | 1 +
 ipv6/table.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..240de1d 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..5b232d8 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From d7c498b005070e9a16a645adeb2b0da60a8a33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 11/18] fix: custom comparators must be able to compare nil
 interface values

If T is an interface type, the type assertion panicked if nil was stored.
---
 ipv4/table.go | 5 ++++-
 ipv6/table.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 240de1d..c1a6435 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				var at, bt T
+				at, _ = a.(T)
+				bt, _ = b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 5b232d8..485ddc3 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				var at, bt T
+				at, _ = a.(T)
+				bt, _ = b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From f532a3b8f470590e98a524cb766492eaec39e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 12/18] fix: tables must not panic with values that cannot be
 compared with ==

A table with a custom comparator can store values of any type. Inserting or
getting an entry nested in another one compared values with == to find out
if a node had changed. It panics if the values are slices, for example.
---
 ipv4/node.go | 41 ++++++++++++++++++++++++++++-------------
 ipv6/node.go | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index a466360..4fd3193 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,17 +116,16 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy of the node. Callers should avoid calling
+// it if there is nothing to change so that the original can be shared. This
+// cannot be detected here because values are not necessarily comparable.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
-		return me
-	}
-	return mutated
+	return doppelganger.mutate(mutator)
 }
 
 type comparator func(a, b interface{}) bool
@@ -184,6 +183,9 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 	if !exact {
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
+		if newChild == me.children[child] {
+			return me, result
+		}
 
 		head = me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
@@ -411,6 +413,9 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
+		if newChild == me.children[child] {
+			return me, nil
+		}
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
 			if opts.flatten {
@@ -834,14 +839,24 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
+	if me == nil {
+		return nil
+	}
+
+	data := mapper(me.Prefix, me.Data)
+	same := eq(me.Data, data)
+	if same {
+		data = me.Data
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
-		}
+		n.Data = data
+		n.children = children
 	})
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index 045cf3c..0aeda8f 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,17 +115,16 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy of the node. Callers should avoid calling
+// it if there is nothing to change so that the original can be shared. This
+// cannot be detected here because values are not necessarily comparable.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
-		return me
-	}
-	return mutated
+	return doppelganger.mutate(mutator)
 }
 
 type comparator func(a, b interface{}) bool
@@ -183,6 +182,9 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 	if !exact {
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
+		if newChild == me.children[child] {
+			return me, result
+		}
 
 		head = me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
@@ -407,6 +409,9 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
+		if newChild == me.children[child] {
+			return me, nil
+		}
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
 			if opts.flatten {
@@ -830,14 +835,24 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
+	if me == nil {
+		return nil
+	}
+
+	data := mapper(me.Prefix, me.Data)
+	same := eq(me.Data, data)
+	if same {
+		data = me.Data
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
-		}
+		n.Data = data
+		n.children = children
 	})
 }
-- 
2.43.0


From c16f40a6d4e6ff450b5d0ecb472c20cb5132d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 13/18] fix: Map() must only invoke the mapper for entries in
 the table

It was also invoked for prefixes which only join others in the underlying
structure.
---
 ipv4/node.go | 9 +++++----
 ipv6/node.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4fd3193..de690f1 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -843,10 +843,11 @@ func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq compara
 		return nil
 	}
 
-	data := mapper(me.Prefix, me.Data)
-	same := eq(me.Data, data)
-	if same {
-		data = me.Data
+	data, same := me.Data, true
+	if me.isActive {
+		if mapped := mapper(me.Prefix, me.Data); !eq(me.Data, mapped) {
+			data, same = mapped, false
+		}
 	}
 	children := [2]*trieNode{
 		me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 0aeda8f..71f2c02 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -839,10 +839,11 @@ func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq compara
 		return nil
 	}
 
-	data := mapper(me.Prefix, me.Data)
-	same := eq(me.Data, data)
-	if same {
-		data = me.Data
+	data, same := me.Data, true
+	if me.isActive {
+		if mapped := mapper(me.Prefix, me.Data); !eq(me.Data, mapped) {
+			data, same = mapped, false
+		}
 	}
 	children := [2]*trieNode{
 		me.children[0].Map(mapper, eq),
-- 
2.43.0


From 1609bd9d73e864025771cd316c356079be878f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 14/18] fix: Aggregate() must only compare the values of
 entries

The comparator was also invoked for nodes without a value.
---
 ipv4/node.go | 2 +-
 ipv6/node.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index de690f1..db734a1 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -767,7 +767,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
diff --git a/ipv6/node.go b/ipv6/node.go
index 71f2c02..ba7211e 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -763,7 +763,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
-- 
2.43.0


From a55286a5c234be9cc98be405debf90bb6c4dca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 15/18] fix: Aggregate() must keep entries under two that
 combine into one

When two adjacent prefixes with the same value were combined, any longer
prefixes with other values which they contain were lost. Longest prefix
matches on the result returned the wrong value.
---
 ipv4/node.go | 20 +++++++++++++++++++-
 ipv6/node.go | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index db734a1..b2dc298 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -754,6 +754,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns the trie without the entry in this node. Everything under
+// it remains.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -813,7 +828,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index ba7211e..1e000bb 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -750,6 +750,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns the trie without the entry in this node. Everything under
+// it remains.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -809,7 +824,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 346d1e9a2e15dde86ea24924db9579692909fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 16/18] fix: Aggregate() must not leave an entry which is
 redundant with its parent

When two adjacent prefixes are combined, the result may have the same value
as the entry above it.
---
 ipv4/node.go | 5 +++++
 ipv6/node.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index b2dc298..dc1e380 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -832,6 +832,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 			children[0].deactivate(),
 			children[1].deactivate(),
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// An entry above this one already has the same value
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 1e000bb..029250c 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -828,6 +828,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 			children[0].deactivate(),
 			children[1].deactivate(),
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// An entry above this one already has the same value
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From ab18cfd83231a004010126057b9596900cd3fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 17/18] fix: reads concurrent with a write must not be a data
 race

Set_ and Table_ are documented to be safe to read and write concurrently but
the reads of the root were not synchronized with the atomic swap. Also, a
write read the root twice: once to know what to replace and again to derive
the new root from. Another write and its reversal in between went undetected
and could be undone.
---
 ipv4/set.go           | 40 ++++++++++++++++++++++--------------
 ipv4/tablex.go        | 47 +++++++++++++++++++++++++++----------------
 ipv4/unsafe_atomic.go | 20 ++++++++++++++++++
 ipv6/set.go           | 40 ++++++++++++++++++++++--------------
 ipv6/tablex.go        | 47 +++++++++++++++++++++++++++----------------
 ipv6/unsafe_atomic.go | 20 ++++++++++++++++++
 6 files changed, 150 insertions(+), 64 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 589f888..f487264 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,14 +29,24 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate is like update for a mutator that doesn't need the old node
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
-	ok, newNode := mutator()
+	me.update(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the set in any way. The
+// new node must be derived from the old one passed to the updater, without
+// reading it from the set again. Otherwise, it isn't possible to detect every
+// concurrent modification.
+func (me Set_) update(updater func(oldNode *setNode) (ok bool, newNode *setNode)) {
+	oldNode := loadSetNodePtr(&me.s.trie)
+	ok, newNode := updater(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +63,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.update(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +78,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.update(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
@@ -83,7 +93,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -91,7 +101,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -99,11 +109,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -114,7 +124,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -125,7 +135,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -137,7 +147,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..ff36a09 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,13 +60,23 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate is like update for a mutator that doesn't need the old node
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
-	ok, newNode := mutator()
+	me.update(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the table in any way. The
+// new node must be derived from the old one passed to the updater, without
+// reading it from the table again. Otherwise, it isn't possible to detect every
+// concurrent modification.
+func (me tableX_) update(updater func(oldNode *trieNode) (ok bool, node *trieNode)) {
+	oldNode := loadTrieNodePtr(&me.m.trie)
+	ok, newNode := updater(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..fab3567 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -5,6 +5,26 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
diff --git a/ipv6/set.go b/ipv6/set.go
index 69e1150..6ad62fd 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -49,10 +49,20 @@ func (me Set) Build(builder func(Set_) bool) Set {
 	return me
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate is like update for a mutator that doesn't need the old node
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
-	ok, newNode := mutator()
+	me.update(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the set in any way. The
+// new node must be derived from the old one passed to the updater, without
+// reading it from the set again. Otherwise, it isn't possible to detect every
+// concurrent modification.
+func (me Set_) update(updater func(oldNode *setNode) (ok bool, newNode *setNode)) {
+	oldNode := loadSetNodePtr(&me.s.trie)
+	ok, newNode := updater(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +79,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.update(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +94,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.update(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
@@ -94,7 +104,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -102,7 +112,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -110,11 +120,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -125,7 +135,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -136,7 +146,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -148,7 +158,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..868cd13 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,13 +60,23 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate is like update for a mutator that doesn't need the old node
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
-	ok, newNode := mutator()
+	me.update(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the table in any way. The
+// new node must be derived from the old one passed to the updater, without
+// reading it from the table again. Otherwise, it isn't possible to detect every
+// concurrent modification.
+func (me tableX_) update(updater func(oldNode *trieNode) (ok bool, node *trieNode)) {
+	oldNode := loadTrieNodePtr(&me.m.trie)
+	ok, newNode := updater(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..ff8febb 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -5,6 +5,26 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
-- 
2.43.0


From b482f7cff9055fe45fad6777cacdb315f184aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 18/18] fix: text of IPv4-mapped IPv6 addresses parses back

ipv6.Address.String() formatted ::ffff:a.b.c.d as a.b.c.d, so the text of
such addresses and prefixes was rejected as IPv4 (or meant another prefix),
and AddressFromString() rejected the correct text.
---
 ipv6/address.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..18a81b8 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -53,8 +54,9 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
+	// The text of an IPv4-mapped address (::ffff:a.b.c.d) is IPv6
 	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	if netIPv4 != nil && !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +102,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	netIP := me.ToNetIP()
+	if netIP.To4() != nil {
+		// net.IP formats IPv4-mapped addresses as IPv4
+		return "::ffff:" + netIP.String()
+	}
+	return netIP.String()
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0

