From 9318670d1dd043d37b8cfc99fb1d3ae739081d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 001/162] fix: PyAgenda.peekitem returned stale entries and
 dropped valid ones

After skipping invalidated entries, peekitem() returned an entry that it
had already removed from the heap (losing a valid item), or an entry that
was deleted.
---
 discodop/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..357e592 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -246,15 +246,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and self.heap[0].count == INVALID:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
-- 
2.43.0


From 43a56fe36ef65f3af84b0f58749b69f0468a6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 002/162] fix: PyAgenda.clear did not reset its length

---
 discodop/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/util.py b/discodop/util.py
index 357e592..6a61a9c 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -284,6 +284,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
-- 
2.43.0


From 2cab40c0c6f1845e6b69d920db8b3678a981414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 003/162] fix: binarization with tailmarker was not undone by
 unbinarize

The tail marker was inserted between '|' and '<', so that the artificial
nodes were no longer recognized (as 'X|<...>') by unbinarize, saveheads and
others. Put it after the label, where MARKOVRE expects it.
---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..5189138 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				newnode.label = ''.join((origlabel, childchar, mark, marktail))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From a5c8e67a435b61307fe3a75dfcd3892a296ce20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 004/162] fix: left-factored binarization labels included
 generated siblings

With factor='left', the horizontal context of an artificial node could
extend to the right past its own children, so that different states shared
a label (with the default unlimited horzmarkov, all of them did), in spite
of the promise that this introduces no new generalizations.
---
 discodop/treetransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 5189138..15d7a88 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -227,8 +227,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
 								if a not in filterlabels) + ';'
-				siblings += ','.join([a for a in childlabels[start:]
-						if a not in filterlabels][:horzmarkov])
+				siblings += ','.join([a for a in childlabels[
+						start:end if factor == 'left' and headidx is None
+						else None] if a not in filterlabels][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-- 
2.43.0


From 087dfd781b6cecb4614264905399c4cff52deaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 005/162] fix: unbinarize could not expand unaries of a
 ParentedTree

The children were given to a new node while they still had a parent.
---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 15d7a88..8b86f56 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -300,8 +300,10 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
+						tmp = node[:]
+						node[:] = []
 						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+								node.label[unaryindex + 1:], tmp)
 						node.label = node.label[:unaryindex]
 						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
-- 
2.43.0


From 77996a6b31091d099c4d31edd77b9622acb32518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 006/162] fix: collapseunary failed on a ParentedTree

The children of the collapsed node were assigned to its parent while still
having another parent.
---
 discodop/treetransforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8b86f56..ddde828 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -331,7 +331,10 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				# detach children first so that they may get a new parent.
+				children = node[0][:]
+				node[0][:] = []
+				node[:] = children
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From 809ca7d49f416a82345182f48696bb3ac82659df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 007/162] fix: splitting discontinuous nodes lost head marks,
 so raising lost constituents

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index ddde828..36c8f36 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -517,7 +517,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in childsubset)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From fa6d3855cb9e1b1b57eb6ea4ac86164bd9695f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 008/162] fix: removefanoutmarkers removed label parts that are
 not fan-out markers

---
 discodop/treetransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 36c8f36..74d6e98 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -25,6 +25,7 @@ from .tree import Tree, ImmutableTree, isdisc, bitfanout, HEAD
 from .util import OrderedSet, PyAgenda
 
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
+FANOUTMARKERRE = re.compile(r'_[0-9]+$')
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
 MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
 
@@ -634,7 +635,7 @@ def addfanoutmarkers(tree):
 def removefanoutmarkers(tree):
 	"""Remove fanout marks."""
 	for a in tree.subtrees(lambda x: '_' in x.label):
-		a.label = a.label.rsplit('_', 1)[0]
+		a.label = FANOUTMARKERRE.sub('', a.label)
 	return tree
 
 
-- 
2.43.0


From 93043cebef2f25cc7b059477ba54ca17023a2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 009/162] fix: slice_bounds with allow_step tried to modify the
 slice object

---
 discodop/util.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 6a61a9c..946afd3 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -122,15 +122,7 @@ def slice_bounds(seq, slice_obj, allow_step=False):
 		If it does, then return a tuple (start, stop, step)."""
 	start, stop = (slice_obj.start, slice_obj.stop)
 	if allow_step:
-		slice_obj.step = 1 if slice_obj.step is None else slice_obj.step
-		# Use a recursive call without allow_step to find the slice
-		# bounds. If step is negative, then the roles of start and
-		# stop (in terms of default values, etc), are swapped.
-		if slice_obj.step < 0:
-			start, stop, _ = slice_bounds(seq, slice(stop, start))
-		else:
-			start, stop, _ = slice_bounds(seq, slice(start, stop))
-		return start, stop, slice_obj.step
+		return slice_obj.indices(len(seq))
 	elif slice_obj.step not in (None, 1):
 		raise ValueError('slices with steps are not supported by %s' %
 				seq.__class__.__name__)
-- 
2.43.0


From 81aa1a28fc424018cd69a6377a85a80d54302df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 010/162] fix: OrderedSet iterated over duplicates that its
 length did not count

---
 discodop/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/util.py b/discodop/util.py
index 946afd3..85c5a7f 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -146,7 +146,7 @@ class OrderedSet(Set):
 
 	def __init__(self, iterable=None):
 		if iterable:
-			self.seq = tuple(iterable)
+			self.seq = tuple(dict.fromkeys(iterable))
 			self.theset = frozenset(self.seq)
 		else:
 			self.seq = ()
-- 
2.43.0


From 94f6acaf73046055e43347e4747745fd10059fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 011/162] fix: getyf failed on a unary discontinuous node

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 74d6e98..cde7dd2 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -978,7 +978,7 @@ def getyf(left, right):
 			if cur != '0':
 				cur = '0'
 				result.append(cur)
-		elif right.bitset & mask:
+		elif right is not None and right.bitset & mask:
 			if cur != '1':
 				cur = '1'
 				result.append(cur)
-- 
2.43.0


From 06854b14e0c186222f9963082a00423026767b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 012/162] fix: insert could modify an ImmutableTree

---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..bf250e4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From d0c9ede9818214ec7cd33fd3f2378f1221023437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 013/162] fix: DiscTree equality ignored all but the first
 terminal of a node

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index bf250e4..3572fd0 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -972,7 +972,8 @@ class DiscTree(ImmutableTree):
 			if istree != isinstance(b, Tree):
 				return False
 			elif not istree:
-				return self.sent[a] == other.sent[b]
+				if self.sent[a] != other.sent[b]:
+					return False
 			elif not a.__eq__(b):
 				return False
 		return True
-- 
2.43.0


From f882b6b8a7bc53384460b794602c471931761c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 014/162] fix: ordering comparisons of trees were not an order

---
 discodop/tree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3572fd0..db9e452 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -125,26 +125,26 @@ class Tree(object):
 	def __lt__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label < other.label
-				or self.children < other.children)
+		return ((self.label, self.children)
+				< (other.label, other.children))
 
 	def __le__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label <= other.label
-				or self.children <= other.children)
+		return ((self.label, self.children)
+				<= (other.label, other.children))
 
 	def __gt__(self, other):
 		if not isinstance(other, Tree):
 			return True
-		return (self.label > other.label
-				or self.children > other.children)
+		return ((self.label, self.children)
+				> (other.label, other.children))
 
 	def __ge__(self, other):
 		if not isinstance(other, Tree):
-			return False
-		return (self.label >= other.label
-				or self.children >= other.children)
+			return True
+		return ((self.label, self.children)
+				>= (other.label, other.children))
 
 	# === Delegated list operations ==============================
 	def append(self, child):
-- 
2.43.0


From deabe32ba74759dc95054dd8ea7edc068a34fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 015/162] fix: rejected edits could leave ParentedTrees with
 inconsistent parents

---
 discodop/tree.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index db9e452..5a8fb68 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -686,9 +686,7 @@ class ParentedTree(Tree):
 		super().__init__(label_or_str, children)
 		# iterate over self.children, *not* children,
 		# because children might be an iterator.
-		for i, child in enumerate(self.children):
-			if isinstance(child, Tree):
-				self._setparent(child, i, dry_run=True)
+		self._checkchildren(self.children)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -786,6 +784,20 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkchildren(self, children, replaced=()):
+		"""Raise an exception if children cannot all be added to this node.
+
+		:param replaced: current children which will be removed first."""
+		available = {id(child) for child in replaced}
+		seen = set()
+		for i, child in enumerate(children):
+			if isinstance(child, Tree):
+				if id(child) in seen:
+					raise ValueError('Cannot insert a subtree more than once.')
+				seen.add(id(child))
+				if id(child) not in available:
+					self._setparent(child, i, dry_run=True)
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -823,9 +835,7 @@ class ParentedTree(Tree):
 				value = list(value)
 			# Check for any error conditions, so we can avoid ending
 			# up in an inconsistent state if an error does occur.
-			for i, child in enumerate(value):
-				if isinstance(child, Tree):
-					self._setparent(child, start + i, dry_run=True)
+			self._checkchildren(value, self.children[start:stop])
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
@@ -867,6 +877,8 @@ class ParentedTree(Tree):
 		super().append(child)
 
 	def extend(self, children):
+		children = list(children)
+		self._checkchildren(children)
 		for child in children:
 			if isinstance(child, Tree):
 				self._setparent(child, len(self))
-- 
2.43.0


From f14897240a49ff74d9e68f035c511cc5c6eac98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 016/162] fix: nodes with several terminals were written
 without their words

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5a8fb68..71a9ad1 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -23,7 +23,7 @@ HEAD, COMPLEMENT, MODIFIER = range(3)
 PTBPUNC = {'-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-'}
 FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
-INDEXRE = re.compile(r' ([0-9]+)\)')
+INDEXRE = re.compile(r'(?<=\s)[0-9]+(?=[\s)])')
 # regex to check if the tree contains any terminals not prefixed by indices
 STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
 
@@ -1956,7 +1956,7 @@ def discbrackettree(treestr):
 def writebrackettree(tree, sent):
 	"""Return a tree in bracket notation with words as leaves."""
 	return INDEXRE.sub(
-			lambda x: ' %s)' % escape(sent[int(x.group(1))]),
+			lambda x: escape(sent[int(x.group())]),
 			str(tree)) + '\n'
 
 
@@ -1964,7 +1964,7 @@ def writediscbrackettree(tree, sent, pretty=False):
 	"""Return tree in bracket notation with leaves as ``index=word``."""
 	treestr = tree.pprint() if pretty else str(tree)
 	return INDEXRE.sub(
-			lambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),
+			lambda x: '%s=%s' % (x.group(), escape(sent[int(x.group())])),
 			treestr) + '\n'
 
 
-- 
2.43.0


From c52bfcedfd8e5ea5c7eb17a9bc057516f7d24136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 017/162] fix: discontinuous brackets with extra white space
 were read as plain brackets

---
 discodop/tree.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 71a9ad1..72d3e2d 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -25,7 +25,7 @@ FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
 INDEXRE = re.compile(r'(?<=\s)[0-9]+(?=[\s)])')
 # regex to check if the tree contains any terminals not prefixed by indices
-STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
+STRTERMRE = re.compile(r'\s(?!\s*[0-9]+=)[^()]*\s*\)')
 
 try:
 	from .bit import fanout as bitfanout
@@ -1904,6 +1904,7 @@ def brackettree(treestr, detectdisc=True):
 	:param detectdisc: if True, enable discbracket detection;
 		if False, force bracket format.
 	:returns: (tree, sent) tuple of ParentedTree and list of str."""
+	treestr = SUPERFLUOUSSPACERE.sub(')', treestr)
 	# bracket: terminals are not all indices
 	if not detectdisc or STRTERMRE.search(treestr):
 		sent, cnt = [], count()
@@ -1913,8 +1914,7 @@ def brackettree(treestr, detectdisc=True):
 			sent.append(unescape(x))
 			return next(cnt)
 
-		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)',
-				SUPERFLUOUSSPACERE.sub(')', treestr)),
+		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)', treestr),
 				parse_leaf=substleaf)
 	else:  # discbracket: terminals have indices
 		sent = {}
@@ -1926,9 +1926,7 @@ def brackettree(treestr, detectdisc=True):
 			sent[idx] = unescape(word)
 			return idx
 
-		tree = ParentedTree.parse(
-				SUPERFLUOUSSPACERE.sub(')', treestr),
-				parse_leaf=substleaf)
+		tree = ParentedTree.parse(treestr, parse_leaf=substleaf)
 		sent = [sent.get(n, None) for n in range(max(sent) + 1)]
 	return tree, sent
 
-- 
2.43.0


From da37fa958dc8f8ab155183b4c5fb488e4fe1bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 018/162] fix: markovthreshold garbled labels with vertical
 markovization

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index cde7dd2..717f067 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -27,7 +27,7 @@ from .util import OrderedSet, PyAgenda
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 FANOUTMARKERRE = re.compile(r'_[0-9]+$')
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
-MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
+MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(?:\^<(.*?)>)?(.*)$')
 
 
 def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
-- 
2.43.0


From f82d0ddbb896c6c8f18a65e097bd15d6279c1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 019/162] fix: punctlower lost punctuation and modified the
 wrong nodes

---
 discodop/punctuation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..68e5c81 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -110,12 +110,20 @@ def punctlower(tree, sent):
 			elif num < max(termdom):
 				lower(node, child)
 				break
+		else:  # no suitable constituent below candidate
+			candidate.append(node)
 
-	for a in tree.treepositions('leaves'):
+	punct = []
+	for a in reversed(tree.treepositions('leaves')):
 		if ispunct(sent[tree[a]], tree[a[:-1]]):
-			b = tree[a[:-1]]
-			del tree[a[:-1]]
-			lower(b, tree)
+			punct.append(tree[a[:-1]])
+			# remove this punctuation node and any empty ancestors
+			for n in range(1, len(a)):
+				del tree[a[:-n]]
+				if tree[a[:-(n + 1)]]:
+					break
+	for node in reversed(punct):
+		lower(node, tree)
 
 
 def punctraise(tree, sent, rootpreterms=False):
-- 
2.43.0


From f0bbb59bbcd49f1ea55e0622b60b20fe3fa2c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 020/162] fix: balanced guillemets were not recognized

---
 discodop/punctuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 68e5c81..05fc07e 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -13,7 +13,7 @@ PUNCTTAGS = {'.', ',', ':', "'", "''", '`', '``', '"',  # General
 # NB: ' is not in this list of tokens, because if it occurs as a possesive
 # marker it should be left alone; occurrences of ' as quotation marker may
 # still be identified using tags.
-PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xc2\xab\xc2\xbb\xb7\xad\\'
+PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xab\xbb\xb7\xad\\'
 		) | {'&bullet;', '..', '...', '....', '.....', '......',
 		'!!', '!!!', '??', '???', "''", '``', ',,',
 		'--', '---', '----', '-LRB-', '-RRB-', '-LCB-', '-RCB-',
@@ -26,7 +26,7 @@ PRUNEPUNCT = {'``', "''", '"', '.'}
 # Punctuation that come in pairs (left: right).
 BALANCEDPUNCTMATCH = {'"': '"', "'": "'", '``': "''",
 		'[': ']', '(': ')', '-LRB-': '-RRB-', '-LSB-': '-RSB-',
-		'-': '-', '\xc2\xab': '\xc2\xbb'}  # unicode << and >>
+		'-': '-', '\xab': '\xbb'}  # unicode << and >>
 
 
 def applypunct(method, tree, sent):
-- 
2.43.0


From 8ef1f503344fedfa7d6506ca26fa13fba4cc41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 021/162] fix: punctprune failed on empty sentences

---
 discodop/punctuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 05fc07e..1c54a27 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -66,7 +66,7 @@ def punctprune(tree, sent):
 		sent[i] = None
 		i += 1
 	i = len(sent) - 1
-	while i < len(sent) and sent[i] in PRUNEPUNCT:
+	while i >= 0 and sent[i] in PRUNEPUNCT:
 		sent[i] = None
 		i -= 1
 	if tree is None:
-- 
2.43.0


From 60afa404e7f1dc132a1bf7afe814b280449dd483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 022/162] fix: head rules for labels with lower case characters
 were never applied

readheadrules converts rules to upper case, but the label of the parent
was looked up as is, so that e.g. the rules for Sint, VPinf (FTB) and
smain (Alpino) had no effect.
---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index d16d494..e93590d 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -92,7 +92,7 @@ def headfinder(tree, headrules, headlabels=frozenset({'HD'})):
 	# apply heuristic rules:
 	head = None
 	children = tree
-	for direction, heads in headrules.get(tree.label, []):
+	for direction, heads in headrules.get(tree.label.upper(), []):
 		if direction.startswith('LEFT'):
 			children = tree
 		elif direction.startswith('RIGHT'):
-- 
2.43.0


From f595f9bf14dc23c7fcb2a5de6ab17b44c4362dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 023/162] fix: head rules with only a direction were ignored

The rule files contain default rules such as 'FRAG right'; the pattern
allows an empty list of heads, but such lines were skipped.
---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e93590d..e8d1c6a 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -47,7 +47,7 @@ def readheadrules(filename):
 	with io.open(filename, encoding='utf8') as inp:
 		for line in inp:
 			line = line.strip().upper()
-			if line and not line.startswith("%") and len(line.split()) > 2:
+			if line and not line.startswith("%") and len(line.split()) > 1:
 				try:
 					label, direction, heads = HEADRULERE.match(line).groups()
 				except AttributeError:
-- 
2.43.0


From 4cb3ab247898f59e2e9135754a1965ec0852838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 024/162] fix: dependency length included the arc to the root

deplen looks for the label ROOT, but dependencies() uses root.
---
 discodop/treebank.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..aaab58f 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -924,9 +924,9 @@ def deplen(deps):
 	"""Compute dependency length from result of ``dependencies()``.
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
-	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
-	return (total, float(len(deps) - 1))  # discount ROOT
+	lengths = [abs(a - b) for a, _label, b in deps
+			if b != 0]  # discount ROOT
+	return (sum(lengths), float(len(lengths)))
 
 
 def handlefunctions(action, tree, pos=True, root=False, morphology=None):
-- 
2.43.0


From bf6a50c50c8dacbc8005e4b86ab9aef6215b135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 025/162] fix: modifier rules for labels with lower case
 characters never applied

Same as for head rules: the rules are converted to upper case, the label of
the parent was not.
---
 discodop/heads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e8d1c6a..11a3fe2 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -153,8 +153,8 @@ def markmodifiers(tree, modifierrules):
 		if child.type == HEAD:
 			continue
 		child.type = COMPLEMENT
-		applicablerules = modifierrules.get(tree.label.split('-', 1)[0], []
-				) + modifierrules.get('*', [])
+		applicablerules = modifierrules.get(
+				tree.label.split('-', 1)[0].upper(), []) + modifierrules.get('*', [])
 		for mod in applicablerules:
 			if ((child.label.split('-', 1)[0].upper() == mod.split('-', 1)[0]
 					or mod.split('-', 1)[0] == '*')
-- 
2.43.0


From 1bfd5bf5d6d97b88faef8f427a54391289531f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 026/162] fix: heads were not restored from binarization with a
 tail marker

saveheads marked the artificial node, which is removed by unbinarize, instead
of the head it introduces; and it marked any node whose label happens to
contain the marker.
---
 discodop/heads.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index 11a3fe2..fb5e5f3 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -171,8 +171,10 @@ def markmodifiers(tree, modifierrules):
 def saveheads(tree, tailmarker):
 	"""Infer head from binarization and store."""
 	if tailmarker:
-		for node in tree.subtrees(lambda n: tailmarker in n.label):
-			node.type = HEAD
+		# the node with the marker introduces the head as its last child.
+		for node in tree.subtrees(lambda n: '|<' in n.label
+				and tailmarker in n.label[n.label.rfind('>') + 1:]):
+			node[-1].type = HEAD
 	else:
 		# assume head-outward binarization; the last binarized node has the head.
 		for node in tree.subtrees(lambda n: '|<' in n.label
-- 
2.43.0


From 8c55e696d0c7ee0fd6b0a453f13abbe2721a9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 027/162] fix: read_bitpar_grammar lost all lexical rules

The weights and tags are iterators in Python 3, and were exhausted before the
rules were added.
---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..b1ae424 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = [float(w) for w in weights]
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = [int(w) for w in weights]
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From 68c6693ad0d7b37c13c0feb922fa54f1415ffaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 028/162] fix: lexical rules never used to generate when label
 has other rules

When a nonterminal has both lexical and phrasal rules, only the latter were
selected by gen().
---
 discodop/gen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index b1ae424..257ca46 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -34,10 +34,11 @@ def gen(grammar, start=1, discount=0.75, prodcounts=None, verbose=False):
 	"""
 	if prodcounts is None:
 		prodcounts = [1] * grammar.numrules
-	if not grammar.bylhs[start]:
-		terminal = chooserule(grammar.lexicalbylhs[start], discount, prodcounts)
-		return (terminal.prob, [[terminal.word]])
-	rule = chooserule(grammar.bylhs[start], discount, prodcounts)
+	rule = chooserule(
+			grammar.bylhs[start] + grammar.lexicalbylhs.get(start, []),
+			discount, prodcounts)
+	if isinstance(rule, LexicalRule):
+		return (rule.prob, [[rule.word]])
 	prodcounts[rule.no] += 1
 	p1, l1 = gen(grammar, rule.rhs1, discount, prodcounts, verbose)
 	assert l1
-- 
2.43.0


From f46a05b5a006b126baef5208a3dd5ea00f6ff2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 029/162] fix: reading of grammars by 'discodop gen'

- text files were opened in text mode and decoded again, gzip'ed files
  were not decoded.
- the part of a bitpar grammar that was already read was skipped.
---
 discodop/gen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 257ca46..403ec9e 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -260,12 +259,13 @@ def main():
 		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(sys.argv[1]) as inp:
+		rules = inp.readlines()
+	with openread(sys.argv[2]) as inp:
+		lexicon = inp.readlines()
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
-	except ValueError:
+	except (ValueError, IndexError):
 		xgrammar = read_bitpar_grammar(rules, lexicon)
 	grammar = splitgrammar(xgrammar)
 	for _ in range(20):
-- 
2.43.0


From 6fa2339bd9e8db1c3ca325a93b27964b6ebbe9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 030/162] fix: recognize all weights when merging and
 summarizing grammars

The pattern for rules did not match weights such as 1e+06 (as written by
writegrammar) and hex floats, and took labels such as '.' and '-' for weights.
---
 discodop/grammar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..631392f 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -15,8 +15,10 @@ from functools import reduce  # pylint: disable=redefined-builtin
 
 RULERE = re.compile(
 		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*)\t'
-		r'(?P<WEIGHT1>(?P<FREQ1>[-.e0-9]+)(?:\/[0-9]+)?)$'
-		r'|(?P<FREQ2>[-.e0-9]+)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')
+		r'(?P<WEIGHT1>(?P<FREQ1>%(num)s)(?:\/%(num)s)?)$'
+		r'|(?P<FREQ2>%(num)s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$'
+		% dict(num=r'-?(?:0x[0-9a-fA-F.]+p[-+]?[0-9]+'
+			r'|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[-+]?[0-9]+)?)'))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From 6a927f2bd3a52cd966f474322f2dc3a3157c27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 031/162] fix: merging empty rule files

---
 discodop/grammar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 631392f..f14c870 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1224,6 +1224,8 @@ def sumrules(iterable, n):
 			w1 += convertweight(match.group('FREQ2'))
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
+	if prev is None:
+		return
 	if match.group('RULE1') is None:
 		yield '%g\t%s\n' % (w1 / n, rule)
 	else:
-- 
2.43.0


From 5129d7b00ef82cf4b410ebeffb53711fe462f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 032/162] fix: reading of rules by 'discodop grammar info'

The file was opened in text mode and decoded again; frequency mass was
truncated to an integer, except for the last label.
---
 discodop/grammar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f14c870..3e9b287 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1157,12 +1157,11 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+	for line in openread(filename):
 		match = RULERE.match(line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				print('%s\t%d\t%g' % (label, cnt, freq))
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-- 
2.43.0


From bbdc44d01b85d3f2194db485dc523026ae843e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 033/162] fix: weights lost precision when writing and merging
 grammars

Weights were written with 6 digits, so that e.g. a frequency of 1234567 was
read back as 1234570.
---
 discodop/grammar.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 3e9b287..23d2a48 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1076,7 +1076,7 @@ def writegrammar(grammar, bitpar=False):
 	rules, lexicon = [], []
 	lexical = OrderedDict()
 	for (r, yf), w in grammar:
-		w = '%g' % w
+		w = weightstr(w)
 		if len(r) == 2 and r[1] == 'Epsilon':
 			lexical.setdefault(yf[0], []).append((r[0], w))
 			continue
@@ -1170,6 +1170,18 @@ def grammarstats(filename):
 		print('%s\t%d\t%g' % (label, cnt, freq))
 
 
+def weightstr(weight):
+	"""Convert a weight to a string, without loss of precision.
+
+	>>> [weightstr(a) for a in (1, 2.0, 0.5, 1000000, 1234567, 1 / 3)]
+	['1', '2', '0.5', '1e+06', '1234567', '0.3333333333333333']"""
+	result = '%g' % weight
+	if float(result) != weight:
+		weight = float(weight)
+		result = '%d' % weight if weight.is_integer() else repr(weight)
+	return result
+
+
 def splitweight(weight):
 	"""Convert a weight / fraction in a string to a float / tuple.
 
@@ -1214,9 +1226,9 @@ def sumrules(iterable, n):
 		if rule != prev:
 			if prev is not None:
 				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
+					yield '%s\t%s\n' % (weightstr(w1 / n), rule)
 				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+					yield '%s\t%s\n' % (rule, weightstr(w1 / n))
 			prev = rule
 			w1 = 0.0
 		if match.group('RULE1') is None:
@@ -1226,9 +1238,9 @@ def sumrules(iterable, n):
 	if prev is None:
 		return
 	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
+		yield '%s\t%s\n' % (weightstr(w1 / n), rule)
 	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+		yield '%s\t%s\n' % (rule, weightstr(w1 / n))
 
 
 def sumlex(iterable, n):
@@ -1240,7 +1252,8 @@ def sumlex(iterable, n):
 		if word != prev:
 			if tags:
 				yield '%s\t%s\n' % (prev, '\t'.join(
-						'%s %g' % (a, w1 / n) for a, w1 in tags.items()))
+						'%s %s' % (a, weightstr(w1 / n))
+						for a, w1 in tags.items()))
 			prev = word
 			tags = {}
 		for tag, w2 in zip(rest[::2], rest[1::2]):
@@ -1249,7 +1262,7 @@ def sumlex(iterable, n):
 			tags[tag] += convertweight(w2)
 	if tags:
 		yield '%s\t%s\n' % (prev, '\t'.join(
-				'%s %g' % (a, w1 / n) for a, w1 in tags.items()))
+				'%s %s' % (a, weightstr(w1 / n)) for a, w1 in tags.items()))
 
 
 def sumfrags(iterable, n):
@@ -1260,12 +1273,12 @@ def sumfrags(iterable, n):
 		frag, w2 = line.rsplit('\t', 1)
 		if frag != prev:
 			if prev is not None:
-				yield '%s\t%g\n' % (prev, w1 / n)
+				yield '%s\t%s\n' % (prev, weightstr(w1 / n))
 			prev = frag
 			w1 = 0.0
 		w1 += convertweight(w2)
 	if prev is not None:
-		yield '%s\t%g\n' % (prev, w1 / n)
+		yield '%s\t%s\n' % (prev, weightstr(w1 / n))
 
 
 def merge(filenames, outfilename, sumfunc, key):
-- 
2.43.0


From 33b35125ac134132e334ecf27467d2d0007a34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 034/162] fix: probability of unary rules when generating
 sentences

Unary rules with probability 1 were given a lower probability, which was
visible in the reported probability of generated sentences.
---
 discodop/gen.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 403ec9e..3be0a68 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -185,8 +185,6 @@ def splitgrammar(rules):
 		else:
 			args, lengths = yfarray(yf)
 			assert yf == arraytoyf(args, lengths), "rule not binarized?"
-			if len(rule) == 2 and w == 1:
-				w -= 0.00000001
 			r = Rule(grammar.toid[rule[0]], grammar.toid[rule[1]],
 					grammar.toid[rule[2]] if len(rule) == 3 else 0, args,
 					lengths, w, n)
-- 
2.43.0


From 893ff872a192392c9b0cdbcbaab7c8dade3b29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 035/162] fix: 'discodop gen' reported products of frequencies
 as probabilities

Grammars written by writegrammar contain frequencies; convert these to relative
frequencies, as is done for bitpar grammars.
---
 discodop/gen.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 3be0a68..7e17213 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -97,7 +97,10 @@ def parsefrac(a):
 
 
 def read_lcfrs_grammar(rules, lexicon):
-	"""Read a grammar produced by grammar.writegrammar from two file objects."""
+	"""Read a grammar produced by grammar.writegrammar from two file objects.
+
+	Integer frequencies will be converted to exact relative frequencies;
+	otherwise weights are kept as-is."""
 	rules = (a.strip().split('\t') for a in rules)
 	grammar = [((tuple(a[:-2]), tuple(tuple(map(int, b))
 			for b in a[-2].split(","))), parsefrac(a[-1])) for a in rules]
@@ -105,6 +108,11 @@ def read_lcfrs_grammar(rules, lexicon):
 	grammar += [(((t, 'Epsilon'), (lexentry[0],)), parsefrac(p))
 			for lexentry in (a.strip().split() for a in lexicon)
 			for t, p in zip(lexentry[1::2], lexentry[2::2])]
+	if all(p == int(p) for _, p in grammar):
+		ntfd = defaultdict(int)
+		for (rule, _), p in grammar:
+			ntfd[rule[0]] += p
+		return [(rule, p / ntfd[rule[0][0]]) for rule, p in grammar]
 	return grammar
 
 
-- 
2.43.0


From 52c734cd47bc27624a3ca41cc8505bdec106e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 036/162] fix: 'discodop gen -s START' removed the name of the
 rules file

The option and its argument are removed separately, but two more arguments
were removed along with the option.
---
 discodop/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 7e17213..ad53963 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -257,7 +257,7 @@ def main():
 	if "-s" in sys.argv:
 		i = sys.argv.index("-s")
 		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
+		del sys.argv[i]
 	verbose = "--verbose" in sys.argv
 	if verbose:
 		sys.argv.remove('--verbose')
-- 
2.43.0


From cf0565f1d0d04b1dcc6506db09e405d31dfd4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 037/162] fix: merging grammars paired weights with the next
 rule

---
 discodop/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 23d2a48..baf43c2 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1226,9 +1226,9 @@ def sumrules(iterable, n):
 		if rule != prev:
 			if prev is not None:
 				if match.group('RULE1') is None:
-					yield '%s\t%s\n' % (weightstr(w1 / n), rule)
+					yield '%s\t%s\n' % (weightstr(w1 / n), prev)
 				else:
-					yield '%s\t%s\n' % (rule, weightstr(w1 / n))
+					yield '%s\t%s\n' % (prev, weightstr(w1 / n))
 			prev = rule
 			w1 = 0.0
 		if match.group('RULE1') is None:
-- 
2.43.0


From 02f6d21a449291ec4b2581836eca7e79bfad3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 038/162] fix: hexadecimal weights in 'discodop grammar info'

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index baf43c2..776f92f 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1165,7 +1165,7 @@ def grammarstats(filename):
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-		freq += float((match.group('FREQ1') or match.group('FREQ2')))
+		freq += convertweight(match.group('FREQ1') or match.group('FREQ2'))
 	if label is not None:
 		print('%s\t%d\t%g' % (label, cnt, freq))
 
-- 
2.43.0


From 21f6f484068a3e3672d554d401ceeefce1bdbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 039/162] fix: brackets in tokens were not restored by
 BracketCorpusReader

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index aaab58f..209d15f 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) or '' for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From 968aca7b364d2f6b450d00a1c2d2ffab5ccf5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 040/162] fix: function tags of coindexed labels such as
 NP-SBJ-1

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 209d15f..eebc5e1 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -237,7 +237,7 @@ class BracketCorpusReader(CorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		sent = [unescape(token) or '' for token in LEAVESRE.findall(block)]
@@ -288,7 +288,7 @@ class DiscBracketCorpusReader(BracketCorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		return Item(tree, sent, comment, block)
-- 
2.43.0


From 95749fc65bdbdbc351c796b252eb880e31fe273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 041/162] fix: comments in Alpino files were written where they
 are not read

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index eebc5e1..01527eb 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -862,10 +862,11 @@ def writealpinotree(tree, sent, key, commentstr):
 	addchildren(tree, sent, result, count())
 	sentence = ElementTree.SubElement(result, 'sentence')
 	sentence.text = ' '.join(sent)
-	comment = ElementTree.SubElement(result, 'comment')
+	comments = ElementTree.SubElement(result, 'comments')
+	comment = ElementTree.SubElement(comments, 'comment')
 	comment.text = ('%s|%s' % (key, commentstr)) if commentstr else str(key)
 	result.text = sentence.tail = '\n  '
-	result.tail = comment.tail = '\n'
+	result.tail = comments.tail = '\n'
 	return ElementTree.tostring(result).decode('utf8')  # hack
 
 
-- 
2.43.0


From 022e00f64a14398840c7a3e3b6879aab0c9bdaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 042/162] fix: functions of constituents listed after their
 parent in Tiger XML

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 01527eb..e80a53d 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -397,7 +397,9 @@ class TigerXMLCorpusReader(CorpusReader):
 				ntid = nt.get('id').split('_')[-1]
 				fields[WORD] = '#' + ntid
 				fields[TAG] = nt.get('cat')
-				fields[LEMMA] = fields[MORPH] = fields[FUNC] = '--'
+				fields[LEMMA] = fields[MORPH] = '--'
+				if fields[FUNC] is None:  # parent has not been seen yet
+					fields[FUNC] = '--'
 			for edge in nt:
 				idref = edge.get('idref')
 				nodes.setdefault(idref, 6 * [None])
-- 
2.43.0


From 2099a214096256f0c112efd4b23e9e1c161aa9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 043/162] fix: function tags applied to nodes for lemmas and
 morphology

---
 discodop/treebank.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index e80a53d..1b995b2 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -577,7 +577,7 @@ def exporttree(block, functions=None, morphology=None, lemmas=None):
 	for n, source in enumerate(table):
 		children[source[PARENT]].append((n, source))
 	tree = ParentedTree('ROOT', getchildren('0'))
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, '\n'.join(block) + '\n')
 
 
@@ -651,7 +651,7 @@ def alpinotree(block, functions=None, morphology=None, lemmas=None):
 	comment = xmlblock.find('comments/comment')  # NB: only use first comment
 	if comment is not None:
 		comment = comment.text
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, rawblock)
 
 
@@ -700,7 +700,7 @@ def ftbtree(block, functions=None, morphology=None, lemmas=None):
 	tree = getsubtree(xmlblock)
 	comment = ' '.join('%s=%r' % (a, xmlblock.get(a))
 			for a in ('nb', 'textid', 'argument', 'author', 'date'))
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, rawblock)
 
 
@@ -932,23 +932,34 @@ def deplen(deps):
 	return (sum(lengths), float(len(lengths)))
 
 
-def handlefunctions(action, tree, pos=True, root=False, morphology=None):
+def handlefunctions(action, tree, pos=True, root=False, morphology=None,
+		lemmas=None):
 	"""Add function tags to phrasal labels e.g., 'VP' => 'VP-HD'.
 
 	:param action: one of {None, 'add', 'replace', 'remove'}
 	:param pos: whether to add function tags to POS tags.
 	:param root: whether to add function tags to the root node.
-	:param morphology: if morphology='between', skip those nodes."""
+	:param morphology: if morphology='between', skip those nodes.
+	:param lemmas: idem."""
+	def height(node):
+		"""Length of path from node to its first terminal."""
+		result = 0
+		while isinstance(node, Tree):
+			node, result = node[0], result + 1
+		return result
+
 	if action in (None, 'leave'):
 		return
+	# number of nodes between each POS tag and terminal
+	skip = (morphology == 'between') + (lemmas == 'between')
 	for node in tree.subtrees():
-		if action == 'remove':
+		if skip and height(node) <= skip:
+			continue
+		elif action == 'remove':
 			for char in '-=':  # map NP-SUBJ and NP=2 to NP; don't touch -NONE-
 				x = node.label.find(char)
 				if x > 0:
 					node.label = node.label[:x]
-		elif morphology == 'between' and not isinstance(node[0], Tree):
-			continue
 		elif (not root or action == 'between') and node is tree:  # skip root
 			continue
 		elif pos or isinstance(node[0], Tree):
-- 
2.43.0


From c56d87df3fac8473ff0ca1f40dd4b507201d8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 044/162] fix: text before a bracketed tree on the same line
 was parsed as part of it

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 1b995b2..c405487 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1124,7 +1124,8 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					start = a
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From 26175633ec0dea510cd7c7b1260a243e0543722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 045/162] fix: spurious empty trees for header tables and stray
 #EOS in export format

---
 discodop/treebank.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index c405487..89a2cb1 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1214,9 +1214,12 @@ def segmentexport(morphology, functions, strict=False):
 		elif line.startswith('#EOS ') or line.startswith('#EOT '):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
-			cur.append(line)
-			item = exporttree(cur, functions, morphology)
-			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
+			res = None
+			if inblock == 1:
+				cur.append(line)
+				item = exporttree(cur, functions, morphology)
+				res = ((item.tree, item.sent, item.comment), )
+			line = (yield res, CONSUMED)
 			inblock = 0
 			cur = []
 		elif line:
-- 
2.43.0


From 50741bd932c8c5647e68fed382bc9f8c3fd5ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 046/162] fix: sentences lost when reading several bracket
 files or blank lines

---
 discodop/treebank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 89a2cb1..1bdcf5f 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -217,9 +217,12 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		sentids = count(1)
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for line in inp:
+					if line.strip():
+						yield next(sentids), line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From f66295a60c126e390e23220f32e652ef7524c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 047/162] fix: --outputenc option of treetransforms was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..d000ea3 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -345,7 +345,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From b339c2e2ba9eab80ebd81b03d6f55a41d9abd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 048/162] fix: --markovthreshold option of treetransforms was
 ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d000ea3..c397f4b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -332,7 +332,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From d598a724e553bfdd1aea9584dfbfbde504086906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 049/162] fix: malformed Alpino files were read as a copy of
 the previous tree

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 1bdcf5f..ab317cf 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -464,6 +464,7 @@ class AlpinoCorpusReader(CorpusReader):
 						filename,
 						rawblock.decode('utf8', errors='replace')),
 						file=sys.stderr)
+				raise
 			yield n, (rawblock, xmlblock)
 
 	def _parse(self, block):
@@ -496,6 +497,7 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 						print('Problem with %r:\n%s' % (
 								n, block.decode('utf8', errors='replace')),
 								file=sys.stderr)
+						raise
 					yield n, (block, xmlblock)
 
 
-- 
2.43.0


From 1f4ead1d15cf46065e47f5cdf8453bce1ae9d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 050/162] fix: drawing trees with words as leaves without
 giving a sentence

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 72d3e2d..abb67da 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1078,7 +1078,7 @@ class DrawTree(object):
 				self.tree = self.tree.copy(True)
 				self.sent = []
 				for a in self.tree.subtrees():
-					if a:
+					if not a:
 						a.append(len(self.sent))
 						self.sent.append(None)
 					elif any(not isinstance(b, Tree) for b in a):
-- 
2.43.0


From 0e7a702a67c1536bb8ccea7e6c6e20ecec0d6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 051/162] fix: drawing discontinuous trees without sentence
 labeled terminals with wrong indices

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index abb67da..1d5bac8 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -563,11 +563,11 @@ class Tree(object):
 
 	def draw(self):
 		""":returns: an ASCII art visualization of tree."""
-		return DrawTree(self, ['%d' % a for a in self.leaves()]).text()
+		return DrawTree(self).text()
 
 	def _repr_svg_(self):
 		"""Return a rich representation for IPython notebook."""
-		return DrawTree(self, ['%d' % a for a in self.leaves()]).svg()
+		return DrawTree(self).svg()
 
 
 class ImmutableTree(Tree):
@@ -1071,7 +1071,7 @@ class DrawTree(object):
 			leaves = self.tree.leaves()
 			if (leaves and all(self.tree.subtrees())
 					and all(isinstance(a, int) for a in leaves)):
-				self.sent = ['%d' % a for a in leaves]
+				self.sent = ['%d' % a for a in range(max(leaves) + 1)]
 			else:
 				# this deals with empty nodes (frontier non-terminals)
 				# and multiple/mixed terminals under non-terminals.
-- 
2.43.0


From ca0a4cccb502bcc5a9c4df423132b22d05950d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 052/162] fix: tikzqtree drawings showed indices instead of
 tokens

---
 discodop/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 1d5bac8..fde2e3f 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1770,7 +1770,10 @@ class DrawTree(object):
 		"""
 		reserved_chars = re.compile('([#$%&~_{}])')
 
-		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
+		pprint = INDEXRE.sub(
+				lambda x: '...' if self.sent[int(x.group())] is None
+				else self.sent[int(x.group())],
+				self.tree.pprint(indent=6, brackets=('[.', ' ]')))
 		escaped = re.sub(reserved_chars, r'\\\1', pprint)
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
-- 
2.43.0


From fd945ee0650b89daa195202e5228afe8fc396d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 053/162] fix: DrawTree.text with maxwidth=None raised an
 exception

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index fde2e3f..fcdb3eb 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1568,8 +1568,9 @@ class DrawTree(object):
 		maxchildcol = {}
 		childcols = defaultdict(set)
 		labels = {}
-		wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
-				maxwidth - 4, maxwidth, maxwidth))
+		if maxwidth:
+			wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
+					maxwidth - 4, maxwidth, maxwidth))
 		# collect labels and coordinates
 		for a in self.nodes:
 			row, column = self.coords[a]
-- 
2.43.0


From 4826d29da4767a8d3c42cb36e930c561dbc360b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 054/162] fix: labels such as -NONE- were drawn with a
 duplicate hyphen

---
 discodop/tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index fcdb3eb..31335e9 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1543,8 +1543,7 @@ class DrawTree(object):
 					newtext.append(cat)
 				else:
 					newtext.append('')
-				if func or (funcsep and line.endswith(funcsep)
-						and isinstance(node, Tree)):
+				if func or (func is not None and line.endswith(funcsep)):
 					if not seensep:
 						newtext[-1] += funcsep
 						seensep = True
-- 
2.43.0


From 52017e38c0cdcb6c4c4253fefe89e277a048e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 055/162] fix: highlighting nodes whose children are not in
 order of the sentence

---
 discodop/tree.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 31335e9..eac34de 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1189,6 +1189,15 @@ class DrawTree(object):
 				'%2d: %s' % (n, ' '.join(('%2r' % i)[:2] for i in row))
 				for n, row in enumerate(matrix))
 
+		def sortedtree(tree):
+			"""Return a copy with children ordered by their first terminal."""
+			tree = Tree.convert(tree)
+			if isinstance(tree, Tree):
+				for a in tree.subtrees():
+					a.children.sort(key=lambda n: min(n.leaves())
+							if isinstance(n, Tree) else n)
+			return tree
+
 		leaves = tree.leaves()
 		if not all(isinstance(n, int) for n in leaves):
 			raise ValueError('All leaves must be integer indices.')
@@ -1203,10 +1212,9 @@ class DrawTree(object):
 				raise ValueError(
 						'Non-terminals must dominate one or more leaves')
 		vertline, corner = -1, -2  # constants
-		tree = Tree.convert(tree)
-		for a in tree.subtrees():
-			a.children.sort(key=lambda n: min(n.leaves())
-					if isinstance(n, Tree) else n)
+		tree = sortedtree(tree)
+		highlight = [sortedtree(a) for a in highlight]
+		highlightfunc = [sortedtree(a) for a in highlightfunc]
 		scale = 2
 		crossed = set()
 		# internal nodes and lexical nodes (no frontiers)
-- 
2.43.0


From a528d2b1d410c7c5e7c1fc57166a9a6443e9cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 056/162] fix: order of words when drawing constituents with
 both words and constituents

---
 discodop/tree.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index eac34de..a7145e8 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1077,15 +1077,19 @@ class DrawTree(object):
 				# and multiple/mixed terminals under non-terminals.
 				self.tree = self.tree.copy(True)
 				self.sent = []
-				for a in self.tree.subtrees():
-					if not a:
+				agenda = [self.tree]
+				while agenda:  # visit nodes and words from left to right
+					a = agenda.pop()
+					if isinstance(a, tuple):
+						a, n = a
+						self.sent.append('%s' % a[n])
+						a[n] = len(self.sent) - 1
+					elif not a:
 						a.append(len(self.sent))
 						self.sent.append(None)
-					elif any(not isinstance(b, Tree) for b in a):
-						for n, b in enumerate(a):
-							if not isinstance(b, Tree):
-								a[n] = len(self.sent)
-								self.sent.append('%s' % b)
+					else:
+						agenda.extend(b if isinstance(b, Tree) else (a, n)
+								for n, b in reversed(list(enumerate(a))))
 		if abbr:
 			if self.tree is tree:
 				self.tree = self.tree.copy(True)
-- 
2.43.0


From c9be777cd4059762061ecbd2d58618d46076ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 057/162] fix: drawing a node in the column of another node of
 the same level

---
 discodop/tree.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index a7145e8..0568bd4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1176,11 +1176,11 @@ class DrawTree(object):
 					for n in range(scale):
 						i = j = center + n
 						while j > minidx or i < maxidx:
-							if i < maxidx and (matrix[rowidx][i] is None
-									or i in candidates):
+							if i < maxidx and (i in candidates or all(
+									a[i] is None for a in matrix[rowidx:])):
 								return rowidx, i
-							elif j > minidx and (matrix[rowidx][j] is None
-									or j in candidates):
+							elif j > minidx and (j in candidates or all(
+									a[j] is None for a in matrix[rowidx:])):
 								return rowidx, j
 							i += scale
 							j -= scale
@@ -1285,6 +1285,12 @@ class DrawTree(object):
 					matrix[rowidx][x] = corner
 				# assert m == () or matrix[rowidx][i] in (None, corner), (
 				# 		matrix[rowidx][i], m, str(tree), ' '.join(sent))
+				# rows of this level which were added before this node:
+				# the children are done, the line of this node passes through.
+				for row in matrix[rowidx + 1:]:
+					for _, x in childcols[m]:
+						row[x] = None
+					row[i] = vertline
 				# node itself
 				matrix[rowidx][i] = ids[m]
 				nodes[ids[m]] = tree[m]
-- 
2.43.0


From 4e3cb686c19ef4f94fb409d2bf1f92dc4ad8cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 058/162] fix: overlapping horizontal lines in drawings of
 discontinuous trees

---
 discodop/tree.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 0568bd4..4b2643e 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1170,8 +1170,10 @@ class DrawTree(object):
 				i = j = center
 				if len(children[m]) == 1:  # place unaries directly above child
 					return rowidx, next(iter(children[m]))[1]
-				elif all(a is None or a == vertline for a
-						in row[min(candidates):max(candidates) + 1]):
+				elif (all(a is None or a == vertline for a
+						in row[min(candidates):max(candidates) + 1])
+						and all(maxidx < a or b < minidx
+						for a, b in bars[rowidx])):
 					# find free column
 					for n in range(scale):
 						i = j = center + n
@@ -1225,6 +1227,7 @@ class DrawTree(object):
 		positions = tree.treepositions()
 		maxdepth = max(map(len, positions)) + 1
 		childcols = defaultdict(set)
+		bars = defaultdict(list)
 		matrix = [[None] * (len(sent) * scale)]
 		nodes = {}
 		ids = {a: n for n, a in enumerate(positions)}
@@ -1280,6 +1283,10 @@ class DrawTree(object):
 				rowidx, i = findcell(m, matrix, startoflevel, childcols)
 				positions.remove(m)
 
+				# the horizontal line from the first to the last child
+				bars[rowidx].append((
+						min(a for _, a in childcols[m]),
+						max(a for _, a in childcols[m])))
 				# block positions where children of this node branch out
 				for _, x in childcols[m]:
 					matrix[rowidx][x] = corner
-- 
2.43.0


From 612a5de884be77956b485f83e092ae9e1afa3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 059/162] fix: nodes without address counted twice in DOP
 reduction

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 776f92f..d77af5c 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -807,7 +807,8 @@ def nodefreq(tree, dectree, subtreefd, nonterminalfd):
 	>>> fd == Counter({'S': 4, 'NP': 1, 'VP': 1, 'NP@1-0': 1, 'VP@1-1': 1})
 	True"""
 	nonterminalfd[tree.label] += 1
-	nonterminalfd[dectree.label] += 1
+	if dectree.label != tree.label:
+		nonterminalfd[dectree.label] += 1
 	if isinstance(tree[0], Tree):
 		n = reduce(mul, (nodefreq(x, ux, subtreefd, nonterminalfd) + 1
 			for x, ux in zip(tree, dectree)))
-- 
2.43.0


From 9c43fbb7bca0b5d9e944f8b5a1f7019020ae203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 060/162] fix: identifiers of fragment grammars shared by
 different yield functions

---
 discodop/treetransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 717f067..1167b37 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -431,7 +431,7 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 				if markyf:
 					key += getyf(node[i], prev)
 				if ids is not None:
-					key = ids[key]
+					key = ids[prev.label, key]
 			elif factor == 'left' and (ids is None or i < len(node) - 2):
 				key = ','.join(labelfun(child)
 						for child in node[max(0, i - h + 1):i + 1]
@@ -439,7 +439,7 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 				if markyf:
 					key += getyf(prev, node[i])
 				if ids is not None:
-					key = ids[key]
+					key = ids[prev.label, key]
 			else:
 				key = next(ids)
 			newlabel = '%s%s<%s>' % (node.label, sep, key)
-- 
2.43.0


From 74a4d81a5a3067911c175df3a040186ff24c31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 061/162] fix: 'discodop grammar ptsg' with fragments in
 bracket format

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index c397f4b..526af8f 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -454,7 +454,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
-- 
2.43.0


From 2fc0699793b1cb706c1cf1aee06f88e0fa0ad101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 062/162] fix: frontier nodes when adding indices to fragments

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index d77af5c..d141539 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1294,7 +1294,8 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''),
+			frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From deb9015dfcdafed2e131c1a71849b1407628b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 063/162] fix: APPEND-MORPH transformation failed, and used
 another separator than its inverse

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..3f6c312 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,11 +153,11 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a.label += STATESPLIT + morph
+				a.label += '/' + morph
 		elif name == 'MORPH-NODE':  # insert node w/morph. features above POS
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
-- 
2.43.0


From b7dec229826edf9a1a6ac4eae007cca4fc184e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 064/162] fix: undoing MORPH-NODE replaced POS tags by
 morphological features; other annotation was lost

---
 discodop/treebanktransforms.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 3f6c312..367267c 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -158,7 +158,7 @@ def transform(tree, sent, transformations):
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
 				a.label += '/' + morph
-		elif name == 'MORPH-NODE':  # insert node w/morph. features above POS
+		elif name == 'MORPH-NODE':  # insert node w/morph. features below POS
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
@@ -1303,21 +1303,24 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n.label.startswith('-')
 					and not n.label.endswith('-')  # -LRB-
 					and n and isinstance(n[0], Tree))):
-				a.source = ['--'] * 6
+				if not a.source:
+					a.source = ['--'] * 6
 				a.source[FUNC] = a.label[1:]
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
-		elif name == 'MORPH-NODE':  # nodes with morph. above preterminals
+		elif name == 'MORPH-NODE':  # nodes with morph. below preterminals
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
-				a.source[MORPH] = a.label
-				a.source[TAG] = a.label = a[0].label
+				if not a.source:
+					a.source = ['--'] * 6
+				a.source[MORPH] = a[0].label
+				a.source[TAG] = a.label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
+				if not a.source:
+					a.source = ['--'] * 6
 				a.source[LEMMA] = unescape(a[0].label)
 				a.source[TAG] = a.label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
-- 
2.43.0


From bfa49c4b989b855313ad28f19d52bd9f4c609ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 065/162] fix: undefined name in PP-NP transformation

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 367267c..7b65643 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -249,7 +249,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in {'NP', 'PN'}):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From e8b8539fc63eca49f46512187e200bec9795502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 066/162] fix: undoing DP transformation dropped children after
 the NP

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 7b65643..8c44674 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1171,7 +1171,7 @@ def reversetransform(tree, sent, transformations):
 					# dp1 = dp[1][:]
 					# dp[1][:] = []
 					# dp[1:] = dp1
-					dp[1][:], dp[1:] = [], dp[1][:]
+					dp[1][:], dp[1:2] = [], dp[1][:]
 		elif name == 'NEST':  # flatten adjunctions
 			nkonly = {'PDAT', 'CAP', 'PPOSS', 'PPOSAT', 'ADJA', 'FM', 'PRF',
 					'NM', 'NN', 'NE', 'PIAT', 'PRELS', 'PN', 'TRUNC', 'CH',
-- 
2.43.0


From f5719f11e568c6e0243efd3706d506dfaa15cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 067/162] fix: VP-FIN_NEGRA transformation did not introduce a
 VP

---
 discodop/treebanktransforms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 8c44674..2340bf6 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -279,15 +279,18 @@ def negratransforms(name, tree, sent):
 				vp = [a for a in s if function(a) in addtovp]
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
-				if len(vp) != 1 or vp[0].label != 'VP':
-					s[:] = [a.detach() for a in s if function(a) not in addtovp
-							] + [a.detach() for a in vp]
+				if vp and (len(vp) != 1 or vp[0].label != 'VP'):
+					rest = [a for a in s if function(a) not in addtovp]
+					s[:] = []
+					s[:] = rest + [ParentedTree('VP', vp)]
 		toplevel_s = []
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
-				while function(s[0]) in newlevel:
-					s[:] = [s[0], ParentedTree('S', s[1:])]
+				while len(s) > 1 and function(s[0]) in newlevel:
+					children = s[1:]
+					s[1:] = []
+					s.append(ParentedTree('S', children))
 					s = s[1]
 					toplevel_s = [s]
 		elif 'CS' in labels(tree):
-- 
2.43.0


From 140f80b722c3ed567449216ba02664966b1af7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 068/162] fix: POS-PART transformation failed for
 ParentedTrees, and dropped nodes

---
 discodop/treebanktransforms.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 2340bf6..8e92c36 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -299,18 +299,21 @@ def negratransforms(name, tree, sent):
 		for a in toplevel_s:
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
-		for a in tree.subtrees(
-				lambda n: any(function(x) == 'SVP' for x in n)):
+		for a in list(tree.subtrees(
+				lambda n: any(isinstance(x, Tree) and function(x) == 'SVP'
+					for x in n))):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
-			if any(isinstance(x, Tree) and x.type == HEAD for x in a):
-				hd = [x for x in a
-						if isinstance(x, Tree) and x.type == HEAD].pop()
+			heads = [x for x in a if x is not svp and x.type == HEAD]
+			if heads:
+				hd = heads.pop()
 				if hd.label != a.label:
+					children = a[:]
+					a[:] = []
 					particleverb = ParentedTree(hd.label, [hd, svp])
-					a[:] = [particleverb if x.type == HEAD else x
-										for x in a if function(x) != 'SVP']
+					a[:] = [particleverb if x is hd else x
+							for x in children if x is not svp]
 	elif name == 'SBAR':  # introduce SBAR level
 		sbarfunc = 'CP'.split()
 		# in the annotation, complementizers belong to the first S
@@ -1224,12 +1227,12 @@ def reversetransform(tree, sent, transformations):
 					for x in m if isinstance(x, Tree)) for m in n
 					if isinstance(m, Tree))
 			for a in list(tree.subtrees(hasparticle)):
-				for n, b in enumerate(a):
+				for n, b in reversed(list(enumerate(a))):
 					if (len(b) == 2 and b.label.startswith('V')
 						and 'PTKVZ' in (c.label for c in b
 							if isinstance(c, Tree))
 						and any(c.label == b.label for c in b)):
-						a[n:n + 1] = b[:]
+						b[:], a[n:n + 1] = [], b[:]
 		elif name == 'addUnary':
 			# remove phrasal projections for single tokens
 			# e.g. S => NP => NN becomes S => NN
-- 
2.43.0


From 245fba842739dc6a9f45402572c4501071e6b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 069/162] fix: SBAR transformation and its inverse failed for
 ParentedTrees

---
 discodop/treebanktransforms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 8e92c36..28f1879 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -322,7 +322,9 @@ def negratransforms(name, tree, sent):
 		for s in list(tree.subtrees(lambda n: n.label == 'S'
 				and function(n[0]) in sbarfunc and len(n) > 1)):
 			s.label = 'SBAR'
-			s[:] = [s[0], ParentedTree('S', s[1:])]
+			children = s[1:]
+			s[1:] = []
+			s.append(ParentedTree('S', children))
 	elif name == 'NEST':  # introduce nested structures for modifiers
 		# (iterated adjunction instead of sister adjunction)
 		adjunctable = {'NP'}  # PP AP VP
@@ -1197,14 +1199,14 @@ def reversetransform(tree, sent, transformations):
 					pp.children.sort(key=lambda n: n.label == 'NP')
 					pp[-1][:], pp[-1:] = [], pp[-1][:]
 		elif name == 'SBAR':  # merge extra S level
-			for sbar in list(tree.subtrees(lambda n: n.label == 'SBAR'
+			for sbar in list(tree.postorder(lambda n: n.label == 'SBAR'
 					or (n.label == 'S' and len(n) == 2
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
-				if sbar[0].label == 'S':
-					sbar[:] = sbar[1:] + sbar[0][:]
-				else:
-					sbar[:] = sbar[:1] + sbar[1][:]
+				s = sbar.pop(0 if sbar[0].label == 'S' else 1)
+				children = s[:]
+				s[:] = []
+				sbar.extend(children)
 		elif name == 'VP-FIN_NEGRA':
 			def mergevp(s):
 				"""Merge finite VP with S level."""
-- 
2.43.0


From 788b3ad2d892bd6c8ab1f063e02930289d30059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 070/162] fix: NEST transformation and its inverse failed for
 ParentedTrees

---
 discodop/treebanktransforms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 28f1879..daefdb0 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -333,10 +333,11 @@ def negratransforms(name, tree, sent):
 			modifiers = [x for x in a if function(x) == 'MO']
 			if min(n for n, x in enumerate(a) if function(x) == 'MO') == 0:
 				modifiers[:] = modifiers[::-1]
-			while modifiers:
+			while modifiers and len(a) > 1:
 				modifier = modifiers.pop()
-				a[:] = [ParentedTree(a.label,
-						[x for x in a if x != modifier]), modifier]
+				children = [x for x in a if x is not modifier]
+				a[:] = []
+				a[:] = [ParentedTree(a.label, children), modifier]
 				a = a[0]
 	# The following transformations as described in Fraser et al (CL, 2013)
 	# http://aclweb.org/anthology/J13-1005
@@ -1186,12 +1187,12 @@ def reversetransform(tree, sent, transformations):
 					'CNP', 'PWAT', 'PDS', 'VP', 'CS', 'CARD', 'ART', 'PWS',
 					'PPER'}
 			probably_nk = {'AP', 'PIS'} | nkonly
-			for n in tree.subtrees():
+			for n in list(tree.postorder()):
 				if (len(n) == 2 and n.label == 'NP'
 						and [x.label for x in n].count('NP') == 1
 						and not set(labels(n)) & probably_nk):
 					n.children.sort(key=lambda n: n.label == 'NP')
-					n[:] = n[:1] + n[1][:]
+					n[1][:], n[1:] = [], n[1][:]
 		elif name == 'PP-NP':  # flatten PPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'):
 				if 'NP' in labels(pp) and 'NN' not in labels(pp):
-- 
2.43.0


From 01972b2882660fe8fb7929dd29dffb310e2bfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 071/162] fix: right sibling's function in
 relational-realizational transform; default arguments

---
 discodop/treebanktransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index daefdb0..55343fb 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1459,6 +1459,8 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 			return preterminal, morph, morphlevels
 		return preterminal, None, 0
 	# for each node, collect the functions of closest non-adjunctive sibling
+	ignorefunctions = ignorefunctions or ()
+	ignorecategories = ignorecategories or ()
 	childfuncsl = (prevfunc, ) = ['']
 	for child in tree:
 		if (isinstance(child, Tree) and child.source[FUNC]
@@ -1474,7 +1476,7 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				and child.source[FUNC] not in ignorefunctions
 				and child.label not in ignorecategories):
 			nextfunc = child.source[FUNC]
-		childfuncsr.insert(0, prevfunc)
+		childfuncsr.insert(0, nextfunc)
 	funcstr = ','.join(sorted(child.source[FUNC] for child in tree
 			if isinstance(child, Tree) and child.source[FUNC]
 					and child.source[FUNC] != adjunctionlabel
-- 
2.43.0


From 4d7990e774cec368860d193f178bf0f4ea597e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 072/162] fix: undoing addUnary, nladdunary kept only the first
 function

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 55343fb..bf97744 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1246,7 +1246,7 @@ def reversetransform(tree, sent, transformations):
 							and strip(child[0].label) in {'NN', 'PPER', 'PDS',
 								'PIS', 'PRELS', 'CARD', 'PN'}):
 						child.label = child[0].label
-						origfunc = function(child)
+						origfunc = '-'.join(functions(child))
 						child.source = child[0].source
 						if child.source:
 							child.source[FUNC] = origfunc or '--'
@@ -1276,7 +1276,7 @@ def reversetransform(tree, sent, transformations):
 							and base(child, 'NP')
 							and strip(child[0].label) in {'n', 'vnw'}):
 						child.label = child[0].label
-						origfunc = function(child)
+						origfunc = '-'.join(functions(child))
 						child.source = child[0].source
 						if child.source:
 							child.source[FUNC] = origfunc or '--'
-- 
2.43.0


From ecbcc8b72a7e62659d0b492b1cc6c1f18f091aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 073/162] fix: eval: leaf-ancestor and tree-distance totals
 were NaN after a sentence with only deleted tokens

---
 discodop/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..b2c9d9c 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -565,9 +565,9 @@ class EvalAccumulator(object):
 		self.candpos.extend(pair.cpos)
 		self.goldfun.update((pair.n, a) for a in pair.goldfun.elements())
 		self.candfun.update((pair.n, a) for a in pair.candfun.elements())
-		if pair.lascore is not None:
+		if not pair.lascore.is_nan():
 			self.lascores.append(pair.lascore)
-		if pair.ted is not None:
+		if not Decimal(pair.denom).is_nan():
 			self.dicenoms += pair.ted
 			self.dicedenoms += pair.denom
 		if pair.gdep is not None:
-- 
2.43.0


From 7acb86e50827212897e2d8d97c40b58b6d1498ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 074/162] fix: eval: align candidate and gold tokens modulo
 EQ_WORD, and apply DELETE_ROOT_PRETERMS to the aligned tokens

---
 discodop/eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index b2c9d9c..ba72af2 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -351,9 +351,14 @@ class TreePairResult(object):
 		grootpos = {child[0] for child in gtree
 				if child and isinstance(child[0], int)}
 		# massage the data (in-place modifications)
+		eqword = self.param['EQ_WORD']
+		align = alignsent([eqword.get(a, a) for a in self.csent],
+				[eqword.get(a, a) for a in self.gsent],
+				{n: n for n in range(len(self.gsent))})
+		gtags = dict(self.gpos)
 		self.ctree = transform(ctree, self.csent, self.cpos,
-				alignsent(self.csent, self.gsent, dict(self.gpos)),
-				self.param, grootpos)
+				{n: gtags[m] for n, m in align.items()},
+				self.param, {n for n, m in align.items() if m in grootpos})
 		self.gtree = transform(gtree, self.gsent, self.gpos,
 				dict(self.gpos), self.param, grootpos)
 		if len(self.csent) != len(self.gsent):
-- 
2.43.0


From d08c49e5d39a0a67545e41759030e48abd032a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 075/162] fix: eval: count repeated brackets in the reported
 numbers of brackets, as in precision and recall

---
 discodop/eval.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index ba72af2..8e76de2 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -152,7 +152,7 @@ class Evaluator(object):
 			else:
 				print('%s  %6.2f  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / len(acc.goldb),
+					100 * sum(acc.goldbcat[cat].values()) / sum(acc.goldb.values()),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
@@ -188,7 +188,7 @@ class Evaluator(object):
 				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
 					nozerodiv(lambda: sum(acc.goldbfunc[cat].values())
-							/ len(acc.goldfun)),
+							/ sum(acc.goldfun.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbfunc[cat], acc.candbfunc[cat])),
 					nozerodiv(lambda: precision(
@@ -250,12 +250,12 @@ class Evaluator(object):
 				'longest sentence:          %6d' % (acc.maxlenseen)]
 			if gdiscbrackets or discbrackets:
 				msg.extend(['gold brackets (disc.):     %6d (%d)' % (
-							len(acc.goldb), gdiscbrackets),
+							sum(acc.goldb.values()), gdiscbrackets),
 						'cand. brackets (disc.):    %6d (%d)' % (
-							len(acc.candb), discbrackets)])
+							sum(acc.candb.values()), discbrackets)])
 			else:
-				msg.extend(['gold brackets:             %6d' % len(acc.goldb),
-					'cand. brackets:            %6d' % len(acc.candb)])
+				msg.extend(['gold brackets:             %6d' % sum(acc.goldb.values()),
+					'cand. brackets:            %6d' % sum(acc.candb.values())])
 			msg.extend([
 					'labeled recall:            %s' % (
 						nozerodiv(lambda: recall(acc.goldb, acc.candb))),
@@ -292,9 +292,9 @@ class Evaluator(object):
 			'longest sentence:          %6d     %6d' % (
 					acc40.maxlenseen, acc.maxlenseen),
 			'gold brackets:             %6d     %6d' % (
-					len(acc40.goldb), len(acc.goldb)),
+					sum(acc40.goldb.values()), sum(acc.goldb.values())),
 			'cand. brackets:            %6d     %6d' % (
-					len(acc40.candb), len(acc.candb))]
+					sum(acc40.candb.values()), sum(acc.candb.values()))]
 		if gdiscbrackets or discbrackets:
 			msg.extend(['disc. gold brackets:       %6d     %6d' % (
 					gdiscbrackets40, gdiscbrackets),
-- 
2.43.0


From b0a20216b3321276f48d354062f4b1952d533e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 076/162] fix: eval: different discontinuous trees may have
 identical lineages; do not abort

---
 discodop/eval.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 8e76de2..116e368 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -401,8 +401,6 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			self.cdep = dependencies(self.ctree)
 			self.gdep = dependencies(self.gtree)
-		assert self.lascore != 1 or self.gbrack == self.cbrack, (
-				'leaf ancestor score 1.0 but no exact match: (bug?)')
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
-- 
2.43.0


From 483e79531085f9d20779978c08bbc72f3e5caaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 077/162] fix: eval: DISC_ONLY of the parameter file was
 ignored by the command line tool

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 116e368..aeb9b72 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -624,7 +624,7 @@ def main():
 	parsesfile = args[1]
 	param = readparam(args[2] if len(args) == 3 else None)
 	param['CUTOFF_LEN'] = int(opts.get('--cutofflen', param['CUTOFF_LEN']))
-	param['DISC_ONLY'] = '--disconly' in opts
+	param['DISC_ONLY'] |= '--disconly' in opts
 	param['DEBUG'] = max(param['DEBUG'],
 			'--verbose' in opts, 2 * ('--debug' in opts))
 	param['TED'] |= '--ted' in opts
-- 
2.43.0


From 3d941273840146a3008b6dd2b7ee7dc28088874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 078/162] fix: eval: do not compare function labels in
 unlabeled dependency accuracy

---
 discodop/eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index aeb9b72..f0f96e5 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -399,8 +399,8 @@ class TreePairResult(object):
 			self.ted, self.denom = treedisteval(self.gtree, self.ctree,
 				includeroot=self.gtree.label not in self.param['DELETE_LABEL'])
 		if self.param['DEP']:
-			self.cdep = dependencies(self.ctree)
-			self.gdep = dependencies(self.gtree)
+			self.cdep = [(a, b) for a, _, b in dependencies(self.ctree)]
+			self.gdep = [(a, b) for a, _, b in dependencies(self.gtree)]
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
@@ -478,7 +478,7 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			print('Sentence:', ' '.join(self.gsent))
 			print('dependencies gold', ' ' * 35, 'cand')
-			for (a, _, b), (c, _, d) in zip(self.gdep, self.cdep):
+			for (a, b), (c, d) in zip(self.gdep, self.cdep):
 				# use original sentences because we don't delete
 				# punctuation for dependency evaluation
 				print('%15s -> %15s           %15s -> %15s' % (
-- 
2.43.0


From be76f6a660ff2e1447098fe28406c4e673e6ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 079/162] fix: eval: leaf-ancestor and tree-distance scores of
 individual sentences

---
 discodop/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index f0f96e5..caecca2 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -427,9 +427,9 @@ class TreePairResult(object):
 				nozerodiv(lambda: accuracy(self.gpos, self.cpos)),
 				nozerodiv(lambda: f_measure(self.goldfun, self.candfun))
 						if self.candfun else '',
-				nozerodiv(lambda: 100 * self.lascore)
+				nozerodiv(lambda: self.lascore)
 						if self.param['LA'] else '',
-				nozerodiv(lambda: self.ted) if self.param['TED'] else '',
+				nozerodiv(lambda: 1 - self.ted / self.denom) if self.param['TED'] else '',
 				nozerodiv(lambda: accuracy(self.gdep, self.cdep))
 						if self.param['DEP'] else ''))
 
-- 
2.43.0


From 94e89f8de4a724babf7086b432994d2de1bc91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 080/162] fix: eval: category breakdown crashed when there are
 no gold brackets

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index caecca2..2e031c7 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -150,9 +150,10 @@ class Evaluator(object):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
-				print('%s  %6.2f  %s  %s  %s' % (
+				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / sum(acc.goldb.values()),
+					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
+							/ sum(acc.goldb.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
-- 
2.43.0


From 453f3324ac14aac42f412183621fbf67092753fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 081/162] fix: eval: DEBUG -1 (only print summary) of the
 parameter file was ignored

---
 discodop/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 2e031c7..e9cf601 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -626,8 +626,8 @@ def main():
 	param = readparam(args[2] if len(args) == 3 else None)
 	param['CUTOFF_LEN'] = int(opts.get('--cutofflen', param['CUTOFF_LEN']))
 	param['DISC_ONLY'] |= '--disconly' in opts
-	param['DEBUG'] = max(param['DEBUG'],
-			'--verbose' in opts, 2 * ('--debug' in opts))
+	if '--verbose' in opts or '--debug' in opts:
+		param['DEBUG'] = max(param['DEBUG'], 1 + ('--debug' in opts))
 	param['TED'] |= '--ted' in opts
 	param['LA'] |= '--la' in opts
 	param['DEP'] = '--headrules' in opts
-- 
2.43.0


From 8f6f3b15868b76b17bead5aedb62b920011f8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 082/162] fix: pcfg: unary rules of dense chart were not
 applied in order of probability, giving duplicate edges

---
 discodop/pcfg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..6c02a1c 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -748,7 +748,7 @@ cdef inline void applyunaryrules(
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
 		unaryagenda.setifbetter(
-				chart._label(item), (<Chart>chart).subtreeprob(itemidx))
+				chart._label(item), chart._subtreeprob(item))
 	# 	unaryentry.first = chart._label(item)
 	# 	unaryentry.second = chart._subtreeprob(item)
 	# 	unaryentries.push_back(unaryentry)
-- 
2.43.0


From ded2a5c27d39b47ef1ca456521a6471e0492d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 083/162] fix: pcfg: itemid of sparse chart did not return the
 number of the item

---
 discodop/pcfg.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 6c02a1c..703ed58 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -373,9 +373,11 @@ cdef class SparseCFGChart(CFGChart):
 		cdef short right = max(indices) + 1
 		item = cellstruct(left, right) + labelid
 		if whitelist is not None:
-			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
-					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.itemindex.find(item) != self.itemindex.end() and item
+			if whitelist.cfg[cellidx(left, right, self.lensent, 1)
+					].count(whitelist.mapping[labelid]) == 0:
+				return 0
+		it = self.itemindex.find(item)
+		return 0 if it == self.itemindex.end() else dereference(it).second
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
-- 
2.43.0


From 7218a80083209cf42f50df198e4663e694ede507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 084/162] fix: pcfg: left items of binary edges were taken from
 another cell when a cell is empty

---
 discodop/pcfg.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 703ed58..389cbf7 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -573,9 +573,11 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				while leftitemidx < chart.items.size():
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -602,8 +604,6 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-- 
2.43.0


From 85f576bb12c112601f3d7d137554b8fab08b8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 085/162] fix: pcfg, plcfrs: number of items of an empty chart
 was not zero

---
 discodop/pcfg.pyx   | 1 +
 discodop/plcfrs.pyx | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 389cbf7..8594e64 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -247,6 +247,7 @@ cdef class SparseCFGChart(CFGChart):
 		self.items.push_back(sentinel)
 		self.itemindex[sentinel] = 0
 		self.probs.push_back(INFINITY)
+		self.parseforest.resize(1)
 
 	def root(self):
 		return self.itemindex[cellstruct(0, self.lensent) + self.start]
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..e9662c7 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -69,6 +69,7 @@ cdef class SmallLCFRSChart(LCFRSChart):
 		self.items.push_back(tmp)
 		self.itemindex[tmp] = 0
 		self.probs.push_back(INFINITY)
+		self.parseforest.resize(1)
 
 	cdef void addedge(self, ItemNo itemidx, ItemNo leftitemidx,
 			SmallChartItem& left, ProbRule *rule):
@@ -188,6 +189,7 @@ cdef class FatLCFRSChart(LCFRSChart):
 		self.items.push_back(tmp)  # sentinel
 		self.itemindex[tmp] = 0  # sentinel
 		self.probs.push_back(INFINITY)
+		self.parseforest.resize(1)
 
 	cdef void addedge(self, ItemNo itemidx, ItemNo leftitemidx,
 			FatChartItem& left, ProbRule *rule):
-- 
2.43.0


From de984abadce0f9b41d273f0165e47fc1fe0096f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 086/162] fix: plcfrs: iterator was advanced past the end

---
 discodop/plcfrs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index e9662c7..af791ae 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -485,7 +485,6 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 					preincrement(itemidxit)
 				for sibidx in sibvec:
 					sib = chart.items[sibidx]
-					preincrement(itemidxit)
 					if concat[LCFRSItem_fused](rule, &sib, &item):
 						newitem.label = rule.lhs
 						combine_item[LCFRSItem_fused](&newitem, &sib, &item)
-- 
2.43.0


From a5790748d5ad99fc60b90e89e448ab8ce191ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 087/162] fix: kbest: derivations of different items with the
 same rule and split were confused

---
 discodop/kbest.pxd |  1 +
 discodop/kbest.pyx | 16 ++++++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/discodop/kbest.pxd b/discodop/kbest.pxd
index 4546020..d2a5b02 100644
--- a/discodop/kbest.pxd
+++ b/discodop/kbest.pxd
@@ -9,6 +9,7 @@ from .pcfg cimport CFGChart, DenseCFGChart, SparseCFGChart
 from .plcfrs cimport LCFRSChart, SmallLCFRSChart, FatLCFRSChart
 
 ctypedef sparse_hash_map[ItemNo, RankedEdgeAgenda[Prob]] agendas_type
+ctypedef sparse_hash_map[ItemNo, RankedEdgeSet] explored_type
 
 cdef string getderiv(ItemNo v, RankedEdge ej, Chart chart)
 cdef collectitems(ItemNo v, RankedEdge& ej, Chart chart, itemset)
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 038c9da..ac96332 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -53,12 +53,12 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-		RankedEdgeSet& explored, int depthlimit):
+		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
 
 	:param k1: the global k, with ``k <= k1``
 	:param cand: contains a queue of edges to consider for each vertex
-	:param explored: a set of all edges already visited."""
+	:param explored: for each vertex, a set of the edges already visited."""
 	cdef pair[RankedEdge, Prob] entry
 	cdef RankedEdge ej, ej1
 	cdef int ji
@@ -95,11 +95,11 @@ cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 					# if it exists and is not in heap yet
 					if (chart.rankededges[ei].size() != 0
 							and ji < <int>chart.rankededges[ei].size()
-							and explored.count(ej1) == 0):
+							and explored[v].count(ej1) == 0):
 						# 	and cand[v]): gives duplicates
 						# add it to the heap
 						cand[v].setitem(ej1, getprob(chart, v, ej1))
-						explored.insert(ej1)
+						explored[v].insert(ej1)
 			# end of lazynext
 		if cand[v].empty():
 			break
@@ -135,7 +135,7 @@ cdef inline Prob getprob(Chart chart, ItemNo v, RankedEdge& ej) except -1:
 
 
 cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
-		RankedEdgeSet& explored, int depthlimit) except -2:
+		explored_type& explored, int depthlimit) except -2:
 	"""Traverse derivation to ensure all 1-best RankedEdges are present.
 
 	:returns: True when ``ej`` is a valid, complete derivation."""
@@ -155,7 +155,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[leftitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[leftitem].insert(entry.first)
 		if not explorederivation(leftitem,
 				chart.rankededges[leftitem][ej.left].first,
 				chart, explored, depthlimit - 1):
@@ -170,7 +170,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[rightitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[rightitem].insert(entry.first)
 		return explorederivation(rightitem,
 				chart.rankededges[rightitem][ej.right].first,
 				chart, explored, depthlimit - 1)
@@ -271,7 +271,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 
 	:param k: the number of derivations to enumerate."""
 	cdef agendas_type cand
-	cdef RankedEdgeSet explored
+	cdef explored_type explored
 	cdef pair[RankedEdge, Prob] entry
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
-- 
2.43.0


From 82cc1bc6ce739c7105c6eeca000dd6079ac8136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 088/162] fix: no lexical rule was found for words matched in
 lower case

---
 discodop/containers.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..eb44f95 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -124,6 +124,10 @@ cdef class Chart:
 		cdef Label label = self.label(itemidx)
 		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
+		if it == self.grammar.lexicalbyword.end():
+			# cf. populatepos()
+			it = self.grammar.lexicalbyword.find(
+					self.sent[self.lexidx(edge)].lower().encode('utf8'))
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
 		# do binary search among rules for word for rule with given lhs
-- 
2.43.0


From ceb598a6835e6bac93338698a0c2427bdf91bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 089/162] fix: kbest: lexical edge got the probability of a
 better unary edge

---
 discodop/kbest.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index ac96332..3829fc1 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -32,8 +32,14 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 	for e in chart.parseforest[v]:
 		if e.rule is NULL:
 			# there can only be one lexical edge for this combination of
-			# POS tag and terminal, use viterbi probability directly
+			# POS tag and terminal, use viterbi probability directly,
+			# unless it may be due to a unary rule.
 			prob = chart.subtreeprob(v)
+			if chart.parseforest[v].size() > 1:
+				try:
+					prob = chart.grammar.lexical[chart.lexruleno(v, e)].prob
+				except ValueError:
+					pass
 			left = right = -1
 		else:
 			left = right = 0
-- 
2.43.0


From 2a09deee94c641417d270c8dffc6fe53940ca7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 090/162] fix: plcfrs: probability of POS tag ignored better
 unary derivation

---
 discodop/plcfrs.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index af791ae..ffae211 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -740,9 +740,10 @@ cdef populatepos(Grammar grammar,
 								lexrule.lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
-					# NB: do NOT add length of span to score, so that the
-					# scores of POS tags are all strictly smaller than any
-					# unaries on them.
+					else:
+						# same score as for other items of this length;
+						# a unary rule may give a better probability.
+						score += length * MAX_LOGPROB
 					newitem.label = lexrule.lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
@@ -776,6 +777,8 @@ cdef populatepos(Grammar grammar,
 						memset(<void *>newitem.vec, 0, SLOTS * sizeof(uint64_t))
 						SETBIT(newitem.vec, wordidx)
 					score = lexrule.prob - pylog(openclassfactor)
+					if estimatetype != SX and estimatetype != SXlrgaps:
+						score += length * MAX_LOGPROB
 					# process_lexedge checks that tag is not already in agenda
 					if process_lexedge[LCFRSItem_fused, LCFRSChart_fused](
 							newitem, lexrule.prob - pylog(openclassfactor),
-- 
2.43.0


From 9b79dda1c14b61ba2fc116c66cb54dd0f8046504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 091/162] fix: agenda of parser: stale entries were popped when
 the agenda was re-used

---
 discodop/_containers.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discodop/_containers.h b/discodop/_containers.h
index 689b0cd..f3df564 100644
--- a/discodop/_containers.h
+++ b/discodop/_containers.h
@@ -127,12 +127,8 @@ public:
 	bool empty() { return map.empty(); }
 	size_t size() { return map.size(); }
 	void setitem(Key k, Value v) {
-		// NB: unconditional set, three situations:
-		// 1. the priority is better; better item will pop from heap first
-		// 2. priority is equal: heap will have a duplicate, but map only
-		//             has one, so other one is ignored.
-		// 3. priority is worse: the better one will pop from heap first,
-		//             so this item will be ignored.
+		// NB: unconditional set; other heap entries with this key will be
+		// ignored because map does not have their priority.
 		entry_type entry(k, v, ++counter);
 		map[k] = entry;
 		heap.push(entry);
@@ -158,11 +154,11 @@ public:
 		}
 		typename map_type::iterator it;
 		entry_type entry = heap.top();
-		// skip entries which are no longer in the map; (could verify that
-		// priority matches w/map, but heap gives us the best priority so we
-		// are not interested in other priorities for this key)
+		// skip entries which are no longer in the map, or for which the
+		// priority does not match the map; the latter may be left over from
+		// an earlier use of this agenda.
 		while (it = map.find(entry.key), it == map.end()
-				// || it->second.value != entry.value
+				|| it->second.value != entry.value
 				) {
 			heap.pop();
 			if (heap.empty()) {
-- 
2.43.0


From d629d8a772b5eac4966229db19a9998cb6f22173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 092/162] fix: chart.lexprob: wrong probability when grammar
 does not have log probabilities

---
 discodop/containers.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index eb44f95..d0cc967 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -145,10 +145,8 @@ cdef class Chart:
 	cdef Prob lexprob(self, ItemNo itemidx, Edge edge) except -1:
 		"""Return lexical probability given a lexical edge."""
 		cdef int ruleno = self.lexruleno(itemidx, edge)
-		if ruleno >= 0:
-			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.logprob else prob
-		return 0 if self.logprob else 1
+		prob = self.grammar.lexical[ruleno].prob
+		return exp(-prob) if self.grammar.logprob else prob
 
 	def numitems(self):
 		"""Number of items in chart."""
-- 
2.43.0


From 3b040180859f900ab053f59d30d19977ed0581d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 093/162] fix: inside and outside probabilities: items were not
 visited bottom-up

---
 discodop/coarsetofine.pyx | 59 +++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index a4205e6..0cc5526 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -211,33 +211,60 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
+cdef vector[ItemNo] bottomup(Chart chart):
+	"""List items of chart such that children of edges precede parents.
+
+	The order in which items were added to the chart cannot be used for this;
+	e.g., an item may get a new edge after its parents have been added.
+	Sorting items by length is not enough either, because of unaries."""
+	cdef vector[ItemNo] result, agenda
+	cdef vector[bint] seen, done
+	cdef ItemNo n, item, child
+	cdef Edge edge
+	seen.resize(chart.parseforest.size(), False)
+	done.resize(chart.parseforest.size(), False)
+	for n in range(1, chart.numitems() + 1):
+		agenda.push_back(chart.getitemidx(n))
+		while not agenda.empty():
+			item = agenda.back()
+			if seen[item]:
+				agenda.pop_back()
+				if not done[item]:
+					done[item] = True
+					result.push_back(item)
+				continue
+			seen[item] = True
+			for edge in chart.parseforest[item]:
+				if edge.rule is NULL:
+					continue
+				child = chart._left(item, edge)
+				if not seen[child]:
+					agenda.push_back(child)
+				if edge.rule.rhs2:
+					child = chart._right(item, edge)
+					if not seen[child]:
+						agenda.push_back(child)
+	return result
+
+
 def getinside(Chart chart):
 	"""Compute inside probabilities for a chart given its parse forest."""
-	# this needs to be bottom up, so need order in which items were added
-	# currently separate list, chart.itemsinorder
-	# NB: sorting items by length is not enough,
-	# unaries have to be in the right order...
-
 	# choices for probs:
 	# - normal => underflow (current)
 	# - logprobs => loss of precision w/addition
 	# - normal, scaled => how?
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double prob
 	chart.inside.resize(chart.probs.size(), 0.0)
 
-	# traverse items in bottom-up order
-	for n in range(1, chart.numitems() + 1):
-		item = chart.getitemidx(n)
+	for item in bottomup(chart):
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
 				try:
 					prob = chart.lexprob(item, edge)
 				except ValueError:
 					# fall back to Viterbi score from chart
-					# if there is a single incoming edge this is correct
-					assert chart.parseforest[item].size() == 1
 					if chart.logprob:
 						prob = exp(-chart.probs[item])
 					else:
@@ -258,15 +285,17 @@ def getinside(Chart chart):
 
 def getoutside(Chart chart):
 	"""Compute outside probabilities for a chart given its parse forest."""
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
 	# cdef double sentprob = chart.inside[chart.root()]
-	# traverse items in top-down order
+	cdef vector[ItemNo] order = bottomup(chart)
 	chart.outside.resize(chart.probs.size(), 0.0)
 	chart.outside[chart.root()] = 1.0
-	for n in range(chart.numitems(), 0, -1):
-		item = chart.getitemidx(n)
+	# traverse items in top-down order
+	while not order.empty():
+		item = order.back()
+		order.pop_back()
 		# can we define outside[item] simply as sentprob - inside[item] ?
 		# chart.outside[item] = sentprob - chart.inside[item]
 		for edge in chart.parseforest[item]:
-- 
2.43.0


From 7337bd18036cc72c8d9aac1595f3aabee7a92636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 094/162] fix: coarse-to-fine: splitprune without markorigin
 allowed every labeled item

The test for labels that should never be pruned was inverted, and the label to
look up was taken from splitmapping, which is only set with markorigin.
---
 discodop/plcfrs.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index ffae211..723c502 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -894,14 +894,12 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 			if whitelist.splitmapping[newitem.label].size() == 0:
 				return True
 		else:
-			if whitelist.mapping[newitem.label] != 0:
+			if whitelist.mapping[newitem.label] == 0:
 				return True
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
-- 
2.43.0


From 818d3dcba931d6ef44ad5b94fcf2bfb1b0b58f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 095/162] fix: grammar text: lines with too few fields were
 read out of bounds

The number of fields was only checked after using them.
---
 discodop/_grammar.pxi | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..299282e 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -409,8 +409,11 @@ cdef class Grammar:
 			buf = readfields(buf, fields)
 			if buf is NULL:
 				break
-			elif fields.size() == 0:
+			elif fields.size() == 1 and fields[0].empty():
 				continue
+			elif fields.size() < (3 if self.bitpar else 4):
+				raise ValueError('Not enough nonterminals:\n%r'
+						% prev[:buf - prev].decode('utf8'))
 			if self.bitpar:
 				weight = fields[0]
 				fields.erase(fields.begin())
@@ -510,9 +513,6 @@ cdef class Grammar:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
 						% prev[:buf - prev].decode('utf8'))
-			elif rule.size() < 2:
-				raise ValueError('Not enough nonterminals:\n%r'
-						% prev[:buf - prev].decode('utf8'))
 			else:
 				raise ValueError('Grammar not binarized:\n%r\n%r'
 						% (list(rule), prev[:buf - prev].decode('utf8')))
-- 
2.43.0


From 4d60189a810fb125b9258c472e08e8a1852bdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 096/162] fix: grammar text: last line was ignored when it
 lacks a newline

---
 discodop/_grammar.pxi   | 7 ++++---
 discodop/containers.pyx | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 299282e..7f74320 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -1079,12 +1079,13 @@ cdef inline const char *readfields(const char *buf, vector[string] &result):
 	cdef const char *endofline = strchr(buf, b'\n')
 	cdef const char *tmp
 	if endofline is NULL:
-		# NB: if last last line has no end of line, its tokens will be ignored.
-		return NULL
+		if buf[0] == 0:
+			return NULL
+		endofline = buf + strlen(buf)  # last line without end of line
 	tmp = strchr(buf, b'\t')
 	while tmp is not NULL and tmp < endofline:
 		result.push_back(string(buf, tmp - buf))
 		buf = tmp + 1
 		tmp = strchr(buf, b'\t')
 	result.push_back(string(buf, endofline - buf))
-	return endofline + 1
+	return endofline + 1 if endofline[0] else endofline
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index d0cc967..eecb6d2 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -15,7 +15,7 @@ from .util import readbytes
 from .tree import Tree
 cimport cython
 from cython.operator cimport dereference
-from libc.string cimport strchr
+from libc.string cimport strchr, strlen
 from libc.stdio cimport FILE, fopen, fread, fclose
 
 cdef extern from "<algorithm>" namespace "std" nogil:
-- 
2.43.0


From 91caed30485726077a6f32f48fc4a06b7db90fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 097/162] fix: grammar: weights of rules listed more than once
 were lost

The counts are added, but initial probabilities were based on the first
weight; probabilities did not sum to 1 until switching models.
---
 discodop/_grammar.pxi | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 7f74320..455e878 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -328,19 +328,23 @@ cdef class Grammar:
 
 		if init:  # slightly faster way of normalizing than switch()
 			for n in range(self.numrules):
-				self._bylhs[n].prob = fabs(log(self._bylhs[n].prob
+				self._bylhs[n].prob = fabs(log(
+						self.rulecounts[self._bylhs[n].no]
 						/ self.freqmass[self._bylhs[n].lhs]))
 			for n in range(self.numbinary):
-				self._lbinary[n].prob = fabs(log(self._lbinary[n].prob
+				self._lbinary[n].prob = fabs(log(
+						self.rulecounts[self._lbinary[n].no]
 						/ self.freqmass[self._lbinary[n].lhs]))
 			for n in range(self.numbinary):
-				self._rbinary[n].prob = fabs(log(self._rbinary[n].prob
+				self._rbinary[n].prob = fabs(log(
+						self.rulecounts[self._rbinary[n].no]
 						/ self.freqmass[self._rbinary[n].lhs]))
 			for n in range(self.numunary):
-				self._unary[n].prob = fabs(log(self._unary[n].prob
+				self._unary[n].prob = fabs(log(
+						self.rulecounts[self._unary[n].no]
 						/ self.freqmass[self._unary[n].lhs]))
 			for n in range(self.lexical.size()):
-				self.lexical[n].prob = fabs(log(self.lexical[n].prob
+				self.lexical[n].prob = fabs(log(self.lexcounts[n]
 						/ self.freqmass[self.lexical[n].lhs]))
 			self.currentmodel = 'default'
 
-- 
2.43.0


From 9a4c23395762f6e8ffe5cda9f20b6a523f8761fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 098/162] fix: grammar: conflicting fanouts of right-hand side
 labels were accepted

Also fix exception for POS tags with a fanout higher than 1.
---
 discodop/_grammar.pxi | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 455e878..2efe501 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -496,6 +496,11 @@ cdef class Grammar:
 					self.maxfanout = rhs1fanout
 			else:
 				cur.rhs1 = dereference(it).second
+				if self.fanout[cur.rhs1] != rhs1fanout and cur.rhs1:
+					raise ValueError("conflicting fanouts for symbol "
+						"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+						% (rule[1], self.fanout[cur.rhs1], rhs1fanout,
+						prev[:buf - prev].decode('utf8')))
 			if cur.lhs == 0 or cur.rhs1 == 0:
 				raise ValueError('Epsilon symbol may only occur '
 						'in RHS of lexical rules:\n%r' %
@@ -513,6 +518,11 @@ cdef class Grammar:
 						self.maxfanout = rhs2fanout
 				else:
 					cur.rhs2 = dereference(it).second
+					if self.fanout[cur.rhs2] != rhs2fanout and cur.rhs2:
+						raise ValueError("conflicting fanouts for symbol "
+							"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+							% (rule[2], self.fanout[cur.rhs2], rhs2fanout,
+							prev[:buf - prev].decode('utf8')))
 				if cur.rhs2 == 0:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
@@ -622,7 +632,7 @@ cdef class Grammar:
 					lexrule.lhs = dereference(it).second
 					if self.fanout[lexrule.lhs] != 1:
 						raise ValueError('POS tag %r has fan-out %d, may only'
-								' be 1.' % (self.fanout[lexrule.lhs], tag))
+								' be 1.' % (tag, self.fanout[lexrule.lhs]))
 				w = convertweight(weight.c_str())
 				if w <= 0:
 					raise ValueError('weights should be positive '
-- 
2.43.0


From 9f7a90a71a80f69905209da8fff0ba6bf7455c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 099/162] fix: grammar.getruleno: productions not in grammar
 got rule number 0

The lookup also added the labels and production to the grammar.
---
 discodop/_grammar.pxi | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 2efe501..8896e7b 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -966,25 +966,29 @@ cdef class Grammar:
 	cpdef noderuleno(self, node):
 		"""Get rule no given a node of a continuous tree."""
 		cdef Rule key
-		key.lhs = self.toid.ob[node.label.encode('utf8')]
-		key.rhs1 = self.toid.ob[node[0].label.encode('utf8')]
+		key.lhs = self.toid[node.label]
+		key.rhs1 = self.toid[node[0].label]
 		if len(node) > 1:
-			key.rhs2 = self.toid.ob[node[1].label.encode('utf8')]
+			key.rhs2 = self.toid[node[1].label]
 			key.args, key.lengths = 0b10, 0b10
 		else:
 			key.rhs2 = 0
 			key.args, key.lengths = 0b0, 0b1
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError('production not in grammar')
+		return dereference(it).second
 
 	cpdef getruleno(self, tuple r, tuple yf):
 		"""Get rule no given a (discontinuous) production."""
 		cdef Rule key
-		cdef bytes lhs = r[0].encode('utf8')
-		cdef bytes rhs1 = r[1].encode('utf8')
-		key.lhs, key.rhs1 = self.toid.ob[lhs], self.toid.ob[rhs1]
-		key.rhs2 = self.toid.ob[r[2].encode('utf8')] if len(r) > 2 else 0
+		key.lhs, key.rhs1 = self.toid[r[0]], self.toid[r[1]]
+		key.rhs2 = self.toid[r[2]] if len(r) > 2 else 0
 		getyf(yf, &key.args, &key.lengths)
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError('production not in grammar: %r %r' % (r, yf))
+		return dereference(it).second
 
 	def incrementrulecount(self, int ruleno, int freq):
 		"""Add freq to observed count of a rule.
-- 
2.43.0


From a2d24eda84e2b71206153e6cbebf3102d73588be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 100/162] fix: grammar text: format was not recognized for some
 labels and weights

An LCFRS whose first label starts with e.g. a dash was taken to be in bitpar
format, bitpar format with hexadecimal weights was not recognized.
---
 discodop/_grammar.pxi | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 8896e7b..c30bc87 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -10,7 +10,10 @@ LCFRS_NONINT = re.compile(b'\t(?:0x)?[0-9]+[./][0-9]+(?:p-[0-9]+)?\n')
 BITPAR_NONINT = re.compile(b'(?:^|\n)[0-9]+\\.[0-9]+[ \t]')
 LEXICON_NONINT = re.compile(b'[ \t][0-9]+[./][0-9]+[ \t\n]')
 # Detect rule format of bitpar
-BITPARRE = re.compile(rb'^[-.e0-9]+\b')
+# (first field is a weight, no yield function and weight at end of line).
+BITPARRE = re.compile(
+		rb'^(?![^\n]*\t[01,]+\t[0-9][^\t\n]*(?:\n|$))'
+		rb'(?:0x[0-9a-f.]+p[-+]?[0-9]+|[-.e0-9]+\b)')
 # Match syntactic category and function tag, without any state splits,
 # for labels that were not introduced by the binarization:
 # e.g., given NN-HD/Acc^name group 1 will be NN-HD/Acc
-- 
2.43.0


From 98a86b3600df8b9b57dd5bff7a97dff5cf8fa2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 101/162] fix: grammar: mask was too short or blocked rules
 added after setting it

---
 discodop/_grammar.pxi | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index c30bc87..78c3398 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -328,6 +328,8 @@ cdef class Grammar:
 		self._convertrules(rules, backtransform)
 		self._convertlexicon(lexicon, checkdup=init)
 		self.nonterminals = self.toid.ob.size()
+		if self.mask.size():  # new rules are not blocked
+			self.mask.resize(BITNSLOTS(self.numrules), 0)
 
 		if init:  # slightly faster way of normalizing than switch()
 			for n in range(self.numrules):
@@ -791,6 +793,8 @@ cdef class Grammar:
 		self.mask.resize(BITNSLOTS(self.numrules), ~(<uint64_t>0))
 		for n in seq:
 			CLEARBIT(&(self.mask[0]), n)
+		for n in range(self.numrules, self.mask.size() * 64):
+			CLEARBIT(&(self.mask[0]), n)  # not blocked when added later
 
 	def testgrammar(self, epsilon=1e-16):
 		"""Test whether all left-hand sides sum to 1 +/-epsilon for the
-- 
2.43.0


From 1d6fb4037dbfc13e8e50cb3d36c068961d2cd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:13 +0000
Subject: [PATCH 102/162] fix: Grammar.frombinfile: alternative weights were
 not available

---
 discodop/_grammar.pxi | 12 ++++++++++--
 discodop/parser.py    |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 78c3398..003f18e 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -181,12 +181,15 @@ cdef class Grammar:
 			buf.tofile(outfile)
 
 	@classmethod
-	def frombinfile(cls, filename, rulesfile, lexiconfile, backtransform=None):
+	def frombinfile(cls, filename, rulesfile, lexiconfile, backtransform=None,
+			altweights=None):
 		"""Load grammar from cached binary file.
 
 		:param filename: file produced by tobinfile() method; format subject to
 			change, recreate as needed.
-		:param rulesfile: original grammar file, used only when pickling."""
+		:param rulesfile: original grammar file, used only for reference.
+		:param altweights: a dictionary or filename with numpy arrays of
+			alternative weights."""
 		cdef Grammar ob = Grammar.__new__(Grammar)
 		cdef bytes data
 		cdef char *ptr
@@ -209,6 +212,11 @@ cdef class Grammar:
 		ob.bitpar = False
 		ob.models = {}
 		ob.altweightsfile = ob.ruletuples = None
+		if isinstance(altweights, dict):
+			ob.models = altweights
+		elif altweights is not None:
+			ob.models = None
+			ob.altweightsfile = altweights
 		# read file
 		with open(filename, 'rb') as inp:
 			data = inp.read()
diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..e4792b4 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -729,7 +729,8 @@ def readgrammars(resultdir, stages, postagging=None,
 						resultdir, stage.name)).read().splitlines()
 			if cache and os.path.exists('%s/%s.g' % (resultdir, stage.name)):
 				gram = Grammar.frombinfile('%s/%s.g' % (resultdir, stage.name),
-						rules, lexicon, backtransform=backtransform)
+						rules, lexicon, backtransform=backtransform,
+						altweights=probsfile)
 			else:
 				gram = Grammar(rules, lexicon, start=top, altweights=probsfile,
 						backtransform=backtransform)
-- 
2.43.0


From 9ceceebff05777c29480b5296c1f07ff395104c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:13 +0000
Subject: [PATCH 103/162] fix: pickling a Grammar lost added rules,
 backtransform and current model

---
 discodop/_grammar.pxi | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 003f18e..db0902b 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -117,6 +117,11 @@ cdef class Grammar:
 
 	def tobinfile(self, filename):
 		"""Store grammar in a binary format for faster loading."""
+		with open(filename, 'wb') as outfile:
+			outfile.write(self._tobytes())
+
+	def _tobytes(self):
+		"""Represent grammar in a binary format."""
 		cdef array buf
 		cdef char *ptr
 		cdef ProbRule *ruleptr
@@ -177,8 +182,7 @@ cdef class Grammar:
 				idx += sizeof(uint32_t)
 		assert idx == buflen, (idx, buflen)
 		buf.frombytes(pickle.dumps(self.tblabelmapping))
-		with open(filename, 'wb') as outfile:
-			buf.tofile(outfile)
+		return buf.tobytes()
 
 	@classmethod
 	def frombinfile(cls, filename, rulesfile, lexiconfile, backtransform=None,
@@ -190,8 +194,16 @@ cdef class Grammar:
 		:param rulesfile: original grammar file, used only for reference.
 		:param altweights: a dictionary or filename with numpy arrays of
 			alternative weights."""
+		with open(filename, 'rb') as inp:
+			return Grammar._frombytes(inp.read(), rulesfile, lexiconfile,
+					backtransform, altweights)
+
+	@classmethod
+	def _frombytes(cls, bytes data, rulesfile, lexiconfile, backtransform,
+			altweights, ruletuples=None, bitpar=False, model='default',
+			logprob=True):
+		"""Create grammar from result of _tobytes()."""
 		cdef Grammar ob = Grammar.__new__(Grammar)
-		cdef bytes data
 		cdef char *ptr
 		cdef uint64_t *header
 		cdef size_t idx, n
@@ -209,17 +221,15 @@ cdef class Grammar:
 		ob.numunary = ob.numbinary = 0
 		ob.maxfanout = 1
 		ob.logprob = True
-		ob.bitpar = False
+		ob.bitpar = bitpar
+		ob.ruletuples = ruletuples
 		ob.models = {}
-		ob.altweightsfile = ob.ruletuples = None
+		ob.altweightsfile = None
 		if isinstance(altweights, dict):
 			ob.models = altweights
 		elif altweights is not None:
 			ob.models = None
 			ob.altweightsfile = altweights
-		# read file
-		with open(filename, 'rb') as inp:
-			data = inp.read()
 		ptr = <char *>data
 		header = <uint64_t *>ptr
 		idx = 4 * sizeof(uint64_t)
@@ -318,6 +328,7 @@ cdef class Grammar:
 			ob.rulenos[key] = cur.no
 
 		ob.tblabelmapping = pickle.loads(data[idx:])
+		ob.switch(model, logprob)
 		return ob
 
 	def addrules(self, bytes rules, bytes lexicon, backtransform=None,
@@ -1086,8 +1097,10 @@ cdef class Grammar:
 
 	def __reduce__(self):
 		"""Helper function for pickling."""
-		return (Grammar, (self.rulesfile or self.ruletuples, self.lexiconfile,
-				self.start, self.altweightsfile or self.models))
+		return (Grammar._frombytes, (self._tobytes(), self.rulesfile,
+				self.lexiconfile, self.backtransform,
+				self.altweightsfile or self.models, self.ruletuples,
+				self.bitpar, self.currentmodel, self.logprob))
 
 
 cdef inline Prob convertweight(const char *weight):
-- 
2.43.0


From a3c4e732f0d51d8d98bee698a8c6cdad1faeadff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 104/162] fix: grammar text: unary rules in bitpar format got
 yield function of binary rules

---
 discodop/_grammar.pxi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index db0902b..e08cc81 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -447,7 +447,7 @@ cdef class Grammar:
 				fields.erase(fields.begin())
 				rule = fields
 				# NB: leave yf at b'<none>'
-				if rule.size() > 1:
+				if rule.size() > 2:
 					cur.args, cur.lengths = 0b10, 0b10
 				else:
 					cur.args, cur.lengths = 0b0, 0b1
-- 
2.43.0


From 869e91b3c6d7a096c9c739431d9f6395910e0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 105/162] fix: fragments of DOP reduction derivations: spans of
 discontinuous sites

A discontinuous substitution site was represented by an interval which
includes its gaps, so that other parts of the fragment got wrong positions.
---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..66bd6b2 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -765,7 +765,7 @@ def splitfrag(node):
 					else splitfrag(child))
 		else:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[yieldranges(sorted(child.leaves()))]))
 	return Tree(node.label, children)
 
 
-- 
2.43.0


From 8c50c9c4dde83872e47aa99fb76b7d89d7d7304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 106/162] fix: shortest derivations: lexical probabilities were
 added to log probabilities

---
 discodop/disambiguation.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 66bd6b2..193af30 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -843,14 +843,17 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 
 
 cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
-	"""Recursively calculate probability of a derivation.
+	"""Recursively calculate negative log probability of a derivation.
 
 	Useful to obtain probability of derivation under different probability
 	model of the same grammar."""
 	cdef Prob result
 	cdef ItemNo v1
 	if deriv.edge.rule is NULL:  # is terminal
-		return chart.lexprob(v, deriv.edge)
+		try:
+			return -log(chart.lexprob(v, deriv.edge))
+		except ValueError:  # no lexical rule; e.g., given POS tag
+			return 0.0
 	result = deriv.edge.rule.prob
 	v1 = chart.left(v, deriv)
 	result += getderivprob(
-- 
2.43.0


From 6d549e138bfcc3ed0dd8ead882f1f4cf42ce02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 107/162] fix: shortest derivation: derivation lengths were
 affected by rounding errors

A length was computed by truncating a sum of logarithms, so that for example
5 fragments could be reported as 4; and derivations of the same length were
ignored when their sums of logarithms were not identical.
---
 discodop/disambiguation.pyx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 193af30..bbd3b5d 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -153,14 +153,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				if entry.second < maxprob:
 					maxprob = entry.second
 			for entry in chart.rankededges[root]:
-				if entry.second == maxprob:
+				if derivlength(entry.second) == derivlength(maxprob):
 					entries.push_back(entry)
 			chart.rankededges[root] = entries
 		elif chart.derivations:
 			_, maxprob = min(chart.derivations, key=itemgetter(1))
 			chart.derivations = [(deriv, prob)
 					for deriv, prob in chart.derivations
-					if prob == maxprob]
+					if derivlength(prob) == derivlength(maxprob)]
 
 	if not dopreduction:  # Double-DOP
 		for n in range(chart.rankededges[root].size()):
@@ -179,7 +179,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				# probability in a different model.
 				newprob = exp(-getderivprob(
 						root, entry.first, chart, sent))
-				score = (int(prob / log(0.5)), newprob)
+				score = (-derivlength(prob), newprob)
 				if treestr not in derivlen or score > derivlen[treestr]:
 					derivlen[treestr] = score
 					derivs[treestr] = n
@@ -204,7 +204,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			if shortest:
 				entry = chart.rankededges[root][n]
 				newprob = getderivprob(root, entry.first, chart, sent)
-				score = (int(prob / log(0.5)), exp(-newprob))
+				score = (-derivlength(prob), exp(-newprob))
 				if treestr not in derivlen or (not dopreduction
 						and score > derivlen[treestr]):
 					derivlen[treestr] = score
@@ -466,7 +466,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			treestr = recoverfragments(
 					root, entry.first, chart2, backtransform)
 		if treestr in nmostlikelytrees and treestr not in result:
-			result[treestr] = (-abs(int(s / log(0.5))), parsetreeprob[treestr])
+			result[treestr] = (-derivlength(s), parsetreeprob[treestr])
 			if backtransform is None:
 				derivs[treestr] = fragmentsinderiv_str(
 						deriv, chart2, backtransform)
@@ -866,6 +866,14 @@ cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 				chart, sent)
 	return result
 
+
+cdef int derivlength(Prob prob):
+	"""Convert log probability of shortest derivation model to an integer.
+
+	Each fragment contributes a probability of 0.5."""
+	return int(round(abs(prob) / log(2)))
+
+
 cpdef viterbiderivation(Chart chart):
 	"""Wrapper to get Viterbi derivation from chart."""
 	# Ask for at least 10 derivations because unary cycles.
-- 
2.43.0


From b4767dff59c14aa85054b5cddf9db90c9223d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 108/162] fix: sl-dop: model was not restored when no parse was
 found

In addition, fragments were listed with weights of the wrong model.
---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index bbd3b5d..61205bb 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -454,6 +454,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 	shortestderivations, msg, chart2 = treeparsing(
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
 			maskrules=False)
+	chart.grammar.switch(model, logprob=True)
 	if not chart2:
 		return [], 'SL-DOP couldn\'t find parse for tree'
 	result = {}
@@ -475,7 +476,6 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 						root, entry.first, chart2, backtransform)
 			if len(result) > sldop_n:
 				break
-	chart.grammar.switch(model, logprob=True)
 	if not len(result):
 		return [], 'no matching derivation found'
 	msg = '(%d derivations, %d of %d parsetrees)' % (
-- 
2.43.0


From df73279ce490de797ac376540acc95e1d3e6ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 109/162] fix: disambiguation: allow giving only required or
 only blocked constituents

---
 discodop/disambiguation.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 61205bb..822029c 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -284,7 +284,8 @@ def testconstraints(treestr, require, block):
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
 				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
-	return spans.issuperset(require) and spans.isdisjoint(block)
+	return (spans.issuperset(require or ())
+			and spans.isdisjoint(block or ()))
 
 
 cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
-- 
2.43.0


From da7ecd68ccf2116b754b3bc21f81af04e81d5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 110/162] fix: max constituents parse: tokens lost when all
 parts of a span score zero

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 822029c..a2b6ef0 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -370,7 +370,7 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 						if (rightspan in cells
 								and cells[rightspan][0] != NONCONSTLABEL):
 							score = cells[leftspan][1] + cells[rightspan][1]
-							if score > maxcombscore:
+							if maxleft is None or score > maxcombscore:
 								maxcombscore = score
 								maxleft = leftspan
 				score = maxscore / sentprob
-- 
2.43.0


From b3a437777a0e68a21fa13d868a08de04ecd857bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 111/162] fix: treeparsing: rules stayed masked when a tree is
 not in the grammar

---
 discodop/disambiguation.pyx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index a2b6ef0..1b4a265 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -786,10 +786,8 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	# but the problem is that we need to get probabilities of trees,
 	# not just of derivations. Therefore the regular coarse-to-fine methods
 	# do not apply directly.
-	cdef SmallChartItem item
-	cdef FatChartItem fitem
 	cdef Whitelist whitelist = Whitelist()
-	cdef int n, lensent = len(sent)
+	cdef int lensent = len(sent)
 	if <unsigned>lensent < sizeof(uint64_t) * 8:
 		whitelist.small.resize(grammar.nonterminals)
 	else:
@@ -800,6 +798,18 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	whitelist.splitmapping = NULL
 	if maskrules:
 		grammar.setmask([])  # block all rules
+	try:
+		return treeparsing_(trees, sent, grammar, m, tags, maskrules, whitelist)
+	finally:
+		if maskrules:
+			grammar.setmask(None)
+
+
+cdef treeparsing_(trees, sent, Grammar grammar, int m, tags, maskrules,
+		Whitelist whitelist):
+	cdef SmallChartItem item
+	cdef FatChartItem fitem
+	cdef int n, lensent = len(sent)
 	for treestr in trees:
 		tree = Tree(treestr)
 		for node, (r, yf) in zip(tree.subtrees(),
@@ -835,9 +845,6 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	# requires a different way of pruning.
 	# FIXME: two pruning mechanisms; want both?
 	chart, _ = plcfrs.parse(sent, grammar, tags=tags, whitelist=whitelist)
-	if maskrules:
-		grammar.setmask(None)
-
 	if not chart:
 		return [], 'tree parsing failed', chart
 	return lazykbest(chart, m), '', chart
-- 
2.43.0


From dc3470ca2d234ea9b8ca7c61025b70aec80811ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 112/162] fix: dopparseprob: nodes of a unary chain with the
 same label were mixed up

---
 discodop/disambiguation.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 1b4a265..ec2e07d 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -957,19 +957,20 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 			lcfrsproductions(tree, sent)))[::-1]:
 		if not isinstance(node[0], Tree):
 			continue
-		if node.bitset not in chart:
-			chart[node.bitset] = {}
-		cell = chart[node.bitset]
+		# NB: do not mix the labels of this node with those of other nodes in
+		# a unary chain over the same span.
+		cell = {}
 		prod = coarse.getruleno(r, yf)
 		if len(node) == 1:  # unary node
+			leftcell = chart[node[0].bitset]
 			for ruleno in fine.rulemapping[prod]:
 				rule = &(fine.bylhs[0][fine.revrulemap[ruleno]])
-				if rule.rhs1 in cell:
+				if rule.rhs1 in leftcell:
+					newprob = -rule.prob + leftcell[rule.rhs1]
 					if rule.lhs in cell:
-						cell[rule.lhs] = logprobadd(cell[rule.lhs],
-								-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = logprobadd(cell[rule.lhs], newprob)
 					else:
-						cell[rule.lhs] = (-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = newprob
 		elif len(node) == 2:  # binary node
 			leftcell = chart[node[0].bitset]
 			rightcell = chart[node[1].bitset]
@@ -984,6 +985,7 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 						cell[rule.lhs] = newprob
 		else:
 			raise ValueError('expected binary tree without empty nodes.')
+		chart[node.bitset] = cell
 	return chart[tree.bitset].get(fine.toid[tree.label], float('-inf'))
 
 
-- 
2.43.0


From 235c75be4bf31b441fb015b81c299b7dd241d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 113/162] fix: sl-dop with Double-DOP: lexicalized fragments
 were pruned when parsing given trees

---
 discodop/disambiguation.pyx | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index ec2e07d..8093000 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -819,15 +819,26 @@ cdef treeparsing_(trees, sent, Grammar grammar, int m, tags, maskrules,
 				label = grammar.toid[node.label]
 			except KeyError:
 				return [], "'%s' not in grammar" % node.label, None
+			labels = [label]
+			if not isinstance(node[0], Tree):
+				# POS tags of words in lexicalized fragments, e.g., NN@house
+				it = grammar.lexicalbyword.find(
+						sent[leaves[0]].encode('utf8'))
+				if it != grammar.lexicalbyword.end():
+					for lexruleno in dereference(it).second:
+						label = grammar.lexical[lexruleno].lhs
+						if grammar.tolabel[label].startswith(node.label + '@'):
+							labels.append(label)
 			# whitelist based on (label, span)
-			if <unsigned>lensent < sizeof(uint64_t) * 8:
-				item = SmallChartItem(label, sum([1L << n for n in leaves]))
-				whitelist.small[label].insert(item)
-			else:
-				fitem = FatChartItem(label)
-				for n in leaves:
-					SETBIT(fitem.vec, n)
-				whitelist.fat[label].insert(fitem)
+			for label in labels:
+				if <unsigned>lensent < sizeof(uint64_t) * 8:
+					item = SmallChartItem(label, sum([1L << n for n in leaves]))
+					whitelist.small[label].insert(item)
+				else:
+					fitem = FatChartItem(label)
+					for n in leaves:
+						SETBIT(fitem.vec, n)
+					whitelist.fat[label].insert(fitem)
 			# whitelist based on grammar rule
 			if maskrules and isinstance(node[0], Tree):
 				try:
-- 
2.43.0


From e73bd45b0fe2418fef4e5f6cc024e313ad16ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 114/162] fix: unknown word model: crash when open class
 threshold is 0

---
 discodop/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..3e366e1 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -71,10 +71,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			wordsfortag[tag].add(word)
 			tags[tag] += 1
 			wordtags[word, tag] += 1
-	openclasstags = {}
+	openclasstags, closedclasstags = {}, {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From fb2f88090f2ca182df58d64eb7998bb73a86d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 115/162] fix: unknown word model: count only signatures that
 occur in the grammar

---
 discodop/lexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 3e366e1..6e233d4 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -102,7 +102,8 @@ def getunknownwordmodel(tagged_sents, unknownword,
 	sigs = Counter()
 	for sent in tagged_sents:
 		for n, (word, _) in enumerate(sent):
-			if word not in lexicon:
+			if (word not in lexicon and not YEARRE.match(word)
+					and not NUMBERRE.match(word)):
 				# NB: sig depends on n and lexicon
 				sig = unknownword(word, n, lexicon)
 				sigs[sig] += 1
-- 
2.43.0


From 6c2fff6038ad7dcbbea6efca14f432989b577e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 116/162] fix: unknown word model: known words and words with
 brackets could end up untaggable

---
 discodop/lexicon.py | 13 ++++++++-----
 discodop/runexp.py  | 14 ++++++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 6e233d4..0634c21 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -26,7 +26,7 @@ import tempfile
 from operator import itemgetter
 from subprocess import Popen, PIPE
 from collections import defaultdict, Counter, OrderedDict
-from .tree import escape
+from .tree import escape, unescape
 from .util import which
 from .containers import REMOVESTATESPLITS
 
@@ -140,18 +140,21 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 
 	If only a lowercase version of a word is in the grammar, that will be used
 	instead. If the returned signature is not part of the grammar, a default
-	one is returned."""
+	one is returned.
+
+	:param sent: a sequence of escaped tokens.
+	:param lexicon: the set of known words (as they occur in the grammar)."""
 	for n, word in enumerate(sent):
-		if YEARRE.match(word):
+		if YEARRE.match(word) and '1970' in lexicon:
 			yield '1970'
-		elif NUMBERRE.match(word):
+		elif NUMBERRE.match(word) and '000' in lexicon:
 			yield '000'
 		elif word in lexicon:
 			yield word
 		elif word.lower() in lexicon:
 			yield word.lower()
 		else:
-			sig = unknownword(word, n, lexicon)
+			sig = unknownword(unescape(word), n, lexicon)
 			if sig in sigs:
 				yield sig
 			else:
diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..bd99a56 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -21,6 +21,7 @@ from . import eval as evalmod
 from . import (__version__, treebank, treebanktransforms, treetransforms,
 		grammar, lexicon, parser, estimates)
 from .treetransforms import binarizetree
+from .tree import escape
 from .util import workerfunc
 from .containers import Grammar
 
@@ -146,7 +147,7 @@ def startexp(
 		if not rerun:
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
 			with open(resultdir + '/closedclasswords.txt', 'w') as out:
-				out.writelines(w + '\n' for w in lexmodel[3])
+				out.writelines(escape(w) + '\n' for w in lexmodel[3])
 		usetags = False  # make sure gold POS tags are not given to parser
 	else:
 		usetags = True  # give gold POS tags to parser
@@ -274,12 +275,17 @@ def getposmodel(postagging, train_tagged_sents):
 	# NB: commonwords is the subset of words that are above the frequency
 	# threshold. for training purposes we work with the subset, at test time we
 	# exploit the full set of known words from the training set.
-	sigs, allwords, commonwords, closedclasswords = lexmodel[:4]
-	postagging.update(sigs=sigs, lexicon=allwords,
-			closedclasswords=closedclasswords)
+	sigs, _allwords, commonwords, closedclasswords = lexmodel[:4]
 	# replace rare train words with signatures
 	sents = lexicon.replaceraretrainwords(train_tagged_sents,
 			postagging.unknownwordfun, commonwords)
+	# the words that will be part of the grammar
+	knownwords = {escape(word) for sent in sents for word in sent
+			if not word.startswith(lexicon.UNK)}
+	knownwords.update(word for _, (word, )
+			in lexicon.simplesmoothlexicon(lexmodel) if word != lexicon.UNK)
+	postagging.update(sigs=sigs, lexicon=knownwords,
+			closedclasswords={escape(word) for word in closedclasswords})
 	return sents, lexmodel
 
 
-- 
2.43.0


From 44b5a8e914175303d74ff6993f53823d3f6bc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:15 +0000
Subject: [PATCH 117/162] fix: words with parentheses from the treebank were
 unknown to the parser

---
 discodop/disambiguation.pyx | 13 +++++++------
 discodop/lexicon.py         |  2 +-
 discodop/parser.py          |  4 ++--
 discodop/runexp.py          | 10 +++++-----
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 8093000..a5292e6 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -17,7 +17,8 @@ from itertools import count
 from functools import partial
 from collections import defaultdict
 from . import plcfrs, _fragments
-from .tree import Tree, ParentedTree, ImmutableTree, writediscbrackettree
+from .tree import (Tree, ParentedTree, ImmutableTree, escape,
+		writediscbrackettree)
 from .kbest import lazykbest
 from .kbest cimport getderiv
 from .grammar import lcfrsproductions, spinal, REMOVEDEC
@@ -717,7 +718,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %s)' % (
 				chart.grammar.tolabel[chart.label(v)].split('@')[0],
 				('%d=%s' % (chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)])
+					escape(chart.sent[chart.lexidx(child.edge)]))
 					if '@' in chart.grammar.tolabel[chart.label(v)]
 					else yieldranges(chart.indices(v)))))
 	result.append((
@@ -743,7 +744,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %d=%s)' % (
 					chart.grammar.tolabel[chart.label(v)],
 					chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)]),
+					escape(chart.sent[chart.lexidx(child.edge)])),
 				'rel. freq: %g/%g; weight: %g' % (
 					lexcount,
 					chart.grammar.freqmass[chart.label(v)],
@@ -1063,7 +1064,7 @@ def splitostagfrag(node, sent):
 	# FIXME: hopefully this can be simplified...
 	for child in node:
 		if not isinstance(child, Tree):
-			children.append('%d=%s' % (child, sent[child]))
+			children.append('%d=%s' % (child, escape(sent[child])))
 		elif '@' not in child.label or (
 				'[' not in child.label and '[' in node.label
 				and node.label.endswith(child.label + ']')):
@@ -1080,7 +1081,7 @@ def splitostagfrag(node, sent):
 					child = child[1]
 			if '@' in child.label:  # add rest of initial tree
 				children.extend(
-						['%d=%s' % (child[0], sent[child[0]])]
+						['%d=%s' % (child[0], escape(sent[child[0]]))]
 						if isinstance(child[0], int)
 						else splitostagfrag(child, sent))
 			else:  # this is a substitution site
@@ -1089,7 +1090,7 @@ def splitostagfrag(node, sent):
 		else:
 			children.append(
 					ParentedTree(child.label,
-						['%d=%s' % (child[0], sent[child[0]])])
+						['%d=%s' % (child[0], escape(sent[child[0]]))])
 					if isinstance(child[0], int)
 					else splitostagfrag(child, sent))
 	return Tree(node.label, children)
diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 0634c21..759c692 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -142,7 +142,7 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 	instead. If the returned signature is not part of the grammar, a default
 	one is returned.
 
-	:param sent: a sequence of escaped tokens.
+	:param sent: a sequence of tokens.
 	:param lexicon: the set of known words (as they occur in the grammar)."""
 	for n, word in enumerate(sent):
 		if YEARRE.match(word) and '1970' in lexicon:
diff --git a/discodop/parser.py b/discodop/parser.py
index e4792b4..b9419b6 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -21,7 +21,7 @@ from . import plcfrs, pcfg, disambiguation
 from . import grammar, treetransforms, treebanktransforms
 from .containers import Grammar, Vocabulary, Ctrees
 from .coarsetofine import prunechart
-from .tree import ParentedTree, escape, ptbescape
+from .tree import ParentedTree, ptbescape
 from .eval import alignsent
 from .lexicon import replaceraretestwords, UNKNOWNWORDFUNC, UNK
 from .treebank import writetree, handlefunctions
@@ -268,7 +268,7 @@ class Parser(object):
 			sent = xsent = [ptbescape(token) for token in sent]
 		else:
 			xsent = list(sent)
-			sent = [escape(token) for token in sent]
+			sent = list(sent)
 		if self.postagging and self.postagging.method == 'unknownword':
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
diff --git a/discodop/runexp.py b/discodop/runexp.py
index bd99a56..6ede6cb 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -21,7 +21,7 @@ from . import eval as evalmod
 from . import (__version__, treebank, treebanktransforms, treetransforms,
 		grammar, lexicon, parser, estimates)
 from .treetransforms import binarizetree
-from .tree import escape
+from .tree import unescape
 from .util import workerfunc
 from .containers import Grammar
 
@@ -147,7 +147,7 @@ def startexp(
 		if not rerun:
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
 			with open(resultdir + '/closedclasswords.txt', 'w') as out:
-				out.writelines(escape(w) + '\n' for w in lexmodel[3])
+				out.writelines(w + '\n' for w in lexmodel[3])
 		usetags = False  # make sure gold POS tags are not given to parser
 	else:
 		usetags = True  # give gold POS tags to parser
@@ -280,12 +280,12 @@ def getposmodel(postagging, train_tagged_sents):
 	sents = lexicon.replaceraretrainwords(train_tagged_sents,
 			postagging.unknownwordfun, commonwords)
 	# the words that will be part of the grammar
-	knownwords = {escape(word) for sent in sents for word in sent
+	knownwords = {word for sent in sents for word in sent
 			if not word.startswith(lexicon.UNK)}
-	knownwords.update(word for _, (word, )
+	knownwords.update(unescape(word) for _, (word, )
 			in lexicon.simplesmoothlexicon(lexmodel) if word != lexicon.UNK)
 	postagging.update(sigs=sigs, lexicon=knownwords,
-			closedclasswords={escape(word) for word in closedclasswords})
+			closedclasswords=set(closedclasswords))
 	return sents, lexmodel
 
 
-- 
2.43.0


From 4a4271ce438cbb876ea07147341a23ab483d1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 118/162] fix: parser stage whose pruning stage failed reported
 the parse of an unrelated stage

---
 discodop/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/parser.py b/discodop/parser.py
index b9419b6..6bf2bbb 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -310,6 +310,8 @@ class Parser(object):
 
 			# do parsing; if CTF pruning enabled, require parent stage to
 			# be successful.
+			if stage.prune and not charts[stage.prune]:
+				chart = charts[stage.prune]
 			splitprune = False
 			if sent and (not stage.prune or charts[stage.prune]):
 				prevn = 0
-- 
2.43.0


From 755318e5e55371e48f0a51fd579d8e9d49972105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 119/162] fix: crash or wrong score when combining partial
 parses with sl-dop

---
 discodop/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 6bf2bbb..0c3e4a1 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -822,8 +822,12 @@ def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
 	if prob1 == 1:
 		return prob2
+	elif isinstance(prob1, tuple) and isinstance(prob2, tuple):
+		return (prob1[0] + prob2[0], prob1[1] * prob2[1])
+	elif isinstance(prob1, tuple):
+		return (prob1[0], prob1[1] * prob2)
 	elif isinstance(prob2, tuple):
-		return (prob1[0] + prob2[1], prob1[1] * prob2[1])
+		return (prob2[0], prob1 * prob2[1])
 	return prob1 * prob2
 
 
-- 
2.43.0


From abda9bf56ea9027d2f50039ac54d04b255bc18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 120/162] fix: parse from a previous stage was not
 postprocessed according to that stage

---
 discodop/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 0c3e4a1..bb1a9b3 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -290,6 +290,7 @@ class Parser(object):
 		charts = {}  # stage.name => chart
 		prevparsetrees = {}  # stage.name => parsetrees
 		chart = lastsuccessfulparse = None
+		lastsuccessfulstage = 0
 		totalgolditems = 0
 		partialparse = False
 		# parse with each coarse-to-fine stage
@@ -515,14 +516,16 @@ class Parser(object):
 							''.join(traceback.format_exception(
 								*sys.exc_info())))
 					parsetree, prob, noparse = self.noparse(
-							stage, xsent, tags, lastsuccessfulparse, n)
+							stage, xsent, tags, lastsuccessfulparse,
+							lastsuccessfulstage)
 				else:
-					lastsuccessfulparse = resultstr
+					lastsuccessfulparse, lastsuccessfulstage = resultstr, n
 				msg += probstr(prob) + ' '
 			else:
 				fragments = None
 				parsetree, prob, noparse = self.noparse(
-						stage, xsent, tags, lastsuccessfulparse, n)
+						stage, xsent, tags, lastsuccessfulparse,
+						lastsuccessfulstage)
 				parsetrees = [(lastsuccessfulparse or str(parsetree),
 						prob, None)]
 			elapsedtime = process_time() - begin
@@ -561,7 +564,9 @@ class Parser(object):
 		return parsetree, False
 
 	def noparse(self, stage, sent, tags, lastsuccessfulparse, n):
-		"""Return parse from previous stage or a dummy parse."""
+		"""Return parse from previous stage or a dummy parse.
+
+		:param n: the stage that produced ``lastsuccessfulparse``."""
 		# use successful parse from earlier stage if available
 		if lastsuccessfulparse is not None:
 			parsetree, _ = self.postprocess(lastsuccessfulparse, sent, n)
-- 
2.43.0


From 2f6ba137665efdf6b32bb34a516493d513ce0860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 121/162] fix: tokens of partial parses were preprocessed twice

---
 discodop/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index bb1a9b3..e713aa8 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -242,7 +242,7 @@ class Parser(object):
 		self.cnt = 0
 
 	def parse(self, sent, tags=None, root=None, goldtree=None,
-			require=(), block=()):
+			require=(), block=(), preprocess=True):
 		"""Parse a sentence and perform postprocessing.
 
 		Yields a dictionary from parse trees to probabilities for each stage.
@@ -257,19 +257,22 @@ class Parser(object):
 			parse trees containing these labeled spans will be returned.
 			For example, ``('NP', [0, 1, 2])``.
 		:param block: optionally, a list of tuples ``(label, indices)``;
-			these labeled spans will be pruned."""
-		if 'PUNCT-PRUNE' in (self.transformations or ()):
+			these labeled spans will be pruned.
+		:param preprocess: whether to transform the tokens in the same way as
+			the training data; False if this has been done already."""
+		if preprocess and 'PUNCT-PRUNE' in (self.transformations or ()):
 			origsent = sent[:]
 			punctprune(None, sent)
 			if tags:
 				newtags = alignsent(sent, origsent, dict(enumerate(tags)))
 				tags = [newtags[n] for n, _ in enumerate(sent)]
-		if 'PTBbrackets' in (self.transformations or ()):
+		if preprocess and 'PTBbrackets' in (self.transformations or ()):
 			sent = xsent = [ptbescape(token) for token in sent]
 		else:
 			xsent = list(sent)
 			sent = list(sent)
-		if self.postagging and self.postagging.method == 'unknownword':
+		if (preprocess and self.postagging
+				and self.postagging.method == 'unknownword'):
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
 					self.postagging.lexicon, self.postagging.sigs))
@@ -471,7 +474,7 @@ class Parser(object):
 						parts = list(self.parse(
 								sent[a:b],
 								tags=tags[a:b] if tags else None,
-								root=label))
+								root=label, preprocess=False))
 						part = parts[-1]
 						parttree, partprob, _partfrags = max(
 								part.parsetrees, key=itemgetter(1))
-- 
2.43.0


From f7f0fbf9c4f6840ee2c5f4c8bd7ada6e0a5a6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:47 +0000
Subject: [PATCH 122/162] fix: getestimates fails with numpy 2 (np.NAN was
 removed)

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 4330f4d928fec49affff1d9594b71b949f458db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:47 +0000
Subject: [PATCH 123/162] fix: estimates ignored rules of labels with more
 rules than there are labels

---
 discodop/estimates.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index f631f39..9c3aef2 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -116,7 +116,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				or x < insidescores[item.label, item.vec]):
 			insidescores[item.label, item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -124,7 +124,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -135,7 +135,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[rule.rhs2, vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -170,7 +170,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 		if x < insidescores[item.label].get(item.vec, INFINITY):
 			insidescores[item.label][item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -179,7 +179,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -192,7 +192,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 					agenda.setifbetter(SmallChartItem(rule.lhs, left),
 							rule.prob + x + insidescores[rule.rhs2][vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -420,7 +420,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				or x < insidescores[item.vec][item.label]):
 			insidescores[item.vec][item.label] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -428,7 +428,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -439,7 +439,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[vec][rule.rhs2])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
-- 
2.43.0


From df86b14fc7e13b35bc662d3a3b62e8cca67267c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:47 +0000
Subject: [PATCH 124/162] fix: SXlrgaps estimates were infinite for siblings
 separated by larger gaps

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index 9c3aef2..e76c29a 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -288,7 +288,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(leftfanout, item.length - rightfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs2, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				for lr in range(item.lr, totlen - lenA + 1):
 					if addright == 0 and lr != item.lr:
 						continue
 					for ga in range(leftfanout - 1, totlen + 1):
@@ -323,7 +323,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(rightfanout, item.length - leftfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs1, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				for lr in range(item.lr, totlen - lenA + 1):
 					for ga in range(rightfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
 								and ga >= addgaps):
-- 
2.43.0


From 603ff9db0d35c4cff0a7785cbc211099fa54f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:47 +0000
Subject: [PATCH 125/162] fix: out of bounds access for sentences longer than
 available estimates

---
 discodop/plcfrs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 723c502..96a5e7e 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -384,6 +384,8 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 			or (LCFRSItem_fused is FatChartItem
 			and LCFRSChart_fused is SmallLCFRSChart)):
 		return
+	if estimates is not None and lensent >= len(estimates[1][0]):
+		estimates = None  # no estimates available for this sentence length
 	if estimates is not None:
 		estimatetypestr, outside = estimates
 		estimatetype = {'SX': SX, 'SXlrgaps': SXlrgaps}[estimatetypestr]
-- 
2.43.0


From f27d1bf8d0b4cd19980cd1f98a542fdf72736054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 126/162] fix: cover fragments counted an extra frontier for
 each unary node

---
 discodop/_fragments.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..c5a73e1 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -750,16 +750,18 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 	# Then combine with fragments of children to form prunes of this subtree
 	if nodes[i].left >= 0:
 		# unary, or right node as frontier with all lfrags
+		rfrontiers = 1 if nodes[i].right >= 0 else 0
 		for lfrag in table[nodes[i].left]:
 			ldepth = getroot(getpointer(lfrag), SLOTS)
 			lfrontiers = getid(getpointer(lfrag), SLOTS)
 			if (ldepth + 1 <= maxdepth
-					and lfrontiers + 1 <= maxfrontier):
+					and lfrontiers + rfrontiers <= maxfrontier):
 				# bitset with current idx + left bitset
 				memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
 				SETBIT(scratch, i)
 				setunioninplace(scratch, getpointer(lfrag), SLOTS)
-				setrootid(scratch, ldepth + 1, lfrontiers + 1, SLOTS)
+				setrootid(scratch, ldepth + 1,
+						lfrontiers + rfrontiers, SLOTS)
 				table[i].append(wrap(scratch, SLOTS))
 		if nodes[i].right >= 0:  # binary node
 			# left node as frontier with all rfrags
-- 
2.43.0


From a92ce4cb6d43109758b94caee16ea14d90fd71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 127/162] fix: --twoterms ignored terminals below unary nodes

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c5a73e1..10d91b6 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -321,7 +321,7 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	elif TESTBIT(&matrix[b[j].left * SLOTS], a[i].left):
 		terms += extractat(matrix, result, a, b, a[i].left, b[j].left, SLOTS)
 	if a[i].right < 0:
-		return 0
+		return terms
 	elif TESTBIT(&matrix[b[j].right * SLOTS], a[i].right):
 		terms += extractat(matrix, result, a, b, a[i].right, b[j].right, SLOTS)
 	return terms
-- 
2.43.0


From 8e406cc9cdd8d2dc3e46e32c412e8084d3f8e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 128/162] fix: --twoterms failed for words not in the second
 treebank

---
 discodop/_fragments.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 10d91b6..c83cefb 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -666,9 +666,12 @@ cdef twoterminals(NodeArray a, Node *anodes,
 		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
 			continue
 		tmp = trees2.prodindex[anodes[i].prod]
+		if tmp is None:
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
-					and anodes[j].prod in lexicalprods):
+					and anodes[j].prod in lexicalprods
+					and trees2.prodindex[anodes[j].prod] is not None):
 				candidates |= tmp & trees2.prodindex[anodes[j].prod]
 	return candidates
 
-- 
2.43.0


From 6ee57dfbe031f572036d3ca0f506514d64bb56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 129/162] fix: --twoterms considered a tree beyond the end of
 the interval

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c83cefb..43956a5 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -182,7 +182,7 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					contentwordprods, lexicalprods):
 				if singletb and m <= n:
 					continue
-				elif start2 > m or m > end2:
+				elif start2 > m or m >= end2:
 					continue
 				elif m < 0 or m >= trees2.len:
 					raise ValueError('illegal index %d' % m)
-- 
2.43.0


From 6df7eddb5928310fc97e62285fecec37a0b5e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 130/162] fix: limit on number of matches was exceeded with
 multiple fragments

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 43956a5..34e8f7d 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -472,6 +472,8 @@ cpdef exactcountsslice(list bitsets, Ctrees trees1, Ctrees trees2,
 	candidatesarray = clone(uintarray, 0, False)
 	# compare one bitset to each tree for each unique fragment.
 	for n, wrapper in enumerate(bitsets):
+		if nummatches >= maxresults_:
+			break
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
-- 
2.43.0


From cd875c74d52fb3d66cd6b6df9c494936ec7c10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 131/162] fix: --debin discarded artificial frontier
 non-terminals, giving malformed fragments

---
 discodop/fragments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..8680bc3 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -520,8 +520,13 @@ def debinarize(fragments):
 		frag, sent = (discbrackettree(origfrag) if PARAMS['disc']
 				else brackettree(origfrag, detectdisc=False))
 		try:
+			# incomplete constituents: keep artificial frontier non-terminals
+			for node in frag.subtrees(lambda n: isinstance(n[0], int)
+					and sent[n[0]] is None):
+				node.label = node.label.replace('|<', '|\0<')
 			frag = writetree(unbinarize(frag), sent, 0,
 					'discbracket' if PARAMS['disc'] else 'bracket').strip()
+			frag = frag.replace('|\0<', '|<')
 		except Exception:  # pylint: disable=broad-except
 			result.append(origfrag)
 		else:
-- 
2.43.0


From 188818a1265641bc7e80865c25ce771db255fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 132/162] fix: fragments: wrong labels when binarizing bracket
 trees with 5 or more children

---
 discodop/_fragments.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 34e8f7d..d930fc3 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -1039,8 +1039,9 @@ cdef int readtree(
 					# collect labels
 					binchildren = children.pop()
 					binlabels = [labels.data.as_ints[m] for m in binchildren]
+					parentlabel = vocab.idtolabel(labels.data.as_ints[parent])
 					binlabel = vocab._getlabelid('%s|<%s.%s>' % (
-							vocab.idtolabel(labels.data.as_ints[parent]),
+							parentlabel,
 							vocab.idtolabel(binlabels[0]),
 							','.join(vocab.idtolabel(x)
 								for x in binlabels[1:])))
@@ -1060,8 +1061,7 @@ cdef int readtree(
 						else:
 							nodes[idx].right = idx + 1
 							binlabel2 = vocab._getlabelid('%s|<%s.%s>' % (
-									vocab.idtolabel(
-										labels.data.as_ints[parent]),
+									parentlabel,
 									','.join(vocab.idtolabel(x)
 										for x in binlabels[:m + 1]),
 									','.join(vocab.idtolabel(x)
-- 
2.43.0


From d3b0522b032b5341b2f7f502e8a81e54c51037c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 133/162] fix: fragments: --nofreq failed in combination with
 --cover

---
 discodop/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 8680bc3..8052be5 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -199,7 +199,8 @@ def regular(filenames, numproc, limit, encoding):
 		for a in cover:
 			if a not in fragments:
 				fragmentkeys.append(a)
-				counts.append(cover[a])
+				if counts is not None:
+					counts.append(cover[a])
 		logging.info('merged %d cover fragments '
 				'up to depth %d with max %d frontier non-terminals.',
 				len(fragmentkeys) - before, maxdepth, maxfrontier)
-- 
2.43.0


From 380fbe47635088077a8fc5b49c93f48e161c29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 134/162] fix: fragments: --alt applied repeatedly in batch
 mode with --complete

---
 discodop/fragments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 8052be5..8f633ea 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -542,8 +542,7 @@ def printfragments(fragments, counts, out=None):
 		if sys.stdout.encoding is None:
 			out = codecs.getwriter('utf8')(out)
 	if PARAMS['alt']:
-		for n, a in enumerate(fragments):
-			fragments[n] = altrepr(a)
+		fragments = [altrepr(a) for a in fragments]
 	if PARAMS['complete']:
 		logging.info('total number of matches: %d',
 				sum(sum(a) for a in counts)
-- 
2.43.0


From 6caa98f64cf8bd2d60acc65c89f11282123bc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:53 +0000
Subject: [PATCH 135/162] fix: fragments: wrong counts when second treebank has
 larger trees

---
 discodop/fragments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 8f633ea..c70a435 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -371,8 +371,12 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	# the size of bitsets is determined by both treebanks
+	maxnodes = max(trees1.maxnodes, PARAMS['trees2'].maxnodes
+			if PARAMS.get('trees2') else 0)
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=maxnodes)
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From 6e1ea4d8580c035a25661d217fe9fa7f823019ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 136/162] fix: fragments: --complete failed with multiple
 processes

---
 discodop/fragments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index c70a435..b204c09 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -132,6 +132,7 @@ def main(argv=None):
 def regular(filenames, numproc, limit, encoding):
 	"""non-batch processing. multiprocessing optional."""
 	mult = 1
+	dowork = None
 	if PARAMS['approx']:
 		fragments = defaultdict(int)
 	else:
-- 
2.43.0


From 353c81ab30a96675bba99993598f2615cd8992ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:40 +0000
Subject: [PATCH 137/162] fix: treesearch: close() of FragmentSearcher always
 failed

---
 discodop/treesearch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..4cbfa9a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -600,10 +600,13 @@ class FragmentSearcher(CorpusSearcher):
 		self.pool = concurrent.futures.ProcessPoolExecutor(self.numproc)
 
 	def close(self):
+		if self.files is None:
+			return
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if a is not None:
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From 098225668c11f5ea2db293a569a774d86c2f2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:57 +0000
Subject: [PATCH 138/162] fix: treesearch: cached results with and without
 limit were confused

---
 discodop/treesearch.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 4cbfa9a..55a1991 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -357,7 +357,7 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if (maxresults or sys.maxsize) > maxresults2:
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -395,7 +395,8 @@ class TgrepSearcher(CorpusSearcher):
 							% (nodenum, tree))
 				x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc] = (
+					x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -415,7 +416,7 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if (maxresults or sys.maxsize) > maxresults2:
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -441,7 +442,8 @@ class TgrepSearcher(CorpusSearcher):
 					match2 = set()
 				x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets] = (
+					x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -684,7 +686,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if (maxresults or sys.maxsize) > maxresults2:
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -718,7 +720,8 @@ class FragmentSearcher(CorpusSearcher):
 						high = list(high.subtrees()) + high.leaves()
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc] = (
+					x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -736,7 +739,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if (maxresults or sys.maxsize) > maxresults2:
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -770,7 +773,8 @@ class FragmentSearcher(CorpusSearcher):
 						match1, match2 = charindices(xsent, match1, match2)
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets] = (
+					x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -949,7 +953,7 @@ class RegexSearcher(CorpusSearcher):
 						start, end, True, True]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if (maxresults or sys.maxsize) > maxresults2:
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
@@ -965,7 +969,8 @@ class RegexSearcher(CorpusSearcher):
 				highlight = range(start, end)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
-					] = x, maxresults
+					] = (
+					x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
-- 
2.43.0


From 201a418c49d325bd860f807036fc651231654e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 139/162] fix: treesearch: order of results depended on timing
 and cache

---
 discodop/treesearch.py | 68 +++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 55a1991..158e216 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -255,7 +255,7 @@ class TgrepSearcher(CorpusSearcher):
 			breakdown=False):
 		if breakdown and indices:
 			raise NotImplementedError
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		result = OrderedDict()
 		jobs = {}
 		# %s the sentence number
@@ -287,7 +287,7 @@ class TgrepSearcher(CorpusSearcher):
 			filename = jobs[future]
 			self.cache['counts', query, filename, start, end, indices,
 					breakdown] = result[filename] = future.result()
-		return result
+		return OrderedDict((name, result[name]) for name in subset)
 
 	def batchcounts(self, queries, subset=None, start=None, end=None):
 		subset = subset or self.files
@@ -302,7 +302,7 @@ class TgrepSearcher(CorpusSearcher):
 						for _, queryno in self._query(
 							queries, x, fmt, start, end, None)).items())],
 					filename)] = filename
-		for future in self._as_completed(jobs):
+		for future in jobs:  # in order
 			filename = jobs[future]
 			yield filename, future.result()
 
@@ -321,7 +321,7 @@ class TgrepSearcher(CorpusSearcher):
 					lambda x: list(self._query(
 						queries, x, fmt, start, end, maxresults)),
 					filename)] = filename
-		for future in self._as_completed(jobs):
+		for future in jobs:  # in order
 			filename = jobs[future]
 			result = []
 			for sentno, line in future.result():
@@ -343,13 +343,13 @@ class TgrepSearcher(CorpusSearcher):
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
 			nofunc=False, nomorph=False, detectdisc=True, mergedisc=False):
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		# %s the sentence number
 		# %w complete tree in bracket notation
 		# %h the tree matched by the head (first) node of the pattern
 		# %nh the depth-first pre-order node number of the tree head
 		fmt = r'%s\n%w\n%h\n%nh:::\n'
-		result = []
+		result = {}
 		jobs = {}
 		for filename in subset:
 			try:
@@ -363,7 +363,7 @@ class TgrepSearcher(CorpusSearcher):
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -397,18 +397,18 @@ class TgrepSearcher(CorpusSearcher):
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc] = (
 					x, maxresults or sys.maxsize)
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for filename in subset for a in result[filename]]
 
 	def sents(self, query, subset=None, start=None, end=None, maxresults=100,
 			brackets=False):
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		# %s the sentence number
 		# %w complete tree in bracket notation
 		# %h the tree matched by the head (first) node of the pattern
 		# %yh %zh the terminal index of the first/last terminal in the match
 		fmt = r'%s\n%w\n%h\n%yh\n%zh:::\n'
-		result = []
+		result = {}
 		jobs = {}
 		for filename in subset:
 			try:
@@ -422,7 +422,7 @@ class TgrepSearcher(CorpusSearcher):
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -444,8 +444,8 @@ class TgrepSearcher(CorpusSearcher):
 			self.cache['sents', query, filename,
 					start, end, brackets] = (
 					x, maxresults or sys.maxsize)
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for filename in subset for a in result[filename]]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=True, sents=False):
@@ -622,7 +622,7 @@ class FragmentSearcher(CorpusSearcher):
 					(filename, OrderedDict(
 						(query, a) for query, a in zip(queries, values)))
 					for filename, values in result)
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		if self.macros is not None:
 			query = query.format(**self.macros)
 		result = OrderedDict()
@@ -653,7 +653,7 @@ class FragmentSearcher(CorpusSearcher):
 				result[filename] = [b for a in tmp for b in a]
 			else:
 				result[filename] = sum(tmp)
-		return result
+		return OrderedDict((name, result[name]) for name in subset)
 
 	def batchcounts(self, queries, subset=None, start=None, end=None):
 		subset = subset or self.files
@@ -668,16 +668,16 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
+		for future in jobs:  # in order
 			filename = jobs[future]
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
 			nofunc=False, nomorph=False, detectdisc=True, mergedisc=False):
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = {}
 		jobs = {}
 		cquery = None
 		for filename in subset:
@@ -696,7 +696,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -722,15 +722,15 @@ class FragmentSearcher(CorpusSearcher):
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc] = (
 					x, maxresults or sys.maxsize)
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for filename in subset for a in result[filename]]
 
 	def sents(self, query, subset=None, start=None, end=None,
 			maxresults=100, brackets=False):
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = {}
 		jobs = {}
 		cquery = None
 		for filename in subset:
@@ -749,7 +749,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -775,8 +775,8 @@ class FragmentSearcher(CorpusSearcher):
 			self.cache['sents', query, filename,
 					start, end, brackets] = (
 					x, maxresults or sys.maxsize)
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for filename in subset for a in result[filename]]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=False, sents=False):
@@ -914,7 +914,7 @@ class RegexSearcher(CorpusSearcher):
 			breakdown=False):
 		if breakdown and indices:
 			raise NotImplementedError
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		if self.macros is not None:
 			query = query.format(**self.macros)
 		result = OrderedDict()
@@ -936,16 +936,16 @@ class RegexSearcher(CorpusSearcher):
 			filename = jobs[future]
 			self.cache['counts', query, filename, start, end, indices, False,
 					breakdown] = result[filename] = future.result()
-		return result
+		return OrderedDict((name, result[name]) for name in subset)
 
 	def sents(self, query, subset=None, start=None, end=None, maxresults=100,
 			brackets=False):
 		if brackets:
 			raise ValueError('not applicable with plain text corpus.')
-		subset = subset or self.files
+		subset = list(subset or self.files)
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = {}
 		jobs = {}
 		for filename in subset:
 			try:
@@ -961,7 +961,7 @@ class RegexSearcher(CorpusSearcher):
 						True, True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -971,8 +971,8 @@ class RegexSearcher(CorpusSearcher):
 			self.cache['sents', query, filename, start, end, True, True
 					] = (
 					x, maxresults or sys.maxsize)
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for filename in subset for a in result[filename]]
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
 			nofunc=False, nomorph=False, detectdisc=True, mergedisc=True):
-- 
2.43.0


From 137fd523fdcf0998aec0e88350b219a917632784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 140/162] fix: treesearch: regex results were cached under the
 wrong interval

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 158e216..e779ded 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -965,8 +965,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = (
-- 
2.43.0


From b3a4ca9c002d464c7ed202b068b7eef109cde30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:40 +0000
Subject: [PATCH 141/162] fix: treesearch: no highlighting when labels are
 filtered

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index e779ded..efd8f57 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -703,6 +703,7 @@ class FragmentSearcher(CorpusSearcher):
 			for matches in future.result():
 				for sentno, treestr, match in matches:
 					treestr = filterlabels(treestr, nofunc, nomorph)
+					match = filterlabels(match, nofunc, nomorph)
 					# FIXME: this highlights the whole subtree, of which
 					# frag may be a subgraph.
 					treestr = treestr.replace(
-- 
2.43.0


From b277c5347d3bdd4043db1577489c5339db6dad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:40 +0000
Subject: [PATCH 142/162] fix: treesearch: parts of words were removed along
 with function tags

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index efd8f57..a6ee249 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -39,7 +39,7 @@ LEAFINDICES = re.compile(r' ([0-9]+)=')
 LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
-FUNC_TAGS = re.compile(r'-\w+')
+FUNC_TAGS = re.compile(r'(\([^-() ]+)(?:-\w+)+')
 
 CorpusInfo = namedtuple('CorpusInfo',
 		['len', 'numwords', 'numnodes', 'maxnodes'])
@@ -1267,7 +1267,7 @@ class FIFOOrederedDict(OrderedDict):
 def filterlabels(line, nofunc, nomorph):
 	"""Remove morphological and/or grammatical function labels from tree(s)."""
 	if nofunc:
-		line = FUNC_TAGS.sub('', line)
+		line = FUNC_TAGS.sub(r'\1', line)
 	if nomorph:
 		line = MORPH_TAGS.sub(lambda g: g.group(1) + g.group(2), line)
 	return line
-- 
2.43.0


From d29661ccdac76f1f35ac378d86cf7922963dee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 143/162] fix: treesearch: unseen words in queries matched
 anything

---
 discodop/_fragments.pyx |  2 +-
 discodop/containers.pxd |  2 +-
 discodop/containers.pyx | 16 +++++++++-------
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index d930fc3..7a9a73f 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -563,7 +563,7 @@ cdef getcandidates(Node *a, uint64_t *bitset, Ctrees trees, short alen,
 		i = iteratesetbits(bitset, SLOTS, &cur, &idx)
 		if i == -1 or i >= alen:  # FIXME. why is 2nd condition necessary?
 			break
-		if a[i].prod >= prodindexlen:
+		if a[i].prod < 0 or a[i].prod >= prodindexlen:
 			return None
 		indices.append(a[i].prod)
 	if isinstance(trees.prodindex, MultiRoaringBitmap):
diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index ea1743e..e34d4f7 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -655,7 +655,7 @@ cdef FatChartItem CFGtoFatChartItem(Label label, Idx start, Idx end)
 # start fragments stuff
 
 cdef packed struct Node:  # a node of a binary tree
-	int32_t prod  # >= 0: production ID; -1: unseen production
+	int32_t prod  # >= 0: production ID; <0: unseen production
 	int16_t left  # >= 0: array idx to child Node; <0: idx sent[-left - 1];
 	int16_t right  # >=0: array idx to child Node; -1: empty (unary Node)
 
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index eecb6d2..6bed135 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -786,7 +786,7 @@ cdef class Vocabulary:
 	cdef bint islexical(self, int prodno):
 		cdef Rule *rule
 		if prodno < 0:
-			return False
+			return prodno == -3  # see FixedVocabulary.getprod()
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
 		return rule.args != 0 and rule.lengths == 0
@@ -1019,34 +1019,36 @@ cdef class FixedVocabulary(Vocabulary):
 				for n in range(self.labelidx.len - 1)}
 
 	cdef int getprod(self, tuple r, tuple yf) except -2:
-		"""Lookup production ID. Return -1 when not seen before."""
+		"""Lookup production ID. Return -1 when not seen before;
+		-3 for an unseen lexical production, which is not a frontier."""
 		cdef Rule rule
 		cdef char *tmp = <char *>&rule
+		cdef int unseen = -3 if len(r) == 2 and r[1] == 'Epsilon' else -1
 		res = self.labels.get(r[0], None)
 		if res is None:
-			return -1
+			return unseen
 		rule.lhs = res
 		res = self.labels.get(r[1], None) if len(r) > 1 else 0
 		if res is None:
-			return -1
+			return unseen
 		rule.rhs1 = res
 		if len(r) > 2:
 			res = self.labels.get(r[2], None)
 			if res is None:
-				return -1
+				return unseen
 			rule.rhs2 = res
 		else:
 			rule.rhs2 = 0
 		if rule.rhs1 == 0 and len(r) > 1:
 			res = self.labels.get(yf[0], None)
 			if res is None:
-				return -1
+				return unseen
 			rule.args = res
 			rule.lengths = 0
 		else:
 			getyf(yf, &rule.args, &rule.lengths)
 		prod = <bytes>tmp[:sizeof(Rule)]
-		return self.prods.get(prod, -1)
+		return self.prods.get(prod, unseen)
 
 
 cdef inline gettree(list result, Node *tree, Vocabulary vocab, int i,
-- 
2.43.0


From 952a8a291e54616dafd3ef863af612e13355eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 144/162] fix: treesearch: words outside of matching fragment
 were marked as match

---
 discodop/treesearch.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index a6ee249..fdfc4b8 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -36,7 +36,6 @@ Usage: discodop treesearch [-e (tgrep2|frag|regex)] [-t|-s|-c] \
 CACHESIZE = 32767
 GETLEAVES = re.compile(r' (?:[0-9]+=)?([^ ()]+)(?=[ )])')
 LEAFINDICES = re.compile(r' ([0-9]+)=')
-LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
 FUNC_TAGS = re.compile(r'(\([^-() ]+)(?:-\w+)+')
@@ -734,6 +733,7 @@ class FragmentSearcher(CorpusSearcher):
 		result = {}
 		jobs = {}
 		cquery = None
+		frags = self._read_query(query, disc=self.disc)
 		for filename in subset:
 			try:
 				x, maxresults2 = self.cache['sents', query, filename,
@@ -754,7 +754,7 @@ class FragmentSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for frag, matches in zip(query.splitlines(), future.result()):
+			for frag, matches in zip(frags, future.result()):
 				for sentno, treestr, match in matches:
 					if brackets:
 						sent = treestr
@@ -765,12 +765,9 @@ class FragmentSearcher(CorpusSearcher):
 					else:
 						_, xsent = discbrackettree(treestr)
 						sent = ' '.join(xsent)
-						fragwords = set(GETLEAVES.findall(frag))
-						match1 = {int(a) for a, b
-								in LEAFINDICESWORDS.findall(match)
-								if b in fragwords}
-						match2 = {int(a) for a, _
-								in LEAFINDICESWORDS.findall(match)}
+						subtree, _ = discbrackettree(match)
+						match1 = matchedwords(subtree, *frag)
+						match2 = set(subtree.leaves())
 						match1, match2 = charindices(xsent, match1, match2)
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
@@ -804,16 +801,20 @@ class FragmentSearcher(CorpusSearcher):
 		return CorpusInfo(len=corpus.len, numwords=corpus.numwords,
 				numnodes=corpus.numnodes, maxnodes=corpus.maxnodes)
 
-	def _parse_query(self, query, disc=False):
-		"""Prepare fragment query."""
+	def _read_query(self, query, disc=False):
+		"""Return list of binarized fragments in query."""
 		if isinstance(query, list):
 			qitems = (brackettree(a, detectdisc=True) for a in query)
 		else:
 			qitems = treebank.incrementaltreereader(
 					io.StringIO(query), strict=True, robust=False)
-		qitems = (
+		return [
 				(binarize(handledisc(item[0]) if disc else item[0], dot=True),
-				item[1]) for item in qitems)
+				item[1]) for item in qitems]
+
+	def _parse_query(self, query, disc=False):
+		"""Prepare fragment query."""
+		qitems = self._read_query(query, disc=disc)
 		# FIXME: this function could be parallelized.
 		queries = _fragments.getctrees(qitems, vocab=self.vocab, index=False)
 		if not queries['trees1']:
@@ -1273,6 +1274,18 @@ def filterlabels(line, nofunc, nomorph):
 	return line
 
 
+def matchedwords(tree, frag, fragsent):
+	"""Return indices of words in tree that are part of a matching fragment.
+
+	>>> frag, sent = brackettree('(NP (DT the) (NN ))')
+	>>> tree, _ = brackettree('(NP (DT the) (NN the))')
+	>>> matchedwords(tree, frag, sent)
+	{0}"""
+	if isinstance(frag[0], int):
+		return set() if fragsent[frag[0]] is None else set(tree.leaves())
+	return {n for a, b in zip(tree, frag) for n in matchedwords(a, b, fragsent)}
+
+
 def charindices(sent, indices, indices2=None):
 	"""Project token indices to character indices.
 
-- 
2.43.0


From c617b63c10f76acd43c43869fbfd50600254e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:51 +0000
Subject: [PATCH 145/162] fix: treesearch: indexes of other files in the same
 directory were used

---
 discodop/treesearch.py  | 15 +++++++++++----
 docs/cli/treesearch.rst |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index fdfc4b8..c218df9 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -11,6 +11,7 @@ import csv
 import sys
 import mmap
 import array
+import hashlib
 import tempfile
 import subprocess
 import multiprocessing
@@ -566,8 +567,7 @@ class FragmentSearcher(CorpusSearcher):
 		super().__init__(files, macros, numproc)
 		self.disc = False
 		newvocab = True
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
+		self.vocabpath = _indexname(files, 'treesearchvocab')
 		if os.path.exists(self.vocabpath):
 			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
@@ -881,8 +881,7 @@ class RegexSearcher(CorpusSearcher):
 				self.macros = dict(line.strip().split('=', 1) for line in tmp)
 		self.fileno = {filename: n for n, filename in enumerate(sorted(files))}
 		maxmtime = max(os.stat(a).st_mtime for a in files)
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.lineidxpath = os.path.join(path, 'treesearchline.idx')
+		self.lineidxpath = _indexname(files, 'treesearchline')
 		if os.path.exists(self.lineidxpath):
 			mtime = os.stat(self.lineidxpath).st_mtime
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
@@ -1224,6 +1223,14 @@ def _getoffsets(lineno, lineindex, data):
 	return offset, nextoffset
 
 
+def _indexname(files, prefix):
+	"""Return filename for index of this particular set of files."""
+	files = sorted(files)
+	key = '\n'.join(os.path.abspath(a) for a in files)
+	return os.path.join(os.path.dirname(files[0]), '%s-%s.idx' % (
+			prefix, hashlib.md5(key.encode('utf8')).hexdigest()))
+
+
 def _indexfile(filename):
 	"""Create bitmap with locations of non-empty lines."""
 	result = RoaringBitmap()
diff --git a/docs/cli/treesearch.rst b/docs/cli/treesearch.rst
index af4fa63..e76b2dd 100644
--- a/docs/cli/treesearch.rst
+++ b/docs/cli/treesearch.rst
@@ -74,7 +74,7 @@ e.g., to handle punctuation, and include functional or morphological tags.
 
 A cached copy of the treebank is created in an indexed format; given ``filename.mrg``,
 this indexed version is stored as ``filename.mrg.ct`` (in the same directory).
-Another file, ``treesearchvocab.idx``, contains a global index of productions;
+Another file, ``treesearchvocab-*.idx``, contains a global index of productions;
 this index should automatically be recreated when the list of files changes or
 any file is updated.
 For the treesearch web interface, these indexed files need to be created in advance.
@@ -133,7 +133,7 @@ resulting RE will match the second character::
 More information: https://docs.python.org/3/library/re.html#regular-expression-syntax
 
 This query engine creates a cached index of line numbers in all files
-``treesearchline.idx``; this index should be recreated automatically when
+``treesearchline-*.idx``; this index should be recreated automatically when
 the list of files changes or any file is updated.
 Install https://github.com/andreasvc/pyre2
 for faster queries using linear time deterministic finite automata.
-- 
2.43.0


From 35d1ee6f736027fe73405bcab2f8f5d32a883adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:16 +0000
Subject: [PATCH 146/162] fix: treesearch: wrong or no statistics for text
 files

---
 discodop/treesearch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index c218df9..0fb92d6 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1045,12 +1045,14 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		# the last item in the index is the end of the file
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
 			with openread(filename) as inp:
 				data = inp.read()
 		else:
-			_, data = self.files[filename]
+			_, buf = self.files[filename]
+			data = buf[:].decode('utf8')
 		numwords = data.count(' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
-- 
2.43.0


From dc96e5ed2bc1f23841111a69c9a7e94360de9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:16 +0000
Subject: [PATCH 147/162] fix: treesearch: searching text files failed on empty
 files or intervals

---
 discodop/treesearch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 0fb92d6..b3111e3 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -894,6 +894,8 @@ class RegexSearcher(CorpusSearcher):
 			self.lineindex = MultiRoaringBitmap(tmp, filename=self.lineidxpath)
 		if inmemory:
 			for filename in self.files:
+				if os.stat(filename).st_size == 0:  # cannot be mapped
+					continue
 				fileno = os.open(filename, os.O_RDONLY)
 				buf = mmap.mmap(fileno, 0, access=mmap.ACCESS_READ)
 				self.files[filename] = (fileno, buf)
@@ -1110,7 +1112,7 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 	lastline = end is None or end > len(lineindex) - 1
 	if lastline:
 		end = len(lineindex) - 1
-	if start and start > len(lineindex):
+	if (start or 1) >= len(lineindex):  # no sentences in this interval
 		return result
 	startidx = lineindex.select(start - 1 if start else 0)
 	endidx = lineindex.select(end)
@@ -1124,8 +1126,6 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 			startidx, endidx = 0, endidx - chunkoffset
 			data = tmp.read(endidx)
 		try:
-			if (start or 0) >= len(lineindex):
-				return result
 			if indices or sents:
 				for match in islice(
 						pattern.finditer(data, startidx, endidx), maxresults):
@@ -1172,8 +1172,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 		result = []
 	else:
 		result = array.array('I')
-	if start and start >= len(lineindex):
-		return result
+	if (start or 1) >= len(lineindex):  # no sentences in this interval
+		return result if sents else array.array('I', [0] * len(patterns))
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
 		try:
-- 
2.43.0


From 816be2d4e738b3388335935d3bd2c7cc32d31403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:16 +0000
Subject: [PATCH 148/162] fix: treesearch: sentences included blank lines after
 them

---
 discodop/treesearch.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index b3111e3..cb18d6c 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1043,7 +1043,7 @@ class RegexSearcher(CorpusSearcher):
 					offset, nextoffset = _getoffsets(lineno, lineindex, None)
 					tmp.seek(offset)
 					result.append(tmp.read(nextoffset - offset
-							).rstrip(b'\n').decode('utf8'))
+							).split(b'\n', 1)[0].decode('utf8'))
 		return result
 
 	def getinfo(self, filename):
@@ -1138,7 +1138,8 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					offset, nextoffset = _getoffsets(lineno, lineindex, None)
 					offset -= chunkoffset
 					nextoffset -= chunkoffset
-					sent = data[offset:nextoffset].rstrip(b'\n').decode('utf8')
+					sent = data[offset:nextoffset].split(b'\n', 1)[0].decode(
+							'utf8')
 					mstart = len(data[offset:mstart].decode('utf8'))
 					mend = len(data[offset:mend].decode('utf8'))
 					# (lineno, sent, startspan, endspan)
@@ -1218,10 +1219,11 @@ def _getoffsets(lineno, lineindex, data):
 	else:
 		raise IndexError
 	nextoffset = lineindex.select(lineno)
-	# there is at least one newline, but there may be more
-	# because empty lines are not indexed.
-	while data is not None and data[nextoffset - 1] == 10:  # b'\n':
-		nextoffset -= 1
+	# there may be more than one newline, because blank lines are not indexed.
+	if data is not None:
+		newline = data.find(b'\n', offset, nextoffset)
+		if newline != -1:
+			nextoffset = newline
 	return offset, nextoffset
 
 
-- 
2.43.0


From cb211c053c4f79a324b2db5269ef7822a5ab9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:16 +0000
Subject: [PATCH 149/162] fix: treesearch: breakdown of regex with groups

---
 discodop/treesearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index cb18d6c..b5c494a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1146,9 +1146,9 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					result.append((lineno, sent, mstart, mend))
 			else:
 				if breakdown:
-					matches = pattern.findall(
-							data, startidx, endidx)[:maxresults]
-					result.update(a.decode('utf8') for a in matches)
+					matches = islice(pattern.finditer(
+							data, startidx, endidx), maxresults)
+					result.update(a.group().decode('utf8') for a in matches)
 				else:
 					try:
 						result = pattern.count(data, startidx, endidx)
-- 
2.43.0


From 71563fa133ef6c59af8df482b7c0211dcf58e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 150/162] fix: treesearch: regexes matched bytes instead of
 characters

---
 discodop/treesearch.py | 62 +++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index b5c494a..f3ecd79 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1091,10 +1091,38 @@ def _regex_parse_query(query, flags):
 		except ValueError:
 			pass
 	if pattern is None:
-		pattern = re.compile(query.encode('utf8'), flags=flags)
+		pattern = re.compile(query, flags=flags)
 	return pattern
 
 
+def _regex_finditer(pattern, data, startidx, endidx):
+	"""Yield (start, end) byte offsets of matches in UTF-8 encoded data.
+
+	Patterns of ``re2`` are matched directly; with the ``re`` module,
+	the text needs to be decoded to match characters instead of bytes."""
+	if isinstance(pattern.pattern, bytes):
+		for match in pattern.finditer(data, startidx, endidx):
+			yield match.span()
+		return
+	text = data[startidx:endidx].decode('utf8', 'surrogateescape')
+	offset, last = startidx, 0
+	for match in pattern.finditer(text):
+		mstart, mend = match.span()
+		offset += len(text[last:mstart].encode('utf8', 'surrogateescape'))
+		length = len(text[mstart:mend].encode('utf8', 'surrogateescape'))
+		yield offset, offset + length
+		offset, last = offset + length, mend
+
+
+def _regex_count(pattern, data, startidx, endidx):
+	"""Return number of matches of pattern in data."""
+	try:
+		return pattern.count(data, startidx, endidx)
+	except AttributeError:
+		return sum(1 for _ in _regex_finditer(
+				pattern, data, startidx, endidx))
+
+
 def _regex_run_query(pattern, filename, fileno, lineidxpath,
 		start=None, end=None, maxresults=None, indices=False, sents=False,
 		breakdown=False):
@@ -1127,10 +1155,8 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 			data = tmp.read(endidx)
 		try:
 			if indices or sents:
-				for match in islice(
-						pattern.finditer(data, startidx, endidx), maxresults):
-					mstart = match.start()
-					mend = match.end()
+				for mstart, mend in islice(_regex_finditer(
+						pattern, data, startidx, endidx), maxresults):
 					lineno = lineindex.rank(mstart + chunkoffset)
 					if not sents:
 						result.append(lineno)
@@ -1146,14 +1172,12 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					result.append((lineno, sent, mstart, mend))
 			else:
 				if breakdown:
-					matches = islice(pattern.finditer(
-							data, startidx, endidx), maxresults)
-					result.update(a.group().decode('utf8') for a in matches)
+					matches = islice(_regex_finditer(
+							pattern, data, startidx, endidx), maxresults)
+					result.update(data[mstart:mend].decode('utf8')
+							for mstart, mend in matches)
 				else:
-					try:
-						result = pattern.count(data, startidx, endidx)
-					except AttributeError:
-						result = len(pattern.findall(data, startidx, endidx))
+					result = _regex_count(pattern, data, startidx, endidx)
 					result = max(result, maxresults or 0)
 		finally:
 			if isinstance(data, mmap.mmap):
@@ -1183,11 +1207,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 					and end < len(lineindex) else len(data))
 			if sents:
 				for pattern in patterns:
-					for match in islice(
-							pattern.finditer(data, startidx, endidx),
-							maxresults):
-						mstart = match.start()
-						mend = match.end()
+					for mstart, mend in islice(_regex_finditer(
+							pattern, data, startidx, endidx), maxresults):
 						lineno = lineindex.rank(mstart)
 						offset, nextoffset = _getoffsets(
 								lineno, lineindex, data)
@@ -1198,11 +1219,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 						result.append((lineno, sent, range(mstart, mend), ()))
 			else:
 				for pattern in patterns:
-					try:
-						result.append(pattern.count(data, startidx, endidx))
-					except AttributeError:
-						result.append(len(pattern.findall(
-								data, startidx, endidx)))
+					result.append(_regex_count(
+							pattern, data, startidx, endidx))
 		finally:
 			data.close()
 			if hasattr(mrb, 'close'):
-- 
2.43.0


From aa710193b8e8adbd0b5d59d81ac3a43fca4ff00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:50 +0000
Subject: [PATCH 151/162] fix: ostag: weight of adjunction was multiplied by
 the size of the auxiliary tree

---
 discodop/grammar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index d141539..aeeeb45 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -587,11 +587,11 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 							'\t'.join(child.label for child in node),
 							yfstr)
 					rules[rule] += 1
-			# rule type 3 (type 4 eliminated):
-			# M => N(M) s.t. N is an aux root node
-			for m in adjsites[REMOVEDEC.sub('', tree.label)]:
-				rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
-				rules[rule] += weight
+		# rule type 3 (type 4 eliminated):
+		# M => N(M) s.t. N is an aux root node
+		for m in adjsites[REMOVEDEC.sub('', tree.label)]:
+			rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
+			rules[rule] += weight
 		cnt += 1
 		if cnt % 100 == 0:
 			logging.info('proccessed aux tree %d / %d', cnt, len(auxtrees))
-- 
2.43.0


From 9aa7f01211a9697c3b93a1af606968d6b3ddf13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:50 +0000
Subject: [PATCH 152/162] fix: ostag: weights of rules were truncated

---
 discodop/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index aeeeb45..6b20aa4 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -601,10 +601,10 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 		for ((lhs, _), (token, )), weight in extrarules.items():
 			lexicalrules[token][lhs] += weight
 	# NB: assumes normalization is taken care of in Grammar() constructor
-	rulesstr = ''.join('%s\t%d\n' % (rule, weight)
+	rulesstr = ''.join('%s\t%s\n' % (rule, weightstr(weight))
 			for rule, weight in rules.items())
 	lexicon = ''.join('%s\t%s\n' % (word,
-			'\t'.join('%s %g' % (lhs, weight)
+			'\t'.join('%s %s' % (lhs, weightstr(weight))
 				for lhs, weight in lexicalrules[word].items()))
 			for word in lexicalrules)
 	return rulesstr, lexicon
-- 
2.43.0


From ac790b6efd96acdfa62a1c2c9122ee26d1cdd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:18 +0000
Subject: [PATCH 153/162] fix: ostag: words with parentheses were lost with an
 unknown word model

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 6b20aa4..d02baf0 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -599,7 +599,7 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 
 	if extrarules is not None:
 		for ((lhs, _), (token, )), weight in extrarules.items():
-			lexicalrules[token][lhs] += weight
+			lexicalrules[unescape(token)][lhs] += weight
 	# NB: assumes normalization is taken care of in Grammar() constructor
 	rulesstr = ''.join('%s\t%s\n' % (rule, weightstr(weight))
 			for rule, weight in rules.items())
-- 
2.43.0


From e7c66a32e30a87f47f2dca6de70842266783d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:18 +0000
Subject: [PATCH 154/162] fix: ostag as first stage failed

---
 discodop/runexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index 6ede6cb..2e2ce3b 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -420,8 +420,9 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 			else:
 				raise ValueError('unrecognized DOP model: %r' % stage.dop)
 			nodes = sum(len(list(a.subtrees())) for a in traintrees)
-			msg = grammar.grammarinfo(xgrammar)
+			msg = ''
 			if rules is None:
+				msg = grammar.grammarinfo(xgrammar)
 				rules, lex = grammar.writegrammar(xgrammar)
 			rulesfile = '%s/%s.rules.gz' % (resultdir, stage.name)
 			lexiconfile = '%s/%s.lex.gz' % (resultdir, stage.name)
-- 
2.43.0


From 821e7ce4b30695f53d2fa5078719076e7988eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:52 +0000
Subject: [PATCH 155/162] fix: drawings: labels of nodes with secondary edges
 in both directions

The label of such a node was overwritten, so that either its index or the
references to other nodes were lost, depending on the order of nodes.
---
 discodop/tree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 4b2643e..5df8171 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1335,12 +1335,11 @@ class DrawTree(object):
 				edges[ids[i + (j, )]] = ids[i]
 
 		# handle secondary edges
-		labels = {}
+		labels, marks, refs = {}, {}, {}
 		for a in nodes:
-			labels.setdefault(a,
-					(nodes[a].label
-							if isinstance(nodes[a], Tree)
-							else nodes[a]))
+			labels[a] = (nodes[a].label
+					if isinstance(nodes[a], Tree)
+					else nodes[a])
 			if (secedge and isinstance(nodes[a], Tree)
 					and nodes[a].source is not None):
 				coindexes = []
@@ -1350,16 +1349,17 @@ class DrawTree(object):
 					for b, node in nodes.items():
 						if (getattr(node, 'source', None) is not None
 								and node.source[0] == '#%s' % secedgeparent):
-							labels[b] = (node.label
-									+ '=%d' % (int(secedgeparent) - 500))
+							marks[b] = '=%d' % (int(secedgeparent) - 500)
 							break
 					else:
 						continue  # skip secondary edge to missing node
 					coindexes.append('%s:%d' % (
 							secedgelabel, int(secedgeparent) - 500))
 				if coindexes:
-					labels[a] = '%s[%s]' % (nodes[a].label,
-							','.join(coindexes))
+					refs[a] = '[%s]' % ','.join(coindexes)
+		# a node can be both the target and the origin of secondary edges
+		for a in marks.keys() | refs.keys():
+			labels[a] = nodes[a].label + marks.get(a, '') + refs.get(a, '')
 
 		return nodes, coords, edges, labels
 
-- 
2.43.0


From b05b0e6557fa876f749cbd9ffac7dd9fc24905f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:51 +0000
Subject: [PATCH 156/162] fix: binarization: node for switch of direction
 ignored numeric identifiers

---
 discodop/treetransforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 1167b37..f7d57f0 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -250,8 +250,10 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 						siblings = 'm:' if direction else ''
 						if markhead and headidx is not None:
 							siblings += childlabels[headidx] + ';'
-					newnode.label = ''.join((
-						origlabel, childchar, '<', siblings, '>', parents))
+					mark = '<%s>%s' % (siblings, parents)
+					if ids is not None:  # numeric identifier
+						mark = '<%s>' % ids[mark]
+					newnode.label = ''.join((origlabel, childchar, mark))
 					curnode = newnode
 			assert len(childnodes) == 1 + (not rightmostunary)
 			curnode.extend(childnodes)
-- 
2.43.0


From c7aa0221f9b9815b9715af19081f446424fed837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 157/162] fix: splitTMP: compare label of head with POS

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index bf97744..75493ce 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -643,7 +643,7 @@ def ptbtransforms(name, tree, sent):
 							if isinstance(a, Tree) and a.type == HEAD)
 				except StopIteration:
 					break
-				if strip(hd) == 'POS' and i > 0:
+				if strip(hd.label) == 'POS' and i > 0:
 					hd = child[i - 1]
 				child = hd
 			if 'TMP' in functions(node):
-- 
2.43.0


From 1a151f01b872b22c863d3f872f4feb2f34df2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 158/162] fix: splitSGapped: consider each S separately

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 75493ce..5723131 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -617,9 +617,9 @@ def ptbtransforms(name, tree, sent):
 						node.label += STATESPLIT + strip(child.label)
 					break
 	elif name == 'splitSGapped':  # Stanford Parser splitSGapped=3
-		seenPredCat = seenCC = seenS = False
-		seenNP = 0
 		for node in tree.subtrees(lambda n: base(n, 'S')):
+			seenPredCat = seenCC = seenS = False
+			seenNP = 0
 			for child in node:
 				cat2 = child.label
 				if cat2.startswith('NP'):
-- 
2.43.0


From 85f91b65ed9fbdd6d3475d213283ed27236284be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 159/162] fix: mwnsel3: do not treat phrase as token

---
 discodop/treebanktransforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 5723131..8d1bd29 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -771,6 +771,7 @@ def ftbtransforms(name, tree, sent):
 		for t in tree.subtrees(lambda n: strip(n.label) == "MWN"
 				and len(n) == 3
 				and strip(n[0].label) == "N"
+				and isinstance(n[1][0], int)
 				and sent[n[1][0]] == "-"
 				and strip(n[2].label) == "N"):
 			t.label += STATESPLIT + "mwn3"
-- 
2.43.0


From be778ad976a5b8d8db85134934f0062dc10f6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:04 +0000
Subject: [PATCH 160/162] fix: ftbraisecompl: no empty constituents, no index
 past the end

---
 discodop/treebanktransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 8d1bd29..0153ddf 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -874,6 +874,7 @@ def ftbtransforms(name, tree, sent):
 		# http://www.lrec-conf.org/proceedings/lrec2010/pdf/392_Paper.pdf
 		for sbtree in tree.subtrees():
 			if (strip(sbtree.label) in ('VPinf', 'VPpart')
+					and len(sbtree) > 1
 					and strip(sbtree[0].label) in ('P', 'P+D', 'MWP')):
 				# raising the PPs of the VPinf constituents:
 				# (VPinf (P pour) (VN (VINF manger)))
@@ -898,8 +899,8 @@ def ftbtransforms(name, tree, sent):
 				# ==> (Ssub (C-S si) (Sint (NP (NPP Paul) (VN (V dort)) )))
 				# ignore punctuation
 				i = 2 if sbtree[0].label in PUNCTTAGS else 1
-				if (strip(sbtree[i - 1].label) in ('C', 'CC', 'CS', 'MWC')
-						and len(sbtree) > i):
+				if (len(sbtree) > i and strip(sbtree[i - 1].label)
+						in ('C', 'CC', 'CS', 'MWC')):
 					# store children to the right of C node, then remove them
 					children = sbtree[i:]
 					sbtree[i:] = []
-- 
2.43.0


From e80e1eb1cf9562e3c063362920f1532e3596a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:56 +0000
Subject: [PATCH 161/162] fix: ftbundocompounds: coordination of adjectives was
 not recognized

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 0153ddf..dc4246c 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -975,7 +975,7 @@ def ftbtransforms(name, tree, sent):
 					sbtrs = sbtrs[1:]
 				elif sbtrs[0].label == 'A':
 					if (len(sbtrs) > 2 and sbtrs[1].label == 'C'
-							and sbtrs[2] == 'A'):
+							and sbtrs[2].label == 'A'):
 						ap = make_AP(sbtrs[0:3], 'A C A')
 						np.append(ap)
 						sbtrs = sbtrs[3:]
-- 
2.43.0


From 27318fe05026be00e795981da1ae47b97ec1a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:41 +0000
Subject: [PATCH 162/162] fix: D-level of coindexed non-finite complement is 1

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index dc4246c..b389caa 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1611,7 +1611,7 @@ def dlevel(tree, lang='nl'):
 			vcid = node.source[WORD].lstrip('#')
 			for sib in node.parent:
 				if function(sib) == 'su' and hassecedge(sib, 'su', vcid):
-					return 2
+					return 1
 	# 0: simple sentence
 	return 0
 
-- 
2.43.0

