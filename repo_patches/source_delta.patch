From 2a6f6fc2e16be5ff08fe6c4e2a7ff01de958ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 01/37] fix: removing interval edges or nodes must clear the
 tree and leave no empty adjacency behind

---
 dynetworkx/classes/intervalgraph.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..a4f0084 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -609,17 +609,9 @@ class IntervalGraph(object):
         if n not in self._node:
             return
 
-        if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
-        else:
-            iedges = self.tree[begin:end]
-            for iedge in iedges:
-                if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+        for iedge in list(self.tree[begin:end]):
+            if iedge[0] == n or iedge[1] == n:
+                self.__remove_iedge(iedge)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -1087,16 +1079,6 @@ class IntervalGraph(object):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -1197,6 +1179,11 @@ class IntervalGraph(object):
         self._adj[iedge[0]][iedge[1]].pop(iedge, None)
         self._adj[iedge[1]][iedge[0]].pop(iedge, None)
 
+        # clean up empty dictionaries
+        if len(self._adj[iedge[0]][iedge[1]]) == 0:
+            self._adj[iedge[0]].pop(iedge[1], None)
+            self._adj[iedge[1]].pop(iedge[0], None)
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
-- 
2.43.0


From decbe58d691009341c04d1fd801bd8b6df550883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 02/37] fix: removing from the interval tree must not lose
 other intervals or leave stale bounds

---
 dynetworkx/classes/intervaldigraph.py |  2 +-
 dynetworkx/classes/intervalgraph.py   |  2 +-
 dynetworkx/classes/intervaltree.py    | 30 +++++++++++++++++----------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..9491bb7 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -986,5 +986,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a4f0084..871d28c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1263,7 +1263,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..ed0b777 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,19 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if root.left is None:
                 return root.right
-            return None
+            if root.right is None:
+                return root.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # two children: the in-order successor takes the place of the discarded node
+            successor = root.right
+            while successor.left:
+                successor = successor.left
+            successor.right = self.discard(root.right, successor)
+            successor.left = root.left
+            root = successor
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -196,17 +202,19 @@ class IntervalTree:
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
+            del self.nodes[(start, end)]
+            self.root = self.discard(self.root, node)
+        if self.root is None:
+            self.begin = float("inf")
+            self.end = float("-inf")
+            return
         if self.begin == start:
             traversal_node = self.root
             while traversal_node.left != None:
-                self.begin = traversal_node.left.low
                 traversal_node = traversal_node.left
+            self.begin = traversal_node.low
         if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.end = self.root.max
 
         return
 
-- 
2.43.0


From 392ebe56ee7b72f8ae2a5db93ab40279191bdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 03/37] fix: a query bound of 0 is a bound, and a missing bound
 leaves the interval tree query open

---
 dynetworkx/classes/intervaltree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ed0b777..1c59a1c 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -223,10 +223,10 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
+        if interval_start is None:
+            interval_start = float("-inf")
+        if interval_end is None:
+            interval_end = float("inf")
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From 617ec88af52b049a32db1fda991adcbfa39f817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 04/37] fix: unique timestamps must include events on the
 bounds, accept 0 as a bound and work on an empty graph

---
 dynetworkx/classes/intervaltree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 1c59a1c..d136465 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -234,9 +234,9 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -248,7 +248,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -259,9 +259,9 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -273,7 +273,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -282,9 +282,9 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -296,7 +296,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From b8d545967853c3d0d10f2167025470e67ca45b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 05/37] fix: reject a reversed interval also when one of its
 bounds is 0

---
 dynetworkx/classes/impulsedigraph.py  | 2 +-
 dynetworkx/classes/impulsegraph.py    | 2 +-
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..8f12304 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..ceae459 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -645,7 +645,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 9491bb7..edb8128 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -259,7 +259,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return self.edges(u, v, begin, end) is not None
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -589,7 +589,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -917,7 +917,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 871d28c..29d062d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -792,7 +792,7 @@ class IntervalGraph(object):
 
             return self.edges(u, v, begin, end) is not None
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1067,7 +1067,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
-- 
2.43.0


From 624873db63c5554745830870235fb453abf02153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:59 +0000
Subject: [PATCH 06/37] fix: adding an undirected edge again with its ends
 swapped must not duplicate it

---
 dynetworkx/classes/impulsegraph.py  | 4 ++++
 dynetworkx/classes/intervalgraph.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ceae459..ea74f5d 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -569,6 +569,10 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # the graph is undirected, an existing (v, u) edge with the same timestamp is the same edge
+        if v in self._adj and u in self._adj[v] and (v, u, t) in self._adj[v][u]:
+            u, v = v, u
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 29d062d..5962f5d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -671,6 +671,10 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # the graph is undirected, an existing (v, u) edge with the same interval is the same edge
+        if v in self._adj and u in self._adj[v] and (v, u, begin, end) in self._adj[v][u]:
+            u, v = v, u
+
         if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
             self._adj[u][v][(u, v, begin, end)].update(attr)
             self._adj[v][u][(u, v, begin, end)].update(attr)
-- 
2.43.0


From 00275116dd3a39a28d64605f7d88fef6b84a6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 07/37] fix: adding an impulse edge again updates its
 attributes instead of dropping them

---
 dynetworkx/classes/impulsedigraph.py | 4 ++--
 dynetworkx/classes/impulsegraph.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8f12304..c20a5a9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -236,8 +236,8 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        self._pred.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), attr).update(attr)
+        self._succ.setdefault(v, {}).setdefault(u, {}).setdefault((u, v, t), attr).update(attr)
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ea74f5d..426d102 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -577,8 +577,8 @@ class ImpulseGraph(object):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), attr).update(attr)
+        self._adj.setdefault(v, {}).setdefault(u, {}).setdefault((u, v, t), attr).update(attr)
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
-- 
2.43.0


From 8e367baf8ad637b8a3df438407c28ef10b38c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 08/37] fix: overlapping=False must match the exact interval in
 has_edge and remove_edge

---
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index edb8128..6472dad 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -257,7 +257,7 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._pred[u][v]
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -575,8 +575,8 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
+            iedge = (u, v, begin, end)
+            if iedge in self._pred[u][v]:
                 self.__remove_iedge(iedge)
             return
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5962f5d..9d4eb86 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -794,7 +794,7 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1057,9 +1057,10 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
+            for iedge in [(u, v, begin, end), (v, u, begin, end)]:
+                if iedge in self._adj[u][v]:
+                    self.__remove_iedge(iedge)
+                    return
             return
 
         iedges_to_remove = []
-- 
2.43.0


From c63d5cd4a090e33133d30b9f5ef23c5e5f71074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 09/37] fix: IntervalDiGraph can remove nodes and directed
 self-loops

---
 dynetworkx/classes/intervaldigraph.py | 34 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 6472dad..8d9abcc 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -78,6 +78,25 @@ class IntervalDiGraph(IntervalGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence of node n and all adjacent edges within the given interval.
+        See IntervalGraph.remove_node for the parameters.
+        """
+        if n not in self._node:
+            return
+
+        for iedge in list(self.tree[begin:end]):
+            if iedge[0] == n or iedge[1] == n:
+                self.__remove_iedge(iedge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, begin, end, **attr):
         """Add an edge between u and v, during interval [begin, end).
 
@@ -601,16 +620,6 @@ class IntervalDiGraph(IntervalGraph):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -967,6 +976,11 @@ class IntervalDiGraph(IntervalGraph):
         self._pred[iedge[0]][iedge[1]].pop(iedge, None)
         self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
+        # clean up empty dictionaries
+        if len(self._pred[iedge[0]][iedge[1]]) == 0:
+            self._pred[iedge[0]].pop(iedge[1], None)
+            self._succ[iedge[1]].pop(iedge[0], None)
+
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
         """Returns True if interval `iv` overlaps with begin and end.
-- 
2.43.0


From f4e47025c7c27ded76ace8ab2cbc1ae8921d6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:50 +0000
Subject: [PATCH 10/37] fix: edges() with a list of nodes must return the edges
 of every listed node

---
 dynetworkx/classes/impulsedigraph.py  | 16 ++++++++--------
 dynetworkx/classes/impulsegraph.py    | 16 ++++++++--------
 dynetworkx/classes/intervaldigraph.py | 14 +++++++-------
 dynetworkx/classes/intervalgraph.py   | 14 +++++++-------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c20a5a9..c8d9aa2 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -358,14 +358,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 426d102..5c5ce9c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -740,14 +740,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8d9abcc..3c6bae0 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -308,14 +308,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9d4eb86..289b09d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -826,14 +826,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
-- 
2.43.0


From 6680a9fb87c3d97e92ab150e399288a32910ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 11/37] fix: edges() must accept strings and tuples as single
 nodes

---
 dynetworkx/classes/impulsedigraph.py  | 8 ++------
 dynetworkx/classes/impulsegraph.py    | 8 ++------
 dynetworkx/classes/intervaldigraph.py | 8 ++------
 dynetworkx/classes/intervalgraph.py   | 8 ++------
 4 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c8d9aa2..a18bd32 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -458,14 +458,10 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
+        if not isinstance(u, (list, set)):
             u = [u]
 
-        try:
-            _ = (e for e in v)
-        except TypeError:
+        if not isinstance(v, (list, set)):
             v = [v]
 
         # Return All
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 5c5ce9c..6a18a30 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -840,14 +840,10 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
+        if not isinstance(u, (list, set)):
             u = [u]
 
-        try:
-            _ = (e for e in v)
-        except TypeError:
+        if not isinstance(v, (list, set)):
             v = [v]
 
         # Return All
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 3c6bae0..8f4f5e8 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -412,14 +412,10 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
+        if not isinstance(u, (list, set)):
             u = [u]
 
-        try:
-            _ = (e for e in v)
-        except TypeError:
+        if not isinstance(v, (list, set)):
             v = [v]
 
         # Return All
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 289b09d..b915474 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -937,14 +937,10 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
+        if not isinstance(u, (list, set)):
             u = [u]
 
-        try:
-            _ = (e for e in v)
-        except TypeError:
+        if not isinstance(v, (list, set)):
             v = [v]
 
         # Return All
-- 
2.43.0


From e8ba55b4effa6046b1aebf6148131c57af352381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 12/37] fix: a trained predictive model must not change or
 break the answers of edges()

---
 dynetworkx/classes/impulsedigraph.py  | 24 ++++++++++--------------
 dynetworkx/classes/impulsegraph.py    | 17 +++++++++--------
 dynetworkx/classes/intervaldigraph.py | 18 +++++++++---------
 dynetworkx/classes/intervalgraph.py   | 19 ++++++++++---------
 4 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a18bd32..75c1ec1 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -334,10 +334,6 @@ class ImpulseDiGraph(ImpulseGraph):
         self._model = model
 
     def __edges_node_first(self, u_list, v_list, begin, end):
-        if not isinstance(u_list, list):
-            u_list = [u_list]
-        if not isinstance(v_list, list):
-            v_list = [v_list]
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -473,30 +469,30 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 0:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(set(v))
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / ((graph_end - graph_begin) or 1)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
@@ -549,7 +545,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 6a18a30..d343373 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -855,30 +855,31 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 0:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(set(v))
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / ((graph_end - graph_begin) or 1)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                          or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8f4f5e8..1368a06 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -427,30 +427,30 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.number_of_edges > 0:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(set(v))
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / ((graph_end - graph_begin) or 1)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b915474..c5e1b58 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -952,30 +952,31 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.number_of_edges > 0:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(set(v))
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / ((graph_end - graph_begin) or 1)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                          or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
-- 
2.43.0


From 5d5a5f494ba8aa675dcd0c62a6d043c79be9a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 13/37] fix: a query at one instant must not yield impulse
 edges twice

---
 dynetworkx/classes/impulsedigraph.py | 1 +
 dynetworkx/classes/impulsegraph.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 75c1ec1..ab4b107 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -967,6 +967,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d343373..10a0bd8 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1071,6 +1071,7 @@ class ImpulseGraph(object):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
-- 
2.43.0


From 4dd20edc19d53a4ad1e563d55e2fdee08f176d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:09 +0000
Subject: [PATCH 14/37] fix: impulse edges() and degrees must honour inclusive
 and timestamp 0 on every query route

---
 dynetworkx/classes/impulsedigraph.py | 66 ++++++++++------------------
 dynetworkx/classes/impulsegraph.py   | 45 ++++++-------------
 2 files changed, 36 insertions(+), 75 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ab4b107..1f04536 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -333,7 +333,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -363,15 +363,15 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -462,11 +462,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
@@ -489,14 +489,14 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end)
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                           if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -616,7 +616,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -633,7 +633,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -687,9 +687,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -698,7 +698,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -747,16 +747,11 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -765,7 +760,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -818,7 +813,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -989,6 +984,10 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        # a single instant is always included, same as in __search_tree
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1003,27 +1002,6 @@ class ImpulseDiGraph(ImpulseGraph):
         if inclusive == (False, False):
             return begin < t < end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 10a0bd8..383387f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -719,7 +719,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -749,13 +749,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -848,11 +848,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
@@ -875,15 +875,15 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end)
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                           if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
                           or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -940,7 +940,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1093,6 +1093,10 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        # a single instant is always included, same as in __search_tree
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1365,27 +1369,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From 255eb4ebd40bb966a805ac3ac83b6a8464d6c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 15/37] fix: removing impulse edges or nodes must clear every
 index, silently and for directed graphs too

---
 dynetworkx/classes/impulsedigraph.py | 45 +++++++++++++++++----------
 dynetworkx/classes/impulsegraph.py   | 46 ++++++++++------------------
 2 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 1f04536..998a263 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -181,6 +181,25 @@ class ImpulseDiGraph(ImpulseGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence of node n and all adjacent edges within the given interval.
+        See ImpulseGraph.remove_node for the parameters.
+        """
+        if n not in self._node:
+            return
+
+        for edge in list(self.__search_tree(begin, end, inclusive)):
+            if edge[0] == n or edge[1] == n:
+                self.__remove_iedge(edge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, t, **attr):
         """Add an edge between u and v, at t.
 
@@ -623,16 +642,6 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
@@ -923,12 +932,16 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        self._pred[iedge[0]][iedge[1]].pop(iedge, None)
+        self._succ[iedge[1]][iedge[0]].pop(iedge, None)
+
+        # clean up empty timestamps and dictionaries
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        if len(self._pred[iedge[0]][iedge[1]]) == 0:
+            self._pred[iedge[0]].pop(iedge[1], None)
+            self._succ[iedge[1]].pop(iedge[0], None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 383387f..d570d36 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -499,19 +499,12 @@ class ImpulseGraph(object):
         if n not in self._node:
             return
 
-        if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
-        else:
-            remove_edges = []
-            for edge in self.__search_tree(begin, end, inclusive):
-                if edge[0] == n or edge[1] == n:
-                    remove_edges.append(edge)
-            for edge in remove_edges:
-                self.__remove_iedge(edge)
+        remove_edges = []
+        for edge in self.__search_tree(begin, end, inclusive):
+            if edge[0] == n or edge[1] == n:
+                remove_edges.append(edge)
+        for edge in remove_edges:
+            self.__remove_iedge(edge)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -947,16 +940,6 @@ class ImpulseGraph(object):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
 
@@ -1031,13 +1014,16 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
+        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
+
+        # clean up empty timestamps and dictionaries
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        if len(self._adj[iedge[0]][iedge[1]]) == 0:
+            self._adj[iedge[0]].pop(iedge[1], None)
+            self._adj[iedge[1]].pop(iedge[0], None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 555ccbe08271a4ec4edb1327d197702e7848ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 16/37] fix: directed interval degree changes keep event order
 and print nothing

---
 dynetworkx/classes/intervaldigraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 1368a06..266be94 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -700,7 +700,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -778,7 +778,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -854,10 +854,9 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From 17be692104bc53048c7851b5c2fd8ad8ebfb74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 17/37] fix: to_subgraph must export edges with every
 combination of data flags

---
 dynetworkx/classes/impulsegraph.py    |  2 +-
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d570d36..8b07680 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1170,7 +1170,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 266be94..a86f884 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -932,17 +932,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From 8d506839a21d4f63c16f776cbea0a178fa1c3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 18/37] fix: to_snapshots must accept float lengths and reject
 a length of 0

---
 dynetworkx/classes/impulsegraph.py  | 4 ++--
 dynetworkx/classes/intervalgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8b07680..29ad85d 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1265,10 +1265,10 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c5e1b58..a15b8ca 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1436,10 +1436,10 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 6bb21f2efd15805b315ba69a2759b9fa8720a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:00 +0000
Subject: [PATCH 19/37] fix: the last impulse snapshot must reach the end of
 the graph despite float rounding

---
 dynetworkx/classes/impulsegraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 29ad85d..b12b173 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1282,11 +1282,13 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                snapshot_end = max(snapshot_end, end)  # float rounding must not cut off the end
             snapshots.append(
                 self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                                 snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From 86e635946faa9205c1cad275f3e4beb2b2245abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:23 +0000
Subject: [PATCH 20/37] fix: to_snapshot_graph must insert exactly one snapshot
 per pair of consecutive timestamps

---
 dynetworkx/classes/intervalgraph.py | 55 ++++-------------------------
 1 file changed, 7 insertions(+), 48 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a15b8ca..e4a71da 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1529,63 +1529,22 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
-        # for each slice in following iterations
-        # We use a moving window specified by "begin" and "end" to slice each snapshots.
-        begin = None
+        time = set()  # this contains every distinct begin and end timestamp
         for node in self.tree.inOrder(self.tree.root):
             if node.low == node.high:  # this handles the case when someone uses interval graph as impulse graph
                 G.insert(graph=self.to_subgraph(begin=node.low, end=node.low, multigraph=multigraph, edge_data=edge_data
                                                 , edge_interval_data=edge_interval_data, node_data=node_data),
                          time=node.low)
             else:
-                if begin is None:
-                    begin = node.low
-                    time.add(node.high)
-                    continue
+                time.add(node.low)
+                time.add(node.high)
 
-                if node.low == begin:
-                    time.add(node.high)
-                elif len(time) == 0 or node.low < time[0]:
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                elif node.low > time[0]:
-                    while node.low > time[0]:
-                        end = time.pop(0)
-                        G.insert(
-                            graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                   edge_interval_data=edge_interval_data, node_data=node_data),
-                            start=begin, end=end)
-                        begin = end
-
-                        if len(time) == 0:
-                            break
-
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                else:  # if node.low == time[0]
-                    end = time.pop(0)  # can use either "node.low" or "time[0]"
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-
-        # after finish iterating through all edges in the interval graph, which means all "start" timestamp has been
-        # iterated through, iterate through the remaining timestamps stored in "time"
-        for end in time:
+        # each snapshot spans two consecutive timestamps
+        time = sorted(time)
+        for begin, end in zip(time, time[1:]):
             G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                             edge_interval_data=edge_interval_data, node_data=node_data),
                      start=begin, end=end)
-            begin = end
 
         return G
 
-- 
2.43.0


From 011280f3378c6c66637b5bb274172e752d33f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 21/37] fix: SnapshotGraph.load_from_txt must read the matrix
 entries as numbers

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..37d2499 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -868,7 +868,7 @@ class SnapshotGraph(object):
                 line = line[:p].strip()
                 matrix = []
                 for row in line.split(delimiter):
-                    matrix.append(row.split(' '))
+                    matrix.append([float(x) for x in row.split()])
 
                 g = from_numpy_array(np.array(matrix))
                 sg.insert(g, start=interval[0], end=interval[1])
-- 
2.43.0


From 05bd581b9a18b9fa475fa2596d247735b2cde62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 22/37] fix: load_from_txt must skip blank lines

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 dynetworkx/classes/snapshotgraph.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 998a263..b268555 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1080,7 +1080,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = re.split(delimiter+'+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index b12b173..8376236 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1461,7 +1461,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e4a71da..48f275b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1717,7 +1717,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 37d2499..792e28a 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -843,7 +843,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From cd7aec0aed481fa82739387cc3e8842ab3958ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:29 +0000
Subject: [PATCH 23/37] fix: load_from_txt merge must join the intervals of
 equal edges

---
 dynetworkx/classes/intervalgraph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 48f275b..ef42d54 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1766,13 +1766,10 @@ class IntervalGraph(object):
 
                 if merge[0]:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From c65f79006c63c920039ecd6fc51f65745a8b6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:39 +0000
Subject: [PATCH 24/37] fix: load_from_txt with a duration must keep the first
 edge attribute

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ef42d54..d31e085 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1735,7 +1735,7 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    for data in line[(4 if 'begin' in order and 'end' in order else 3):]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From f93b1568aba3e1c794f9695c6d7ca8dfea1f32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:47 +0000
Subject: [PATCH 25/37] fix: ImpulseDiGraph.load_from_txt must take the
 delimiter literally

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index b268555..6c2e396 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1083,7 +1083,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not line.strip():
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From 634a529be8a09a453c30689a73955293ab4e6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 26/37] fix: importers called on a directed class must return
 that class

---
 dynetworkx/classes/impulsegraph.py  | 12 ++++++------
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8376236..9ad2491 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1357,8 +1357,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1383,7 +1383,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1396,8 +1396,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1448,7 +1448,7 @@ class ImpulseGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index d31e085..90091a7 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1548,8 +1548,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1577,7 +1577,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1601,8 +1601,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1630,7 +1630,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1643,8 +1643,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1703,7 +1703,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From 48e8f55dce6215e2e569d118ebcf2399fe66efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 27/37] fix: add_snapshot must accept a graph without nodes

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..f84cfeb 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 792e28a..35f8c39 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From cc096796803ac448712b607489ac648fbaf729ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:59 +0000
Subject: [PATCH 28/37] fix: snapshot selectors of 0 and empty selections are
 selectors, not defaults

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 64 +++++++++++++--------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index f84cfeb..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 35f8c39..289a0fe 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,15 +277,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 2cae429cb78ecabdccebafc0926940e89fad55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 29/37] fix: SnapshotGraph.subgraph must work with sbunch

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 289a0fe..712ff6a 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -233,7 +233,7 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 6110e86fd36d5507199009097840ac70f036659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:16 +0000
Subject: [PATCH 30/37] fix: snapshot selection and splitting by interval must
 pick exactly the overlapping snapshots

---
 dynetworkx/classes/snapshotgraph.py | 43 +++++++++--------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 712ff6a..b21c039 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -626,36 +626,19 @@ class SnapshotGraph(object):
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
-            if start is None:
-                min_idx = 0
-            else:
-                min_idx = self.snapshots.bisect_left((start,))
-
-                # Decrease 1 index if start is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
-                # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
-                    if split_overlaps:
-                        # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
-                        key, g = self.snapshots.popitem(min_idx - 1)
-                        self.insert(g, key[0], start)
-                        self.insert(copy.deepcopy(g), start, key[1])
-                    else:
-                        min_idx -= 1
-
-            if end is None:
-                max_idx = len(self.snapshots)
-            else:
-                max_idx = self.snapshots.bisect_left((end,))
-                # Split the snapshot if 'end' is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
-                    self.insert(g, key[0], end)
-                    self.insert(copy.deepcopy(g), end, key[1])
-
-            for graph in graphs[min_idx: max_idx]:
-                yield graph
+            if split_overlaps:
+                # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
+                for time in (start, end):
+                    for key in list(self.snapshots.keys()):
+                        if time is not None and key[0] < time < key[1]:
+                            g = self.snapshots.pop(key)
+                            self.insert(g, key[0], time)
+                            self.insert(copy.deepcopy(g), time, key[1])
+
+            # Eg: if Keys = [(2,5)(5,6)], start=3 retrieves both and start=5 only retrieves (5,6)
+            for key, graph in list(self.snapshots.items()):
+                if (start is None or key[0] >= start or key[1] > start) and (end is None or key[0] < end):
+                    yield (key, graph) if include_interval else graph
 
     def get(self, sbunch=None, start=None, end=None):
         """Returns a list of graphs specified in sbunch. Interface function for users.
-- 
2.43.0


From 62323aa998a9aa56c10411a46c4dbbba69e462a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:43 +0000
Subject: [PATCH 31/37] fix: count_temporal_motif must count motifs that map to
 node 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 0845aec44b86e1b7fe28469d733ba71ca6dbc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 32/37] fix: subgraph of a SnapshotDiGraph is a SnapshotDiGraph

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index b21c039..b969f4a 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -227,7 +227,7 @@ class SnapshotGraph(object):
         [(4, 6, {})]
         """
 
-        subgraph = SnapshotGraph()
+        subgraph = self.__class__()
         subgraph.graph = self.graph
 
         if sbunch is not None and (start is not None or end is not None):
-- 
2.43.0


From bf4c5c339266dc0ff1bd01061e9c8b5759892b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:58 +0000
Subject: [PATCH 33/37] fix: inserting a reversed interval must be rejected
 before the graph changes

---
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index a86f884..75d9c0d 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -158,6 +158,10 @@ class IntervalDiGraph(IntervalGraph):
 
         iedge = (u, v, begin, end)
 
+        if begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         # add nodes
 
         self._pred.setdefault(u, {}).setdefault(v, {})
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 90091a7..0b96499 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -682,6 +682,10 @@ class IntervalGraph(object):
 
         iedge = (u, v, begin, end)
 
+        if begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         # add nodes
         self._adj.setdefault(u, {}).setdefault(v, {})
         self._adj.setdefault(v, {}).setdefault(u, {})
-- 
2.43.0


From 63d259254829b4c3b058cfaefdcb1daa157052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:45 +0000
Subject: [PATCH 34/37] fix: from_snapshot_graph must not cut a run when an
 edge is listed swapped or twice in a snapshot

---
 dynetworkx/classes/intervalgraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0b96499..f641350 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1587,11 +1587,14 @@ class IntervalGraph(object):
         for snapshot in snapshot_graph.get():
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
+                # an undirected edge may be listed with its ends swapped in another snapshot
+                if not snapshot.is_directed() and (edge[1], edge[0]) in edge_dict:
+                    u_v = (edge[1], edge[0])
                 if u_v in edge_dict:
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
-                    else:
+                    elif begin + period not in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = (begin, edge[2])
                 else:
                     edge_dict[u_v] = {begin + period: (begin, edge[2])}
-- 
2.43.0


From a0b5a902c6e303c8592ff41fb06f93130cc0a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 35/37] fix: single-edge motifs must stay counted when the
 window slides

---
 dynetworkx/algorithms/count_temporal_motif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..a9fe5be 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -222,6 +222,10 @@ def __decrement_counts(edges, motif_length, counts):
     -------
     None
     """
+    # instances of the whole motif stay counted after their edges leave the window
+    if motif_length == 1:
+        return
+
     suffixes = sorted(counts.keys(), key=len)
     for e in edges:
         counts[e] -= 1
-- 
2.43.0


From 2801b720dc91439e162ac0b68bcc8c3742158fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 36/37] fix: a one-element tuple is a node label like any other
 in add_nodes_from

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 9ad2491..45afe22 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f641350..c56bdd4 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From 58f9d513c9914ae2726db84bff5a4f7800317a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:54 +0000
Subject: [PATCH 37/37] fix: degree delta must take off a zero-length edge that
 ends at the window's first instant

---
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 75d9c0d..e729ecf 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -700,7 +700,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -778,7 +778,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -856,7 +856,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c56bdd4..76d5af1 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1157,7 +1157,7 @@ class IntervalGraph(object):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-- 
2.43.0

