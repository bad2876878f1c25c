From f7225260771c77abc626756044bdfc968cd28435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 01/36] fix: remove a vertex's edges along with it

map() is lazy in Python 3, so remove_vertex() never removed the edges and
queries went on reporting the vertex. The vertex queries now return lists,
as documented, so that callers can remove what they iterate over.
---
 solver/graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..f0d2733 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -53,8 +53,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in self.ingoing_vertices(vertex):
+            self.remove_edge(u, vertex)
+
+        for w in self.outgoing_vertices(vertex):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
@@ -259,7 +262,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex])
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -269,7 +272,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex])
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From f910e922d405a84a21b5699fc3a57841eede3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 02/36] fix: copy the graph given to Graph()

map() is lazy in Python 3, so the new graph stayed empty.
---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index f0d2733..ded46a9 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From 7e0190d49bbc7efe99efff50cd127149cffd0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 03/36] fix: report outgoing edges in their own direction

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index ded46a9..6edaa1e 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From c413ff976dd6226152131626557992fd4dc22bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 04/36] fix: keep edge values and lone vertices in a reversed
 graph

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 6edaa1e..f0ee6eb 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # add vertices, including those without edges
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From de9768a14152bcfa5523e1927c1aaf97f5a8e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 05/36] fix: call connected() as a method in connected_via_*()

Both raised NameError.
---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index f0ee6eb..12f7b1e 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -428,7 +428,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -438,7 +438,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From 3fe20e900d4b5094c91f37df59b9f62fab559215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 06/36] fix: make connected_subsets() work

It raised NameError, would have added an unhashable set to a set, and never
removed the visited vertices (lazy map()).
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 12f7b1e..066060e 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -457,13 +457,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From 9763426287652af376e21524bbce38ebdd5b080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 07/36] fix: make Graph printable in Python 3

str() raised NameError (unicode), and the braces were escaped wrongly.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 066060e..3e401ba 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -471,8 +471,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(str(j), str(self.get(i, j))) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}}".format(str(i), v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s)
-- 
2.43.0


From 2ce582b37119634b78accc6c22c57228f232f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 08/36] fix: remove bidirectional edges completely or not at
 all

remove_bi_edge() removed one direction before finding that the other was
missing, and failed on an edge from a vertex to itself.
---
 solver/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 3e401ba..f06b0eb 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -122,8 +122,14 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # a vertex's edge to itself is a single edge
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From adbac4568152f692593aab0ac10e573cb0aad66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 09/36] fix: propagate a change to all methods that depend on
 it

---
 solver/method.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..6228add 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -421,8 +421,8 @@ by multiple methods".format(var))
             for method in methods:
                 self._do_execute(method)
 
-            if pick in self._changed:
-                del(self._changed[pick])
+            # all methods depending on this variable are now up to date
+            self._changed.pop(pick, None)
 
     def clear(self):
         """Clears the method graph by removing all its variables"""
@@ -485,11 +485,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 746ed82611967875c7df58022d032f1798d391fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 10/36] fix: execute methods added without propagation on the
 next propagation

---
 solver/method.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 6228add..228b048 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -302,6 +302,9 @@ class MethodGraph(object):
         # collection of changed variables since last propagation
         self._changed = {}
 
+        # collection of methods that have not been executed yet (keys)
+        self._pending = {}
+
     def variables(self):
         """Returns an iterator for the variables in the method graph"""
 
@@ -389,6 +392,9 @@ by multiple methods".format(var))
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
+        # the method must be executed by the next propagation
+        self._pending[met] = 1
+
         if prop:
             # execute includes propagation
             self.execute(met)
@@ -400,6 +406,7 @@ by multiple methods".format(var))
             raise Exception("Method not in graph")
 
         del(self._methods[met])
+        self._pending.pop(met, None)
         self._graph.remove_vertex(met)
 
     def propagate(self):
@@ -414,6 +421,9 @@ by multiple methods".format(var))
 
         logging.getLogger("method").debug("Propagating changes")
 
+        for method in list(self._pending.keys()):
+            self._do_execute(method)
+
         while len(self._changed) != 0:
             pick = list(self._changed.keys())[0]
             methods = self._graph.outgoing_vertices(pick)
@@ -474,6 +484,9 @@ by multiple methods".format(var))
         else:
             outmap = method.execute(inmap)
 
+        # the method is not waiting for its first execution any more
+        self._pending.pop(method, None)
+
         # update values in self._map
         # set output variables changed
         for var in method.outputs:
-- 
2.43.0


From 18f0cdb80e47a7a6020a3ba711a910178d8be480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 11/36] fix: refuse to set a variable that is not in the method
 graph

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 228b048..8409db6 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -353,6 +353,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise KeyError(varname)
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From 2ad424cd392e8f77a055012a9b21adb3af1ce7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 12/36] fix: compare method values with None by identity

---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 8409db6..475c8f4 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -471,7 +471,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -497,7 +497,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From 2da1c8b58233f008baa36a2be78abdae14fd92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 13/36] fix: make SetMethod and AssignMethod executable and
 printable

---
 solver/method.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 475c8f4..9c0dcf2 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
@@ -161,15 +161,16 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
-        # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        # show the assigned and the input variable in the string representation
+        return "{0}({1}={2})".format(self.name, self.outputs[0], \
+        self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 095a0ad2cc8b6bda932d3409e848f48417d12b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 14/36] fix: let selection constraints list their variables

---
 solver/geometric/constraint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..8ef7fc4 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -83,14 +83,14 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join(self._variables))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +119,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join(self._variables))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From cf713f61a70642a2b5c827b033fdb8d47887332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 15/36] fix: make constraints printable for any variable names
 and functions

---
 solver/geometric/constraint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 8ef7fc4..17dda49 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(variable) \
+        for variable in self._variables]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -90,7 +91,8 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self._variables))
+        return "{0}({1})".format(self.name, ", ".join([str(variable) \
+        for variable in self._variables]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -122,8 +124,9 @@ class FunctionConstraint(SelectionConstraint):
         self._variables]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self._variables))
+        return "{0}({1}, {2})".format(self.name, \
+        getattr(self.function, "__name__", self.function), \
+        ", ".join([str(variable) for variable in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From e65ea8d2c07ef33b926afe4d1ff9f3aa9635442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 16/36] fix: let constraints without variables be removed again

---
 solver/geometric/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 17dda49..52471d7 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -287,6 +287,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph for the constraint
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
-- 
2.43.0


From bcd92565c15a9e631eac3a0c516eb21993721646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 17/36] fix: keep the points of relations hashable

---
 solver/geometric/relation.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..60b7b47 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -49,12 +48,12 @@ class Distance(PointRelation):
 
         :param a: first point
         :param b: second point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -77,13 +76,13 @@ class Angle(PointRelation):
         :param a: first point
         :param b: second point
         :param c: third point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
-        :type c: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
+        :type c: object
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 536115a39a50b51684ba90a6d73ad7a83d0dd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 18/36] fix: make relations printable for any points

---
 solver/geometric/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 60b7b47..6129c05 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -19,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
-- 
2.43.0


From 761acbd8421976355a0f2100dbc7367ad8bee493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 19/36] fix: make common_constraints() work

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..ab952a0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From efe021f078b6474e18f928defa35c3a0e373130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 20/36] fix: make n_angles() of a hedgehog work

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index ab952a0..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From fcf01a5a12180810ab7bfb7df20eb036615a6b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 21/36] fix: require three different variables for a hedgehog

---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..560e1fd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the other variables
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From 7a45e69154fa32e72987e197b5440f582e9eb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 22/36] fix: compare configurations with any other object

---
 solver/geometric/configuration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..738fec9 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -234,7 +234,10 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            # other object is not a configuration
+            return False
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0


From 0746b57290d30a1eb4b9efc676a4f5887d24d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 23/36] fix: mark underconstrained merged configurations

---
 solver/geometric/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 738fec9..9b3b068 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -126,6 +126,9 @@ class Configuration(object):
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
 
+        # mark the merged configuration
+        merged_configuration.underconstrained = underconstrained
+
         return merged_configuration, underconstrained
 
     def transformation_matrix(self, other):
-- 
2.43.0


From e24f08263bf16f30d803955ee7d4c524e9a01bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 24/36] fix: place configurations by shared points that differ

---
 solver/geometric/configuration.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 9b3b068..2615c40 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -174,9 +174,9 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
-            v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            # get two shared variables, preferably with different coordinates
+            # in both configurations
+            v1, v2 = self._reference_pair(other, list(shared))
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
@@ -225,6 +225,25 @@ class Configuration(object):
 
         return t, underconstrained
 
+    def _reference_pair(self, other, shared):
+        """Chooses two shared variables that determine the relative placement
+        of this configuration and another
+
+        :param other: other configuration
+        :param shared: list of two or more shared variables
+        :returns: two variables with different coordinates in each of the \
+        configurations if there are any, otherwise the first two
+        """
+
+        for i, v1 in enumerate(shared):
+            for v2 in shared[i+1:]:
+                if not Scalar.tol_zero(distance_2p(self.get(v1), \
+                self.get(v2))) and not Scalar.tol_zero(distance_2p( \
+                other.get(v1), other.get(v2))):
+                    return v1, v2
+
+        return shared[0], shared[1]
+
     def __eq__(self, other):
         """Configuration equality operator
 
-- 
2.43.0


From 7459f39df4809b46fbe56d8bc29e71d5dd44b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 25/36] fix: make circle-line intersection work

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From e9b1a1dcf33c5f254a1bf6841111c3e538e65968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 26/36] fix: check both rays in ray-ray intersection, and
 parallel rays

---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..87f26b7 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From a8d770022034ce832ccf920279c5e3d186552876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 27/36] fix: make vectors transposable

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 87f26b7..4516b87 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From da4fd5cdc83ff45318cce42e7b70849548922671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 28/36] fix: compare matrix dimensions by value

---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 4516b87..5a52a46 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
@@ -197,7 +197,7 @@ class Vector(Matrix):
                     raise Exception('Matrix must be a single column')
 
                 # check that the matrix has 2 elements
-                if x.num_rows is not 2:
+                if x.num_rows != 2:
                     raise Exception('Matrix must have two rows')
 
                 y = x.elements[1][0]
-- 
2.43.0


From 426ddc95bfff14a106d9bda0a64a693f7e95bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 29/36] fix: count the constraints of very large clusters
 exactly

---
 solver/geometric/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 560e1fd..adfaa66 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -4,9 +4,14 @@
 
 import abc
 import logging
-from scipy.special import binom
+from scipy.special import comb
 from .relation import Distance, Angle
 
+def binom(n, k):
+    """Binomial coefficient, exact for clusters of any size"""
+
+    return comb(n, k, exact=True)
+
 class Cluster(object, metaclass=abc.ABCMeta):
     """A set of points, satisfying some constaint"""
 
-- 
2.43.0


From f292d9eec726ae831287b0f60360a7d7f85d0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 30/36] fix: make distances and angles hashable in Python 3

---
 solver/geometric/relation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 6129c05..1c52e02 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -63,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining equality disables the inherited hash
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -93,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining equality disables the inherited hash
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From af08f24ad95033864c60b2bb1577a4a5ed65668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 31/36] fix: methods without inputs and outputs can be removed
 and cleared

---
 solver/method.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 9c0dcf2..d9e7c75 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -375,6 +375,8 @@ class MethodGraph(object):
         self._methods[met] = 1
 
         # update graph
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
@@ -444,6 +446,10 @@ by multiple methods".format(var))
         while (len(self._map) > 0):
             self.rem_variable(list(self._map.keys())[0])
 
+        # remove methods that have no variables
+        for met in list(self._methods.keys()):
+            self.rem_method(met)
+
     def execute(self, method):
         """Executes a method and propagates changes
 
-- 
2.43.0


From 031320ce612c55b973b1a487978e823c76692658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:10 +0000
Subject: [PATCH 32/36] fix: is_negative() is not the complement of
 is_positive()

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 5a52a46..c891405 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -314,7 +314,7 @@ class Vector(Matrix):
         Assumes 0 is positive
         """
 
-        return not self.is_positive()
+        return self.x < 0 and self.y < 0
 
     def tol_eq(self, other, *args, **kwargs):
         return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \
-- 
2.43.0


From 321680962339483b01d09708caa11d34f2bf2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 33/36] fix: overlap configurations by shared points that are
 far apart

---
 solver/geometric/configuration.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 2615c40..185a59d 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -235,12 +235,18 @@ class Configuration(object):
         configurations if there are any, otherwise the first two
         """
 
-        for i, v1 in enumerate(shared):
-            for v2 in shared[i+1:]:
-                if not Scalar.tol_zero(distance_2p(self.get(v1), \
-                self.get(v2))) and not Scalar.tol_zero(distance_2p( \
-                other.get(v1), other.get(v2))):
-                    return v1, v2
+        # smallest distance between two variables in the two configurations
+        def separation(v1, v2):
+            return min(distance_2p(self.get(v1), self.get(v2)), \
+            distance_2p(other.get(v1), other.get(v2)))
+
+        for v1 in shared:
+            # rounding errors turn the rest the less, the farther apart the two
+            # variables are
+            v2 = max(shared, key=lambda v: separation(v1, v))
+
+            if not Scalar.tol_zero(separation(v1, v2)):
+                return v1, v2
 
         return shared[0], shared[1]
 
-- 
2.43.0


From b455c9856c05cccf05d76a643be532053668619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 34/36] fix: rounding does not make configurations with large
 coordinates unequal

---
 solver/geometric/configuration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 185a59d..08a424b 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -2,6 +2,7 @@
 coordinates"""
 
 import logging
+import sys
 from ..geometry import Scalar, Vector, Matrix, distance_2p, make_hcs, \
 make_hcs_scaled, cs_transform_matrix
 
@@ -286,12 +287,20 @@ class Configuration(object):
             # transform the other configuration
             other_t = other.transform(t)
 
+            # rounding errors of the transformation, which grow with the size
+            # of the coordinates
+            rounding = 16 * sys.float_info.epsilon * max([max(abs(p.x), abs(p.y)) \
+            for c in (self, other) for p in c.mapping.values()], default=0)
+
             # test if the points map onto each
             for var in self.mapping:
                 # calculate distance between the coordinates for the same
                 # variable in each configuration
                 d = distance_2p(other_t.get(var), self.get(var))
 
+                # do not count what rounding accounts for
+                d = max(d - rounding, 0)
+
                 # check if d is >0
                 if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                     return False
-- 
2.43.0


From 698057af151d20e7e20e4d5da2eb506edd96a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 35/36] fix: a single shared point far from the origin has a
 coordinate system

---
 solver/geometric/configuration.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 08a424b..f53536a 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -172,8 +172,8 @@ class Configuration(object):
 
             # calculate homogenous unit vectors for the two configurations using
             # the only shared variable's coordinates in each case
-            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
-            cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
+            cs1 = self._axes(p11)
+            cs2 = self._axes(p21)
         else:
             # get two shared variables, preferably with different coordinates
             # in both configurations
@@ -194,7 +194,7 @@ class Configuration(object):
 
                 # calculate the homogenous coordinate system for the first
                 # configuration using only the first shared point
-                cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
+                cs1 = self._axes(p11)
             else:
                 # coordinates are different, so calculate the homogenous
                 # coordinate system for the first configuration using the
@@ -213,7 +213,7 @@ class Configuration(object):
 
                 # calculate the homogenous coordinate system for the first
                 # configuration using only the first shared point
-                cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
+                cs2 = self._axes(p21)
             else:
                 # coordinates are different, so calculate the homogenous
                 # coordinate system for the first configuration using the
@@ -226,6 +226,22 @@ class Configuration(object):
 
         return t, underconstrained
 
+    def _axes(self, point):
+        """Homogeneous coordinate system at the specified point, with the axes
+        of the plane
+
+        :param point: origin of the coordinate system
+        :type point: :class:`Vector`
+        :returns: 3x3 homogeneous coordinate matrix
+        :rtype: :class:`Matrix`
+        """
+
+        return Matrix([
+            [1.0, 0.0, point.x],
+            [0.0, 1.0, point.y],
+            [0.0, 0.0, 1.0]
+        ])
+
     def _reference_pair(self, other, shared):
         """Chooses two shared variables that determine the relative placement
         of this configuration and another
-- 
2.43.0


From e568036465974c928bb337e0a16481c5babf0566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 36/36] fix: rounding does not decide whether a line touches a
 large circle

---
 solver/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometry.py b/solver/geometry.py
index c891405..fd90e3c 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -6,6 +6,7 @@ import numpy.linalg as la
 import math
 import logging
 import copy
+import sys
 
 class Scalar(object):
     """Scalar value functions"""
@@ -480,6 +481,11 @@ def cl_int(p1, r, p2, v):
     D = p.x * v.y - v.x * p.y
     E = r * r * d2 - D * D
 
+    # what rounding errors account for must not decide whether the line touches
+    # the circle
+    if abs(E) <= 16 * sys.float_info.epsilon * r * max(r, p.length) * d2:
+        E = 0.0
+
     # check that d2 and E are both > 0 within tolerance
     if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
         sE = math.sqrt(E)
-- 
2.43.0

