From d843a98def3ce844e0cb18e5a02474e29f5b2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 01/24] fix: intersection of a lamination with peripheral
 components after shortening

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 94564ea713462f5d63f17acb1a0872269963c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 02/24] fix: sum and disjoint_sum keep the multiplicities of
 repeated laminations in an iterable

---
 curver/kernel/triangulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..d0aeb4f 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -559,16 +559,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
@@ -587,16 +587,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
-- 
2.43.0


From be9b2233f8cfbbb1d404c94826b96d9e7e0b83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 03/24] fix: multiples of integral laminations are integral
 laminations

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..23f734c 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From 1a866642dfed11187be8e23276e0eefa916dd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 04/24] fix: a peripheral component does not make a lamination
 fill a component of the surface

---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 23f734c..0d135dd 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -397,10 +397,11 @@ class IntegralLamination(Lamination):
         if any(isinstance(component, curver.kernel.Curve) and not component.is_peripheral() for component in self.components()):
             return False
         
+        non_peripheral = self.non_peripheral()  # Peripheral components do not meet any curve.
         for component in self.triangulation.components():
             V, E = len([vertex for vertex in self.triangulation.vertices if vertex[0] in component]), len(component) // 2
             if (V, E) != (3, 3):  # component != S_{0, 3}:
-                if all(self(edge) == 0 for edge in component):
+                if all(non_peripheral(edge) == 0 for edge in component):
                     return False
         
         return self.boundary().is_peripheral()
-- 
2.43.0


From 4e1ec689d24e019ddac71775e1152a5f7501df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 05/24] fix: membership in a straight line program

---
 curver/kernel/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..607e10f 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -173,7 +173,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return value in self.sinks
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0


From 6a9bf466432d205ae07d6928ad541908582c535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 06/24] fix: words with misplaced powers or unbalanced
 parentheses are refused

---
 curver/kernel/mappingclassgroup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..dccbb2f 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -125,8 +125,11 @@ class MappingClassGroup:
             tokens = TOKENS.findall(word)  # Break word into tokens.
             for index, token in enumerate(tokens):
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^':
+                        raise ValueError(f'{token} is not a power')
                 elif token == '^':
+                    if not stack[-1]:
+                        raise ValueError('^ not preceded by anything')
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
@@ -138,7 +141,7 @@ class MappingClassGroup:
                     stack.append(stack[-1][-1])
                 elif token == ')':
                     stack.pop()
-                    if not stack:
+                    if len(stack) == 1 and index < len(tokens)-1:  # Only the last token can close the outermost parenthesis.
                         raise ValueError('Unbalanced parentheses')
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
-- 
2.43.0


From b2cf286ed06285649b2f78d6b7fc9167dfeb743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 07/24] fix: values of unreachable nodes are not members of a
 straight line program

---
 curver/kernel/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index 607e10f..967cf45 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -63,7 +63,6 @@ class StraightLineProgram:
             raise ValueError('Unknown data')
         
         self.graph = [tuple(children) for children in data]
-        self.sinks = [item.value for lst in self.graph for item in lst if isinstance(item, Terminal)]  # !?!
         
         # If w is a descendant of v then w appears before v in self.indices.
         self.indices = []
@@ -79,6 +78,8 @@ class StraightLineProgram:
             self.indices.append(v)
         dfs(0)
         
+        self.sinks = [item.value for index in self.indices for item in self(index) if isinstance(item, Terminal)]  # Only those that can be reached.
+        
         self.num_children = [None] * self.size()
         for index in self.indices:
             self.num_children[index] = sum(1 if isinstance(item, Terminal) else self.num_children[item] for item in self(index))
-- 
2.43.0


From 0e84d1e0c80ed941734ebcc25248d956d8f0e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 08/24] fix: lifting refuses exactly the laminations that end
 at the punctures created by crushing

---
 curver/kernel/crush.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 941df56..0a45a97 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -170,7 +170,7 @@ class Lift(LinearTransformation):
         
         # We need to use super again since we have not found the vertices needed so that we can call self yet.
         apply_lamination = super().apply_lamination
-        self.vertices = [vertex for vertex in self.source_triangulation.vertices if apply_lamination(self.source_triangulation.curve_from_cut_sequence(vertex)).is_peripheral()]
+        self.vertices = [vertex for vertex in self.source_triangulation.vertices if not apply_lamination(self.source_triangulation.curve_from_cut_sequence(vertex)).is_peripheral()]
     
     def __str__(self):
         return f'Lift to {self.target_triangulation}'
-- 
2.43.0


From 0f55f891c2a1795f7e69b3972fcb6f703a88b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 09/24] fix: the package of a lift can be encoded, so inverses
 of crush maps can be pickled

---
 curver/kernel/crush.py         | 3 +++
 curver/kernel/triangulation.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 0a45a97..2971194 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -179,4 +179,7 @@ class Lift(LinearTransformation):
         assert all(lamination(edge) >= 0 and lamination.left_weight(edge) >= 0 for vertex in self.vertices for edge in vertex)
         
         return super().apply_lamination(lamination)
+    
+    def package(self):
+        return (self.target_triangulation.sig(), self.inverse().curve.parallel().label)
 
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index d0aeb4f..2fd242b 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -842,6 +842,9 @@ class Triangulation:
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
                     term = T.find_isometry(self, item)
+            elif isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], str):  # Lift, back to the triangulation with the given signature.
+                sig, label = item
+                term = Triangulation.from_sig(sig).edge_curve(Edge(label)).crush().inverse()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From def88c5a477d2ac2fce79533e7ef7ad675acd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 10/24] fix: topological types do not read the nodes for
 duplicated boundary curves as components of the surface

---
 curver/kernel/lamination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 0d135dd..84aee1a 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -578,7 +578,7 @@ class IntegralLamination(Lamination):
             # Build marking.
             node_markings = []
             for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
+                starting_edges = [edge for edge in node if image(edge)] if node not in duplicated_boundary else []  # Fake nodes are curves, not sets of edges.
                 if starting_edges:  # Skip nodes that do not have any markings.
                     best_node_marking = None
                     for starting_edge in starting_edges:
-- 
2.43.0


From 1b24fc7aae2f004041a7a7655a9d7246566e2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 11/24] fix: topological types of closed surfaces keep a torus
 cut along a curve

---
 curver/kernel/lamination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 84aee1a..4b08158 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -518,7 +518,7 @@ class IntegralLamination(Lamination):
         
         if closed:
             # Smooth out any degree two vertices whose label is 0.
-            good = [node_labels[node] != 0 or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
+            good = [node_labels[node] != 0 or link_labels[i][i] or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
             for i, keep in enumerate(good):
                 if not keep:
                     adjacent = [j for j in range(len(nodes)) if link_labels[i][j]]
-- 
2.43.0


From 7c2058f485b26d626b0f2e2da5d8589858a056f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 12/24] fix: topological types choose the same representative
 for laminations in the same orbit

---
 curver/kernel/lamination.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 4b08158..9e542fd 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -563,14 +563,10 @@ class IntegralLamination(Lamination):
         for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
             
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            if best_link_labels is not None and permuted_link_labels > best_link_labels:
                 continue
-            best_link_labels = list(permuted_link_labels)
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
@@ -609,9 +605,9 @@ class IntegralLamination(Lamination):
                 else:
                     node_markings.append([])
             
-            if best_node_markings is not None and node_markings >= best_node_markings:
+            if best_link_labels is not None and (permuted_link_labels, node_markings) >= (best_link_labels, best_node_markings):
                 continue
-            best_node_markings = node_markings
+            best_link_labels, best_node_markings = permuted_link_labels, node_markings
         
         return TopologicalType(best_node_labels, best_link_labels, best_node_markings)
     
-- 
2.43.0


From 39d2e7fabf27180f1a3ac7dc94e4d4675b0d2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 13/24] fix: topological types record which face of the arcs
 each curve lies in

---
 curver/kernel/lamination.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 9e542fd..7ced7cd 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -486,10 +486,12 @@ class IntegralLamination(Lamination):
         # Write down all the links.
         links = []  # List of (vertex1, vertex2, label).
         vertex_paired_node_map = dict()  # We will build this in a minute.
+        vertex_label_map = dict()  # We will build this in a minute too.
         short_components = short.components()  # The components of this lamination.
         half_links = dict()
         for vertex in triangulation.vertices:
             curve = lift(triangulation.curve_from_cut_sequence(vertex))
+            vertex_label_map[vertex] = short_components.get(curve, 0)
             if curve in duplicated_boundary:
                 links.append((vertex_node_map[vertex], curve, short_components.get(curve, 0)))
                 vertex_paired_node_map[vertex] = curve
@@ -595,7 +597,8 @@ class IntegralLamination(Lamination):
                                 current = ordering[current]
                             
                             # Mark the break between one cycle and the next.
-                            node_marking.append((-1, permuted_node_lookup[vertex_paired_node_map[image_vertex_map[current]]] if current in image_vertex_map else -1))
+                            vertex = image_vertex_map.get(current, None)
+                            node_marking.append((-1, -1) if vertex is None else (-1, permuted_node_lookup[vertex_paired_node_map[vertex]], vertex_label_map[vertex]))
                         
                         if best_node_marking is not None and node_marking >= best_node_marking:
                             continue
-- 
2.43.0


From bf8536efc76f976ca15994af2d5d9bf968f8d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 14/24] fix: quotient orbifold signatures of disconnected
 surfaces count the preimages in each orbit of components

---
 curver/kernel/finite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ce1e905..680cb98 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -217,7 +217,7 @@ class FiniteSubgroup:
         component_orbit_size = dict()
         for cls in classes:
             for component in cls:
-                component_orbit_size[component] = len(components)
+                component_orbit_size[component] = len(cls)
         
         # D) The (orbifold) Euler characteristic of each components quotient.
         euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
@@ -255,7 +255,8 @@ class FiniteSubgroup:
             
             c_order = len(places)
             holonomy = sorted(pairs[start][places[0]])
-            preimages = order // c_order
+            kernel = pairs[start][start]  # The elements of H that fix this component pointwise.
+            preimages = order // (c_order * len(kernel) * component_orbit_size[component_lookup[start]])  # In this component.
             
             if punctured or len(places) > 1:  # Real cone point.
                 cone_points[component_lookup[start]].append(ConePoint(punctured, c_order, holonomy, preimages))  # Put it in the correct component.
-- 
2.43.0


From 52cb704e88033af45234ea3dc58705ba109f7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 15/24] fix: conjugacy compares the types of the components of
 the surfaces and not their labels

---
 curver/kernel/encoding.py | 2 +-
 curver/kernel/finite.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 0dc0de7..2ec16c8 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -427,7 +427,7 @@ class MappingClass(Mapping):
         
         assert isinstance(other, curver.kernel.MappingClass)
         
-        if self.source_triangulation.surface() != other.source_triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.source_triangulation.surface().values()) != sorted(other.source_triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if not self.vertex_permutation().is_conjugate_to(other.vertex_permutation()):  # Induce non-conjugate permutations of the vertices.
diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 680cb98..b1f6bb5 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -276,7 +276,7 @@ class FiniteSubgroup:
         
         assert isinstance(other, curver.kernel.FiniteSubgroup)
         
-        if self.triangulation.surface() != other.triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.triangulation.surface().values()) != sorted(other.triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if len(self) != len(other):  # Conjugacy invariant.
-- 
2.43.0


From f9cc93e752d7b9d45b9f962e5bcc45437ef6ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 16/24] fix: the maximum order of a mapping class accounts for
 components of the same type

---
 curver/kernel/triangulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 2fd242b..9851b40 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -285,10 +285,9 @@ class Triangulation:
             else:  # g == 0:
                 return v
         
-        # Set of orders that appear.
-        orders = set(order(S.g, S.p) for S in self.surface().values())
-        for order in orders:
-            prod *= order
+        # Each component can have a different order.
+        for S in self.surface().values():
+            prod *= order(S.g, S.p)
         
         return prod
     
-- 
2.43.0


From d9c99c9fe5e63d1aa9e48af2cfde2b5c76f5ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 17/24] fix: boundary_union includes the components that are
 disjoint from the other lamination

---
 curver/kernel/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 1906dc7..f2e5aea 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -85,7 +85,9 @@ class MultiCurve(IntegralLamination):
         lift = crush.inverse()
         other_prime = crush(other)
         m_prime = other_prime.boundary()
-        return lift(m_prime)  # = m.
+        # Components of self that are disjoint from other are not seen by m_prime.
+        disjoint = dict((component, 2 * multiplicity) for component, multiplicity in self.components().items() if component.intersection(other) == 0)
+        return self.triangulation.disjoint_sum([lift(m_prime), self.triangulation.disjoint_sum(disjoint)])  # = m.
     
     def fills_with(self, other):
         ''' Return whether self \\cup other fills. '''
-- 
2.43.0


From a3132ab637ce1a32409c60907dd758cc175d58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 18/24] fix: all_disjoint_arcs yields exactly the arcs that are
 disjoint from a multiarc

---
 curver/kernel/arc.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/curver/kernel/arc.py b/curver/kernel/arc.py
index c11ef7b..85ac47a 100644
--- a/curver/kernel/arc.py
+++ b/curver/kernel/arc.py
@@ -121,28 +121,27 @@ class MultiArc(IntegralLamination):
         
         short, conjugator = self.shorten()
         conjugator_inv = conjugator.inverse()
+        triangulation = short.triangulation
         
         # All arcs that meet 0 edges.
-        for arc in short.triangulation.edge_arcs():
+        arcs = set(triangulation.edge_arcs())
+        
+        # All arcs that meet at least one edge.
+        # Each complementary region of self contains at most one vertex and so these cross each edge at most once in each direction.
+        to_do = [(edge,) for edge in triangulation.edges if short(edge) == 0]
+        while to_do:
+            path = to_do.pop()
+            try:
+                arc = triangulation.lamination_from_cut_sequence(path)
+            except ValueError:  # This path cannot be made into a simple arc.
+                pass
+            else:
+                if isinstance(arc, curver.kernel.Arc):
+                    arcs.add(arc)
+            to_do.extend(path + (edge,) for edge in triangulation.corner_lookup[~path[-1]].edges[1:] if short(edge) == 0 and edge not in path)
+        
+        for arc in arcs:
             yield conjugator_inv(arc)
-        
-        # All arcs that meet 1 edge.
-        for index in short.triangulation.indices:
-            if short(index) == 0:
-                arc = short.triangulation([1 if i == index else 0 for i in range(short.triangulation.zeta)])
-                yield conjugator_inv(arc)
-        
-        # All arcs that meet at least two edges.
-        edges = [(short.triangulation.triangle_lookup[edge], short.triangulation.triangle_lookup[~edge]) for edge in short.triangulation.positive_edges if short(edge) == 0]
-        G = networkx.Graph(edges)
-        for t1, t2 in combinations(G.nodes(), r=2):
-            paths = networkx.all_simple_paths(G, t1, t2)
-            for path in paths:
-                if len(path) > 2:  # Not covered by above case.
-                    # Convert back to a sequence of edges.
-                    cut_sequence = [edge.index for p1, p2 in zip(path, path[1:]) for edge in p1 if ~edge in p2]
-                    arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
-                    yield conjugator_inv(arc)
     
     def all_disjoint_multiarcs(self):
         ''' Yield all multiarcs that are disjoint from this one.
-- 
2.43.0


From e6a875c097dfd28286456095ab632107e5fbec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 19/24] fix: cayley yields only the identity when the length is
 zero

---
 curver/kernel/mappingclassgroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index dccbb2f..8ace9f7 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -177,7 +177,8 @@ class MappingClassGroup:
         elements = {convert((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix())): identity}
         good = set([identity])
         Q = Queue()
-        Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
+        if length > 0:
+            Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
         good = set([identity])
         yield identity
         while not Q.empty():
-- 
2.43.0


From 040f57727b3a111b3bdd1dd849aafa61cb0fb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 20/24] fix: the named surface S_1_2p can be loaded

---
 curver/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/load.py b/curver/load.py
index 2e3883e..f4fa9c6 100644
--- a/curver/load.py
+++ b/curver/load.py
@@ -273,7 +273,7 @@ def load_old(surface):
         return curver.kernel.MappingClassGroup(curves={
             'a': S.curves['a_0'],
             'b': S.curves['b_0'],
-            'c': S.curves['p_0'],
+            'c': S.curves['p_1'],
             })
     elif surface == 'S_2_1':
         S = load(2, 1)
-- 
2.43.0


From a2d6b5ff0c65553eb526a83010eead64d4de5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 21/24] fix: count positions from zero when closing up a traced
 curve

trace_curve compared positions on the two sides of the starting edge with an
offset of one, so it could close up across the strand just below its start
and refuse to close up next to a strand.
---
 curver/kernel/lamination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 7ced7cd..4d5bb73 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -197,8 +197,8 @@ class Lamination:
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-        tilde_upper = self(edge) + 1
-        tilde_intersection = self(edge) - intersection
+        tilde_upper = self(edge)
+        tilde_intersection = self(edge) - 1 - intersection
         tilde_lower = -1
         
         #   ~upper ~intersection ~lower
@@ -223,7 +223,7 @@ class Lamination:
                 edge, intersection = z, self(z) - self(x) + intersection
             
             if edge == start_edge:
-                tilde_return = self(edge) - intersection
+                tilde_return = self(edge) - 1 - intersection
                 if tilde_lower < tilde_return < tilde_upper:
                     return self.triangulation.curve_from_cut_sequence(trace)
                 else:
-- 
2.43.0


From eb86ed5f349adcba2525d6c27e3a1e3bfbf0e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 22/24] fix: allow real algebraic weights when applying powers
 of twists

---
 curver/kernel/curve.py | 6 +++++-
 curver/kernel/twist.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index f2e5aea..8535fc8 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -3,6 +3,7 @@
 
 from fractions import Fraction
 from collections import Counter
+from numbers import Rational
 import networkx
 import numpy as np
 
@@ -135,7 +136,7 @@ class Curve(MultiCurve):
     def slope(self, lamination):
         ''' Return the slope of the given lamination about this curve.
         
-        This is a Fraction that increases by one each time a right Dehn twist about
+        This is a Fraction (or a real algebraic number when the weights of the lamination are) that increases by one each time a right Dehn twist about
         this curve is performed unless -1 <= slope <= 1.
         
         This curve must be non-peripheral and intersect the given lamination. '''
@@ -166,6 +167,9 @@ class Curve(MultiCurve):
         
         sign = -1 if short_lamination.left_weight(a) - around_v > 0 or short_lamination.right_weight(a) < 0 else +1
         
+        if not isinstance(numerator, Rational) or not isinstance(denominator, Rational):  # For example, real algebraic weights.
+            return sign * numerator / denominator
+        
         return Fraction(sign * numerator, denominator)  # + (1 if sign < 0 and not short.is_isolating() else 0)  # Curver is right biased on non-isolating curves.
     
     def relative_twisting(self, b, c):
diff --git a/curver/kernel/twist.py b/curver/kernel/twist.py
index 350581f..5d9a68c 100644
--- a/curver/kernel/twist.py
+++ b/curver/kernel/twist.py
@@ -68,7 +68,7 @@ class Twist(FlipGraphMove):
         power = self.power
         slope = self.curve.slope(lamination)
         slope_sign = +1 if slope > 0 else -1
-        steps = min(abs(power), abs(slope.numerator) // slope.denominator)  # This is how far we can definitely move without reaching the dangerous region.
+        steps = min(abs(power), int(abs(slope)))  # This is how far we can definitely move without reaching the dangerous region.
         
         if power * slope_sign < 0:  # We are heading towards the dangerous region.
             lamination = lamination.__class__(self.target_triangulation, [w - steps * intersection * c for w, c in zip(lamination, self.curve)])  # Avoids promote.
-- 
2.43.0


From 44f7e6fab0bb2149815ec73baf7c50aa4e563cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:45 +0000
Subject: [PATCH 23/24] fix: quotient orbifolds of components on which some
 elements act trivially

The Euler characteristic of the quotient of such a component was divided by
the order of the whole group, so its genus was wrong and irreducible periodic
classes were reported as reducible.
---
 curver/kernel/finite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index b1f6bb5..5550d89 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -220,7 +220,9 @@ class FiniteSubgroup:
                 component_orbit_size[component] = len(cls)
         
         # D) The (orbifold) Euler characteristic of each components quotient.
-        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
+        # The elements of H that fix an oriented arc of a component act trivially on that component.
+        kernel_size = dict((component_lookup[a], len(pairs[a][a])) for a in oriented_arcs)
+        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component] * kernel_size[component], order)) for component in components)
         
         # Compute the polygons cut out by short.
         # Remember to walk around their boundary in the correct direction.
-- 
2.43.0


From b8d5f77ebade7e6ab9fc61624ddb010878ed1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 24/24] fix: refuse an odd number of triples when building a
 triangulation

from_tuple rounded the number of edges down, so an odd number of triples with
a repeated label, like [(0, ~0, 1)], was accepted.
---
 curver/kernel/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 9851b40..f5b837a 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -197,6 +197,8 @@ class Triangulation:
         zeta = len(edge_labels) * 3 // 2
         
         # Check that each of 0, ..., zeta-1, ~0, ..., ~(zeta-1) occurs exactly once.
+        if len(edge_labels) % 2 != 0:
+            raise TypeError('An odd number of triangles cannot use each label exactly once')
         flattened = set(label for labels in edge_labels for label in labels)
         for i in range(zeta):
             if i not in flattened:
-- 
2.43.0

