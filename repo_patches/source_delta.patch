From 53cc361750b4e385862782b6962f2344aca4fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 01/22] fix: propagate evidence in every tree of a disconnected
 join tree

---
 pybbn/pptc/propagator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..478e230 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,18 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # the join tree is a forest when the BBN is disconnected; one root per tree
+        roots = []
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                roots.append(x)
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in roots:
+            Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From bb23e8c3444be46e8851b7315df150ed8686babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 02/22] fix: reject a sample whose last sampled node
 contradicts the evidence

---
 pybbn/sampling/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..a2d2d43 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -156,8 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
             if len(samples) == n_samples:
-- 
2.43.0


From 43c64fdc672839d8a0e5bcd8b731ea17b61318ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/22] fix: sort the nodes of a BBN topologically before
 sampling

---
 pybbn/sampling/sampling.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index a2d2d43..2a653c1 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -119,18 +118,17 @@ class LogicSampler(object):
 
         :return: List of node IDs that is topologically sorted.
         """
-        nodes = [
+        pending = [
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
+        pending = sorted(pending, key=lambda n: n.node_id)
+        nodes = []
+        while len(pending) > 0:
+            # the smallest id whose parents have all been placed already
+            node = next(n for n in pending if n.parent_ids.issubset(nodes))
+            pending.remove(node)
+            nodes.append(node.node_id)
         return nodes
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
-- 
2.43.0


From 756aed9f8b3f89c8a6cbecfd710added39be503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:37 +0000
Subject: [PATCH 04/22] fix: terminate when no samples are requested

---
 pybbn/sampling/sampling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 2a653c1..6836f5f 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -143,7 +143,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -157,7 +157,4 @@ class LogicSampler(object):
             else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From 4226e0eba8c53fae82fc3327e5443d5a44096706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 05/22] fix: look a sampled parent configuration up in the
 order of the table's keys

---
 pybbn/sampling/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 6836f5f..2f77a43 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -36,7 +36,7 @@ class Table(object):
         """
         self.node = node
         self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
-- 
2.43.0


From 132c777f42466b1bb013951a7cf23322e82fd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 06/22] fix: sample a CPT with the parent order that inference
 reads it in

---
 pybbn/sampling/sampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 2f77a43..9bd5122 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -27,15 +27,16 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], sort_parents=True):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param sort_parents: Whether the CPT is laid out by parent id; if not, it is laid out in the order given.
         """
         self.node = node
-        self.parents = sorted(parents, key=lambda n: n.id)
+        self.parents = sorted(parents, key=lambda n: n.id) if sort_parents else parents
         self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
@@ -104,12 +105,13 @@ class LogicSampler(object):
         :return: Dictionary of node ID to Table.
         """
         tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
+        # a CPT is laid out by the order in which the edges to its node were added
+        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
         tables = [
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {node.id: Table(node, parents, False) for node, parents in tables}
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From bdd1bec6b91d914ea218dd2a2f6daac83b7bdbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:55 +0000
Subject: [PATCH 07/22] fix: refuse cycles, loops and undirected edges in a BBN

---
 pybbn/graph/dag.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..5ace487 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -150,9 +150,7 @@ class Bbn(Dag):
         :param edge: Directed edge.
         :return: A boolean indicating if the directed edge should be added.
         """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
@@ -387,15 +385,17 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
-        self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        pending = [i]
+        while len(pending) > 0:
+            children = self.graph.get_children(pending.pop())
+            if self.stop in children:
                 return True
 
+            for child in children:
+                if child not in self.seen:
+                    self.seen.add(child)
+                    pending.append(child)
+
         return False
 
 
-- 
2.43.0


From d7b38517432ef8562546ea2ac4fc478061027759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 08/22] fix: remove the edges of a removed node

---
 pybbn/graph/dag.py   | 13 +++++++++++++
 pybbn/graph/graph.py |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 5ace487..caccae9 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -143,6 +143,19 @@ class Bbn(Dag):
         if edge.i.id not in self.parents[edge.j.id]:
             self.parents[edge.j.id].append(edge.i.id)
 
+    def remove_node(self, id):
+        """
+        Removes a node from the BBN.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+        self.parents.pop(id, None)
+
+        for parents in self.parents.values():
+            if id in parents:
+                parents.remove(id)
+
     def __shouldadd__(self, edge):
         """
         Checks if the specified directed edge should be added.
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..8459eb3 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -152,6 +152,9 @@ class Graph(object):
             if id in v:
                 v.remove(id)
 
+        for k in [k for k, e in self.edges.items() if id in (e.i.id, e.j.id)]:
+            self.edges.pop(k)
+
     def __str__(self):
         nodes = str.join("\n", [x.__str__() for x in self.nodes.values()])
         edges = str.join("\n", [x.__str__() for x in self.edges.values()])
-- 
2.43.0


From 5c3144bbdf3754414eeb046aec51c23850428ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 09/22] fix: keep the isolated cliques of a deserialized join
 tree

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..c6b4307 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -492,11 +492,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 1d647f356d25a910d73617d6f6b4434464ab631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 10/22] fix: propagate virtual evidence with a single certain
 value

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index c6b4307..189cad8 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -795,7 +795,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From a404d3f6df85e2232277d9f8b26ed0c04c70913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 11/22] fix: propagate evidence set on a copied join tree

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 189cad8..690d682 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = self.listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From e85b32651d8b1c73fa71f0b11989ae7f3e5a6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 12/22] fix: number the nodes of a learned BBN by its
 structure, not by the data's cells

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..2b71589 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From ead3629f8c6d190d4a89efc0a28ad10eca75b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 13/22] fix: add the edges of a learned BBN in the parent order
 of its CPTs

---
 pybbn/graph/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 2b71589..b9c4a90 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,8 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            # the CPTs are laid out by sorted parent name
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From 07c7cfdaf2a5ad27b9f19d8f038ad453232c3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 14/22] fix: count the rows of a dataframe by value whatever
 the type of the value

---
 pybbn/graph/factory.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index b9c4a90..14965cf 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -1,6 +1,8 @@
 import itertools
 import json
+from functools import reduce
 from itertools import product
+from operator import and_
 
 import networkx as nx
 import pandas as pd
@@ -183,14 +185,14 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
+                    denom_q = reduce(
+                        and_, [df[pa] == v for pa, v in zip(domain_names, values)]
                     )
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
+                        numer_q = denom_q & (df[name] == v)
 
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = df[numer_q].shape[0] / n
+                        denom = df[denom_q].shape[0] / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From 979b5a26d6d0375be75d7c8e11b96ff1b04d3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 15/22] fix: weight the ACE by the joint probability of the
 adjustment set

---
 pybbn/causality/ace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..ea75064 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -1,6 +1,4 @@
 import itertools
-import operator
-from functools import reduce
 
 from pybbn.graph.jointree import EvidenceBuilder
 from pybbn.pptc.inferencecontroller import InferenceController
@@ -49,11 +47,13 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # the parents of X may depend on each other, hence the chain rule
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
-            probs = reduce(operator.mul, probs, 1)
-            return probs
+            prob = 1.0
+            for n, v in z:
+                prob *= self.jt.get_posteriors()[n][v]
+                self.jt.update_evidences([get_evidence(n, v)])
+            return prob
 
         n2i = self.bbn.get_n2i()
         i2n = self.bbn.get_i2n()
-- 
2.43.0


From e8530f461a86ab9e357afcba0b44898c2c2035a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 16/22] fix: pair the means with the observations by name in
 Gaussian inference

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 6ab06e629d0b07a7ec1763d6128e32444514d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 17/22] fix: serialize the shape of generated parameters

---
 pybbn/generator/bbngenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..9441983 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -321,7 +321,7 @@ def to_json(g, params, pretty=False):
         "nodes": list(g.nodes),
         "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {"node": k, "params": list(v["params"].flatten()), "shape": [int(s) for s in v["shape"]]}
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From 8ca045f56fd115a6212ea939ee9b8d23f89962e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 18/22] fix: list a generated node's parents in the order of
 its edges

---
 pybbn/generator/bbngenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9441983..4954246 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -295,7 +295,7 @@ def __generate_parameters__(g, max_values=2, max_alpha=10):
     num_values = __generate_num_values__(num_nodes, max_values)
     g_params = {}
     for i in g.nodes:
-        parents = list(g.predecessors(i))
+        parents = sorted(g.predecessors(i))
         params = __generate_dirichlet_parameters__(i, parents, num_values, max_alpha)
         g_params[i] = {
             "parents": parents,
-- 
2.43.0


From e11b0d92350a8adf988e3b9531e3191b5edc6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 19/22] fix: assign nodes to cliques anew when inference is
 applied again

---
 pybbn/pptc/moralizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybbn/pptc/moralizer.py b/pybbn/pptc/moralizer.py
index 95cc56a..89afcf4 100644
--- a/pybbn/pptc/moralizer.py
+++ b/pybbn/pptc/moralizer.py
@@ -31,5 +31,7 @@ class Moralizer(object):
         for node in dag.get_nodes():
             parents = [dag.get_node(pa) for pa in dag.get_parents(node.id)]
             node.add_metadata("parents", parents)
+            # assigned for the join tree of an earlier version of the DAG, if any
+            node.metadata.pop("parent.clique", None)
 
         return ug
-- 
2.43.0


From df230249593964ab18ac6d84fc1f2092af6c5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 20/22] fix: never adjust for a descendant of the treatment

---
 pybbn/causality/do.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pybbn/causality/do.py b/pybbn/causality/do.py
index 82d5743..7ebbf4a 100644
--- a/pybbn/causality/do.py
+++ b/pybbn/causality/do.py
@@ -175,7 +175,14 @@ def get_minimal_confounders(g: Graph, x: Any, y: Any) -> List[Any]:
     paths = get_paths(g, x, y)
     paths = filter(lambda p: p["is_active"] is True and p["backdoor"] is True, paths)
 
-    confounders = [find_minimal_confounders(g, p["path"], x, y, p["z"]) for p in paths]
+    descendants = nx.descendants(g.d, x)
+
+    confounders = [
+        find_minimal_confounders(
+            g, p["path"], x, y, [z for z in p["z"] if z not in descendants]
+        )
+        for p in paths
+    ]
     confounders = itertools.chain(*confounders)
     confounders = set(confounders)
     return list(confounders)
-- 
2.43.0


From 74ea313dbf8a04af2417e8ebdb3e355277dbd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 21/22] fix: set an observation after partial evidence or with
 an uncertain likelihood

---
 pybbn/graph/jointree.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 690d682..3d54d36 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -387,22 +387,14 @@ class JoinTree(Ug):
         :return: This join tree.
         """
         potentials = self.evidences[evidence.node.id]
+        evidence.validate()
 
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
+        pvalues = Evidence.__convert__(potentials)
+        cvalues = evidence.values
+
+        if Evidence.__is_observed__(pvalues) and Evidence.__is_observed__(cvalues):
+            last_value = Evidence.__get_observed_value__(pvalues)
+            curr_value = Evidence.__get_observed_value__(cvalues)
             if last_value == curr_value:
                 self.unobserve([evidence.node])
             else:
-- 
2.43.0


From 6eda4583aba18b718156ec92f88076fddab3c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 22/22] fix: keep a join tree's parents when an edge is added
 to its BBN

---
 pybbn/pptc/inferencecontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..49f1279 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -28,7 +28,7 @@ class InferenceController(JoinTreeListener):
         cliques = Triangulator.triangulate(ug)
         join_tree = Transformer.transform(cliques)
         join_tree.parent_info = {
-            node.id: bbn.parents[node.id]
+            node.id: list(bbn.parents[node.id])
             for node in bbn.get_nodes()
             if node.id in bbn.parents
         }
-- 
2.43.0

