From 5d2eec9217bba585bed3d61d692e90366e95c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 01/21] fix: regenerate GKP indices on every
 CVLayer.populate_states call

Indices left over in states['GKP'] were counted as used, so every second call
assigned the GKP label (and its noise) to the wrong set of modes.
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..457482d 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # GKP indices from a previous run are to be regenerated.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From 93fb63f57531dd9236755e2110090aef5e6cf92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 02/21] fix: store a user-supplied bs_network in CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 457482d..b2d84d7 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -376,8 +376,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From 950df1b5534eb6e20fad4125201325a3215dfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 03/21] fix: accept plain lists of indices in the states option
 of CVLayer

---
 flamingpy/noise/cv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index b2d84d7..058b8d7 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -93,6 +93,8 @@ class CVLayer:
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
         self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        # Indices may be supplied as any sequence; they are used as index arrays.
+        self.states = {psi: np.array(inds, dtype=int) for psi, inds in self.states.items()}
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From 1795ff67a9743136d25d34f02b415ab262f5e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 04/21] fix: two-step covariances with perfect qubits for inds
 given as a list or range

---
 flamingpy/noise/cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 058b8d7..6801b1d 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -300,7 +300,7 @@ class CVLayer:
                 inds_to_0 = set(inds).intersection(self._perfect_inds)
                 ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
                 for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
+                    ind_arr[i] = (np.asarray(inds) == perfect_ind).nonzero()[0][0]
                 covs[ind_arr] = 0
 
         return covs
-- 
2.43.0


From 1bc3ab33a73315bcc88665586607698020c88589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 05/21] fix: accept a list of boundary types in RHG_graph

---
 flamingpy/codes/surface_code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..61b9aac 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,7 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    boundaries = np.array(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From e3c4ce695b0dad2a3d3b91eb5c4de68f1e1e0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 06/21] fix: build the adjacency matrix of an EGraph after
 remove_qubit

remove_qubit leaves gaps in the indices, which adj_generator looked up.
---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..ebb8b57 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,8 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # The indices need not be contiguous (see remove_qubit).
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From 447e196d962aaa2747b91438a2e7e1a4c308ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 07/21] fix: two-step homodyne measurement without supplied
 means

The 2N means did not match the covariances of the measured modes.
---
 flamingpy/noise/cv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 6801b1d..f1a8402 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -189,6 +189,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # In the two-step order, only the modes in inds are sampled.
+            if self._sampling_order == "two-step":
+                means = means[:N][inds] if quad == "q" else means[N:][inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
-- 
2.43.0


From 4af1b89e5da8cd6f5c6d368f0f3d1893efca6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 08/21] fix: allow adding a qubit to an EGraph with no qubits

---
 flamingpy/codes/graphs/egraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index ebb8b57..8345eb3 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -254,7 +254,7 @@ class EGraph(nx.Graph):
                     f"Could not add qubit because there is already a node in position {qubit}."
                 )
         elif qubit is None:
-            x_max = max(map(lambda tup: tup[0], self.nodes()))
+            x_max = max(map(lambda tup: tup[0], self.nodes()), default=-1)
             qubit = (x_max + 1, 0, 0)
         else:
             raise TypeError(
@@ -307,7 +307,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From 7cd708d9d955e03e3569b4d82d7370db76fb179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 09/21] fix: index qubits of a macronized EGraph that belong to
 no macronode

---
 flamingpy/codes/graphs/egraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 8345eb3..7ea9b55 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -149,6 +149,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits added outside of any macronode come last.
+            points += sorted(set(self.nodes) - set(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
-- 
2.43.0


From 327a7e7a0ccd39e4e1062ab33da231933be629d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 10/21] fix: macronize for every displacement in (0, 0.5)

disp=0 gave an OverflowError instead of the documented ValueError, values such as
0.499 were rounded to 0.5 (outside of the macronode), and padding nodes collided
with micronodes for disp=0.05.
---
 flamingpy/codes/graphs/egraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 7ea9b55..b062173 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -56,7 +56,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         nx.Graph: the macronized graph, with a macronode-to-micronode
             dictionary stored as a graph attribute.
     """
-    if disp >= 0.5 or disp < 0:
+    if disp >= 0.5 or disp <= 0:
         raise ValueError("Please set disp to a positive value strictly less than 0.5.")
     macro_graph = nx.Graph(**can_graph.graph)
     # The macronode-to-micronode dictionary
@@ -67,7 +67,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         distance = np.linalg.norm(direction_vec)
         periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1
         shortened_vec = periodic_flip * disp * direction_vec / distance
-        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 2)
+        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 10)
         new_point_1 = tuple(old_point_1 + shortened_vec)
         new_point_2 = tuple(old_point_2 - shortened_vec)
         macro_graph.add_node(new_point_1, **can_graph.nodes[edge[0]])
@@ -89,7 +89,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From c706300365622c5c25332416ea1e612aeac8cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 11/21] fix: replace_undefined='bin_location' in Z_err_cond

The scalar branch returned the option string itself, and the array branch raised
when only some of the denominators were 0.
---
 flamingpy/cv/gkp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..42238a1 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -129,6 +129,8 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
         if denominator != 0:
             return numerator / denominator
+        elif replace_undefined == "bin_location":
+            return np.abs(frac) / np.sqrt(np.pi)
         else:
             return replace_undefined
     else:
@@ -147,10 +149,10 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         # For 0 denominator, populate error according to replace_undefined
         if len(where_0):
             if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
+                zero_dem_result = np.abs(frac) / np.sqrt(np.pi)
             else:
                 zero_dem_result = replace_undefined
-            error[where_0] = np.full(len(where_0), zero_dem_result)
+            error[where_0] = np.broadcast_to(zero_dem_result, error.shape)[where_0]
         if np.size(var) == 1:
             numerator = np.array([numerator])
             denominator = np.array([denominator])
-- 
2.43.0


From eb4b41e526adade73bed7f461304af9aa074bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 12/21] fix: complete the search for an LC-equivalence solution
 in the nullspace

Only sums of two distinct basis vectors were tried, so that e.g. a graph whose
constraint system has a one-dimensional nullspace was not equivalent to itself.
---
 flamingpy/utils/linalg.py | 54 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..6e05789 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,5 +1,7 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
+import itertools as it
+
 import numpy as np
 
 
@@ -103,9 +105,10 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
-     output None. If a solution is found, return a vector specifying the local
+     Search through the basis vectors of the nullspace and sums of pairs of
+     them (all sums if the nullspace has a dimension of at most 4), and see if
+     any satisfy the determinant constraints. This is sufficient according to
+     arXiv:quant-ph/0405023. If no solution is found, output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
 
         (a_1, a_2, ..., a_n, b_1, b_2, ..., b_n, c_1, c_2, ..., c_n, d_1, d_2, ..., d_n),
@@ -125,31 +128,28 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
+    # search through sums of pairs of basis vectors, the basis vectors themselves
+    # and, if the nullspace is small, through all other sums of basis vectors
+    sizes = [2, 1] + ([3, 4] if d <= 4 else [])
+    for inds in it.chain.from_iterable(it.combinations(range(d), size) for size in sizes):
+        # boolean for checking solution constraints
+        sat = True
+        # potential solution as sum (modulo 2) of basis vectors
+        sol = np.sum(basis[list(inds)], axis=0) % 2
+        # store potential solution
+        sols.append(sol)
+        for k in range(n):
+            # check the determinants (modulo 2)
+            det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
+            if det != 1:
+                # constraints not satisfied
+                sat = False
+                # remove the false solution
+                sols.pop()
                 break
-        # end search loop
-        if equivalent:
+        # if solution found, set equivalent to True and end search loop
+        if sat:
+            equivalent = sat
             break
     # if no solution found, return None
     if not equivalent:
-- 
2.43.0


From 94dd97b663e8c60434a9fea7479f7814d37db011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 13/21] fix: trim long branches of the union-find spanning
 forest

The recursion of trim_forest hit the recursion limit for branches of about 1000 edges.
---
 flamingpy/decoders/unionfind/algos.py | 37 +++++++++++++++------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..b5929fd 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -268,23 +268,26 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    # Iterative, as a branch can be longer than the recursion limit.
+    while True:
+        edges = list(spanning_forest.out_edges(leaf))
+        if edges:
+            edge = edges[0]
+        else:
+            return
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        if spanning_forest.degree(new_leaf) != 1:
+            return
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From 0fb6523d116228d48856612e2008f48ab75bec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 14/21] fix: account for the fractional part of weights in the
 rustworkx backend

The weight of a path was the sum of the truncated edge weights, so that with the
default (non-integer) blueprint weights the matching was not of minimum weight
and boundary paths could run through the 'low' and 'high' nodes.
---
 flamingpy/codes/graphs/stabilizer_graph.py |  2 +-
 flamingpy/decoders/mwpm/matching.py        | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..00e517f 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -496,7 +496,7 @@ class RxStabilizerGraph(StabilizerGraph):
     def _path_weight(self, path):
         weight = 0
         for e in range(len(path) - 1):
-            weight += int(rx_weight_fn(self.graph.get_edge_data(path[e], path[e + 1])))
+            weight += rx_weight_fn(self.graph.get_edge_data(path[e], path[e + 1]))
         return weight
 
     def _all_path_nodes(self, paths):
diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..592e096 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -237,19 +237,22 @@ class RxEdgePayload:
         path: the nodes in the stabilizer graph along the minimum-weight-path.
     """
 
-    weight: int
+    weight: Union[int, float]
     path: List[Node]
 
 
 class RxMatchingGraph(MatchingGraph):
     """A matching graph backed by rustworkx.
 
-    The edge weights must be of type int.
+    The edge weights can be either of type int or float. As the rustworkx
+    matching algorithm requires integers, the latter are considered with a
+    precision of 1 / WEIGHT_RESOLUTION.
 
     See the MatchingGraph class for more details.
     """
 
-    Weight = int
+    Weight = Union[int, float]
+    WEIGHT_RESOLUTION = 2**32
 
     def __init__(self, ec, code=None):
         self.graph = rx.PyGraph(multigraph=False)
@@ -287,7 +290,7 @@ class RxMatchingGraph(MatchingGraph):
         matches = rx.max_weight_matching(
             self.graph,
             max_cardinality=True,
-            weight_fn=lambda edge: -edge.weight,
+            weight_fn=lambda edge: -round(edge.weight * self.WEIGHT_RESOLUTION),
         )
         return [(self.index_to_node[pair[0]], self.index_to_node[pair[1]]) for pair in matches]
 
-- 
2.43.0


From 28adeabe3b306f4270d70556c4ba18816953a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 15/21] fix: quote values containing commas in the simulation
 results file

Sequences such as distance=(3, 3, 5) were split over several columns.
---
 flamingpy/simulations.py | 45 +++++++++++-----------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..58353e3 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,7 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
 import sys
 import warnings
 import logging
@@ -155,43 +156,21 @@ def run_ec_simulation(
         # Create a CSV file if it doesn't already exist.
         try:
             file = open(file_name, "x", newline="", encoding="utf8")
-            file.write("code,")
-            for key in code_args:
-                file.write("%s," % (key))
-            file.write("noise,")
-            for key in noise_args:
-                file.write("%s," % (key))
-            file.write("decoder,")
-            for key in decoder_args:
-                file.write("%s," % (key))
-            file.write("errors,trials,current_time,simulation_time,mpi_size\n")
+            writer = csv.writer(file, lineterminator="\n")
+            writer.writerow(
+                ["code", *code_args, "noise", *noise_args, "decoder", *decoder_args]
+                + ["errors", "trials", "current_time", "simulation_time", "mpi_size"]
+            )
         # Open the file for appending if it already exists.
         except FileExistsError:
             file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
-        for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
-        for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
+            writer = csv.writer(file, lineterminator="\n")
         current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
-                current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
-        )
+        simulation_time = "%f" % (simulation_stop_time - simulation_start_time)
+        row = [code.__name__, *code_args.values(), noise.__name__, *noise_args.values()]
+        row += [decoder, *decoder_args.values()]
+        row += [errors, trials, current_time, simulation_time, mpi_size]
+        writer.writerow([str(value) for value in row])
         file.close()
 
 
-- 
2.43.0


From 4ffdf9f34174fcfc5bd792a1c3f5369988089267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 16/21] fix: LC equivalence of disconnected graphs

The search through sums of at most two basis vectors of the nullspace is complete
for connected graphs only; e.g. an edgeless graph was not equivalent to itself.
Solve the constraints for every connected component separately.
---
 flamingpy/utils/linalg.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index 6e05789..c438f6c 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -2,6 +2,7 @@
 
 import itertools as it
 
+import networkx as nx
 import numpy as np
 
 
@@ -268,14 +269,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
     if np.shape(G)[0] != np.shape(G)[1]:
         raise ValueError("Input matrices must be square.")
 
-    # perform algorithm to search for solution
-    #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # perform algorithm to search for solution, which is complete for connected
+    # graphs only: consider every connected component of the first graph in turn
+    n = np.shape(G)[0]
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for component in nx.connected_components(nx.from_numpy_array(G)):
+        inds = sorted(component)
+        # local operations cannot create nor remove the links between components
+        if np.delete(H[inds], inds, axis=1).any():
+            solution_vector = None
+            break
+        # construct system of constraints for the two adjacency matrices
+        system = lc_constraint_system(G[np.ix_(inds, inds)], H[np.ix_(inds, inds)])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        component_solution = search_nullspace(nullspace)
+        if component_solution is None:
+            solution_vector = None
+            break
+        for block in range(4):
+            block_inds = np.arange(len(inds)) + block * len(inds)
+            solution_vector[np.array(inds) + block * n] = component_solution[block_inds]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 6c97c1b2feccab5f05542902c66ce61873482af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 17/21] fix: do not grow erased clusters that reach the
 boundary in Union-Find

---
 flamingpy/decoders/unionfind/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index b5929fd..303b3f1 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,8 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        # A cluster that reaches the boundary is already valid.
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From 0d266013630ea181c8230d72fe21ef4f3f2f7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 18/21] fix: dense CZ matrix of a SciPy sparse matrix

---
 flamingpy/cv/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..29300dc 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -29,8 +29,8 @@ def invert_permutation(p):
 
 
 def issparse(array):
-    """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    """Check if an array is sparse (either a SciPy sparse array or matrix)."""
+    return sp.issparse(array)
 
 
 def SCZ_mat(adj, sparse=True):
-- 
2.43.0


From 4e3b7afeddb1eb0e1ffcb45395fe129ad9c52f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 19/21] fix: keep fractional CZ weights in the block-wise
 SCZ_apply of integer vectors

---
 flamingpy/cv/ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 29300dc..56b9dba 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -85,9 +85,7 @@ def SCZ_apply(adj, quads, one_shot=True):
         else:
             old_qs = quads[:N]
             old_ps = quads[N:]
-            new_quads = np.empty(2 * N, quads.dtype)
-            new_quads[:N] = old_qs
-            new_quads[N:] = adj.dot(old_qs) + old_ps
+            new_quads = np.concatenate([old_qs, adj.dot(old_qs) + old_ps])
     if len(quads.shape) == 2:
         if one_shot:
             SCZ = SCZ_mat(adj)
-- 
2.43.0


From 748c8ef1038dcd76ea2f7eb2a27e08c99ebc4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 20/21] fix: two-step covariances of perfect qubits requested
 more than once

---
 flamingpy/noise/cv.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index f1a8402..0763569 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -300,11 +300,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (np.asarray(inds) == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From 997dc8f77e11916337fc2d6392c658c9ab49c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:28 +0000
Subject: [PATCH 21/21] fix: account for edge weights when correcting for
 p-squeezed neighbours in macronode reduction

The position of a p-squeezed micronode reaches its neighbour's momentum with
the weight of their edge, so the correction by the processed outcome needs the
same weight. With -1 edges (e.g. alternating_polarity) and swap-outs, bit
values were wrong even without noise.
---
 flamingpy/noise/cv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 0763569..b861335 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -605,7 +605,11 @@ class CVMacroLayer(CVLayer):
         for i in (1, 2, 3, 4):
             if types[i - 1] == "p":
                 num_p += 1
-                outcome -= Z_arr[i]
+                # The neighbor's position reaches the star through the CZ gate,
+                # so with the weight of the corresponding edge.
+                micro = self._to_points[self.permuted_inds[j + i - 1]]
+                weight = macro_graph.edges[micro, neighbors[i - 1]].get("weight", 1)
+                outcome -= weight * Z_arr[i]
             if types[i - 1] == "GKP":
                 if delta > 0:
                     p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)
-- 
2.43.0

