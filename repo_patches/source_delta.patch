From b0ff6b76aa0835f2c077853ad0d84342aa5bc79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 01/14] fix: mpckmeans counts empty clusters among the
 requested ones only

When an empty cluster was refilled, the occupancy was recounted over at
least 10 clusters, so any run with fewer than 10 clusters and one empty
cluster raised 'Empty Clusters Exception'.
---
 .../interactive_clustering/clustering/mpckmeans.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 6fe232b..55293b9 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -569,7 +569,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
             filling_point: float = max(distances_to_clusters, key=distances_to_clusters.get)
             labels[filling_point] = empty_cluster_id
 
-            n_samples_in_cluster = np.bincount(labels, minlength=10)
+            n_samples_in_cluster = np.bincount(labels, minlength=self.nb_clusters)
 
         empty_clusters = np.where(n_samples_in_cluster == 0)[0]
 
-- 
2.43.0


From 903d37d1a0e802cf9ba1589396cd814e1e4e95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 02/14] fix: mpckmeans accepts identical data points

The search of the farthest pair failed an assertion when all the points
were identical (or when there was only one point).
---
 .../interactive_clustering/clustering/mpckmeans.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 55293b9..2139613 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -334,7 +334,8 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
             Tuple[int, int, float]: Indexes of the farthest pair of points and the corresponding distance.
         """
 
-        farthest = None
+        # Defaults to a null distance (only one point, or all points are identical).
+        farthest: Tuple[int, int, float] = (0, 0, 0.0)
         n = X.shape[0]
         max_distance = 0.0
 
@@ -346,8 +347,6 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
                         max_distance = distance
                         farthest = (i, j, distance)
 
-        assert farthest is not None
-
         return farthest
 
     def weighted_farthest_first_traversal(self, points: np.ndarray, weights: np.ndarray, k: int) -> List[int]:
-- 
2.43.0


From 09d126f3078ed65f3ed55b1203962d2ed512b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 03/14] fix: mpckmeans initialization accepts duplicated
 neighborhood centers

The farthest first traversal selected no point (None) when all remaining
neighborhood centers were at a null distance of the traversed ones.
---
 .../interactive_clustering/clustering/mpckmeans.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 2139613..e9a5ed3 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -369,7 +369,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
 
         # Find remaining n - 1 maximally separated points
         for _ in range(k - 1):
-            max_dst, max_dst_index = 0, None
+            max_dst, max_dst_index = -1.0, None  # Accept null distances (duplicated points).
 
             number_of_points = len(points)
             for j in range(number_of_points):
-- 
2.43.0


From a4b8061d02cb201e82db01718f5b72fee0460f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 04/14] fix: mpckmeans aligns vectors with the managed data IDs

Vectors were taken in the order of the vectors dictionary while the
constraints are indexed by the order of the managed data IDs: constraints
were applied to the wrong data when these orders differ, and vectors of
data that are not managed were clustered.
---
 .../interactive_clustering/clustering/mpckmeans.py           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index e9a5ed3..796c4fc 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -204,11 +204,12 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
         self.nb_clusters: int = min(nb_clusters, len(self.list_of_data_IDs))
 
         # TODO: Reformat vectors
-        id_names: np.ndarray = np.array(list(vectors.keys()))
+        # Follow the order of managed data IDs, because constraints are indexed by this order.
+        id_names: List[str] = self.list_of_data_IDs
         X: np.ndarray = np.array(
             [
                 (np.array(v).flatten() if isinstance(v, (np.ndarray, list)) else v.toarray().flatten())
-                for v in vectors.values()
+                for v in (self.vectors[data_ID] for data_ID in self.list_of_data_IDs)
             ]
         )
 
-- 
2.43.0


From fd8856821b05c7dbfa7a968c18ae222c37ec6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 05/14] fix: mpckmeans uses its random seed

The random_seed parameter was stored but never used, so the same
clustering could not be redone.
---
 .../interactive_clustering/clustering/mpckmeans.py             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 796c4fc..92261e4 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -241,6 +241,9 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
             )
         ]
 
+        # Fix random seed.
+        np.random.seed(self.random_seed)
+
         # Preprocess constraints
         ml_graph, cl_graph, neighborhoods = self.preprocess_constraints()
 
-- 
2.43.0


From f0204987af82df45d2753a9ba9bedbaf904c8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 06/14] fix: affinity propagation respects MUST_LINK when all
 similarities are equal

The shortcut for mutually equal similarities returned one cluster per data
without looking at the MUST_LINK closures, even with absolute_must_links.
---
 .../interactive_clustering/clustering/affinity_propagation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
index 6cf7f68..1c89795 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
@@ -305,6 +305,10 @@ def _affinity_propagation_constrained(
         # It makes no sense to run the algorithm in this case, so return 1 or n_samples clusters, depending on preferences
         # TODO: warnings.warn("All samples have mutually equal similarities. Returning arbitrary cluster center(s).")
         if preference.flat[0] >= S.flat[n_samples - 1]:
+            if absolute_must_links:
+                # Keep data from a same MUST_LINK closure in the same cluster.
+                closure_of_data = {i: label for label, closure in enumerate(must_links) for i in closure}
+                return [closure_of_data[i] for i in range(n_samples)]
             return np.arange(n_samples)
         return [0 for _ in range(n_samples)]
 
-- 
2.43.0


From 478223e3fb18d35c8a477bea4e81af027e03347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 07/14] fix: preprocessing uses the text forced to string type

The conversion with str() was discarded, so a non-string value failed on
lowercasing instead of being preprocessed as vectorize() handles it.
---
 .../interactive_clustering/utils/preprocessing.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/utils/preprocessing.py b/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
index ff0c91f..5704ad9 100644
--- a/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
+++ b/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
@@ -152,7 +152,7 @@ def preprocess(
         preprocessed_text: str = str(text)
 
         # Apply lowercasing.
-        preprocessed_text = text.lower()
+        preprocessed_text = preprocessed_text.lower()
 
         # Apply punctuation deletion (before tokenization).
         preprocessed_text = preprocessed_text.translate(punctuation_translator)
-- 
2.43.0


From f03860d31b9cfefb7fec2c1bb397cf7e4794a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 08/14] fix: dbscan keeps MUST_LINK data in the same cluster

A linked data that was already taken by the neighborhood of another data
had its own core local cluster dropped, and could end in another final
cluster than the data it must be linked with. Each MUST_LINK component now
follows its first assigned member, which cannot introduce a CANNOT_LINK
conflict because constraints are transitive.
---
 .../interactive_clustering/clustering/dbscan.py   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
index a6a1a50..0cc3938 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
@@ -527,6 +527,21 @@ class DBScanConstrainedClustering(AbstractConstrainedClustering):
                     self.dict_of_predicted_clusters[core_cluster_point] = assigned_cluster_id
                 assigned_cluster_id += 1
 
+        # Keep data linked by "MUST_LINK" constraints in the same final cluster
+        for connected_component in self.constraints_manager.get_connected_components():
+            list_of_assigned_IDs: List[str] = [
+                data_ID for data_ID in connected_component if data_ID in self.dict_of_predicted_clusters
+            ]
+            if list_of_assigned_IDs:
+                for linked_data_ID in connected_component:
+                    self.dict_of_predicted_clusters[linked_data_ID] = self.dict_of_predicted_clusters[
+                        list_of_assigned_IDs[0]
+                    ]
+            elif len(connected_component) > 1:
+                for linked_data_ID in connected_component:
+                    self.dict_of_predicted_clusters[linked_data_ID] = assigned_cluster_id
+                assigned_cluster_id += 1
+
         # Rename clusters
         self.dict_of_predicted_clusters = rename_clusters_by_order(
             clusters=self.dict_of_predicted_clusters,
-- 
2.43.0


From 859347e3670bf01e8e0aa80c94e8984f72ac10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:17 +0000
Subject: [PATCH 09/14] fix: dbscan compares the size of remaining local
 clusters with min_samples

The number of data left in a local cluster was compared with eps, which is
a distance: multiplying the vectors and eps by the same factor changed the
clusters, and with a large eps every small local cluster became noise.
---
 .../interactive_clustering/clustering/dbscan.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
index 0cc3938..925c550 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
@@ -522,7 +522,7 @@ class DBScanConstrainedClustering(AbstractConstrainedClustering):
                 self.dict_of_local_clusters[local_cluster].remove(data_ID_to_remove)
 
             # Check that the local cluster is still big enough
-            if len(self.dict_of_local_clusters[local_cluster]) >= self.eps:
+            if len(self.dict_of_local_clusters[local_cluster]) >= self.min_samples:
                 for core_cluster_point in self.dict_of_local_clusters[local_cluster]:
                     self.dict_of_predicted_clusters[core_cluster_point] = assigned_cluster_id
                 assigned_cluster_id += 1
-- 
2.43.0


From c49c59c2a661f6f0afa77c7279f0e222d4e6103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:16 +0000
Subject: [PATCH 10/14] fix: dbscan merges the closest local cluster, not the
 one with the smallest ID

---
 .../interactive_clustering/clustering/dbscan.py               | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
index 925c550..4de1ec8 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/dbscan.py
@@ -455,9 +455,7 @@ class DBScanConstrainedClustering(AbstractConstrainedClustering):
                     )
 
                 # Find closest local cluster to core cluster
-                closest_cluster = min(
-                    distances_to_local_clusters
-                )  # TODO: min(distances_to_local_clusters, key=lambda x: distances_to_local_clusters[x])
+                closest_cluster = min(distances_to_local_clusters, key=lambda x: distances_to_local_clusters[x])
 
                 if distances_to_local_clusters[closest_cluster] > self.eps:
                     merging = False
-- 
2.43.0


From 37f1bd3b1c5bacd9da75a3fc36efa225825387d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:25 +0000
Subject: [PATCH 11/14] fix: document the actual default of
 convergence_iteration in affinity propagation

---
 .../interactive_clustering/clustering/affinity_propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
index 1c89795..7afa19a 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
@@ -104,7 +104,7 @@ class AffinityPropagationConstrainedClustering(AbstractConstrainedClustering):
 
         Args:
             max_iteration (int, optional): The maximum number of iteration for convergence. Defaults to `150`.
-            convergence_iteration (int, optional): The number of iterations with no change to consider a convergence. Default to `15`.
+            convergence_iteration (int, optional): The number of iterations with no change to consider a convergence. Default to `10`.
             absolute_must_links (bool, optional): the option to strictly respect `"MUST_LINK"` type constraints. Defaults to ``True`.
             random_seed (Optional[int], optional): The random seed to use to redo the same clustering. Defaults to `None`.
             **kargs (dict): Other parameters that can be used in the instantiation.
@@ -284,7 +284,7 @@ def _affinity_propagation_constrained(
         cannot_links (List[Tuple[int, int]]): The list of data linked by CANNOT_LINK constraints
         absolute_must_links (bool, optional): The option to use absolute must links implementation. Defaults to `True`.
         max_iteration (int, optional): The maximum number of iteration for convergence. Defaults to `150`.
-        convergence_iteration (int, optional): The number of iterations with no change to consider a convergence. Default to `15`.
+        convergence_iteration (int, optional): The number of iterations with no change to consider a convergence. Default to `10`.
         damping (float, optional): Damping factor between 0.5 and 1. Defaults to `0.5`.
         remove_degeneracies (bool, optional): The option to remove degeneracies in the similarity matrix. Defaults to `True`.
         random_seed (Optional[int], optional): The random seed to use to redo the same clustering. Defaults to `None`.
-- 
2.43.0


From 7ca9b51bb97f15decb3d45d543c44366f8bc320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:49 +0000
Subject: [PATCH 12/14] fix: key the centroids kept by COP k-means by the
 renamed clusters

---
 .../interactive_clustering/clustering/kmeans.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/kmeans.py b/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
index d28531b..86547e7 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
@@ -390,7 +390,7 @@ class KMeansConstrainedClustering(AbstractConstrainedClustering):
 
         # Rename cluster IDs by order.
         self.clusters = rename_clusters_by_order(clusters=self.clusters)
-        self.centroids = self.compute_centroids(clusters=new_clusters)
+        self.centroids = self.compute_centroids(clusters=self.clusters)
 
         return self.clusters
 
-- 
2.43.0


From a950c1eedbd7eb58252a568ef5fedc1322bebc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 13/14] fix: explore must-link groups of any size in MPC
 k-means without recursion

---
 .../clustering/mpckmeans.py                       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 92261e4..c2f4b4e 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -397,11 +397,18 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
         d[j].add(i)
 
     def _dfs(self, i, graph, visited, component):
+        # Use an explicit stack, because a component can be deeper than the recursion limit.
         visited[i] = True
-        for j in graph[i]:
-            if not visited[j]:
-                self._dfs(j, graph, visited, component)
-        component.append(i)
+        stack = [(i, iter(graph[i]))]
+        while stack:
+            current, neighbors = stack[-1]
+            next_neighbor = next((j for j in neighbors if not visited[j]), None)
+            if next_neighbor is None:
+                component.append(current)
+                stack.pop()
+            else:
+                visited[next_neighbor] = True
+                stack.append((next_neighbor, iter(graph[next_neighbor])))
 
     def preprocess_constraints(
         self,
-- 
2.43.0


From 7161ccd4f89ac267d78aebbfcf8779aa8974381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 14/14] fix: compatibility characters escaped lower-casing,
 punctuation deletion and whitespace cleaning in preprocessing

---
 .../interactive_clustering/utils/preprocessing.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/utils/preprocessing.py b/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
index 5704ad9..791de52 100644
--- a/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
+++ b/src/cognitivefactory/interactive_clustering/utils/preprocessing.py
@@ -151,8 +151,8 @@ def preprocess(
         # Force string type.
         preprocessed_text: str = str(text)
 
-        # Apply lowercasing.
-        preprocessed_text = preprocessed_text.lower()
+        # Apply lowercasing (on compatibility characters too, whose decomposition may contain capitals or punctuation).
+        preprocessed_text = unicodedata.normalize("NFKC", preprocessed_text).lower()
 
         # Apply punctuation deletion (before tokenization).
         preprocessed_text = preprocessed_text.translate(punctuation_translator)
@@ -194,6 +194,7 @@ def preprocess(
         preprocessed_text = "".join(
             [char for char in unicodedata.normalize("NFKD", preprocessed_text) if not unicodedata.combining(char)]
         )
+        preprocessed_text = " ".join(preprocessed_text.split())  # A lonely accent leaves nothing.
 
         # Store preprocessed text.
         dict_of_preprocessed_texts[key] = preprocessed_text
-- 
2.43.0

