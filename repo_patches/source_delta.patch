From 820bc13b5928d4d1ed06c7dd1e0d14dfe90dd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 01/21] fix: index strides of the sufficient statistics for
 mixed cardinalities

---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..9826f9c 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,8 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        strides = np.append([1], scalar_indexes_struct[:-1])
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * strides, axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +106,8 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        strides = np.append([1], scalar_indexing[:-1])
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * strides, axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From a605e6e099e71ca2f1da16d7b1df3130a2d6cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 02/21] fix: parent combinations of parents with different
 cardinalities

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 059abf57e1ca32d8137d0e91f6e95d8a46be464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 03/21] fix: waiting times are exponential with the exit rate,
 not with its inverse

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..502aeb4 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -99,7 +99,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 967e1f469e26f3311dc768a6f7641d7cf535ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 04/21] fix: sampled rows keep fractional times and do not
 overwrite the previous row

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 502aeb4..b7c0fe6 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.infer_objects()
                 self._generated_trajectory = sigma
                 return sigma
             else:
@@ -123,9 +123,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
+                new_row.at[0, self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row.at[0, "Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From 5588306950575c8dbe75184cf591ce88f803994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 05/21] fix: tabu search draws from a sequence, a set is
 refused by random.sample

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..ccd856e 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = sample(sorted(current_possible_nodes),k=1)[0]
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From d11c2889d8e559fc5a335fc357de6ede314e747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 06/21] fix: score-based searches keep known parents and stop
 when nothing can be chosen

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py |  8 ++++++--
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..9666258 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -92,7 +92,7 @@ class HillClimbing(Optimizer):
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
         patince_count = 0
-        for i in range(self.iterations_number):
+        for i in range(self.iterations_number if other_nodes else 0):
             'choose a new random edge'
             current_new_parent = choice(other_nodes)
             current_edge =  (current_new_parent,self.node_id)
@@ -107,7 +107,11 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if not removable_parents:
+                            'only known parents are left and no parent can be added'
+                            break
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index ccd856e..f202adc 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -115,7 +115,7 @@ class TabuSearch(Optimizer):
 
         patince_count = 0
         tabu_count = 0 
-        for i in range(self.iterations_number):
+        for i in range(self.iterations_number if other_nodes else 0):
             
             current_possible_nodes = other_nodes.difference(tabu_set)
 
@@ -139,7 +139,11 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if not removable_parents:
+                            'only known parents are left and no parent can be added'
+                            break
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
@@ -166,7 +170,7 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
+            if tabu_queue.qsize() >= max(self.tabu_length, 1):
                     current_removed = tabu_queue.get()
                     tabu_set.remove(current_removed)
             'Add the node on the tabu list'
@@ -176,7 +180,7 @@ class TabuSearch(Optimizer):
             tabu_count += 1
 
             'Every tabu_rules_duration step remove an item from the tabu list '
-            if tabu_count % self.tabu_rules_duration == 0:
+            if tabu_count % max(self.tabu_rules_duration, 1) == 0:
                 if tabu_queue.qsize() > 0:
                     current_removed = tabu_queue.get()
                     tabu_set.remove(current_removed)
-- 
2.43.0


From c90e1f532d9b29ffee8c637a0425f2517e51c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 07/21] fix: the estimated graph lists isolated variables

---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From 1e4eb53999483dc5c450a5e233a1cf0542f4f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 08/21] fix: spurious edges are the estimated ones missing from
 the prior structure

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py  | 3 +++
 PyCTBN/PyCTBN/estimators/structure_estimator.py                | 2 +-
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py    | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..747fe23 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -221,6 +221,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'get the number of CPU'
         cpu_count = multiprocessing.cpu_count()
 
+        prior_edges = self._sample_path.structure.edges
         'Remove all the edges from the structure'   
         self._sample_path.structure.clean_structure_edges()
 
@@ -246,6 +247,8 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         self._complete_graph = nx.DiGraph()
         self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
 
         return edges
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..3d14e35 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -142,7 +142,7 @@ class StructureEstimator(object):
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return nx.difference(self._complete_graph, real_graph).edges
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..377ed89 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -83,6 +83,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = copy.deepcopy(self._sample_path.structure.edges)
         true_edges = set(map(tuple, true_edges))
 
+        prior_edges = self._sample_path.structure.edges
         'Remove all the edges from the structure'   
         self._sample_path.structure.clean_structure_edges()
 
@@ -161,6 +162,8 @@ class StructureScoreBasedEstimator(StructureEstimator):
         self._complete_graph = nx.DiGraph()
         self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
 
         return set_list_edges
     
-- 
2.43.0


From ff77e4db73087beda9c7228bd60c7e8c54638dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 09/21] fix: transitions never observed do not switch the
 chi-square test off

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 747fe23..ad67e8f 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -165,7 +165,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
                          (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
-- 
2.43.0


From 5c604c775fb5d35360f735690b6f3811e63a2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 10/21] fix: conditional test works when only the larger parent
 set is cached

---
 .../structure_constraint_based_estimator.py         | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index ad67e8f..b7c64c9 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -109,11 +109,14 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         del p_set[0]
         sofc1 = self._cache.find(set(p_set))
         if not sofc1:
-            g2.remove_node(test_parent)
-            g2.fast_init(test_child)
-            p2 = ParametersEstimator(self._sample_path.trajectories, g2)
-            p2.fast_init(test_child)
-            sofc1 = p2.compute_parameters_for_node(test_child)
+            bool_mask1 = np.isin(self._nodes, p_set + [test_child])
+            s1 = Structure(list(self._nodes[bool_mask1]), self._nodes_indxs[bool_mask1], self._nodes_vals[bool_mask1],
+                           list(itertools.product(p_set, [test_child])), tot_vars_count)
+            g1 = NetworkGraph(s1)
+            g1.fast_init(test_child)
+            p1 = ParametersEstimator(self._sample_path.trajectories, g1)
+            p1.fast_init(test_child)
+            sofc1 = p1.compute_parameters_for_node(test_child)
             self._cache.put(set(p_set), sofc1)
         thumb_value = 0.0
         if child_states_numb > 2:
-- 
2.43.0


From fa669eb0d10ae7fc669efdf4e8863fb7d1d0b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 11/21] fix: columns of next states never collide with a
 variable's own column

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..c8ea7e6 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -106,7 +106,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in df_samples_list[0].columns for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From 046a52848782558074fc634cd12e555f7f517043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 12/21] fix: the time column may have any name and any position
 in the JSON records

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 PyCTBN/PyCTBN/utility/json_importer.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index c8ea7e6..a42c47e 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -116,7 +116,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, df_samples_list[0].columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 781be4d..e684245 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -145,6 +145,7 @@ class JsonImporter(AbstractImporter):
         dataframe = pd.DataFrame
         smps = raw_data[indx][trajectories_key]
         df_samples_list = [dataframe(sample) for sample in smps]
+        df_samples_list = [df[[self._time_key] + self.build_sorter(df)] for df in df_samples_list]
         return df_samples_list
 
     def build_sorter(self, sample_frame: pd.DataFrame) -> typing.List:
-- 
2.43.0


From 1cbff19919c88312722c649d38213b320a738820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 13/21] fix: only the last row of a trajectory is dropped when
 its index label is repeated

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index a42c47e..e764287 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 1eda4eabe2272c1118022ab924d0701f28bf0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 14/21] fix: trajectories sampled in parallel use different
 random draws

---
 .../PyCTBN/structure_graph/trajectory_generator.py   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index b7c0fe6..5ff4a2c 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -136,7 +136,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -145,8 +145,13 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: If defined, the seed of the random draws of this process
+            :type seed: list
         """
         
+        if seed is not None:
+            random.seed(seed)
+
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -164,11 +169,12 @@ class TrajectoryGenerator(object):
             return
 
         trajectories = Manager().list()
+        base_seed = random.randint(2**31)
 
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, [base_seed, i])) for i, t in enumerate(t_ends)]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, [base_seed, i])) for i, m in enumerate(max_trs)]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 66966bda2c38a762d5c368b31d27f003f5ae88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 15/21] fix: intensity matrices are written and read with the
 parents they belong to

---
 .../PyCTBN/structure_graph/trajectory_generator.py   | 12 +++++++-----
 PyCTBN/PyCTBN/utility/json_exporter.py               |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 5ff4a2c..28934d3 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -36,11 +36,10 @@ class TrajectoryGenerator(object):
         self._vnames = self._importer._df_variables.iloc[:, 0].to_list() if importer is not None else variables.iloc[:, 0].to_list()
  
         self._parents = {}
+        structure = self._importer._df_structure if importer is not None else dyn_str
+        edges = set() if structure.empty else set(zip(structure["From"], structure["To"]))
         for v in self._vnames:
-            if importer is not None:
-                self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
-            else:
-                self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+            self._parents[v] = [p for p in self._vnames if (p, v) in edges]
         
         self._cims = {}
         if importer is not None:
@@ -50,9 +49,12 @@ class TrajectoryGenerator(object):
                 p_combs = []
                 v_cims = []
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    p_combs.append([int(re.search("(^|,)" + re.escape(p) + r"=(\d+)", comb).group(2)) for p in self._parents[v]])
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
+                order = sorted(range(len(p_combs)), key = lambda k: p_combs[k][::-1])
+                p_combs = np.array([p_combs[k] for k in order]).astype("int")
+                v_cims = [v_cims[k] for k in order]
 
                 if importer is not None:
                     sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables["Name"] == p)["Value"] for p in self._parents[v]], 
diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 43b11da..060876b 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -52,6 +52,7 @@ class JsonExporter(AbstractExporter):
         for i, l in enumerate(self._variables.iloc[:, 0].to_list()):
             json_cims[l] = {}
             parents = self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist()
+            parents = [p for p in self._variables.iloc[:, 0] if p in parents]
             for j, comb in enumerate(self._dyn_cims[l].p_combs):
                 comb_key = ""
                 if len(parents) != 0:
-- 
2.43.0


From bc74a32f129ed6729d84957f3db2d4eadaa9b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 16/21] fix: fixed density accepts whole numbers of edges
 whatever the type or rounding of the density

---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..a2f1225 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if abs(n_edges - round(n_edges)) > 1e-9:
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = int(round(n_edges))
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From 5dbe3cb7a447d36cfd9c863d3dbb66a51bf029ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 17/21] fix: prior edges are plain tuples that can be compared
 and removed

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..f664a27 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -66,7 +66,7 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(self._importer.structure.to_records(index=False))
+            edges = list(self._importer.structure.itertuples(index=False, name=None))
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
-- 
2.43.0


From cb0edce88f794cd3ed53360cfa213a14c6ab1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 18/21] fix: variables are indexed by their data column,
 whatever the index of their frame

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index f664a27..81a7741 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From 8cb79cd3adc5b6df3148d239353902c7ea6c7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 19/21] fix: an importer that has not imported its samples is
 rejected

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 81a7741..7366ee1 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -36,6 +36,8 @@ class SamplePath(object):
         if isinstance(self._importer._concatenated_samples, pd.DataFrame) and\
             self._importer._concatenated_samples.empty:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
+        if isinstance(self._importer._concatenated_samples, list) and not self._importer._concatenated_samples:
+            raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         if isinstance(self._importer._concatenated_samples, np.ndarray) and\
             self._importer._concatenated_samples.size == 0:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
-- 
2.43.0


From 547b12269c23ebf6a0c3437992465dcf14179bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 20/21] fix: position of a node in a NetworkGraph stays right
 after an earlier node is removed

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index a6dc756..a671e88 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -253,7 +253,7 @@ class NetworkGraph(object):
         return nx.get_node_attributes(self._graph, 'indx')[node_id]
 
     def get_positional_node_indx(self, node_id) -> int:
-        return self._graph.nodes[node_id]['pos_indx']
+        return self._graph_struct.get_positional_node_indx(node_id)
 
     @property
     def nodes(self) -> typing.List:
-- 
2.43.0


From 5a2250c86e82b17860bea816a892e6f858b7aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 21/21] fix: cardinalities given in an array together with the
 labels are numbers

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 7366ee1..a816e63 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -64,7 +64,7 @@ class SamplePath(object):
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
         indxs = np.arange(len(labels))
-        vals = self._importer.variables.iloc[:, 1].to_numpy()
+        vals = self._importer.variables.iloc[:, 1].to_numpy().astype(int)
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-- 
2.43.0

