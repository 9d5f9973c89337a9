From 27af57a1af418be74ce23771447b00ecb8092e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 01/23] fix: average of periodic positions must lie within the
 limits

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From 2deabdc834331c4829fe1c7121f16e4617f789ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 02/23] fix: queue duplicate objects only once also when added
 together

---
 nodefinder/search/_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..46498b7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,7 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +45,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 401218729333984176bfb071e90661eba559c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 03/23] fix: do not visit periodic neighbour cells more than
 once

---
 nodefinder/search/result/_cell_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..9528bf3 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,12 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # with less than three cells, several offsets lead to the same cell
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From cadf34bb8fdc46e57c82094591fee3653e27d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 04/23] fix: avoid infinite recursion when copying joined
 results

---
 nodefinder/search/result/_minimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..e417f5c 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -51,6 +51,9 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         Joins child and ancestor values where that makes sense, and returns the
         child value otherwise.
         """
+        if key in self.HDF5_ATTRIBUTES:
+            # not set (yet), for example while copying or unpickling
+            raise AttributeError(key)
         if key in self.JOIN_KEYS:
             return self._join(
                 getattr(self.ancestor, key), getattr(self.child, key)
-- 
2.43.0


From 71e6d49ae9773adc8674d1ac1ee75f134e330483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 05/23] fix: do not sample from a set, which fails since Python
 3.11

---
 nodefinder/identify/_dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..e9071c0 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,8 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                tuple(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 265963dc5a80be685b5d3e568acd3e3565cf2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 06/23] fix: loading identification results with current h5py

---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From c7394dfb236d233af66b46798ad15dccba7a01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 07/23] fix: default feature size when identifying a controller
 state

---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From b9fa3ba02589b71d9c3f3a8c693a91afde769791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 08/23] fix: mark result container as changed when adding a
 result

---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..26db42f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -97,13 +97,13 @@ class SearchResultContainer(SimpleHDF5Mapping):
             Minimization result to add.
         """
         res.pos = self.coordinate_system.normalize_position(res.pos)
+        self.needs_saving = True
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
             return False
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From 3c8a4c936281bf70187fb7e52f1696bbbb4aaa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 09/23] fix: reject results whose value is not a number

---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 26db42f..dc6d966 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -98,7 +98,7 @@ class SearchResultContainer(SimpleHDF5Mapping):
         """
         res.pos = self.coordinate_system.normalize_position(res.pos)
         self.needs_saving = True
-        if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
+        if not (res.success and res.value <= self.gap_threshold):  # pylint: disable=no-else-return
             self.rejected_results.append(res)
             return False
         else:
-- 
2.43.0


From bb4a64a00d342030a880e074ebaf5818bd3a39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 10/23] fix: pass all exceptions from the search thread, and
 close its loop

---
 nodefinder/search/_run.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..04a55e0 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -189,9 +189,11 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = loop.run_until_complete(run_async(*args, **kwargs))
-        loop.close()
+        try:
+            res = loop.run_until_complete(run_async(*args, **kwargs))
+        finally:
+            loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From d8c2b9046d8c902cec8314b8445f4de55d243471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 11/23] fix: keep edge weights in the dominating set subgraph

---
 nodefinder/identify/_evaluate/_line/_dominating_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..6016c19 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
-- 
2.43.0


From 7a00bcd67f2a875e5a88d0646f76dc4874ef886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 12/23] fix: cancel running minimizations when the search is
 aborted

---
 nodefinder/search/_controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..5fd4ba0 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -186,7 +186,13 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # do not leave minimizations running when the search is aborted
+            for future in self.task_futures:
+                future.cancel()
+            await asyncio.gather(*self.task_futures, return_exceptions=True)
 
     async def create_tasks(self):
         """
-- 
2.43.0


From 87f7c0f7e82789ae2c929d568b67c3b5bb98bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 13/23] fix: mark queue as changed when an object is removed

---
 nodefinder/search/_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 46498b7..1f22aec 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -39,7 +39,9 @@ class ObjectQueue(HDF5Enabled, ABC):
         return list(self._queued_objects.queue)
 
     def pop_queued(self):
-        return self._queued_objects.get_nowait()
+        obj = self._queued_objects.get_nowait()
+        self.needs_saving = True
+        return obj
 
     def add_objects(self, objects):
         """
-- 
2.43.0


From f349f38e77cf6406d8a227717000f27c48683a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 14/23] fix: resuming with pending refinements but no
 refinement stencil

---
 nodefinder/search/_controller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 5fd4ba0..810a994 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -210,11 +210,13 @@ class Controller:
                     while not self.state.simplex_queue.has_queued:
                         if self.state.position_queue.has_queued:
                             pos = self.state.position_queue.pop_queued()
-                            if (not self.recheck_pos_dist
-                                ) or self._check_pos_refinement(
+                            if self.refinement_stencil is not None and (
+                                (not self.recheck_pos_dist) or
+                                self._check_pos_refinement(
                                     pos,
                                     count_cutoff=self.recheck_count_cutoff
-                                ):
+                                )
+                            ):
                                 self.state.simplex_queue.add_objects(
                                     pos + self.refinement_stencil
                                 )
-- 
2.43.0


From fa35ef684d5ae14cf1af5b6316fa14002cc8aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 15/23] fix: allow evaluating all positions for the dimension

---
 nodefinder/identify/_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e9071c0..bae5dbe 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -56,7 +56,7 @@ def calculate_dimension(
 
     dim_counter = Counter()
     for i, pos in enumerate(positions_to_evaluate):
-        if i >= min_pos_evaluations:
+        if min_pos_evaluations is not None and i >= min_pos_evaluations:
             finished, dim = _check_count(dim_counter)
             if finished:
                 return dim
-- 
2.43.0


From f51af47f0d592a2dafe52d279c5dddbf25370a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 16/23] fix: report the value of the best vertex when some
 values are not numbers

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..9a9cee6 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -201,7 +201,7 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From 94f47dd57bccafd5979f3acde7278079a665ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 17/23] fix: storing a position whose fractional coordinate is
 rounded to one

---
 nodefinder/search/result/_cell_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 9528bf3..f9edc94 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -71,6 +71,9 @@ class CellList:
         if not self.periodic:
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
+        else:
+            # the fractional coordinate can be one, due to rounding
+            vals %= self._total_num_cells
         return tuple(vals)
 
     def values(self):
-- 
2.43.0


From d7a56a415cdc1119aa1292bb51b141c6e3e464f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 18/23] fix: load strings of minimization results as strings

---
 nodefinder/search/result/_minimization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index e417f5c..84c14b6 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -106,9 +106,12 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        return cls(
-            **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
-            }
-        )
+        kwargs = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
+        for key, val in kwargs.items():
+            # strings are loaded as bytes since h5py version 3
+            if isinstance(val, bytes):
+                kwargs[key] = val.decode()
+        return cls(**kwargs)
-- 
2.43.0


From 74bcb66c5e488033a7f65da07d1f3b9465770ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 19/23] fix: copying and pickling of identification results

---
 nodefinder/identify/result/_containers.py |  8 ++++----
 nodefinder/identify/result/_namespace.py  | 20 ++++++++++++++++++++
 nodefinder/identify/result/_shapes.py     |  8 ++++----
 3 files changed, 28 insertions(+), 8 deletions(-)
 create mode 100644 nodefinder/identify/result/_namespace.py

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 9cbf4a9..44ebbcc 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -6,16 +6,16 @@
 Defines the container classes for the identification results.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 from fsc.export import export
 from fsc.hdf5_io import subscribe_hdf5, SimpleHDF5Mapping, HDF5Enabled, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.identification_result_container')
-class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
+class IdentificationResultContainer(ResultNamespace, SimpleHDF5Mapping):
     """Container class for the result of the identification step.
 
     Attributes
@@ -46,7 +46,7 @@ class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.identification_result')
-class IdentificationResult(SimpleNamespace, HDF5Enabled):
+class IdentificationResult(ResultNamespace, HDF5Enabled):
     """Contains the attributes of an identified object.
 
     Attributes
diff --git a/nodefinder/identify/result/_namespace.py b/nodefinder/identify/result/_namespace.py
new file mode 100644
index 0000000..96d70ac
--- /dev/null
+++ b/nodefinder/identify/result/_namespace.py
@@ -0,0 +1,20 @@
+# -*- coding: utf-8 -*-
+
+# © 2017-2019, ETH Zurich, Institut für Theoretische Physik
+# Author: Dominik Gresch <greschd@gmx.ch>
+"""
+Defines the base class for the result classes of the identification step.
+"""
+
+import copyreg
+from types import SimpleNamespace
+
+
+class ResultNamespace(SimpleNamespace):
+    """
+    SimpleNamespace whose subclasses can have required constructor arguments.
+    """
+    def __reduce__(self):
+        # SimpleNamespace calls the constructor without arguments when copying
+        # or unpickling.
+        return copyreg.__newobj__, (type(self), ), self.__dict__
diff --git a/nodefinder/identify/result/_shapes.py b/nodefinder/identify/result/_shapes.py
index a6b1b6c..d3298ca 100644
--- a/nodefinder/identify/result/_shapes.py
+++ b/nodefinder/identify/result/_shapes.py
@@ -6,18 +6,18 @@
 Defines the container classes for object shapes.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 import networkx as nx
 
 from fsc.export import export
 from fsc.hdf5_io import SimpleHDF5Mapping, subscribe_hdf5, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.nodal_point')
-class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
+class NodalPoint(ResultNamespace, SimpleHDF5Mapping):
     """
     Shape class defining a nodal point.
 
@@ -34,7 +34,7 @@ class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.nodal_line')
-class NodalLine(SimpleNamespace):
+class NodalLine(ResultNamespace):
     """
     Shape class defining a nodal line.
 
-- 
2.43.0


From 9f29ae38ef9a57055126c05346b0d460752aef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 20/23] fix: keep vertices of integer simplices exact in the
 minimisation

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 9a9cee6..8d98c22 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -110,7 +110,7 @@ async def root_nelder_mead(
     sigma = 0.5
     one2np1 = list(range(1, N + 1))
 
-    sim = np.array(initial_simplex)
+    sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
     fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
-- 
2.43.0


From 621d755d1c788b53c6d8fad02a65439ae7378aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 21/23] fix: neighbours outside a box that is smaller than the
 cutoff

---
 nodefinder/search/result/_cell_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index f9edc94..3f2370a 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -69,6 +69,9 @@ class CellList:
     def get_index(self, frac):  # pylint: disable=missing-function-docstring
         vals = np.array(frac * self.num_cells, dtype=int)
         if not self.periodic:
+            # a single cell can be smaller than the cutoff, so it is used for
+            # all points outside as well
+            vals = np.where(self.num_cells > 1, vals, 0)
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
         else:
-- 
2.43.0


From 055954d330c265d5f1f01df12fc54ca489ef7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 22/23] fix: dominating set line evaluation no longer fails
 where the set is not connected

---
 .../_evaluate/_line/_dominating_set.py        | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6016c19..76bb295 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -76,7 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -93,9 +93,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
-            subgraph, *edge, weight=_DISTANCE_KEY
-        )
+        dist_reduced = _get_path_length(subgraph, *edge, weight=_DISTANCE_KEY)
         if dist_reduced > 2 * dist_original:
             IDENTIFY_LOGGER.debug(
                 'Patching hole {} in sub-graph.'.format(edge)
@@ -106,6 +104,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, *, weight):
+    """
+    Get the length of the shortest path between two points, which is infinite if
+    they are not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From 520b5679593becc6181e22680c0d377b92eac6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 23/23] fix: do not modify the results of the state a search is
 resumed from

---
 nodefinder/search/_controller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 810a994..1d61e1c 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -7,6 +7,7 @@ Defines the Controller, which implements the evaluation of the search step.
 """
 
 import os
+import copy
 import numbers
 import asyncio
 import tempfile
@@ -145,7 +146,11 @@ class Controller:
         if initial_state is not None:
             result = SearchResultContainer(
                 coordinate_system=self.coordinate_system,
-                minimization_results=initial_state.result.minimization_results,
+                # copies, because adding a result changes its position
+                minimization_results=[
+                    copy.copy(res)
+                    for res in initial_state.result.minimization_results
+                ],
                 gap_threshold=gap_threshold,
                 dist_cutoff=dist_cutoff,
                 refined_results=initial_state.result.refined_results
-- 
2.43.0

