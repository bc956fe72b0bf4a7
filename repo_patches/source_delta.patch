From f86e9d0d49a5982713dc4d75fcc244bc91c1b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/33] fix: fill_nan_values no longer hangs when the next NaN
 cell has only NaN neighbors

---
 dany/dem_conditioning.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..833f267 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -286,7 +286,10 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
-    while stack:
+    # number of cells in a row that could not be filled; once every cell left
+    # has been tried without progress the rest cannot be filled
+    nskip = 0
+    while stack and nskip < len(stack):
         node = stack.pop()
         nn = neighbors[node]
         elevs = filled_dem[nn]
@@ -302,8 +305,11 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # try the other cells before coming back to this one
+            stack.insert(0, node)
+            nskip += 1
         else:
             filled_dem[node] = elev
+            nskip = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 937cc3531fc68e81cf296d9acb2bce124a50c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 02/33] fix: priority flood keeps eps on integer and single
 precision DEMs

---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 833f267..eaed22b 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,8 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    # float64 so that eps is not lost on integer or single precision DEMs
+    newdem = dem.ravel().astype(float)
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From 2e26c291661037f89b89898353a7067d68581965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/33] fix: FlowDirections works on UnstructuredGrid, where
 ncpl is an array

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..c53c63b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From 2047768d2b23af3da9bf30a965e539fd0847e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/33] fix: discard cached reverse flow directions when flow
 directions are recalculated

---
 dany/flow_directions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c53c63b..2a2ec95 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -406,6 +406,8 @@ class FlowDirections:
 
         """
         self._threshold = burn_threshold
+        # reversed directions belong to the previous flow direction array
+        self._fdir_r = None
         self._fdir = np.full(self._dem.size - 1, -1)
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
-- 
2.43.0


From e85d5b3bee232db2d13740ae1a5da9b5118a7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 05/33] fix: always use queen neighbors, whatever neighbors the
 modelgrid has cached

---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index eaed22b..e7713aa 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -184,7 +184,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -284,7 +284,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     # number of cells in a row that could not be filled; once every cell left
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 2a2ec95..3703411 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..3e6fc87 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,7 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(method="queen", reset=True)
         
     @property
     def stream_array(self):
-- 
2.43.0


From 858839a85e0356c39a131b355deb57b7413621ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/33] fix: cells with tied flow paths no longer reroute
 terminal cells

---
 dany/flow_directions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 3703411..1725fe3 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -243,6 +243,13 @@ class FlowDirections:
                 sink = True
                 self._stack = defaultdict(set)
                 conns = self._fneighbors[ix, flow_to]
+                # flow ends in a terminal cell; there is nothing to search for
+                # and the terminal cell itself must not be routed onwards
+                terminal = [conn for conn in conns if self._fdir[conn] == conn]
+                if terminal:
+                    self._fdir[ix] = terminal[0]
+                    continue
+
                 for conn in conns:
                     self._stack[conn].add(ix)
 
-- 
2.43.0


From e3a4c53bae589dd349701677f131292c74ab7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 07/33] fix: flow_directions no longer routes into the neighbor
 fill index next to NaN cells

---
 dany/flow_directions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 1725fe3..3100cbf 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -188,7 +188,12 @@ class FlowDirections:
 
         """
         fcells = [
-            list(np.where(slope == np.nanmin(slope))[0]) for slope in slopes
+            list(
+                np.where(
+                    (slope == np.nanmin(slope)) & (nodes != self._fillidx)
+                )[0]
+            )
+            for slope, nodes in zip(slopes, self._fneighbors)
         ]
         for ix, node in enumerate(self._fdir):
             if node != -1:
-- 
2.43.0


From 67dd665e4e33c400c1766c7528a35393e331e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/33] fix: unresolved sinks (-2) are not used as a negative
 cell index

---
 dany/flow_directions.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 3100cbf..8d3daed 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -376,6 +376,9 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    # unresolved sink, does not flow to any cell
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -394,7 +397,8 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
-            nidp_array[cell] += 1
+            if cell >= 0:
+                nidp_array[cell] += 1
 
         return nidp_array
 
@@ -481,6 +485,9 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    # unresolved sink, does not flow to any cell
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -619,6 +626,10 @@ class FlowDirections:
                         graph[current] = -1
                         break
                     cellid = self._fdir[cellid]
+                    if cellid < 0:
+                        # basin outlet condition 3 unresolved sink
+                        graph[current] = -1
+                        break
                 else:
                     graph[current] = cellid
                     break
@@ -656,6 +667,18 @@ class FlowDirections:
 
         return shared[0]
 
+    def _routed_nodes(self):
+        """
+        Flow directions where unresolved sinks (-2), which do not flow to any
+        other cell, are represented by their own node number
+
+        Returns
+        -------
+            fdir : np.ndarray
+        """
+        fdir = self.flow_direction_array.ravel()
+        return np.where(fdir < 0, np.arange(fdir.size), fdir)
+
     def _calculate_hru_len(self):
         """
         Calculates hru len from either face centers or vetex depending on
@@ -665,7 +688,7 @@ class FlowDirections:
         -------
             hru_len : np.ndarray
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._routed_nodes()
         verts = self._modelgrid.verts
         iverts = self._modelgrid.iverts
         hru_len = []
@@ -712,7 +735,7 @@ class FlowDirections:
         slopes : np.ndarray
             slope of the cell's drainage path
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._routed_nodes()
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -738,7 +761,7 @@ class FlowDirections:
             aspect of the cell's drainage path
 
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._routed_nodes()
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
-- 
2.43.0


From c82b920a845ade41f06acc6ec096a792e77fc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/33] fix: get_subbasins accepts a pour point in node 0

---
 dany/flow_directions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 8d3daed..afb9b1d 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -634,12 +634,15 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # Topology reserves id 0, so node numbers are shifted by one
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            topo.add_connection(
+                cellid + 1, cellid_to if cellid_to == -1 else cellid_to + 1
+            )
 
         topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
+        solution_order = [cellid - 1 for cellid in topo.sort()[:-1]]
         solution_idxs = [cellids.index(cellid) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
-- 
2.43.0


From 7b709db1199a88d95a2962bd2f53d9bb097094c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/33] fix: topological sort of stream networks deeper than
 the recursion limit

---
 dany/stream_util.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3e6fc87..6a645d2 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1433,8 +1433,10 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to perform sorting. Follows the
+        connections downstream (without recursion, a network can be deeper
+        than the recursion limit) and then adds them to the stack, the
+        furthest downstream first.
 
         Parameters
         ----------
@@ -1446,21 +1448,19 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
-
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
-
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        path = []
+        while not visited[seg]:
+            visited[seg] = True
+            if seg == 0:
+                break
+            path.append(seg)
+            seg = self.topology[seg]
+
+        for seg in reversed(path):
+            if self.topology[seg] == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From fc3958dedf8f1784ba904ddd0020000ed4ebd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 11/33] fix: discard stream graphs when the delineated streams
 change

---
 dany/stream_util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 6a645d2..125e13d 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -25,7 +25,7 @@ class StreamBase:
         self._facc = facc
         self._shape = shape
         self._stream_array = None
-        self._graph = None
+        self._reset_graphs()
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -54,6 +54,16 @@ class StreamBase:
 
         return self._stream_array.copy().reshape(self._shape)
 
+    def _reset_graphs(self):
+        """
+        Method to discard stream connectivity that was calculated for
+        another stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
+
     def set_stream_array(self, stream_array):
         """
         Method to set a custom stream array
@@ -73,6 +83,7 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_graphs()
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -104,6 +115,7 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_graphs()
         return self._stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
-- 
2.43.0


From 37afbf3eac3a463dff9eb6148660b8249454f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/33] fix: number stream cells in an integer array, whatever
 the stream array's dtype

---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 125e13d..1d3345c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -143,8 +143,8 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         # assign an initial reach number to stream cells
         for i in range(1, len(strm_nodes) + 1):
@@ -213,8 +213,8 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         graph = {}
         for node in strm_nodes:
-- 
2.43.0


From 2496f4461c6ed37bea64fba9f6e7d89e69591ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 13/33] fix: stream cells that are unresolved sinks (-2) are
 outlets of the MF6 network

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 1d3345c..afcb0db 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -156,7 +156,7 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            rchto = stream_array[flow_to] if flow_to >= 0 else 0
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
-- 
2.43.0


From 7c32e77840d4a6714d7f7795b2f8ecdf435db6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 14/33] fix: isolated terminal stream cells are a segment in
 the MF2005 network

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index afcb0db..ce9742e 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -230,7 +230,8 @@ class StreamBase:
             segstrts = {}
             iseg = 1
             for node in nodesup:
-                if node not in nodesdn:
+                isolated = graph[node] == node and nodesdn.count(node) == 1
+                if node not in nodesdn or isolated:
                     segstrts[node] = iseg
                     iseg += 1
 
-- 
2.43.0


From 1538116a6f7c37e7f246bb9fb05544fc0242e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 15/33] fix: MF2005 connectivity works on UnstructuredGrid

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index ce9742e..c3b45b2 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -316,9 +316,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From 4917d52ca7e1ec526fdd217270f0b29e3fced553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 16/33] fix: stream graphs cached for other streams are not
 used with an explicit stream_array

---
 dany/stream_util.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c3b45b2..c3d5c94 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -64,6 +64,26 @@ class StreamBase:
         self._seg_graph = None
         self._node_seg_rch = None
 
+    def _same_streams(self, stream_array):
+        """
+        Method to check if a stream array has the same stream locations as
+        the internally stored stream array
+
+        Parameters
+        ----------
+        stream_array : np.ndarray
+
+        Returns
+        -------
+            bool
+        """
+        if self._stream_array is None:
+            return False
+
+        return np.array_equal(
+            stream_array.ravel() != 0, self._stream_array.ravel() != 0
+        )
+
     def set_stream_array(self, stream_array):
         """
         Method to set a custom stream array
@@ -761,7 +781,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._same_streams(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -877,7 +897,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._same_streams(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -921,13 +941,13 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if self._seg_graph is None or not self._same_streams(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
                 )
-                stream_array = self._stream_array
+            stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
         stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
@@ -1177,12 +1197,12 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if self._graph is None or not self._same_streams(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
 
-        stream_array = stream_array.copy().ravel()
+        # cascades are linked to the ids of the numbered stream array
+        stream_array = self.stream_array.ravel()
 
         if not many2many:
             hru_up_id, hru_down_id, hru_pct_up = \
-- 
2.43.0


From a4f2321d4bf3d9bafb863e9ce1e617b7e0dcaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 17/33] fix: packagedata uses the reach numbers of an explicit
 stream_array

---
 dany/stream_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c3d5c94..221c46a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -598,11 +598,10 @@ class Sfr6(StreamBase):
                     graph = self._mf6_stream_connectivity()
             else:
                 graph = self._graph
-            stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
 
-        stream_array = stream_array.ravel()
+        stream_array = self.stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
-- 
2.43.0


From 42029e5f18084180403e4992b8a50235ef047fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 18/33] fix: reach_data no longer looks up the outlet reach of
 a segment by column number

---
 dany/stream_util.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 221c46a..22db512 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -844,12 +844,9 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
-                if iseg not in self._seg_graph:
-                    downreach = 0
-                else:
-                    outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                iseg = rec[4]
+                outseg = self._seg_graph[iseg]
+                downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From cef5573538d8d43ee05cd3bff64917c5ca852b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 19/33] fix: irunbnd keeps the segment of stream cells upstream
 of another stream cell

---
 dany/stream_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 22db512..52f36f7 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -972,7 +972,10 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # stream cells keep their own segment
+                upnodes = [
+                    n for n in fdir_r[node] if n not in stream_cells
+                ]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 75e9dc373f7b6fccd21913988726d17921a427c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 20/33] fix: many to one cascades of basin outlets and
 unresolved sinks

---
 dany/stream_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 52f36f7..9451071 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1262,19 +1262,19 @@ class PrmsStreams(StreamBase):
         hru_down_id = []
         hru_pct_up = []
         for hru_down in fdir:
-            if hru_down == -9:
+            if hru_down < 0:
                 continue
 
             idxs = np.where(fdir == hru_down)[0]
             if len(idxs) == 0:
                 continue
 
+            hru_up = list(idxs)
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_down = list(idxs)
+            else:
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0


From 6926ab30384598ea0d314113c383e8413d432122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 21/33] fix: many to many cascades only drop links that point
 out of the basin

---
 dany/stream_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9451071..3cf2d88 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1332,6 +1332,10 @@ class PrmsStreams(StreamBase):
                 continue
 
             if node in stream_nodes:
+                if hru_down < 0:
+                    # unresolved sink
+                    continue
+
                 # force many to one connection for stream cells
                 if fdir[hru_down] == -9:
                     # trap for outlets; set hru_up and hru_down to same val
@@ -1351,7 +1355,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From 2f50450631553c1cb32e116c0e0c845479dd0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 22/33] fix: pygsflow builder object accepts keyword arguments

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3cf2d88..3516538 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1036,7 +1036,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From fa36899fad2e82e2cd81ab1535869ba977e9a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 23/33] fix: pygsflow stream slopes are calculated to the
 downstream reach

---
 dany/stream_util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3516538..6666558 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1063,13 +1063,17 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            rch_node = {
+                (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
+            }
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
-                rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
-                    node_dn = rec["node"]
-                else:
-                    node_dn = reach_data[rec_dn_ix]["node"]
+                # next reach in the segment, or first reach of the outseg
+                node_dn = rch_node.get(
+                    (rec["iseg"], rec["ireach"] + 1),
+                    rch_node.get((outsegs.get(rec["iseg"]), 1), node)
+                )
 
                 strtop = dem[node]
                 strtop_dn = dem[node_dn]
-- 
2.43.0


From 4067bd8ff8fac3118f03317434461073645667a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 24/33] fix: create_stream_vectors does not replace the stream
 connectivity

---
 dany/stream_util.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 6666558..272628e 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -368,6 +368,16 @@ class StreamBase:
         if stream_array is not None:
             stream_array = stream_array.copy()
             stream_array[np.isnan(stream_array)] = 0
+            if not self._same_streams(stream_array):
+                self.set_stream_array(stream_array)
+
+        # vectors always follow segments, this is not the user's connectivity
+        state = (
+            self._stream_array,
+            self._graph,
+            self._seg_graph,
+            self._node_seg_rch
+        )
         seg_graph = self._mf2005_stream_connectivity(
             stream_array, group_segments=group_segments
         )
@@ -382,6 +392,12 @@ class StreamBase:
         processed = []
         stack = []
         nsr = self._node_seg_rch.copy()
+        (
+            self._stream_array,
+            self._graph,
+            self._seg_graph,
+            self._node_seg_rch
+        ) = state
         while headwaters or stack:
             if stack:
                 seg = stack.pop(0)
-- 
2.43.0


From 28aae6d1344e478f48625735e79676663523b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 25/33] fix: control points on circular flow paths do not hang
 threshold_from_control_points

---
 dany/stream_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 272628e..f4378bd 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -481,8 +481,13 @@ class StreamBase:
         array = np.full(self._facc.shape, threshold).ravel()
         for node in cellids:
             stack = [node]
+            visited = set()
             while stack:
                 node = stack.pop(0)
+                if node in visited:
+                    # circular flow path
+                    continue
+                visited.add(node)
                 neighs = self._neighbors[node]
                 array[node] = self._facc[node] - 5
                 flows_in = []
-- 
2.43.0


From 0157b3a24661736c103fc373cdbd95d8b566d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 26/33] fix: get_subbasins accepts lists and collections of
 point objects

---
 dany/flow_directions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index afb9b1d..d15f1a7 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -591,7 +591,10 @@ class FlowDirections:
         """
         from flopy.utils.geospatial_utils import GeoSpatialCollection
 
-        if isinstance(points, (tuple, list, np.ndarray)):
+        coords = (tuple, list, np.ndarray)
+        if isinstance(points, coords) and all(
+            isinstance(point, coords) for point in points
+        ):
             for point in points:
                 if len(point) != 2:
                     raise AssertionError(
-- 
2.43.0


From 236f6c05ec9f4ad39c7660b74892303ce91f4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 27/33] fix: hru_len counts the closing vertex of closed
 polygons once

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index d15f1a7..3d451cb 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -664,7 +664,8 @@ class FlowDirections:
             [x, y] coordinate pair
         """
         shared = []
-        for iv in iverts0:
+        # the closing vertex of a closed polygon is only counted once
+        for iv in dict.fromkeys(iverts0):
             if iv in iverts1:
                 shared.append(verts[iv])
 
-- 
2.43.0


From 6d311567037ddd8751790ef5044f2be790d6466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 28/33] fix: outlet reach lengths use all faces of the cell

---
 dany/stream_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f4378bd..35792b4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -649,9 +649,10 @@ class Sfr6(StreamBase):
                         (verts[i - 1, 0] - verts[i, 0]) ** 2 +
                         (verts[i - 1, 1] - verts[i, 1]) ** 2
                     )
-                    for i in range(1, len(verts))
+                    for i in range(len(verts))
                 ]
-                dist = np.nanmean(dist)
+                # the closing vertex of a closed polygon is not a face
+                dist = np.nanmean([d for d in dist if d > 0])
 
             rlen = dist * dist_adj
             if self._modelgrid.grid_type == "structured":
-- 
2.43.0


From de163ddf999dceebe3e07e1e1642c6263776baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 29/33] fix: stream objects keep the DEM they were made with
 when the grid is shared

---
 dany/stream_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 35792b4..8fed009 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -525,6 +525,7 @@ class Sfr6(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            self._dem = faobj.dem.copy()
             self._slope = faobj.slope.ravel()
 
         else:
@@ -623,7 +624,7 @@ class Sfr6(StreamBase):
             graph = self._mf6_stream_connectivity(stream_array)
 
         stream_array = self.stream_array.ravel()
-        dem_top = self._modelgrid.top.ravel()
+        dem_top = self._dem.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
         connection_data = self.connectiondata(graph)
@@ -742,6 +743,7 @@ class Sfr2005(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            self._dem = faobj.dem.copy()
 
         self._node_seg_rch = None
         self._seg_graph = None
@@ -811,7 +813,7 @@ class Sfr2005(StreamBase):
         basic_rec = []
         xcenters = self._modelgrid.xcellcenters
         ycenters = self._modelgrid.ycellcenters
-        dem = self._modelgrid.top
+        dem = self._dem
         reachid = 1
         seg_rid_lut = {}
         for iseg, outseg in sorted(self._seg_graph.items()):
@@ -1084,7 +1086,7 @@ class Sfr2005(StreamBase):
             # Set reach data defaults
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
-            dem = self._modelgrid.top.ravel()
+            dem = self._dem.ravel()
             rch_node = {
                 (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
             }
-- 
2.43.0


From 1047598e174558f4f9a0408dd69fea51ad78f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 30/33] fix: fill_nan_values leaves NaN cells without neighbors
 unfilled

---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index e7713aa..4f46b3e 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -293,7 +293,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     while stack and nskip < len(stack):
         node = stack.pop()
         nn = neighbors[node]
-        elevs = filled_dem[nn]
+        # cells without neighbors have nothing to be filled from
+        elevs = filled_dem[nn] if len(nn) > 0 else np.array([np.nan])
         if method == "mean":
             elev = np.nanmean(elevs)
         elif method == "median":
-- 
2.43.0


From 43958ae96ec22fbc80ab9ef088bc573743634cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 31/33] fix: integer thresholds do not truncate control point
 accumulations

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 8fed009..8f64845 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -478,7 +478,8 @@ class StreamBase:
 
             cellids.append(cellid)
 
-        array = np.full(self._facc.shape, threshold).ravel()
+        # float, an integer threshold must not truncate the accumulation
+        array = np.full(self._facc.shape, threshold, dtype=float).ravel()
         for node in cellids:
             stack = [node]
             visited = set()
-- 
2.43.0


From 05dbfdd352546087b8ba224e7cac99622901d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 32/33] fix: flow directions of meshes without any neighboring
 cells

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 3d451cb..3e1c9b9 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -129,7 +129,8 @@ class FlowDirections:
 
         """
         axis0 = len(self._neighbors)
-        axis1 = 0
+        # at least one column, there may be no neighbors at all
+        axis1 = 1
         for _, n in self._neighbors.items():
             if len(n) > axis1:
                 axis1 = len(n)
-- 
2.43.0


From 4f1d8943cf96ea7913c201258def9e7e35560db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 33/33] fix: packagedata(detuple=True) of an empty stream set

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 8f64845..ffb9bb2 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -710,9 +710,9 @@ class Sfr6(StreamBase):
 
         """
         odtype = recarray.dtype.descr
-        if len(recarray["cellid"][0]) == 3:
+        if self._modelgrid.grid_type == "structured":
             cellid = [("k", int), ("i", int), ("j", int)]
-        elif len(recarray["cellid"][0]) == 2:
+        elif self._modelgrid.grid_type == "vertex":
             cellid = [("k", int), ("node", int)]
         else:
             cellid = [("node", int),]
-- 
2.43.0

