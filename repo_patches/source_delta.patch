From 3a0218e55dcf16373130081cb66fc5c479b017de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 01/73] fix: invalidate the lmax estimate when the Laplacian
 type changes, and reject unknown types before touching any state

---
 pygsp/graphs/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..b9ee109 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,10 +599,14 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
@@ -618,7 +622,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         if lap_type == "combinatorial":
             D = sparse.diags(self.dw)
             self.L = D - W
-        elif lap_type == "normalized":
+        else:
             d = np.zeros(self.n_vertices)
             disconnected = self.dw == 0
             np.power(self.dw, -0.5, where=~disconnected, out=d)
@@ -626,8 +630,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From 27c56345008df53950c1532cbe05f48951a25e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 02/73] fix: remember the lmax estimation method only once it
 succeeded

---
 pygsp/graphs/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index b9ee109..ea99d9d 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -904,7 +904,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -932,6 +931,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         else:
             raise ValueError(f"Unknown method {method}")
 
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From d0c6f0343e151fcda7217251c8907f5da34ef1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 03/73] fix: estimate lmax as 0 when the Laplacian is null
 instead of failing in ARPACK

---
 pygsp/graphs/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index ea99d9d..11953da 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -906,6 +906,11 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             return
 
         if method == "lanczos":
+            if self.n_vertices == 1 or self.L.count_nonzero() == 0:
+                # The Lanczos method cannot handle a null Laplacian.
+                self._lmax = 0.0
+                self._lmax_method = method
+                return
             try:
                 # We need to cast the matrix L to a supported type.
                 # TODO: not good for memory. Cast earlier?
-- 
2.43.0


From b4e65941ebd3aeccfd69564c87714e32f568992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 04/73] fix: compute_frame must analyse the identity also when
 there are as many filters as vertices

---
 pygsp/filters/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index cf15f7e..b8e33fa 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -596,7 +596,9 @@ class Filter:
             )
 
         # Filter one delta per vertex.
-        s = np.identity(self.G.N)
+        # One feature per signal: without the last axis, as many filters as
+        # vertices would be taken as the features to synthesize from.
+        s = np.identity(self.G.N)[:, :, np.newaxis]
         return self.filter(s, **kwargs).T.reshape(-1, self.G.N)
 
     def complement(self, frame_bound=None):
-- 
2.43.0


From 24b27f26ce51fd75a2563d084f55d3ee9c7fc173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 05/73] fix: apply the documented number of sine iterations in
 the Regular filter bank

---
 pygsp/filters/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/regular.py b/pygsp/filters/regular.py
index 399adde..8fa17ef 100644
--- a/pygsp/filters/regular.py
+++ b/pygsp/filters/regular.py
@@ -55,7 +55,7 @@ class Regular(Filter):
                 return np.sin(np.pi / 4 * x)
             else:
                 output = np.sin(np.pi * (x - 1) / 2)
-                for _ in range(2, degree):
+                for _ in range(1, degree):
                     output = np.sin(np.pi * output / 2)
                 return np.sin(np.pi / 4 * (1 + output))
 
-- 
2.43.0


From 1cfa2b903bbe29e2a8a04acd194c103cfc050b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 06/73] fix: accept arrays of scales in SimpleTight

---
 pygsp/filters/simpletight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index facc13b..a552b1a 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -82,7 +82,7 @@ class SimpleTight(Filter):
 
             return r
 
-        if not scales:
+        if scales is None:
             scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
-- 
2.43.0


From 5e21256df2175253ea492bd85cd38934926e1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 07/73] fix: filter with Chebyshev polynomials on graphs
 without edges instead of dividing by zero

---
 pygsp/filters/approximations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index bb46dba..37bf998 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -93,6 +93,8 @@ def cheby_op(G, c, signal, **kwargs):
     a_arange = [0, G.lmax]
 
     a1 = float(a_arange[1] - a_arange[0]) / 2.0
+    if a1 == 0:
+        a1 = 1.0  # The Laplacian is null: only avoid the division by zero.
     a2 = float(a_arange[1] + a_arange[0]) / 2.0
 
     twf_old = signal
-- 
2.43.0


From e800ef0c97ffa96da17808c7014fe899a12b84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 08/73] fix: join on import only the signals which were broken
 on export, in the order of their columns

---
 pygsp/graphs/_io.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..60fac69 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -39,17 +39,18 @@ class IOMixIn:
         r"""Join N 1D signals into one N-dimensional signal."""
         joined = dict()
         for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
-            names = joined.get(name_base, list())
-            names.append(name)
-            joined[name_base] = names
-        for name_base, names in joined.items():
-            if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
-                signal_nd = np.stack([self.signals[n] for n in names], axis=1)
+            name_base, _, dim = name.rpartition("_")
+            joined.setdefault(name_base, set()).add(dim)
+        for name_base, dims in joined.items():
+            n_dims = len(dims)
+            # Only join what _break_signals() could have broken.
+            broken = n_dims > 1 and dims == {str(i) for i in range(n_dims)}
+            if broken and name_base not in self.signals:
+                signal_nd = np.stack(
+                    [self.signals.pop(f"{name_base}_{i}") for i in range(n_dims)],
+                    axis=1,
+                )
                 self.signals[name_base] = signal_nd
-                for name in names:
-                    del self.signals[name]
 
     def to_networkx(self):
         r"""Export the graph to NetworkX.
-- 
2.43.0


From cd997678a64b9854783350b1eb4a6b056d5ecbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 09/73] fix: do not replace the signals of a graph when
 exporting it

---
 pygsp/graphs/_io.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 60fac69..fca521b 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -29,11 +29,14 @@ def _import_graphtool():
 class IOMixIn:
     def _break_signals(self):
         r"""Break N-dimensional signals into N 1D signals."""
-        for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
-                for i, signal_1d in enumerate(self.signals[name].T):
-                    self.signals[name + "_" + str(i)] = signal_1d
-                del self.signals[name]
+        signals = dict()
+        for name, signal in self.signals.items():
+            if signal.ndim == 2:
+                for i, signal_1d in enumerate(signal.T):
+                    signals[name + "_" + str(i)] = signal_1d
+            else:
+                signals[name] = signal
+        return signals
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
@@ -131,11 +134,11 @@ class IOMixIn:
             for vertex in range(self.n_vertices):
                 signals = {
                     name: convert(signal[vertex])
-                    for name, signal in self.signals.items()
+                    for name, signal in broken_signals.items()
                 }
                 yield vertex, signals
 
-        self._break_signals()
+        broken_signals = self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
         graph.add_nodes_from(nodes())
         graph.add_edges_from(edges())
@@ -209,8 +212,7 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
-        self._break_signals()
-        for name, signal in self.signals.items():
+        for name, signal in self._break_signals().items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From 2b94dcdd984a561cb6a1267a2305479e5be3b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 10/73] fix: Kron reduction of graphs without coordinates or on
 a line

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..70d2ad3 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,7 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        coords = G.coords[ind] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From 4620eb17cafe145fe363f430622cfa5fcec81975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 11/73] fix: Kron reduction to a single vertex

---
 pygsp/reduction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 70d2ad3..5c3e04f 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -355,7 +355,10 @@ def kron_reduction(G, ind):
     L_out_in = L[np.ix_(ind_comp, ind)].tocsc()
     L_comp = L[np.ix_(ind_comp, ind_comp)].tocsc()
 
-    Lnew = L_red - L_in_out.dot(linalg.spsolve(L_comp, L_out_in))
+    X = linalg.spsolve(L_comp, L_out_in)
+    if not sparse.issparse(X):  # A single column is returned as a dense vector.
+        X = sparse.csc_matrix(X.reshape(L_out_in.shape))
+    Lnew = L_red - L_in_out.dot(X)
 
     # Make the laplacian symmetric if it is almost symmetric!
     if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
-- 
2.43.0


From df7c91cc6e2529618a6697e7efec9098c6a94cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 12/73] fix: Kron reduction of an undirected graph is
 undirected, whatever the rounding

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 5c3e04f..924c190 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -361,7 +361,8 @@ def kron_reduction(G, ind):
     Lnew = L_red - L_in_out.dot(X)
 
     # Make the laplacian symmetric if it is almost symmetric!
-    if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
+    # That of a graph is, up to rounding, as the graph is undirected.
+    if isinstance(G, graphs.Graph) or np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
         Lnew = (Lnew + Lnew.T) / 2.0
 
     if isinstance(G, graphs.Graph):
-- 
2.43.0


From 922ca63cf15ed02c9edba87b4dbf707524310f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 13/73] fix: remove only the diagonal in Kron reduction,
 instead of subtracting it from every row

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 924c190..99d40e1 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -373,7 +373,7 @@ def kron_reduction(G, ind):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = Wnew - sparse.diags(Wnew.diagonal(), 0)
 
         coords = G.coords[ind] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
-- 
2.43.0


From 009b0d0ddb94625d7716158dd7a11c2d286833e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 14/73] fix: compute resistance distances from the
 pseudo-inverse, never from the inverse of a singular Laplacian

---
 pygsp/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..69098f6 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -164,10 +164,8 @@ def resistance_distance(G):
             raise ValueError("Need a combinatorial Laplacian.")
         L = G.L.tocsc()
 
-    try:
-        pseudo = sparse.linalg.inv(L)
-    except RuntimeError:
-        pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
+    # Laplacians are singular: an inverse, if rounding allows one, is meaningless.
+    pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
 
     N = np.shape(L)[0]
     d = sparse.csc_matrix(pseudo.diagonal())
-- 
2.43.0


From 64c9835421b72159ddd691fbe0e3835904bde25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 15/73] fix: sparsify graphs without the removed
 scipy.stats.itemfreq

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 99d40e1..1e91d5e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -112,11 +112,11 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
 
         results = dist.rvs(size=int(q))
-        spin_counts = stats.itemfreq(results).astype(int)
+        spins, n_spins = np.unique(results, return_counts=True)
         per_spin_weights = weights / (q * Pe)
 
         counts = np.zeros(np.shape(weights)[0])
-        counts[spin_counts[:, 0]] = spin_counts[:, 1]
+        counts[spins] = n_spins
         new_weights = counts * per_spin_weights
 
         sparserW = sparse.csc_matrix(
-- 
2.43.0


From 83dddebbb2d22b71734b689fda15e95d25a9c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 16/73] fix: sparsifying a Laplacian returns a Laplacian, with
 its degrees

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 1e91d5e..2fab3bf 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -123,7 +123,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
             (new_weights, (start_nodes, end_nodes)), shape=(N, N)
         )
         sparserW = sparserW + sparserW.T
-        sparserL = sparse.diags(sparserW.diagonal(), 0) - sparserW
+        sparserL = sparse.diags(np.ravel(sparserW.sum(0)), 0) - sparserW
 
         if graphs.Graph(sparserW).is_connected():
             break
-- 
2.43.0


From 8e7d5309f82987389322334eb8cbd07821a42adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 17/73] fix: accept the sparsification parameter 1, which
 graph_multiresolution uses on small graphs

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 2fab3bf..4525f94 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -77,7 +77,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
 
     N = np.shape(L)[0]
 
-    if not 1.0 / np.sqrt(N) <= epsilon < 1:
+    if not 1.0 / np.sqrt(N) <= epsilon <= 1:
         raise ValueError("GRAPH_SPARSIFY: Epsilon out of required range")
 
     # Not sparse
-- 
2.43.0


From 60517c7496698bf92bec66b4472222dfe6f57fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 18/73] fix: sparsification must not drop small weights from
 the graph it is given

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 4525f94..38b076a 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -89,7 +89,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         W = np.diag(L.diagonal()) - L.toarray()
         W[W < 1e-10] = 0
 
-    W = sparse.coo_matrix(W)
+    W = sparse.coo_matrix(W, copy=True)
     W.data[W.data < 1e-10] = 0
     W = W.tocsc()
     W.eliminate_zeros()
-- 
2.43.0


From 37b53a37c38d87edbb487762270cb9327c56d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 19/73] fix: graph_multiresolution must not alter the Fourier
 basis, nor keep every vertex when the eigenvector vanishes on the first one

---
 pygsp/reduction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 38b076a..359d676 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -272,10 +272,10 @@ def graph_multiresolution(
             if Gs[i]._U is not None:
                 V = Gs[i].U[:, -1]
             else:
-                V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
+                V = linalg.eigs(Gs[i].L, 1)[1][:, 0].real
 
-            V *= np.sign(V[0])
-            ind = np.nonzero(V >= 0)[0]
+            # Choose the sign without touching the Fourier basis of the graph.
+            ind = np.nonzero(V >= 0 if V[0] >= 0 else V <= 0)[0]
 
         else:
             raise NotImplementedError("Unknown graph downsampling method.")
-- 
2.43.0


From 968d16267947d5bdeb017f6447081f0eb22210d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 20/73] fix: interpolate on graphs which are not part of a
 multiresolution

---
 pygsp/reduction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 359d676..e1d9562 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -175,10 +175,8 @@ def interpolate(G, f_subsampled, keep_inds, order=100, reg_eps=0.005, **kwargs):
 
     """
     L_reg = G.L + reg_eps * sparse.eye(G.N)
-    K_reg = getattr(G.mr, "K_reg", kron_reduction(L_reg, keep_inds))
-    green_kernel = getattr(
-        G.mr, "green_kernel", filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
-    )
+    K_reg = kron_reduction(L_reg, keep_inds)
+    green_kernel = filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
 
     alpha = K_reg.dot(f_subsampled)
 
-- 
2.43.0


From 1a52271a4305630ac3745f9eb96d97537d517257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 21/73] fix: pyramid of a single signal has one prediction
 error per vertex

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index e1d9562..a77a4a9 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -446,7 +446,7 @@ def pyramid_analysis(Gs, f, **kwargs):
         # Compute prediction
         s_pred = interpolate(Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], **kwargs)
         # Compute errors
-        pe.append(ca[i] - s_pred)
+        pe.append(ca[i] - s_pred.reshape(np.shape(ca[i])))
 
     return ca, pe
 
@@ -513,7 +513,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
                 reg_eps=reg_eps,
                 **kwargs,
             )
-            ca.append(s_pred + pe[levels - i - 1])
+            ca.append(s_pred.reshape(np.shape(pe[levels - i - 1])) + pe[levels - i - 1])
 
         else:
             ca.append(
-- 
2.43.0


From e96de5e97d8595f947a16634e5d52cfe3730e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 22/73] fix: interpolate alike in pyramid analysis and
 synthesis by default, for reconstruction

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index a77a4a9..ce0288f 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -451,7 +451,7 @@ def pyramid_analysis(Gs, f, **kwargs):
     return ca, pe
 
 
-def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
+def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     r"""Synthesize a signal from its pyramid coefficients.
 
     Parameters
@@ -465,7 +465,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     use_exact : bool
         To use exact graph spectral filtering instead of the Chebyshev approximation.
     order : int
-        Degree of the Chebyshev approximation (default=30).
+        Degree of the Chebyshev approximation (default=100).
     least_squares : bool
         To use the least squares synthesis (default=False).
     h_filters : ndarray
-- 
2.43.0


From 10a39963139b2fc4cad140e17bbdc04d23aa7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 23/73] fix: accept the interpolation parameter reg_eps in
 pyramid analysis and synthesis

---
 pygsp/reduction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index ce0288f..02d35f4 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -417,6 +417,7 @@ def pyramid_analysis(Gs, f, **kwargs):
         )
 
     levels = len(Gs) - 1
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     # check if the type of filters is right.
     h_filters = kwargs.pop("h_filters", lambda x: 1.0 / (2 * x + 1))
@@ -444,7 +445,9 @@ def pyramid_analysis(Gs, f, **kwargs):
         # Keep only the coefficient on the selected nodes
         ca.append(s_low[Gs[i + 1].mr["idx"]])
         # Compute prediction
-        s_pred = interpolate(Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], **kwargs)
+        s_pred = interpolate(
+            Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], reg_eps=reg_eps, **kwargs
+        )
         # Compute errors
         pe.append(ca[i] - s_pred.reshape(np.shape(ca[i])))
 
@@ -491,7 +494,7 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
         ValueError("h-filters not provided.")
-- 
2.43.0


From 2fec124ce529e73d210d8e3dbbfeadd6568c19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 24/73] fix: raise the errors of pyramid_synthesis

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 02d35f4..1f3aeb2 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -497,11 +497,11 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
-        ValueError("h-filters not provided.")
+        raise ValueError("h-filters not provided.")
 
     levels = len(Gs) - 1
     if len(pe) != levels:
-        ValueError("Gs and pe have different shapes.")
+        raise ValueError("Gs and pe have different shapes.")
 
     ca = [cap]
 
-- 
2.43.0


From a779a3d397a02e1d0e2820c6c7d3afe861e146f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 25/73] fix: filter every signal in pyramids and interpolation,
 not only the first one

---
 pygsp/reduction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 1f3aeb2..5053740 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -25,10 +25,9 @@ logger = utils.build_logger(__name__)
 
 def _analysis(g, s, **kwargs):
     # TODO: that is the legacy analysis method.
-    s = g.filter(s, **kwargs)
-    while s.ndim < 3:
-        s = np.expand_dims(s, 1)
-    return s.swapaxes(1, 2).reshape(-1, s.shape[1], order="F")
+    n_signals = np.shape(s)[1] if np.ndim(s) > 1 else 1
+    s = g.filter(s, **kwargs).reshape((g.G.N, n_signals, g.Nf))
+    return s.swapaxes(1, 2).reshape(-1, n_signals, order="F")
 
 
 def graph_sparsify(M, epsilon, maxiter=10, seed=None):
-- 
2.43.0


From 01ba268f8e0933cdc50d5e2c89f939e3ba64df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 26/73] fix: multiresolution of graphs which have been reduced
 to one or two vertices

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 5053740..0e544ea 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -266,7 +266,7 @@ def graph_multiresolution(
 
     for i in range(levels):
         if downsampling_method == "largest_eigenvector":
-            if Gs[i]._U is not None:
+            if Gs[i]._U is not None or Gs[i].N <= 2:  # Too small for ARPACK.
                 V = Gs[i].U[:, -1]
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0].real
-- 
2.43.0


From 6389adeb20df587d60610427797e65fc14e6ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 27/73] fix: do not truncate the interpolation of integer
 measurements

---
 pygsp/learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..89a586b 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -361,7 +361,8 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
+        # The solution is real, even if the measurements are integers.
+        sol = y.astype(np.result_type(y, sol_part))
         sol[indu] = sol_part
 
         return sol
-- 
2.43.0


From d0e7df6b5cd01097b85aa7042eca57cc63c16dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 28/73] fix: interpolate signals which have a single column

---
 pygsp/learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index 89a586b..217bae4 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -363,6 +363,6 @@ def regression_tikhonov(G, y, M, tau=0):
 
         # The solution is real, even if the measurements are integers.
         sol = y.astype(np.result_type(y, sol_part))
-        sol[indu] = sol_part
+        sol[indu] = sol_part.reshape(sol[indu].shape)
 
         return sol
-- 
2.43.0


From 3f90b012c8d4119dc5b4f78e987614dd6f1368fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 29/73] fix: do not rescale the points of the caller in place

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d81b668..b099c05 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -134,7 +134,7 @@ class NNGraph(Graph):
                 np.amax(Xout, axis=0) - np.amin(Xout, axis=0), 2
             )
             scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0
-            Xout *= scale / bounding_radius
+            Xout = Xout * (scale / bounding_radius)
 
         # Translate distance type string to corresponding Minkowski order.
         dist_translation = {
-- 
2.43.0


From d94a4430cb924ea3a8ab1e8ecb07182454aef653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 30/73] fix: the number of neighbors does not limit radius
 graphs

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index b099c05..bd05071 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -120,7 +120,7 @@ class NNGraph(Graph):
         N, d = np.shape(self.Xin)
         Xout = self.Xin
 
-        if k >= N:
+        if self.NNtype == "knn" and k >= N:
             raise ValueError(
                 "The number of neighbors (k={}) must be smaller "
                 "than the number of nodes ({}).".format(k, N)
-- 
2.43.0


From 8ca70fe37a501e929a9240918488878488236347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 31/73] fix: nearest neighbors of duplicated points are not
 themselves

---
 pygsp/graphs/nngraphs/nngraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index bd05071..a0531a2 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -219,10 +219,12 @@ class NNGraph(Graph):
                 self.sigma = np.mean(D[:, 1:])  # Discard distance to self.
 
             for i in range(N):
+                # Discard the vertex itself, which is not first among duplicates.
+                keep = np.flatnonzero(np.asarray(NN[i]) != i)[:k]
                 spi[i * k : (i + 1) * k] = np.kron(np.ones(k), i)
-                spj[i * k : (i + 1) * k] = NN[i, 1:]
+                spj[i * k : (i + 1) * k] = NN[i][keep]
                 spv[i * k : (i + 1) * k] = np.exp(
-                    -np.power(D[i, 1:], 2) / float(self.sigma)
+                    -np.power(D[i][keep], 2) / float(self.sigma)
                 )
 
         elif self.NNtype == "radius":
-- 
2.43.0


From 94fb972081b1e124b5ad7944219e06b98c19ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 32/73] fix: FLANN returns powers of distances

---
 pygsp/graphs/nngraphs/nngraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index a0531a2..c6aebbe 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -162,6 +162,10 @@ class NNGraph(Graph):
                     NN, D = flann.nn(
                         Xout, Xout, num_neighbors=(k + 1), algorithm="kdtree"
                     )
+                    # FLANN omits the final root of those distances.
+                    p_value = dist_translation[dist_type]
+                    if dist_type in ("euclidean", "minkowski") and p_value > 0:
+                        D = np.power(D, 1.0 / p_value)
                     _logger.debug("Using pyflann for k-NN search")
 
                 except ImportError:
-- 
2.43.0


From 6e2c8345bccdb24974e67a45282a2841261dd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 33/73] fix: do not ask FLANN for maximum distances, which its
 bindings do not compute

---
 pygsp/graphs/nngraphs/nngraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index c6aebbe..cf7666e 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -149,7 +149,8 @@ class NNGraph(Graph):
             spj = np.zeros(N * k)
             spv = np.zeros(N * k)
 
-            if self.use_flann:
+            # The bindings of FLANN do not support the maximum distance.
+            if self.use_flann and dist_type != "max_dist":
                 # Try pyflann first
                 try:
                     pfl = _import_pfl()
-- 
2.43.0


From c2dd8e13f7fe9cdf15c4654afd361a760c642f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 34/73] fix: the low stretch tree has no self-loop nor one-way
 edge

---
 pygsp/graphs/lowstretchtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/lowstretchtree.py b/pygsp/graphs/lowstretchtree.py
index 5bb9f24..9ddd3eb 100644
--- a/pygsp/graphs/lowstretchtree.py
+++ b/pygsp/graphs/lowstretchtree.py
@@ -33,7 +33,7 @@ class LowStretchTree(Graph):
         YCoords = np.array([1, 1, 2, 2], dtype=int)
 
         ii = np.array([0, 0, 1, 2, 2, 3], dtype=int)
-        jj = np.array([1, 2, 1, 3, 0, 2], dtype=int)
+        jj = np.array([1, 2, 0, 3, 0, 2], dtype=int)
 
         for p in range(1, k):
             ii = np.concatenate(
-- 
2.43.0


From be309e57451e4890b49a3c65c1b284812cd2bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 35/73] fix: accept plotting options in Star

---
 pygsp/graphs/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/star.py b/pygsp/graphs/star.py
index 501f1af..601d14f 100644
--- a/pygsp/graphs/star.py
+++ b/pygsp/graphs/star.py
@@ -30,7 +30,7 @@ class Star(Comet):
 
     def __init__(self, N=10, **kwargs):
         plotting = dict(limits=[-1.1, 1.1, -1.1, 1.1])
-        plotting.update(kwargs.get("plotting", {}))
+        plotting.update(kwargs.pop("plotting", {}))
         super().__init__(N, N - 1, plotting=plotting, **kwargs)
 
     def _get_extra_repr(self):
-- 
2.43.0


From f4b52326237586b7222dd2679b559cc7a825ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 36/73] fix: the ring with N/2 neighbors on each side connects
 opposite vertices

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From 6e7ab237a28679fcccfa8190c0fff2b9a0d3a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 37/73] fix: grids with a single column

---
 pygsp/graphs/grid2d.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/grid2d.py b/pygsp/graphs/grid2d.py
index 4177fdc..5195adc 100644
--- a/pygsp/graphs/grid2d.py
+++ b/pygsp/graphs/grid2d.py
@@ -52,9 +52,14 @@ class Grid2d(Graph):
         diag_1[(N2 - 1) :: N2] = 0
         diag_2 = np.ones(N - N2)
 
+        if N2 == 1:
+            diagonals, offsets = [diag_2], [-1]
+        else:
+            diagonals, offsets = [diag_1, diag_2], [-1, -N2]
+
         W = sparse.diags(
-            diagonals=[diag_1, diag_2],
-            offsets=[-1, -N2],
+            diagonals=diagonals,
+            offsets=offsets,
             shape=(N, N),
             format="csr",
             dtype="float",
-- 
2.43.0


From bbe9fdc7eb19f227dc216b7d8d56c33f376701ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 38/73] fix: line graph of graphs with self-loops or negative
 weights

---
 pygsp/graphs/linegraph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygsp/graphs/linegraph.py b/pygsp/graphs/linegraph.py
index 210302b..5dd62a3 100644
--- a/pygsp/graphs/linegraph.py
+++ b/pygsp/graphs/linegraph.py
@@ -38,15 +38,20 @@ class LineGraph(Graph):
                 "unweighted to build a binary line graph."
             )
 
-        graph.compute_differential_operator()
-        # incidence = np.abs(graph.D)  # weighted?
-        incidence = graph.D != 0
+        # Self-loops and negative weights are not seen by the differential operator.
+        sources, targets, _ = graph.get_edge_list()
+        edges = np.arange(graph.n_edges)
+        shape = (graph.n_vertices, graph.n_edges)
+        incidence = sparse.csr_matrix(
+            (np.full(2 * graph.n_edges, True), (np.r_[sources, targets], np.r_[edges, edges])),
+            shape=shape,
+        )
 
         adjacency = incidence.T.dot(incidence).astype(int)
         adjacency -= sparse.identity(graph.n_edges, dtype=int)
 
         try:
-            coords = incidence.T.dot(graph.coords) / 2
+            coords = (graph.coords[sources] + graph.coords[targets]) / 2
         except AttributeError:
             coords = None
 
-- 
2.43.0


From db0029d5e47a03c8a9bf814b29b4e67f79c0733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 39/73] fix: restart the construction of random regular graphs,
 and warn if it fails

---
 pygsp/graphs/randomregular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 3c0fa6b..c7d2d43 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -86,10 +86,10 @@ class RandomRegular(Graph):
             # check that there are no loops nor parallel edges
             if v1 == v2 or A[v1, v2] == 1:
                 # restart process if needed
-                if edgesTested == N * k:
+                if edgesTested >= N * k:
                     repetition = repetition + 1
                     edgesTested = 0
-                    U = np.kron(np.ones(k), np.arange(N))
+                    U = np.kron(np.ones(k), np.arange(N)).astype(int)
                     A = sparse.lil_matrix(np.zeros((N, N)))
             else:
                 # add edge to graph
@@ -123,7 +123,7 @@ class RandomRegular(Graph):
             msg = f"{msg} has parallel edges,"
 
         # check that d is d-regular
-        if np.min(self.d) != np.max(self.d):
+        if np.any(self.d != self.k):
             warn = True
             msg = f"{msg} is not d-regular,"
 
-- 
2.43.0


From 4b086788505100bf286a10d6b1b035a91b203e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 40/73] fix: do not modify q in stochastic block models, and
 represent those defined by M

---
 pygsp/graphs/stochasticblockmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 797f045..b7afa30 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -87,6 +87,7 @@ class StochasticBlockModel(Graph):
             z.sort()  # Sort for nice spy plot of W, where blocks are apparent.
         self.z = z
 
+        self.p = self.q = None  # only defined if M is not
         if M is None:
             self.p = p
             p = np.asanyarray(p)
@@ -110,7 +111,7 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q
+            M = np.array(q, dtype=float)  # do not modify q
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
         self.M = M
-- 
2.43.0


From fa09ff477d9f192b8515e0a50b30aac573d77857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 41/73] fix: do not sort the angles of the caller in place

---
 pygsp/graphs/randomring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomring.py b/pygsp/graphs/randomring.py
index 383065a..294f7d0 100644
--- a/pygsp/graphs/randomring.py
+++ b/pygsp/graphs/randomring.py
@@ -37,8 +37,8 @@ class RandomRing(Graph):
             rng = np.random.default_rng(seed)
             angles = np.sort(rng.uniform(0, 2 * np.pi, size=N), axis=0)
         else:
-            angles = np.asanyarray(angles)
-            angles.sort()  # Need to be sorted to take the difference.
+            # Need to be sorted to take the difference.
+            angles = np.sort(np.asanyarray(angles))
             N = len(angles)
             if np.any(angles < 0) or np.any(angles >= 2 * np.pi):
                 raise ValueError("Angles should be in [0, 2 pi]")
-- 
2.43.0


From 6361ad9a1ca5b65c1fc94bd007522de9f9a09041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 42/73] fix: sensors distributed on grids whose step is rounded

---
 pygsp/graphs/nngraphs/sensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/sensor.py b/pygsp/graphs/nngraphs/sensor.py
index c32f3fb..ed24a00 100644
--- a/pygsp/graphs/nngraphs/sensor.py
+++ b/pygsp/graphs/nngraphs/sensor.py
@@ -64,7 +64,8 @@ class Sensor(NNGraph):
                     "distributed on a grid."
                 )
 
-            coords = np.mgrid[0 : 1 : 1 / m, 0 : 1 : 1 / m].reshape(2, -1).T
+            # Integer steps: rounding errors must not add points to the grid.
+            coords = np.mgrid[0 : int(m), 0 : int(m)].reshape(2, -1).T / m
             coords += rng.uniform(0, 1 / m, (N, 2))
 
         else:
-- 
2.43.0


From 6b8d5ba06021eac83b9ca3a87a2e0d598a4553e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 43/73] fix: spheres and cubes have the requested radius

---
 pygsp/graphs/nngraphs/cube.py   | 2 ++
 pygsp/graphs/nngraphs/sphere.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 6b46a6d..767fa5e 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -73,6 +73,8 @@ class Cube(NNGraph):
         else:
             raise ValueError("Unknown sampling !")
 
+        pts *= self.radius
+
         plotting = {
             "vertex_size": 80,
             "elevation": 15,
diff --git a/pygsp/graphs/nngraphs/sphere.py b/pygsp/graphs/nngraphs/sphere.py
index e490031..936556b 100644
--- a/pygsp/graphs/nngraphs/sphere.py
+++ b/pygsp/graphs/nngraphs/sphere.py
@@ -46,7 +46,7 @@ class Sphere(NNGraph):
             pts = rs.normal(0, 1, (self.nb_pts, self.nb_dim))
 
             for i in range(self.nb_pts):
-                pts[i] /= np.linalg.norm(pts[i])
+                pts[i] *= self.radius / np.linalg.norm(pts[i])
 
         else:
             raise ValueError(f"Unknown sampling {sampling}")
-- 
2.43.0


From 2713cebbff5dfbc7b0daf97b85aa0d8a70f8f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 44/73] fix: communities connected by nearest neighbors have
 edges

---
 pygsp/graphs/community.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 5a7d8d0..000ca5d 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -203,16 +203,14 @@ class Community(Graph):
             elif k_neigh is not None:
                 comm_coords = coords[first_node : first_node + com_siz]
                 kdtree = spatial.KDTree(comm_coords)
-                __, indices = kdtree.query(comm_coords, k=k_neigh + 1)
+                # Every point is its own nearest neighbor.
+                n_neighbors = min(k_neigh + 1, com_siz)
+                __, indices = kdtree.query(comm_coords, k=n_neighbors)
 
                 pairs_set = set()
-                map(
-                    lambda row: map(
-                        lambda elm: pairs_set.add((min(row[0], elm), max(row[0], elm))),
-                        row[1:],
-                    ),
-                    indices,
-                )
+                for i, row in enumerate(indices.reshape(com_siz, n_neighbors)):
+                    for j in row[row != i]:
+                        pairs_set.add((min(i, j), max(i, j)))
 
                 w_data[0] += [1] * len(pairs_set)
                 w_data[1][0] += [first_node + pair[0] for pair in pairs_set]
-- 
2.43.0


From 058729ef1392c60441519af9ff5fe702629880b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 45/73] fix: cubes have the requested number of points

---
 pygsp/graphs/nngraphs/cube.py | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 767fa5e..f48b36a 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -50,24 +50,24 @@ class Cube(NNGraph):
                 pts = rs.rand(self.nb_pts, self.nb_dim)
 
             elif self.nb_dim == 3:
-                n = self.nb_pts // 6
-
-                pts = np.zeros((n * 6, 3))
-                pts[:n, 1:] = rs.rand(n, 2)
-                pts[n : 2 * n, :] = np.concatenate(
-                    (np.ones((n, 1)), rs.rand(n, 2)), axis=1
-                )
-
-                pts[2 * n : 3 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.zeros((n, 1)), rs.rand(n, 1)), axis=1
-                )
-                pts[3 * n : 4 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.ones((n, 1)), rs.rand(n, 1)), axis=1
-                )
-
-                pts[4 * n : 5 * n, :2] = rs.rand(n, 2)
-                pts[5 * n : 6 * n, :] = np.concatenate(
-                    (rs.rand(n, 2), np.ones((n, 1))), axis=1
+                # The first faces take the points which cannot be shared equally.
+                n = [(self.nb_pts + 5 - face) // 6 for face in range(6)]
+
+                pts = np.concatenate(
+                    (
+                        np.concatenate((np.zeros((n[0], 1)), rs.rand(n[0], 2)), axis=1),
+                        np.concatenate((np.ones((n[1], 1)), rs.rand(n[1], 2)), axis=1),
+                        np.concatenate(
+                            (rs.rand(n[2], 1), np.zeros((n[2], 1)), rs.rand(n[2], 1)),
+                            axis=1,
+                        ),
+                        np.concatenate(
+                            (rs.rand(n[3], 1), np.ones((n[3], 1)), rs.rand(n[3], 1)),
+                            axis=1,
+                        ),
+                        np.concatenate((rs.rand(n[4], 2), np.zeros((n[4], 1))), axis=1),
+                        np.concatenate((rs.rand(n[5], 2), np.ones((n[5], 1))), axis=1),
+                    )
                 )
 
         else:
-- 
2.43.0


From 9f83c3ef9bc6b8327c1f01c5b7c8c43e01df8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 46/73] fix: average adjacency degree

The product of two boolean adjacency matrices tells which vertices are two
hops away, not how many edges the neighbors have, and the degree of the
vertex itself was left out of the average.
---
 pygsp/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index f70f19f..941a819 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -20,7 +20,8 @@ def compute_avg_adj_deg(G):
     G: Graph
         Graph on which the statistic is extracted
     """
-    return np.sum(np.dot(G.A, G.A), axis=1) / (np.sum(G.A, axis=1) + 1.0)
+    degree = np.sum(G.A, axis=1)
+    return (degree + G.A.dot(degree)) / (degree + 1.0)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From 9527caec7bc68488e2bd0e6940e0b837126b0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 47/73] fix: pass the parameters to the filter when computing
 the Tig

compute_tig dropped the parameters meant for Filter.filter, and returned the
whole frame once per filter when given a filter bank.
---
 pygsp/features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index 941a819..ae9b49d 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -25,7 +25,7 @@ def compute_avg_adj_deg(G):
 
 
 @utils.filterbank_handler
-def compute_tig(g, **kwargs):
+def compute_tig(g, i=0, **kwargs):
     r"""
     Compute the Tig for a given filter or filter bank.
 
@@ -35,11 +35,15 @@ def compute_tig(g, **kwargs):
     ----------
     g: Filter
         One of :mod:`pygsp.filters`.
+    i: int
+        Index of the filter in the filter bank. A list with one matrix per
+        filter is returned if not given.
     kwargs: dict
         Additional parameters to be passed to the
         :func:`pygsp.filters.Filter.filter` method.
     """
-    return g.compute_frame()
+    tig = g.compute_frame(**kwargs)
+    return tig[i * g.G.N : (i + 1) * g.G.N]
 
 
 @utils.filterbank_handler
-- 
2.43.0


From 2470be89dcdc58e09b7202fb95a02e308b7fd10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 48/73] fix: set the coordinates of graphs with a single vertex

---
 pygsp/graphs/_layout.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9ee1a03..7d68e66 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -30,10 +30,15 @@ class LayoutMixIn:
         """
 
         if not isinstance(kind, str):
-            coords = np.asanyarray(kind).squeeze()
+            coords = np.asanyarray(kind)
+            if coords.shape[:1] != (self.N,):
+                coords = coords.squeeze()
+            else:  # Never squeeze the vertices, as there might be a single one.
+                axes = [i for i in range(1, coords.ndim) if coords.shape[i] == 1]
+                coords = coords.squeeze(axis=tuple(axes))
             check_1d = coords.ndim == 1
             check_2d_3d = (coords.ndim == 2) and (2 <= coords.shape[1] <= 3)
-            if coords.shape[0] != self.N or not (check_1d or check_2d_3d):
+            if coords.shape[:1] != (self.N,) or not (check_1d or check_2d_3d):
                 raise ValueError(
                     "Expecting coordinates to be of size N, Nx2, " "or Nx3."
                 )
-- 
2.43.0


From 048fc82c4c28e2493a6aef3dfe256896af673f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 49/73] fix: community layout without the sizes of the
 communities

collections.Counter was not imported. As sizes are indexed by the label of the
community, empty communities have to be counted as well.
---
 pygsp/graphs/_layout.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 7d68e66..da43b9e 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -77,10 +77,7 @@ class LayoutMixIn:
                 self.info["world_rad"] = np.sqrt(self.N)
 
             if "comm_sizes" not in self.info:
-                counts = Counter(self.info["node_com"])
-                self.info["comm_sizes"] = np.array(
-                    [cnt[1] for cnt in sorted(counts.items())]
-                )
+                self.info["comm_sizes"] = np.bincount(self.info["node_com"])
 
             Nc = self.info["comm_sizes"].shape[0]
 
-- 
2.43.0


From 7fa8d323908458650c7f134921ba871fa329fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 50/73] fix: rescaling of spring layouts

The coordinates of a single vertex were NaN, and the most negative coordinate
could lie outside of (-scale, scale).
---
 pygsp/graphs/_layout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index da43b9e..f97040a 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -228,8 +228,9 @@ def _rescale_layout(pos, scale=1):
     lim = 0  # max coordinate for all axes
     for i in range(pos.shape[1]):
         pos[:, i] -= pos[:, i].mean()
-        lim = max(pos[:, i].max(), lim)
+        lim = max(np.abs(pos[:, i]).max(), lim)
     # rescale to (-scale,scale) in all directions, preserves aspect
-    for i in range(pos.shape[1]):
-        pos[:, i] *= scale / lim
+    if lim > 0:
+        for i in range(pos.shape[1]):
+            pos[:, i] *= scale / lim
     return pos
-- 
2.43.0


From 0713ce0bf82fd63c8679c50458b0655b2195d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 51/73] fix: spring layouts from initial positions whose
 maximum is zero

The optimal distance between vertices was zero if some vertices were fixed,
leading to NaN coordinates.
---
 pygsp/graphs/_layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index f97040a..b9bb155 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -148,6 +148,8 @@ class LayoutMixIn:
         else:
             # Determine size of existing domain to adjust initial positions
             dom_size = np.max(pos)
+            if dom_size == 0:
+                dom_size = 1
             rng = np.random.default_rng(seed)
             pos_arr = rng.uniform(size=(self.N, dim))
             pos_arr = pos_arr * dom_size + center
-- 
2.43.0


From e8141e6f13f73cbb62b8485e1fca34b2facfbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 52/73] fix: keep the explicit zeros of the passed adjacency

They were eliminated in place from the arrays shared with the CSR matrix of the
caller, leaving its data inconsistent.
---
 pygsp/graphs/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 11953da..a915c51 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -125,7 +125,10 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         # Don't keep edges of 0 weight. Otherwise n_edges will not correspond
         # to the real number of edges. Problematic when plotting.
-        self._adjacency.eliminate_zeros()
+        if not self._adjacency.data.all():
+            # The arrays might be those of the passed adjacency.
+            self._adjacency = self._adjacency.copy()
+            self._adjacency.eliminate_zeros()
 
         self._directed = None
         self._connected = None
-- 
2.43.0


From c826e6b3fde4d1782aa43d8c15d9e4dfc5240d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 53/73] fix: do not rescale the bounds of the caller in place

---
 pygsp/filters/approximations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 37bf998..db25720 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -200,8 +200,7 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     a2 = (delta_lambda[1] + delta_lambda[0]) / 2
 
     # Scaling bounds of the band pass according to lrange
-    filter_bounds[0] = (filter_bounds[0] - a2) / a1
-    filter_bounds[1] = (filter_bounds[1] - a2) / a1
+    filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]
 
     # First compute cheby coeffs
     ch = np.empty(m + 1, dtype=float)
-- 
2.43.0


From 497864db3588629098432fcd896782b54c3cc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 54/73] fix: spectra of graphs with large weights

---
 pygsp/graphs/fourier.py | 7 +++++--
 pygsp/graphs/graph.py   | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..0c615ee 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -178,7 +178,10 @@ class FourierMixIn:
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < self._e[0] < 1e-5
+        # Those errors are relative to the largest eigenvalue.
+        upper_bound = self._get_upper_bound()
+        tol = 1e-5 * max(1, upper_bound)
+        assert -tol < self._e[0] < tol
         self._e[0] = 0
 
         # we set the first eigenvector to have positive values:
@@ -186,7 +189,7 @@ class FourierMixIn:
             self._U[0, :] = -self._U[0, :]
 
         # Bounded spectrum.
-        assert self._e[-1] <= self._get_upper_bound() + 1e-5
+        assert self._e[-1] <= upper_bound + tol
 
         assert np.max(self._e) == self._e[-1]
         if n_eigenvectors == self.N:
diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index a915c51..76977a4 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -925,7 +925,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     return_eigenvectors=False,
                 )
                 lmax = lmax[0]
-                assert lmax <= self._get_upper_bound() + 1e-12
+                # Rounding errors are relative to the magnitude of the weights.
+                upper_bound = self._get_upper_bound()
+                assert lmax <= upper_bound + 1e-12 * max(1, upper_bound)
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
                 self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
-- 
2.43.0


From 28231e05b05827e040eda4c8b6f3b53c9c9b0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 55/73] fix: average symmetrization of booleans and small
 integers

---
 pygsp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 69098f6..68b2f78 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -243,7 +243,8 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        # Divide first as the sum of booleans or small integers would overflow.
+        return W / 2 + W.T / 2
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From 2b0828c1a231e6b8248c1ccb2c4ffb8048e89131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 56/73] fix: resistance distances of single-precision
 Laplacians

---
 pygsp/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 68b2f78..38619fd 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -165,7 +165,10 @@ def resistance_distance(G):
         L = G.L.tocsc()
 
     # Laplacians are singular: an inverse, if rounding allows one, is meaningless.
-    pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
+    # The null singular values are only known up to the machine precision.
+    L = L.toarray().astype(float)
+    pseudo = np.linalg.pinv(L, rcond=len(L) * np.finfo(float).eps)
+    pseudo = sparse.lil_matrix(pseudo)
 
     N = np.shape(L)[0]
     d = sparse.csc_matrix(pseudo.diagonal())
-- 
2.43.0


From d8f734d23db685aa806e6eb1660b481a6ea2d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 57/73] fix: distances between points of small integer types

---
 pygsp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 38619fd..bc76ade 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -128,6 +128,9 @@ def distanz(x, y=None):
     if rx != ry:
         raise ValueError("The sizes of x and y do not fit")
 
+    # The products of small integers would overflow.
+    x, y = x.astype(float), y.astype(float)
+
     xx = (x * x).sum(axis=0)
     yy = (y * y).sum(axis=0)
     xy = np.dot(x.T, y)
-- 
2.43.0


From 6ea4487768b63ed4e3ff7f84ed5901ae365a0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 58/73] fix: differential operator of small integer weights

The square roots of 8-bit integers are half-precision numbers.
---
 pygsp/graphs/difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/difference.py b/pygsp/graphs/difference.py
index 23cef80..bce6cda 100644
--- a/pygsp/graphs/difference.py
+++ b/pygsp/graphs/difference.py
@@ -149,7 +149,7 @@ class DifferenceMixIn:
         values = np.empty(2 * n)
 
         if self.lap_type == "combinatorial":
-            values[:n] = -np.sqrt(weights)
+            values[:n] = -np.sqrt(weights.astype(float))
             values[n:] = -values[:n]
         elif self.lap_type == "normalized":
             values[:n] = -np.sqrt(weights / self.dw[sources])
-- 
2.43.0


From 1c8e70a6624f116245a1624fff1747b7dfe2e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 59/73] fix: largest eigenvalue of single-precision Laplacians

The bound was checked to a tolerance below the single precision.
---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 76977a4..cb60eb2 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -927,7 +927,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                 lmax = lmax[0]
                 # Rounding errors are relative to the magnitude of the weights.
                 upper_bound = self._get_upper_bound()
-                assert lmax <= upper_bound + 1e-12 * max(1, upper_bound)
+                assert lmax <= upper_bound + 1e-5 * max(1, upper_bound)
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
                 self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
-- 
2.43.0


From ce803b48db9e04ef6d735491bed205ad35fdd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 60/73] fix: Lanczos filtering

lanczos_op raised AttributeError, and lanczos returned matrices of
inconsistent shapes (or noise) once the Krylov space was exhausted.
---
 pygsp/filters/approximations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index db25720..cb4db85 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -245,7 +245,7 @@ def lanczos_op(f, s, order=30):
 
     """
     G = f.G
-    Nf = len(f.g)
+    Nf = f.Nf
 
     # To have the right shape for the output array depending on the signal dim
     try:
@@ -315,8 +315,9 @@ def lanczos(A, order, x):
     orth[0] = np.linalg.norm(np.dot(V.T, V) - M)
 
     for k in range(1, order):
-        if np.sum(np.abs(H[k, hiv + k - 1])) <= np.spacing(1):
-            H = H[: k - 1, _sum_ind(np.arange(k), hiv)]
+        # The Krylov space is exhausted: the residual is only rounding errors.
+        if np.sum(np.abs(H[k, hiv + k - 1])) <= 1e-12 * np.max(np.abs(H)):
+            H = H[:k, _sum_ind(np.arange(k), hiv)]
             V = V[:, _sum_ind(np.arange(k), hiv)]
             orth = orth[:k]
 
-- 
2.43.0


From 49cf9ca8f6c14049a5535cda1a89113e35e13741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 61/73] fix: raise a ValueError for filter bounds out of the
 spectrum

---
 pygsp/filters/approximations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index cb4db85..9e9d0b5 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -190,10 +190,10 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     # Parameters check
     if delta_lambda[0] > filter_bounds[0] or delta_lambda[1] < filter_bounds[1]:
         _logger.error("Bounds of the filter are out of the lambda values")
-        raise ()
+        raise ValueError("Bounds of the filter are out of the lambda values.")
     elif delta_lambda[0] > delta_lambda[1]:
         _logger.error("lambda_min is greater than lambda_max")
-        raise ()
+        raise ValueError("lambda_min is greater than lambda_max.")
 
     # Scaling and translating to standard cheby interval
     a1 = (delta_lambda[1] - delta_lambda[0]) / 2
-- 
2.43.0


From 11ed1caf697dc9c72b6424542b32a6030c9fe939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 62/73] fix: sparsify graphs of two vertices

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 0e544ea..c6c7e5c 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -108,7 +108,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         C0 = 1 / 30.0
         # Rudelson and Vershynin, 2007, Thm. 3.1
         C = 4 * C0
-        q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
+        q = max(1, round(N * np.log(N) * 9 * C**2 / (epsilon**2)))
 
         results = dist.rvs(size=int(q))
         spins, n_spins = np.unique(results, return_counts=True)
-- 
2.43.0


From b8eb9bbe3c3b45dacce8323ead4f34eb22098ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 63/73] fix: concatenate filter banks whatever the containers
 of their kernels

---
 pygsp/filters/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index b8e33fa..23dfbeb 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -60,7 +60,7 @@ class Filter:
             iter(kernels)
         except TypeError:
             kernels = [kernels]
-        self._kernels = kernels
+        self._kernels = kernels = list(kernels)
 
         # Only used by subclasses to instantiate a single filterbank.
         self.n_features_in, self.n_features_out = (1, len(kernels))
-- 
2.43.0


From 2056ef4a46fc5cc0b73b3f915113a6afec799063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 64/73] fix: plot spectrograms again

_import_qtg() returns four modules since the support of PyQt6.
---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 31c84a8..5d19cd7 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -740,7 +740,7 @@ def _plot_spectrogram(G, node_idx):
     """
     from pygsp import features
 
-    qtg, _, _ = _import_qtg()
+    qtg, _, _, _ = _import_qtg()
 
     if not hasattr(G, "spectr"):
         features.compute_spectrogram(G)
-- 
2.43.0


From 1ac508c669b9670fe92302d0b0a00412b2a4baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 65/73] fix: include the extremal values of a signal in the
 default limits

The minimum of a positive signal (and the maximum of a negative one) were
out of the limits, i.e., not shown in 1D and clipped otherwise.
---
 pygsp/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 5d19cd7..2225260 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -520,7 +520,8 @@ def _plot_graph(
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
     if limits is None:
-        limits = [1.05 * vertex_color.min(), 1.05 * vertex_color.max()]
+        vmin, vmax = vertex_color.min(), vertex_color.max()
+        limits = [vmin - abs(0.05 * vmin), vmax + abs(0.05 * vmax)]
 
     if title is None:
         title = G.__repr__(limit=4)
-- 
2.43.0


From 229ccd3c8864adb01d499dfeb7685cf5ae58b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 66/73] fix: map signals to colors between the limits with
 pyqtgraph

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 2225260..a336bb5 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -696,7 +696,7 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     )
     cmap = qtg.ColorMap(pos, color)
 
-    signal = 1 + 63 * (signal - limits[0]) / limits[1] - limits[0]
+    signal = 1 + 63 * (signal - limits[0]) / ((limits[1] - limits[0]) or 1)
 
     if G.coords.shape[1] == 2:
         gp = qtg.ScatterPlotItem(
-- 
2.43.0


From 737292951b20dd066586864f5b6ace981843de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 67/73] fix: plot signals on graphs of a single vertex or edge

---
 pygsp/plotting.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index a336bb5..3167723 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -450,6 +450,11 @@ def _plot_graph(
             txt = txt.format(name, signal.shape[1])
             raise ValueError(txt)
 
+    def squeeze(x):
+        """Drop the singleton dimensions, but not the one of the vertices."""
+        x = np.asanyarray(x)
+        return x if x.ndim == 0 else np.atleast_1d(x.squeeze())
+
     def normalize(x):
         """Scale values in [intercept, 1]. Return 0.5 if constant.
 
@@ -485,7 +490,7 @@ def _plot_graph(
         limits = [0, 0]
         colorbar = False
     else:
-        vertex_color = np.asanyarray(vertex_color).squeeze()
+        vertex_color = squeeze(vertex_color)
         check_shape(
             vertex_color, "Vertex color", G.n_vertices, many=(G.coords.ndim == 1)
         )
@@ -493,7 +498,7 @@ def _plot_graph(
     if vertex_size is None:
         vertex_size = G.plotting["vertex_size"]
     elif not np.isscalar(vertex_size):
-        vertex_size = np.asanyarray(vertex_size).squeeze()
+        vertex_size = squeeze(vertex_size)
         check_shape(vertex_size, "Vertex size", G.n_vertices)
         vertex_size = G.plotting["vertex_size"] * 4 * normalize(vertex_size) ** 2
 
@@ -503,7 +508,7 @@ def _plot_graph(
     if edge_color is None:
         edge_color = (G.plotting["edge_color"],)
     elif not is_color(edge_color):
-        edge_color = np.asanyarray(edge_color).squeeze()
+        edge_color = squeeze(edge_color)
         check_shape(edge_color, "Edge color", G.n_edges)
         edge_color = 0.9 * normalize(edge_color)
         edge_color = [
@@ -515,7 +520,7 @@ def _plot_graph(
     if edge_width is None:
         edge_width = G.plotting["edge_width"]
     elif not np.isscalar(edge_width):
-        edge_width = np.array(edge_width).squeeze()
+        edge_width = squeeze(edge_width)
         check_shape(edge_width, "Edge width", G.n_edges)
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
-- 
2.43.0


From d77b673f90cfd16c9756f9faf83b3edeed379ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 68/73] fix: plot booleans and small integers as sizes, widths,
 and edge colors

---
 pygsp/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 3167723..162a1f1 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -461,6 +461,8 @@ def _plot_graph(
         Set intercept value in G.plotting["normalize_intercept"]
         with value in [0, 1], default is .25.
         """
+        # Differences of booleans are undefined, those of integers overflow.
+        x = x.astype(float)
         ptp = np.ptp(x)
         if ptp == 0:
             return np.full(x.shape, 0.5)
-- 
2.43.0


From b38c1d6004869cb8502cf60122de5495444591bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 69/73] fix: export the isolated vertices to graph-tool

Vertices after the last edge were lost, or signals could not be exported.
---
 pygsp/graphs/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index fca521b..934ed4a 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -205,6 +205,7 @@ class IOMixIn:
 
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
+        graph.add_vertex(self.n_vertices)  # Some might be isolated.
 
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
-- 
2.43.0


From b3b991e63dc4aec74bd75561eabc19f0dc031bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 70/73] fix: do not double the self-loops imported from
 graph-tool

---
 pygsp/graphs/_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 934ed4a..dfd899c 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -1,6 +1,7 @@
 import os
 
 import numpy as np
+from scipy import sparse
 
 
 def _import_networkx():
@@ -367,6 +368,9 @@ class IOMixIn:
 
         weight = graph.edge_properties.get(weight, None)
         adjacency = gt.spectral.adjacency(graph, weight=weight)
+        if not graph.is_directed():
+            # graph-tool counts undirected self-loops twice.
+            adjacency = adjacency - sparse.diags(adjacency.diagonal() / 2)
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-- 
2.43.0


From e9dad0eea8f9d85d07632e451240b0acf49ae601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 71/73] fix: export boolean and unsigned weights and signals to
 graph-tool

Booleans raised TypeError, large unsigned integers became negative.
---
 pygsp/graphs/_io.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index dfd899c..57ca7aa 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -205,16 +205,27 @@ class IOMixIn:
         """
 
         gt = _import_graphtool()
+
+        def convert(values):
+            # graph-tool has no scalar type for NumPy booleans, and stores
+            # unsigned integers as signed ones of the same size.
+            if values.dtype.kind in "bu":
+                return values.astype(np.int64)
+            else:
+                return values
+
         graph = gt.Graph(directed=self.is_directed())
         graph.add_vertex(self.n_vertices)  # Some might be isolated.
 
         sources, targets, weights = self.get_edge_list()
+        weights = convert(weights)
         graph.add_edge_list(zip(sources, targets))
         prop = graph.new_edge_property(gt._gt_type(weights.dtype))
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
         for name, signal in self._break_signals().items():
+            signal = convert(signal)
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From 3e3112298bc2a35a478209aaba387e47c5f2e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 72/73] fix: copy the signals imported from graph-tool

The array belongs to the property map, and becomes invalid if the
graph-tool graph changes.
---
 pygsp/graphs/_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 57ca7aa..063a912 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -385,7 +385,7 @@ class IOMixIn:
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-            graph_pg.set_signal(signal.get_array(), name)
+            graph_pg.set_signal(signal.get_array().copy(), name)
 
         graph_pg._join_signals()
         return graph_pg
-- 
2.43.0


From 8cf3274e724938cd6618ce3c9ba9117cb3577f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 73/73] fix: do not load the labels of GEXF nodes as a signal

---
 pygsp/graphs/_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 063a912..7996eb2 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -450,6 +450,11 @@ class IOMixIn:
             nx = _import_networkx()
             load = getattr(nx, "read_" + fmt)
             graph = load(path)
+            labels = [data.get("label") for _, data in graph.nodes(data=True)]
+            if fmt == "gexf" and labels == list(map(str, graph.nodes)):
+                # Nodes were labelled on save: that is not a signal.
+                for _, data in graph.nodes(data=True):
+                    del data["label"]
             return cls.from_networkx(graph)
 
         def load_graphtool(path, fmt):
-- 
2.43.0

