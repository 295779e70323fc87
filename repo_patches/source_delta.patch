From 47bf07c99112af006ec1d1e011b6365c6b8e9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 01/15] fix: honour seed=0 in generate_random_planar_graph

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..397a427 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From 0a46691627d7352d947c6dcdbe85f1648bf50444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 02/15] fix: compute_cov_matrix with n_sites omitted used a
 float site count

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..a4d9b6a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From b4e3e75e3ae9ee970bfd286e4da25ccdf75f7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 03/15] fix: random_FF_state(pure, returnH) returned a
 generator unrelated to the state

---
 src/ff/ff_lib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a4d9b6a..4afc53b 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,6 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From c254361eaaa931b03fbea142a47a1d9e050a3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 04/15] fix: kron_plus failed for non-square blocks

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 0b1a1bf127c3f2b9514ce968f8952ea813e21e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 05/15] fix: perfect matching counts depended on node labels
 and insertion order

---
 src/ff/ff_graph_theory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 397a427..330b377 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -548,6 +548,9 @@ def pfo_algorithm(graph, verbose=False):
     Returns:
         NumPy array representing the pfaffian ordering matrix
     """
+    # matrix rows follow node order, not node labels
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From b8734c1ec3fe19e18e83b8e80eddce82be564bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 06/15] fix: clean kept values below the threshold that round
 up to it

---
 src/ff/ff_utils.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..38f11af 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -87,9 +87,9 @@ def clean(obj, threshold=1e-6):
     if isinstance(obj, list):
         # If it's a list, convert to numpy array
         obj_array = np.array(obj)
-        obj_array = np.round(obj_array, ndigits)
         # Set small values to zero
         obj_array[np.abs(obj_array) < threshold] = 0
+        obj_array = np.round(obj_array, ndigits)
         return obj_array.tolist()
 
     elif isinstance(obj, (np.matrix, np.ndarray)):
@@ -98,11 +98,11 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
-        # Round the array and set small values to zero
-        obj = np.round(obj, ndigits)
+                obj = obj.real
+        # Set small values to zero (in a copy) and round the array
+        obj = obj.copy()
         obj[np.abs(obj) < threshold] = 0
-        return obj
+        return np.round(obj, ndigits)
 
     if isinstance(obj, str):
         if obj.replace(".", "", 1).isnumeric():
@@ -114,17 +114,13 @@ def clean(obj, threshold=1e-6):
             # If it's a non-numeric string, return as is
             return obj
 
-    elif isinstance(obj, (int, float)):
-        return np.round(obj, ndigits)
-
-    elif isinstance(obj, complex):
-        if abs(obj.imag) < threshold:
+    elif isinstance(obj, (int, float, complex)):
+        if isinstance(obj, complex) and abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
-            return np.round(obj.real, ndigits)
-        else:
-            # If the imaginary part is significant, return the
-            # complex number rounded
-            return np.round(obj, ndigits)
+            obj = obj.real
+        if abs(obj) < threshold:
+            obj = 0 * obj
+        return np.round(obj, ndigits)
     else:
         raise TypeError("Unsupported type for cleaning: {}".format(type(obj)))
 
-- 
2.43.0


From a35c616648eb4ce1ae0953bbb9784c54ec172060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 07/15] fix: clean rejected numpy integer, float32 and
 complex64 scalars

---
 src/ff/ff_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 38f11af..7d7a6c6 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -114,8 +114,8 @@ def clean(obj, threshold=1e-6):
             # If it's a non-numeric string, return as is
             return obj
 
-    elif isinstance(obj, (int, float, complex)):
-        if isinstance(obj, complex) and abs(obj.imag) < threshold:
+    elif isinstance(obj, (int, float, complex, np.number)):
+        if np.iscomplexobj(obj) and abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
             obj = obj.real
         if abs(obj) < threshold:
-- 
2.43.0


From de1d0b6ee4fc64800c649f28b714a713e4458ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 08/15] fix: permutation_to_matrix accepted repeated entries

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 4afc53b..ac83ffc 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From 05d6bbaa71c6e99528c120770b88550ccb1f25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 09/15] fix: kitaev_chain dropped the imaginary part of t and
 delta

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index ac83ffc..8e8cad6 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -540,15 +540,15 @@ def random_H_generator(n_sites, fixedN=False, seed=None):
 def kitaev_chain(n_sites, mu, t, delta):
     """Create Kitaev chain Hamiltonian."""
     # Chemical potential term
-    A = -mu * np.eye(n_sites)
+    A = -mu * np.eye(n_sites, dtype=complex)
 
     # Hopping term
     for i in range(n_sites - 1):
         A[i, i + 1] = -t
-        A[i + 1, i] = -t
+        A[i + 1, i] = -np.conj(t)
 
     # Pairing term
-    B = np.zeros((n_sites, n_sites))
+    B = np.zeros((n_sites, n_sites), dtype=complex)
     for i in range(n_sites - 1):
         B[i, i + 1] = delta
         B[i + 1, i] = -delta
-- 
2.43.0


From a9aa89cfe3cbea1136aaa67b7410b6b1f79f2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 10/15] fix: operator lifts failed for complex coefficients of
 real operators

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 8e8cad6..ab20f19 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,8 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        # initialize jth rotated operator
+        b_j = np.zeros_like(alphas[0], dtype=np.result_type(C, *alphas))
 
         if verbose:
             print("\nj", j, "\n----")
@@ -774,7 +775,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas))
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0


From 0d6bceaca33a4771d47a265827ac00e63d725bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 11/15] fix: generate_gaussian_state used the coefficient
 matrix as the operator for n_sites <= 2

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index ab20f19..44f9fb9 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -735,7 +735,7 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if H.shape[0] == 2 * n_sites:
         H_op = build_op(n_sites, H, alphas)
 
-    if H.shape[0] == 2**n_sites:
+    elif H.shape[0] == 2**n_sites:
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From 45bab8ee368e9caae1a20290f092022cf0f13f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 12/15] fix: planar matching count returned rounding noise for
 an odd number of nodes

---
 src/ff/ff_graph_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 330b377..35e8c0d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -483,9 +483,9 @@ def count_perfect_matchings_planar(graph):
 
     assert nx.is_planar(graph)
 
-    if len(graph) == 0:
+    if len(graph) == 0 or len(graph) % 2 != 0:
         return 0
-        # Trivial case, no non-zero matchings
+        # Trivial cases, no non-zero matchings
 
     A = nx.adjacency_matrix(graph).toarray()
 
-- 
2.43.0


From bf2d52309b9497a65cd943797b5435d53352e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 13/15] fix: planar matching count failed on disconnected
 graphs

---
 src/ff/ff_graph_theory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 35e8c0d..47ccd84 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -16,6 +16,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 
 import itertools
 import itertools as it
+import math
 import random
 
 import matplotlib.pyplot as plt
@@ -487,6 +488,11 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial cases, no non-zero matchings
 
+    if not nx.is_connected(graph):
+        # matchings of the connected components are independent
+        components = [graph.subgraph(c) for c in nx.connected_components(graph)]
+        return math.prod(count_perfect_matchings_planar(c) for c in components)
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From c7e6d373451b97e576f1fb363ae8c79fde06189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 14/15] fix: count_perfect_matchings ignored edge weights of
 non-planar graphs

---
 src/ff/ff_graph_theory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 47ccd84..fde20d7 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -468,7 +468,10 @@ def count_perfect_matchings(graph):
     if nx.is_planar(graph):
         return count_perfect_matchings_planar(graph)
     else:
-        return len(find_perfect_matchings_brute(graph))
+        return sum(
+            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
+            for matching in find_perfect_matchings_brute(graph)
+        )
 
 
 def count_perfect_matchings_planar(graph):
-- 
2.43.0


From c4e450277cf8c8bbe3b444064826b483c5984c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 15/15] fix: brute force matching search reported no matchings
 when it gave up

---
 src/ff/ff_graph_theory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index fde20d7..3eee91d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -524,8 +524,7 @@ def find_perfect_matchings_brute(graph):
         return []  # No perfect matchings possible for odd number of nodes
 
     if n > 15:
-        print("Warning brute force approach too expensive")
-        return []
+        raise ValueError(f"Brute force approach too expensive for {n} nodes")
 
     all_edges = list(graph.edges)
     perfect_matchings = []
-- 
2.43.0

