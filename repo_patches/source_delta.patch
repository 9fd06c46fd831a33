From d8f08c3e4af053c21c49a0d6b15fc41014acd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 01/80] fix: diagonalise with eigh, so degenerate Schmidt
 spectra do not corrupt the state

---
 xmps/tensor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..dd9a187 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigvals, inv, eigh
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -236,10 +236,11 @@ def tr_svd(A, D):
     return U[:, :D], diag(s[:D]), V[:D, :]
 
 def diagonalise(M):
-    """diagonalise: wrap eig better
-       :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    """diagonalise: wrap eigh better. V is always unitary, even if M is degenerate,
+       and the eigenvalues are in descending order (any zeros are at the end)
+       :param M: (hermitian) matrix to diagonalise """
+    S, V = eigh((M + H(M))/2)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From dc8421d6b682d4e3120c08f1a59f6c9ec6746d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 02/80] fix: one site expectation values are of op, not of its
 transpose

---
 xmps/fMPS.py |  8 ++++----
 xmps/iMPS.py | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..be260f6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
@@ -2175,12 +2175,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..30c3090 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -420,15 +420,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -453,19 +453,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -813,4 +813,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From 4c90bad193f2ea6275c26c9b68f36c23665f0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 03/80] fix: keep track of the orthogonality center, so
 expectation values are not read off the wrong site

---
 xmps/fMPS.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index be260f6..4355002 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -188,6 +188,7 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.oc = None # the new tensor need not be canonical
 
     def __eq__(self, other):
         """__eq__
@@ -621,7 +622,6 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
 
         def split(M):
@@ -645,6 +645,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
@@ -663,6 +664,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = 0
+        else:
+            self.oc = None # don't know where the orthogonality center is
         return self
 
     def left_orthogonalise(self, fr=0, to=None):
@@ -681,6 +684,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = self.L
+        else:
+            self.oc = None # don't know where the orthogonality center is
         return self
 
     def mixed_orthogonalise(self, oc, current_oc=None):
@@ -860,6 +865,8 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.oc = None # no longer normalised or canonical
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -1155,6 +1162,7 @@ class fMPS(object):
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
+        self.oc = None # the expanded state is not canonical
 
         return self
 
-- 
2.43.0


From 19967b88d66b5586e3afa27f764cac25a27ea6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 04/80] fix: random product states have the right local
 dimension, and can be queried

---
 xmps/fMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 4355002..16d1f53 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -409,8 +409,10 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        if D == 1 and d == 2:
             self.D = 1
+            self.canonical = False
+            self.orthogonal = False
             # random product states
             V = randn(L, 3)
             V = V/ed(norm(V, axis=-1), -1)
-- 
2.43.0


From 7fdbf90b2e4ec4e2dd4bc466e13c8d95efc0d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 05/80] fix: fMPS(data, D=D) truncates, as documented, instead
 of raising

---
 xmps/fMPS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 16d1f53..8d19b00 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -162,13 +162,12 @@ class fMPS(object):
                 self.d = d
             else:
                 self.d = data[0].shape[0]
-            if D is not None:
-                self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
+            self.D = max([max(x.shape[1:]) for x in data])
             self.data = data
             self.canonical = False
             self.orthogonal = False
+            if D is not None:
+                self.right_canonicalise(D)
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 4bd336da3430dacb2241c04855fa21aafae27650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 06/80] fix: 1-based indexing: mps(1) is the first tensor

---
 xmps/fMPS.py | 2 +-
 xmps/iMPS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8d19b00..fe90ffc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -174,7 +174,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 30c3090..e9e01be 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -177,7 +177,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 5138689204300bb8e680b0cb3785ae9566e5a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 07/80] fix: apply_two_site with a one site operator: i, j were
 not defined

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index fe90ffc..ac89ab4 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -885,7 +885,7 @@ class fMPS(object):
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-- 
2.43.0


From b70453e26145589cbc15fd718371ce739addda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 08/80] fix: D is the bond dimension after canonicalising, also
 when the rank is reduced

---
 xmps/fMPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ac89ab4..91bb407 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -531,6 +531,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         self.oc = 0
@@ -609,6 +610,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical=True
         self.orthogonal=True
         self.oc = self.L
@@ -644,6 +646,7 @@ class fMPS(object):
             self.ok = self.ok and is_left_canonical(self.data[:oc])\
                               and is_right_canonical(self.data[oc+1:])
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         self.oc = oc
-- 
2.43.0


From 07a1af09db9cbac2251e7ad88c0008f65e0bd50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 09/80] fix: energy of a local hamiltonian is the energy, with
 and without fullH

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 91bb407..1e8d4cc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1018,7 +1018,7 @@ class fMPS(object):
                 h = h.reshape(*[self.d]*4)
                 C = ncon([h]+self.data[m:m+2], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
                 e.append(ncon([c(l(m-1))@self.data[m].conj(), self.data[m+1].conj()@c(r(m+1))]+[C], [[1, 3, 4], [2, 4, 5], [1, 2, 3, 5]]))
-            return re(sum(e))/self.L
+            return re(sum(e))
         else:
             return self.E_L(H)
 
-- 
2.43.0


From a7f7edc33404b53f67d0793acbc2a08e4f754e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 10/80] fix: rho_proj traces out the other sites of
 |self><other|

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1e8d4cc..05448bd 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1002,7 +1002,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 3ecf9cee9c7e90f83415bc98a0838a204530aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 11/80] fix: memo keys of F1, F2 and christoffel do not collide
 for chains of more than ten sites

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 05448bd..ce954e4 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1389,12 +1389,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1636,7 +1636,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1653,12 +1653,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1696,13 +1696,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1800,7 +1800,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1817,12 +1817,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1865,15 +1865,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1901,7 +1901,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From 99e5209d3bd7f2224ab3e1a785c32bf8db447bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 12/80] fix: christoffel cache: do not mix contracted and open
 symbols, or read stale transfers

---
 xmps/fMPS.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ce954e4..5918fe8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1814,7 +1814,7 @@ class fMPS(object):
             # we only don't try the cache on the first call from jac
             self.christ_ij_mem = {}
             self.christ_tot_ij_mem = {}
-        else:
+        elif all([x is None for x in closed]):
             # read from cache:
             # have we cached this tensor?
             if (i, j, k) in self.christ_tot_ij_mem:
@@ -1823,7 +1823,7 @@ class fMPS(object):
             ## have we cached its conjugate?
             if (j, i, k) in self.christ_tot_ij_mem:
                 return tra(self.christ_tot_ij_mem[(j, i, k)],
-                           [3, 4, 5, 0, 1, 2])
+                           [3, 4, 5, 0, 1, 2, 6, 7, 8])
 
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs() if envs is None else envs
@@ -1866,12 +1866,9 @@ class fMPS(object):
             else:
                 if contracted:
                     if (i, j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
-                            Rs = self.dA_cache[str(j)]
-                        else:
-                            R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-                            Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[(i, j)] = Rs
+                        R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
+                        Rs = self.left_transfer(R, i, j)
+                        self.christ_ij_mem[(i, j)] = Rs
                     else:
                         Rs = self.christ_ij_mem[(i, j)]
 
@@ -1901,7 +1898,8 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
+        if all([x is None for x in closed]):
+            self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From 44310987b54e7547b932a17264c848cab7ddbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 13/80] fix: D follows gates, orthogonalisation and post
 selection, so stored states load correctly

---
 xmps/fMPS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5918fe8..f4f63f5 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -665,6 +665,7 @@ class fMPS(object):
                 self.data[m-1] = self.data[m-1]@R
             else:
                 self.norm_ = R
+        self.D = self.bond_dimension
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = 0
@@ -685,6 +686,7 @@ class fMPS(object):
                 self.data[m+1] = R@self.data[m+1]
             else:
                 self.norm_ = R
+        self.D = self.bond_dimension
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = self.L
@@ -870,6 +872,7 @@ class fMPS(object):
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
         self.L = len(self.data)
+        self.D = self.bond_dimension
         self.oc = None # no longer normalised or canonical
         return self
 
@@ -903,6 +906,7 @@ class fMPS(object):
                 i_ = i_+1
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
+            self.D = self.bond_dimension
             return self
 
     def apply_two_site_isometry(self, opsites, lr=0):
@@ -1058,7 +1062,7 @@ class fMPS(object):
                            but bd varies along chain.
         """
         if not structured:
-            save(filename, ct([array([self.L, self.d, self.D]), self.serialize()]))
+            save(filename, ct([array([self.L, self.d, self.bond_dimension]), self.serialize()]))
         else:
             st = reduce(tuple.__add__, [x.shape for x in self.data])
             st = (len(st),)+st
-- 
2.43.0


From e95fe7e51860b1f160ab353445bb867cd2ca0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 14/80] fix: right_transfer keeps the order of its legs; F1 is
 right for complex hamiltonians, any d, and sites more than one apart

---
 xmps/fMPS.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f4f63f5..be847e9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -840,8 +840,8 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[j-i-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
@@ -1426,11 +1426,11 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(d, d, d, d) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1441,7 +1441,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1460,24 +1460,24 @@ class fMPS(object):
                             Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
-                            G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
+                            G_ += ncon([td(Lbs_(m), Kr_, [[2, 3], [0, 1]]), Lbs__], [[-2, -4], [-1, -3]])
                     Am, Am_1 = self.data[m:m+2]
                     if m==i:
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1487,7 +1487,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1504,12 +1504,12 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(d, d, d, d) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1526,7 +1526,7 @@ class fMPS(object):
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
                                 Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
-                                G += tr(Lbs(m)@Kr_, 0, -1, -2)
+                                G += td(Lbs(m), Kr_, [[6, 7], [0, 1]])
 
                         Am, Am_1 = self.data[m:m+2]
 
@@ -1534,18 +1534,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From 9bd799e4938eb3d2940d0752d3408f2cd75bcb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 15/80] fix: tangent coordinates and jacobian for states with
 full rank sites away from the left end

---
 xmps/fMPS.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index be847e9..7cf486b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1337,8 +1337,8 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0] # sites with a tangent space
+        shapes = list(cs([prod(sh[n]) for n in sites]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1350,7 +1350,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2015,14 +2015,11 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
-        vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        vs = chop(v, cs([prod(s) for s in shapes]))
+        xs = [x.reshape(*shape) for x, shape in zip(vs, shapes)]
+        # sites without a tangent space have an empty x
+        Bs = [inv(ch(l(n-1)))@vL@x@inv(ch(r(n))) if x.size!=0 else zl(A)
+              for n, (A, vL, x) in enumerate(zip(self.data, vLs, xs))]
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From 55b44dac022336b447e23f3b19eeb7ea91a2316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 16/80] fix: ddA_dt acts on tangent coordinates, not on
 unscaled tensors

---
 xmps/fMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7cf486b..62bfc1d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1260,8 +1260,9 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
-        ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
-                    td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
+        X = [l(j-1)@dA[j]@r(j) for j in range(L)]
+        ddA = [sum([td(down(i, j), c(X[j]), [[3, 4, 5], [0, 1, 2]]) +
+                    td(up(i, j),     X[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
 
         return self.extract_tangent_vector(ddA)
-- 
2.43.0


From 3f53335e64513a1484d5a6234f15639a403a4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 17/80] fix: update_properties does not raise on Ls left from
 another structure

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 62bfc1d..9e05d06 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -729,7 +729,7 @@ class fMPS(object):
                                                                  self.Ls)
             self.is_full_rank = is_full_rank(self.Ls)
             self.has_trace_1 = has_trace_1(self.Ls)
-        except AttributeError:
+        except (AttributeError, ValueError): # no Ls, or Ls from another structure
             self.is_left_env_canonical = False
             self.is_right_env_canonical = False
             self.is_full_rank = False
-- 
2.43.0


From bcc55b54f7d4ae171a496d933b4d852ef020b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 18/80] fix: right null space of a state whose right
 environment is not the identity

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9e05d06..1aee3f6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1933,7 +1933,7 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@r(n), 0, 1)
+            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
         pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
-- 
2.43.0


From 4c7944a9e4453b438370c6865bdffac58f9cec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 19/80] fix: infinite MPS: environments, energy, null
 projectors and dA_dt are right in every gauge, not only in diagonal ones

---
 xmps/iMPS.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index e9e01be..f89a319 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -127,7 +127,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -358,15 +358,15 @@ class iMPS(object):
         eta, v_l, v_r = self.transfer_matrix().eigs(l0, r0)
         self.l, self.r = v_l, v_r
 
-        X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
-        Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
+        X = cholesky_s(v_r, lower=True, check_finite=False)
+        Y = cholesky_s(v_l, lower=True, check_finite=False)
 
-        U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
+        U, L, V = svd_s(cT(Y).dot(X), full_matrices=False,
                                     overwrite_a=True,
                                     check_finite=False)
         ll = sum(L*L)
 
-        G_ = (V @ inv(X)) @ A @ (inv(Y.T) @ U)
+        G_ = (V @ inv(X)) @ A @ (inv(cT(Y)) @ U)
         L_ = diag(L)
 
         G_ /= sqrt(eta/ll) # these factors make it so G & L solve the eigenvalue problem
@@ -401,7 +401,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
@@ -486,12 +486,12 @@ class iMPS(object):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-        self.e = tr(K@r)
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
+        self.e = tr(K@r)/np.squeeze(eta)**2
         return real(self.e)
 
     def serialize(self, real=False):
@@ -549,7 +549,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
@@ -595,7 +595,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -2, 4], [2, 4, 3], [1, 2, -1, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
@@ -612,7 +612,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(A@K@cT(A), axis=0) + r*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -640,18 +640,20 @@ class iMPS(object):
         L = L_.reshape(-1, self.d*L_.shape[-1])
         vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
 
-        pr = ncon([inv(ch(l))@vL, inv(ch(l))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        iL = inv(cT(ch(l)))
+        pr = ncon([iL@vL, c(iL@vL)], [[-1, -2, 1], [-3, -4, 1]])
         self.vL = vL
         if get_vL:
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
-        R_ = sw(c(self[0])@r, 0, 1)
+        R_ = sw(c(self[0]@ch(r)), 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        iR = inv(ch(r))
+        pr = ncon([vR@iR, c(vR@iR)], [[-1, 1, -2], [-3, 1, -4]])
         self.vR = vR
         if get_vR:
             return pr, vR
@@ -665,7 +667,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -674,9 +676,9 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
-        B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j*ncon([l@C@r, pr, T(inv(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([T(l)@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
-- 
2.43.0


From cd4d8d612e9d3a08c312788dd2a27eaa45e700f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 20/80] fix: infinite MPS: queries do not change the state,
 canonicalise keeps the environments of the new tensor

---
 xmps/iMPS.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index f89a319..8e89224 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -165,12 +165,12 @@ class iMPS(object):
         Expect a list length of the unit cell. canonical describes if data is canonical.
         this is not checked
         """
+        self.canonical = canonical
         if data is not None:
             self.period = len(data)
             self.D = data[0].shape[-1]
             self.d = data[0].shape[0]
             self.data = data
-            self.canonical = canonical
 
     def __call__(self, k):
         """__call__: 1-based indexing
@@ -259,9 +259,10 @@ class iMPS(object):
         return self.data[0].shape
 
     def copy(self):
-        A = iMPS(self.data.copy())
-        if hasattr(self, 'r') or hasattr(self, 'l'):
-            A.l, A.r = self.l, self.r
+        A = iMPS(self.data.copy(), self.canonical)
+        for x in ('l', 'r', 'L'):
+            if hasattr(self, x):
+                setattr(A, x, getattr(self, x))
         return A
 
     def random(self, d, D, period=1):
@@ -356,8 +357,6 @@ class iMPS(object):
         A = self.data[0]
 
         eta, v_l, v_r = self.transfer_matrix().eigs(l0, r0)
-        self.l, self.r = v_l, v_r
-
         X = cholesky_s(v_r, lower=True, check_finite=False)
         Y = cholesky_s(v_l, lower=True, check_finite=False)
 
@@ -374,13 +373,17 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        # environments of the new tensor
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+            self.l, self.r = L_**2, eye(self.D)
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
-            sqrtL_ = diag(sqrt(L))
+            self.l, self.r = eye(self.D), L_**2
+        elif hand == 'm':
+            sqrtL_ = diag(sqrt(diag(L_)))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
+            self.l, self.r = L_, L_
 
         if to_vidal:
             return ivMPS([(G_, L_)])
@@ -406,7 +409,7 @@ class iMPS(object):
         return self.l, self.r
 
     def overlap(self, other):
-        A, B = self.left_canonicalise()[0], other.left_canonicalise()[0]
+        A, B = self.copy().left_canonicalise()[0], other.copy().left_canonicalise()[0]
         return np.abs(Map(A, B).left_fixed_point()[0])**2
 
     def E(self, op, c=None):
@@ -431,7 +434,7 @@ class iMPS(object):
             return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
-            G, L = self.canonicalise(to_vidal=True).data[0]
+            G, L = self.copy().canonicalise(to_vidal=True).data[0]
             circle = tr(G.dot(L).dot(L).dot(H(G)).dot(L).dot(L), axis1=1, axis2=3)
             #  - L - G - L -
             # |      |0     |       |0
@@ -469,7 +472,7 @@ class iMPS(object):
             return ret
 
         if c is None:
-            G, L = self.canonicalise(to_vidal=True).data[0]
+            G, L = self.copy().canonicalise(to_vidal=True).data[0]
             circle = tr(G.dot(L).dot(L).dot(H(G)).dot(L).dot(L), axis1=1, axis2=3)
             #  - L - G - L -
             # |      |0     |       |0
-- 
2.43.0


From 0047f767e60b9eb02780e4530511bc2c881fe827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 21/80] fix: infinite MPS with bond dimension 1

---
 xmps/iMPS.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 8e89224..d7e1feb 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -33,6 +33,14 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def leading(op, v0=None, tol=0):
+    """leading: dominant eigenvalue and vector of a linear operator.
+    arnoldi does not do 1x1 (bond dimension 1)"""
+    if op.shape[0] == 1:
+        v = np.ones((1, 1), dtype=complex)
+        return op@v[0], v
+    return arnoldi(op, k=1, v0=v0, tol=tol)
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
@@ -77,7 +85,7 @@ class Map(object):
         d, D = self.d, self.D
         if r0 is not None:
             r0 = r0.reshape(D**2)
-        η, r = arnoldi(self.aslinearoperator(), k=1, v0=r0, tol=tol)
+        η, r = leading(self.aslinearoperator(), r0, tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
         r = r.reshape(D, D)/sign(r[0])
@@ -87,7 +95,7 @@ class Map(object):
         d, D = self.d, self.D
         if l0 is not None:
             l0 = l0.reshape(D**2)
-        η, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0, tol=tol)
+        η, l = leading(self.aslinearoperator().H, l0, tol)
         l = rotate_to_hermitian(l)/sign(l[0])
         l = l.reshape(D, D)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
@@ -144,8 +152,8 @@ class TransferMatrix(object):
             l0 = l0.reshape(self.shape[1])
         if r0 is not None:
             r0 = r0.reshape(self.shape[1])
-        _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
-        eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
+        _,   r = leading(self.aslinearoperator(), r0)
+        eta, l = leading(self.aslinearoperator().H, l0)
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
@@ -385,10 +393,11 @@ class iMPS(object):
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
             self.l, self.r = L_, L_
 
+        self.canonical = hand
+
         if to_vidal:
             return ivMPS([(G_, L_)])
         else:
-            self.canonical = hand
             return self
 
     def left_canonicalise(self):
-- 
2.43.0


From 352ed7cb3e1b0040e3ae7b1b9677066e6e59c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 22/80] fix: uqr, urq of matrices with zeros on the diagonal of
 r are decompositions of the matrix

---
 xmps/tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index dd9a187..4727252 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -57,17 +57,21 @@ def deembed(u):
       '''
     return (u@array([1, 0, 0, 0])).reshape(2, 2)
 
+def nonzero_sign(x):
+    '''sign, 1 for 0: rank deficient matrices have zeros on the diagonal of r'''
+    return sign(x) + (x == 0)
+
 def uqr(A):
     '''Unique qr decomposition'''
     q, r = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    O = diag(nonzero_sign(diag(r)))
     return q@O, O@r
 
 def urq(A):
     '''Unique rq decomposition'''
     r, q = rq(A, mode='economic')
     q_, r_ = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    O = diag(nonzero_sign(diag(r)))
     return r@O, O@q
 
 def eye_like(A):
-- 
2.43.0


From cf45fdfe30444acb89b6c8ceb6c2806027b7adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 23/80] fix: overlap and fixed points of maps whose fixed point
 has a vanishing first element

---
 xmps/iMPS.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index d7e1feb..bb2b28c 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -41,6 +41,14 @@ def leading(op, v0=None, tol=0):
         return op@v[0], v
     return arnoldi(op, k=1, v0=v0, tol=tol)
 
+def fix_phase(r):
+    """fix_phase: choose the phase of an eigenmatrix: positive trace (so hermitian if it is up to phase),
+    or, if it is traceless, positive largest element"""
+    t = tr(r)
+    if abs(t) < 1e-8*norm(r):
+        t = r.reshape(-1)[np.argmax(abs(r))]
+    return r*abs(t)/t
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
@@ -86,9 +94,9 @@ class Map(object):
         if r0 is not None:
             r0 = r0.reshape(D**2)
         η, r = leading(self.aslinearoperator(), r0, tol)
+        r = r.reshape(D, D)
         if rotate:
-            w, r = rotate_to_hermitian(r, ret_phase=True)
-        r = r.reshape(D, D)/sign(r[0])
+            r = fix_phase(r)
         return η, r
 
     def left_fixed_point(self, l0=None, tol=0):
@@ -96,8 +104,7 @@ class Map(object):
         if l0 is not None:
             l0 = l0.reshape(D**2)
         η, l = leading(self.aslinearoperator().H, l0, tol)
-        l = rotate_to_hermitian(l)/sign(l[0])
-        l = l.reshape(D, D)
+        l = fix_phase(l.reshape(D, D))
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
 
     def is_right_eigenvector(self, r, λ=1):
-- 
2.43.0


From 622697f5005526eab9f3618bd239a17267f4f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 24/80] fix: environment of the infinite hamiltonian is solved
 as the linear equation it is

---
 xmps/iMPS.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index bb2b28c..545ecd6 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -14,7 +14,7 @@ from numpy import concatenate as ct, split as chop, save, load
 from numpy.linalg import cholesky, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
-from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
+from scipy.sparse.linalg import LinearOperator, gmres, eigs as arnoldi
 from scipy.linalg import svd as svd_s, cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
@@ -572,6 +572,9 @@ class iMPS(object):
             K -= l*tr(K@r)
             return K
 
+        def LHS(K):
+            return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
+
         def O(K, RHS):
             """O: function of which K should be the root
             scipy root doesn't work with complex numbers or ndim matrices (maybe)
@@ -583,18 +586,20 @@ class iMPS(object):
             """
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
-            def LHS(K):
-                return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
-
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
             return O_n
 
-        K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
-        K0 = concatenate([real(K0), imag(K0)])
+        if method == 'krylov':
+            # the equation is linear in K
+            op = LinearOperator((D**2, D**2), matvec=lambda K: LHS(K.reshape(D, D)).reshape(-1), dtype=complex)
+            K = gmres(op, RHS().reshape(-1), rtol=tol, atol=tol)[0].reshape(D, D)
+        else:
+            K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
+            K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
-        K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
+            K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
+            K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
                 return O(K, RHS())
-- 
2.43.0


From 1413cdbdb7617933bc6a8a519f834947486ce94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 25/80] fix: rk4 step of infinite tdvp

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From d846c06e851a1b10ee278387c57182148384b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 26/80] fix: keep full environments off canonical form in dA_dt

---
 xmps/fMPS.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1aee3f6..896b848 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -801,16 +801,21 @@ class fMPS(object):
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
            returns: fns tuple of functions l, r"""
+        def clean(env):
+            # drop the rounding errors off the diagonal, if that is all there is
+            diagonal = diag(diag(re(env)))
+            return diagonal if allclose(env, diagonal) else env
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(clean(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(clean(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1219,17 +1224,17 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    K = ncon([T(l(m-1))@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
                     e.append(trace(K@r(m+1)))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), T(inv(r(m)))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([T(l(m-1))@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
-                        B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
+                        B += -1j *ncon([K, Rs(m+2)], [[2, 1], [1, 2, -1, -2, -3]])
                 self.e = e
                 return B
         else:
@@ -1924,7 +1929,8 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        B = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([B, c(B)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
@@ -2169,7 +2175,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        B = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([B, c(B)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From 3a47e655bb83dde8497f8a3ea8607643adf11c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 27/80] fix: trajectories record the structure of every state

---
 xmps/fTDVP.py | 106 +++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 66 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..831c589 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -63,21 +63,35 @@ class Trajectory(object):
         self.Ds = [self.mps.D] if self.mps is not None else []
         self.fullH = fullH
         self.mps_history = []
+        self.structures = []
         self.run_name = run_name
         self.continuous = continuous
 
+    def record(self, mps):
+        """record: add mps to the history
+
+        :param mps: state to record
+        """
+        self.mps_history.append(mps.serialize(real=True))
+        self.structures.append([x.shape for x in mps])
+        self.Ds.append(mps.D)
+
+    def recorded(self, n):
+        """recorded: nth state in the history
+        """
+        return fMPS().deserialize(self.mps_history[n], real=True,
+                                  structure=self.structures[n])
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
         k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
         k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
@@ -88,8 +102,7 @@ class Trajectory(object):
     def invfree(self, mps, dt, W=None, store=True):
         W = W if W is not None else self.W
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         A = tdvp(mps.data, W, 1j*dt/2)
@@ -99,8 +112,7 @@ class Trajectory(object):
         """invfree4 fourth order symmetric composition
         """
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         a1, a2, a3 = b5, b4, b3 = (146+5*sqrt(19)) / \
@@ -125,7 +137,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def rk4int(self, T):
@@ -137,7 +149,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -162,7 +174,7 @@ class Trajectory(object):
             elif order == 'low':
                 mps = self.invfree(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def expand(self, D):
@@ -258,7 +270,7 @@ class Trajectory(object):
                 self.invfreeint(
                     linspace(0, t_burn, int(50*t_burn)), order='high')
                 self.burn_len = int(200*t_burn)
-                self.mps_history = []
+                self.mps_history, self.structures = [], []
             else:
                 self.mps = self.mps.grow(self.H, 0.1, D).right_canonicalise()
                 self.rk4int(linspace(0, 1, 100))
@@ -301,7 +313,7 @@ class Trajectory(object):
                     linspace(0, t_burn, int(50*t_burn)), order=order)
                 self.burn_len = int(200*t_burn)
                 self.mps = self.mps.left_canonicalise()
-                self.mps_history = []
+                self.mps_history, self.structures = [], []
             else:
                 self.mps = self.mps.grow(self.H, 0.1, D).right_canonicalise()
                 self.rk4int(linspace(0, 1, 100))
@@ -486,28 +498,17 @@ class Trajectory(object):
 
     def mps_list(self):
         if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+            return [fMPS().left_from_state(
+                        x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    for x in tqdm(self.ed_history)]
         assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
+        return [self.recorded(n) for n in range(len(self.mps_history))]
 
     def mps_evs(self, ops, site):
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in self.ed_history:
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
-        assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return array([mps.Es(ops, site)
-                      for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history))])
+        return array([mps.Es(ops, site) for mps in self.mps_list()])
 
     def mps_energies(self):
         assert self.H is not None
-        assert self.mps_history
         return np.array([mps.left_canonicalise().energy(self.H, fullH=self.fullH) for mps in self.mps_list()])
 
     def ed_energies(self):
@@ -519,44 +520,15 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        return [self.recorded(n) for n in range(len(self.mps_history))]
 
     def schmidts(self):
-        if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
-        else:
-            assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            sch = []
-            for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+        return [[diag(x) for x in mps.left_canonicalise().Ls]
+                for mps in self.mps_list()]
 
     def loschmidt(self):
-        if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
-        else:
-            assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
-            lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
-                lss.append(np.abs(psi_0.overlap(psi)))
-            return lss
+        psis = self.mps_list()
+        return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
         sch = array(self.schmidts())
@@ -573,10 +545,12 @@ class Trajectory(object):
         return array([[re(psi.conj()@op@psi) for op in ops] for psi in self.ed_history])
 
     def clear(self):
-        self.mps_history = []
+        self.mps_history, self.structures = [], []
         self.mps = self.mps_0.copy()
-        if hasattr(self, 'lys'):
-            delattr(self, 'lys')
+        self.Ds = [self.mps.D]
+        for record in ('lys', 'lys_', 'ed_history'):
+            if hasattr(self, record):
+                delattr(self, record)
 
     def save(self, loc='data/', exps=True, clear=True):
         assert self.mps_history
-- 
2.43.0


From 315341b141d9d70a127a3aae0e47c10acf66cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 28/80] fix: entropies of trajectories whose Schmidt values
 differ in number

---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 831c589..c7c020d 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -531,12 +531,14 @@ class Trajectory(object):
         return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
+        if i is not None:
+            return array([-re(S[i]@log(S[i])) for S in sch])
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From 353a42de886b9f70f9d08e25b444a5ad6212d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 29/80] fix: integrate over the given time grid, also if it is
 not uniform

---
 xmps/fTDVP.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c7c020d..1bae252 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -134,8 +134,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        for dt in tqdm(ct([np.diff(T), [0]])):
+            mps = self.euler(mps, dt)
 
         self.mps = self.recorded(-1)
         return self
@@ -146,8 +146,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        for dt in tqdm(ct([np.diff(T), [0]])):
+            mps = self.rk4(mps, dt)
 
         self.mps = self.recorded(-1)
         return self
@@ -246,8 +246,7 @@ class Trajectory(object):
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
-        dt = T[1]-T[0]
-        for t in tqdm(T[:-1]):
+        for dt in tqdm(np.diff(T)):
             psi_n = expm_multiply(-1j * H*dt, psi_n)
             self.ed_history.append(psi_n)
 
-- 
2.43.0


From dfec89b2386b8ac8a43c8d9a6fb428c80dae620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 30/80] fix: exact integration for local dimensions other than
 2

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1bae252..10ab759 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -242,7 +242,7 @@ class Trajectory(object):
         """
         H = self.H
         psi_0 = self.mps.recombine().reshape(-1)
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
@@ -514,7 +514,7 @@ class Trajectory(object):
         assert self.H is not None
         assert hasattr(self, 'ed_history')
         H = self.H
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         return self.ed_evs([H])
 
-- 
2.43.0


From f5bb28a0ad01d633540bd376aff1cedd3d08a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 31/80] fix: odeint of finite trajectories

---
 xmps/fTDVP.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 10ab759..4d2e0d5 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -31,6 +31,7 @@ from numpy.linalg import inv, svd, eig, eigvalsh
 from numpy.linalg import det, qr
 import numpy as np
 
+from scipy.integrate import solve_ivp
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
 
@@ -204,9 +205,8 @@ class Trajectory(object):
         :param D: bond dimension to truncate initial state to
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        structure = [x.shape for x in mps]
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -215,26 +215,20 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, real=True, structure=structure)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
-        traj = Q.y.T
+                      max_step=T[1]-T[0])
         bar.close()
+        if not Q.success:
+            raise Exception(Q.message)
 
-        self.mps_history = traj
-        self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
+        for v in Q.y.T:
+            self.record(fMPS().deserialize(v, real=True, structure=structure))
+        self.mps = self.recorded(-1)
         return self
 
     def edint(self, T):
-- 
2.43.0


From 7cba0844aa71b46ef797f4e3920787746c458a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 32/80] fix: match_gauge_to keeps the state canonical

---
 xmps/fMPS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 896b848..62aa82a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1279,8 +1279,10 @@ class fMPS(object):
            match from one timestep to the next makes trajectories continuous.
         """
         for i in reversed(range(self.L)):
-            S = sum(self[i]@cT(mps[i]), axis=0)
-            U, P = polar(S)
+            S = diag(sum(self[i]@cT(mps[i]), axis=0))
+            # diagonal phases: anything else takes mps out of canonical form
+            U = identity(self[i].shape[1])*(1+0j)
+            U[range(len(S)), range(len(S))] = np.exp(1j*np.angle(S))
             self[i] = cT(U)@self[i]
 
             if 0 < i:
-- 
2.43.0


From 019514c1a7aa545bc8629c250c2cb16d04dbb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 33/80] fix: lyapunov: running means start from one value per
 exponent

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 4d2e0d5..0d97df2 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -330,10 +330,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(len(Q))]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(len(Q))]
 
         self.vs = []
 
-- 
2.43.0


From 8ef9eaedb944a2451a998359e2c72c83af5db191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 34/80] fix: save, stop and resume of finite trajectories

---
 xmps/fTDVP.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0d97df2..37f718b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -67,6 +67,7 @@ class Trajectory(object):
         self.structures = []
         self.run_name = run_name
         self.continuous = continuous
+        self.has_run_lyapunov = False
 
     def record(self, mps):
         """record: add mps to the history
@@ -557,7 +558,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
@@ -585,8 +586,8 @@ class Trajectory(object):
         name = 'L{}_D{}_N{}'.format(
             self.mps.L, self.mps.D, len(self.mps_history))
 
-        self.mps.store(os.path.join(run_dir, name+'_state'))
-        self.mps_0.store(os.path.join(run_dir, name+'_initial_state'))
+        self.mps.store(os.path.join(run_dir, name+'_state'), structured=True)
+        self.mps_0.store(os.path.join(run_dir, name+'_initial_state'), structured=True)
 
         with open(os.path.join(run_dir, name+'_ham'), 'wb') as f:
             pickle.dump(self.H, f)
@@ -612,6 +613,29 @@ class Trajectory(object):
         self.run_dir = run_dir+'_'+str(n)
         istate, state = sorted(
             glob.glob(os.path.join(self.run_dir, '*state*')))
+        self.run_name = run_name
+        self.mps_0 = fMPS().load(istate, structured=True)
+        self.mps = fMPS().load(state, structured=True)
+        self.Ds = [self.mps.D]
+
+        def find(name):
+            return glob.glob(os.path.join(self.run_dir, '*'+name))
+
+        for attr, name in (('H', '_ham'), ('W', '_mpo'), ('vL', '_vL')):
+            for filename in find(name):
+                with open(filename, 'rb') as f:
+                    setattr(self, attr, pickle.load(f))
+        if hasattr(self, 'vL'):
+            self.mps.old_vL = self.vL
+
+        if lys:
+            for attr, name in (('lys', '_inst_exps.npy'),
+                               ('lys_', '_inst_exps_.npy'),
+                               ('Q', '_basis.npy')):
+                for filename in find(name):
+                    setattr(self, attr, load(filename))
+                    self.has_run_lyapunov = True
+        return self
 
     def copy(self):
-        return copy(self)
+        return deepcopy(self)
-- 
2.43.0


From 5f1a769d0aab6ab86bfbbd8f724bb584b768a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 35/80] fix: dynamical_expand of a trajectory uses the
 hamiltonian it is given

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 37f718b..78e3c2b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -188,7 +188,7 @@ class Trajectory(object):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
+        self.mps.dynamical_expand(H, dt, D, None)
         self.Ds[-1] = D
         return self
 
-- 
2.43.0


From 58dd5ba0e8b87e95015ec6ac7531b6a10081a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 36/80] fix: entropy of trajectories with vanishing Schmidt
 values

---
 xmps/fTDVP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 78e3c2b..293d724 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -525,7 +525,8 @@ class Trajectory(object):
         return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
-        sch = self.schmidts()
+        # values at or (by rounding) below zero contribute nothing
+        sch = [[s[s > 0] for s in S] for S in self.schmidts()]
         if i is not None:
             return array([-re(S[i]@log(S[i])) for S in sch])
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
-- 
2.43.0


From e98dea97f534f308518844a5ee8212b83119466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 37/80] fix: Hamiltonian leaves the caller's strings alone

---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..a4b0b1b 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -17,15 +17,15 @@ class Hamiltonian(object):
        otherwise 'IX' 'YI' etc."""
 
     def __init__(self, strings=None, matrices=None, d=2):
+        self.d = d # local hilbert space dimension
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings)
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
                     self.strings.pop(key)
         if matrices is not None:
-            self.d = d # local hilbert space dimension
             self.matrices = matrices
 
     @property
-- 
2.43.0


From 86deb91699c7835a470e0de2820cfdc804b8155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 38/80] fix: Hamiltonian.from_matrix

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index a4b0b1b..3a3943c 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From efdb35bf4fc2d84637a1c7ba4522170d8f2ba539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 39/80] fix: Hamiltonian.to_matrices for two sites

---
 xmps/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 3a3943c..84aa723 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,8 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            # both sites are ends
+            return [self.to_matrix()]
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From 0aa5a1532db73bd5bf27a5d462e79bc8aa299f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 40/80] fix: Hamiltonian.to_full

---
 xmps/Hamiltonians.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 84aa723..ad07156 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -40,9 +40,9 @@ class Hamiltonian(object):
     def k(self):
         if self.has_matrices:
             dk = self.matrices[0].shape[0]
-            k = math.log(dk, self.d)
-            assert np.allclose(k, int(k))
-            return int(k)
+            k = round(math.log(dk, self.d))
+            assert self.d**k == dk
+            return k
     @property
     def L(self):
         if not self.has_matrices:
@@ -133,11 +133,12 @@ class Hamiltonian(object):
         if not self.has_matrices:
             if self.has_strings:
                 assert L is not None
-                self.matrices = self.to_matrices(L)
+                return Hamiltonian(matrices=self.to_matrices(L)).to_full()
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-            total = np.zeros((2**self.L, 2**self.L))*1j
+            d, I = self.d, np.eye(self.d)
+            total = np.zeros((d**self.L, d**self.L))*1j
             for i, matrix in enumerate(self.matrices):
                 total += reduce(np.kron, [I]*i+[matrix]+[I]*(self.L-self.k-i))
             return total
-- 
2.43.0


From 2dde3cbf3db29c56a1a43e3b933e1d2a75bacf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 41/80] fix: swap_antisymmetrise and is_swap_symmetric

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b2d4472 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(swap_antisymmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From 506b937b5ede06a001816fa4b062955f2695232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 42/80] fix: local unitaries U1 and U2

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b2d4472..5efe3e3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From cc8d3fb05a9a68657241c67b1de87a1bf006b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 43/80] fix: normalisation of m_z in ferro

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 5efe3e3..c1f68b3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -496,7 +496,7 @@ def ferro():
     zp2, zm2 = (0.5*eye(4)+Sz2), (0.5*eye(4)-Sz2)
     m_x = (sp1@sp2 + sm1@sm2)
     m_y = 1j*(sp1@sp2-sm1@sm2)
-    m_z = (Sz1+Sz2)/2
+    m_z = (Sz1+Sz2)
     return array([m_x, m_y, m_z])
 
 def locals():
-- 
2.43.0


From 7252371ffd5812b1b44e38fd3ffafa3c8e0da7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 44/80] fix: n_body counts sites and refuses sites off the
 chain

---
 xmps/spin.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index c1f68b3..d7a4e0d 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -131,20 +131,22 @@ def n_body(op, i, n, d=None):
     """n_body: n_body versions of local operator
 
     :param op: operator to tensor into chain of identities
-    :param i: site for operator. 1-indexed
-    :param n: length of chain
+    :param i: site for operator. 1-indexed. If d is given: first site of op, 0-indexed
+    :param n: length of chain. If d is given: number of bonds of the chain
     :param d: local dimension of identities to tensor. If None, use size of op
     """
     i = i-1
     if d is None:
+        if not 0 <= i < n:
+            raise Exception("i must be in 1..n")
         d = op.shape[0]
         l = [identity(d)*(1-m) + op*m for m in map(lambda j: int(not i-j), range(n))]
     else:
-        l = [identity(d) for _ in range(n+1-int(logd(op.shape[0], d)))]
+        l = [identity(d) for _ in range(n+1-int(round(logd(op.shape[0], d))))]
+        if not 0 <= i+1 <= len(l):
+            raise Exception("operator does not fit in the chain")
         l.insert(i+1, op)
         #l = [op if j==i else identity(d) for j in range(n-int(logd(op.shape[0], d)))]
-    if not i < n:
-        raise Exception("i must be less than n")
     return tensor(l)
 
 def spins(S):
-- 
2.43.0


From 379923cd0163d9153895d7195595e844884817f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 45/80] fix: spinHamiltonians

---
 xmps/spin.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index d7a4e0d..c285bc3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -318,14 +318,20 @@ def pCR(Sx, Sy, Sz):
                                            tensordot(2*eps[i, j, :]*1j, S, [0, 0]))
     return satisfied   
 
-def spinHamiltonians(object):
+class spinHamiltonians(object):
     """1d spin Hamiltonians"""
-    def __init__(self, S, finite=True):
-        """__init__"""
+    def __init__(self, S, finite=True, N=2):
+        """__init__
+
+        :param S: spin
+        :param finite: list of terms for a chain of N sites, else one bulk term
+        :param N: length of finite chain
+        """
         self.Sx = lambda i:   N_body_spins(S, i, 2)[0] 
         self.Sy = lambda i:   N_body_spins(S, i, 2)[1]
         self.Sz = lambda i:   N_body_spins(S, i, 2)[2] 
         self.finite = finite
+        self.N = N
 
     def nn_general(self, Jx, Jy, Jz, hx, hy, hz):
         """nn_general: nn spin model with all nn couplings (Jx, Jy, Jz)
@@ -337,10 +343,7 @@ def spinHamiltonians(object):
                  Jz * Sz(1) @ Sz(2) + \
                  hx * Sx(1) + \
                  hy * Sy(1) + \
-                 hz * Sz(1) + \
-                 hx * Sx(2) + \
-                 hy * Sy(2) + \
-                 hz * Sz(2)
+                 hz * Sz(1)
 
         if self.finite:
             N = self.N
@@ -366,7 +369,7 @@ def spinHamiltonians(object):
     def XY(self, gamma):
         """XY: H = -\sum_{i} [(1+gamma) S_{i}^x S_{i+1}^x + (1-gamma) S_{i}^y S_{i+1}^y]
         """
-        return self.nn_general(1+gamma, 1-gamma, 0, 0, 0, 0)
+        return self.nn_general(-(1+gamma), -(1-gamma), 0, 0, 0, 0)
 
     def XXZ(self, J, delta):
         """XXZ: H = \sum_{i} J (S^x_{i} S^x_{i+1} + S^y_{i} S^y_{i+1}) + \Delta S^z_{i} S^z_{i+1}
@@ -379,12 +382,14 @@ def spinHamiltonians(object):
         return self.nn_general(0, 0, -l, -1, 0, 0)
 
     def AKLT(self):
-        SS = self.heisenberg_antiferromagnet(1)
+        Sx, Sy, Sz = self.Sx, self.Sy, self.Sz
+        SS = Sx(1) @ Sx(2) + Sy(1) @ Sy(2) + Sz(1) @ Sz(2)
+        h_bulk = 1/2 * SS + 1/6 * SS@SS + 1/3 * eye(len(SS))
         if not self.finite:
-            return 1/2 * SS + 1/6 * SS@SS  + 1/3
+            return h_bulk
         else:
             N = self.N
-            return [1/2*SS + 1/6 * SS@SS + 1/3]*(N-1)
+            return [h_bulk]*(N-1)
 
 # From here on out it's Lie algebraish
 def lambdas(S=0.5):
-- 
2.43.0


From 43d3cd6db242c755671b6fd2939d18adff93ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 46/80] fix: equal_up_to_phase of matrices with a vanishing
 corner

---
 xmps/spin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index c285bc3..85ea839 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -608,7 +608,8 @@ def components(Q):
     return np.array(v)
 
 def equal_up_to_phase(U, V, p=False):
-    U_, V_ = U*np.exp(-1j*np.angle(U[0, 0])), V*np.exp(-1j*np.angle(V[0, 0]))
+    i = np.unravel_index(np.argmax(np.abs(U)), U.shape)
+    U_, V_ = U*np.exp(-1j*np.angle(U[i])), V*np.exp(-1j*np.angle(V[i]))
     if p: print(U_, V_)
     return np.allclose(U_, V_,)
 
-- 
2.43.0


From 0bc9fd295cc4bbfb62c516717ec2fa6fc827c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 47/80] fix: ladder operators of spins above 3/2

---
 xmps/spin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/spin.py b/xmps/spin.py
index 85ea839..a9336e9 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -249,6 +249,8 @@ def ladders(S):
                               [sqrt(3) , 0 , 0       , 0],
                               [0       , 2 , 0       , 0],
                               [0       , 0 , sqrt(3) , 0]])
+        Sx, Sy, _ = spins(S)
+        return (Sx + pm*1j*Sy).real
     return [ladder(S, pm) for pm in [-1, 1]]
 
 def paulis(S):
-- 
2.43.0


From a25ef12b4e10028ad3e4c6392db63ac0f537fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 48/80] fix: direct_sum of rectangular matrices

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 4727252..c0a5060 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -81,8 +81,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From b84dc22e79323eadb648953525805537d22981c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 49/80] fix: partial trace of an outer product with an array of
 kept sites

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index c0a5060..1d39053 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -130,7 +130,7 @@ def ρA(u, keep, dims, optimize=False):
     ρ_a : 2D array
         Traced matrix
     """
-    if not keep:
+    if len(keep) == 0:
         return np.outer(u, u.conj())
     keep = np.asarray(keep)
     dims = np.asarray(dims)
-- 
2.43.0


From b4f47abefd8ab22143b4bdfeba32c77a55ccb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 50/80] fix: lanczos_expm fallback passed the time as the start
 of an interval

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 1d39053..083f950 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -31,7 +31,7 @@ try:
         return output_vec
 except:
     def lanczos_expm(A, v, t):
-        return expm_multiply(A, v, t)
+        return expm_multiply(A*t, v)
 
 def embed(v):
     '''put matrix in form
-- 
2.43.0


From 8a627fe6062bad601406d768d75aa2dbde3cad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 51/80] fix: three site index grouping swapped factors and
 assumed qubits

---
 xmps/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 083f950..d38232d 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -412,7 +412,7 @@ def loc_3(rs, tu, vw, d):
     v, w = vw
     t, u  = tu
 
-    index = (d**2*r + d*v+t, d**2*s + d*w + u)
+    index = (d**2*r + d*t + v, d**2*s + d*u + w)
     return index
 
 def split_up_3(H, d):
@@ -423,7 +423,7 @@ def split_up_3(H, d):
                 for l in range(d):
                     for m in range(d):
                         for n in range(d):
-                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), 2)]
+                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), d)]
     return h
 
 def split_up(H, d=None, p=None, q=None):
-- 
2.43.0


From 19ab516326d6c0a21aa0be40e29b467d355c5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 52/80] fix: ncon extended the caller's contraction order

---
 xmps/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..b06122b 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order)  # it is extended below
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 648cce402cfb6d518789e792cfe9bb4bdce15130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 53/80] fix: svd fallback overwrote its input after gesdd
 failed

---
 xmps/svd_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/svd_robust.py b/xmps/svd_robust.py
index 5df6eb8..c7aca70 100644
--- a/xmps/svd_robust.py
+++ b/xmps/svd_robust.py
@@ -121,7 +121,7 @@ def svd(a,
             if warn:
                 warnings.warn("SVD with lapack_driver 'gesdd' failed. Use backup 'gesvd'",
                               stacklevel=2)
-            pass
+            overwrite_a = False  # ignored for 'gesdd', also when falling back
     if lapack_driver not in ['gesdd', 'gesvd']:
         raise ValueError("invalid `lapack_driver`: " + str(lapack_driver))
     # 'gesvd' lapack driver
-- 
2.43.0


From ce59436af31da4d4129a6d32d0168d45a8dd4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 54/80] fix: fPEPS from tensors exchanged its width and height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..9fda194 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
-- 
2.43.0


From 964bd9370ba0f137728f0e0fea24527b33b941c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 55/80] fix: PEPS truncations took width for height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 9fda194..7ce3834 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From 3275687a38b53446e31d89152375b6905b29d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 56/80] fix: col_mpos ignored the other state

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 7ce3834..2f955cc 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -364,7 +364,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(None if other is None else other.T)
 
     @property
     def T(self):
-- 
2.43.0


From 8084384bd493ba313831164e4d8a48b6cb601a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 57/80] fix: row_snake recombination contracted odd rows with
 reversed bonds

---
 xmps/fPEPS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 2f955cc..c52fc71 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -654,8 +654,11 @@ class fPEPS(object):
                 if i % 2 == 0:
                     cols.append(reduce(row_contract, row))
                 else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
+                    # walk this row backwards, its bonds stay in reading order
+                    r = reduce(row_contract, row)
+                    ds, n = [x.shape[0] for x in row], len(row)
+                    cols.append(r.reshape(*ds, *r.shape[1:]).transpose(
+                        [*reversed(range(n)), n, n+1, n+2, n+3]).reshape(r.shape))
             res = reduce(col_contract, cols)
             return np.squeeze(res)
 
-- 
2.43.0


From 7bd40f4aa566543b04f98b49f22eb919997b5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 58/80] fix: patch expectation values take their operator in
 reading order

---
 xmps/fPEPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c52fc71..ad8431f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -346,7 +346,8 @@ class fPEPS(object):
         '''sites as a pair, coords_of_top_left, width_height,
             contracts rows of peps that sites covers'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        # rows last: the grouped physical index is in reading order
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
@@ -1290,7 +1291,7 @@ def test_rho(N):
         for wh in product(range(1, 4), range(1, 4)):
             where = (loc, wh)
             ρ = x.rho(where)
-            assert np.allclose(x.E_k(reduce(np.kron, ρ.reshape(-1, 2, 2)), where), 1) # expectation of rhos is 1
+            assert np.allclose(x.E_k(reduce(np.kron, ρ.swapaxes(0, 1).reshape(-1, 2, 2)), where), 1) # expectation of rhos is 1
 
 def test_E_k(N):
     L = 4
-- 
2.43.0


From e3ce9c8aa518c04c01ba00b6a5c454b8eedf6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 59/80] fix: evolution of thermofield doubles paired the wrong
 sites

---
 xmps/fMPS.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 62aa82a..3d3121b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2184,9 +2184,15 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        def both(h):
+            # h on both copies: sites carry (copy 1, copy 2), kron of whole terms has all of copy 1 first
+            d = int(round(sqrt(self.d)))
+            k = int(round(np.log(h.shape[0])/np.log(d)))
+            order = [i+j*k for i in range(k) for j in range(2)]
+            h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+            return h_.reshape([d]*4*k).transpose(order+[2*k+i for i in order]).reshape(h_.shape)
+        H_ = both(H) if fullH else [both(h) for h in H]
+        return super().dA_dt(H_, fullH=fullH)
 
     def E(self, op, site, lr=0):
         """E: one site expectation value
-- 
2.43.0


From 21cc0224236e08aef554a12c9294bc1277725b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 60/80] fix: local overlaps of thermofield doubles always
 raised

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3d3121b..1638bf6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2130,14 +2130,14 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS) or isinstance(other, fTFD):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
         if double:
             return self.E_k([np.kron(ρ, ρ) for ρ in other.rho(sites)], sites, single_string=True)
         else:
-            return self.E_k([np.kron(np.eye(2), ρ) for ρ in other.rho(sites)], sites, single_string=True)
+            return self.E_k([np.kron(np.eye(len(ρ)), ρ) for ρ in other.rho(sites)], sites, single_string=True)
 
 
     def symmetry(self):
-- 
2.43.0


From b1bfb8e17e4d205a9ecde7ca374774e474add196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 61/80] fix: the copy of a thermofield double was a plain chain

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1638bf6..ab7d89a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -931,7 +931,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)(self.data.copy())
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From ab79433a5dc1cb0410305f89309118b7ac3bd03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 62/80] fix: right null projector off canonical form

---
 xmps/fMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ab7d89a..4f12e7d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1941,10 +1941,11 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
+            R_ = sw(c(self[n]@ch(r(n))), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        B = vR@inv(ch(r(n)))
+        pr = ncon([B, c(B)], [[-1, 1, -2], [-3, 1, -4]])
         if get_vR:
             return pr, vR
         return pr
-- 
2.43.0


From 8650ae69a4a21ec14da7ba033fd53a2f30bd2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 63/80] fix: projection error was measured in the wrong metric

---
 xmps/fMPS.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 4f12e7d..7cb19f6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1095,33 +1095,23 @@ class fMPS(object):
         :param H: hamiltonian
         :param dt: time step
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        dA_dt = self.dA_dt(H, True)
-        l, r = self.l, self.r
-        def vR(n): return self.right_null_projector(n, r, True)[1]
+        L, d, A = self.L, self.d, self.data
+        l, r = self.get_envs(True)
+        # bases of the complement of the tangent space, orthonormal in the environments
+        def BL(n): return inv(cT(ch(l(n-1))))@self.left_null_projector(n, l, True)[1]
+        def BR(n): return self.right_null_projector(n, r, True)[1]@inv(ch(r(n)))
 
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
             C = ncon([H[m]]+[l(m-1)@A[m], A[m+1]@r(m+1)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            return ncon([c(vL(m)), c(vR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
+            return ncon([c(BL(m)), c(BR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
 
         ε = 0
         for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
             _, Dm_2 = self.structure()[m+1]
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
                 continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            U, s, V = tr_svd(G(m), d*D-D)
-
-            x, y = U@sqrt(s), sqrt(s)@V
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
-
-            ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
-
-            ## left environments change as we move along the chain
-            # this is a hack because I used lambdas for the envs in vL etc.
-            ln = sum(cT(A[m])@l(m-1)@A[m], 0)
-            def l(n): return ln
+            ε += dt**2*norm(G(m))**2
         self.ε = ε # store last projection error on mps
         return ε
 
-- 
2.43.0


From f52d6cde7159e939b1a64af7b6c11d695a7fc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 64/80] fix: growing the bond dimension was not a step of the
 evolution

---
 xmps/fMPS.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7cb19f6..224a405 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1137,33 +1137,40 @@ class fMPS(object):
         :param D_: new bond dimension
         :param threshold: by default will expand if no need to, else add threshold
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        def vR(n): return self.right_null_projector(n, r, True)[1]
-
-        H = [h.reshape(*[self.d]*4) for h in H]
-        def G(m):
-            return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
-                        [[2, 1, 4], [6, 4, 8], [3, 6, 2, 7], [3, 1, -1], [7, -2, 8]])
+        L, d, A = self.L, self.d, self.data
 
         if threshold is not None:
             if self.projection_error(H, dt) < threshold:
                 return self
 
+        dA_dt = self.dA_dt(H)
+        l, r = self.l, self.r
+        # bases of the complement of the tangent space, orthonormal in the environments
+        def BL(n): return inv(cT(ch(l(n-1))))@self.left_null_projector(n, l, True)[1]
+        def BR(n): return self.right_null_projector(n, r, True)[1]@inv(ch(r(n)))
+
+        H = [h.reshape(*[self.d]*4) for h in H]
+        def HAA(m):
+            return ncon([H[m], A[m], A[m+1]], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
+
+        # the step within the manifold; the new bonds are filled with the part outside
+        A_ = [A[m]+dt*dA_dt[m] for m in range(L)]
         for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
             _, Dm_2 = self.structure()[m+1]
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
                 continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            dA_dt = self.dA_dt(H)
-            l, r = self.l, self.r
-
-            U, s, V = tr_svd(G(m), D_-D)
+            C = l(m-1)@HAA(m)@r(m+1)
+            G = ncon([c(BL(m)), c(BR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
+            U, s, V = tr_svd(G, max(D_-Dm_1, 0))
             x, y = U@sqrt(s), sqrt(s)@V
             self.xy = x, y
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+            dA01, dA10 = sqrt(dt)*BL(m)@x, -1j*sqrt(dt)*y@BR(m+1)
 
-            A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
+            # A_[m] may already have new rows
+            dA01 = ct([dA01, zeros((d, A_[m].shape[1]-Dm, dA01.shape[2]))], 1)
+            A_[m], A_[m+1] = ct([A_[m], dA01], 2), ct([A_[m+1], dA10], 1)
 
+        self.data = A_
         self.D = max([max(shape) for shape in self.structure()])
         self.oc = None # the expanded state is not canonical
 
-- 
2.43.0


From a005fa38c464f4760b07c4cf18d29f7feea8880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 65/80] fix: tangent_state without a given null basis raised

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 224a405..40cb782 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1949,7 +1949,7 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
+        vL = self.left_null_projector(n, l, get_vL=True)[1] if vL is None else vL
         return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
-- 
2.43.0


From 1efefaf7713370df6c2e0e8ff36141fa13fed68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 66/80] fix: vfMPS(data, d) kept no data

---
 xmps/fMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 40cb782..66eb0d0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2214,13 +2214,14 @@ class vfMPS(object):
     def __init__(self,  data=None, d=None):
         """__init__
 
-        :param data: matrices in form [(Gamma, Lambda)]
+        :param data: matrices in form [(Lambda, Gamma)], as from_fMPS
         :param d: local state space dimension
         """
         if data is not None and d is not None:
             self.L = len(data)
             self.d = d
-            self.D = max([datum[0][0].shape for datum in data])
+            self.D = max([len(datum[0]) for datum in data])
+            self.data = data
 
     def from_fMPS(self, fMPS):
         """from_fMPS: convert a normal form fMPS to vidal form
-- 
2.43.0


From 9031ff8bf3d65518ba7e23515263d3ef7c75475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 67/80] fix: AKLT() was not the AKLT state (weight of its
 middle tensor)

---
 xmps/mps_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..dc2e5c4 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -133,10 +133,10 @@ def i_cat(ϵ = 1e-2):
 def AKLT():
     """AKLT"""
     sx, sy, sz = spins(0.5)
-    sp, sm = ladders(0.5)
+    sm, sp = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From 4d4388a2cc7bd68c8a91ab337d2c70da003fac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 68/80] fix: is_left_env_canonical did not look at the last
 tensor

---
 xmps/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tests.py b/xmps/tests.py
index 15e518c..445743f 100644
--- a/xmps/tests.py
+++ b/xmps/tests.py
@@ -79,7 +79,7 @@ def is_left_env_canonical(mats, sings):
     """
     Ls = [tensordot(dot(A, L), H(A), [[0, -1], [0, 1]])
             for (A, L) in zip(mats, sings[1:])]
-    close = array([allclose(l, x) for l, x in zip(Ls[:-1], sings[:-1])])
+    close = array([allclose(l, x) for l, x in zip(Ls, sings[:-1])])
     return close.all()
 
 def is_full_rank(sings):
-- 
2.43.0


From 6e5e23eeefa23a54649ccf80699df492254243ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 69/80] fix: qmb: keep qutip's tensor from being replaced by
 spin's

---
 xmps/qmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/qmb.py b/xmps/qmb.py
index 329aa4b..f99973a 100644
--- a/xmps/qmb.py
+++ b/xmps/qmb.py
@@ -1,11 +1,11 @@
 '''n_body versions of local operators'''
 import unittest
-from qutip import sigmam, sigmap, sigmax, sigmay, sigmaz, tensor, qeye
+from spin import *
+from qutip import sigmam, sigmap, sigmax, sigmay, sigmaz, tensor, qeye # not spin's tensor
 from numpy import swapaxes, array, identity, allclose, sqrt, zeros, reshape
 from numpy import tensordot
 from itertools import product
 from numpy.random import randn, rand
-from spin import *
         
 
 def S_n_body(op, i, n, tensorise=True):
-- 
2.43.0


From 485e9ae3e9accf25c8a5322e114897b38a266c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 70/80] fix: qmb: anisotropic_heisenberg_mpo defines the
 matrices it uses

---
 xmps/qmb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/qmb.py b/xmps/qmb.py
index f99973a..6b83645 100644
--- a/xmps/qmb.py
+++ b/xmps/qmb.py
@@ -49,6 +49,8 @@ def Sz(i, n, tensorise=True):
 def anisotropic_heisenberg_mpo(h, J, Jz, N):
     """anisotropic_heisenberg_mpo: an_heis as a matrix product operator
     """
+    sp, sm, sz = sigmap().full(), sigmam().full(), sigmaz().full()
+    I, O = identity(2), zeros((2, 2))
     first = array([[-h*sz, J/2*sm, J/2*sp, Jz*sz, I]])
     bulk = array([[I, O, O, O, O],
                   [sp, O, O, O, O],
-- 
2.43.0


From a5aae025265fade9433bd46d1bd787d5605ff088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 71/80] fix: projects.fTFD: E and Es apply the operator, not
 its transpose

---
 xmps/projects/fTFD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index d45c0c2..364a496 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -136,12 +136,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op)))
         M = self.mixed_canonicalise(site)[site]
-        return trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
 
     def Es(self, ops, site):
         ops = [kron(op, eye(len(op))) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return [trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return [trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops]
 
 class testfTFD(unittest.TestCase):
-- 
2.43.0


From 97c9bab92589f4da322cee3cb1cc7b4e52b829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 72/80] fix: projects.fTFD: null projector uses the conjugate
 of the root it divided by

---
 xmps/projects/fTFD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index 364a496..daed22b 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -118,7 +118,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        B = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([B, c(B)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From 6d0746a6fc6fc88498286df2866e26afe9133078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 73/80] fix: projects.fTFD: dA_dt acts on the sites in their
 own order

---
 xmps/projects/fTFD.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index daed22b..46d49ea 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -5,7 +5,7 @@ from xmps.ncon import ncon
 from numpy.random import randint, randn
 from numpy import kron, swapaxes as sw, eye, transpose as tra, sqrt
 from numpy import allclose, linspace, load, real as re, sum
-from numpy import tensordot, trace, dot
+from numpy import tensordot, trace, dot, log
 from scipy.linalg import norm, null_space as null, inv, cholesky as ch
 from scipy.linalg import block_diag as bd
 from xmps.tensor import H as cT, C as c
@@ -125,9 +125,15 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        def both(h):
+            # h on both copies: sites carry (copy 1, copy 2), kron of whole terms has all of copy 1 first
+            d = int(round(sqrt(self.d)))
+            k = int(round(log(h.shape[0])/log(d)))
+            order = [i+j*k for i in range(k) for j in range(2)]
+            h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+            return h_.reshape([d]*4*k).transpose(order+[2*k+i for i in order]).reshape(h_.shape)
+        H_ = both(H) if fullH else [both(h) for h in H]
+        return super().dA_dt(H_, fullH=fullH)
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From 5637d57c92c8e6bd4270e8932e9afb454730dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 74/80] fix: infinite left environment solved to a relative
 tolerance, whatever the energy scale

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 545ecd6..da7c652 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -593,7 +593,7 @@ class iMPS(object):
         if method == 'krylov':
             # the equation is linear in K
             op = LinearOperator((D**2, D**2), matvec=lambda K: LHS(K.reshape(D, D)).reshape(-1), dtype=complex)
-            K = gmres(op, RHS().reshape(-1), rtol=tol, atol=tol)[0].reshape(D, D)
+            K = gmres(op, RHS().reshape(-1), rtol=tol, atol=0)[0].reshape(D, D)
         else:
             K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
             K0 = concatenate([real(K0), imag(K0)])
-- 
2.43.0


From 8ee01607d327fa247eee2eabf03d76d81f6abcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 75/80] fix: relative tolerance when cleaning environments

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 66eb0d0..d483dee 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -804,7 +804,7 @@ class fMPS(object):
         def clean(env):
             # drop the rounding errors off the diagonal, if that is all there is
             diagonal = diag(diag(re(env)))
-            return diagonal if allclose(env, diagonal) else env
+            return diagonal if allclose(env, diagonal, atol=1e-8*np.abs(env).max()) else env
 
         def get_l(mps):
             ls = [array([[1]])]
-- 
2.43.0


From e9b4aa0630cd53b4e3c2fa4e40f18130bf925605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 76/80] fix: keep small couplings

---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index ad07156..8f2372c 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -2,7 +2,7 @@ import math
 from functools import reduce
 from itertools import product
 from .spin import paulis
-from numpy import zeros, kron, trace, eye, allclose
+from numpy import zeros, kron, trace, eye
 import numpy as np
 
 Sx, Sy, Sz = paulis(0.5)
@@ -53,7 +53,7 @@ class Hamiltonian(object):
         return str(self.strings)
 
     def _squeeze(self):
-        self.strings = {key:val for key, val in self.strings.items() if not allclose(val, 0)}
+        self.strings = {key:val for key, val in self.strings.items() if val != 0}
         return self
 
     def to_matrix(self):
-- 
2.43.0


From 682969f3e97413ad481348ad555189626522eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 77/80] fix: random forgets the orthogonality centre of the
 previous state

---
 xmps/fMPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d483dee..683a002 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -408,6 +408,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
+        self.oc = None # of whatever state was here before
         if D == 1 and d == 2:
             self.D = 1
             self.canonical = False
-- 
2.43.0


From 172de35e423c6db7d1c18f64ba5e6740e2df1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:25 +0000
Subject: [PATCH 78/80] fix: random forgets the orthogonality centre of the
 previous peps

---
 xmps/fPEPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index ad8431f..8e1ce30 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -630,6 +630,7 @@ class fPEPS(object):
         shapes = self.create_structure(Lx, Ly, d, X)
         self.data = [[np.random.randn(*shape)+1j*np.random.randn(*shape) for shape in row]
                      for row in shapes]
+        self.__dict__.pop('oc', None)  # a centre the old tensors had
         return self
 
     def normalise(self):
-- 
2.43.0


From 9f29cc174a3b55ad2ce8ce3786007373b45fa838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 79/80] fix: density matrices of unnormalised product states

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 683a002..949bb7c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -995,7 +995,7 @@ class fMPS(object):
         :param single_string: whether to return a list of density matrices if D=1
         '''
         if self.bond_dimension == 1 and single_string:
-            return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
+            return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]])/norm(self[i].reshape(-1))**2 for i in sites]
         else:
             if not hasattr(self, 'oc') or self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
-- 
2.43.0


From e5f02dbc95d0a6fcf97b92120fd453f2326f8b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:01 +0000
Subject: [PATCH 80/80] fix: stopped runs with similar names or more than nine
 runs

---
 xmps/fTDVP.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 293d724..5c3e2ac 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -44,6 +44,11 @@ Sx1, Sy1, Sz1 = N_body_spins(0.5, 1, 2)
 Sx2, Sy2, Sz2 = N_body_spins(0.5, 2, 2)
 
 
+def run_numbers(run_dir):
+    """run_numbers: n of every folder run_dir_n there is"""
+    ns = [x[len(run_dir)+1:] for x in glob.glob(glob.escape(run_dir)+'_*')]
+    return [int(n) for n in ns if n.isdigit()]
+
 class Trajectory(object):
     """Trajectory"""
 
@@ -571,17 +576,11 @@ class Trajectory(object):
         """
         assert not self.fullH
         assert hasattr(self, 'W')
-        # make directories - doesn't work if more runs than 10
-        # shouldn't be doin more runs than 10
-        # careful that there are no files with run name in the folder
+        # make directories
         run_dir = os.path.join(loc, self.run_name)
-        if not run_dir in map(lambda x: x[:-2], glob.glob(run_dir+'_*')):
-            run_dir = run_dir+'_1'
-            os.makedirs(run_dir)
-        else:
-            n = max(list(map(lambda x: int(x[-1]), glob.glob(run_dir+'_*'))))
-            run_dir = run_dir+'_'+str(n+1)
-            os.makedirs(run_dir)
+        n = max([0]+run_numbers(run_dir))
+        run_dir = run_dir+'_'+str(n+1)
+        os.makedirs(run_dir)
 
         self.run_dir = run_dir
         name = 'L{}_D{}_N{}'.format(
@@ -610,17 +609,17 @@ class Trajectory(object):
         run_dir = os.path.join(loc, run_name)
         # resume the most recent run if not specified
         if n is None:
-            n = max(list(map(lambda x: int(x[-1]), glob.glob(run_dir+'_*'))))
+            n = max(run_numbers(run_dir))
         self.run_dir = run_dir+'_'+str(n)
         istate, state = sorted(
-            glob.glob(os.path.join(self.run_dir, '*state*')))
+            glob.glob(os.path.join(glob.escape(self.run_dir), '*state*')))
         self.run_name = run_name
         self.mps_0 = fMPS().load(istate, structured=True)
         self.mps = fMPS().load(state, structured=True)
         self.Ds = [self.mps.D]
 
         def find(name):
-            return glob.glob(os.path.join(self.run_dir, '*'+name))
+            return glob.glob(os.path.join(glob.escape(self.run_dir), '*'+name))
 
         for attr, name in (('H', '_ham'), ('W', '_mpo'), ('vL', '_vL')):
             for filename in find(name):
-- 
2.43.0

