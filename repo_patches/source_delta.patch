From 2f1c1763f027acb0bf58c03ed69af43f7c471fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:34 +0000
Subject: [PATCH 01/96] fix: 1-d basis caches must not alias the caller's
 arrays

---
 objects/CSCG/base/spaces/_1d_basis/polynomials.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/base/spaces/_1d_basis/polynomials.py b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
index a907ab5..5ac18ed 100644
--- a/objects/CSCG/base/spaces/_1d_basis/polynomials.py
+++ b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
@@ -97,7 +97,7 @@ class _1dPolynomial(FrozenOnly):
         """Return the lagrange polynomials evaluated at ``x``."""
         if x.__class__.__name__ == 'ndarray' and np.shape(x) == np.shape(self._Lb_cache_['x']) and \
                 np.all(self._Lb_cache_['x'] == x):
-            return self._Lb_cache_['cache']
+            return self._Lb_cache_['cache'].copy()
         else:
             p = np.size(self.nodes)
             basis = np.ones((p, np.size(x)))
@@ -107,15 +107,16 @@ class _1dPolynomial(FrozenOnly):
                     if i != j:
                         basis[i, :] *= (x - self.nodes[j]) / (self.nodes[i] - self.nodes[j])
 
-            self._Lb_cache_['x'] = x
-            self._Lb_cache_['cache'] = basis
+            # copies: a later in-place change of x (or of the result) must not alter the cache.
+            self._Lb_cache_['x'] = np.array(x)
+            self._Lb_cache_['cache'] = basis.copy()
             return basis
 
     def edge_basis(self, x):
         """Return the edge polynomials evaluated at ``x``."""
         if x.__class__.__name__ == 'ndarray' and np.shape(x) == np.shape(self._eb_cache_['x']) and \
            np.all(self._eb_cache_['x'] == x):
-            return self._eb_cache_['cache']
+            return self._eb_cache_['cache'].copy()
         else:
             p = np.size(self.nodes) - 1
             derivatives_poly = self._derivative_poly_(p, x)
@@ -123,8 +124,9 @@ class _1dPolynomial(FrozenOnly):
             for i in range(p):
                 for j in range(i + 1):
                     edge_poly[i] -= derivatives_poly[j, :]
-            self._eb_cache_['x'] = x
-            self._eb_cache_['cache'] = edge_poly
+            # copies: a later in-place change of x (or of the result) must not alter the cache.
+            self._eb_cache_['x'] = np.array(x)
+            self._eb_cache_['cache'] = edge_poly.copy()
             return edge_poly
 
     @property
-- 
2.43.0


From 9a9da3a445d3b4fdebdeba4f39d1c36795ba5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 02/96] fix: memoize1 must not return results cached for a
 deleted object

---
 components/decorators/memoize/memoize_1.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/components/decorators/memoize/memoize_1.py b/components/decorators/memoize/memoize_1.py
index 3f1168d..50df909 100644
--- a/components/decorators/memoize/memoize_1.py
+++ b/components/decorators/memoize/memoize_1.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 import functools
+import weakref
 
 
 def memoize1(func):
@@ -17,10 +18,18 @@ def memoize1(func):
     @functools.wraps(func)
     def memoized_func(*args, **kwargs):
         key = str(args) + str(kwargs)
+        owner = args[0] if args else None
+        if key in cache:
+            ref, result = cache[key]
+            # the key only has the address of `owner`, which is reused once `owner` is deleted.
+            if ref is None or ref() is owner:
+                return result
+        result = func(*args, **kwargs)
         try:
-            return cache[key]
-        except KeyError:
-            cache[key] = func(*args, **kwargs)
-            return cache[key]
+            ref = weakref.ref(owner)
+        except TypeError:  # not an address in the key (`None`, numbers, str, list, ...)
+            ref = None
+        cache[key] = (ref, result)
+        return result
 
     return memoized_func
-- 
2.43.0


From 5f840b8e7630bf369d9eb122ba9d2365feb149de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:28 +0000
Subject: [PATCH 03/96] fix: element_at_region_corner must test the requested
 corner

---
 objects/CSCG/_3d/mesh/elements/do/find.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/elements/do/find.py b/objects/CSCG/_3d/mesh/elements/do/find.py
index 8da615d..9529c1d 100644
--- a/objects/CSCG/_3d/mesh/elements/do/find.py
+++ b/objects/CSCG/_3d/mesh/elements/do/find.py
@@ -38,22 +38,22 @@ class _3dCSCG_Mesh_Elements_DO_FIND(FrozenOnly):
         assert which_corner in corner_names, \
             f"which_corner={which_corner} is illegal!"
 
-        if 'N' in corner_names:
+        if 'N' in which_corner:
             id0 = 0
         else:
-            assert 'S' in corner_names
+            assert 'S' in which_corner
             id0 = -1
 
-        if 'W' in corner_names:
+        if 'W' in which_corner:
             id1 = 0
         else:
-            assert 'E' in corner_names
+            assert 'E' in which_corner
             id1 = -1
 
-        if 'B' in corner_names:
+        if 'B' in which_corner:
             id2 = 0
         else:
-            assert 'F' in corner_names
+            assert 'F' in which_corner
             id2 = -1
 
         element_numbering = mesh.___PRIVATE_generate_element_global_numbering___(number_what=region_name)
-- 
2.43.0


From cc95835f7fce8e8a4905bfcdd02188d85175f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 04/96] fix: involved_mesh_boundaries referred to an undefined
 mesh

---
 objects/CSCG/_3d/mesh/elements/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/mesh/elements/main.py b/objects/CSCG/_3d/mesh/elements/main.py
index 2a00dc4..6588044 100644
--- a/objects/CSCG/_3d/mesh/elements/main.py
+++ b/objects/CSCG/_3d/mesh/elements/main.py
@@ -160,7 +160,7 @@ class _3dCSCG_Mesh_Elements(FrozenOnly):
         """{List[str]}: Return a list of mesh boundary names on which local mesh-elements has side.
         """
         if self._involved_mesh_boundaries_ is None:
-            RoES = mesh.boundaries.range_of_element_sides
+            RoES = self._mesh_.boundaries.range_of_element_sides
             _involved_mesh_boundaries_ = list()
             for bn in RoES:
                 if len(RoES[bn]) > 0:
-- 
2.43.0


From 49886ecb458ab31f1c683e53c0c864fb0d6d3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 05/96] fix: numbering queries on a rank without elements
 (SWV0) set an attribute of a frozen mesh

---
 objects/CSCG/_3d/mesh/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/main.py b/objects/CSCG/_3d/mesh/main.py
index c460287..691e06e 100644
--- a/objects/CSCG/_3d/mesh/main.py
+++ b/objects/CSCG/_3d/mesh/main.py
@@ -90,6 +90,7 @@ class _3dCSCG_Mesh(CSCG_MESH_BASE):
         self.___PRIVATE_BASE_analyze_element_distribution___()
 
         self.___character_num_elements___ = dict()
+        self.___have_empty_core___ = dict()
         self.___PRIVATE_generate_element_global_numbering___()
         self.___PRIVATE_optimize_element_distribution___()
 
@@ -270,8 +271,6 @@ class _3dCSCG_Mesh(CSCG_MESH_BASE):
                     NCR = len(cores_for_this_region)
 
                     # !-Once we use _element_distribution_, _element_indices_, or _num_local_elements_, wo do this:   !!
-                    if not hasattr(self, '___have_empty_core___'):
-                        self.___have_empty_core___ = dict()
                     if rn in self.___have_empty_core___:
                         # to make sure that after optimization, character_num_elements does not change
                         have_empty_core = self.___have_empty_core___[rn]
-- 
2.43.0


From 408c6d7c9b64ba50c15404251e13e1a4e599b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 06/96] fix: comparing domains with different parameter sets
 raised KeyError

---
 objects/CSCG/_2d/mesh/domain/main.py | 2 ++
 objects/CSCG/_3d/mesh/domain/main.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/objects/CSCG/_2d/mesh/domain/main.py b/objects/CSCG/_2d/mesh/domain/main.py
index 13c8e20..4619e44 100644
--- a/objects/CSCG/_2d/mesh/domain/main.py
+++ b/objects/CSCG/_2d/mesh/domain/main.py
@@ -35,6 +35,8 @@ class _2dCSCG_Domain(_2dCSCG_DomainBase):
         return self.___define_parameters___
 
     def __eq__(self, other):
+        if self.parameters.keys() != other.parameters.keys():
+            return False
         for key in self.parameters:
             if key in self.domain_input.internal_parameters:
                 pass
diff --git a/objects/CSCG/_3d/mesh/domain/main.py b/objects/CSCG/_3d/mesh/domain/main.py
index c21aaf8..3a52a8f 100644
--- a/objects/CSCG/_3d/mesh/domain/main.py
+++ b/objects/CSCG/_3d/mesh/domain/main.py
@@ -30,6 +30,8 @@ class _3dCSCG_Domain(_3dCSCG_DomainBase):
         return self.___define_parameters___
 
     def __eq__(self, other):
+        if self.parameters.keys() != other.parameters.keys():
+            return False
         for key in self.parameters:
             if key in self.domain_input.internal_parameters:
                 pass
-- 
2.43.0


From c69c0a7d3974b90feb548f05e57e2065f3c3c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 07/96] fix: edge and node elements' CHARACTERISTIC_region used
 a method that does not exist

---
 objects/CSCG/_3d/mesh/edge/elements/element/main.py | 2 +-
 objects/CSCG/_3d/mesh/node/elements/element/main.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/edge/elements/element/main.py b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
index 821d7c4..17f3be8 100644
--- a/objects/CSCG/_3d/mesh/edge/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
@@ -110,7 +110,7 @@ class _3dCSCG_Edge_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this edge element is in this regions."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
 
 
diff --git a/objects/CSCG/_3d/mesh/node/elements/element/main.py b/objects/CSCG/_3d/mesh/node/elements/element/main.py
index d6d897b..0099074 100644
--- a/objects/CSCG/_3d/mesh/node/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/node/elements/element/main.py
@@ -106,5 +106,5 @@ class _3dCSCG_Node_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this node element is in this region."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
-- 
2.43.0


From 1644873a62763756f435b5fa7bb72511a118aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 08/96] fix: metric marks of elements keep relative, not
 absolute, precision

---
 .../element/types_wrt_metric/orthogonal.py       |  9 ++++-----
 .../element/types_wrt_metric/parallelogram.py    |  8 ++------
 .../element/types_wrt_metric/orthogonal.py       |  2 +-
 .../element/types_wrt_metric/orthogonal.py       | 16 +++++++---------
 .../element/types_wrt_metric/orthogonal.py       |  5 ++---
 5 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 37f3883..6b639e4 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -14,13 +14,12 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     @accepts('self', (tuple, list, 'ndarray', 'ndim=1', 'shape=(2)'))
     def __init__(self, LxLy):
         self._LxLy_ = LxLy
-        Lx, Ly = LxLy
-        Lx = round(Lx, 5)
-        Ly = round(Ly, 5)
+        # relative precision: sizes that really differ must never share a mark, no matter how small they are.
+        Lx, Ly = ['%.12g' % L for L in LxLy]
         if Lx == Ly:
-            self._mark_ = 'Orth.{:.4f}'.format(Lx)
+            self._mark_ = f'Orth.{Lx}'
         else:
-            self._mark_ = 'Orth.x{:.4f}y{:.4f}'.format(Lx, Ly)
+            self._mark_ = f'Orth.x{Lx}y{Ly}'
         self._freeze_self_()
 
     # def ___CLASSIFY_mpRfT2_CELL_of_origin_and_delta___(self, origin_and_delta):
diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
index 3f16b20..f9dc9c8 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
@@ -24,13 +24,9 @@ class ParallelogramElement(ElementTypeWr2MetricBase):
         assert 0 < L_angle_U < np.pi, f"L.U angle = {L_angle_U} wrong!"
         assert 0 <= angleL < 2 * np.pi, f" angle L={angleL} must be < 2pi."
 
-        angleL = round(angleL, 6)
-        L = round(L, 6)
-        L_angle_U = round(L_angle_U, 6)
-        U = round(U, 6)
-
+        # relative precision: sizes that really differ must never share a mark, no matter how small they are.
         self._mark_ = 'Parallelogram.' + 'aL{}_L{}_{}_U{}'.format(
-            '%.5f' % angleL, '%.5f' % L, '%.5f' % L_angle_U, '%.5f' % U)
+            '%.12g' % angleL, '%.12g' % L, '%.12g' % L_angle_U, '%.12g' % U)
 
         self._freeze_self_()
 
diff --git a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index e210bd6..f2cc940 100644
--- a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -18,5 +18,5 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         """
         assert len(along) == 1 and along in 'xy', f"along={along} wrong."
         assert isinstance(length, (int, float)) and length > 0, f"length={length} wrong."
-        self._mark_ = f'Orth.{along}' + '{}'.format('%.8f' % length)
+        self._mark_ = f'Orth.{along}' + '%.12g' % length
         self._freeze_self_()
diff --git a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 0ca910c..58cfc5a 100644
--- a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -11,21 +11,19 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     def __init__(self, LxLyLz):
         self._LxLyLz_ = LxLyLz
 
-        Lx, Ly, Lz = LxLyLz
-        Lx = round(Lx, 6)
-        Ly = round(Ly, 6)
-        Lz = round(Lz, 6)
+        # relative precision: sizes that really differ must never share a mark, no matter how small they are.
+        Lx, Ly, Lz = ['%.12g' % L for L in LxLyLz]
 
         if Lx == Ly == Lz:
-            self._mark_ = 'Orth.{}'.format('%.3f' % Lx)
+            self._mark_ = f'Orth.{Lx}'
         elif Lx == Ly:
-            self._mark_ = 'Orth.xy{}z{}'.format('%.4f' % Lx, '%.4f' % Lz)
+            self._mark_ = f'Orth.xy{Lx}z{Lz}'
         elif Lx == Lz:
-            self._mark_ = 'Orth.xz{}y{}'.format('%.4f' % Lx, '%.4f' % Ly)
+            self._mark_ = f'Orth.xz{Lx}y{Ly}'
         elif Ly == Lz:
-            self._mark_ = 'Orth.yz{}x{}'.format('%.4f' % Ly, '%.4f' % Lx)
+            self._mark_ = f'Orth.yz{Ly}x{Lx}'
         else:
-            self._mark_ = 'Orth.x{}y{}z{}'.format('%.3f' % Lx, '%.3f' % Ly, '%.3f' % Lz)
+            self._mark_ = f'Orth.x{Lx}y{Ly}z{Lz}'
 
         self._freeze_self_()
 
diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index 6bc81e2..d93cb08 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -24,7 +24,6 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         assert len(perp_to) == 1 and perp_to in 'xyz', f"perp_to={perp_to} wrong."
         assert isinstance(d1, (int, float)) and d1 > 0, f"d1={d1} wrong."
         assert isinstance(d2, (int, float)) and d2 > 0, f"d2={d2} wrong."
-        d1 = round(d1, 6)
-        d2 = round(d2, 6)
-        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.5f' % d1, '%.5f' % d2)
+        # relative precision: sizes that really differ must never share a mark, no matter how small they are.
+        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.12g' % d1, '%.12g' % d2)
         self._freeze_self_()
-- 
2.43.0


From 74a095bcfcd71cd71750ee5df7bbfc2a44423d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 09/96] fix: vectorized 2d Jacobian matrices with constant
 entries

---
 .../coordinate_transformation/vectorized.py   | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
index 3b47ee8..1788732 100644
--- a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
+++ b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
@@ -30,18 +30,20 @@ class _2dCSCG_MeshElements_CT_Vectorized(FrozenOnly):
 
             i = self._elements_.indices[0]
             Jacobian_matrix = self._elements_[i].coordinate_transformation.Jacobian_matrix(xi, et)
-            return Jacobian_matrix
+            zero = np.zeros(np.shape(xi))  # constant entries may be numbers
+            return tuple([entry + zero for entry in row] for row in Jacobian_matrix)
 
         else:
             J00, J01, J10, J11 = list(), list(), list(), list()
+            zero = np.zeros(np.shape(xi))  # constant entries may be numbers
 
             J = self._elements_.coordinate_transformation.Jacobian_matrix(xi, et)
 
             for i in self._elements_:
-                J00.append(J[i][0][0])
-                J01.append(J[i][0][1])
-                J10.append(J[i][1][0])
-                J11.append(J[i][1][1])
+                J00.append(J[i][0][0] + zero)
+                J01.append(J[i][0][1] + zero)
+                J10.append(J[i][1][0] + zero)
+                J11.append(J[i][1][1] + zero)
 
             J00 = np.array(J00)
             J01 = np.array(J01)
@@ -80,18 +82,20 @@ class _2dCSCG_MeshElements_CT_Vectorized(FrozenOnly):
 
             i = self._elements_.indices[0]
             inverse_Jacobian_matrix = self._elements_[i].coordinate_transformation.inverse_Jacobian_matrix(xi, et)
-            return inverse_Jacobian_matrix
+            zero = np.zeros(np.shape(xi))  # constant entries may be numbers
+            return tuple([entry + zero for entry in row] for row in inverse_Jacobian_matrix)
 
         else:
             iJ00, iJ01, iJ10, iJ11 = list(), list(), list(), list()
+            zero = np.zeros(np.shape(xi))  # constant entries may be numbers
 
             iJ = self._elements_.coordinate_transformation.inverse_Jacobian_matrix(xi, et)
 
             for i in self._elements_:
-                iJ00.append(iJ[i][0][0])
-                iJ01.append(iJ[i][0][1])
-                iJ10.append(iJ[i][1][0])
-                iJ11.append(iJ[i][1][1])
+                iJ00.append(iJ[i][0][0] + zero)
+                iJ01.append(iJ[i][0][1] + zero)
+                iJ10.append(iJ[i][1][0] + zero)
+                iJ11.append(iJ[i][1][1] + zero)
 
             iJ00 = np.array(iJ00)
             iJ01 = np.array(iJ01)
-- 
2.43.0


From 5dc3a553607ecce73ecdcbc9af80d61fe0612091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 10/96] fix: orthogonal trace elements are measured in physical
 lengths

---
 .../mesh/domain/regions/region/types_wrt_metric/crazy.py   | 4 ++--
 .../mesh/domain/regions/region/types_wrt_metric/crazy.py   | 7 ++++---
 .../domain/regions/region/types_wrt_metric/orthogonal.py   | 7 ++++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index b2f4554..9fc0817 100644
--- a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -51,10 +51,10 @@ class Crazy(TypeWr2Metric):
             s0, s1 = trace_spacing
             if isinstance(s0, float):
                 along = 'y'
-                d = s1[1]-s1[0]
+                d = (s1[1]-s1[0]) * self._Lxy_[1]
             elif isinstance(s1, float):
                 along = 'x'
-                d = s0[1]-s0[0]
+                d = (s0[1]-s0[0]) * self._Lxy_[0]
             else:
                 raise Exception()
             return OrthogonalTraceElement(along, d)
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index fa13ab8..c34de50 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -49,15 +49,16 @@ class Crazy(TypeWr2MetricBase):
         """
         assert len(trace_spacing) == 3, "It is not a trace spacing."
         s0, s1, s2 = trace_spacing
+        L0, L1, L2 = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * L1, (s2[1]-s2[0]) * L2
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * L2, (s0[1]-s0[0]) * L0
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * L0, (s1[1]-s1[0]) * L1
         else:
             raise Exception()
 
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
index e354942..309857b 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
@@ -71,15 +71,16 @@ class Orthogonal(TypeWr2Metric):
         assert len(trace_spacing) == 3, "It is not a trace spacing."
 
         s0, s1, s2 = trace_spacing
+        L0, L1, L2 = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * L1, (s2[1]-s2[0]) * L2
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * L2, (s0[1]-s0[0]) * L0
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * L0, (s1[1]-s1[0]) * L1
         else:
             raise Exception()
 
-- 
2.43.0


From 7ca934b463c44a4fa67495ed48b0ae5d9032e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 11/96] fix: the volume of a region integrates over the
 reference unit cube

---
 objects/CSCG/_3d/mesh/domain/regions/region/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/main.py b/objects/CSCG/_3d/mesh/domain/regions/region/main.py
index adf607b..63e6f3b 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/main.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/main.py
@@ -81,7 +81,8 @@ class Region(RegionTopology, FrozenOnly):
         if self._volume_ is None:
             p = 20  # we use this many high order numerical quadrature.
             qx, qy, qz, quad_weights = Quadrature([p, p, p], category='Gauss').quad_ndim_ravel
-            detJ = self.interpolation.Jacobian(qx, qy, qz)
+            # the interpolation is defined on [0,1]^3, the quadrature nodes are in [-1,1]^3.
+            detJ = self.interpolation.Jacobian((qx + 1) / 2, (qy + 1) / 2, (qz + 1) / 2)
             self._volume_ = np.sum(detJ * quad_weights) / 8  # divided by 8 because [-1,1]^3 -> [0,1]^3
         return self._volume_
 
-- 
2.43.0


From fd0993335a2cab0481ac0f0e82b34650a60471c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:09 +0000
Subject: [PATCH 12/96] fix: skeleton finders deadlock or raise when a rank
 does not hold the entity

The trace/edge/node finders are collective, but built the trace or node
elements (collective as well) only on ranks holding the entity, and the node
finders updated a set with None from the other ranks.
---
 objects/CSCG/_3d/mesh/edge/elements/do/find/main.py | 1 +
 objects/CSCG/_3d/mesh/elements/do/find.py           | 6 ++++--
 objects/CSCG/_3d/mesh/node/elements/do/find/main.py | 7 +++++--
 objects/CSCG/_3d/mesh/trace/elements/do/find.py     | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/edge/elements/do/find/main.py b/objects/CSCG/_3d/mesh/edge/elements/do/find/main.py
index 8e2f97f..7fb85cb 100644
--- a/objects/CSCG/_3d/mesh/edge/elements/do/find/main.py
+++ b/objects/CSCG/_3d/mesh/edge/elements/do/find/main.py
@@ -20,6 +20,7 @@ class _3dCSCG_Edge_Elements_DO_FIND(FrozenOnly):
     def __init__(self, elements):
         self._elements_ = elements
         self._mesh_ = elements._mesh_
+        _ = self._mesh_.trace.elements  # to make sure the trace.elements are generated (collectively)!
         self._freeze_self_()
 
 
diff --git a/objects/CSCG/_3d/mesh/elements/do/find.py b/objects/CSCG/_3d/mesh/elements/do/find.py
index 9529c1d..556cad6 100644
--- a/objects/CSCG/_3d/mesh/elements/do/find.py
+++ b/objects/CSCG/_3d/mesh/elements/do/find.py
@@ -74,13 +74,15 @@ class _3dCSCG_Mesh_Elements_DO_FIND(FrozenOnly):
         -------
 
         """
+        trace_map = self._elements_._mesh_.trace.elements.map  # must be made in all cores (collectively).
+
         if i in self._elements_:
-            TEsi = self._elements_._mesh_.trace.elements.map[i]
+            TEsi = trace_map[i]
         else:
             TEsi = None
 
         if j in self._elements_:
-            TEsj = self._elements_._mesh_.trace.elements.map[j]
+            TEsj = trace_map[j]
         else:
             TEsj = None
 
diff --git a/objects/CSCG/_3d/mesh/node/elements/do/find/main.py b/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
index db0ae43..87db78b 100644
--- a/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
+++ b/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
@@ -19,6 +19,7 @@ class _3dCSCG_NodeMesh_DoFind(FrozenOnly):
         self._mesh_ = elements._mesh_
         self._SOS_cache_ = dict()
         _ = self._mesh_.edge.elements  # to make sure the edge.elements.map is generated!
+        _ = self._mesh_.trace.elements  # to make sure the trace.elements.map is generated!
         self._freeze_self_()
 
     def hybrid_singularity_overcoming_setting(self, i):
@@ -127,7 +128,8 @@ class _3dCSCG_NodeMesh_DoFind(FrozenOnly):
         ___ = set()
 
         for EE in EDGE_ELEMENTS:
-            ___.update(EE)
+            if EE is not None:
+                ___.update(EE)
 
         return list(___)
 
@@ -174,7 +176,8 @@ class _3dCSCG_NodeMesh_DoFind(FrozenOnly):
         ___ = set()
 
         for TE in TRACE_ELEMENTS:
-            ___.update(TE)
+            if TE is not None:
+                ___.update(TE)
 
         return list(___)
 
diff --git a/objects/CSCG/_3d/mesh/trace/elements/do/find.py b/objects/CSCG/_3d/mesh/trace/elements/do/find.py
index ee06472..e2045ba 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/do/find.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/do/find.py
@@ -118,6 +118,8 @@ class _3dCSCG_Trace_Elements_Do_Find(FrozenOnly):
 
         """
 
+        node_map = self._elements_._mesh_.node.elements.map  # must be made in all cores (collectively).
+
         if i in self._elements_:
             DICT = self._elements_._mesh_.domain.regions.Region._side_corner_local_numbering_dict_()
 
@@ -125,7 +127,7 @@ class _3dCSCG_Trace_Elements_Do_Find(FrozenOnly):
             CHARACTERISTIC_element = te.CHARACTERISTIC_element
             CHARACTERISTIC_side = te.CHARACTERISTIC_side
 
-            NODE_MAP = self._elements_._mesh_.node.elements.map[CHARACTERISTIC_element]
+            NODE_MAP = node_map[CHARACTERISTIC_element]
 
             corner_indices = DICT['NSWEBF'.index(CHARACTERISTIC_side)]
 
-- 
2.43.0


From 931f3957bc46b763671601a7cf1efbc582291bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 13/96] fix: the number of local dofs of a 2d trace form stayed
 0

---
 objects/CSCG/_2d/forms/trace/base/numbering/Naive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
index dc0891e..391333a 100644
--- a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
@@ -62,6 +62,7 @@ class _2dCSCG_Trace_Numbering_Naive(FrozenOnly):
             am_UD, am_LR = type_amount_dict[i]
             start_num = am_UD * NBO[0] + am_LR * NBO[1]
             GM_TEW[i] = range(start_num, start_num + num_basis_onside[t_e_i.CHARACTERISTIC_edge])
+            local_num_dofs += num_basis_onside[t_e_i.CHARACTERISTIC_edge]
 
         MAP = self._mesh_.trace.elements.map
         for i in MAP:
-- 
2.43.0


From 2bc3302aa7c9b469de8982f984d6d20d4686e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 14/96] fix: boundary_dofs of a 3d trace form must do the
 numbering in all cores

---
 objects/CSCG/_3d/forms/trace/base/numbering/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/trace/base/numbering/main.py b/objects/CSCG/_3d/forms/trace/base/numbering/main.py
index 39b7bab..579ba6f 100644
--- a/objects/CSCG/_3d/forms/trace/base/numbering/main.py
+++ b/objects/CSCG/_3d/forms/trace/base/numbering/main.py
@@ -118,11 +118,12 @@ class _3dCSCG_Trace_Numbering(FrozenOnly):
             self._boundary_dofs_[bn] = list()
 
         RTE = boundaries.range_of_trace_elements
+        TEW = self.trace_element_wise  # numbering is collective: do it in all cores before looping over local objects.
         for bn in RTE:
             TE = RTE[bn]
             for te in TE:
 
-                dofs = self.trace_element_wise[te]
+                dofs = TEW[te]
                 # noinspection PyUnresolvedReferences
                 self._boundary_dofs_[bn].extend(dofs)
             # noinspection PyUnresolvedReferences
-- 
2.43.0


From 250bba9870897fa9d4f3c1dd43e40e0e12e402e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 15/96] fix: sharing_physical_locations must not change the
 define-parameters of the form

---
 objects/CSCG/_3d/forms/standard/base/numbering/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/numbering/main.py b/objects/CSCG/_3d/forms/standard/base/numbering/main.py
index ace576c..fcb5856 100644
--- a/objects/CSCG/_3d/forms/standard/base/numbering/main.py
+++ b/objects/CSCG/_3d/forms/standard/base/numbering/main.py
@@ -184,7 +184,7 @@ class _3dCSCG_Standard_Form_Numbering(FrozenOnly):
             if self._sf_.k == 3: # a volume form, return empty list
                 return list()
             else:
-                kwargs = self._sf_.___define_parameters___['kwargs']
+                kwargs = dict(self._sf_.___define_parameters___['kwargs'])
                 kwargs['hybrid'] = False
                 non_hybrid_form = self._sf_.__class__(self._sf_.mesh, self._sf_.space, **kwargs)
                 NHF = non_hybrid_form.numbering.gathering
-- 
2.43.0


From 6f98d7791d96d5193788823f240ac658512f26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 16/96] fix: internal dofs of a 2-form whose degrees are all 1

---
 .../_3d/spaces/base/internal_local_dofs.py    | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/objects/CSCG/_3d/spaces/base/internal_local_dofs.py b/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
index b93272f..a3a1aee 100644
--- a/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
+++ b/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
@@ -37,18 +37,8 @@ class _3dCSCG_Internal_Local_Dofs(FrozenOnly):
     def _3dCSCG_2Form(self):
         """"""
         local_numbering = self._space_.local_numbering._3dCSCG_2Form
-        p0, p1, p2 = self._space_.p
-        I_DOS = list()
-        if p0 == 1:
-            pass
-        else:
-            I_DOS.append(local_numbering[0][1:-1, :, :].ravel('F'))
-        if p1 == 1:
-            pass
-        else:
-            I_DOS.append(local_numbering[1][:, 1:-1, :].ravel('F'))
-        if p2 == 1:
-            pass
-        else:
-            I_DOS.append(local_numbering[2][:, :, 1:-1].ravel('F'))
-        return np.concatenate(I_DOS)
+        ild0 = local_numbering[0][1:-1, :, :].ravel('F')
+        ild1 = local_numbering[1][:, 1:-1, :].ravel('F')
+        ild2 = local_numbering[2][:, :, 1:-1].ravel('F')
+
+        return np.concatenate([ild0, ild1, ild2])
-- 
2.43.0


From 6763f7a966a3a6a84d3b69f0f6856cc9f574e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 17/96] fix: a gathering vector can be given as a list

---
 tools/elementwiseCache/gathering/vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/gathering/vector.py b/tools/elementwiseCache/gathering/vector.py
index 587a33c..bb7a3d3 100644
--- a/tools/elementwiseCache/gathering/vector.py
+++ b/tools/elementwiseCache/gathering/vector.py
@@ -18,8 +18,7 @@ class Gathering_Vector(FrozenOnly):
 
         if isinstance(gv, list):  # list of integers
             self._gv_ = np.array(gv)
-
-        if isinstance(gv, tuple):  # tuple of a series of range object.
+        elif isinstance(gv, tuple):  # tuple of a series of range object.
             for gvi in gv:
                 assert isinstance(gvi, range), "Tuple of ranges."
             CHAIN = chain(*gv)
-- 
2.43.0


From ec72bc99e4a0ba502b558bfe721e8158f652553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 18/96] fix: finding (local) dofs on an element side of a local
 trace form shares one cache

---
 objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
index fe4a55f..0841f38 100644
--- a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
+++ b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
@@ -131,10 +131,8 @@ class _3dCSCG_LocalTrace_Numbering_DoFind(FrozenOnly):
                 indices = [2*NS+2*WE+BF, 2*NS+2*WE+2*BF]
             else:
                 raise Exception()
-            self._localSideCache_[k][side_name] = indices
+            self._localSideCache_[k][side_name] = arange(*indices)
         else:
             pass
 
-        i0, i1 = self._localSideCache_[k][side_name]
-
-        return GM[element].full_vector[i0:i1]
+        return GM[element].full_vector[self._localSideCache_[k][side_name]]
-- 
2.43.0


From c15e28b9f05dc72606ef4be36bd6f01570b74dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:49 +0000
Subject: [PATCH 19/96] fix: conforming 2d 0-form numbering split a node
 between elements that share no side

---
 .../forms/standard/base/numbering/Naive.py    | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
index a3517b5..c71ad10 100644
--- a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
@@ -142,6 +142,8 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                             f" elements.layout[{rn}]={regionElementLayout} wrong," \
                             f" needs (>1, >1) to make it work for periodic domain."
 
+        all_maps = COMM.gather(mesh.elements.map, root=MASTER_RANK)
+
         if RANK != MASTER_RANK:
             element_map = mesh.elements.map
             element_indices = mesh.elements.indices
@@ -151,6 +153,8 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
             p = self._sf_.p
             p = (p[0]+1, p[1]+1)
             numberingCache = dict()
+            cornerClasses = self.___PRIVATE_find_classes_of_element_corners___(all_maps)
+            cornerNumbering = dict()  # the numbering of the classes of corners that are already numbered.
             currentNumber = 0
             other_side_name = 'DURL'  # not an error, this is other side name.
             sidePairDict = {'U': 'D', 'D': 'U', 'L': 'R', 'R': 'L'}
@@ -167,6 +171,10 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                         numberingCache[0] = np.arange(numOfBasis).reshape(p, order='F')
                         currentNumber += numOfBasis
                     else:
+                        # A corner may be numbered already by elements that share no side with element #k.
+                        for c, corner in enumerate(((0, 0), (-1, 0), (0, -1), (-1, -1))):
+                            if cornerClasses[4*k + c] in cornerNumbering:
+                                numberingCache[k][corner] = cornerNumbering[cornerClasses[4*k + c]]
                         notNumberedPlaces = numberingCache[k] == -1
                         howManyNotNumbered = len(numberingCache[k][notNumberedPlaces])
                         # assert howManyNotNumbered < numOfBasis, "We make sure at least a part is numbered!"
@@ -176,6 +184,9 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                             )
                             currentNumber += howManyNotNumbered
 
+                    for c, corner in enumerate(((0, 0), (-1, 0), (0, -1), (-1, -1))):
+                        cornerNumbering[cornerClasses[4*k + c]] = numberingCache[k][corner]
+
                     for j, EMki in enumerate(element_map[k]):
                         if isinstance(EMki, str):  # on domain boundary
                             pass
@@ -235,6 +246,38 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
         else:
             raise Exception()
 
+    @staticmethod
+    def ___PRIVATE_find_classes_of_element_corners___(all_maps):
+        """Find which corners of the elements are the same point of the mesh (through shared element edges).
+
+        Corners of an element are sequenced as UL, DL, UR, DR. Corner c of element #i has index 4*i+c.
+
+        :param all_maps: A list of the local element maps of all cores.
+        :return: A 1d list; corners having the same value are the same point.
+        """
+        element_map = dict()
+        for local_map in all_maps:
+            element_map.update(local_map)
+
+        root = list(range(4 * len(element_map)))
+
+        def find(x):
+            while root[x] != x:
+                root[x] = root[root[x]]
+                x = root[x]
+            return x
+
+        # we only need to look at the D- and R-edges as each internal edge is the U- or L-edge of another element.
+        for i in element_map:
+            for j, pairs in ((1, ((1, 0), (3, 2))), (3, ((2, 0), (3, 1)))):
+                other = element_map[i][j]
+                if not isinstance(other, str):
+                    for a, b in pairs:
+                        ra, rb = find(4 * i + a), find(4 * other + b)
+                        root[max(ra, rb)] = min(ra, rb)
+
+        return [find(x) for x in range(len(root))]
+
     def _0Form_Outer_no_parameters(self):
         return self._0Form_Inner_no_parameters()
 
-- 
2.43.0


From 10d27cf6e3ebd2e796ca6ab75765bec76603f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:21 +0000
Subject: [PATCH 20/96] fix: trace_element_position of dofs of non-hybrid trace
 forms

---
 .../_3d/forms/trace/base/dofs/dof/main.py     | 47 +++++++++++--------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/objects/CSCG/_3d/forms/trace/base/dofs/dof/main.py b/objects/CSCG/_3d/forms/trace/base/dofs/dof/main.py
index 43144a0..0be3b23 100644
--- a/objects/CSCG/_3d/forms/trace/base/dofs/dof/main.py
+++ b/objects/CSCG/_3d/forms/trace/base/dofs/dof/main.py
@@ -171,35 +171,44 @@ class _3dCSCG_Trace_forms_DOF(FrozenOnly):
         else:
             position = positions[0]
 
-            nbc = self._tf_.num.basis_onside
-            num_NS = nbc['N']
-            num_WE = nbc['W']
-            num_BF = nbc['B']
-
             mesh_element, local_numbering = position
 
-            if 0 <= local_numbering < num_NS:
-                side = 'N'
-            else:
-                local_numbering -= num_NS
+            if self._tf_.whether.hybrid:
+                nbc = self._tf_.num.basis_onside
+                num_NS = nbc['N']
+                num_WE = nbc['W']
+                num_BF = nbc['B']
+
                 if 0 <= local_numbering < num_NS:
-                    side = 'S'
+                    side = 'N'
                 else:
                     local_numbering -= num_NS
-                    if 0 <= local_numbering < num_WE:
-                        side = 'W'
+                    if 0 <= local_numbering < num_NS:
+                        side = 'S'
                     else:
-                        local_numbering -= num_WE
+                        local_numbering -= num_NS
                         if 0 <= local_numbering < num_WE:
-                            side = 'E'
+                            side = 'W'
                         else:
                             local_numbering -= num_WE
-                            if 0 <= local_numbering < num_BF:
-                                side = 'B'
+                            if 0 <= local_numbering < num_WE:
+                                side = 'E'
                             else:
-                                local_numbering -= num_BF
-                                assert 0 <= local_numbering < num_BF
-                                side = 'F'
+                                local_numbering -= num_WE
+                                if 0 <= local_numbering < num_BF:
+                                    side = 'B'
+                                else:
+                                    local_numbering -= num_BF
+                                    assert 0 <= local_numbering < num_BF
+                                    side = 'F'
+
+            else:  # a dof of a non-hybrid trace form may be on multiple sides, take the first one.
+                side = None
+                for side in 'NSWEBF':
+                    on_side = np.argwhere(self._tf_.numbering.local_gathering[side] == local_numbering).ravel()
+                    if on_side.shape[0] > 0:
+                        local_numbering = int(on_side[0])
+                        break
 
             T_MAP = self._tf_.mesh.trace.elements.map[mesh_element]
             index = 'NSWEBF'.index(side)
-- 
2.43.0


From 1cb7f0be880b8e87bdd0a46ac9a39964f3025c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:26 +0000
Subject: [PATCH 21/96] fix: setting a cochain from a distributed vector left
 dofs with value zero uninitialised

---
 objects/CSCG/_3d/ADF/standard/base/cochain/main.py | 2 +-
 objects/CSCG/_3d/ADF/trace/base/cochain/main.py    | 2 +-
 objects/CSCG/base/forms/localTrace/cochain/main.py | 2 +-
 objects/CSCG/base/forms/standard/cochain/main.py   | 2 +-
 objects/CSCG/base/forms/trace/cochain/main.py      | 2 +-
 objects/miUsGrid/base/form/standard/cochain.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
index b042fcc..1929941 100644
--- a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
@@ -86,7 +86,7 @@ class _3dCSCG_Algebra_DUAL_Standard_Form_Cochain(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dsf_.num.global_dofs,))
+                    VV = np.zeros((self._dsf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
index c804dd6..7aa7618 100644
--- a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
@@ -68,7 +68,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dt_.num.global_dofs,))
+                    VV = np.zeros((self._dt_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/localTrace/cochain/main.py b/objects/CSCG/base/forms/localTrace/cochain/main.py
index ca9db24..3ae89cd 100644
--- a/objects/CSCG/base/forms/localTrace/cochain/main.py
+++ b/objects/CSCG/base/forms/localTrace/cochain/main.py
@@ -84,7 +84,7 @@ class CSCG_LocalTrace_CochainBase(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._ltf_.num.global_dofs,))
+                    VV = np.zeros((self._ltf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/standard/cochain/main.py b/objects/CSCG/base/forms/standard/cochain/main.py
index 2caff24..3c95e55 100644
--- a/objects/CSCG/base/forms/standard/cochain/main.py
+++ b/objects/CSCG/base/forms/standard/cochain/main.py
@@ -168,7 +168,7 @@ class CSCG_Standard_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index 11caafb..c4f1ffc 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._tf_.global_num_dofs,))
+                    VV = np.zeros((self._tf_.global_num_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/miUsGrid/base/form/standard/cochain.py b/objects/miUsGrid/base/form/standard/cochain.py
index 5362fcf..2b37f70 100644
--- a/objects/miUsGrid/base/form/standard/cochain.py
+++ b/objects/miUsGrid/base/form/standard/cochain.py
@@ -89,7 +89,7 @@ class miUsGrid_SF_CochainBase(FrozenOnly):
                 V = glb.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
-- 
2.43.0


From bda27e0208bd1195fdc74ca768b10af307e7fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 22/96] fix: the globe cochain of a trace form used a missing
 attribute

---
 objects/CSCG/base/forms/trace/cochain/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index c4f1ffc..d4e6652 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -114,7 +114,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         Will raise error if cochain is not full.
         """
         GM = self._tf_.numbering.gathering
-        globe = lil_matrix((1, self._tf_.global_num_dofs))
+        globe = lil_matrix((1, self._tf_.num.global_dofs))
         for i in GM:  # go through all local elements
             globe[0, GM[i].full_vector] = self.local[i]
 
@@ -122,7 +122,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         GLOBE = COMM.gather(globe, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            measure = np.zeros(self._tf_.global_num_dofs, dtype=int)
+            measure = np.zeros(self._tf_.num.global_dofs, dtype=int)
             for G in GLOBE:
                 indices = G.indices
                 measure[indices] += 1
@@ -133,7 +133,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
             globe = csr_matrix(_____).T
 
         else:
-            globe = csc_matrix((self._tf_.global_num_dofs, 1))
+            globe = csc_matrix((self._tf_.num.global_dofs, 1))
 
         GDV = DistributedVector(globe)
         assert GDV.whether.master_dominating
@@ -142,7 +142,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
     @globe.setter
     def globe(self, globe):
         if globe.__class__.__name__ == 'DistributedVector':
-            assert globe.V.shape == (self._tf_.global_num_dofs, 1), "globe cochain shape wrong."
+            assert globe.V.shape == (self._tf_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
             if globe.whether.master_dominating:
                 # no need to gather
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.zeros((self._tf_.global_num_dofs,))
+                    VV = np.zeros((self._tf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
@@ -168,7 +168,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                         # noinspection PyUnboundLocalVariable
                         to_be_sent = spspa.csc_matrix(
                             (VV[lr[0]:lr[1]], range(lr[0], lr[1]), [0, lr[1]-lr[0]]),
-                            shape=(self._tf_.global_num_dofs, 1))
+                            shape=(self._tf_.num.global_dofs, 1))
                     TO_BE_SENT.append(to_be_sent)
             else:
                 TO_BE_SENT = None
-- 
2.43.0


From 318662b918ac2edcd0c0574ca5857feb5adbb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 23/96] fix: reconstructing 1-, 2- and 3-forms in given regions
 called a missing method

---
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 55fe959..6de079a 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -55,7 +55,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         # ----------- vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index 016d761..4dded16 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -56,7 +56,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         #------------ vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index 65af2b6..c1fd598 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -65,7 +65,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
 
-- 
2.43.0


From 8e3bb8718392163aa8e0dc8a302d11fffd005ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 24/96] fix: error.L(upon=True) evaluated a missing attribute

---
 objects/CSCG/_2d/forms/standard/base/error.py | 2 +-
 objects/CSCG/_3d/forms/standard/base/error.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/error.py b/objects/CSCG/_2d/forms/standard/base/error.py
index 791896d..34a984d 100644
--- a/objects/CSCG/_2d/forms/standard/base/error.py
+++ b/objects/CSCG/_2d/forms/standard/base/error.py
@@ -60,7 +60,7 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi  # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func_val = [self._sf_.CF.do.evaluate_func_at_time()[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
diff --git a/objects/CSCG/_3d/forms/standard/base/error.py b/objects/CSCG/_3d/forms/standard/base/error.py
index 3755b43..93693fe 100644
--- a/objects/CSCG/_3d/forms/standard/base/error.py
+++ b/objects/CSCG/_3d/forms/standard/base/error.py
@@ -101,7 +101,7 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func_val = [self._sf_.CF.___DO_evaluate_func_at_time___()[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
-- 
2.43.0


From c3ff59e382a5f258b93dbfcc334c03cf7abd512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 25/96] fix: L^n errors and differences of odd n summed signed
 powers

---
 objects/CSCG/_2d/forms/standard/base/error.py | 2 +-
 objects/CSCG/_3d/forms/standard/base/do.py    | 2 +-
 objects/CSCG/_3d/forms/standard/base/error.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/error.py b/objects/CSCG/_2d/forms/standard/base/error.py
index 34a984d..715eeb3 100644
--- a/objects/CSCG/_2d/forms/standard/base/error.py
+++ b/objects/CSCG/_2d/forms/standard/base/error.py
@@ -84,7 +84,7 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
             element = self._sf_.mesh.elements[i]
             detJ = element.coordinate_transformation.Jacobian(xi, eta)
             LEIntermediate = np.sum(
-                [(v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i]))**n
+                [np.abs(v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i]))**n
                     for m in range(OneOrThree)], axis=0
             )
             localError.append(np.sum(LEIntermediate * detJ * quad_weights))
diff --git a/objects/CSCG/_3d/forms/standard/base/do.py b/objects/CSCG/_3d/forms/standard/base/do.py
index d0a788b..afe75de 100644
--- a/objects/CSCG/_3d/forms/standard/base/do.py
+++ b/objects/CSCG/_3d/forms/standard/base/do.py
@@ -161,7 +161,7 @@ class _3dCSCG_Standard_Form_DO(FrozenOnly):
             localError = list()
             for i in sf.mesh.elements.indices:
                 detJ = Jacobian[i]
-                LEIntermediate = np.sum([(SV[i][m] - OV[i][m])**n for m in range(OneOrThree)], axis=0)
+                LEIntermediate = np.sum([np.abs(SV[i][m] - OV[i][m])**n for m in range(OneOrThree)], axis=0)
                 localError.append(np.sum(LEIntermediate * detJ * quad_weights))
             core_local = np.sum(localError)
             core_local = COMM.gather(core_local, root=MASTER_RANK)
diff --git a/objects/CSCG/_3d/forms/standard/base/error.py b/objects/CSCG/_3d/forms/standard/base/error.py
index 93693fe..ad6194f 100644
--- a/objects/CSCG/_3d/forms/standard/base/error.py
+++ b/objects/CSCG/_3d/forms/standard/base/error.py
@@ -150,7 +150,7 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
                 element = self._sf_.mesh.elements[i]
                 detJ = element.coordinate_transformation.Jacobian(xi, eta, sigma)
                 LEIntermediate = np.sum(
-                    [(v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i]))**n
+                    [np.abs(v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i]))**n
                      for m in range(OneOrThree)], axis=0
                 )
                 # noinspection PyUnboundLocalVariable
-- 
2.43.0


From 70b66707e6ede5b2284aae55eee278ed9bcb3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 26/96] fix: L2 inner product of 3d forms of different spaces
 contracted the matrix with swapped operands

---
 objects/CSCG/_3d/forms/standard/base/do.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/do.py b/objects/CSCG/_3d/forms/standard/base/do.py
index afe75de..a8924a0 100644
--- a/objects/CSCG/_3d/forms/standard/base/do.py
+++ b/objects/CSCG/_3d/forms/standard/base/do.py
@@ -35,13 +35,13 @@ class _3dCSCG_Standard_Form_DO(FrozenOnly):
             repM = M[i].toarray() # representative Mass matrix
             LOCAL = np.einsum('ij, ki, kj -> ',
                               repM,
-                              self._sf_.cochain.array,
                               other.cochain.array,
+                              self._sf_.cochain.array,
                               optimize='greedy')
         else:
             LOCAL = list()
             for i in self._sf_.mesh.elements:
-                LOCAL.append(self._sf_.cochain.local[i] @ M[i] @ other.cochain.local[i])
+                LOCAL.append(other.cochain.local[i] @ M[i] @ self._sf_.cochain.local[i])
             LOCAL = np.sum(LOCAL)
 
         return COMM.allreduce(LOCAL, op=MPI.SUM)
-- 
2.43.0


From 55d4698a00595eb29a615481c1cb068df66fceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 27/96] fix: projecting 1- and 2-forms to 0-forms used missing
 attributes

---
 objects/CSCG/_3d/forms/standard/_1s/project/to.py | 6 +++---
 objects/CSCG/_3d/forms/standard/_2s/project/to.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/project/to.py b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
index 4cfbbd8..22e7678 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
@@ -55,21 +55,21 @@ class ___3dCSCG_1Form_Project_To___(FrozenOnly):
         mesh = self._sf_.mesh
 
         f0_x = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_x_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_y = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_y_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_z = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_z_0form_of_'+self._sf_.standard_properties.name
diff --git a/objects/CSCG/_3d/forms/standard/_2s/project/to.py b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
index 2fe8c54..d6ced37 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
@@ -19,17 +19,17 @@ class ___3dCSCG_2Form_Project_To___(FrozenOnly):
         space = self._sf_.space
         mesh = self._sf_.mesh
 
-        f0_x = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_x = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_x_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_y = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_y = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_y_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_z = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_z = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_z_0form_of_'+self._sf_.standard_properties.name)
-- 
2.43.0


From 8deba92b436f3fca3465406433ead9a100e17ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 28/96] fix: cochain.array depended on the insertion order of
 the local cochain

---
 objects/CSCG/base/forms/standard/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/base/forms/standard/cochain/main.py b/objects/CSCG/base/forms/standard/cochain/main.py
index 3c95e55..3a9390f 100644
--- a/objects/CSCG/base/forms/standard/cochain/main.py
+++ b/objects/CSCG/base/forms/standard/cochain/main.py
@@ -35,7 +35,7 @@ class CSCG_Standard_Form_Cochain_BASE(FrozenOnly):
         if len(self) == 0:
             return None
         else:
-            return np.array(list(self.local.values()))
+            return np.array([self.local[i] for i in self._sf_.mesh.elements if i in self.local])
 
     @property
     def EWC(self):
-- 
2.43.0


From 1250c36fe4085093108da897a1e1cef97dbe3522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:07 +0000
Subject: [PATCH 29/96] fix: reconstructing in regions='all' failed an
 assertion

---
 objects/CSCG/_3d/forms/standard/_0s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
index 7ecde9e..1b95c13 100644
--- a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
@@ -47,7 +47,7 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 6de079a..53d8900 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -43,7 +43,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index 4dded16..e252d1c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -44,7 +44,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index c1fd598..ee7c502 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -52,7 +52,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
-- 
2.43.0


From 5b7b642e41eac74b8f172616008c456cbb13c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:25 +0000
Subject: [PATCH 30/96] fix: the wedge matrix of a 3-form and a 0-form rejected
 every 0-form

---
 objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py b/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
index 7343659..4486561 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
@@ -73,7 +73,7 @@ class _3dCSCG_S3F_Private:
 
     def ___PRIVATE_operator_wedge___(self, other, quad_degree=None):
         """In fact, it is integral over wedge product."""
-        assert other.__class__.__name__ == '_0Form', "Need a _3dCSCG_0Form"
+        assert other.k == 0, "Need a _3dCSCG_0Form"
         assert self.mesh == other.mesh, "Meshes do not match."
         if quad_degree is None:
             quad_degree = [int(np.max([self.dqp[i], other.dqp[i]])) for i in range(3)]
-- 
2.43.0


From ed3a4fa80f80baba38d7177d5e327b1df03a87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 31/96] fix: matrices.trace of a 3d standard form passed a dict
 of matrices on

---
 objects/CSCG/_3d/forms/standard/base/matrices/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/matrices/main.py b/objects/CSCG/_3d/forms/standard/base/matrices/main.py
index 8798d8e..8f109a0 100644
--- a/objects/CSCG/_3d/forms/standard/base/matrices/main.py
+++ b/objects/CSCG/_3d/forms/standard/base/matrices/main.py
@@ -49,7 +49,7 @@ class _3dCSCG_Standard_Form_Matrices(FrozenOnly):
         if self._T_ is None:
             k = self._sf_.k
             formName = f'_3dCSCG_{int(k)}Trace'
-            T = getattr(self._sf_.space.trace_matrix, formName)[0]
+            T = getattr(self._sf_.space.trace_matrix, formName)[0][True]
             self._T_ = \
                 EWC_SparseMatrix(self._sf_.mesh.elements, T, 'constant')
         return self._T_
-- 
2.43.0


From fd96ae1d160cf2d979153f25a0bda5a25be3aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 32/96] fix: inverse metric of a 3d trace element was that of
 the volume, not of the surface

---
 .../element/coordinate_transformation/main.py | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
index b771381..b605aa7 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
@@ -119,19 +119,10 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
 
         :param evaluation_points : A tuple or list of shape (ndim-1, ...).
         """
-        i = self._te_.CHARACTERISTIC_element
-        element_side = self._te_.CHARACTERISTIC_side
-        ep = self._te_._elements_.___generate_full_ep___(evaluation_points, element_side)
-        iJ = self._te_._mesh_.elements[i].coordinate_transformation.inverse_Jacobian_matrix(*ep)
-        if element_side in 'NS':
-            return ((iJ[1][0], iJ[1][1], iJ[1][2]),
-                    (iJ[2][0], iJ[2][1], iJ[2][2]))
-        elif element_side in 'WE': # this is very important, do not used [0], [2] for the indices.. But when we feed x, y, z, always use x, y, z.
-            return ((iJ[2][0], iJ[2][1], iJ[2][2]),
-                    (iJ[0][0], iJ[0][1], iJ[0][2]))
-        else:
-            return ((iJ[0][0], iJ[0][1], iJ[0][2]),
-                    (iJ[1][0], iJ[1][1], iJ[1][2]))
+        J = self.Jacobian_matrix(*evaluation_points)
+        iG = self.inverse_metric_matrix(*evaluation_points)
+        # the left inverse within the surface: iG J^T (its rows are tangential to the trace element).
+        return tuple(tuple(iG[i][0] * J[j][0] + iG[i][1] * J[j][1] for j in range(3)) for i in range(2))
 
     def metric_matrix(self, *evaluation_points):
         """Compute the metric matrix G whose entries are g_{i,j}."""
@@ -149,17 +140,10 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
 
     def inverse_metric_matrix(self, *evaluation_points):
         """Compute the inverse metric matrix G whose entries are g^{i,j}."""
-        iJ = self.inverse_Jacobian_matrix(*evaluation_points)
-        Gk = [[None for _ in range(2)] for __ in range(2)]
-        for i in range(2):
-            for j in range(i, 2):
-                Gk[i][j] = iJ[i][0] * iJ[j][0] + iJ[i][1] * iJ[j][1] + iJ[i][2] * iJ[j][2]
-                if i != j:
-                    Gk[j][i] = Gk[i][j]
-
-        return Gk
-
-
+        G = self.metric_matrix(*evaluation_points)
+        g = G[0][0]*G[1][1] - G[0][1]*G[1][0]
+        return [[G[1][1] / g, - G[0][1] / g],
+                [- G[1][0] / g, G[0][0] / g]]
 
     def metric(self, *evaluation_points):
         """return metric g."""
-- 
2.43.0


From 4aa1878529e62e4824fcdbc843255222104a8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 33/96] fix: p_refine of a local trace form lost its local
 hybridity

---
 objects/CSCG/_3d/forms/localTrace/base/do.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/base/do.py b/objects/CSCG/_3d/forms/localTrace/base/do.py
index be09c64..eceb19e 100644
--- a/objects/CSCG/_3d/forms/localTrace/base/do.py
+++ b/objects/CSCG/_3d/forms/localTrace/base/do.py
@@ -41,9 +41,10 @@ class _3dCSCG_LocalTrace_Do(FrozenOnly):
 
         return self._ltf_.__class__(
             self._ltf_.mesh, new_space,
+            hybrid=self._ltf_.whether.hybrid,
             orientation=self._ltf_._orientation_,
             numbering_parameters=numbering_parameters,
-            name='p-refined-' + self._ltf_._orientation_ + '-0-ltf'
+            name='p-refined-' + self._ltf_._orientation_ + f'-{self._ltf_.k}-ltf'
         )
 
     def evaluate_basis_at_meshgrid(self, xi, eta, sigma, compute_xietasigma=True):
-- 
2.43.0


From 341d9df2a9ea5a01a84a42f443e5400eb2ffb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 34/96] fix: 3d space refinement used the increment of the
 first axis for all axes

---
 objects/CSCG/_3d/spaces/polynomials/do.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/spaces/polynomials/do.py b/objects/CSCG/_3d/spaces/polynomials/do.py
index 8ace676..4959d2f 100644
--- a/objects/CSCG/_3d/spaces/polynomials/do.py
+++ b/objects/CSCG/_3d/spaces/polynomials/do.py
@@ -36,8 +36,8 @@ class _3dCSCG_space_Polynomial_do(_3dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py, pz = self._space_.p
         px += p[0]
-        py += p[0]
-        pz += p[0]
+        py += p[1]
+        pz += p[2]
         new_input = (
             [category[0], px],
             [category[1], py],
-- 
2.43.0


From 11c52d0d055f074b35c0a60ced68e7fe614d6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 35/96] fix: boundary-wise discretization of a 0-local-trace
 form ignored update_cochain

---
 objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
index 27d11d8..a228e76 100644
--- a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
+++ b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
@@ -44,7 +44,7 @@ class _3dCSCG_0LocalTrace_Discretize(FrozenOnly):
                     return self._standard_(update_cochain=update_cochain, target='func')
 
                 elif SELF.CF.ftype == 'boundary-wise':
-                    return self._boundary_wise_(target='func')
+                    return self._boundary_wise_(update_cochain=update_cochain, target='func')
 
                 else:
                     raise NotImplementedError(f"3dCSCG 0-ltf cannot (target func) discretize "
@@ -64,7 +64,7 @@ class _3dCSCG_0LocalTrace_Discretize(FrozenOnly):
 
                 elif SELF.BC.CF.ftype == "boundary-wise":
                     # we will always not update cochain & and always set target to be "BC"
-                    return self._boundary_wise_(target='BC')
+                    return self._boundary_wise_(update_cochain=False, target='BC')
 
                 elif SELF.BC.CF.ftype == "trace-element-wise":
                     return self._trace_element_wise_(update_cochain=False, target='BC')
-- 
2.43.0


From 3ed04839273d12cdaac2910443e3a6b0a45f80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:35 +0000
Subject: [PATCH 36/96] fix: 2d space refinement used the increment of the
 first axis for both axes

---
 objects/CSCG/_2d/spaces/polynomials/do.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/spaces/polynomials/do.py b/objects/CSCG/_2d/spaces/polynomials/do.py
index bdf677a..e3a5742 100644
--- a/objects/CSCG/_2d/spaces/polynomials/do.py
+++ b/objects/CSCG/_2d/spaces/polynomials/do.py
@@ -34,7 +34,7 @@ class _2dCSCG_space_Polynomial_Do(_2dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py = self.space.p
         px += p[0]
-        py += p[0]
+        py += p[1]
         new_input = (
             [category[0], px],
             [category[1], py]
-- 
2.43.0


From 0475e9f89b45d37bef6ff8bc18ad240cc97102da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:34 +0000
Subject: [PATCH 37/96] fix: metric of a trace element was evaluated on the
 wrong face for the opposite side's points

---
 .../trace/elements/element/coordinate_transformation/main.py  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
index b605aa7..ab51718 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
@@ -97,8 +97,10 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
         """
         i = self._te_.CHARACTERISTIC_element
         element_side = self._te_.CHARACTERISTIC_side
+        # three full points may come from the other side (e.g. from the local trace forms).
+        picking = (not parse_3_1d_eps) and len(evaluation_points) == 3
         ep = self._te_._elements_.___generate_full_ep___(
-            evaluation_points, element_side, parse_3_1d_eps=parse_3_1d_eps)
+            evaluation_points, element_side, parse_3_1d_eps=parse_3_1d_eps, picking=picking)
         J = self._te_._mesh_.elements[i].coordinate_transformation.Jacobian_matrix(*ep)
         if element_side in 'NS':
             return ((J[0][1], J[0][2]),
-- 
2.43.0


From 2123e1f998c39f04354dfcfc7f8d97d542a43185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 38/96] fix: setting the global cochain of a dual trace form
 from a distributed vector used names that do not exist

---
 objects/CSCG/_3d/ADF/trace/base/cochain/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
index 7aa7618..e265d59 100644
--- a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
@@ -61,7 +61,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
         if globe.__class__.__name__ == 'DistributedVector':
             assert globe.V.shape == (self._dt_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
-            if globe.IS_master_dominating:
+            if globe.whether.master_dominating:
                 # no need to gather
                 VV = globe.V.T.toarray()[0]
             else:
@@ -74,7 +74,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
                         data = v.data
                         VV[indices] = data
             # distribute vector to individual cores ...
-            local_range = self._dt_.numbering.gathering.local_range
+            local_range = self._dt_.prime.numbering.gathering.local_range
             local_range = COMM.gather(local_range, root=MASTER_RANK)
             if RANK == MASTER_RANK:
                 TO_BE_SENT = list()
-- 
2.43.0


From 0e59328ba546cb93aee3ed292f7d95fd0ba7e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 39/96] fix: inverse of a 1x1 element matrix came out as a
 dense array

---
 .../dataStructures/objects/sparseMatrix/helpers/inv.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
index 6338417..0610c95 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
@@ -5,6 +5,7 @@ from components.freeze.base import FrozenOnly
 
 
 
+from scipy.sparse import csc_matrix, issparse
 from scipy.sparse import linalg as spspalinalg
 
 
@@ -14,4 +15,8 @@ class ___LinearAlgebraINV___(FrozenOnly):
         self._freeze_self_()
 
     def __call__(self, item):
-        return spspalinalg.inv(self._ewc_[item].tocsc())
+        inv = spspalinalg.inv(self._ewc_[item].tocsc())
+        if not issparse(inv):
+            # scipy returns a dense 1d array for the inverse of a 1x1 sparse matrix.
+            inv = csc_matrix(inv.reshape((1, 1)))
+        return inv
-- 
2.43.0


From 8b5293ef5885495ac3234670350762bebb5b997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 40/96] fix: 2-M-0 output of (1-form X 1-form, 1-form)
 contracted the wrong operand

---
 .../forms/standard/_1s/special/helpers/cross_product_1__ip_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 7d7e65a..48361e4 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -114,7 +114,7 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
 
     def _2_M_0_(self, i):
         """return 2d matrix of output = '2-M-1' type for mesh-element #i."""
-        M = np.einsum('ijk, i -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
+        M = np.einsum('ijk, j -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
         return csr_matrix(M)
 
     #     """
-- 
2.43.0


From f90014572a7783f3fd77cd9c34e86912f74cf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 41/96] fix: Jacobian in the 3d cross products was evaluated at
 points in another order than the integrands

---
 .../standard/_1s/special/helpers/cross_product_1__ip_1.py   | 6 +++---
 .../standard/_1s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_1__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_1.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../_2s/special/helpers/cross_product_2__ip_2_2M0.py        | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 48361e4..c33c4db 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -54,9 +54,9 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
         RMe = e1.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
index 2ecd3d4..6c3590e 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
@@ -52,9 +52,9 @@ class ___3dCSCG_1Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
index e135ccc..892e907 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_1__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index 9936072..3102141 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -56,9 +56,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
             RMe = j.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = u.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
index 685222b..a91bf33 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
index 40a5ec7..a44e63c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
@@ -48,9 +48,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2_2M0___(FrozenOnly):
             RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
-- 
2.43.0


From dd7ae098870a300743f8988379602717d85bf112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 42/96] fix: cached 3d matrices of special operators were used
 for other forms living at the same addresses

---
 .../forms/standard/_2s/special/helpers/cross_product_2__ip_1.py | 2 ++
 .../forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index 3102141..4833ca5 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -18,6 +18,7 @@ from tools.elementwiseCache.dataStructures.objects.multiDimMatrix.main import Mu
 
 _global_cache = {
     'key': '',
+    'forms': (None, None, None),  # keep the forms alive such that their ids are not reused.
     'data': dict(),
 }
 
@@ -104,6 +105,7 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
                     CP_IP_3dM[i] = Aa + Bb + Cc
 
             _global_cache['key'] = key
+            _global_cache['forms'] = (u, B, j)
             _global_cache['data'] = CP_IP_3dM
 
         self._CP_IP_3dM_ = CP_IP_3dM
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
index d1a6755..950437e 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
@@ -13,6 +13,7 @@ from scipy.sparse import csc_matrix, bmat, csr_matrix
 
 _global_cache = {
     'key': '',
+    'forms': (None, None, None),  # keep the forms alive such that their ids are not reused.
     'data': dict(),
 }
 
@@ -97,6 +98,7 @@ class _InnerCurlCrossProduct_2f2f(FrozenOnly):
                     raise NotImplementedError()
 
             _global_cache['key'] = key
+            _global_cache['forms'] = (u2, B2, b2)
             _global_cache['data'] = _3dM
 
         self._3dM = _3dM
-- 
2.43.0


From 4507729558b3646a9a6cfa80933eaa9bd88a7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 43/96] fix: Q and lambda_2 used entrywise instead of matrix
 squares of the strain and rotation tensors

---
 .../standard/_1s/special/vortex_detection.py  | 37 +++++++------------
 .../standard/_2s/special/vortex_detection.py  | 37 +++++++------------
 2 files changed, 26 insertions(+), 48 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py b/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
index ad08d09..064763c 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
@@ -166,30 +166,19 @@ class ___3dCSCG_1Form_Vortex_Detection___(FrozenOnly):
 
             SHAPE = s00.shape
 
-            so_00 = (s00**2 + o00**2).ravel('F')
-            so_01 = (s01**2 + o01**2).ravel('F')
-            so_02 = (s02**2 + o02**2).ravel('F')
-
-            so_10 = (s10**2 + o10**2).ravel('F')
-            so_11 = (s11**2 + o11**2).ravel('F')
-            so_12 = (s12**2 + o12**2).ravel('F')
-
-            so_20 = (s20**2 + o20**2).ravel('F')
-            so_21 = (s21**2 + o21**2).ravel('F')
-            so_22 = (s22**2 + o22**2).ravel('F')
-
-            so = np.zeros((len(so_00),3,3))
-            so[:,0,0] = so_00
-            so[:,0,1] = so_01
-            so[:,0,2] = so_02
-            so[:,1,0] = so_10
-            so[:,1,1] = so_11
-            so[:,1,2] = so_12
-            so[:,2,0] = so_20
-            so[:,2,1] = so_21
-            so[:,2,2] = so_22
-
-            eigen_values, _ = np.linalg.eig(so)
+            S = np.zeros((s00.size, 3, 3))
+            Omega = np.zeros((s00.size, 3, 3))
+            for m, (s_, o_) in enumerate((((s00, s01, s02), (o00, o01, o02)),
+                                          ((s10, s11, s12), (o10, o11, o12)),
+                                          ((s20, s21, s22), (o20, o21, o22)))):
+                for n in range(3):
+                    S[:, m, n] = np.ravel(s_[n], 'F')
+                    Omega[:, m, n] = np.ravel(o_[n], 'F')
+
+            # S^2 + Omega^2 are matrix products; the result is symmetric.
+            so = S @ S + Omega @ Omega
+
+            eigen_values = np.linalg.eigvalsh(so)
             Q[i] = (- 0.5 * np.sum(eigen_values, axis=1)).reshape(SHAPE, order='F')
             eigen_values = np.sort(eigen_values, axis=1)
             LAMBDA_2[i] = eigen_values[:,1].reshape(SHAPE, order='F')
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py b/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
index 9f54026..1ad3ff0 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
@@ -162,30 +162,19 @@ class ___3dCSCG_2Form_Vortex_Detection___(FrozenOnly):
 
             SHAPE = s00.shape
 
-            so_00 = (s00**2 + o00**2).ravel('F')
-            so_01 = (s01**2 + o01**2).ravel('F')
-            so_02 = (s02**2 + o02**2).ravel('F')
-
-            so_10 = (s10**2 + o10**2).ravel('F')
-            so_11 = (s11**2 + o11**2).ravel('F')
-            so_12 = (s12**2 + o12**2).ravel('F')
-
-            so_20 = (s20**2 + o20**2).ravel('F')
-            so_21 = (s21**2 + o21**2).ravel('F')
-            so_22 = (s22**2 + o22**2).ravel('F')
-
-            so = np.zeros((len(so_00), 3, 3))
-            so[:, 0, 0] = so_00
-            so[:, 0, 1] = so_01
-            so[:, 0, 2] = so_02
-            so[:, 1, 0] = so_10
-            so[:, 1, 1] = so_11
-            so[:, 1, 2] = so_12
-            so[:, 2, 0] = so_20
-            so[:, 2, 1] = so_21
-            so[:, 2, 2] = so_22
-
-            eigen_values, _ = np.linalg.eig(so)
+            S = np.zeros((s00.size, 3, 3))
+            Omega = np.zeros((s00.size, 3, 3))
+            for m, (s_, o_) in enumerate((((s00, s01, s02), (o00, o01, o02)),
+                                          ((s10, s11, s12), (o10, o11, o12)),
+                                          ((s20, s21, s22), (o20, o21, o22)))):
+                for n in range(3):
+                    S[:, m, n] = np.ravel(s_[n], 'F')
+                    Omega[:, m, n] = np.ravel(o_[n], 'F')
+
+            # S^2 + Omega^2 are matrix products; the result is symmetric.
+            so = S @ S + Omega @ Omega
+
+            eigen_values = np.linalg.eigvalsh(so)
             Q[i] = (- 0.5 * np.sum(eigen_values, axis=1)).reshape(SHAPE, order='F')
             eigen_values = np.sort(eigen_values, axis=1)
 
-- 
2.43.0


From aa48b07e6777dce702963e8cf0563a5894d0f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 44/96] fix: Ln norm of 2d vector fields sums its two
 components

---
 objects/CSCG/_2d/fields/vector/do/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/fields/vector/do/main.py b/objects/CSCG/_2d/fields/vector/do/main.py
index 1ed9747..34b132d 100644
--- a/objects/CSCG/_2d/fields/vector/do/main.py
+++ b/objects/CSCG/_2d/fields/vector/do/main.py
@@ -46,7 +46,7 @@ class _2dCSCG_VectorField_DO(FrozenOnly):
 
                 local_norm.append(
                     np.sum(
-                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n+(QuadValue[i][2])**n)
+                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n)
                         * quad_weights
                         * detJ[i]
                     )
-- 
2.43.0


From 56990daf7a02ce204676b00a2398c91924fcde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 45/96] fix: inner product of a 3d vector field with the space
 of a 1- or 2-form recognizes the forms

---
 objects/CSCG/_3d/fields/vector/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/fields/vector/main.py b/objects/CSCG/_3d/fields/vector/main.py
index 8fa5101..533d1db 100644
--- a/objects/CSCG/_3d/fields/vector/main.py
+++ b/objects/CSCG/_3d/fields/vector/main.py
@@ -206,10 +206,10 @@ class _3dCSCG_VectorField(_3dCSCG_Continuous_FORM_BASE, ndim=3):
         """
         if self.ftype == 'standard':
             assert self.mesh == other.mesh
-            if other.__class__.__name__ == '_2Form':
+            if other.__class__.__name__ == '_3dCSCG_2Form':
                 # when other is a 2-form, we consider self as a (star of) continuous 1-form.
                 DG = _VF_InnerWith2Form(self, other, quad_degree)
-            elif other.__class__.__name__ == '_1Form':
+            elif other.__class__.__name__ == '_3dCSCG_1Form':
                 # when other is a 1-form, we consider self as a (star of) continuous 2-form.
                 DG = _VF_InnerWith1Form(self, other, quad_degree)
             else:
-- 
2.43.0


From 7e721c486a554d6ac03f7817378edb5918f5543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 46/96] fix: boundary-wise vector fields keep the given
 dictionary and use the tangential coordinate on 2d edges

---
 .../vector/do/reconstruct/trace_element/boundary_wise.py  | 8 ++++----
 objects/CSCG/_2d/fields/vector/main.py                    | 5 +++--
 objects/CSCG/_3d/fields/vector/main.py                    | 5 +++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/fields/vector/do/reconstruct/trace_element/boundary_wise.py b/objects/CSCG/_2d/fields/vector/do/reconstruct/trace_element/boundary_wise.py
index 1fda2d7..44765aa 100644
--- a/objects/CSCG/_2d/fields/vector/do/reconstruct/trace_element/boundary_wise.py
+++ b/objects/CSCG/_2d/fields/vector/do/reconstruct/trace_element/boundary_wise.py
@@ -53,11 +53,11 @@ class OnTraceElement_BoundaryWise(FrozenOnly):
             assert te.whether.on_mesh_boundary, f"must be the case because ftype == 'boundary-wise!"
 
 
-            if te.normal_direction == 'UD':
-                # only accept 1d arrays
-                xyz_i = te.coordinate_transformation.mapping(xi)
-            else:
+            # only accept 1d arrays
+            if te.normal_direction == 'UD':  # xi is constant along the edge.
                 xyz_i = te.coordinate_transformation.mapping(eta)
+            else:  # eta is constant along the edge.
+                xyz_i = te.coordinate_transformation.mapping(xi)
 
             bn = te.on_mesh_boundary
             assert bn in func, f"trace element #{I_} is on <{bn}> which is not covered by boundary-wise func."
diff --git a/objects/CSCG/_2d/fields/vector/main.py b/objects/CSCG/_2d/fields/vector/main.py
index cf2c292..0d639b7 100644
--- a/objects/CSCG/_2d/fields/vector/main.py
+++ b/objects/CSCG/_2d/fields/vector/main.py
@@ -100,6 +100,7 @@ class _2dCSCG_VectorField(_2dCSCG_Continuous_FORM_BASE, ndim=2):
                                            f"we must put functions in a dict whose " \
                                            f"keys are boundary names and values are" \
                                            f"the functions."
+            _func_ck_ = dict()
             for bn in func:
                 assert bn in self.mesh.boundaries.names, \
                     f"func key: [{bn}] is not a valid boundary name " \
@@ -123,9 +124,9 @@ class _2dCSCG_VectorField(_2dCSCG_Continuous_FORM_BASE, ndim=2):
                         raise Exception()
                     _func_bn_ck_.append(fci)
 
-                func[bn] = _func_bn_ck_
+                _func_ck_[bn] = _func_bn_ck_
 
-            self._func_ = func
+            self._func_ = _func_ck_
 
         else:
             raise Exception(f" <_2dCSCG_VectorField> do not accept funcType={ftype}")
diff --git a/objects/CSCG/_3d/fields/vector/main.py b/objects/CSCG/_3d/fields/vector/main.py
index 533d1db..b68a641 100644
--- a/objects/CSCG/_3d/fields/vector/main.py
+++ b/objects/CSCG/_3d/fields/vector/main.py
@@ -98,6 +98,7 @@ class _3dCSCG_VectorField(_3dCSCG_Continuous_FORM_BASE, ndim=3):
                                            f"we must put functions in a dict whose " \
                                            f"keys are boundary names and values are" \
                                            f"the functions."
+            _func_ck_ = dict()
             for bn in func:
                 assert bn in self.mesh.boundaries.names, \
                     f"func key: [{bn}] is not a valid boundary name " \
@@ -121,9 +122,9 @@ class _3dCSCG_VectorField(_3dCSCG_Continuous_FORM_BASE, ndim=3):
                         raise Exception()
                     _func_bn_ck_.append(fci)
 
-                func[bn] = _func_bn_ck_
+                _func_ck_[bn] = _func_bn_ck_
 
-            self._func_ = func
+            self._func_ = _func_ck_
 
         elif ftype == 'trace-element-wise':  # no need to cover all trace elements.
             # we have received a dict whose keys are local trace elements,
-- 
2.43.0


From 6cf5d6f619d78bbb721ddc61ee7e194ab05b4fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 47/96] fix: boundary-condition caches keyed by id returned
 data of other forms, fields or boundaries

---
 .../base/BC/interpret/helpers/boundary_cochain.py  | 14 +++++++-------
 .../BC/interpret/helpers/boundary_integration.py   |  7 ++++---
 objects/CSCG/base/forms/base/BC/interpret/local.py |  6 +++---
 .../miUsGrid/base/form/base/BC/interpret/local.py  |  6 +++---
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
index 7e35218..ac6271d 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
@@ -19,9 +19,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
         self._elements_ = f.mesh.elements
         self.___empty___ = csc_matrix((f.num.basis, 1))
         self.___boundary_cochain_cache___ = None
-        self._representing_CF_ = -1  # will store id, so use int
+        self._representing_CF_ = None
         self._representing_ct_ = None
-        self._representing_boundaries_ = -1  # will store id, so use int
+        self._representing_parts_ = None
         self._freeze_self_()
 
     def ___Pr_make_mesh_element_wise_boundary_local_dofs___(self):
@@ -61,11 +61,11 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             raise NotImplementedError(f"indicator={indicator} is not implemented.")
 
         # we update representing information below.
-        self._representing_CF_ = id(self._f_.BC.CF)
+        self._representing_CF_ = self._f_.BC.CF
         # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
         self._representing_ct_ = self._f_.BC.CF.current_time
-        # we update representing boundaries as well
-        self._representing_boundaries_ = id(self._f_.BC.boundaries)
+        # we update representing boundaries as well; the list of parts is renewed each time the boundaries are set.
+        self._representing_parts_ = self._f_.BC._involved_element_parts_
 
     @property
     def ___Pr_BcCo___(self):
@@ -73,9 +73,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             self.___Pr_make_mesh_element_wise_boundary_local_dofs___()
         else:
             # the following check is OK, since when CF is None, we will never call `___Pr_BcCo___`.
-            if self._representing_CF_ == id(self._f_.BC.CF) and \
+            if self._representing_CF_ is self._f_.BC.CF and \
                     self._representing_ct_ == self._f_.BC.CF.current_time and \
-                    self._representing_boundaries_ == id(self._f_.BC.boundaries):
+                    self._representing_parts_ is self._f_.BC._involved_element_parts_:
                 # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
                 pass  # as nothing has changed, so we use the cached instance.
             else:
diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
index 054e8ea..b093384 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
@@ -54,7 +54,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
         self.basis = self._f_.do.evaluate_basis_at_meshgrid(
             *self.quad_nodes, compute_xietasigma=False
         )[1]
-        self._representing_boundaries_ = -1
+        self._representing_parts_ = -1
         self._rm_ = self.___Pr_renew_RM___()
         if '3dCSCG_local_trace_form' in self._f_.standard_properties.tags:
             self._assembler_ = VectorAssembler(self._f_.numbering.local_gathering)
@@ -64,7 +64,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
 
     def ___Pr_renew_RM___(self):
         """"""
-        if self._representing_boundaries_ == id(self._f_.BC.boundaries):
+        if self._representing_parts_ is self._f_.BC._involved_element_parts_:
             return self._rm_   # no need to renew the reconstruction matrices
 
         else:   # renew rm
@@ -73,7 +73,8 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
                 *self.quad_nodes, element_range=self._f_.BC._involved_element_parts_
             )
 
-            self._representing_boundaries_ = id(self._f_.BC.boundaries)
+            # the list of parts is renewed each time the boundaries are set.
+            self._representing_parts_ = self._f_.BC._involved_element_parts_
             self._rm_ = rm
             return rm
 
diff --git a/objects/CSCG/base/forms/base/BC/interpret/local.py b/objects/CSCG/base/forms/base/BC/interpret/local.py
index dbcd414..e034cd6 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/local.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/local.py
@@ -8,7 +8,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___CSCG_global_BC_itp_Local_dofs_cache___ = {
-    'iEP_ID': -1,
+    'iEP': None,  # keep the list itself (not its id): a live list has a unique identity.
     'dofs': dict(),
 }
 
@@ -33,7 +33,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEP = self._f_.BC._involved_element_parts_
 
-        if id(iEP) == ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID']:
+        if iEP is not None and iEP is ___CSCG_global_BC_itp_Local_dofs_cache___['iEP']:
             self._dofs_ = ___CSCG_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -53,7 +53,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID'] = id(iEP)
+            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP'] = iEP
             ___CSCG_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
diff --git a/objects/miUsGrid/base/form/base/BC/interpret/local.py b/objects/miUsGrid/base/form/base/BC/interpret/local.py
index ed2694a..aacffa8 100644
--- a/objects/miUsGrid/base/form/base/BC/interpret/local.py
+++ b/objects/miUsGrid/base/form/base/BC/interpret/local.py
@@ -11,7 +11,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___miUSGrid_global_BC_itp_Local_dofs_cache___ = {
-    'iEE_ID': -1,
+    'iEE': None,  # keep the list itself (not its id): a live list has a unique identity.
     'dofs': dict(),
 }
 
@@ -36,7 +36,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEE = self._f_.BC._involved_element_parts_
 
-        if id(iEE) == ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID']:
+        if iEE is not None and iEE is ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE']:
             self._dofs_ = ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -55,7 +55,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID'] = id(iEE)
+            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE'] = iEE
             ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
-- 
2.43.0


From a2e244d41ede332f2afcec82c670da55d1c3ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 48/96] fix: boundary integrals of 3d 1-forms and 2d outer
 0-forms evaluate the field at physical coordinates with the weights of the
 edge

---
 .../outer/boundary_integrate/helpers/ipS_helper.py       | 9 ++++++---
 .../_1s/boundary_integration/helpers/V_helper.py         | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
index 1ad8088..c32e7bb 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
@@ -41,8 +41,8 @@ class ipS_Helper(FrozenOnly):
         Qd = [[1, ], Qlr]
         Ql = [Qud, [-1, ]]
         Qr = [Qud, [1, ]]
-        self.Wu = self.Wd = Wud
-        self.Wl = self.Wr = Wlr
+        self.Wu = self.Wd = Wlr  # edges U, D go along the second axis.
+        self.Wl = self.Wr = Wud  # edges L, R go along the first axis.
 
         self.GMu = sf.do.make_reconstruction_matrix_on_grid(*Qu, element_range='mesh boundary')
         self.GMd = sf.do.make_reconstruction_matrix_on_grid(*Qd, element_range='mesh boundary')
@@ -79,7 +79,10 @@ class ipS_Helper(FrozenOnly):
 
                     fv = self._S_.___DO_evaluate_func_at_time___()[bn][0]
 
-                    fv = fv(*getattr(self, 'Q'+side)).ravel('F')
+                    # the scalar is a function of the physical coordinates.
+                    xy = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+
+                    fv = fv(*xy).ravel('F')
                     GM = getattr(self, 'GM'+side)[i]
                     QW = getattr(self, 'W' + side)
 
diff --git a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
index ef8d050..f5250e4 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
@@ -90,9 +90,12 @@ class S1F_BI_V_Helper(FrozenOnly):
 
                     vf0, vf1, vf2 = self._V_.func[bn]
 
-                    vf0 = vf0(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf1 = vf1(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf2 = vf2(t, *getattr(self, 'Q'+side)).ravel('F')
+                    # the vector is a function of the physical coordinates.
+                    xyz = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+
+                    vf0 = vf0(t, *xyz).ravel('F')
+                    vf1 = vf1(t, *xyz).ravel('F')
+                    vf2 = vf2(t, *xyz).ravel('F')
 
                     GM0, GM1, GM2 = getattr(self, 'GM'+side)[i]
 
-- 
2.43.0


From c856f79ef9c1aceb2742d054d4fbe4f7a17ccaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 49/96] fix: boundary conditions of dual forms follow the
 function and its time after their first use

---
 objects/CSCG/base/ADF/base/BC/interpret/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/base/ADF/base/BC/interpret/main.py b/objects/CSCG/base/ADF/base/BC/interpret/main.py
index 8059b0a..c675c94 100644
--- a/objects/CSCG/base/ADF/base/BC/interpret/main.py
+++ b/objects/CSCG/base/ADF/base/BC/interpret/main.py
@@ -16,6 +16,8 @@ class CSCG_AFORM_BC_Interpret(FrozenOnly):
         self._adf_ = adf
         self._mesh_ = adf.mesh
         self._local_ = None
+        self._local_CF_ = None
+        self._local_ct_ = None
         self._freeze_self_()
 
     def RESET_cache(self):
@@ -24,6 +26,11 @@ class CSCG_AFORM_BC_Interpret(FrozenOnly):
     @property
     def local(self):
         """We interpret the BC in local elements."""
-        if self._local_ is None:
+        CF = self._adf_.BC.CF
+        ct = None if CF is None else CF.current_time
+        if self._local_ is None or self._local_CF_ is not CF or self._local_ct_ != ct:
+            # the cochains depend on the function and its current time.
             self._local_ = CSCG_AFORM_BC_Interpret_Local(self._adf_)
+            self._local_CF_ = CF
+            self._local_ct_ = ct
         return self._local_
-- 
2.43.0


From 3e70155b0c15d2775bc42624705515487b238e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 50/96] fix: flux on the mesh boundary can be prescribed to
 0-trace-forms

---
 .../trace/_0tr/discretize/scalar/trace_element_wise.py      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/objects/CSCG/_3d/forms/trace/_0tr/discretize/scalar/trace_element_wise.py b/objects/CSCG/_3d/forms/trace/_0tr/discretize/scalar/trace_element_wise.py
index 63b6375..91f7277 100644
--- a/objects/CSCG/_3d/forms/trace/_0tr/discretize/scalar/trace_element_wise.py
+++ b/objects/CSCG/_3d/forms/trace/_0tr/discretize/scalar/trace_element_wise.py
@@ -29,6 +29,12 @@ class _3dCSCG_0Trace_Discretize_TEW_Scalar(FrozenOnly):
         local_TEW = dict()
         for i in SELF.mesh.trace.elements:
 
+            if target == 'BC' and i not in TEW_FUNC:
+                # a boundary condition does not need to cover internal trace-elements.
+                continue
+            else:
+                pass
+
             te_primal_local = TEW_FUNC[i](nx, ny, nz)[1][0].ravel('F')
 
             if not SELF.space.IS_Kronecker: raise NotImplementedError()
-- 
2.43.0


From 8256b818d4ecd13b42355edcf5d50236fbfc95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 51/96] fix: boundary integration of 2-local-trace-forms was
 silently zero

---
 .../interpret/helpers/boundary_integration.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
index b093384..85522a7 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
@@ -65,13 +65,16 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
     def ___Pr_renew_RM___(self):
         """"""
         if self._representing_parts_ is self._f_.BC._involved_element_parts_:
-            return self._rm_   # no need to renew the reconstruction matrices
+            return self._rm_   # no need to renew the involved sides
 
         else:   # renew rm
 
-            rm = self._f_.reconstruct.___PrLT_make_reconstruction_matrix_on_grid___(
-                *self.quad_nodes, element_range=self._f_.BC._involved_element_parts_
-            )
+            rm = dict()  # the sides involved in each local mesh element.
+            for e_p in self._f_.BC._involved_element_parts_ or list():
+                element, side = int(e_p[:-1]), e_p[-1]
+                if element not in rm:
+                    rm[element] = list()
+                rm[element].append(side)
 
             # the list of parts is renewed each time the boundaries are set.
             self._representing_parts_ = self._f_.BC._involved_element_parts_
@@ -107,7 +110,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
                 if '3dCSCG_local_trace_form' in self._f_.standard_properties.tags:
 
                     cf = self._f_.BC.CF
-                    valid_sides = rm[i].keys()
+                    valid_sides = rm[i]
                     Tmap = self._mesh_.trace.elements.map[i]
 
                     local_vector = dict()
@@ -123,7 +126,11 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
                                 func = self._f_.BC.CF.do.evaluate_func_at_time()[boundary_name]
                                 func = [_(x, y, z) for _ in func]
                                 basis = self.basis[vs]
-                                constant_Jacobian = te.coordinate_transformation.constant.Jacobian
+                                if self._f_.k == 2:
+                                    # basis functions of a 2-form are densities, i.e. divided by the Jacobian.
+                                    constant_Jacobian = 1
+                                else:
+                                    constant_Jacobian = te.coordinate_transformation.constant.Jacobian
 
                                 if len(func) == 1:  # we are looking at a scalar.
                                     func = func[0]
-- 
2.43.0


From 64f57ebccc43e93609a8e266542bb905b7c86932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 52/96] fix: sums and differences of element-wise vectors
 ignored the cache key of the second vector

---
 .../dataStructures/objects/columnVector/helpers/add.py          | 2 +-
 .../dataStructures/objects/columnVector/helpers/sub.py          | 2 +-
 .../dataStructures/objects/columnVector/main.py                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index f34ec64..8d66937 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 582eaaf..40e4875 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index f4229da..9232b01 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -227,7 +227,7 @@ class EWC_ColumnVector(FrozenOnly):
 
             cgm0 = list()
             for _ in gathering_matrix:
-                if _.__class__.__name__ in ('Gathering_Matrix', 'iR_Gathering_Matrix,'):
+                if _.__class__.__name__ in ('Gathering_Matrix', 'iR_Gathering_Matrix'):
                     cgm0.append(_)
                 else:
                     if hasattr(_, '___IS_ADF___') and _.___IS_ADF___:
-- 
2.43.0


From c6f03db21895a50c2440136e1363b4fd469f087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 53/96] fix: element-wise operators composed ambiguous cache
 keys

---
 tools/elementwiseCache/dataStructures/keys.py | 25 +++++++++++++++++++
 .../columnVector/helpers/___PRIVATE_sum___.py |  3 ++-
 .../objects/columnVector/helpers/add.py       |  3 ++-
 .../objects/columnVector/helpers/sub.py       |  3 ++-
 .../objects/sparseMatrix/helpers/Psum.py      |  3 ++-
 .../objects/sparseMatrix/helpers/add.py       |  3 ++-
 .../objects/sparseMatrix/helpers/matmul.py    |  3 ++-
 .../objects/sparseMatrix/helpers/sub.py       |  3 ++-
 .../objects/sparseMatrix/helpers/vecmul.py    |  3 ++-
 .../bmat/sparse_matrix/helpers/KG.py          |  5 ++--
 .../concatenate/column_vector/helpers/KG.py   |  5 ++--
 11 files changed, 45 insertions(+), 14 deletions(-)
 create mode 100644 tools/elementwiseCache/dataStructures/keys.py

diff --git a/tools/elementwiseCache/dataStructures/keys.py b/tools/elementwiseCache/dataStructures/keys.py
new file mode 100644
index 0000000..53a37ae
--- /dev/null
+++ b/tools/elementwiseCache/dataStructures/keys.py
@@ -0,0 +1,25 @@
+# -*- coding: utf-8 -*-
+
+
+def compose_cache_keys(*keys):
+    """Make the cache key of an element-wise object which is computed from several element-wise objects.
+
+    Different tuples of keys never lead to the same key. For example, ('a', 'bc') and ('ab', 'c') are
+    different, so we cannot simply put the keys one after another.
+
+    Parameters
+    ----------
+    keys :
+        The keys (str) of all involved objects in the same element.
+
+    Returns
+    -------
+    key : str
+
+    """
+    if all([key == '>CT<' for key in keys]):  # all are constant
+        return '>CT<'
+    elif any(['>NC<' in key for key in keys]):  # at least one is not cached.
+        return '>NC<'
+    else:
+        return ''.join([f"{len(key)}:{key}" for key in keys])
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index a381481..a00a6be 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 22:55
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ColVec_PRIVATE_sum(FrozenOnly):
@@ -26,4 +27,4 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._cv_:
             KEY.append(v._KG_(basic_unit))
-        return ''.join(KEY)
+        return compose_cache_keys(*KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index 8d66937..8b750d2 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___CV_ADD___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return compose_cache_keys(self._v1_._KG_(i), self._v2_._KG_(i))
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 40e4875..5efa432 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___CV_SUB___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return compose_cache_keys(self._v1_._KG_(i), self._v2_._KG_(i))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 8a59fc1..81711ae 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 23:22
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class SpaMat_PRIVATE_sum(FrozenOnly):
@@ -25,4 +26,4 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._Ms_:
             KEY.append(v._KG_(basic_unit))
-        return ''.join(KEY)
+        return compose_cache_keys(*KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index 8c5dcc6..cc20bb8 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___ADD___(FrozenOnly):
@@ -12,4 +13,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 47bf42c..1299a1d 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___MATMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index bd48478..6f33f9f 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___SUB___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index 5153e84..30196c9 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___VECMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return self._ewc_S_._KG_(item) + self._ewc_V_._KG_(item)
+        return compose_cache_keys(self._ewc_S_._KG_(item), self._ewc_V_._KG_(item))
diff --git a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
index f27256d..8dcfd7b 100644
--- a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___BMAT_HELPER_KeyGenerator___:
@@ -48,8 +49,6 @@ class ___BMAT_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.valid_block:
-                key_out += vb._KG_(item)
+            key_out = compose_cache_keys(*[vb._KG_(item) for vb in self.valid_block])
 
         return key_out
diff --git a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
index 0deda74..ebadd3e 100644
--- a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.keys import compose_cache_keys
 
 
 class ___concatenate_HELPER_KeyGenerator___:
@@ -42,8 +43,6 @@ class ___concatenate_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.vectors:
-                key_out += vb._KG_(i)
+            key_out = compose_cache_keys(*[vb._KG_(i) for vb in self.vectors])
 
         return key_out
-- 
2.43.0


From 32f9d7543ddd09488e9d3b1a612c3a51874732cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:04 +0000
Subject: [PATCH 54/96] fix: blocks of a bmat without None blocks were not
 accessible

---
 .../dataStructures/objects/sparseMatrix/blocks/main.py     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
index 39c61db..dfe099e 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
@@ -17,8 +17,11 @@ class EWC_SpaMat_Blocks(FrozenOnly):
         assert GM0 is not None and GM1 is not None, f"To access blocks, must have gathering matrices."
 
         self._shape_ = spa_mat.bmat_shape
-        self.___BLOCKS___ = np.array(spa_mat._DG_.blocks, dtype=object)
-
+        # fill the array block by block since `np.array` would expand the blocks (they are iterable).
+        self.___BLOCKS___ = np.empty(tuple(self._shape_), dtype=object)
+        for i, Bi in enumerate(spa_mat._DG_.blocks):
+            for j, Bij in enumerate(Bi):
+                self.___BLOCKS___[i, j] = Bij
 
         # - replace all None blocks by zero-blocks --------------------------------------------
         SHAPE = self.___BLOCKS___.shape
-- 
2.43.0


From 8bdbd8d2c2f1df07590f1846cb30d6a85c17abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 55/96] fix: expressions over customized element-wise operands
 were cached without their customizations

---
 .../columnVector/helpers/___PRIVATE_sum___.py |  2 +-
 .../objects/columnVector/helpers/add.py       |  2 +-
 .../objects/columnVector/helpers/sub.py       |  2 +-
 .../objects/columnVector/main.py              | 14 ++++++++++---
 .../objects/sparseMatrix/helpers/Psum.py      |  2 +-
 .../objects/sparseMatrix/helpers/add.py       |  2 +-
 .../objects/sparseMatrix/helpers/matmul.py    |  2 +-
 .../objects/sparseMatrix/helpers/sub.py       |  2 +-
 .../objects/sparseMatrix/helpers/vecmul.py    |  2 +-
 .../objects/sparseMatrix/main.py              | 20 +++++++++++++------
 10 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index a00a6be..12d344c 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -26,5 +26,5 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._cv_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_cache_key___(basic_unit))
         return compose_cache_keys(*KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index 8b750d2..5d69076 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -15,4 +15,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return compose_cache_keys(self._v1_._KG_(i), self._v2_._KG_(i))
+        return compose_cache_keys(self._v1_.___PRIVATE_cache_key___(i), self._v2_.___PRIVATE_cache_key___(i))
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 5efa432..5254187 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -15,4 +15,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return compose_cache_keys(self._v1_._KG_(i), self._v2_._KG_(i))
+        return compose_cache_keys(self._v1_.___PRIVATE_cache_key___(i), self._v2_.___PRIVATE_cache_key___(i))
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index 9232b01..cb5e229 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -204,6 +204,14 @@ class EWC_ColumnVector(FrozenOnly):
         assert i in self.elements
         return self.___NC___
 
+    def ___PRIVATE_cache_key___(self, i):
+        """The cache key of my output (after customization) in element #i. The objects computed from me use it."""
+        if self.customize._customizations_ == dict():
+            # noinspection PyCallingNonCallable
+            return self._KG_(i)
+        else:  # customizations change outputs in particular elements, so never cache.
+            return self.___NC___
+
     def ___PRIVATE_dict_2_method_data_generator___(self, i):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
@@ -375,7 +383,7 @@ class EWC_ColumnVector(FrozenOnly):
         """- EWC_ColumnVector"""
         data_generator = ___CV_NEG___(self)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -384,7 +392,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -393,7 +401,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 81711ae..db81d52 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -25,5 +25,5 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._Ms_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_cache_key___(basic_unit))
         return compose_cache_keys(*KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index cc20bb8..7c2679a 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -13,4 +13,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
+        return compose_cache_keys(self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 1299a1d..03dd732 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -14,4 +14,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
+        return compose_cache_keys(self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index 6f33f9f..da042dc 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -14,4 +14,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return compose_cache_keys(self._ewc1_._KG_(item), self._ewc2_._KG_(item))
+        return compose_cache_keys(self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index 30196c9..3fd3ec9 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -14,4 +14,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return compose_cache_keys(self._ewc_S_._KG_(item), self._ewc_V_._KG_(item))
+        return compose_cache_keys(self._ewc_S_.___PRIVATE_cache_key___(item), self._ewc_V_.___PRIVATE_cache_key___(item))
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index f07731c..f280da1 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -246,6 +246,14 @@ class EWC_SparseMatrix(FrozenOnly):
     def ___PRIVATE_no_cache_key_generator___(self, i):
         return self.___NC___
 
+    def ___PRIVATE_cache_key___(self, i):
+        """The cache key of my output (after customization) in element #i. The objects computed from me use it."""
+        if self.customize._customizations_ == dict():
+            # noinspection PyCallingNonCallable
+            return self._KG_(i)
+        else:  # customizations change outputs in particular elements, so never cache.
+            return self.___NC___
+
     def ___PRIVATE_dict_2_method_data_generator___(self, i):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
@@ -473,7 +481,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -487,7 +495,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -500,7 +508,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___TRUE_DIV___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -514,7 +522,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def __neg__(self):
         """- EWC_SparseMatrix"""
         data_generator = ___NEG___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -546,7 +554,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def T(self):
         """Transpose of self."""
         data_generator = ___TRANSPOSE___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
 
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = (self.gathering_matrices[1], self.gathering_matrices[0])
@@ -560,7 +568,7 @@ class EWC_SparseMatrix(FrozenOnly):
         Watch out, this could be very slow.
         """
         data_generator = ___LinearAlgebraINV___(self)
-        return EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        return EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
 
     def ___PRIVATE_sum___(self, others):
         """self + all others."""
-- 
2.43.0


From 2878b9eec16ca417e4660c0841520fbf70f3d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 56/96] fix: chained gathering matrices passed alone are
 accepted, irregular ones find their dofs

---
 .../gathering/irregular/ir_chain_matrix/do/find.py            | 4 ++--
 .../gathering/irregular/ir_chain_matrix/main.py               | 4 ++--
 tools/elementwiseCache/gathering/regular/chain_matrix/main.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/do/find.py b/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/do/find.py
index ec4404a..5c8c751 100644
--- a/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/do/find.py
+++ b/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/do/find.py
@@ -179,7 +179,7 @@ class iR_CGM_DO_FIND(FrozenOnly):
                 gv = self._CGM_[e]  # get the local gathering vector in each local mesh element
                 if m in gv:
                     mesh_elements.append(e)
-                    local_indices.append(gv.index(m))
+                    local_indices.append(np.argwhere(gv == m).ravel()[0])
 
             if len(mesh_elements) == 0:
                 return None
@@ -200,7 +200,7 @@ class iR_CGM_DO_FIND(FrozenOnly):
             for i in dofs:
                 if i in gv:
                     mesh_elements[i].append(e)
-                    local_indices[i].append(gv.index(i))
+                    local_indices[i].append(np.argwhere(gv == i).ravel()[0])
 
         return mesh_elements, local_indices
 
diff --git a/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/main.py b/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/main.py
index 472b8d7..6769dd6 100644
--- a/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/main.py
+++ b/tools/elementwiseCache/gathering/irregular/ir_chain_matrix/main.py
@@ -24,7 +24,7 @@ class iR_Chain_Gathering_Matrix(FrozenOnly):
         :param GMs:
         """
 
-        if GMs.__class__.__name__ in ('iR_Gathering_Matrix', 'iR_Chain_Gathering_Matrix,'):
+        if GMs.__class__.__name__ in ('iR_Gathering_Matrix', 'iR_Chain_Gathering_Matrix'):
             GMs = [GMs, ]
 
         assert isinstance(GMs, (list, tuple)) and len(GMs) >= 1, \
@@ -45,7 +45,7 @@ class iR_Chain_Gathering_Matrix(FrozenOnly):
             else:
                 raise Exception(f'GMs[{i}] is {gm.__class__.__name__}, wrong!')
 
-        self.___NUM___ = len(GMs)
+        self.___NUM___ = len(NEW_GMs)
 
         if self.___NUM___ == 1 or chain_method is None:
             chain_method = 'silly'
diff --git a/tools/elementwiseCache/gathering/regular/chain_matrix/main.py b/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
index f9f5f32..3cdc4ad 100644
--- a/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
+++ b/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
@@ -30,7 +30,7 @@ class Chain_Gathering_Matrix(FrozenOnly):
         :param GMs:
         """
 
-        if GMs.__class__.__name__ in ('Gathering_Matrix', 'Chain_Gathering_Matrix,'):
+        if GMs.__class__.__name__ in ('Gathering_Matrix', 'Chain_Gathering_Matrix'):
             GMs = [GMs, ]
 
         assert isinstance(GMs, (list, tuple)) and len(GMs) >= 1, \
-- 
2.43.0


From 9762d47c2613daf18bde6daa7ffc4f7c8ce12c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 57/96] fix: matrices and vectors computed from sequently
 chained ones keep the chain method

---
 .../dataStructures/objects/columnVector/main.py              | 4 ++++
 .../dataStructures/objects/sparseMatrix/main.py              | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index cb5e229..8f19c7d 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -385,6 +385,7 @@ class EWC_ColumnVector(FrozenOnly):
         # noinspection PyTypeChecker
         RETURN = EWC_ColumnVector(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
 
@@ -394,6 +395,7 @@ class EWC_ColumnVector(FrozenOnly):
         # noinspection PyTypeChecker
         RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
 
@@ -403,6 +405,7 @@ class EWC_ColumnVector(FrozenOnly):
         # noinspection PyTypeChecker
         RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
 
@@ -413,5 +416,6 @@ class EWC_ColumnVector(FrozenOnly):
         # noinspection PyTypeChecker
         RETURN = EWC_ColumnVector(self._elements_, data_generator, data_generator.__KG_call__)
         if self.gathering_matrix is not None:
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index f280da1..b1c0d86 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -483,6 +483,7 @@ class EWC_SparseMatrix(FrozenOnly):
         data_generator = ___MUL___(self, other)
         RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
 
@@ -497,6 +498,7 @@ class EWC_SparseMatrix(FrozenOnly):
         data_generator = ___MUL___(self, other)
         RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
 
@@ -510,6 +512,7 @@ class EWC_SparseMatrix(FrozenOnly):
         data_generator = ___TRUE_DIV___(self, other)
         RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
 
@@ -524,6 +527,7 @@ class EWC_SparseMatrix(FrozenOnly):
         data_generator = ___NEG___(self)
         RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
 
@@ -557,6 +561,7 @@ class EWC_SparseMatrix(FrozenOnly):
         RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
 
         if self.gathering_matrices != (None, None):
+            RETURN.assembler.chain_method = self.assembler.chain_method
             RETURN.gathering_matrices = (self.gathering_matrices[1], self.gathering_matrices[0])
 
         return RETURN
-- 
2.43.0


From 0e6bc64832b39439e493fa0eeefbd6896014ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 58/96] fix: local assemblers (csc format, repeated dofs), LFV
 of sequently chained forms does not sum shared dofs

---
 components/assemblers.py                           |  8 ++++----
 .../dataStructures/vectors/locallyFull/main.py     | 14 +++++++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/components/assemblers.py b/components/assemblers.py
index 065609a..87eaac4 100644
--- a/components/assemblers.py
+++ b/components/assemblers.py
@@ -10,7 +10,7 @@ if './' not in sys.path:
     sys.path.append('./')
 from components.freeze.main import FrozenOnly
 import numpy as np
-from scipy.sparse import csr_matrix
+from scipy.sparse import csc_matrix, csr_matrix
 
 
 def ___Pr_gathering_matrix_checker___(gathering, indices):
@@ -105,7 +105,7 @@ class VectorAssembler(FrozenOnly):
                     output[GM[i]] = TBA[i]
             elif mode == 'add':
                 for i in indices:
-                    output[GM[i]] += TBA[i]
+                    np.add.at(output, GM[i], TBA[i])
             else:
                 raise NotImplementedError(f"mode={mode} is not implemented "
                                           f"for scheme {scheme} of routine: basic")
@@ -186,7 +186,7 @@ class MatrixAssembler(FrozenOnly):
                         output[m, g1] = data[j, :]
                 elif mode == 'add':
                     for j, m in enumerate(g0):
-                        output[m, g1] += data[j, :]
+                        np.add.at(output[m], g1, data[j, :])
                 else:
                     raise NotImplementedError(
                         f"mode={mode} is not implemented for basic matrix assemble."
@@ -195,7 +195,7 @@ class MatrixAssembler(FrozenOnly):
             if format == 'array':
                 return output
             elif format == 'csc':
-                return csr_matrix(output).T  # automatically a column csc matrix
+                return csc_matrix(output)   # a column csc matrix.
             elif format == 'csr':
                 return csr_matrix(output)   # a row csr matrix.
             else:
diff --git a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
index 6d33c5a..65a1063 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
@@ -55,9 +55,17 @@ class LocallyFullVector(FrozenOnly):
                     EWC = concatenate(EWC)
                     EWC.assembler.chain_method = chain_method
                     EWC.gathering_matrix = V
-                    V = EWC.assembled               # GlobalVector
-                    V = LocallyFullVector(V).V      # make it a LocallyFullVector
-                    self._V_ = V                    # use the V of LocallyFullVector as self._V_
+                    GM = EWC.gathering_matrix
+
+                    # a dof may be shared by elements (and cores). We do not sum their values.
+                    v = np.zeros(GM.global_num_dofs)
+                    c = np.zeros(GM.global_num_dofs)  # on how many cores is a dof?
+                    for e in EWC:
+                        v[GM[e]] = EWC[e].toarray().ravel()
+                        c[GM[e]] = 1
+                    v = COMM.allreduce(v)
+                    c = COMM.allreduce(c)
+                    self._V_ = v / c
 
                 else:
                     raise NotImplementedError(f"initializing locally full vector from "
-- 
2.43.0


From d98a407309e0994bb4278516628963dcaefceadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 59/96] fix: num.global_dofs of triangular forms

---
 objects/miUsGrid/triangular/forms/standard/base/num.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/forms/standard/base/num.py b/objects/miUsGrid/triangular/forms/standard/base/num.py
index eefcedf..a7f7403 100644
--- a/objects/miUsGrid/triangular/forms/standard/base/num.py
+++ b/objects/miUsGrid/triangular/forms/standard/base/num.py
@@ -21,4 +21,8 @@ class miUs_Triangular_SF_Num(FrozenOnly):
 
     @property
     def GLOBAL_dofs(self):
-        return self._sf_.numbering.gathering.global_num_dofs
\ No newline at end of file
+        return self._sf_.numbering.gathering.global_num_dofs
+
+    @property
+    def global_dofs(self):
+        return self.GLOBAL_dofs
-- 
2.43.0


From d19e06ed623912f61bdf0c29dcdeab056b1d4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 60/96] fix: a chain of one gathering matrix fits any chain
 method

---
 .../dataStructures/objects/columnVector/main.py               | 3 ++-
 .../dataStructures/objects/sparseMatrix/main.py               | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index 8f19c7d..720e2a7 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -225,7 +225,8 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         if gathering_matrix.__class__.__name__ in ('Chain_Gathering_Matrix', 'iR_Chain_Gathering_Matrix'):
 
-            assert gathering_matrix.chain_method == self.assembler.chain_method, \
+            assert gathering_matrix.num_GMs == 1 or \
+                gathering_matrix.chain_method == self.assembler.chain_method, \
                 f"The GM.chain_method = {gathering_matrix.chain_method} does not match that of the " \
                 f"vector, {self.assembler.chain_method}."
 
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index b1c0d86..84bc939 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -312,7 +312,7 @@ class EWC_SparseMatrix(FrozenOnly):
 
             if gms.__class__.__name__ == 'iR_Chain_Gathering_Matrix':
 
-                assert gms.chain_method == self.assembler.chain_method, \
+                assert gms.num_GMs == 1 or gms.chain_method == self.assembler.chain_method, \
                     f"The GM.chain_method = {gms.chain_method} does not match that of the " \
                     f"vector, {self.assembler.chain_method}."
 
@@ -320,7 +320,7 @@ class EWC_SparseMatrix(FrozenOnly):
 
             elif gms.__class__.__name__ == 'Chain_Gathering_Matrix':
 
-                assert gms.chain_method == self.assembler.chain_method, \
+                assert gms.num_GMs == 1 or gms.chain_method == self.assembler.chain_method, \
                     f"The GM.chain_method = {gms.chain_method} does not match that of the " \
                     f"vector, {self.assembler.chain_method}."
 
-- 
2.43.0


From 87fb2d210b0ea3f3b581776a2385678c66d3bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:49 +0000
Subject: [PATCH 61/96] fix: adjusted element-wise systems keep the chain
 method

---
 .../dataStructures/objects/columnVector/adjust.py              | 1 +
 .../dataStructures/objects/sparseMatrix/adjust.py              | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/adjust.py b/tools/elementwiseCache/dataStructures/objects/columnVector/adjust.py
index 6777ff4..306bd19 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/adjust.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/adjust.py
@@ -60,6 +60,7 @@ class SpaVec_Adjust(FrozenOnly):
         )
 
         if self._spa_vec_.gathering_matrix is not None:
+            SPA_VEC.assembler.chain_method = self._spa_vec_.assembler.chain_method
             SPA_VEC.gathering_matrix = self._spa_vec_.gathering_matrix
 
         return SPA_VEC
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/adjust.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/adjust.py
index e48031d..c5597cf 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/adjust.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/adjust.py
@@ -58,6 +58,7 @@ class SpaMat_Adjust(FrozenOnly):
         if self._spa_mat_._gathering_matrices_0_ is not None and \
            self._spa_mat_._gathering_matrices_1_ is not None:
 
+            SPA_MAT.assembler.chain_method = self._spa_mat_.assembler.chain_method
             SPA_MAT.gathering_matrices = self._spa_mat_.gathering_matrices
 
         return SPA_MAT
@@ -116,6 +117,7 @@ class SpaMat_Adjust(FrozenOnly):
 
         if self._spa_mat_._gathering_matrices_0_ is not None and \
            self._spa_mat_._gathering_matrices_1_ is not None:
+            SPA_MAT.assembler.chain_method = self._spa_mat_.assembler.chain_method
             SPA_MAT.gathering_matrices = self._spa_mat_.gathering_matrices
 
         return SPA_MAT
@@ -176,6 +178,7 @@ class SpaMat_Adjust(FrozenOnly):
 
         if self._spa_mat_._gathering_matrices_0_ is not None and \
            self._spa_mat_._gathering_matrices_1_ is not None:
+            SPA_MAT.assembler.chain_method = self._spa_mat_.assembler.chain_method
             SPA_MAT.gathering_matrices = self._spa_mat_.gathering_matrices
 
         return SPA_MAT
-- 
2.43.0


From 5ab7fb891fcde96cace57c7a1bc33791688f430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:49 +0000
Subject: [PATCH 62/96] fix: strong boundary rows were polluted by elements
 touching the boundary at a vertex or an edge

---
 .../objects/columnVector/customize.py         | 28 +++++-
 .../objects/sparseMatrix/customize.py         | 85 +++++++++++--------
 .../sparseMatrix/helpers/sharing_dofs.py      | 41 +++++++++
 3 files changed, 113 insertions(+), 41 deletions(-)
 create mode 100644 tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sharing_dofs.py

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
index e72bb50..968614f 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
@@ -3,6 +3,8 @@ from components.freeze.main import FrozenOnly
 from scipy import sparse as spspa
 import numpy as np
 from root.config.main import COMM, RANK, MASTER_RANK, SIZE
+from tools.elementwiseCache.dataStructures.objects.sparseMatrix.helpers.sharing_dofs import \
+    ___LOCAL_DOFS_SHARING_GLOBAL_DOFS___
 
 
 class SpaVec_Customize(FrozenOnly):
@@ -118,6 +120,14 @@ class SpaVec_Customize(FrozenOnly):
                                      f"now its shape is {RETURN.shape}."
         return RETURN
 
+    def ___Pr_clear_entries_of_shared_dofs___(self, GM, LDF, start, stop):
+        """Clear the local entries, not in `LDF`, which are assembled to the same global entries as those in `LDF`."""
+        others = ___LOCAL_DOFS_SHARING_GLOBAL_DOFS___(GM, LDF, start, stop)
+        for e in others:
+            if e not in self.___customizations___:
+                self.___customizations___[e] = list()
+            self.___customizations___[e].append(('slest', (others[e], np.zeros(len(others[e])))))
+
     def set_entries_according_to(self, i, BC_itp, cochain_itp=None, AS='local'):
         """
 
@@ -156,8 +166,11 @@ class SpaVec_Customize(FrozenOnly):
 
             GM = self._spa_vec_.gathering_matrix
             if GM.___Pr_IS_regular___:
-                LDR_row = GM.___Pr_regular__local_dofs_ranges___[i]
-                start_row = LDR_row.start
+                if len(self._spa_vec_) > 0:
+                    LDR_row = GM.___Pr_regular__local_dofs_ranges___[i]
+                    start_row, stop_row = LDR_row.start, LDR_row.stop
+                else:
+                    start_row, stop_row = 0, 0
             else:
                 raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
@@ -173,6 +186,8 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, ENTRIES)))
 
+            self.___Pr_clear_entries_of_shared_dofs___(GM, dofs, start_row, stop_row)
+
         else:
             raise NotImplementedError()
 
@@ -209,8 +224,11 @@ class SpaVec_Customize(FrozenOnly):
 
             GM = self._spa_vec_.gathering_matrix
             if GM.___Pr_IS_regular___:
-                LDR_row = GM.___Pr_regular__local_dofs_ranges___[i]
-                start_row = LDR_row.start
+                if len(self._spa_vec_) > 0:
+                    LDR_row = GM.___Pr_regular__local_dofs_ranges___[i]
+                    start_row, stop_row = LDR_row.start, LDR_row.stop
+                else:
+                    start_row, stop_row = 0, 0
             else:
                 raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
@@ -224,6 +242,8 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, CONSTANT)))
 
+            self.___Pr_clear_entries_of_shared_dofs___(GM, dofs, start_row, stop_row)
+
         else:
             raise NotImplementedError(f"interpret={AS} not implemented.")
 
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
index 2b40a93..8844769 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
@@ -2,6 +2,8 @@
 from components.freeze.main import FrozenOnly
 from scipy import sparse as spspa
 from root.config.main import *
+from tools.elementwiseCache.dataStructures.objects.sparseMatrix.helpers.sharing_dofs import \
+    ___LOCAL_DOFS_SHARING_GLOBAL_DOFS___
 
 
 class SpaMat_Customize(FrozenOnly):
@@ -319,31 +321,42 @@ class SpaMat_Customize(FrozenOnly):
         if AS == 'local':
             LDF = interpret.local.dofs
 
-            if len(LDF) == 0:
-                pass
-            else:
-                GM = self._spa_mat_.gathering_matrices[0]
-                if GM.___Pr_IS_regular___:
+            GM = self._spa_mat_.gathering_matrices[0]
+            if GM.___Pr_IS_regular___:
+                # noinspection PyUnresolvedReferences
+                if len(self._spa_mat_) > 0:
                     LDR = GM.___Pr_regular__local_dofs_ranges___[i]
-                    start = LDR.start
+                    start, stop = LDR.start, LDR.stop
                 else:
-                    raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
+                    start, stop = 0, 0
+            else:
+                raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
-                for e in LDF:  # go through all locally involved mesh element numbers
-                    assert e in self._spa_mat_
+            for e in LDF:  # go through all locally involved mesh element numbers
+                assert e in self._spa_mat_
 
-                    if e not in self.___customizations___:
-                        self.___customizations___[e] = list()
+                if e not in self.___customizations___:
+                    self.___customizations___[e] = list()
+
+                local_dofs = np.array(LDF[e], dtype=int) + start
 
-                    local_dofs = np.array(LDF[e], dtype=int) + start
+                self.___customizations___[e].append(('ilrs', local_dofs))
 
-                    self.___customizations___[e].append(('ilrs', local_dofs))
+            self.___Pr_clear_rows_of_shared_dofs___(GM, LDF, start, stop)
 
         else:
             raise Exception(f"Cannot identify global rows through"
                             f" interpret interpreted"
                             f" as <{AS}>.")
 
+    def ___Pr_clear_rows_of_shared_dofs___(self, GM, LDF, start, stop):
+        """Clear the local rows, not in `LDF`, which are assembled to the same global rows as those in `LDF`."""
+        others = ___LOCAL_DOFS_SHARING_GLOBAL_DOFS___(GM, LDF, start, stop)
+        for e in others:
+            if e not in self.___customizations___:
+                self.___customizations___[e] = list()
+            self.___customizations___[e].append(('clrs', others[e]))
+
     def off_diagonally_identify_rows_according_to(
         self, i, j, row_itp, col_itp, AS='local'
     ):
@@ -398,37 +411,35 @@ class SpaMat_Customize(FrozenOnly):
             LDF_col = col_itp.local.dofs
             assert len(LDF_col) == len(LDF_row), f"row_dofs and col_dofs dis-match in elements."
 
-            if len(LDF_row) == 0:
-                pass
-
-            else:
-                GM = self._spa_mat_.gathering_matrices
-                if GM[0].___Pr_IS_regular___:
-                    LDR_row = GM[0].___Pr_regular__local_dofs_ranges___[i]
-                    start_row = LDR_row.start
-                else:
+            GM = self._spa_mat_.gathering_matrices
+            starts = list()
+            for gm, k in zip(GM, (i, j)):
+                if not gm.___Pr_IS_regular___:
                     raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
-
-                if GM[1].___Pr_IS_regular___:
-                    LDR_col = GM[1].___Pr_regular__local_dofs_ranges___[j]
-                    start_col = LDR_col.start
+                elif len(self._spa_mat_) > 0:
+                    LDR = gm.___Pr_regular__local_dofs_ranges___[k]
+                    starts.append((LDR.start, LDR.stop))
                 else:
-                    raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
+                    starts.append((0, 0))
+            start_row, stop_row = starts[0]
+            start_col = starts[1][0]
 
-                for e in LDF_row:  # go through all locally involved mesh element numbers
-                    assert e in self._spa_mat_ and e in LDF_col
+            for e in LDF_row:  # go through all locally involved mesh element numbers
+                assert e in self._spa_mat_ and e in LDF_col
 
-                    if e not in self.___customizations___:
-                        self.___customizations___[e] = list()
+                if e not in self.___customizations___:
+                    self.___customizations___[e] = list()
+
+                ROW = LDF_row[e]
+                COL = LDF_col[e]
 
-                    ROW = LDF_row[e]
-                    COL = LDF_col[e]
+                row_local_dofs = np.array(ROW, dtype=int) + start_row
+                col_local_dofs = np.array(COL, dtype=int) + start_col
 
-                    row_local_dofs = np.array(ROW, dtype=int) + start_row
-                    col_local_dofs = np.array(COL, dtype=int) + start_col
+                self.___customizations___[e].append(
+                    ('ilrsac', (row_local_dofs, col_local_dofs)))
 
-                    self.___customizations___[e].append(
-                        ('ilrsac', (row_local_dofs, col_local_dofs)))
+            self.___Pr_clear_rows_of_shared_dofs___(GM[0], LDF_row, start_row, stop_row)
 
         else:
             raise Exception(f"Cannot off-diagonally identify global rows through "
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sharing_dofs.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sharing_dofs.py
new file mode 100644
index 0000000..644116f
--- /dev/null
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sharing_dofs.py
@@ -0,0 +1,41 @@
+# -*- coding: utf-8 -*-
+import numpy as np
+from root.config.main import COMM
+
+
+def ___LOCAL_DOFS_SHARING_GLOBAL_DOFS___(GM, LDF, start, stop):
+    """A dof in `LDF` may also be in elements which are not in `LDF` (for example, in an element touching a boundary only
+    at a vertex). Its row of the assembled system is only correct when these elements contribute nothing to it.
+
+    Parameters
+    ----------
+    GM :
+        The (chain) gathering matrix of the rows.
+    LDF : dict
+        The local dofs, for each involved local element, of a block.
+    start :
+    stop :
+        The local dofs of the block are in range(start, stop) of the whole local dofs.
+
+    Returns
+    -------
+    others : dict
+        Keys are local elements, values are the other local dofs (of the whole local dofs) which share the global dofs.
+
+    """
+    global_dofs = set()
+    for e in LDF:
+        global_dofs.update(GM[e][np.array(LDF[e], dtype=int) + start])
+    global_dofs = set().union(*COMM.allgather(global_dofs))
+
+    others = dict()
+    if len(global_dofs) > 0:
+        global_dofs = np.array(list(global_dofs))
+        for e in GM:
+            here = np.argwhere(np.isin(GM[e][start:stop], global_dofs)).ravel()
+            if e in LDF:
+                here = np.setdiff1d(here, LDF[e])
+            if len(here) > 0:
+                others[e] = here + start
+
+    return others
-- 
2.43.0


From f164811f06026a250892126d34222202ccfcfc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:48 +0000
Subject: [PATCH 63/96] fix: distributed vector in the master core was not
 gathered to other cores

---
 tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
index e5967fe..38f91b3 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
@@ -23,7 +23,7 @@ class DistributedVectorDo(FrozenOnly):
         """
         if core is None:
             core = MASTER_RANK
-        if self._v_.whether.master_dominating:
+        if core == MASTER_RANK and self._v_.whether.master_dominating:
             if RANK == core:
                 return self._v_.V.toarray()[:, 0]
             else:
-- 
2.43.0


From ac6c7c80a25a1b11f83c0afc265472f504edb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:48 +0000
Subject: [PATCH 64/96] fix: global matrices (nonempty columns and rows, column
 pattern, types of empty local matrices)

---
 .../miLinearAlgebra/dataStructures/globalMatrix/do.py |  6 +++---
 .../dataStructures/globalMatrix/main.py               | 11 ++++-------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
index 5e0926e..d253e70 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
@@ -68,7 +68,7 @@ class ___GM_DO___(FrozenOnly):
                 if RANK == core:
                     SELF._M_ = np.sum(M)
                 else:
-                    SELF._M_ = spspa.csr_matrix(SELF.shape)
+                    SELF._M_ = SELF.M.__class__(SELF.shape)
             else:
                 assert core == MASTER_RANK, "This routine only work for root=master yet!"
                 tree = TREE(2)
@@ -91,7 +91,7 @@ class ___GM_DO___(FrozenOnly):
                         COMM.send(ST, **Hi[1])
                         if ST == 1:
                             COMM.send(SELF.M, **Hi[1])
-                            SELF._M_ = spspa.csr_matrix(SELF.shape)
+                            SELF._M_ = SELF.M.__class__(SELF.shape)
                         else:
                             for t in range(ST):
                                 if SELF.mtype == 'csr':
@@ -101,7 +101,7 @@ class ___GM_DO___(FrozenOnly):
                                 else:
                                     raise Exception()
                                 COMM.send(tbs, **Hi[1])
-                            SELF._M_ = spspa.csr_matrix(SELF.shape)
+                            SELF._M_ = SELF.M.__class__(SELF.shape)
 
                     elif Hi[0] == 'recv':
                         RT = COMM.recv(**Hi[1])
diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1424685..1d8faef 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -88,7 +88,7 @@ class GlobalMatrix(FrozenOnly):
         """The columns have non-zero."""
         if self.mtype == 'csc':
             _ = np.diff(self.M.indptr) != 0  # the columns have non-zero values.
-            hnzc = np.argwhere(_ is True).ravel()
+            hnzc = np.argwhere(_).ravel()
         elif self.mtype == 'csr':
             hnzc = self.M.indices
             hnzc = sorted(list(set(hnzc)))
@@ -101,7 +101,7 @@ class GlobalMatrix(FrozenOnly):
         """The rows have non-zero."""
         if self.mtype == 'csr':
             _ = np.diff(self.M.indptr) != 0  # the rows have non-zero values.
-            hnzr = np.argwhere(_ is True).ravel()
+            hnzr = np.argwhere(_).ravel()
         elif self.mtype == 'csc':
             hnzr = self.M.indices
             hnzr = sorted(list(set(hnzr)))
@@ -174,10 +174,7 @@ class GlobalMatrix(FrozenOnly):
         """
         if B.__class__.__name__ == 'GlobalMatrix':
             if A.whether.master_dominating and B.whether.master_dominating:  # this is important.
-                if RANK == MASTER_RANK:
-                    M = A.M @ B.M
-                else:
-                    M = spspa.csc_matrix((A.shape[0], B.shape[1]))
+                M = A.M @ B.M  # empty in slave cores.
             elif A.whether.regularly_distributed in (True, 'row', 'column') \
                     or B.whether.regularly_distributed in (True, 'row', 'column'):
                 M = A.___PRIVATE_MATMUL_rowMajor_dot_columnMajor___(A, B)
@@ -424,7 +421,7 @@ class GlobalMatrix(FrozenOnly):
         else:
             ToF = None
         ToF = COMM.bcast(ToF, root=MASTER_RANK)
-        return ToF,
+        return ToF
 
     def ___PRIVATE_self_regularity_checker___(self):
         """"""
-- 
2.43.0


From 7e26ab00a5cf4ce03ff72a1f78d6b5d4fcca55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 65/96] fix: GMRES and LGMRES break down when the Krylov
 subspace is complete

---
 .../GMRES/helpers/components/least_squares.py | 19 +++++++++++++++++++
 .../solvers/regular/GMRES/helpers/mpi_v0.py   | 14 +++++++-------
 .../solvers/regular/GMRES/helpers/mpi_v1.py   | 14 +++++++-------
 .../solvers/regular/LGMRES/helpers/mpi_v0.py  | 13 +++++++------
 4 files changed, 40 insertions(+), 20 deletions(-)
 create mode 100644 tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/least_squares.py

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/least_squares.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/least_squares.py
new file mode 100644
index 0000000..7ff07ff
--- /dev/null
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/least_squares.py
@@ -0,0 +1,19 @@
+# -*- coding: utf-8 -*-
+import numpy as np
+
+
+def ___gmres_least_squares___(H, beta):
+    """Find the y minimizing ||beta * e1 - H y||.
+
+    H is rank-deficient if the Krylov subspace was completed before its last column.
+
+    :param H: The Hessenberg matrix.
+    :param beta: The residual.
+    :return:
+    """
+    e1 = np.zeros(H.shape[0], dtype=float)
+    e1[0] = beta
+    if np.all(np.isfinite(H)):
+        return np.linalg.lstsq(H, e1, rcond=None)[0]
+    else:  # the iterations broke down; they will not converge.
+        return np.full(H.shape[1], np.nan)
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
index d7a0ee1..c9d245a 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
@@ -4,6 +4,7 @@ from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import Locall
 from components.exceptions import LinerSystemSolverDivergenceError
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import ___gmres_stop_criterion___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import ___gmres_plot_residuals___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.least_squares import ___gmres_least_squares___
 
 
 def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-4, preconditioner=None,
@@ -90,7 +91,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
 
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -140,7 +141,10 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1**2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    if Hm[j + 1, j] > 1e-14 * np.sum(AVJ ** 2) ** 0.5:
+                        v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    else:  # breakdown: the Krylov subspace is complete.
+                        v_jp1 = np.zeros((shape0,), dtype=float)
                 else:
                     del v_jp1
 
@@ -159,11 +163,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                     Vm = v_jp1
 
         if RANK == MASTER_RANK:
-            HmT = Hm.T
-            ls_A = HmT @ Hm
-            ls_b = HmT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
-            del HmT, ls_A, ls_b
+            ym = ___gmres_least_squares___(Hm, beta)
             x0 += ym.T @ Vm
 
         COMM.Bcast([x0, MPI.FLOAT], root=MASTER_RANK)
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
index 3b3c7ce..0e3400f 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
@@ -6,6 +6,7 @@ from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criteri
     ___gmres_stop_criterion___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import \
     ___gmres_plot_residuals___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.least_squares import ___gmres_least_squares___
 
 
 def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-4, preconditioner=None,
@@ -105,7 +106,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -175,7 +176,10 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    if Hm[j + 1, j] > 1e-14 * np.sum(AVJ ** 2) ** 0.5:
+                        v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    else:  # breakdown: the Krylov subspace is complete.
+                        v_jp1 = np.zeros((shape0,), dtype=float)
                 else:
                     del v_jp1
 
@@ -196,11 +200,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
-            # del HMT, ls_A, ls_b
+            ym = ___gmres_least_squares___(HM, beta)
             x0 += ym.T @ Vm
 
         COMM.Bcast([x0, MPI.FLOAT], root=MASTER_RANK)
diff --git a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
index 3631058..97a35fc 100644
--- a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
@@ -6,6 +6,7 @@ from components.exceptions import LinerSystemSolverDivergenceError
 
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import ___gmres_stop_criterion___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import ___gmres_plot_residuals___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.least_squares import ___gmres_least_squares___
 
 
 def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e-5, preconditioner=None,
@@ -122,7 +123,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -210,7 +211,10 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    if Hm[j + 1, j] > 1e-14 * np.sum(AVJ ** 2) ** 0.5:
+                        v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    else:  # breakdown: the Krylov subspace is complete.
+                        v_jp1 = np.zeros((shape0,), dtype=float)
                 else:
                     del v_jp1
 
@@ -231,10 +235,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=SECRETARY_RANK)
 
         if RANK == SECRETARY_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ym = ___gmres_least_squares___(HM, beta)
         else:
             pass
 
-- 
2.43.0


From 0e6e6a4ac62466fdf3271447fc9416e6bb54fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 66/96] fix: stagnating iterations were reported as converged
 to the relative tolerance

---
 .../regular/GMRES/helpers/components/stop_criterion.py   | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
index 128ec0f..713a6cd 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
@@ -53,14 +53,7 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
             judge_3 = False
 
         # judge 4: reach relative tol.
-        if beta < beta0:
-            progress = beta0 - beta
-            if progress / beta0 < tol:  # reach relative tol.
-                judge_4 = True
-            else:
-                judge_4 = False
-        else:
-            judge_4 = False
+        judge_4 = beta < tol * beta0
 
         # judge_5: slow converging
         if len(BETA) >= 5:
-- 
2.43.0


From 27cfe838d08c10dfdd0ff75441ab311395b74eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 67/96] fix: shadow residual of BiCGSTAB was overwritten

---
 .../miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
index 1e4332d..43e850a 100644
--- a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
@@ -91,7 +91,7 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_r0_acd_, r0, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            if ITER == 0: hr0 = r0
+            if ITER == 0: hr0 = r0.copy()
             beta = np.sum(r0 ** 2) ** 0.5
         else:
             beta = 0
-- 
2.43.0


From 62a7ee005e95e1fb74284ab852e9e5bc2bb28576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 68/96] fix: scipy-based solvers report their residual

---
 .../regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py | 7 ++++---
 .../regular/GMRES/helpers/scipy_sparse_linalg_gmres.py     | 7 ++++---
 .../regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py   | 7 ++++---
 .../regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py b/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
index e283229..90e5859 100644
--- a/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
+++ b/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
@@ -90,9 +90,10 @@ def ___sp_sp_linalg_gcrotmk___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -102,10 +103,10 @@ def ___sp_sp_linalg_gcrotmk___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast([info, beta], root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_tfqmr ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
index 2b77e94..b21f38d 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
@@ -82,9 +82,10 @@ def ___sp_sp_linalg_gmres___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -94,10 +95,10 @@ def ___sp_sp_linalg_gmres___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast([info, beta], root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_gmres ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
index 7957b43..09fa613 100644
--- a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
+++ b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
@@ -88,9 +88,10 @@ def ___sp_sp_linalg_lgmres___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -100,10 +101,10 @@ def ___sp_sp_linalg_lgmres___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast([info, beta], root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_lgmres ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py b/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
index 6ed67db..e966e20 100644
--- a/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
+++ b/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
@@ -84,9 +84,10 @@ def ___sp_sp_linalg_tfqmr___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -96,10 +97,10 @@ def ___sp_sp_linalg_tfqmr___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast([info, beta], root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_tfqmr ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
-- 
2.43.0


From 02c16a57bfe5f0073d000ddb3f71d97b6188cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 69/96] fix: Schur solver ignored customizations and used
 column numbering for the right hand side

---
 .../helpers/scipy_sparse_linalg_direct.py     |  4 +--
 .../solvers/Schur/rank2/main.py               | 28 +++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/Schur/rank2/helpers/scipy_sparse_linalg_direct.py b/tools/miLinearAlgebra/solvers/Schur/rank2/helpers/scipy_sparse_linalg_direct.py
index 810f355..99e6657 100644
--- a/tools/miLinearAlgebra/solvers/Schur/rank2/helpers/scipy_sparse_linalg_direct.py
+++ b/tools/miLinearAlgebra/solvers/Schur/rank2/helpers/scipy_sparse_linalg_direct.py
@@ -39,9 +39,9 @@ def ___scipy_sparse_linalg_direct___(M, B, C, D, g, h, GM_row, GM_col):
     rb = h - C @ inv_M @ g
 
     rA.gathering_matrices = (GM_row, GM_col)
-    rb.gathering_matrix = GM_col
+    rb.gathering_matrix = GM_row
 
-    GM = rb.gathering_matrix  # cannot use GM_col because we have made a chain-GM in `rb`.
+    GM = rA.gathering_matrices[1]  # cannot use GM_col because we have made a chain-GM in `rA`.
 
     rA = rA.assembled
     rb = rb.assembled
diff --git a/tools/miLinearAlgebra/solvers/Schur/rank2/main.py b/tools/miLinearAlgebra/solvers/Schur/rank2/main.py
index c2b78e7..ff912bf 100644
--- a/tools/miLinearAlgebra/solvers/Schur/rank2/main.py
+++ b/tools/miLinearAlgebra/solvers/Schur/rank2/main.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.miscellaneous.timer import MyTimer
+from root.config.main import COMM
 
 from tools.miLinearAlgebra.solvers.Schur.base import SchurSolverBase
 
@@ -56,7 +57,12 @@ class Rank2(SchurSolverBase):
         assert blocks < A_SHAPE[0], f"blocks={blocks} wrong, must be < {A_SHAPE[0]}."
 
         AS = A_SHAPE[0]
-        if AS - blocks == 1:
+        GM0, GM1 = A.gathering_matrices
+
+        if COMM.allreduce(len(A.customize.___customizations___) + len(b.customize.___customizations___)) > 0:
+            # the blocks know nothing about the customizations of the whole system.
+            M, B, C, D, g, h = self.___Pr_customized_blocks___(A, b, GM0, GM1)
+        elif AS - blocks == 1:
             M = A.blocks[:blocks, :blocks]
             B = A.blocks[:blocks, blocks:]
             C = A.blocks[blocks:, :blocks]
@@ -80,7 +86,6 @@ class Rank2(SchurSolverBase):
 
         # ---------- Do the computation ----------------------------------------------------
         if ROUTINE == ___scipy_sparse_linalg_direct___:
-            GM0, GM1 = A.gathering_matrices
             GM_row = GM0.GMs[blocks:]
             GM_col = GM1.GMs[blocks:]
             results, info, beta, ITER, solver_message = ROUTINE(M, B, C, D, g, h, GM_row, GM_col)
@@ -93,3 +98,22 @@ class Rank2(SchurSolverBase):
         # ================================================================================
 
         return results, info, beta, ITER, MESSAGE
+
+    def ___Pr_customized_blocks___(self, A, b, GM0, GM1):
+        """The 2 by 2 blocks (and vectors) of the customized local systems."""
+        def num(GM, e):
+            return sum(len(_[e]) for _ in GM.GMs[:self._blocks_])
+
+        def block(i, j):
+            def data(e):
+                m, n = num(GM0, e), num(GM1, e)
+                return A[e].tocsc()[(slice(0, m), slice(m, None))[i], (slice(0, n), slice(n, None))[j]]
+            return A.__class__(A.elements, data, 'no_cache')
+
+        def vector(i):
+            def data(e):
+                m = num(GM0, e)
+                return b[e].tocsc()[(slice(0, m), slice(m, None))[i], :]
+            return b.__class__(A.elements, data, 'no_cache')
+
+        return block(0, 0), block(0, 1), block(1, 0), block(1, 1), vector(0), vector(1)
-- 
2.43.0


From 7ccc7e4ee42b5b317977e682741d366ac6ccb1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 70/96] fix: a stagnating iteration is not converged, and
 iterations continue to the absolute tolerance

---
 .../regular/GMRES/helpers/components/stop_criterion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
index 713a6cd..58e0036 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
@@ -52,8 +52,8 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
         else:
             judge_3 = False
 
-        # judge 4: reach relative tol.
-        judge_4 = beta < tol * beta0
+        # judge 4: stagnating; compared to the initial residual, the progress is lower than the tol.
+        judge_4 = 0 < beta0 - beta < tol * beta0
 
         # judge_5: slow converging
         if len(BETA) >= 5:
@@ -118,10 +118,10 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
             JUDGE = 3
             JUDGE_explanation = 'diverging'
 
-        elif judge_4:  # reach tol
-            info = 0
+        elif judge_4:  # no progress
+            info = ITER
             JUDGE = 4
-            JUDGE_explanation = 'reach relative tol'
+            JUDGE_explanation = 'stagnating'
 
         elif judge_5:  # very slow converging; the progress is lower than the tol
             info = ITER
-- 
2.43.0


From df801cf22f5a417ebd9362d8f71c64dbe7180c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 71/96] fix: reading objects saved with shared parameters

---
 root/read/helpers/_2dCSCG/form.py  | 3 ++-
 root/read/helpers/_2dCSCG/mesh.py  | 1 +
 root/read/helpers/_2dCSCG/space.py | 1 +
 root/read/helpers/_3dCSCG/form.py  | 3 ++-
 root/read/helpers/_3dCSCG/mesh.py  | 1 +
 root/read/helpers/_3dCSCG/space.py | 1 +
 6 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/root/read/helpers/_2dCSCG/form.py b/root/read/helpers/_2dCSCG/form.py
index e7dad65..10eba97 100644
--- a/root/read/helpers/_2dCSCG/form.py
+++ b/root/read/helpers/_2dCSCG/form.py
@@ -6,11 +6,12 @@ from objects.CSCG._2d.master import FormCaller as _2dCSCG_FormCaller
 
 
 def ___restore__2dCSCG_Form___(parameters, mesh_cache, space_cache):
+    parameters = parameters.copy()  # multiple saved objects may share their parameters.
     assert parameters.pop('type') == '_2dCSCG_Form'
     ID = parameters.pop('ID')
     mesh_parameters = parameters.pop('mesh_parameters')
     space_parameters = parameters.pop('space_parameters')
-    kwargs = parameters.pop('kwargs')
+    kwargs = parameters.pop('kwargs').copy()
 
     if 'is_hybrid' in kwargs:
         kwargs['hybrid'] = kwargs['is_hybrid']
diff --git a/root/read/helpers/_2dCSCG/mesh.py b/root/read/helpers/_2dCSCG/mesh.py
index e61bc1a..89e82f6 100644
--- a/root/read/helpers/_2dCSCG/mesh.py
+++ b/root/read/helpers/_2dCSCG/mesh.py
@@ -18,6 +18,7 @@ def ___restore__2dCSCG_Mesh___(parameters, mesh_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = parameters.copy()  # multiple saved objects may share their parameters.
         assert parameters.pop('type') == '_2dCSCG_Mesh'
         ID = parameters.pop('ID')
         element_layout = parameters.pop('element_layout')
diff --git a/root/read/helpers/_2dCSCG/space.py b/root/read/helpers/_2dCSCG/space.py
index ccb8542..6a74580 100644
--- a/root/read/helpers/_2dCSCG/space.py
+++ b/root/read/helpers/_2dCSCG/space.py
@@ -16,6 +16,7 @@ def ___restore__2dCSCG_Space___(parameters, space_cache):
     else:
         raise Exception()
     if DO_meshing:
+        parameters = parameters.copy()  # multiple saved objects may share their parameters.
         assert parameters.pop('type') == '_2dCSCG_Space'
         ID = parameters.pop('ID')
         inputs = parameters.pop('inputs')
diff --git a/root/read/helpers/_3dCSCG/form.py b/root/read/helpers/_3dCSCG/form.py
index 46f9c77..6b60733 100644
--- a/root/read/helpers/_3dCSCG/form.py
+++ b/root/read/helpers/_3dCSCG/form.py
@@ -7,11 +7,12 @@ from root.read.helpers._3dCSCG.mesh import ___restore__3dCSCG_Mesh___
 
 def ___restore__3dCSCG_Form___(parameters, mesh_cache, space_cache):
     """"""
+    parameters = parameters.copy()  # multiple saved objects may share their parameters.
     assert parameters.pop('type') == '_3dCSCG_Form'
     ID = parameters.pop('ID')
     mesh_parameters = parameters.pop('mesh_parameters')
     space_parameters = parameters.pop('space_parameters')
-    kwargs = parameters.pop('kwargs')
+    kwargs = parameters.pop('kwargs').copy()
 
     if 'is_hybrid' in kwargs:  # for old version who use is_hybrid as key word input
         kwargs['hybrid'] = kwargs['is_hybrid']
diff --git a/root/read/helpers/_3dCSCG/mesh.py b/root/read/helpers/_3dCSCG/mesh.py
index 808aacc..3b9e040 100644
--- a/root/read/helpers/_3dCSCG/mesh.py
+++ b/root/read/helpers/_3dCSCG/mesh.py
@@ -17,6 +17,7 @@ def ___restore__3dCSCG_Mesh___(parameters, mesh_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = parameters.copy()  # multiple saved objects may share their parameters.
         assert parameters.pop('type') == '_3dCSCG_Mesh'
         ID = parameters.pop('ID')
         element_layout = parameters.pop('element_layout')
diff --git a/root/read/helpers/_3dCSCG/space.py b/root/read/helpers/_3dCSCG/space.py
index f5f94c8..635985d 100644
--- a/root/read/helpers/_3dCSCG/space.py
+++ b/root/read/helpers/_3dCSCG/space.py
@@ -17,6 +17,7 @@ def ___restore__3dCSCG_Space___(parameters, space_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = parameters.copy()  # multiple saved objects may share their parameters.
         assert parameters.pop('type') == '_3dCSCG_Space'
         ID = parameters.pop('ID')
         inputs = parameters.pop('inputs')
-- 
2.43.0


From 4f86ac35522b6e4caf5e6a7bc4cf2204c4e1dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 72/96] fix: SimpleIterator: tolerate round-off in the number
 of steps and the end time

With dt and max_time such as 0.1 and 1.1 one step too many was done, and
for dt=None a pair such as max_time=1, max_steps=49 was refused because
49*(1/49) is not exactly 1.
---
 tools/iterators/simple.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/iterators/simple.py b/tools/iterators/simple.py
index 36d5e5f..eadf749 100644
--- a/tools/iterators/simple.py
+++ b/tools/iterators/simple.py
@@ -50,7 +50,12 @@ class SimpleIterator(Iterator):
                 if max_time is not None:
                     assert isinstance(max_time, (int, float)) and max_time > self.t0, \
                         " <Simple> : max_time={} wrong!".format(max_time)
-                    self._max_steps_ = int(np.ceil((max_time - self.t0) / self.dt))
+                    num_steps = (max_time - self.t0) / self.dt
+                    if abs(num_steps - round(num_steps)) < 1e-9 * num_steps:
+                        # a whole number of steps up to the round-off error
+                        self._max_steps_ = max(int(round(num_steps)), 1)
+                    else:
+                        self._max_steps_ = int(np.ceil(num_steps))
                 else:
                     self._max_steps_ = 9999999
                 self._max_time_ = self.t0 + self.dt * self.max_steps
@@ -68,4 +73,5 @@ class SimpleIterator(Iterator):
 
         assert self.dt >= 0, " <Simple> : dt wrong!"
         assert isinstance(self.max_steps, int) and self.max_steps > 0, " <Simple> "
-        assert self.t0 + self.dt * self.max_steps == self.max_time, " <Simple> : max_time wrong!"
+        assert abs(self.t0 + self.dt * self.max_steps - self.max_time) <= \
+            1e-12 * max(abs(self.t0), abs(self.max_time)), " <Simple> : max_time wrong!"
-- 
2.43.0


From dfa7904ebf15979e1069731ec4456464b9e561a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 73/96] fix: a runner used again starts from an empty result
 table and file

The inputs computed by the previous call of iterate were still considered
as done (and thus missing in the new results) and the file of the
previous call was still written to when no file was given.
---
 tools/legacy/serialRunners/_runner_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 5e18274..f0940b7 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -294,6 +294,8 @@ class Runner(FrozenClass):
         """
         print("-<{}>-<total iterations> : {}.".format(self.__class__.__name__, self.num_iterations), flush=True)
         self.___initialize_dataframe___()
+        self._computed_pool_ = ()
+        self._readwritefilename_ = None
         if writeto is None:
             return
         self._readwritefilename_ = writeto
-- 
2.43.0


From 593958481b8d63271bccc77b64b4c4e169e48d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 74/96] fix: reading a runner file with a single output

The name of a single output was read with a trailing comma.
---
 tools/legacy/serialRunners/_runner_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index f0940b7..d44e8f8 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -211,7 +211,7 @@ class Runner(FrozenClass):
                 if ctt[0:13] == '<input names>':
                     if initializing: # if we are initializing it, we get input names from the file
                         ins = ctt[17:-2]
-                        self._input_names_ = tuple(ins.replace("'", "").split(', '))
+                        self._input_names_ = tuple(ins.replace("'", "").replace(',', ' ').split())
                     else: #otherwise we check the consistence
                         assert ctt == '<input names> : '+str(self._input_names_)+'\n', \
                             " <Runner> : writeto file does not match input names."
@@ -227,7 +227,7 @@ class Runner(FrozenClass):
                 elif ctt[0:14] == '<output names>':
                     if initializing: # if we are initializing it, we get output names from the file
                         ons = ctt[18:-2]
-                        self._output_names_ = tuple(ons.replace("'", "").split(', '))
+                        self._output_names_ = tuple(ons.replace("'", "").replace(',', ' ').split())
                     else: #otherwise we check the consistence
                         assert ctt == '<output names> : '+str(self._output_names_)+'\n', \
                             " <Runner> : writeto file does not match output names."
-- 
2.43.0


From 168072acf8b7042a1ca945fa4a3031d79574ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 75/96] fix: shut down an iterator for a reason given as str

---
 tools/iterators/base/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index 5f85da7..c5720f8 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -239,6 +239,7 @@ class Iterator(FrozenClass):
 
         if isinstance(shut_down, str):
             self.___shut_down_reason___ = shut_down
+            shut_down = 1
             self._shut_down_ = 1
         else:
             # noinspection PyAttributeOutsideInit
-- 
2.43.0


From 86e415a2ce68805685923748cdd5e2f70dacbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 76/96] fix: a row of a runner file without its line end is not
 complete

It was taken as complete although its last number may be cut, and the
next result was appended to the same line, after which the file could not
be read any more.
---
 tools/legacy/serialRunners/_runner_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index d44e8f8..f3ca2cd 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -255,6 +255,7 @@ class Runner(FrozenClass):
             while 1:
                 try:
                     Di = contents[i].split()
+                    assert contents[i][-1] == '\n'  # otherwise, this row is not completely written.
                     assert len(Di) == 1 + len(self.input_names) + len(self.output_names) + 1 + 3
                     # 1: index; +1: '|'; +3: 'ITC', 'TTC', 'ERT'
                     self._computed_pool_ += (self.___read_to_rdf___(Di)[0],)
-- 
2.43.0


From cc71cabfc5074f7116c50f013a80fff36851ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 77/96] fix: csv results are read with all their digits

The default parser of pandas loses up to four digits of numbers with
leading zeros, so a resumed table differs from the recorded one.
---
 tools/filer/csv/main.py      | 2 +-
 tools/iterators/base/main.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/filer/csv/main.py b/tools/filer/csv/main.py
index 97d33d8..7731138 100644
--- a/tools/filer/csv/main.py
+++ b/tools/filer/csv/main.py
@@ -24,7 +24,7 @@ class csvFiler(FrozenOnly):
         assert isinstance(csv_filename, str), "csv filename must be a str."
         if csv_filename[-4:] != '.csv':
             csv_filename += '.csv'
-        self._df_ = pd.read_csv(csv_filename, index_col=0, header=header)
+        self._df_ = pd.read_csv(csv_filename, index_col=0, header=header, float_precision='round_trip')
         self._visualize_ = csvFilerVisualize(self)
         self._do_ = csvFilerDo(self)
         self._freeze_self_()
diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index c5720f8..5044b36 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -214,7 +214,7 @@ class Iterator(FrozenClass):
         """
         FORMAT = fileName.split('.')[-1]
         if FORMAT == 'csv':
-            self._RDF_ = pd.read_csv(fileName, index_col=0)
+            self._RDF_ = pd.read_csv(fileName, index_col=0, float_precision='round_trip')
         else:
             raise NotImplementedError(f'Can only read .csv file, now get .{FORMAT} file')
 
@@ -449,7 +449,7 @@ class Iterator(FrozenClass):
         COMM.barrier()  # this is important to make the program safe.
         if RANK == MASTER_RANK:
             if filename[-4:] == '.csv':
-                return pd.read_csv(filename, index_col=0)
+                return pd.read_csv(filename, index_col=0, float_precision='round_trip')
 
             else:
 
-- 
2.43.0


From d31961d4cae9631ed28dcdbd30d534c34462df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 78/96] fix: discrete fields: cached element-wise grids are
 only used for the mesh and grid they were made for

The cache only compared the region names and the values of the grid, so a
second mesh with the same region names got the local coordinates of the
first one; and a grid array changed in place was compared with itself.
---
 objects/CSCG/_2d/forms/standard/base/reconstruct.py | 7 +++++--
 objects/CSCG/_3d/forms/standard/base/reconstruct.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
index b2a3485..a8851df 100644
--- a/objects/CSCG/_2d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
@@ -9,6 +9,7 @@ import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_2dCSCG_SF_Reconstruct___ = {
+    'spacing': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -111,7 +112,8 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
             rs[rn] = r, s
 
         # ------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] is not None:
+        # the cached data are only valid for the same element spacing (that of the same mesh).
+        if ___grid_cache_2dCSCG_SF_Reconstruct___['spacing'] is mesh.elements.spacing:
             c_rs = ___grid_cache_2dCSCG_SF_Reconstruct___['grid']
             cached = True
             for rn in rs:
@@ -185,7 +187,8 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
-        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = rs
+        ___grid_cache_2dCSCG_SF_Reconstruct___['spacing'] = mesh.elements.spacing
+        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = {rn: [np.array(_) for _ in rs[rn]] for rn in rs}
         ___grid_cache_2dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         # ======================================================================================
         return Xi_Eta_Sigma_D, rs
diff --git a/objects/CSCG/_3d/forms/standard/base/reconstruct.py b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
index 4762544..660afb3 100644
--- a/objects/CSCG/_3d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
@@ -13,6 +13,7 @@ import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_3dCSCG_SF_Reconstruct___ = {
+    'spacing': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -127,7 +128,8 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
             rst[rn] = r, s, t
 
         #------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] is not None:
+        # the cached data are only valid for the same element spacing (that of the same mesh).
+        if ___grid_cache_3dCSCG_SF_Reconstruct___['spacing'] is mesh.elements.spacing:
             c_rst = ___grid_cache_3dCSCG_SF_Reconstruct___['grid']
             cached = True
 
@@ -209,7 +211,8 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
-        ___grid_cache_3dCSCG_SF_Reconstruct___['grid']  = rst
+        ___grid_cache_3dCSCG_SF_Reconstruct___['spacing'] = mesh.elements.spacing
+        ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] = {rn: [np.array(_) for _ in rst[rn]] for rn in rst}
         ___grid_cache_3dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         #==========================================================================================1
         return Xi_Eta_Sigma_D, rst
-- 
2.43.0


From 8986dac45388e905ae9081945c7d520d944c502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 79/96] fix: discrete fields on grids leaving some elements
 without points

The empty data of such elements had shape zero in all directions and thus
shifted the blocks of the following elements when they were stacked.
---
 objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py  | 2 +-
 objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py | 2 +-
 objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py | 2 +-
 objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py  | 2 +-
 objects/CSCG/_3d/forms/standard/_0s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py           | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
index b44cc01..c7eeb35 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
@@ -189,7 +189,6 @@ class _2dCSCG_S0F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -201,6 +200,7 @@ class _2dCSCG_S0F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py b/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
index b6704bc..603f8ef 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
@@ -146,7 +146,6 @@ class _2dCSCG_Si1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -158,6 +157,7 @@ class _2dCSCG_Si1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py b/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
index ea2ed37..e220a04 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
@@ -167,7 +167,6 @@ class _2dCSCG_So1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -179,6 +178,7 @@ class _2dCSCG_So1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
index 56040a2..438c3b7 100644
--- a/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
@@ -132,7 +132,6 @@ class _2dCSCG_S2F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -144,6 +143,7 @@ class _2dCSCG_S2F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
index 1b95c13..d1b6c61 100644
--- a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
@@ -126,7 +126,6 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0, 0, 0))
 
         # ------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -142,6 +141,7 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 53d8900..e5f11e4 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -122,7 +122,6 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0, 0, 0))
 
         # ------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -138,6 +137,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index e252d1c..9c50ef4 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -153,7 +153,6 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0,0,0))
 
         #-------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -169,6 +168,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index ee7c502..cbeb047 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -148,7 +148,6 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0,0,0))
 
         #-------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -164,6 +163,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)  # no data, but its shape is needed for the stacking
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
-- 
2.43.0


From 9742df369284b7f614e84cc5f3d7abed0591c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 80/96] fix: gridToVTK wrote the coordinates of a core's first
 region for all its regions

---
 objects/CSCG/tools/gridToVTK.py             | 6 ++----
 objects/CSCG/tools/unstructuredGridToVTK.py | 1 -
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/objects/CSCG/tools/gridToVTK.py b/objects/CSCG/tools/gridToVTK.py
index 9b7a409..a96466b 100644
--- a/objects/CSCG/tools/gridToVTK.py
+++ b/objects/CSCG/tools/gridToVTK.py
@@ -86,9 +86,8 @@ def gridToVTK(grid, objs, path):
         var_names.append(name)
 
     COMM.barrier()  # make sure the folder is really for all cores.
-    for i, rn in enumerate(regions):
-        if i == 0:
-            xyz = df0.coordinates[rn]
+    for rn in regions:
+        xyz = df0.coordinates[rn]
 
         VALs = dict()
         for j, df in enumerate(DiscreteFields):
@@ -97,7 +96,6 @@ def gridToVTK(grid, objs, path):
             else:
                 VALs[var_names[j]] = tuple(df.values[rn])
 
-        # noinspection PyUnboundLocalVariable
         if len(xyz) == 2:  # we are in a 2d CSCG mesh ------
             x, y = xyz
             x = x[:, :, np.newaxis]
diff --git a/objects/CSCG/tools/unstructuredGridToVTK.py b/objects/CSCG/tools/unstructuredGridToVTK.py
index be3dc09..e0b1b5a 100644
--- a/objects/CSCG/tools/unstructuredGridToVTK.py
+++ b/objects/CSCG/tools/unstructuredGridToVTK.py
@@ -75,7 +75,6 @@ def unstructuredGridToVTK(grid, objs, filename):
                     np.testing.assert_array_almost_equal(axis, _xyz[rn][j], decimal=8)
             df._coordinates_ = None  # clean COO as we only need it in df[0]
         DiscreteFields.append(df)
-    del _xyz
 
     ndim = mesh.ndim
     if ndim == 3:
-- 
2.43.0


From 9f0c52eb2556c2bc7c12b09300158ed9a2e9f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 81/96] fix: export the field of a form in a part of the
 regions

---
 .../CSCG/_3d/forms/standard/base/export/field.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/export/field.py b/objects/CSCG/_3d/forms/standard/base/export/field.py
index c34aa56..6f0fe01 100644
--- a/objects/CSCG/_3d/forms/standard/base/export/field.py
+++ b/objects/CSCG/_3d/forms/standard/base/export/field.py
@@ -59,14 +59,16 @@ class _3dCSC_SF_Export_Field(FrozenOnly):
 
         # Now, we gather xyz & v from all cores into Master Core, store in XYZ & V --- BELOW ---
         if RANK == MASTER_RANK:
-            X = [None for _ in range(mesh.elements.global_num)]
-            Y = [None for _ in range(mesh.elements.global_num)]
-            Z = [None for _ in range(mesh.elements.global_num)]
-            Vx = [None for _ in range(mesh.elements.global_num)]
+            # zeros will stay in elements of the other regions.
+            shape = [len(_) for _ in rst]
+            X = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Y = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Z = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Vx = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
             if self._sf_.k in (1, 2):
-                Vy = [None for _ in range(mesh.elements.global_num)]
-                Vz = [None for _ in range(mesh.elements.global_num)]
-            for j in mesh.elements.indices:
+                Vy = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+                Vz = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            for j in xyz:
                 X[j] = xyz[j][0]
                 Y[j] = xyz[j][1]
                 Z[j] = xyz[j][2]
-- 
2.43.0


From 3fc78084543a9791eb5df7014ad55a2c316f19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 82/96] fix: unstructuredGridToVTK on periodic domains

Nodes on the two sides of periodic boundaries were merged to one with the
coordinates of one side, so cells were stretched over the whole domain.
---
 objects/CSCG/tools/unstructuredGridToVTK.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/tools/unstructuredGridToVTK.py b/objects/CSCG/tools/unstructuredGridToVTK.py
index e0b1b5a..91c5a1f 100644
--- a/objects/CSCG/tools/unstructuredGridToVTK.py
+++ b/objects/CSCG/tools/unstructuredGridToVTK.py
@@ -117,7 +117,9 @@ def _2dCSCG_unstructuredGridToVTK(mesh, dfs, filename, objs):
 
     new_space = _2dCSCG_PolynomialSpace([1, 1], None)   # ------------------- produce new space ----1
 
-    r0f = _2dCSCG_0Form_Outer(new_mesh, new_space, hybrid=False)  # produce the reference 0-form 1
+    # the two sides of periodic boundaries have different coordinates: they can not be the same node.
+    hybrid = new_mesh.domain.whether.periodic
+    r0f = _2dCSCG_0Form_Outer(new_mesh, new_space, hybrid=hybrid)  # produce the reference 0-form 1
 
     GM = r0f.numbering.gathering  # ---- the gathering numbering, a key property we want to use ----1
     Gnd = GM.global_num_dofs  # -------- this many 0-form dofs = this many nodes in the VTK --------1
@@ -316,7 +318,9 @@ def _3dCSCG_unstructuredGridToVTK(mesh, dfs, filename, objs):
 
     new_space = _3dCSCG_PolynomialSpace([1, 1, 1], None)  # ------------------- produce new space ----1
 
-    r0f = _3dCSCG_0Form(new_mesh, new_space, hybrid=False)  # - produce the reference 0-form ----1
+    # the two sides of periodic boundaries have different coordinates: they can not be the same node.
+    hybrid = new_mesh.domain.whether.periodic
+    r0f = _3dCSCG_0Form(new_mesh, new_space, hybrid=hybrid)  # - produce the reference 0-form ----1
 
     GM = r0f.numbering.gathering  # ---- the gathering numbering, a key property we want to use ----1
     Gnd = GM.global_num_dofs  # -------- this many 0-form dofs = this many nodes in the VTK --------1
-- 
2.43.0


From 6c1ee8d917d7ca5a5f9693311cd3b0d283ada52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 83/96] fix: check that arrays are the same in all cores

---
 root/config/check_same_in_all_cores.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/root/config/check_same_in_all_cores.py b/root/config/check_same_in_all_cores.py
index a87ea9c..ef80a1c 100644
--- a/root/config/check_same_in_all_cores.py
+++ b/root/config/check_same_in_all_cores.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from mpi4py import MPI
+import numpy as np
 COMM = MPI.COMM_WORLD
 SIZE: int = COMM.Get_size()
 RANK: int = COMM.Get_rank()
@@ -13,6 +14,20 @@ else:
     SECRETARY_RANK: int = 0
 
 
+def ___is_same___(a, b):
+    """`a == b` that also works when there are arrays in `a` or `b`."""
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
+    elif isinstance(a, (tuple, list)):
+        return a.__class__ is b.__class__ and len(a) == len(b) and \
+            all(___is_same___(i, j) for i, j in zip(a, b))
+    elif isinstance(a, dict):
+        return isinstance(b, dict) and a.keys() == b.keys() and \
+            all(___is_same___(a[k], b[k]) for k in a)
+    else:
+        return a == b
+
+
 def CHECK_SAME_IN_ALL_CORES(*args):
     """
     check if some variables are the same in all cores.
@@ -24,7 +39,7 @@ def CHECK_SAME_IN_ALL_CORES(*args):
     if RANK == SECRETARY_RANK:
         ASSERTION = list()
         for i in range(SIZE):
-            ASSERTION.append(ARGS[i] == ARGS[0])
+            ASSERTION.append(___is_same___(ARGS[i], ARGS[0]))
         ToF = all(ASSERTION)
         not_same_cores = list()
         for i in range(SIZE):
-- 
2.43.0


From ad1c4a49bc92f3402477be0970707192e536205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 84/96] fix: dispatch tasks which are arrays

---
 root/config/dispatching.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/root/config/dispatching.py b/root/config/dispatching.py
index 566cf96..779564b 100644
--- a/root/config/dispatching.py
+++ b/root/config/dispatching.py
@@ -45,7 +45,7 @@ def DISPATCHING(originalTaskInputs: list, method):
                 if any(CORE_STATUS):  # there are free cores.
                     core2bUsed = CORE_STATUS.index(True)
                     data2bSent = taskInputs.pop(0)
-                    COMM.send(data2bSent, dest=core2bUsed, tag=core2bUsed)
+                    COMM.send((data2bSent,), dest=core2bUsed, tag=core2bUsed)
                     CORE_STATUS[core2bUsed] = False
                 else:
                     newFreeCore = np.empty(1, dtype='i')
@@ -67,14 +67,14 @@ def DISPATCHING(originalTaskInputs: list, method):
             # now all tasks are gone. Send message to all slaves to tell they stop waiting for more new tasks.
             for i in SLAVE_RANKS:
                 assert CORE_STATUS[i]  # must be true
-                COMM.send('stop waiting for new tasks', dest=i, tag=i)  # ask it to stop waiting.
+                COMM.send(None, dest=i, tag=i)  # ask it to stop waiting.
         else:
             while 1:
                 nextTaskData = COMM.recv(source=MASTER_RANK, tag=RANK)
-                if nextTaskData == 'stop waiting for new tasks':
+                if nextTaskData is None:
                     break  # stop waiting
                 else:
-                    resultPOOL.append(method(nextTaskData))
+                    resultPOOL.append(method(nextTaskData[0]))
                     COMM.Send(np.array([RANK], dtype='i'), dest=MASTER_RANK, tag=RANK)
 
     COMM.Barrier()  # sync all cores.
-- 
2.43.0


From 550bf82715f55f92b5d3c05a284834cd7521bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 85/96] fix: scaling a function leaves functions scaled before
 alone

---
 components/functions/_2dSpace/scaling.py | 5 +++--
 components/functions/_3dSpace/scaling.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/components/functions/_2dSpace/scaling.py b/components/functions/_2dSpace/scaling.py
index b4f4dbb..30489b4 100644
--- a/components/functions/_2dSpace/scaling.py
+++ b/components/functions/_2dSpace/scaling.py
@@ -25,8 +25,9 @@ class ScalingFunc(ABC):
         return self._C_ * self._func_(x, y)
 
     def __call__(self, func):
-        self._func_ = func
-        return self._scaled_func_
+        scaled = self.__class__(self._C_)
+        scaled._func_ = func
+        return scaled._scaled_func_
 
 
 if __name__ == "__main__":
diff --git a/components/functions/_3dSpace/scaling.py b/components/functions/_3dSpace/scaling.py
index f2826ec..6ae76a4 100644
--- a/components/functions/_3dSpace/scaling.py
+++ b/components/functions/_3dSpace/scaling.py
@@ -11,5 +11,6 @@ class ScalingFunc(ABC):
         return self._C_ * self._func_(x, y, z)
 
     def __call__(self, func):
-        self._func_ = func
-        return self._scaled_func_
+        scaled = self.__class__(self._C_)
+        scaled._func_ = func
+        return scaled._scaled_func_
-- 
2.43.0


From e44f011379bfd5a70f33a3bb4c12517bf3194222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 86/96] fix: parallel lines are parallel up to rounding

---
 .../functions/_2dSpace/check_if_two_lines_parallel.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/components/functions/_2dSpace/check_if_two_lines_parallel.py b/components/functions/_2dSpace/check_if_two_lines_parallel.py
index 68254eb..df2396a 100644
--- a/components/functions/_2dSpace/check_if_two_lines_parallel.py
+++ b/components/functions/_2dSpace/check_if_two_lines_parallel.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from components.functions._2dSpace.angle import angle
+import numpy as np
 
 
 def if_two_lines_parallel(a1, a2, b1, b2):
@@ -14,6 +14,8 @@ def if_two_lines_parallel(a1, a2, b1, b2):
     :return:
     :rtype: bool
     """
-    angle1 = angle(a1, a2)
-    angle2 = angle(b1, b2)
-    return angle1 == angle2
+    xa, ya = a2[0] - a1[0], a2[1] - a1[1]
+    xb, yb = b2[0] - b1[0], b2[1] - b1[1]
+    lengths = np.hypot(xa, ya) * np.hypot(xb, yb)
+    same_direction = xa * xb + ya * yb > 0
+    return bool(same_direction and abs(xa * yb - ya * xb) <= 1e-12 * lengths)
-- 
2.43.0


From 8f3978db596adc9a7e85607720526b2e992531d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 87/96] fix: memoize1 distinguishes arrays by all their entries

---
 components/decorators/memoize/memoize_1.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/components/decorators/memoize/memoize_1.py b/components/decorators/memoize/memoize_1.py
index 50df909..7805a99 100644
--- a/components/decorators/memoize/memoize_1.py
+++ b/components/decorators/memoize/memoize_1.py
@@ -2,6 +2,19 @@
 
 import functools
 import weakref
+import numpy as np
+
+
+def ___key___(x):
+    """A hashable key of the inputs; arrays are compared by all their (not rounded) entries."""
+    if isinstance(x, np.ndarray) and x.dtype != object:
+        return 'ndarray', x.shape, x.dtype.str, x.tobytes()
+    elif x.__class__ in (tuple, list):
+        return (x.__class__.__name__,) + tuple(___key___(i) for i in x)
+    elif x.__class__ is dict:
+        return ('dict',) + tuple((repr(k), ___key___(x[k])) for k in x)
+    else:
+        return repr(x)
 
 
 def memoize1(func):
@@ -17,7 +30,7 @@ def memoize1(func):
 
     @functools.wraps(func)
     def memoized_func(*args, **kwargs):
-        key = str(args) + str(kwargs)
+        key = ___key___((args, kwargs))
         owner = args[0] if args else None
         if key in cache:
             ref, result = cache[key]
-- 
2.43.0


From 61d34bea7f55834dee22f59e3fe333e0e26d2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 88/96] fix: VectorDistributor accepts lists

---
 components/distributors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/distributors.py b/components/distributors.py
index b5206bd..4ab1a53 100644
--- a/components/distributors.py
+++ b/components/distributors.py
@@ -4,6 +4,7 @@
 @contact: zhangyi_aero@hotmail.com
 @time: 12/2/2022 4:37 PM
 """
+import numpy as np
 from components.freeze.main import FrozenOnly
 from components.assemblers import ___Pr_gathering_matrix_checker___
 
@@ -34,6 +35,8 @@ class VectorDistributor(FrozenOnly):
         """"""
         if TBD.__class__.__name__ == 'ndarray':
             assert TBD.ndim == 1, f"I need a 1d array."
+        elif isinstance(TBD, (list, tuple)):
+            TBD = np.array(TBD)
         else:
             pass
         assert len(TBD) == self._num_dofs_, f"data length wrong."
-- 
2.43.0


From be21dce06f36e43b15bf88d19a56f50d9d18d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 89/96] fix: accepts checks the number of dimensions of a
 required shape

---
 components/decorators/accepts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/decorators/accepts.py b/components/decorators/accepts.py
index 7787616..f72b29a 100644
--- a/components/decorators/accepts.py
+++ b/components/decorators/accepts.py
@@ -149,6 +149,10 @@ def accepts(*types):
                                                         f.__name__, i, i_type))
                                 require_shape = tuple(shape)
                                 try:
+                                    if require_shape[-1] == '...':
+                                        assert input_ndim >= ls - 1
+                                    else:
+                                        assert input_ndim == ls
                                     for j, rsk in enumerate(require_shape):
                                         if rsk == '...':
                                             break
-- 
2.43.0


From 4f8ae7b74d1e204b5e0f4fe4633a03e23af79e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 90/96] fix: angles of flat triangles

---
 components/functions/_2dSpace/angles_of_triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/components/functions/_2dSpace/angles_of_triangle.py b/components/functions/_2dSpace/angles_of_triangle.py
index 2f3ee7a..26d6446 100644
--- a/components/functions/_2dSpace/angles_of_triangle.py
+++ b/components/functions/_2dSpace/angles_of_triangle.py
@@ -20,10 +20,10 @@ def angles_of_triangle(A, B, C):
     b2 = b ** 2
     c2 = c ** 2
 
-    # From Cosine law
-    alpha = math.acos((b2 + c2 - a2) / (2 * b * c))
-    beta = math.acos((a2 + c2 - b2) / (2 * a * c))
-    gamma = math.acos((a2 + b2 - c2) / (2 * a * b))
+    # From Cosine law (for a flat triangle, rounding can bring the cosine out of [-1, 1])
+    alpha = math.acos(max(-1., min(1., (b2 + c2 - a2) / (2 * b * c))))
+    beta = math.acos(max(-1., min(1., (a2 + c2 - b2) / (2 * a * c))))
+    gamma = math.acos(max(-1., min(1., (a2 + b2 - c2) / (2 * a * b))))
 
     # Converting to degree
     alpha = alpha * 180 / math.pi
-- 
2.43.0


From 21b933ba97a6b0f2054cb33fc7a97a6e7515a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 91/96] fix: body force of the constant-force and still exact
 solutions

---
 .../_3d/exactSolutions/incompressibleNavierStokes/others.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py b/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
index 42797d5..205fafa 100644
--- a/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
+++ b/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
@@ -113,7 +113,7 @@ class Constant_X_direction_body_force(incompressible_NavierStokes_Base):
         """This makes body force valid at all time instants."""
         if self._bodyForce_ is None:
             self._bodyForce_ = _3dCSCG_VectorField(self.mesh, (self.fx, self.fy, self.fz),
-                                                   ftype='constant', valid_time=None)
+                                                   valid_time=None)
         return self._bodyForce_
 
 
@@ -165,5 +165,5 @@ class Still(incompressible_NavierStokes_Base):
         """This makes body force valid at all time instants."""
         if self._bodyForce_ is None:
             self._bodyForce_ = _3dCSCG_VectorField(self.mesh, (self.fx, self.fy, self.fz),
-                                                   ftype='constant', valid_time=None)
+                                                   valid_time=None)
         return self._bodyForce_
-- 
2.43.0


From 0fb8292d8ea3608d30ae6aa79f3cd70d4e25a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 92/96] fix: current_time of exact solutions not providing some
 properties

---
 objects/CSCG/_2d/exactSolutions/base.py           | 5 ++++-
 objects/CSCG/_3d/exactSolutions/base.py           | 5 ++++-
 objects/miUsGrid/triangular/exactSolution/base.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/exactSolutions/base.py b/objects/CSCG/_2d/exactSolutions/base.py
index 10e6ac7..7c14870 100644
--- a/objects/CSCG/_2d/exactSolutions/base.py
+++ b/objects/CSCG/_2d/exactSolutions/base.py
@@ -32,7 +32,10 @@ class Base(FrozenOnly):
         attr_names = dir(self)
         for attr_name in attr_names:
             if attr_name != 'current_time':
-                attr = getattr(self, attr_name)
+                try:
+                    attr = getattr(self, attr_name)
+                except NotImplementedError:  # a property this exact solution does not provide.
+                    continue
 
                 if hasattr(attr, '_current_time_'):
 
diff --git a/objects/CSCG/_3d/exactSolutions/base.py b/objects/CSCG/_3d/exactSolutions/base.py
index 72c9a48..e05919a 100644
--- a/objects/CSCG/_3d/exactSolutions/base.py
+++ b/objects/CSCG/_3d/exactSolutions/base.py
@@ -34,7 +34,10 @@ class Base(FrozenOnly):
         attr_names = dir(self)
         for attr_name in attr_names:
             if attr_name != 'current_time':
-                attr = getattr(self, attr_name)
+                try:
+                    attr = getattr(self, attr_name)
+                except NotImplementedError:  # a property this exact solution does not provide.
+                    continue
 
                 if hasattr(attr, '_current_time_'):
 
diff --git a/objects/miUsGrid/triangular/exactSolution/base.py b/objects/miUsGrid/triangular/exactSolution/base.py
index 303b2a6..b10d353 100644
--- a/objects/miUsGrid/triangular/exactSolution/base.py
+++ b/objects/miUsGrid/triangular/exactSolution/base.py
@@ -74,7 +74,10 @@ class miUsTriangle_ExactSolutionBase(FrozenOnly):
         attr_names = dir(self)
         for attr_name in attr_names:
             if attr_name != 'current_time':
-                attr = getattr(self, attr_name)
+                try:
+                    attr = getattr(self, attr_name)
+                except NotImplementedError:  # a property this exact solution does not provide.
+                    continue
 
                 if hasattr(attr, '_current_time_'):
 
-- 
2.43.0


From fc0544f4d5fc4a465d642a8decb7d631ee048ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:23 +0000
Subject: [PATCH 93/96] fix: potential of the sin cos Schroedinger solution is
 a field

---
 .../timeIndependentSchrodingerEquation/sin_cos_1.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/exactSolutions/timeIndependentSchrodingerEquation/sin_cos_1.py b/objects/CSCG/_3d/exactSolutions/timeIndependentSchrodingerEquation/sin_cos_1.py
index 36adf9a..e6a13d8 100644
--- a/objects/CSCG/_3d/exactSolutions/timeIndependentSchrodingerEquation/sin_cos_1.py
+++ b/objects/CSCG/_3d/exactSolutions/timeIndependentSchrodingerEquation/sin_cos_1.py
@@ -16,4 +16,4 @@ class TISE_SinCos1(TimeIndependentSchrodingerEquationBase):
 
     def V(self, t, x, y, z):
         """"""
-        return self.E - 12 * pi**2 * self._alpha_
+        return self.E - 12 * pi**2 * self._alpha_ + 0 * x
-- 
2.43.0


From 7f3a7979961fa749267797f61f8f763599b47794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 94/96] fix: intermediate data of coordinate transformations of
 triangular meshes

---
 .../mesh/elements/coordinate_transformation/helpers/cache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
index 9968125..8a1f7ae 100644
--- a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
+++ b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
@@ -80,7 +80,7 @@ class miUsTriangle_Elements_CT_Cache(FrozenOnly):
                     data = getattr(element.coordinate_transformation, self._method_)(self._xi_, self._et_)
                 else:
                     data = getattr(element.coordinate_transformation, self._method_)(
-                        self._xi_, self._et_, item = self._itmD_[item]
+                        self._xi_, self._et_, itmD=self._itmD_[item]
                     )
                 self._cache_[cKey] = data
                 return data
-- 
2.43.0


From f544211e5a52819316bc2aa4632160f6bf413bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 95/96] fix: relative accuracy of the shape indicator of
 triangles

---
 objects/miUsGrid/triangular/mesh/elements/element/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/element/main.py b/objects/miUsGrid/triangular/mesh/elements/element/main.py
index 7288556..66e22fa 100644
--- a/objects/miUsGrid/triangular/mesh/elements/element/main.py
+++ b/objects/miUsGrid/triangular/mesh/elements/element/main.py
@@ -133,8 +133,9 @@ class miUsGrid_TriangularMesh_Element(FrozenOnly):
         c2d = self.coordinates_2d
         c2d[:,0] -= c2d[0,0]
         c2d[:,1] -= c2d[0,1]
-        c2d = ''.join(['%.4f'%i for i in c2d[1:,:].ravel('F')])
-        return c2d
+        c2d = c2d[1:,:].ravel('F')
+        scale = np.max(np.abs(c2d)) # the size of the element; the indicator is relative to it.
+        return '%.9e'%scale + ''.join(['%+.9f'%(round(i, 9) + 0.) for i in c2d/scale])
 
 
 
-- 
2.43.0


From bf118df22b618df62ed28d391846370505922743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 96/96] fix: finding the rank of a triangle with empty ranks

---
 .../triangular/mesh/elements/do/find.py       | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/do/find.py b/objects/miUsGrid/triangular/mesh/elements/do/find.py
index 1593a87..cbf999a 100644
--- a/objects/miUsGrid/triangular/mesh/elements/do/find.py
+++ b/objects/miUsGrid/triangular/mesh/elements/do/find.py
@@ -9,7 +9,7 @@ import sys
 if './' not in sys.path: sys.path.append('./')
 
 from components.freeze.base import FrozenOnly
-from root.config.main import SIZE, np
+from root.config.main import SIZE
 
 
 class miUsGrid_TriangularMesh_Elements_DO_FIND(FrozenOnly):
@@ -29,28 +29,16 @@ class miUsGrid_TriangularMesh_Elements_DO_FIND(FrozenOnly):
                 if i in DISTRI[nC]: return nC
             raise Exception()
 
-        midCore0 = 0
-        midCore1 = SIZE // 2
-        midCore2 = SIZE
-        while i not in DISTRI[midCore1] and midCore1 - midCore0 > 2 and midCore2 - midCore1 > 2:
-            if i > max(DISTRI[midCore1]):
-                midCore0 = midCore1
-                midCore1 = (midCore0 + midCore2) // 2
-            elif i < min(DISTRI[midCore1]):
-                midCore2 = midCore1
-                midCore1 = (midCore0 + midCore2) // 2
+        # the (possibly empty) ranges are consecutive, so their stops are non-decreasing.
+        low, high = 0, SIZE - 1
+        while low < high:
+            mid = (low + high) // 2
+            if i < DISTRI[mid].stop:
+                high = mid
             else:
-                raise Exception
-        if i in DISTRI[midCore1]:
-            return midCore1
-        elif i > np.max(DISTRI[midCore1]):
-            for noCore in range(midCore1, midCore2):
-                if i in DISTRI[noCore]: return noCore
-        elif i < np.min(DISTRI[midCore1]):
-            for noCore in range(midCore0, midCore1):
-                if i in DISTRI[noCore]: return noCore
-        else:
-            raise Exception
+                low = mid + 1
+        if i in DISTRI[low]: return low
+        raise Exception()
 
 
 
-- 
2.43.0

