From 9689da0bcdf19463442b8542574f9397f4430aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 01/15] fix: direct serendipity of degree >= 3 lost polynomials
 on non-parallelograms

The edge functions blended with powers of a rational function instead of the
linear one of the construction, so on quadrilaterals without parallel sides
the span did not contain the polynomials of the degree (not even constants)
and traces on shared edges were not polynomial.
---
 finat/direct_serendipity.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd084a4..37b3bfc 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -372,9 +372,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                       for e in ct[1]}
 
     ae = adjacent_edges
-    tunnel_R_edges = {e: ((lams[ae[e][0]] - lams[ae[e][1]])
-                          / (lams[ae[e][0]] + lams[ae[e][1]]))
-                      for e in range(4)}
+    tunnel_R_edges = {e: lams[ae[e][0]] - lams[ae[e][1]] for e in range(4)}
     edge_nodes = []
     for ed in range(4):
         ((v0x, v0y), (v1x, v1y)) = vs[ct[1][ed], :]
-- 
2.43.0


From 47c54781060603169dc54398324fc6e1ce19df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 02/15] fix: closure degrees of freedom of reduced elements
 exceeded the space

Elements that expose fewer degrees of freedom than the FIAT element they
tabulate reported closures listing the constraint functionals as well.
---
 finat/fiat_elements.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1f20818..d4a35ce 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -67,9 +67,6 @@ class FiatElement(FiniteElementBase):
     def entity_dofs(self):
         return self._element.entity_dofs()
 
-    def entity_closure_dofs(self):
-        return self._element.entity_closure_dofs()
-
     @property
     def entity_permutations(self):
         return self._element.entity_permutations()
-- 
2.43.0


From b431906eab6d7d4df18fc4fed2027711a71132c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 03/15] fix: vanishing derivatives of reduced elements had the
 wrong extent

---
 finat/fiat_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index d4a35ce..69e5e5d 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -125,7 +125,7 @@ class FiatElement(FiniteElementBase):
                 elif derivative > self.degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
-                    exprs.append(gem.Literal(np.zeros(self.index_shape)))
+                    exprs.append(gem.Literal(np.zeros(index_shape)))
                 else:
                     point_indices = ps.indices
                     point_shape = tuple(index.extent for index in point_indices)
-- 
2.43.0


From e01f0043dd452e0b389fc9fc1e7d7b00a2d959f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 04/15] fix: concurrent first requests gave one point set
 different indices

---
 finat/point_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finat/point_set.py b/finat/point_set.py
index 63ab8dc..242e96d 100644
--- a/finat/point_set.py
+++ b/finat/point_set.py
@@ -113,7 +113,8 @@ class UnknownPointSet(AbstractPointSet):
     @cached_property
     def indices(self):
         N, _ = self._points_expr.shape
-        return (gem.Index(extent=N),)
+        # A concurrent first request may already have made the index
+        return self.__dict__.setdefault("indices", (gem.Index(extent=N),))
 
     @cached_property
     def expression(self):
@@ -139,7 +140,8 @@ class PointSet(AbstractPointSet):
 
     @cached_property
     def indices(self):
-        return (gem.Index(extent=len(self.points)),)
+        # A concurrent first request may already have made the index
+        return self.__dict__.setdefault("indices", (gem.Index(extent=len(self.points)),))
 
     @cached_property
     def expression(self):
-- 
2.43.0


From 8a751c1d2d402102a1c34782fe32880bf71f60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 05/15] fix: copying or unpickling WithMapping recursed without
 end

---
 finat/ufl/hdivcurl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index ed18803..d54f58d 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -170,6 +170,9 @@ class WithMapping(FiniteElementBase):
 
     def __getattr__(self, attr):
         """Doc."""
+        if attr == "wrapee":
+            # Not initialised yet, e.g. when being copied or unpickled
+            raise AttributeError(attr)
         try:
             return getattr(self.wrapee, attr)
         except AttributeError:
-- 
2.43.0


From 46daa3d5a73dceda81c3d2aba69584e7a624daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 06/15] fix: restricting an unsupported element returned the
 error instead of raising it

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index cbd56b3..e81b3c6 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -26,7 +26,7 @@ def restrict(element, domain, take_closure):
         element.
     :raises ValueError: If the restricted element is empty.
     :returns: A new finat element."""
-    return NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
+    raise NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
 
 
 @restrict.register(FiatElement)
-- 
2.43.0


From 2f0994f92b740038920768e2017c9c089e685df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 07/15] fix: dual evaluation of transposed tensor elements had
 its indices out of order

---
 finat/tensorfiniteelement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index c0a8aa9..02b13f7 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -202,7 +202,10 @@ class TensorFiniteElement(FiniteElementBase):
         # a minimal memory footprint, although the operation count
         # does appear to be minimal.
         evaluation = gem.optimise.contraction(evaluation)
-        return evaluation, scalar_i + tensor_vi
+        if self._transpose:
+            return evaluation, tensor_vi + scalar_i
+        else:
+            return evaluation, scalar_i + tensor_vi
 
     @property
     def mapping(self):
-- 
2.43.0


From 8b0cee0fd6ac2fcce70e433415539835a61a28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 08/15] fix: registering an element family could rebind a known
 name or stop half way

A taken short name was silently rebound, concurrent registrations of one
name both succeeded, and an interruption left only the long name known.
---
 finat/ufl/elementlist.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index 172eb78..abd73f7 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -17,6 +17,7 @@ elements by calling the function register_element.
 # Modified by Matthew Scroggs, 2023
 # Modified by Pablo Brubeck, 2024
 
+import threading
 import warnings
 
 from numpy import asarray
@@ -31,23 +32,30 @@ ufl_elements = {}
 # Aliases: aliases[name] (...) -> (standard_name, ...)
 aliases = {}
 
+# Guards both tables while they are changed
+_registry_lock = threading.Lock()
+
 
 # Function for registering new elements
 def register_element(family, short_name, value_rank, sobolev_space, mapping,
                      degree_range, cellnames):
     """Register new finite element family."""
-    if family in ufl_elements:
-        raise ValueError(f"Finite element '{family}%s' has already been registered.")
-    ufl_elements[family] = (family, short_name, value_rank, sobolev_space,
-                            mapping, degree_range, cellnames)
-    if short_name is not None:
-        ufl_elements[short_name] = (family, short_name, value_rank, sobolev_space,
-                                    mapping, degree_range, cellnames)
+    data = (family, short_name, value_rank, sobolev_space,
+            mapping, degree_range, cellnames)
+    names = (family,) if short_name is None else (family, short_name)
+    with _registry_lock:
+        for name in names:
+            if name in ufl_elements or name in aliases:
+                raise ValueError(f"Finite element '{name}' has already been registered.")
+        ufl_elements.update(dict.fromkeys(names, data))
 
 
 def register_alias(alias, to):
-    """Doc."""
-    aliases[alias] = to
+    """Register another name for finite element families."""
+    with _registry_lock:
+        if alias in ufl_elements or alias in aliases:
+            raise ValueError(f"Finite element '{alias}' has already been registered.")
+        aliases[alias] = to
 
 
 def show_elements():
-- 
2.43.0


From 2e57e85acef7f5045e051cc21a6249b79e8842b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 09/15] fix: derivatives of hypercube elements were folded to
 constants above their nominal degree

The degree of a serendipity-like element does not bound the degree of its
polynomials in each direction, so mixed derivatives were wrong or refused.
---
 finat/fiat_elements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 69e5e5d..60cda4f 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -107,6 +107,8 @@ class FiatElement(FiniteElementBase):
         # dealing with transformations between physical
         # and reference space).
         index_shape = (self._element.space_dimension(),)
+        # On hypercubes the nominal degree need not bound that of the polynomials
+        simplex = self.complex.is_simplex()
         for alpha, fiat_table in fiat_result.items():
             if isinstance(fiat_table, Exception):
                 result[alpha] = gem.Failure(self.index_shape + self.value_shape, fiat_table)
@@ -119,10 +121,10 @@ class FiatElement(FiniteElementBase):
 
             exprs = []
             for table in table_roll:
-                if derivative == self.degree and not self.complex.is_macrocell():
+                if simplex and derivative == self.degree and not self.complex.is_macrocell():
                     # Make sure numerics satisfies theory
                     exprs.append(gem.Literal(table[0]))
-                elif derivative > self.degree:
+                elif simplex and derivative > self.degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
                     exprs.append(gem.Literal(np.zeros(index_shape)))
-- 
2.43.0


From 2d1744b4709f0e5df21059e64a2fb5ea15b70c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 10/15] fix: elements of one fixed degree silently accepted any
 other degree

---
 finat/bell.py         | 2 ++
 finat/hct.py          | 2 ++
 finat/hermite.py      | 2 ++
 finat/morley.py       | 2 ++
 finat/powell_sabin.py | 4 ++++
 5 files changed, 12 insertions(+)

diff --git a/finat/bell.py b/finat/bell.py
index ce7d000..f5d1e72 100644
--- a/finat/bell.py
+++ b/finat/bell.py
@@ -10,6 +10,8 @@ from copy import deepcopy
 
 class Bell(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=5):
+        if degree != 5:
+            raise ValueError("Bell only defined for degree 5")
         if Citations is not None:
             Citations().register("Bell1969")
         super().__init__(FIAT.Bell(cell))
diff --git a/finat/hct.py b/finat/hct.py
index f072d8e..e912e31 100644
--- a/finat/hct.py
+++ b/finat/hct.py
@@ -39,6 +39,8 @@ class HsiehCloughTocher(PhysicallyMappedElement, ScalarFiatElement):
 
 class ReducedHsiehCloughTocher(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=3):
+        if degree != 3:
+            raise ValueError("ReducedHsiehCloughTocher only defined for degree 3")
         if Citations is not None:
             Citations().register("Clough1965")
         super().__init__(FIAT.HsiehCloughTocher(cell, reduced=True))
diff --git a/finat/hermite.py b/finat/hermite.py
index ae54bdc..32acae3 100644
--- a/finat/hermite.py
+++ b/finat/hermite.py
@@ -7,6 +7,8 @@ from finat.physically_mapped import Citations, identity, PhysicallyMappedElement
 
 class Hermite(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=3):
+        if degree != 3:
+            raise ValueError("Hermite only defined for degree 3")
         if Citations is not None:
             Citations().register("Ciarlet1972")
         super().__init__(FIAT.CubicHermite(cell))
diff --git a/finat/morley.py b/finat/morley.py
index 986a447..ece7af1 100644
--- a/finat/morley.py
+++ b/finat/morley.py
@@ -8,6 +8,8 @@ from finat.physically_mapped import Citations, identity, PhysicallyMappedElement
 
 class Morley(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=2):
+        if degree != 2:
+            raise ValueError("Morley only defined for degree 2")
         if Citations is not None:
             Citations().register("Morley1971")
         super().__init__(FIAT.Morley(cell))
diff --git a/finat/powell_sabin.py b/finat/powell_sabin.py
index d82e7f3..55066e7 100644
--- a/finat/powell_sabin.py
+++ b/finat/powell_sabin.py
@@ -8,6 +8,8 @@ from finat.physically_mapped import Citations, identity, PhysicallyMappedElement
 
 class QuadraticPowellSabin6(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=2):
+        if degree != 2:
+            raise ValueError("QuadraticPowellSabin6 only defined for degree 2")
         if Citations is not None:
             Citations().register("PowellSabin1977")
         super().__init__(FIAT.QuadraticPowellSabin6(cell))
@@ -35,6 +37,8 @@ class QuadraticPowellSabin6(PhysicallyMappedElement, ScalarFiatElement):
 
 class QuadraticPowellSabin12(PhysicallyMappedElement, ScalarFiatElement):
     def __init__(self, cell, degree=2, avg=False):
+        if degree != 2:
+            raise ValueError("QuadraticPowellSabin12 only defined for degree 2")
         self.avg = avg
         if Citations is not None:
             Citations().register("PowellSabin1977")
-- 
2.43.0


From 3d19ee75ebd8cf99f1e91501642a2a84dbf291a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 11/15] fix: choose the symbolic back end of direct serendipity
 once

direct_serendipity and sympy2gem each tried to import symengine.  When the
package appeared between the two (an interrupted import retried after the
package was installed), bases were built in symengine but could not be
translated: 'sympy/symengine node expected'.
---
 finat/direct_serendipity.py | 9 ++-------
 finat/sympy2gem.py          | 2 ++
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index 37b3bfc..4253f52 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -3,18 +3,13 @@ from itertools import chain, repeat
 import gem
 import numpy
 import sympy
-try:
-    import symengine
-    symbolics = symengine
-except ImportError:
-    symbolics = sympy
 from FIAT.polynomial_set import mis
 from FIAT.reference_element import UFCQuadrilateral
 from gem.utils import cached_property
 
 from finat.finiteelementbase import FiniteElementBase
 from finat.physically_mapped import Citations, DirectlyDefinedElement
-from finat.sympy2gem import sympy2gem
+from finat.sympy2gem import symbolics, sympy2gem
 
 
 class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
@@ -248,7 +243,7 @@ def diff(expr, xx, alpha):
     if isinstance(expr, sympy.Expr):
         return expr.diff(*(zip(xx, alpha)))
     else:
-        return symengine.diff(expr, *(chain(*(repeat(x, a) for x, a in zip(xx, alpha)))))
+        return symbolics.diff(expr, *(chain(*(repeat(x, a) for x, a in zip(xx, alpha)))))
 
 
 def dsr_sym(ct, r, *, vs=None, sp=symbolics):
diff --git a/finat/sympy2gem.py b/finat/sympy2gem.py
index 29add87..84d1407 100644
--- a/finat/sympy2gem.py
+++ b/finat/sympy2gem.py
@@ -4,11 +4,13 @@ import numpy
 import sympy
 try:
     import symengine
+    symbolics = symengine
 except ImportError:
     class Mock:
         def __getattribute__(self, name):
             return Mock
     symengine = Mock()
+    symbolics = sympy
 
 import gem
 
-- 
2.43.0


From 16654a31c564a1ef2b568e5464cec5b720b9230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 12/15] fix: a tensor product rule of factors made on the fly
 lost its orientation maps

---
 finat/quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/quadrature.py b/finat/quadrature.py
index ec6def1..1e634b0 100644
--- a/finat/quadrature.py
+++ b/finat/quadrature.py
@@ -127,7 +127,7 @@ class TensorProductQuadratureRule(AbstractQuadratureRule):
         self.factors = tuple(factors)
         self._intrinsic_orientation_permutation_map_tuple = tuple(
             m
-            for factor in factors
+            for factor in self.factors
             for m in factor._intrinsic_orientation_permutation_map_tuple
         )
 
-- 
2.43.0


From 42c7357f25639022a44d8adb3934cb83e5783d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 13/15] fix: a mixed element of components made on the fly was
 silently empty

---
 finat/mixed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/mixed.py b/finat/mixed.py
index e8b371c..a882eed 100644
--- a/finat/mixed.py
+++ b/finat/mixed.py
@@ -12,6 +12,7 @@ def MixedElement(elements):
     Implements mixed element using :py:class:`EnrichedElement` and
     value shape transformations with :py:class:`MixedSubElement`.
     """
+    elements = tuple(elements)
     sizes = [numpy.prod(element.value_shape, dtype=int)
              for element in elements]
     offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
-- 
2.43.0


From 10e85c9db66a8b27757f1f381e67f275e6af8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 14/15] fix: evaluate tensor products at points of entities
 that meet a factor at a vertex

point_evaluation on an entity that is a vertex of one of the factors built an
empty ListTensor for that factor's coordinates, which gem asserts against, so
a facet or an edge of a quadrilateral, hexahedron or prism could not be
evaluated at all.
---
 finat/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index de3708f..458ecfc 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -163,7 +163,7 @@ class TensorProductElement(FiniteElementBase):
             point_factors.append(gem.ListTensor(
                 [gem.Indexed(point, (i,))
                  for i in range(s.start, s.stop)]
-            ))
+            ) if s.stop > s.start else gem.Zero((0,)))
 
         # Subelement results
         factor_results = [fe.point_evaluation(order, p_, e)
-- 
2.43.0


From 61b0ff58fdf3a6bc62420b9056a5ceab7b8814d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:46 +0000
Subject: [PATCH 15/15] fix: refuse form degrees that do not exist

A negative form degree indexed the tables of the finite element exterior
calculus notation from the end, so that FiniteElement("P", triangle, 1,
form_degree=-1) silently was a discontinuous element.
---
 finat/ufl/elementlist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index abd73f7..a8de034 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -315,6 +315,8 @@ def feec_element(family, n, r, k):
     _feec_elements["Q-"] = _feec_elements["Q- Lambda"]
     _feec_elements["S"] = _feec_elements["S Lambda"]
 
+    if not 0 <= k <= n:
+        raise ValueError(f"Invalid form degree {k} in {n} dimensions.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
@@ -362,6 +364,8 @@ def feec_element_l2(family, n, r, k):
     _feec_elements["Q- L2"] = _feec_elements["Q- Lambda L2"]
     _feec_elements["S L2"] = _feec_elements["S Lambda L2"]
 
+    if not 0 <= k <= n:
+        raise ValueError(f"Invalid form degree {k} in {n} dimensions.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
-- 
2.43.0

