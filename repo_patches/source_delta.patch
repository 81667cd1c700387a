From a658b02757d87dac9b57fd566d93b242d6c1d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 01/44] fix: component index of FrobeniusIntegralMoment x
 PointEvaluation functionals must be a tuple

---
 FIAT/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 90c59c9..76dc34e 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -175,7 +175,7 @@ class TensorProductElement(FiniteElement):
                         pt_dict = {}
                         pt_old = Anode.get_point_dict()
                         for pt in pt_old:
-                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, sd-1)]
+                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, (sd-1,))]
                         # THE FOLLOWING IS PROBABLY CORRECT BUT UNTESTED
                         shp = (sd,)
                         nodes.append(functional.Functional(ref_el, shp, pt_dict, {}, "FrobeniusIntegralMoment"))
-- 
2.43.0


From d4056cf1f03ae8af827304a0059e85dd015f5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 02/44] fix: reject linearly dependent primal bases in
 NodalEnrichedElement

Rounding usually keeps the Vandermonde matrix from being exactly singular,
so the inversion succeeded and a meaningless element was returned.
---
 FIAT/nodal_enriched.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/nodal_enriched.py b/FIAT/nodal_enriched.py
index eebb2eb..80e73bb 100644
--- a/FIAT/nodal_enriched.py
+++ b/FIAT/nodal_enriched.py
@@ -57,6 +57,8 @@ class NodalEnrichedElement(CiarletElement):
 
         # Merge polynomial sets
         coeffs = _merge_coeffs([e.get_coeffs() for e in elements])
+        if np.linalg.matrix_rank(coeffs.reshape(len(coeffs), -1)) < len(coeffs):
+            raise np.linalg.LinAlgError("Primal bases of the elements are not linearly independent")
         dmats = _merge_dmats([e.dmats() for e in elements])
         poly_set = PolynomialSet(ref_el,
                                  degree,
-- 
2.43.0


From a3f92ad1a8dd2bfaaec9a3af4ee8306d005be6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 03/44] fix: entity transforms of the edges and faces of
 non-UFC simplices

Default and Intrepid simplices did not construct their subelements, so
get_entity_transform returned the constant map onto an unrelated vertex.
---
 FIAT/reference_element.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 662a668..78a39f9 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -389,6 +389,19 @@ class Simplex(Cell):
         n = Simplex.compute_normal(self, facet_i)  # skip UFC overrides
         return n / numpy.linalg.norm(n, numpy.inf)
 
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        if dimension == self.get_spatial_dimension():
+            return self
+        elif dimension == 0:
+            return Point()
+        else:
+            return self.get_facet_element().construct_subelement(dimension)
+
     def get_entity_transform(self, dim, entity):
         """Returns a mapping of point coordinates from the
         `entity`-th subentity of dimension `dim` to the cell.
@@ -408,13 +421,7 @@ class Simplex(Cell):
             assert entity == 0
             return lambda point: point
 
-        try:
-            subcell = self.construct_subelement(dim)
-        except NotImplementedError:
-            # Special case for 1D elements.
-            x_c, = self.get_vertices_of_subcomplex(topology[0][entity])
-            return lambda x: x_c
-
+        subcell = self.construct_subelement(dim)
         subdim = subcell.get_spatial_dimension()
 
         assert subdim == celldim - codim
-- 
2.43.0


From 10bc81513a710b5b9a0042c1ff6238aa3154a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 04/44] fix: entity transforms, facet normals and flattening of
 nested tensor product cells

Dimensions of nested products are nested tuples; they were passed to
range/array arithmetic as if they were integers.
---
 FIAT/reference_element.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 78a39f9..8aa8455 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -740,7 +740,7 @@ class TensorProductCell(Cell):
         sct = [c.get_entity_transform(d, i)
                for c, d, i in zip(self.cells, dim, alpha)]
 
-        slices = TensorProductCell._split_slices(dim)
+        slices = TensorProductCell._split_slices([tuple_sum(d) for d in dim])
 
         def transform(point):
             return list(chain(*[t(point[s])
@@ -755,7 +755,8 @@ class TensorProductCell(Cell):
         """Returns the unit normal in infinity norm to facet_i of
         subelement dimension facet_dim."""
         assert len(facet_dim) == len(self.get_dimension())
-        indicator = numpy.array(self.get_dimension()) - numpy.array(facet_dim)
+        indicator = [tuple_sum(top_d) - tuple_sum(d)
+                     for top_d, d in zip(self.get_dimension(), facet_dim)]
         (cell_i,), = numpy.nonzero(indicator)
 
         n = []
@@ -1045,14 +1046,14 @@ def is_hypercube(cell):
 def flatten_reference_cube(ref_el):
     """This function flattens a Tensor Product hypercube to the corresponding UFC hypercube"""
     flattened_cube = {2: UFCQuadrilateral(), 3: UFCHexahedron()}
-    if numpy.sum(ref_el.get_dimension()) <= 1:
+    if tuple_sum(ref_el.get_dimension()) <= 1:
         # Just return point/interval cell arguments
         return ref_el
     else:
         # Handle cases where cell is a quad/cube constructed from a tensor product or
         # an already flattened element
         if is_hypercube(ref_el):
-            return flattened_cube[numpy.sum(ref_el.get_dimension())]
+            return flattened_cube[tuple_sum(ref_el.get_dimension())]
         else:
             raise TypeError('Invalid cell type')
 
-- 
2.43.0


From c382161ce66c573f2878bda6c570db30e6b86c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 05/44] fix: DiscontinuousElement.get_num_members must pass on
 its argument

---
 FIAT/discontinuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index fbb4d2b..e37547a 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -79,4 +79,4 @@ class DiscontinuousElement(CiarletElement):
 
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
-        return self._element.get_num_members()
+        return self._element.get_num_members(arg)
-- 
2.43.0


From 00f07e6c5a4eb7f0d8beab4452c8f95469724ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 06/44] fix: tabulation of enriched elements with tensor-valued
 parts

The table was allocated with flattened value components, so inserting the
tables of matrix-valued elements failed to broadcast.
---
 FIAT/enriched.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/FIAT/enriched.py b/FIAT/enriched.py
index 97ac5c5..b1458dc 100644
--- a/FIAT/enriched.py
+++ b/FIAT/enriched.py
@@ -89,8 +89,7 @@ class EnrichedElement(FiniteElement):
         """Return tabulated values of derivatives up to given order of
         basis functions at given points."""
 
-        num_components = numpy.prod(self.value_shape())
-        table_shape = (self.space_dimension(), num_components, len(points))
+        table_shape = (self.space_dimension(), *self.value_shape(), len(points))
 
         table = {}
         irange = slice(0)
@@ -103,12 +102,8 @@ class EnrichedElement(FiniteElement):
             for dtuple in etable.keys():
 
                 if dtuple not in table:
-                    if num_components == 1:
-                        table[dtuple] = numpy.zeros((self.space_dimension(), len(points)),
-                                                    dtype=etable[dtuple].dtype)
-                    else:
-                        table[dtuple] = numpy.zeros(table_shape,
-                                                    dtype=etable[dtuple].dtype)
+                    table[dtuple] = numpy.zeros(table_shape,
+                                                dtype=etable[dtuple].dtype)
 
                 table[dtuple][irange][:] = etable[dtuple]
 
-- 
2.43.0


From 8cb166102c614340220076d055b4fd6671030020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 07/44] fix: entity_support_dofs of tensor-valued elements

Only the last value component axis was summed, leaving an array per basis
function whose comparison with the tolerance raised an error.
---
 FIAT/finite_element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index f7d1b02..7b96e96 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -233,7 +233,8 @@ def entity_support_dofs(elem, entity_dim):
         # Ints contains the square of the basis functions
         # integrated over the facet.
         if elem.value_shape():
-            # Vector-valued functions.
+            # Vector- and tensor-valued functions: sum over all components.
+            vals = vals.reshape(vals.shape[0], -1, vals.shape[-1])
             ints = numpy.dot(numpy.einsum("...ij,...ij->...j", vals, vals), weights)
         else:
             ints = numpy.dot(vals**2, weights)
-- 
2.43.0


From 26b5a4e0cc5bebc0bcc55842d60eaedaabc7a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/44] fix: Bernstein derivatives of order equal to the degree

When all exponents are used up the constant is degree!, not one (the two
only agree for degree 1).
---
 FIAT/bernstein.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7fe6cfd..687adfb 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -134,8 +134,6 @@ def bernstein_db(points, ks, alpha=None):
     ls = ks - alpha
     if any(k < 0 for k in ls):
         return numpy.zeros(len(points))
-    elif all(k == 0 for k in ls):
-        return numpy.ones(len(points))
     else:
         # Calculate coefficient
         coeff = math.factorial(ks.sum())
-- 
2.43.0


From 32082dd631e5487101878d6d5ef374db6a7a6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 09/44] fix: tensor products and flattening of discontinuous
 elements

DiscontinuousElement is a wrapper without ref_el/_mapping attributes; use the
public accessors instead.
---
 FIAT/tensor_product.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 76dc34e..a209773 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -249,8 +249,8 @@ class TensorProductElement(FiniteElement):
         pointsA = [point[:pointsAdim] for point in points]
         pointsB = [point[pointsAdim:pointsAdim + pointsBdim] for point in points]
 
-        Asdim = self.A.ref_el.get_spatial_dimension()
-        Bsdim = self.B.ref_el.get_spatial_dimension()
+        Asdim = self.A.get_reference_element().get_spatial_dimension()
+        Bsdim = self.B.get_reference_element().get_spatial_dimension()
         # Note that for entities other than cells, the following
         # tabulations are already appropriately zero-padded so no
         # additional zero padding is required.
@@ -370,7 +370,7 @@ class FlattenedDimensions(FiniteElement):
     def __init__(self, element):
 
         nodes = element.dual.nodes
-        dim = element.ref_el.get_spatial_dimension()
+        dim = element.get_reference_element().get_spatial_dimension()
 
         if dim == 2:
             ref_el = UFCQuadrilateral()
@@ -383,11 +383,11 @@ class FlattenedDimensions(FiniteElement):
 
         flat_entity_ids = flatten_entities(entity_ids)
         dual = DualSet(nodes, ref_el, flat_entity_ids)
-        super(FlattenedDimensions, self).__init__(ref_el, dual, element.get_order(), element.get_formdegree(), element._mapping)
+        super(FlattenedDimensions, self).__init__(ref_el, dual, element.get_order(), element.get_formdegree(), element.mapping()[0])
         self.element = element
 
         # Construct unflattening map for passing correct values to tabulate()
-        self.unflattening_map = compute_unflattening_map(self.element.ref_el.get_topology())
+        self.unflattening_map = compute_unflattening_map(self.element.get_reference_element().get_topology())
 
     def degree(self):
         """Return the degree of the (embedding) polynomial space."""
-- 
2.43.0


From 146b9b938f1d9fc2fce4fbbafea770c84a473b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 10/44] fix: flattening of products whose second factor is a
 quadrilateral

The edges and facets of interval x quadrilateral come in a different order
than those of the hexahedron, so dofs and entity tabulations were attached to the wrong
entities.  Identify entities by their vertices.
---
 FIAT/tensor_product.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index a209773..2a3c381 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -8,7 +8,7 @@
 
 import numpy
 from FIAT.finite_element import FiniteElement
-from FIAT.reference_element import TensorProductCell, UFCQuadrilateral, UFCHexahedron, flatten_entities, compute_unflattening_map
+from FIAT.reference_element import TensorProductCell, UFCQuadrilateral, UFCHexahedron
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
 from FIAT import dual_set
@@ -379,16 +379,24 @@ class FlattenedDimensions(FiniteElement):
         else:
             raise ValueError("Illegal element dimension %s" % dim)
 
-        entity_ids = element.dual.entity_ids
+        # Construct unflattening map for passing correct values to tabulate().
+        # Entities are identified by their vertices, since the entities of
+        # e.g. interval x quadrilateral come in a different order.
+        product_entities = {vertices: (prod_dim, prod_entity)
+                            for prod_dim, entities in element.get_reference_element().get_topology().items()
+                            for prod_entity, vertices in entities.items()}
+        self.unflattening_map = {(flat_dim, flat_entity): product_entities[vertices]
+                                 for flat_dim, entities in ref_el.get_topology().items()
+                                 for flat_entity, vertices in entities.items()}
 
-        flat_entity_ids = flatten_entities(entity_ids)
+        entity_ids = element.dual.entity_ids
+        flat_entity_ids = {flat_dim: {} for flat_dim in ref_el.get_topology()}
+        for (flat_dim, flat_entity), (prod_dim, prod_entity) in self.unflattening_map.items():
+            flat_entity_ids[flat_dim][flat_entity] = entity_ids[prod_dim][prod_entity]
         dual = DualSet(nodes, ref_el, flat_entity_ids)
         super(FlattenedDimensions, self).__init__(ref_el, dual, element.get_order(), element.get_formdegree(), element.mapping()[0])
         self.element = element
 
-        # Construct unflattening map for passing correct values to tabulate()
-        self.unflattening_map = compute_unflattening_map(self.element.get_reference_element().get_topology())
-
     def degree(self):
         """Return the degree of the (embedding) polynomial space."""
         return self.element.degree()
-- 
2.43.0


From eead6686f7c7920aac195812b56b38d32cb11a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/44] fix: DPC nodes on hexahedra lie outside the cell

---
 FIAT/discontinuous_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/discontinuous_pc.py b/FIAT/discontinuous_pc.py
index 0714d89..ce997ef 100644
--- a/FIAT/discontinuous_pc.py
+++ b/FIAT/discontinuous_pc.py
@@ -63,7 +63,7 @@ class DPCDualSet(dual_set.DualSet):
         # with no other points.
         for d in range(1, flat_el.get_dimension()):
             v_.append(tuple(np.asarray(v_hypercube[flat_el.get_dimension() - d] +
-                            np.average(np.asarray(v_hypercube[::2]), axis=0))))
+                            np.average(np.asarray(v_hypercube[::2**(flat_el.get_dimension() - d)]), axis=0))))
         A, b = make_affine_mapping(v_simplex, tuple(v_))  # Make affine mapping to be used later.
 
         # make nodes by getting points
-- 
2.43.0


From c9d32e042946c2ff98309728602ba668002a1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 12/44] fix: tensor products with vector-valued factors of
 other than two components

---
 FIAT/tensor_product.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 2a3c381..2f494c1 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -307,13 +307,14 @@ class TensorProductElement(FiniteElement):
                                        Atab[alpha[0:Asdim]][..., j],
                                        Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(npoints)])
-                    assert temp.shape[1] % 2 == 0
+                    value_size, = self.A.value_shape()
+                    assert temp.shape[1] % value_size == 0
                     temp2 = temp.reshape((temp.shape[0],
-                                          temp.shape[1]//2,
-                                          2,
+                                          temp.shape[1]//value_size,
+                                          value_size,
                                           temp.shape[2]))\
                         .transpose(0, 2, 1, 3)\
-                        .reshape((temp.shape[0], 2, -1))\
+                        .reshape((temp.shape[0], value_size, -1))\
                         .transpose(2, 1, 0)
                     result[alpha] = temp2
                 elif A_valuedim == 0 and B_valuedim == 1:
@@ -327,10 +328,11 @@ class TensorProductElement(FiniteElement):
                         Atab[alpha[0:Asdim]][..., j],
                         Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(len(Atab[alpha[0:Asdim]][0]))])
-                    assert temp.shape[2] % 2 == 0
+                    value_size, = self.B.value_shape()
+                    assert temp.shape[2] % value_size == 0
                     temp2 = temp.reshape((temp.shape[0], temp.shape[1],
-                                          temp.shape[2]//2, 2))\
-                        .reshape((temp.shape[0], -1, 2))\
+                                          temp.shape[2]//value_size, value_size))\
+                        .reshape((temp.shape[0], -1, value_size))\
                         .transpose(1, 2, 0)
                     result[alpha] = temp2
         return result
-- 
2.43.0


From 63ec3202d42c4d4080f43f0b7f918cf9119b374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 13/44] fix: polynomial_set.project iterated over the keys of
 the table

---
 FIAT/polynomial_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index 9bf0b71..7e0ff46 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -185,7 +185,7 @@ def project(f, U, Q):
     pts = Q.get_points()
     wts = Q.get_weights()
     f_at_qps = [f(x) for x in pts]
-    U_at_qps = U.tabulate(pts)
+    U_at_qps = U.tabulate_new(pts)
     coeffs = numpy.array([sum(wts * f_at_qps * phi) for phi in U_at_qps])
     return coeffs
 
-- 
2.43.0


From 9808ed2918137f047a700fab8e38570a501bd5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 14/44] fix: PointNormalSecondDerivative took the normal for
 the coefficients of the second derivatives

---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 44711ca..b6a8caf 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -268,12 +268,12 @@ class PointNormalSecondDerivative(Functional):
                 alpha[i] += 1
                 alpha[j] += 1
                 alphas.append(tuple(alpha))
-                tau[cur] = n[i]*n[j]
+                tau[cur] = n[i]*n[j] if i == j else 2.0*n[i]*n[j]
                 cur += 1
 
         self.tau = tau
         self.alphas = alphas
-        dpt_dict = {pt: [(n[i], alphas[i], tuple()) for i in range(sd)]}
+        dpt_dict = {pt: [(tau[i], alphas[i], tuple()) for i in range(len(alphas))]}
 
         Functional.__init__(self, ref_el, tuple(), {}, dpt_dict, "PointNormalDeriv")
 
-- 
2.43.0


From 82cc0cb18f8052712400b9e63c2c34dbd2a642cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 15/44] fix: TensorBidirectionalMomentInnerProductEvaluation
 could not be constructed

---
 FIAT/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index b6a8caf..97d5d59 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -715,11 +715,11 @@ class TensorBidirectionalMomentInnerProductEvaluation(Functional):
         qpts, qwts = Q.get_points(), Q.get_weights()
 
         pt_dict = {}
-        for k, pt in enumerate(map(tuple(qpts))):
+        for k, pt in enumerate(map(tuple, qpts)):
             pt_dict[pt] = []
             for i, j in index_iterator((sd, sd)):
-                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[i, j, k]),
-                                   (i, j))
+                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[k],
+                                    (i, j)))
 
         shp = (sd, sd)
         super().__init__(ref_el, shp, pt_dict, {}, "TensorBidirectionalMomentInnerProductEvaluation")
-- 
2.43.0


From b04f346fe099ebbe6e391151011239223b692212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 16/44] fix: IntegralMomentOfNormalNormalEvaluation was a
 functional on vectors

---
 FIAT/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 97d5d59..c5a80f0 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -791,5 +791,6 @@ class IntegralMomentOfNormalNormalEvaluation(Functional):
         weights = Q.get_weights()
         pt_dict = OrderedDict()
         for pt, wgt, phi in zip(pts, weights, P_at_qpts):
-            pt_dict[pt] = [(wgt*phi*n[i], (i, )) for i in range(sd)]
-        super().__init__(ref_el, (sd, ), pt_dict, {}, "IntegralMomentOfScaledNormalEvaluation")
+            pt_dict[pt] = [(wgt*phi*n[i]*n[j], (i, j))
+                           for i in range(sd) for j in range(sd)]
+        super().__init__(ref_el, (sd, sd), pt_dict, {}, "IntegralMomentOfNormalNormalEvaluation")
-- 
2.43.0


From 10a9f0867ab5499e13f9196a7511d86914c0b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 17/44] fix: target shape of the divergence moments

---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index c5a80f0..6255352 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -453,7 +453,7 @@ class IntegralMomentOfDivergence(Functional):
         for j, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[j]*f_at_qpts[j], alphas[i], (i,)) for i in range(sd)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd,), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
@@ -480,7 +480,7 @@ class IntegralMomentOfTensorDivergence(Functional):
         for q, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[q]*f_at_qpts[i, q], alphas[j], (i, j)) for i in range(2) for j in range(2)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd, sd), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
-- 
2.43.0


From 810cf72d966c486812de4bdfefff28b7941e1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 18/44] fix: IntegralMoment applied to a vector-valued callable

---
 FIAT/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 6255352..749fe0d 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -304,7 +304,7 @@ class IntegralMoment(Functional):
         """Evaluate the functional on the function fn."""
         pts = list(self.pt_dict.keys())
         wts = numpy.array([foo[0][0] for foo in list(self.pt_dict.values())])
-        result = numpy.dot([fn(p) for p in pts], wts)
+        result = numpy.tensordot(wts, [fn(p) for p in pts], axes=1)
 
         if self.comp:
             result = result[self.comp]
-- 
2.43.0


From cabec4402182be5a9ef9a7a034597bd3a95b5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 19/44] fix: Legendre moments on edges of triangles other than
 the UFC one

---
 FIAT/functional.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 749fe0d..fb9e4c0 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -20,6 +20,7 @@ import sympy
 from FIAT import polynomial_set
 from FIAT.quadrature import GaussLegendreQuadratureLineRule, QuadratureRule
 from FIAT.reference_element import UFCInterval as interval
+from FIAT.reference_element import make_affine_mapping
 
 
 def index_iterator(shp):
@@ -349,8 +350,9 @@ class IntegralLegendreDirectionalMoment(Functional):
         Q = GaussLegendreQuadratureLineRule(interval(), quadpoints)
         legendre = numpy.polynomial.legendre.legval(2*Q.get_points()-1, [0]*mom_deg + [1])
         f_at_qpts = numpy.array([s*legendre[i] for i in range(quadpoints)])
-        fmap = cell.get_entity_transform(sd-1, entity)
-        mappedqpts = [fmap(pt) for pt in Q.get_points()]
+        edge = cell.get_vertices_of_subcomplex(cell.get_topology()[1][entity])
+        A, b = make_affine_mapping(interval().get_vertices(), edge)
+        mappedqpts = [numpy.dot(A, pt) + b for pt in Q.get_points()]
         mappedQ = QuadratureRule(cell, mappedqpts, Q.get_weights())
         qwts = mappedQ.wts
         qpts = mappedQ.pts
@@ -400,8 +402,9 @@ class IntegralLegendreBidirectionalMoment(Functional):
         f_at_qpts = numpy.array([s1s2T*legendre[i] for i in range(quadpoints)])
 
         # Map the quadrature points
-        fmap = cell.get_entity_transform(sd-1, entity)
-        mappedqpts = [fmap(pt) for pt in Q.get_points()]
+        edge = cell.get_vertices_of_subcomplex(cell.get_topology()[1][entity])
+        A, b = make_affine_mapping(interval().get_vertices(), edge)
+        mappedqpts = [numpy.dot(A, pt) + b for pt in Q.get_points()]
         mappedQ = QuadratureRule(cell, mappedqpts, Q.get_weights())
 
         pt_dict = OrderedDict()
-- 
2.43.0


From 797947c0b7e95b0e2b2a5c47ecb1c37183242f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 20/44] fix: normalised Jacobi polynomials and their
 derivatives in orthopoly

---
 FIAT/orthopoly.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 58ae24d..782cdd7 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -233,9 +233,9 @@ def jacobi(N, a, b, x, NOPT=1):
                        d * P[:, k - 2]) / (k2 * (k + apb) * g2)
 
     if NOPT == 2:
-        k = np.arange(N + 1)
-        pnorm = 2 ** (apb + 1) * gamma(k + a + 1) * gamma(k + b + 1) / \
-            ((2 * k + a + b + 1) * (gamma(k + 1) * gamma(k + a + b + 1)))
+        pnorm = [2 ** (apb + 1) * gamma(k + a + 1) * gamma(k + b + 1) /
+                 ((2 * k + a + b + 1) * (gamma(k + 1) * gamma(k + a + b + 1)))
+                 for k in range(N + 1)]
         P *= 1 / np.sqrt(pnorm)
     return P
 
@@ -254,8 +254,12 @@ def jacobiD(N, a, b, x, NOPT=1):
         Px = z
     else:
 
-        Px = 0.5 * np.hstack((z, jacobi(N - 1, a + 1, b + 1, x, NOPT) *
-                              ((a + b + 2 + np.arange(N)))))
+        n = np.arange(1, N + 1)
+        if NOPT == 2:
+            scale = np.sqrt(n * (n + a + b + 1))
+        else:
+            scale = 0.5 * (n + a + b + 1)
+        Px = np.hstack((z, jacobi(N - 1, a + 1, b + 1, x, NOPT) * scale))
     return Px
 
 
-- 
2.43.0


From 65dfdbaf27cd30ee211e10eb3b3a7e6d4a57232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 21/44] fix: Lobatto rules for asymmetric weights skipped the
 first recursion coefficient

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 782cdd7..77cd561 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -84,9 +84,9 @@ def lobatto(alpha, beta, xl1, xl2):
     en = np.zeros(n)
     en[-1] = 1
     A1 = np.vstack((np.sqrt(beta), alpha - xl1))
-    J1 = np.diag(A1[0, 1:-1], 1) + np.diag(A1[1, 1:]) + np.diag(A1[0, 1:-1], -1)
+    J1 = np.diag(A1[0, 1:-1], 1) + np.diag(A1[1, :-1]) + np.diag(A1[0, 1:-1], -1)
     A2 = np.vstack((np.sqrt(beta), alpha - xl2))
-    J2 = np.diag(A2[0, 1:-1], 1) + np.diag(A2[1, 1:]) + np.diag(A2[0, 1:-1], -1)
+    J2 = np.diag(A2[0, 1:-1], 1) + np.diag(A2[1, :-1]) + np.diag(A2[0, 1:-1], -1)
     g1 = solve(J1, en)
     g2 = solve(J2, en)
     C = np.array(((1, -g1[-1]), (1, -g2[-1])))
-- 
2.43.0


From edac7079df2eecdaf7925464326aa6fa577f0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 22/44] fix: orthopoly.lobatto overwrote the recursion
 coefficients of its caller

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 77cd561..daa8f03 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -93,9 +93,9 @@ def lobatto(alpha, beta, xl1, xl2):
     xl = np.array((xl1, xl2))
     ab = solve(C, xl)
 
-    alphal = alpha
+    alphal = np.array(alpha)
     alphal[-1] = ab[0]
-    betal = beta
+    betal = np.array(beta)
     betal[-1] = ab[1]
     x, w = gauss(alphal, betal)
     return x, w
-- 
2.43.0


From 6a47d2022853e48f2b9fc3f605da6bd8754ad011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 23/44] fix: tabulation on intervals truncated the values at
 points with integer coordinates

---
 FIAT/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/expansions.py b/FIAT/expansions.py
index a5fc112..85e8ff9 100644
--- a/FIAT/expansions.py
+++ b/FIAT/expansions.py
@@ -160,7 +160,7 @@ class LineExpansionSet(object):
             ref_pts = numpy.array([self.mapping(pt) for pt in pts])
             psitilde_as = jacobi.eval_jacobi_batch(0, 0, n, ref_pts)
 
-            results = numpy.zeros((n + 1, len(pts)), type(pts[0][0]))
+            results = numpy.zeros((n + 1, len(pts)), psitilde_as.dtype)
             for k in range(n + 1):
                 results[k, :] = psitilde_as[k, :] * math.sqrt(k + 0.5)
 
-- 
2.43.0


From 9d1e99cd567d7bc7bcb7fc1ac94b7f06a437442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 24/44] fix: Gauss-Jacobi weights overflowed from 99 points on

---
 FIAT/quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/quadrature.py b/FIAT/quadrature.py
index a93b73c..f66a81b 100644
--- a/FIAT/quadrature.py
+++ b/FIAT/quadrature.py
@@ -363,7 +363,7 @@ def compute_gauss_jacobi_rule(a, b, m):
     a3 = math.gamma(b + m + 1)
     a4 = math.gamma(a + b + m + 1)
     a5 = math.factorial(m)
-    a6 = a1 * a2 * a3 / a4 / a5
+    a6 = a1 * (a2 / a4) * (a3 / a5)
 
     ws = [a6 / (1.0 - x**2.0) / jacobi.eval_jacobi_deriv(a, b, m, x)**2.0
           for x in xs]
-- 
2.43.0


From d3636a43f77a3cd308c114f1d92378253ed0ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 25/44] fix: tabulating derivatives of HDivTrace at facet
 points without entity raised ValueError

---
 FIAT/hdiv_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 0f9ee66..381899f 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -201,7 +201,7 @@ class HDivTrace(FiniteElement):
                 # Retrieve values by tabulating the DG element
                 element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
-                nonzerovals, = element.tabulate(order, new_points).values()
+                nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
 
         else:
-- 
2.43.0


From 4c5cdfc27f8553da9ef4e03e21663737481b3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 26/44] fix: HDivTrace without entity assumed the facet
 numbering and orientation of UFC cells

---
 FIAT/hdiv_trace.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 381899f..a4bcc66 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -195,11 +195,15 @@ class HDivTrace(FiniteElement):
 
             # Otherwise, extract non-zero values and insertion indices
             else:
-                # Map points to the reference facet
-                new_points = map_to_reference_facet(points, vertices, unique_facet)
+                # Find the facet opposite to the vertex, and map points to the
+                # reference facet
+                element = self.dg_elements[facet_sd]
+                facets = self.ref_el.get_topology()[facet_sd]
+                unique_facet, = [i for i, vs in facets.items() if unique_facet not in vs]
+                facet_vertices = element.get_reference_element().get_vertices()
+                new_points = np.dot(coordinates[:, facets[unique_facet]], facet_vertices)
 
                 # Retrieve values by tabulating the DG element
-                element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
                 nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
-- 
2.43.0


From 2d03485bbdd2cd4d38e0d9d5d2abba87d6fb8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 27/44] fix: HDivTrace of one degree on nested tensor product
 cells raised TypeError

---
 FIAT/hdiv_trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index a4bcc66..a52621f 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -285,6 +285,10 @@ def construct_dg_element(ref_el, degree):
 
     # This handles the more general case for facets:
     elif ref_el.get_shape() == TENSORPRODUCT:
+        try:
+            degree = tuple(degree)
+        except TypeError:
+            degree = (degree,) * len(ref_el.cells)
         assert len(degree) == len(ref_el.cells), (
             "Must provide the same number of degrees as the number "
             "of cells that make up the tensor product cell."
-- 
2.43.0


From 2aef10cdcec96ac9b96452af8a4d74928eb7de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 28/44] fix: Bernstein elements on cells with unsorted entity
 vertices raised KeyError

---
 FIAT/bernstein.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 687adfb..6143d71 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -25,7 +25,7 @@ class BernsteinDualSet(DualSet):
                       for dim, entities in topology.items()}
 
         # Calculate inverse topology
-        inverse_topology = {vertices: (dim, entity_i)
+        inverse_topology = {tuple(sorted(vertices)): (dim, entity_i)
                             for dim, entities in topology.items()
                             for entity_i, vertices in entities.items()}
 
@@ -43,6 +43,11 @@ class BernsteinDualSet(DualSet):
             # Leave nodes unimplemented for now
             nodes.append(None)
 
+        # Number the nodes of each entity along its own vertices
+        for dim, entities in topology.items():
+            for entity_i, vertices in entities.items():
+                entity_ids[dim][entity_i].sort(key=lambda i: [-kss[i][v] for v in vertices])
+
         super(BernsteinDualSet, self).__init__(nodes, ref_el, entity_ids)
 
 
-- 
2.43.0


From 91603684038c72f718285b259dba2ddf1787085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 29/44] fix: compute_pointwise_dual returned meaningless
 functionals for dependent points

Rounding usually keeps the matrix from being exactly singular, so that it
was inverted without an error.
---
 FIAT/pointwise_dual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FIAT/pointwise_dual.py b/FIAT/pointwise_dual.py
index d403d64..66a6b11 100644
--- a/FIAT/pointwise_dual.py
+++ b/FIAT/pointwise_dual.py
@@ -45,7 +45,10 @@ def compute_pointwise_dual(el, pts):
     # Make a square system, invert, and then put it back in the right
     # shape so we have (nbf, ..., npts) with more dimensions
     # for vector or tensor-valued elements.
-    alphas = np.linalg.inv(V.reshape((nbf, -1)).T).reshape(V.shape)
+    Vmat = V.reshape((nbf, -1)).T
+    if np.linalg.matrix_rank(Vmat) < nbf:
+        raise np.linalg.LinAlgError("The points are not unisolvent.")
+    alphas = np.linalg.inv(Vmat).reshape(V.shape)
 
     # Each row of alphas gives the coefficients of a functional,
     # represented, as elsewhere in FIAT, as a summation of
-- 
2.43.0


From cdfcb0b91f4d80a4fd7cdc670008739e24cf25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 30/44] fix: spectral 1D elements took points within 1e-8 of a
 node for the node

The tolerance was passed as relative tolerance of a comparison with zero,
which left the default absolute tolerance in place.
---
 FIAT/barycentric_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/barycentric_interpolation.py b/FIAT/barycentric_interpolation.py
index ceee2f1..b3d87a3 100644
--- a/FIAT/barycentric_interpolation.py
+++ b/FIAT/barycentric_interpolation.py
@@ -31,7 +31,7 @@ def barycentric_interpolation(xsrc, xdst, order=0):
     numpy.fill_diagonal(D, numpy.diag(D) - numpy.sum(D, axis=0))
 
     I = numpy.add.outer(-xsrc, xdst)
-    idx = numpy.argwhere(numpy.isclose(I, 0.0E0, 1E-14))
+    idx = numpy.argwhere(numpy.isclose(I, 0.0E0, atol=1E-14))
     I[idx[:, 0], idx[:, 1]] = 1.0E0
     I = 1.0E0 / I
     I *= w[:, None]
-- 
2.43.0


From dd16bace29647d8ce3d7c5bfe99caebd9a2909c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 31/44] fix: compute_pointwise_dual raised AttributeError for
 discontinuous versions of elements

---
 FIAT/pointwise_dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/pointwise_dual.py b/FIAT/pointwise_dual.py
index 66a6b11..865a175 100644
--- a/FIAT/pointwise_dual.py
+++ b/FIAT/pointwise_dual.py
@@ -31,7 +31,7 @@ def compute_pointwise_dual(el, pts):
     """
     nbf = el.space_dimension()
 
-    T = el.ref_el
+    T = el.get_reference_element()
     sd = T.get_spatial_dimension()
 
     assert np.asarray(pts).shape == (int(nbf / np.prod(el.value_shape())), sd)
-- 
2.43.0


From dd2fbe46aa34ac099901681a1452cdd7ac99f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:10 +0000
Subject: [PATCH 32/44] fix: mixed elements had no degree, and no
 entity_support_dofs

---
 FIAT/mixed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FIAT/mixed.py b/FIAT/mixed.py
index 5901218..ebdc614 100644
--- a/FIAT/mixed.py
+++ b/FIAT/mixed.py
@@ -49,6 +49,10 @@ class MixedElement(FiniteElement):
     def num_sub_elements(self):
         return len(self._elements)
 
+    def degree(self):
+        """Return the degree of the (embedding) polynomial space."""
+        return max(e.degree() for e in self._elements)
+
     def value_shape(self):
         return (sum(numpy.prod(e.value_shape(), dtype=int) for e in self.elements()), )
 
-- 
2.43.0


From 22e9e8d96697815e2166b8a7dd53d26b36ec064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 33/44] fix: entity_support_dofs missed functions that are
 small on the whole cell

The threshold was absolute, so that for example Taylor functions of degree 5
and more were reported to vanish everywhere.
---
 FIAT/finite_element.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index 7b96e96..f2b9ca9 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -217,29 +217,32 @@ def entity_support_dofs(elem, entity_dim):
     ref_el = elem.get_reference_element()
     dim = ref_el.get_spatial_dimension()
 
+    def squares(points):
+        # Squares of the basis functions, summed over all components.
+        vals = numpy.asarray(elem.tabulate(0, points)[(0,) * dim], dtype=numpy.double)
+        vals = vals.reshape(vals.shape[0], -1, vals.shape[-1])
+        return numpy.sum(vals**2, axis=1)
+
     entity_cell = ref_el.construct_subelement(entity_dim)
     quad = create_quadrature(entity_cell, max(2*elem.degree(), 1))
     weights = quad.get_weights()
 
     eps = 1.e-8  # Is this a safe value?
 
+    # Functions that are small on the whole cell need a smaller threshold.
+    cell_quad = create_quadrature(ref_el, max(2*elem.degree(), 1))
+    norms = numpy.dot(squares(cell_quad.get_points()), cell_quad.get_weights())
+    eps = eps * numpy.fmin(1.0, norms)
+
     result = {}
     for f in elem.entity_dofs()[entity_dim].keys():
         entity_transform = ref_el.get_entity_transform(entity_dim, f)
         points = list(map(entity_transform, quad.get_points()))
 
         # Integrate the square of the basis functions on the facet.
-        vals = numpy.double(elem.tabulate(0, points)[(0,) * dim])
-        # Ints contains the square of the basis functions
-        # integrated over the facet.
-        if elem.value_shape():
-            # Vector- and tensor-valued functions: sum over all components.
-            vals = vals.reshape(vals.shape[0], -1, vals.shape[-1])
-            ints = numpy.dot(numpy.einsum("...ij,...ij->...j", vals, vals), weights)
-        else:
-            ints = numpy.dot(vals**2, weights)
+        ints = numpy.dot(squares(points), weights)
 
-        result[f] = [dof for dof, i in enumerate(ints) if i > eps]
+        result[f] = [dof for dof, i in enumerate(ints) if i > eps[dof]]
 
     cache[entity_dim] = result
     return result
-- 
2.43.0


From 717f7ff8a4d4890c0147aec347e2a9bab71bd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 34/44] fix: polynomial_set.project assumed members of unit
 norm and scalar functions

---
 FIAT/polynomial_set.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index 7e0ff46..c00d317 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -184,9 +184,13 @@ def project(f, U, Q):
     """
     pts = Q.get_points()
     wts = Q.get_weights()
-    f_at_qps = [f(x) for x in pts]
+    f_at_qps = numpy.moveaxis(numpy.array([f(x) for x in pts]), 0, -1)
     U_at_qps = U.tabulate_new(pts)
-    coeffs = numpy.array([sum(wts * f_at_qps * phi) for phi in U_at_qps])
+    # The members are not normalised, except on the base reference elements
+    nm = U.get_num_members()
+    wU = (wts * U_at_qps).reshape(nm, -1)
+    coeffs = numpy.linalg.solve(numpy.dot(wU, U_at_qps.reshape(nm, -1).T),
+                                numpy.dot(wU, f_at_qps.reshape(-1)))
     return coeffs
 
 
-- 
2.43.0


From f67207a0d22d69014b43a160b633b851b2c14bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 35/44] fix: DPC elements on tensor product cells could not be
 tabulated without an entity

---
 FIAT/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index f2b9ca9..d8dae70 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -170,7 +170,7 @@ class CiarletElement(FiniteElement):
                      default cell-wise tabulation is performed.
         """
         if entity is None:
-            entity = (self.ref_el.get_spatial_dimension(), 0)
+            entity = (self.ref_el.get_dimension(), 0)
 
         entity_dim, entity_id = entity
         transform = self.ref_el.get_entity_transform(entity_dim, entity_id)
-- 
2.43.0


From 457c1a4f320190c108a99d5386d52d92dc511db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 36/44] fix: Bernstein elements of negative degree or on
 non-simplices were constructed instead of rejected

---
 FIAT/bernstein.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 6143d71..bbe2fc6 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -12,6 +12,7 @@ import numpy
 from FIAT.finite_element import FiniteElement
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
+from FIAT.reference_element import Simplex
 
 
 class BernsteinDualSet(DualSet):
@@ -55,6 +56,10 @@ class Bernstein(FiniteElement):
     """A finite element with Bernstein polynomials as basis functions."""
 
     def __init__(self, ref_el, degree):
+        if not isinstance(ref_el, Simplex):
+            raise ValueError("Bernstein elements are only defined on simplices")
+        if degree < 1:
+            raise ValueError("Bernstein elements need degree at least 1")
         dual = BernsteinDualSet(ref_el, degree)
         k = 0  # 0-form
         super(Bernstein, self).__init__(ref_el, dual, degree, k)
-- 
2.43.0


From cd7f917915e0cf0559b01edc29b93b1bc1fd6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 37/44] fix: KMV quadrature on default simplices returned the
 rule of the UFC cell

---
 FIAT/quadrature_schemes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/quadrature_schemes.py b/FIAT/quadrature_schemes.py
index fc83a68..a40edad 100644
--- a/FIAT/quadrature_schemes.py
+++ b/FIAT/quadrature_schemes.py
@@ -104,6 +104,8 @@ def _kmv_lump_scheme(ref_el, degree):
         T = UFCTetrahedron()
     else:
         raise ValueError("Dimension not supported")
+    if ref_el.get_vertices() != T.get_vertices():
+        raise ValueError("KMV lumping schemes are only available on the UFC cells")
 
     if degree == 1:
         x = ref_el.vertices
-- 
2.43.0


From c2e706cb0d7a7e4240d47047698e2087ac19fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 38/44] fix: broken elements reported to be nodal when the
 element they are made from is not

---
 FIAT/discontinuous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index e37547a..8ccb0f2 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -80,3 +80,7 @@ class DiscontinuousElement(CiarletElement):
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
         return self._element.get_num_members(arg)
+
+    def is_nodal(self):
+        # This element is nodal iff the broken element is nodal.
+        return self._element.is_nodal()
-- 
2.43.0


From 1f15b255542fdac5cf20dcbd19df54564a38f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 39/44] fix: number serendipity functions on all hexahedron
 faces in the faces' own coordinates

On the two faces normal to y the factors of each face function were
exchanged, so that from degree 5 on the functions of such a face did not
match those of a face normal to x or z that it is glued to.
---
 FIAT/serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/serendipity.py b/FIAT/serendipity.py
index 74b158e..4bcf483 100644
--- a/FIAT/serendipity.py
+++ b/FIAT/serendipity.py
@@ -227,7 +227,7 @@ def f_lambda_0(i, dim, dx, dy, dz, x_mid, y_mid, z_mid):
     else:
         FL = tuple([leg(j, y_mid) * leg(k-4-j, z_mid) * dy[0] * dy[1] * dz[0] * dz[1] * a
                     for a in dx for k in range(4, i + 1) for j in range(k-3)] +
-                   [leg(j, z_mid) * leg(k-4-j, x_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
+                   [leg(j, x_mid) * leg(k-4-j, z_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
                     for b in dy for k in range(4, i + 1) for j in range(k-3)] +
                    [leg(j, x_mid) * leg(k-4-j, y_mid) * dx[0] * dx[1] * dy[0] * dy[1] * c
                     for c in dz for k in range(4, i + 1) for j in range(k-3)])
-- 
2.43.0


From 6fc7a92cd7e779ea4c53835992796cf5bdbf883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 40/44] fix: use the requested quadrature in the face and cell
 dofs of second kind Nedelec

The integral variants documented to use quadrature_degree used it on
edges only, so that interpolation of fields of the degree asked for did
not commute with curl.
---
 FIAT/nedelec_second_kind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/nedelec_second_kind.py b/FIAT/nedelec_second_kind.py
index 49b3c8b..8d1f050 100644
--- a/FIAT/nedelec_second_kind.py
+++ b/FIAT/nedelec_second_kind.py
@@ -144,7 +144,7 @@ class NedelecSecondKindDual(DualSet):
         for face in range(num_faces):
 
             # Construct quadrature scheme for this face
-            m = 2 * (degree + 1)
+            m = quad_deg if variant == "integral" else 2 * (degree + 1)
             Q_face = UFCTetrahedronFaceQuadratureRule(face, m)
 
             # Construct Raviart-Thomas of (degree - 1) on the
@@ -194,7 +194,8 @@ class NedelecSecondKindDual(DualSet):
             return ([], {0: []})
 
         # Create quadrature points
-        Q = make_quadrature(cell, 2 * (degree + 1))
+        m = quad_deg if variant == "integral" else 2 * (degree + 1)
+        Q = make_quadrature(cell, m)
         qs = Q.get_points()
 
         # Create Raviart-Thomas nodal basis
-- 
2.43.0


From 8a0f3568de2b901311f8f9d23a34d4bb3d4c585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:38 +0000
Subject: [PATCH 41/44] fix: allow enriching mixed elements, which have no
 order

---
 FIAT/enriched.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FIAT/enriched.py b/FIAT/enriched.py
index b1458dc..425a416 100644
--- a/FIAT/enriched.py
+++ b/FIAT/enriched.py
@@ -38,7 +38,10 @@ class EnrichedElement(FiniteElement):
 
         # order is at least max, possibly more, though getting this
         # right isn't important AFAIK
-        order = max(e.get_order() for e in elements)
+        if any(e.get_order() is None for e in elements):
+            order = None
+        else:
+            order = max(e.get_order() for e in elements)
         # form degree is essentially max (not true for Hdiv/Hcurl,
         # but this will raise an error above anyway).
         # E.g. an H^1 function enriched with an L^2 is now just L^2.
-- 
2.43.0


From b250261447a79bd9f4dbcba3ddeb1e1cf412d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:13 +0000
Subject: [PATCH 42/44] fix: do not differentiate in a point derivative of
 order zero

---
 FIAT/functional.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index fb9e4c0..a4cf902 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -230,10 +230,7 @@ class PointDerivative(Functional):
         X = sympy.DeferredVector('x')
         dX = numpy.asarray([X[i] for i in range(len(x))])
 
-        dvars = tuple(d for d, a in zip(dX, self.alpha)
-                      for count in range(a))
-
-        return sympy.diff(fn(X), *dvars).evalf(subs=dict(zip(dX, x)))
+        return sympy.diff(fn(X), *zip(dX, self.alpha)).evalf(subs=dict(zip(dX, x)))
 
 
 class PointNormalDerivative(Functional):
-- 
2.43.0


From 4f3e34d008d0350732a9e77b24f3fdeab4264510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:13 +0000
Subject: [PATCH 43/44] fix: keep derivative functionals of order zero in the
 dual set's matrix

---
 FIAT/dual_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/dual_set.py b/FIAT/dual_set.py
index 215048b..46f072b 100644
--- a/FIAT/dual_set.py
+++ b/FIAT/dual_set.py
@@ -114,7 +114,7 @@ class DualSet(object):
 
         # Tabulate the derivative values that are needed
         max_deriv_order = max([ell.max_deriv_order for ell in self.nodes])
-        if max_deriv_order > 0:
+        if dpts_to_ells:
             dpts = list(dpts_to_ells.keys())
             # It's easiest/most efficient to get derivatives of the
             # expansion set through the polynomial set interface.
-- 
2.43.0


From a58337e8dea612f3c8eb19e655e848cbd8fba2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:45 +0000
Subject: [PATCH 44/44] fix: take integer exponents given as floats in the
 modified moments of logarithmic weights

---
 FIAT/orthopoly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index daa8f03..9176174 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -288,10 +288,10 @@ def mm_log(N, a):
 
     c = 1
     for n in range(N):
-        if isinstance(a, int) and a < n:
+        if a == int(a) and a < n:
 
-            p = range(n - a, n + a + 2)
-            mm[n] = (-1) ** (n - a) / prod(p)
+            p = range(n - int(a), n + int(a) + 2)
+            mm[n] = (-1) ** (n - int(a)) / prod(p)
             mm[n] *= gamma(a + 1) ** 2
 
         else:
-- 
2.43.0

