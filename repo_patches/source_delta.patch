From 983b6906fe4434f6c1fd8752de9c1133e284514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 01/24] fix: prod no longer multiplies into its first argument
 in place

The product of a sequence of numpy arrays was accumulated in the first
array, so the caller's data was overwritten.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..84ec715 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -33,7 +33,7 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
         if pr is None:
             pr = factor
         else:
-            pr *= factor
+            pr = pr * factor
     return np.ones(()) if pr is None else pr
 
 
-- 
2.43.0


From f01501ab487a25ea6932f27e24cf8b0f84b8c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 02/24] fix: Monte Carlo integrals use the integrand

Both integration functions averaged only the weights and ignored fn.
The batched variance also mixed the components of vector integrands.
---
 cyjax/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 84ec715..36eed3f 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -196,7 +196,7 @@ def mc_integrate(
     zs, w = sample(key, count)
 
     vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
@@ -230,7 +230,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
         zs, w = sample(key, batch_size)
 
         vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
@@ -240,7 +240,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From 6eb0852f85494f0222bb4102363fb87e34fa95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 03/24] fix: second derivative of psi for a diagonal H matrix

The result of the diagonal branch was computed but not returned, so the
Ricci tensor could not be evaluated when H was given by its diagonal.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..872db83 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0


From f04707d0ce47e32e054fe2dbe569f863f7d7b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 04/24] fix: best_dependent passes parameters and patch in the
 right order

The arguments to the gradient were swapped and the axis did not exist for
a single point, so every call raised an error.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..dd4e798 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)), axis=-1)
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
-- 
2.43.0


From cdfccefef49ee5d19fd25a927b02a92edecdd647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 05/24] fix: sample weights respect the vol argument

The combined weight ignored vol although the separate output included it.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index dd4e798..89ebf99 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -228,7 +228,7 @@ class VarietySingle:
             dvol *= vol
         if separate:
             return dvol, det
-        return 1 / (det * jnp.abs(grad_dep) ** 2)
+        return dvol / det
 
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
-- 
2.43.0


From 38eccdb04a278b1c1a2040bc63b550a51569328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 06/24] fix: solve_defining accepts homogeneous coordinates

Without a patch (the default) the index conversion failed.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 89ebf99..860d3f3 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -302,7 +302,8 @@ class VarietySingle:
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
+        dep_hom = dependent if patch is None \
+            else index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From 4a35ff5e157c4b271cf7c29d5389f504ef9ac63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 07/24] fix: change_chart to the same patch is the identity

If old and new patch agree, a coordinate was divided out anyway.
---
 cyjax/projective.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index f14e5fd..27f6f9c 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -66,7 +66,8 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          in terms of affine coordinates of the new patch.
     """
     z0, z = pop(affine, new_patch - (old_patch < new_patch))
-    return insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    changed = insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    return jnp.where(old_patch == new_patch, affine, changed)
 
 
 @jax.jit
-- 
2.43.0


From 4aafea3bc318eb7d3d24bfd5040074d5c95a0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 08/24] fix: projective_overlap draws independent radii

The radius in the direction of the other patch reused the random number of
the first coordinate. The two were correlated and the distribution was not
invariant under change_chart as documented.
---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0


From 532486c20432a7a8a8a2c8e2bdacb411e1f90164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 09/24] fix: evaluate polynomials with complex coefficients
 numerically

The imaginary unit is not a sympy Number, so evaluation raised an error.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..dbeec49 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -193,7 +193,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             index = par_index[p]
             return lambda var, par: par[index]
 
-    elif issubclass(p.func, sympy.Number):
+    elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
-- 
2.43.0


From 8a85d2a7b6f529f94d532f388de89a662b09a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 10/24] fix: substitute symbolic inputs simultaneously

Sequential substitution gave wrong results when the inputs contain the
polynomial's own symbols, for example a permutation of its variables.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index dbeec49..7ae6465 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -982,7 +982,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From 85dcad2f3dde3210187ca56cf45e4b365208f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:19 +0000
Subject: [PATCH 11/24] fix: affine_poly interprets the patch as position in
 the input

The patch was compared with the symbolic subscripts, which is wrong unless
these are 0, 1, 2 and so on.
---
 cyjax/polynomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7ae6465..4e595c1 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1130,10 +1130,11 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
+            subs = {merge_subscript(name, ind[p]): 1
+                    for name, ind, p in zip(
+                        self.variable_names, self.variable_indices, patch)}
             sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
+            indices = [[i for i in ind if i != ind[p]]
                        for ind, p in zip(self.variable_indices, patch)]
             p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
             self._affine_poly[patch_index] = p
-- 
2.43.0


From ae9b5add5538cfde6f2fb4825afb5d7f6c0c05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:53 +0000
Subject: [PATCH 12/24] fix: automatic detection of polynomial variables

Detected variables were never recorded, so a second subscript of the same
variable was added as a duplicate variable and raised an error. The order of
detected variables also depended on set iteration, which changes between
processes.
---
 cyjax/polynomial.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 4e595c1..b2b5361 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -552,7 +552,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -574,7 +575,8 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        # sort, since the order of variables must not depend on set iteration
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -600,9 +602,12 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_name_index[name] = len(variable_names)
                     variable_names.append(name)
                     variable_indices.append(None if index is None else [index])
                     var_appeared.append(True)
+                    if index is not None:
+                        rename[v] = merge_subscript(name, index)
                     continue
 
             if index is None:
-- 
2.43.0


From f0806f5da46de40749978a5691c9ea28dabd78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:53 +0000
Subject: [PATCH 13/24] fix: from_coeffs_and_powers keeps all variables and a
 stable order

The order of extracted parameters depended on set iteration. Variables whose
powers all vanish were dropped from the sympy polynomial, so constants could
not be constructed and such variables could not be differentiated.
---
 cyjax/polynomial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index b2b5361..6665c9e 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -749,7 +749,9 @@ class Poly:
         if variable_indices is None:
             variable_indices = [range(len(pws[0])) for pws in powers]
         if parameters is None:
-            parameters = list(reduce(set.union, map(set, coeffs_params)))
+            # sort, as in from_sympy, because sets have no stable order
+            parameters = sorted(
+                reduce(set.union, map(set, coeffs_params)), key=str)
         else:
             parameters = [sympy.Symbol(p) if isinstance(p, str) else p
                           for p in parameters]
@@ -765,7 +767,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
-- 
2.43.0


From 673f92a9d970ccfd2523ee3801e16c6f00b07a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:53 +0000
Subject: [PATCH 14/24] fix: to_coeffs_and_powers handles complex coefficients

Imaginary coefficients consist of two numeric factors, of which only the
last was kept.
---
 cyjax/polynomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 6665c9e..afd2eca 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -175,7 +175,8 @@ def _sympy_eval_num(val):
     elif val.func == sympy.core.numbers.ImaginaryUnit:
         return 1j
     else:
-        return float(val)
+        num = complex(val)
+        return num if num.imag else num.real
 
 
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
@@ -806,8 +807,8 @@ class Poly:
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    # complex values consist of several numeric factors
+                    coeffs[-1] = coeffs[-1] * _sympy_eval_num(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
-- 
2.43.0


From bda50510637137bea088fbbae4a6eb8cb9ab1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:53 +0000
Subject: [PATCH 15/24] fix: sample_intersect returns the requested number of
 points

The number of lines assumed that the degree of the variety equals the number
of homogeneous coordinates. Fewer points were returned for lower degrees.
---
 cyjax/variety.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 860d3f3..9f0bf10 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -252,9 +252,11 @@ class VarietySingle:
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line intersects the variety in as many points as its degree
+        degree = len(coefficients) - 1
+        sample_count = np.ceil(count / degree).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From 0fa4a70f633344be4192f156ed1048f0ff642ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:53 +0000
Subject: [PATCH 16/24] fix: sampling for varieties with parameters named t, p
 or q

Internal symbols used to parametrize the intersecting lines clashed with
parameters of the same name. This raised errors or, for a parameter like
p_0, silently gave points that are not on the variety.
---
 cyjax/variety.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 9f0bf10..268b715 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -245,9 +245,13 @@ class VarietySingle:
             Either the homogeneous coordinates or a tuple of affine coordinates
             and patch indices.
         """
-        ps = sympy.symarray('p', self.dim_complex)
-        qs = sympy.symarray('q', self.dim_complex)
-        t = np.array(sympy.Symbol('t'))
+        # names must differ from those of the parameters
+        prefix = 'x'
+        while any(str(par).startswith(prefix) for par in self.parameters):
+            prefix += 'x'
+        ps = sympy.symarray(prefix + 'p', self.dim_complex)
+        qs = sympy.symarray(prefix + 'q', self.dim_complex)
+        t = np.array(sympy.Symbol(prefix + 't'))
         z = ps + t * qs
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
-- 
2.43.0


From 369c68df8398928cf89c2f65828d935e5fc3c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:53 +0000
Subject: [PATCH 17/24] fix: reduced monomial basis is a basis for any
 polynomial

Coordinates that do not appear in the polynomial were dropped from the power
matrix. The choice of removed monomials depended on the order in which the
monomials of the polynomial were given, and could leave a linearly dependent
set.
---
 cyjax/donaldson.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 872db83..f141507 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -233,7 +233,10 @@ def reduced_monomial_basis(degree, poly_pows):
     Returns:
         2d integer matrix.
     """
-    poly_pows = jnp.atleast_2d(poly_pows)
+    # Lexicographic order, since removing multiples of an arbitrary monomial
+    # of the polynomial does not in general leave a basis.
+    poly_pows = np.atleast_2d(poly_pows)
+    poly_pows = jnp.array(poly_pows[np.lexsort(poly_pows.T[::-1])[::-1]])
     mod_degree = np.sum(poly_pows, 1)
     assert np.all(mod_degree == np.roll(mod_degree, 1))
     mod_degree = mod_degree[0]
@@ -288,7 +291,7 @@ class MonomialBasisReduced(_MonomialBasis):
         zs = sympy.symarray('z', variety.dim_projective + 1)
         poly = variety.defining_poly(zs, np.array(params))
         pows_mod = np.array(
-            [t[0] for t in sympy.Poly(poly, domain='CC').terms()])
+            [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
         super().__init__(degree, power_matrix)
 
-- 
2.43.0


From cdd89c2d9ef68ac8b0acae6cfb453df1c98e1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:14 +0000
Subject: [PATCH 18/24] fix: accept both subscript notations in polynomial
 operations

Variables given as z_1 instead of z1 were not recognized when extracting
univariate coefficients, differentiating, or adding and multiplying with a
symbol. The first silently returned wrong coefficients.
---
 cyjax/polynomial.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index afd2eca..dc88f23 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -99,6 +99,12 @@ def merge_subscript(name: str, sub: int):
     return sympy.Symbol(f'{name}{sub}')
 
 
+def _clean_symbol(var: Union[sympy.Symbol, str]) -> sympy.Symbol:
+    """Get symbol in internal notation, i.e. z1 for both z1 and z_1."""
+    name, sub = split_subscript(var)
+    return sympy.Symbol(str(var)) if sub is None else merge_subscript(name, sub)
+
+
 def _union_indices(left: Sequence[int], right: Sequence[int]) -> Sequence[int]:
     ind = []
     added = set()
@@ -861,7 +867,7 @@ class Poly:
                     var_indices[var_index] = _union_indices(indices, (index,))
                 # This will make 'other' a variable. Else it would be parsed
                 # as a parameter in the sympy.Poly.
-                other = sympy.Poly(other, domain='CC')
+                other = sympy.Poly(_clean_symbol(other), domain='CC')
             except ValueError:  # add to parameters
                 params.append(other)
 
@@ -886,7 +892,7 @@ class Poly:
 
     def diff(self, var: Union[sympy.Symbol, str]) -> sympy.Poly:
         """Differentiate with respect to a variable using sympy."""
-        sympy_poly = self.sympy_poly.diff(var)
+        sympy_poly = self.sympy_poly.diff(_clean_symbol(var))
         poly = Poly(sympy_poly, self.variable_names,
                     self.parameters, self.variable_indices)
         return self.from_poly(poly)
@@ -1037,10 +1043,9 @@ def univariate_coefficients(
         List of numerical values of instances of :class:`Poly`,
         representing the coefficients of the polynomial in ``var``.
     """
-    if isinstance(var, str):
-        var = sympy.Symbol(var)
-    elif isinstance(var, (np.ndarray, jnp.ndarray)):
+    if isinstance(var, (np.ndarray, jnp.ndarray)):
         var = var.item()
+    var = _clean_symbol(var)
     assert var not in poly.parameters, \
         'The variable by which to factor must not be a parameter.'
 
-- 
2.43.0


From cbaeb29d02150b0605f48b32462e1c0b16670b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:05 +0000
Subject: [PATCH 19/24] fix: donaldson_step accepts a real H matrix

---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index f141507..584afb5 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -865,7 +865,7 @@ class AlgebraicMetric:
         Returns:
             New value of the H matrix.
         """
-        T = jnp.zeros_like(h)
+        T = jnp.zeros_like(h, dtype=complex)
         h = (h + h.T.conj()) / 2
         keys = jax.random.split(key, batches)
 
-- 
2.43.0


From e85d7b1228a98a25abee67b919ee3172b627d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:56 +0000
Subject: [PATCH 20/24] fix: save the final parameters and losses after
 training

The file final.params and the list of losses were only written at logged
steps. The evaluation after training used later parameters, so its
accuracies did not belong to the saved network.
---
 scripts/train.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/train.py b/scripts/train.py
index 4a55497..f9d6d2a 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -222,6 +222,11 @@ def main(cfg: DictConfig) -> None:
         time_now = time.time()
         step += 1
 
+    # the last steps may not have been logged
+    np.save('losses', losses)
+    with open(f'final.params', 'wb') as save_file:
+        save_file.write(flax.serialization.to_bytes(params))
+
     if cfg.evaluation.run:
         log.info('Evaluating accuracy after training.')
 
-- 
2.43.0


From 389c6ce7fa1b3e92d258212200a64e1558a16dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:18 +0000
Subject: [PATCH 21/24] fix: show integer-valued coefficients as integers

Comparing a sympy Float with a Python int is always false in current sympy
versions, so printed polynomials contained factors such as 1.0.
---
 cyjax/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index dc88f23..cdaacf0 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -225,8 +225,8 @@ def _replace_float_ints(expr: sympy.Expr) -> sympy.Expr:
     """Replace all integer-valued floats in Expr with integers."""
     reps = dict()
     e = expr.replace(
-        lambda x: x.is_Float and x == int(x),
-        lambda x: reps.setdefault(int(x), sympy.Dummy()))
+        lambda x: x.is_Float and float(x).is_integer(),
+        lambda x: reps.setdefault(sympy.Integer(int(x)), sympy.Dummy()))
     return e.xreplace({v: k for k, v in reps.items()})
 
 
-- 
2.43.0


From 25727ffe3e3f9200406fa4b35479e8f2499aa603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:18 +0000
Subject: [PATCH 22/24] fix: induced metric with separate conjugates for
 complex coefficients

The conjugate gradient was computed by conjugating points and parameters
only, which is wrong if the polynomial has complex coefficients.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 268b715..c2c4bab 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -179,7 +179,8 @@ class VarietySingle:
         if zs_c is None:
             ind_met = induced_metric(metric, grad_def, dependent)
         else:
-            grad_def_c = self.grad_defining(zs_c, jnp.conj(params), patch)
+            grad_def_c = jnp.conj(
+                self.grad_defining(jnp.conj(zs_c), params, patch))
             ind_met = induced_metric(metric, grad_def, dependent, grad_def_c)
 
         return (ind_met, dependent) if return_dep else ind_met
-- 
2.43.0


From 54db6881b9ca8bd74dff14a4b05095bc23fd0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:05 +0000
Subject: [PATCH 23/24] fix: choose points of an incomplete line at random when
 sampling

Roots of the polynomial along a line are returned in an order that depends
on their position. If the requested number of points is not a multiple of
the degree, always keeping the first roots of the last line gave points that
do not follow the Fubini-Study measure.
---
 cyjax/variety.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index c2c4bab..163333d 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -263,6 +263,11 @@ class VarietySingle:
         sample_count = np.ceil(count / degree).astype(int)
         ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
+        if count % degree:
+            # the order of roots is not random, so neither would be which
+            # points of the last line are kept
+            key_order = jax.random.fold_in(key, 1)
+            zs_hom = jax.random.permutation(key_order, zs_hom, axis=1)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
         if affine:
-- 
2.43.0


From a141fbfe2279c64809bec087ccff319ea12b6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:19 +0000
Subject: [PATCH 24/24] fix: finite derivatives of change_chart to the same
 patch

---
 cyjax/projective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index 27f6f9c..1ecad7b 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -66,6 +66,8 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          in terms of affine coordinates of the new patch.
     """
     z0, z = pop(affine, new_patch - (old_patch < new_patch))
+    # must not divide by 0 in the unused case, for derivatives to be finite
+    z0 = jnp.where(old_patch == new_patch, 1, z0)
     changed = insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
     return jnp.where(old_patch == new_patch, affine, changed)
 
-- 
2.43.0

