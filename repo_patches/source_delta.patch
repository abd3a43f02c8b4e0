From 46713e2c2e0768e9e6dc6e9c6c0c557e6caa9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/56] fix: accept numpy arrays for the cardinality arguments
 of InflationProblem

---
 inflation/InflationProblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..48d2931 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -86,11 +86,11 @@ class InflationProblem:
         self.verbose = verbose
 
         # Read settings and outcomes
-        if not outcomes_per_party:
+        if not np.any(outcomes_per_party):
             raise ValueError("Please provide outcomes per party.")
         self.outcomes_per_party = np.array(outcomes_per_party, dtype=int)
         self.nr_parties         = len(self.outcomes_per_party)
-        if not settings_per_party:
+        if not np.any(settings_per_party):
             if self.verbose > 0:
                 warn("No settings per party provided, " +
                      "assuming all parties have one setting.")
@@ -273,7 +273,7 @@ class InflationProblem:
         assert np.sum(self.hypergraph, axis=0).all(), \
             ("There appears to be a party with no sources in its past. This is not allowed.")
 
-        if not inflation_level_per_source:
+        if not np.any(inflation_level_per_source):
             if self.verbose > 0:
                 warn("The inflation level per source must be a non-empty list."
                      + " Defaulting to 1 (no inflation, just NPA hierarchy).")
-- 
2.43.0


From 19e9af623aa29acd02e51aee51619882ea515f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 02/56] fix: bring words to canonical form before looking for
 their copy-symmetry representative

---
 inflation/sdp/InflationSDP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..798d0f0 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1630,7 +1630,8 @@ class InflationSDP:
         except KeyError:
             pass
 
-        other_keys, real_repr_lexmon = self._inflation_orbit_and_rep_1d(lexmon)
+        other_keys, real_repr_lexmon = \
+            self._inflation_orbit_and_rep_1d(canonical_mon)
         other_keys.append(key)
         for key in other_keys:
             self.canonsym_lexmon_from_hash[key] = real_repr_lexmon
@@ -2271,7 +2272,8 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form as 1D array.
         """
-        key = tuple(lexmon)
+        # The two modes of canonicalization may give different results
+        key = (tuple(lexmon), apply_only_commutations)
         try:
             return self.canon_lexmon_from_hash[key]
         except KeyError:
@@ -2285,7 +2287,7 @@ class InflationSDP:
                         self._notcomm, self._orthomat, 
                         self.all_operators_commute,
                         apply_only_commutations=apply_only_commutations)
-                new_key = tuple(new_lexmon)
+                new_key = (tuple(new_lexmon), apply_only_commutations)
                 self.canon_lexmon_from_hash[key]     = new_lexmon
                 self.canon_lexmon_from_hash[new_key] = new_lexmon
                 return new_lexmon
-- 
2.43.0


From e80389c67a435a6f7509a700724ee089d4dc6a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 03/56] fix: merge indices of equal moments when the generating
 set is not closed under source swaps

---
 inflation/sdp/InflationSDP.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 798d0f0..1c6ca97 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -353,6 +353,19 @@ class InflationSDP:
                                disable=not self.verbose,
                                desc="Initializing monomials   "):
             self.compmoment_from_idx[idx] = self.Moment_1d(lexmon, idx)
+        # When the generating set is not closed under source swaps, different
+        # indices can be associated to the same moment: keep the lowest one
+        idx_from_moment = dict()
+        for idx in sorted(self.compmoment_from_idx):
+            mon = self.compmoment_from_idx[idx]
+            first_idx = idx_from_moment.setdefault(mon, idx)
+            if first_idx != idx:
+                del self.compmoment_from_idx[idx]
+                self.momentmatrix[self.momentmatrix == idx] = first_idx
+                self.orbits = {unsym_idx: (first_idx if orb == idx else orb)
+                               for unsym_idx, orb in self.orbits.items()}
+                del self.symmetrized_corresp[idx]
+            mon.attach_idx(first_idx)
         self.first_free_idx = max(self.compmoment_from_idx.keys()) + 1
         self.moments = list(self.compmoment_from_idx.values())
         self.monomials = list(self.compmoment_from_idx.values())
-- 
2.43.0


From 84fc6b0a2e86adf415972dc37c00d5e3f0b36126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 04/56] fix: impose default lower bounds of zero only on
 moments of non-negative operators

---
 inflation/sdp/InflationSDP.py     |  2 +-
 inflation/sdp/monomial_classes.py | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1c6ca97..b03a3ac 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -386,7 +386,7 @@ class InflationSDP:
             self.hermitian_moments = self.moments
         else:
             self.hermitian_moments = [mon for mon in self.moments
-                                      if mon.is_hermitian]
+                                      if mon.is_physical]
             if self.verbose > 1:
                 print(f"The problem has {len(self.hermitian_moments)} " +
                       "non-negative moments.")
diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..ebda69f 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -89,6 +89,17 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
          under inflation symmetries and commutation."""
         return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
 
+    @cached_property
+    def is_physical(self) -> bool:
+        """Whether the atomic monomial is a non-negative operator, i.e.,
+        whether it is equal to its conjugate using only commutation rules."""
+        if self.is_all_commuting:
+            return True
+        canonical = self.context._to_canonical_memoized_1d
+        return np.array_equal(
+            canonical(self.as_lexmon, apply_only_commutations=True),
+            canonical(self.as_lexmon[::-1], apply_only_commutations=True))
+
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
-- 
2.43.0


From 6fc6c4e3cc30d52160f314308bf726cf7326c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 05/56] fix: read operator names that include the values of the
 parents

---
 inflation/lp/InflationLP.py   | 4 +++-
 inflation/sdp/InflationSDP.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..5ee3dae 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1193,8 +1193,10 @@ class InflationLP(object):
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b03a3ac..29ef1b6 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1709,8 +1709,10 @@ class InflationSDP:
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From b7770322eee6f83daa5da9b578aa10c4e01ef4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 06/56] fix: read products of expectation values as such, and
 not as the expectation value of the product

---
 inflation/lp/InflationLP.py    | 45 +++++++++++++++++++++++++++++-----
 inflation/sdp/InflationSDP.py  | 43 +++++++++++++++++++++++++++++---
 inflation/sdp/quantum_tools.py | 24 ++++++++++++++++++
 3 files changed, 103 insertions(+), 9 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 5ee3dae..0da1cb2 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -25,7 +25,7 @@ from .numbafied import (nb_outer_bitwise_or,
                         nb_outer_bitwise_xor)
 from .writer_utils import write_to_lp, write_to_mps
 from ..sdp.fast_npa import nb_is_knowable as is_knowable
-from ..sdp.quantum_tools import flatten_symbolic_powers
+from ..sdp.quantum_tools import flatten_symbolic_powers, split_into_factors
 from ..utils import clean_coefficients, eprint, partsextractor, \
     expand_sparse_vec
 
@@ -1080,9 +1080,7 @@ class InflationLP(object):
                         return self.monomial_from_name[str(symbols[0])]
                     except KeyError:
                         pass
-                array = np.concatenate([self._interpret_atomic_string(str(op))
-                                        for op in symbols])
-                return self._sanitise_monomial(array)
+                return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, (tuple, list, np.ndarray)):
             array = np.asarray(mon, dtype=self.np_dtype)
             assert array.ndim <= 2, \
@@ -1160,20 +1158,55 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[monomial]
             except KeyError:
-                factors = monomial.split("*")
+                factors = split_into_factors(monomial)
         elif isinstance(monomial, tuple) or isinstance(monomial, list):
             factors = [str(factor) for factor in monomial]
         elif isinstance(monomial, sp.core.symbol.Expr):
             try:
                 return self.monomial_from_symbol[monomial]
             except KeyError:
-                factors = [str(factor)
+                factors = [self.monomial_from_symbol.get(factor, str(factor))
                            for factor in flatten_symbolic_powers(monomial)]
         else:
             raise Exception(f'Cannot interpret monomial with name {monomial} of type {type(monomial)}')
+        if not all(factor in self.op_from_name for factor in factors):
+            return self._monomial_from_factors(factors)
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _monomial_from_factors(self,
+                               factors: List[Union[str, CompoundMoment]]
+                               ) -> CompoundMoment:
+        """Build the monomial that is the product of several expectation
+        values. Operators outside expectation values contribute with the
+        expectation value of their product.
+
+        Parameters
+        ----------
+        factors : List[Union[str, CompoundMoment]]
+            Monomials, or string representations of operators or monomials.
+
+        Returns
+        -------
+        CompoundMoment
+            The product of all the factors.
+        """
+        atoms, arrays, operators = [], [], []
+        for factor in factors:
+            if isinstance(factor, CompoundMoment):
+                atoms.extend(factor.factors)
+            elif factor in self.op_from_name:
+                operators.append(self._interpret_operator_string(factor))
+            else:
+                arrays.append(self._interpret_atomic_string(factor))
+        if operators:
+            arrays.append(np.vstack(operators))
+        for array in arrays:
+            atoms.extend(self._AtomicMonomial(atom) for atom in
+                         self.factorize_monomial_1d(self.mon_to_lexrepr(array),
+                                                    canonical_order=False))
+        return self._monomial_from_atoms(atoms)
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 29ef1b6..b2f7b85 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -29,7 +29,8 @@ from .quantum_tools import (apply_inflation_symmetries,
                             calculate_momentmatrix_1d_internal,
                             construct_normalization_eqs,
                             flatten_symbolic_powers,
-                            generate_operators
+                            generate_operators,
+                            split_into_factors
                             )
 from .sdp_utils import solveSDP_MosekFUSION
 from .writer_utils import (write_to_csv,
@@ -1676,20 +1677,56 @@ class InflationSDP:
             try:
                 return self.monomial_from_name[monomial]
             except KeyError:
-                factors = monomial.split("*")
+                factors = split_into_factors(monomial)
         elif isinstance(monomial, (tuple, list)):
             factors = [str(factor) for factor in monomial]
         elif isinstance(monomial, sp.core.symbol.Expr):
             try:
                 return self.monomial_from_symbol[monomial]
             except KeyError:
-                factors = [str(factor)
+                factors = [self.monomial_from_symbol.get(factor, str(factor))
                            for factor in flatten_symbolic_powers(monomial)]
         else:
             raise Exception(f'Cannot interpret monomial with name {monomial} of type {type(monomial)}')
+        if not all(factor in self.op_from_name for factor in factors):
+            return self._moment_from_factors(factors)
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _moment_from_factors(self,
+                             factors: List[Union[str, CompoundMomentSDP]]
+                             ) -> CompoundMomentSDP:
+        """Build the moment that is the product of several expectation values.
+        Operators outside expectation values contribute with the expectation
+        value of their product.
+
+        Parameters
+        ----------
+        factors : List[Union[str, CompoundMomentSDP]]
+            Moments, or string representations of operators or moments.
+
+        Returns
+        -------
+        CompoundMomentSDP
+            The product of all the factors.
+        """
+        atoms, arrays, operators = [], [], []
+        for factor in factors:
+            if isinstance(factor, CompoundMomentSDP):
+                atoms.extend(factor.factors)
+            elif factor in self.op_from_name:
+                operators.append(self._interpret_operator_string(factor))
+            else:
+                arrays.append(self._interpret_atomic_string(factor))
+        if operators:
+            arrays.append(np.vstack(operators))
+        for array in arrays:
+            lexmon = self._to_canonical_memoized_1d(self.mon_to_lexrepr(array))
+            atoms.extend(self._AtomicMonomial(atom + 1) for atom in
+                         self.factorize_moment_1d(lexmon - 1,
+                                                  canonical_order=False))
+        return self._monomial_from_atoms(atoms)
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/quantum_tools.py b/inflation/sdp/quantum_tools.py
index 33fcd06..a5668e6 100644
--- a/inflation/sdp/quantum_tools.py
+++ b/inflation/sdp/quantum_tools.py
@@ -47,6 +47,30 @@ def flatten_symbolic_powers(monomial: sympy.core.symbol.Symbol
     return factors
 
 
+def split_into_factors(name: str) -> List[str]:
+    """Split the name of a product into the names of its factors, repeating
+    those that are raised to a power.
+
+    Parameters
+    ----------
+    name : str
+        Name of a product, e.g., ``"P[A=0]^2*P[B=0]"``.
+
+    Returns
+    -------
+    List[str]
+        List of the names of all the factors, with the powers expanded.
+    """
+    factors = []
+    for factor in name.split("*"):
+        base, _, exponent = factor.rpartition("^")
+        if base and exponent.isdecimal():
+            factors.extend([base] * int(exponent))
+        else:
+            factors.append(factor)
+    return factors
+
+
 def reduce_inflation_indices(monomial: np.ndarray) -> np.ndarray:
     """Reduce the inflation indices of a monomial as much as possible. This
     procedure might not give the canonical form directly due to commutations.
-- 
2.43.0


From 808db0efefb55fe573a821df55fc404af73c2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 07/56] fix: pass the extra equalities and inequalities of an
 SDP to the solver

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b2f7b85..3f93f7b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2211,10 +2211,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From 86cde9f05d8fc0cab08724d47a347188bb9e6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 08/56] fix: substitute semiknown moments in the objective of
 an SDP

---
 inflation/sdp/InflationSDP.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 3f93f7b..77affe0 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2073,6 +2073,15 @@ class InflationSDP:
         and semiknown_moments.
         """
         self._processed_objective = self.objective.copy()
+        semiknowns_to_process = set(self.semiknown_moments.keys()
+                                    ).intersection(
+                                        self._processed_objective.keys()
+                                    ).difference(self.known_moments.keys())
+        for mon in semiknowns_to_process:
+            coeff = self._processed_objective.pop(mon)
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
         knowns_to_process = set(self.known_moments.keys()
                                 ).intersection(
                                     self._processed_objective.keys())
@@ -2082,15 +2091,6 @@ class InflationSDP:
             self._processed_objective[self.One] += \
                 self._processed_objective[m] * value
             del self._processed_objective[m]
-        semiknowns_to_process = set(self.semiknown_moments.keys()
-                                    ).intersection(
-                                        self._processed_objective.keys())
-        for mon in semiknowns_to_process:
-            coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From 46bf5aa02cfb9a509afbd5116fcca3ea1416dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 09/56] fix: recompute the objective of an SDP when the known
 values are reset

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 77affe0..299c50a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2066,6 +2066,7 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        self._update_objective()
         collect()
 
     def _update_objective(self) -> None:
-- 
2.43.0


From ef802fd214a9ff99874928c1e6cd46807e84aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 10/56] fix: forget the atoms of the previous relaxation when
 generating a new one

---
 inflation/sdp/InflationSDP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 299c50a..75500b9 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -298,6 +298,13 @@ class InflationSDP:
         self.monomial_from_atoms        = dict()
         self.monomial_from_name         = dict()
         self.monomial_from_symbol       = dict()
+        # Forget what was computed from the moments of a previous relaxation
+        for attribute in ["atomic_factors",
+                          "atomic_monomials",
+                          "atom_from_name",
+                          "knowable_atoms",
+                          "do_conditional_atoms"]:
+            self.__dict__.pop(attribute, None)
         self.Zero = self.Moment_2d(self.zero_operator, idx=0)
         self.One  = self.Moment_2d(self.identity_operator, idx=1)
         self.Constant_Term = self.One.__copy__()
-- 
2.43.0


From f0dbbb04b3a4b73c3da900e5fad338aeb5d6a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 11/56] fix: do not pass to the solver values of moments that
 are not in the SDP relaxation

---
 inflation/sdp/InflationSDP.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 75500b9..f0a0e09 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -725,11 +725,6 @@ class InflationSDP:
                              if len(mon) == 1}
             atomic_knowns.update({atom.dagger: val
                                   for atom, val in atomic_knowns.items()})
-            moments_not_present = set(self.known_moments.keys()
-                                        ).difference(self.moments)
-            for moment in moments_not_present:
-                del self.known_moments[moment]
-
             # Get the remaining moments that need assignment
             if all(atom.is_knowable for atom in atomic_knowns):
                 if not self.use_lpi_constraints:
@@ -766,6 +761,12 @@ class InflationSDP:
                      "least one monomial that does not appear in the " +
                      f"original moment matrix:\n\t{surprising_semiknowns}")
             del atomic_knowns, surprising_semiknowns
+        # Values of moments that are not in the relaxation are only used for
+        # computing the values of those that are
+        moments_not_present = set(self.known_moments.keys()
+                                    ).difference(self.moments)
+        for moment in moments_not_present:
+            del self.known_moments[moment]
         self._cleanup_after_set_values()
 
     def set_values(self, values, **kwargs):
-- 
2.43.0


From d251648374eb991d686fd0c14528ca956fc41c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 12/56] fix: infer again the values of products when the values
 of an SDP are updated

---
 inflation/sdp/InflationSDP.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f0a0e09..10fce06 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -712,6 +712,7 @@ class InflationSDP:
                 pass
             moment = self._sanitise_moment(moment)
             self.known_moments[moment] = value
+            self._inferred_moments.discard(moment)
             if (self.verbose > 0) and (not moment.is_all_commuting):
                 non_all_commuting_moments.add(moment)
         if (len(non_all_commuting_moments) >= 1) and (self.verbose > 0):
@@ -720,8 +721,14 @@ class InflationSDP:
                  str(non_all_commuting_moments))
         del non_all_commuting_moments
         if not only_specified_values:
-            atomic_knowns = {mon.factors[0]: val
-                             for mon, val in self.known_moments.items()
+            # What was inferred from previous values is inferred again
+            for moment in self._inferred_moments:
+                self.known_moments.pop(moment, None)
+            self._inferred_moments = set()
+            self.semiknown_moments = dict()
+            atomic_knowns = {mon.factors[0]: val for mon, val in
+                             chain(self._absent_known_moments.items(),
+                                   self.known_moments.items())
                              if len(mon) == 1}
             atomic_knowns.update({atom.dagger: val
                                   for atom, val in atomic_knowns.items()})
@@ -746,6 +753,7 @@ class InflationSDP:
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[moment] = value
+                    self._inferred_moments.add(moment)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -766,7 +774,7 @@ class InflationSDP:
         moments_not_present = set(self.known_moments.keys()
                                     ).difference(self.moments)
         for moment in moments_not_present:
-            del self.known_moments[moment]
+            self._absent_known_moments[moment] = self.known_moments.pop(moment)
         self._cleanup_after_set_values()
 
     def set_values(self, values, **kwargs):
@@ -2069,6 +2077,8 @@ class InflationSDP:
         self._reset_solution()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
+        self._inferred_moments = set()
+        self._absent_known_moments = dict()
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
-- 
2.43.0


From 197d83d9ac550e81661a7be1a0c7083437baa251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 13/56] fix: infer again the values of products when the values
 of an LP are updated

---
 inflation/lp/InflationLP.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0da1cb2..e97e77d 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -426,7 +426,13 @@ class InflationLP(object):
                 pass
             mon = self._sanitise_monomial(mon)
             self.known_moments[mon] = value
+            self._inferred_moments.discard(mon)
         if not only_specified_values:
+            # What was inferred from previous values is inferred again
+            for mon in self._inferred_moments:
+                self.known_moments.pop(mon, None)
+            self._inferred_moments = set()
+            self.semiknown_moments = dict()
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
                              if len(mon) == 1}
@@ -459,6 +465,7 @@ class InflationLP(object):
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[mon] = value
+                    self._inferred_moments.add(mon)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -1747,6 +1754,7 @@ class InflationLP(object):
         self._reset_solution()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
+        self._inferred_moments = set()
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
-- 
2.43.0


From 2cf62bbbdcf606ab1aa307be6aa84bff858dce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 14/56] fix: write the events of an LP in the same order
 regardless of the order of the input

---
 inflation/lp/InflationLP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index e97e77d..8290ddb 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -972,7 +972,7 @@ class InflationLP(object):
             return self._atomic_monomial_from_hash[key.tobytes()]
         except KeyError:
             if len(self.lexorder_symmetries) == 1:
-                mon = InternalAtomicMonomial(self, array1d)
+                mon = InternalAtomicMonomial(self, np.flatnonzero(key))
                 self._atomic_monomial_from_hash[key.tobytes()] = mon
                 return mon
             else:
-- 
2.43.0


From 8840504d7d08a96382f52c189df62d643a63516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 15/56] fix: apply again the bounds of an SDP on moments whose
 values are no longer known

---
 inflation/sdp/InflationSDP.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 10fce06..edcea8a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -427,6 +427,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._suspended_bounds   = {"lo": dict(), "up": dict()}
 
         self.set_objective(None)
         self.set_values(None)
@@ -1330,6 +1331,8 @@ class InflationSDP:
             defaults to sparse SDPA format. Supported formats are ``.mat``
             (MATLAB), ``.dat-s`` (SDPA), and ``.csv`` (human-readable).
         """
+        self._update_bounds("lo")
+        self._update_bounds("up")
         # Determine file extension
         parts = filename.split(".")
         if len(parts) >= 2:
@@ -2058,12 +2061,14 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self._suspended_bounds["lo"] = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
         self.moment_upperbounds = dict()
+        self._suspended_bounds["up"] = dict()
 
     def _reset_objective(self) -> None:
         """Reset the objective function."""
@@ -2114,7 +2119,8 @@ class InflationSDP:
 
     def _update_bounds(self, typ: str) -> None:
         """Helper function to check that bounds are consistent with the
-        specified known values.
+        specified known values. The bounds on moments with known values are
+        suspended for as long as the value is known.
 
         Parameters
         ----------
@@ -2130,6 +2136,11 @@ class InflationSDP:
         else:
             raise Exception(f"The bound type was {typ}, but it must be " +
                             "either \"up\" or \"lo\".")
+        suspended = self._suspended_bounds[typ]
+        for mon in set(suspended).difference(self.known_moments):
+            bounds.setdefault(mon, suspended.pop(mon))
+        for mon, b in suspended.items():
+            bounds.setdefault(mon, b)
         for mon, value in self.known_moments.items():
             if isinstance(value, Real):
                 try:
@@ -2138,7 +2149,7 @@ class InflationSDP:
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-                    del bounds[mon]
+                    suspended[mon] = bounds.pop(mon)
                 except KeyError:
                     pass
 
@@ -2216,6 +2227,8 @@ class InflationSDP:
             ("Error: Tried to assign known values outside of moment matrix: " +
              str(set(self.known_moments.keys()
                      ).difference(self.moments)))
+        self._update_bounds("lo")
+        self._update_bounds("up")
         if len(self.maskmatrices) == 0:
             self._construct_mask_matrices()
         solverargs = {"mask_matrices": {mon.name: mask_matrix
-- 
2.43.0


From 2035ba64c9eb0cda4cdb2108eab989fd5bf764ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 16/56] fix: forget the previous support when setting a new one

---
 inflation/lp/InflationLP.py   | 14 ++++++++++++++
 inflation/sdp/InflationSDP.py | 16 ++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 8290ddb..aa2cbee 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1713,6 +1713,8 @@ class InflationLP(object):
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                self._support_lowerbounds.setdefault(
+                    mon, self.moment_lowerbounds.get(mon))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1733,9 +1735,20 @@ class InflationLP(object):
         self._reset_upperbounds()
         collect()
 
+    def _undo_support_lowerbounds(self) -> None:
+        """Helper function to take away the lower bounds that encode which
+        moments are in the support specified previously."""
+        for mon, bound in self._support_lowerbounds.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._support_lowerbounds = dict()
+
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
+        self._support_lowerbounds = dict()
         self.moment_lowerbounds = dict()
 
     def _reset_upperbounds(self) -> None:
@@ -1756,6 +1769,7 @@ class InflationLP(object):
         self.semiknown_moments = dict()
         self._inferred_moments = set()
         self.known_moments[self.One] = 1.
+        self._undo_support_lowerbounds()
         self.extra_equalities = []
         self.extra_inequalities = []
         collect()
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index edcea8a..b5e281c 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -428,6 +428,7 @@ class InflationSDP:
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
         self._suspended_bounds   = {"lo": dict(), "up": dict()}
+        self._support_lowerbounds = dict()
 
         self.set_objective(None)
         self.set_values(None)
@@ -2035,6 +2036,9 @@ class InflationSDP:
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                suspended = self._suspended_bounds["lo"].pop(mon, None)
+                self._support_lowerbounds.setdefault(
+                    mon, self.moment_lowerbounds.get(mon, suspended))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -2057,9 +2061,20 @@ class InflationSDP:
         if self.verbose > 1 and num_semiknown > 0:
             print(f"Number of semiknown variables: {num_semiknown}")
 
+    def _undo_support_lowerbounds(self) -> None:
+        """Helper function to take away the lower bounds that encode which
+        moments are in the support specified previously."""
+        for mon, bound in self._support_lowerbounds.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._support_lowerbounds = dict()
+
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
+        self._support_lowerbounds = dict()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
         self._suspended_bounds["lo"] = dict()
         self._update_bounds("lo")
@@ -2084,6 +2099,7 @@ class InflationSDP:
         self.semiknown_moments = dict()
         self._inferred_moments = set()
         self._absent_known_moments = dict()
+        self._undo_support_lowerbounds()
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
-- 
2.43.0


From 6ca3c45e49ba4d93e4e670bb5b85a8c786deea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 17/56] fix: take into account extra constraints set after the
 constraints of an LP were first listed by name

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index aa2cbee..4bc19a6 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1791,12 +1791,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From eb98345f2ddcfdb9f47663f3e9950f3956dfed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 18/56] fix: impose all the normalization equalities between
 the columns of an SDP

---
 inflation/sdp/InflationSDP.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b5e281c..decec29 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1911,8 +1911,13 @@ class InflationSDP:
                 np.concatenate([self.mon_to_lexrepr(np.expand_dims(m, axis=0))
                                 for m in group], dtype=np.intc)    
         
+        # Removing operators can leave monomials in non-canonical form
+        canon_to_index = \
+            {tuple(self._to_canonical_memoized_1d(lexmon)): i
+             for i, lexmon in enumerate(self.generating_monomials_1d)}
+
         column_level_equalities = []
-        for i, lexmon in enumerate(self.generating_monomials_1d):
+        for lexmon in self.generating_monomials_1d:
             last_outcome_ops = last_outcome_boolmask[lexmon]
             if last_outcome_ops.sum() > 0:
                 eqs = []
@@ -1924,12 +1929,13 @@ class InflationSDP:
                         eqs += [(lhs, list(rhs))]
                 for eq in eqs:
                     try:
-                        eq_idxs = [self.genmon_1d_to_index[tuple(eq[0])]]
-                        eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
-                                        for m in eq[1]])
-                        column_level_equalities += [tuple(eq_idxs)]
+                        norm_idx, *sum_idxs = \
+                            [canon_to_index[
+                                tuple(self._to_canonical_memoized_1d(m))]
+                             for m in [eq[0], *eq[1]]]
+                        column_level_equalities += [(norm_idx, sum_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From d0c91ddda98c0390fb2e6ffc940c5c1a2aae0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 19/56] fix: forget the previous solution when setting extra
 constraints

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 4bc19a6..a5cd462 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -525,6 +525,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -542,6 +543,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index decec29..467826d 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -447,6 +447,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -464,6 +465,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
-- 
2.43.0


From 599b86afd1d81a0ebedeec6d062d8bc51c5db890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 20/56] fix: do not drop the constant in constant symbolic
 polynomials

---
 inflation/lp/InflationLP.py   | 5 +----
 inflation/sdp/InflationSDP.py | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a5cd462..c1872ca 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1130,10 +1130,7 @@ class InflationLP(object):
             The sanitized dictionary.
         """
         if isinstance(input_dict, sp.core.expr.Expr):
-            if input_dict.free_symbols:
-                input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
-            else:
-                input_dict_copy = dict()
+            input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 467826d..3078645 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1613,11 +1613,8 @@ class InflationSDP:
 
     def _sanitise_dict(self, input_dict: Any) -> Dict:
         if isinstance(input_dict, sp.core.expr.Expr):
-            if input_dict.free_symbols:
-                input_dict_copy = {k: float(v) for k, v in sp.expand(
-                    input_dict).as_coefficients_dict().items()}
-            else:
-                input_dict_copy = dict()
+            input_dict_copy = {k: float(v) for k, v in sp.expand(
+                input_dict).as_coefficients_dict().items()}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0


From 0efdd20367865a98d92a058ab8a1d19376ac52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 21/56] fix: drop the empty rows of the constraints of an LP
 without changing the arguments

---
 inflation/lp/lp_utils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..34f10a0 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -16,7 +16,7 @@ from ..utils import partsextractor, expand_sparse_vec, vstack
 
 
 def drop_zero_rows(coo_mat: coo_array):
-    """Drops zero rows from a sparse matrix in place.
+    """Drops zero rows from a sparse matrix.
 
     Parameters
     ----------
@@ -26,13 +26,12 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-    """Puts a sparse matrix in canonical order in place.
+    """Puts a sparse matrix in canonical order.
 
     Parameters
     ----------
@@ -42,10 +41,10 @@ def canonical_order(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     order = np.lexsort([coo_mat.col, coo_mat.row])
-    coo_mat.row = np.asarray(coo_mat.row)[order]
-    coo_mat.col = np.asarray(coo_mat.col)[order]
-    coo_mat.data = np.asarray(coo_mat.data)[order]
-    return coo_mat
+    row = np.asarray(coo_mat.row)[order]
+    col = np.asarray(coo_mat.col)[order]
+    data = np.asarray(coo_mat.data)[order]
+    return coo_array((data, (row, col)), shape=coo_mat.shape)
 
 def solveLP(objective: Union[coo_array, Dict] = None,
             known_vars: Union[coo_array, Dict] = None,
@@ -282,7 +281,7 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                 kv_matrix = coo_array((kv_data, (kv_row, kv_col)),
                                        shape=(nof_known_vars * 2,
                                               nof_primal_variables + 1))
-                canonical_order(kv_matrix)
+                kv_matrix = canonical_order(kv_matrix)
                 constraints.resize(*(nof_primal_constraints,
                                      nof_primal_variables + 1))
                 b = np.hstack((b, np.tile(known_vars.data, 2)))
-- 
2.43.0


From 760a4e7c2db0c30a1e3947a1db210adf4213b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 22/56] fix: accept linear programs where some of the arguments
 are not given or have no rows

---
 inflation/lp/lp_utils.py |  3 +++
 inflation/utils.py       | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 34f10a0..6396094 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -123,6 +123,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
+    # Arguments that are not given take their default values
+    solver_args = {k: v for k, v in solver_args.items() if v is not None}
     return solveLP_sparse(**solver_args)
 
 
@@ -241,6 +243,7 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
             # Initialize constraint matrix
             constraints = vstack((inequalities, equalities))
+            constraints.resize(constraints.shape[0], len(variables))
 
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..3bf12aa 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -162,10 +162,15 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
                                   shape=(nof_rows, nof_cols)).asformat(format)
         else:
             return sps.vstack(blocks, format)
-    elif nof_blocks == 1:
-        return non_empty[0]
+    nof_cols = max((block.shape[-1] for block in blocks), default=0)
+    if nof_blocks == 1:
+        block = non_empty[0]
+        if block.shape[1] < nof_cols:
+            block = block.copy()
+            block.resize(block.shape[0], nof_cols)
+        return block.asformat(format)
     else:
-        return sps.coo_array([])
+        return sps.coo_array((0, nof_cols)).asformat(format)
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From afda5671c3acc3ad3de1575672849b5abfcc8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 23/56] fix: subtract the whole objective, and only from
 optimal solutions, in the certificate of an LP

---
 inflation/lp/lp_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 6396094..e7c0a3a 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -516,10 +516,11 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_row = [0] * nof_primal_variables
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
-            obj_data = objective.toarray().ravel()
-            objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
-            cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
+            if success:
+                # The objective plays no role in certificates of infeasibility
+                obj_data = objective.toarray().ravel()
+                cert_data[:len(obj_data)] = -obj_data
+            cert_data[known_vars.col] += y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
             sparse_certificate = coo_array((cert_data, (cert_row, cert_col)),
-- 
2.43.0


From b8eff4060214728f7fc194abbe638251e45f25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 24/56] fix: let lower bounds replace the default ones also in
 the dual formulation of an LP

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e7c0a3a..5adfb96 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -342,7 +342,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
                 # Set constraint bounds corresponding to primal variable bounds
                 if default_non_negative:
-                    bkc = np.broadcast_to(mosek.boundkey.lo, nof_dual_constraints)
+                    bkc = np.repeat(mosek.boundkey.lo, nof_dual_constraints)
+                    # Explicit lower bounds replace the default one
+                    bkc[np.asarray(lower_bounds.col)] = mosek.boundkey.fx
                 else:
                     bkc = np.broadcast_to(mosek.boundkey.fx, nof_dual_constraints)
 
-- 
2.43.0


From 518d2be33abd1bbf1340582b5674107ae1daf331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 25/56] fix: return the full matrix variable when solving the
 dual of an SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..debdba2 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From d1f1932fca60fc2e9c356ae5cde31d699666a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 26/56] fix: correct the sign of the multipliers of the matrix
 when solving the primal of an SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index debdba2..5da2b8e 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -459,7 +459,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From 6831593896787b141d103325aad18cc33b2502ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 27/56] fix: eliminate proportional variables of an SDP also
 when they depend on known ones or form chains

---
 inflation/sdp/sdp_utils.py | 39 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 5da2b8e..08db59e 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -207,38 +207,33 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         Fi[lam] = -1 * eye(mat_dim).tolil()
         var_objective = {lam: 1}
 
-    # Calculate F0, the constant part of the matrix variable.
-    F0 = coo_array((mat_dim, mat_dim), dtype=float)
-    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
-
     if process_constraints:
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
         for x, (c, x2) in semiknown_vars.items():
-            if mask_matrices:
-                val = Fi.pop(x, 0)
-                Fi[x2] = Fi.get(x2, 0) + c * val
-
-            if var_objective and not feas_as_optim:
-                val = var_objective.pop(x, 0)
-                var_objective[x2] = var_objective.get(x2, 0) + c * val
+            # Follow chains of proportionality constraints until their end
+            while x2 in semiknown_vars:
+                c, x2 = c * semiknown_vars[x2][0], semiknown_vars[x2][1]
 
-            for equality in var_equalities:
-                val = equality.pop(x, 0)
-                equality[x2] = equality.get(x2, 0) + c * val
+            for expression in (Fi, var_objective,
+                               *var_equalities, *var_inequalities):
+                if x in expression:
+                    val = expression.pop(x)
+                    expression[x2] = expression.get(x2, 0) + c * val
 
-            for inequality in var_inequalities:
-                val = inequality.pop(x, 0)
-                inequality[x2] = inequality.get(x2, 0) + c * val
-
-            variables.remove(x)
-            variables.add(x2)
+            variables.discard(x)
+            if x2 not in known_vars:
+                variables.add(x2)
 
     else:
         # Just add semiknown constraints as equality constraints.
         for x, (c, x2) in semiknown_vars.items():
             var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+            variables.update({x, x2}.difference(known_vars))
+
+    # Calculate F0, the constant part of the matrix variable.
+    F0 = coo_array((mat_dim, mat_dim), dtype=float)
+    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
 
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
@@ -513,7 +508,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From 637084c22aa05b7a8a10835cb7ffac4bc69fc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 28/56] fix: leave the objective out of the certificates of
 infeasibility of an SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 08db59e..bb3e736 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -500,7 +500,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             certificate = {x: 0 for x in known_vars}
 
             # c0(P(a...|x...))
-            if not feas_as_optim:
+            if not feas_as_optim and status_str == "feasible":
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
-- 
2.43.0


From a28a32815cad72a097ccb889cdca6466ff67fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 29/56] fix: keep the objective of problems without matrix
 variable when optimising feasibility

---
 inflation/sdp/sdp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bb3e736..511c923 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -195,7 +195,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         variables.update(ineq.keys())
     variables.difference_update(known_vars.keys())
 
-    if feas_as_optim and mask_matrices:
+    feas_as_optim = feas_as_optim and bool(mask_matrices)
+    if feas_as_optim:
         if verbose > 0:
             print("Feasibility as optimisation detected: overwriting objective"
                   + " to maximize the smallest eigenvalue of the matrix"
-- 
2.43.0


From f92467e3dbe72f5c0cc0e01161b54b9c7e5a39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 30/56] fix: solve the dual of SDPs with variables that appear
 in no constraint

---
 inflation/sdp/sdp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 511c923..4fef0e5 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -343,11 +343,11 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 domain = Domain.equalsTo(0)
             for i, x in enumerate(variables):
-                lhs = 0.0
+                lhs = Expr.constTerm(0.0)
                 if var_objective and x in set(var_objective
                                               ).difference(known_vars):
                     ci  = float(var_objective[x])
-                    lhs += ci
+                    lhs = Expr.constTerm(ci)
                 try:
                     F = Fi[x]
                     lhs = Expr.add(lhs,
-- 
2.43.0


From b2abb04010fc44e2e575f6f00e1203f6b40b78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 31/56] fix: keep the whole constant in the certificates of
 SDPs with bounds

---
 inflation/sdp/InflationSDP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 3078645..624152b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -914,8 +914,13 @@ class InflationSDP:
             return dict()
         if clean:
             dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+        certificate = {}
+        for name, coeff in dual.items():
+            mon = self.monomial_from_name[name]
+            if not mon.is_zero:
+                # The unit and the constant term are the same monomial
+                certificate[mon] = certificate.get(mon, 0) + coeff
+        return certificate
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From 68e5c8c303c7d2d7cc56c656ddf6b9d6fe556a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 32/56] fix: return only certificates of infeasible points when
 bisecting

---
 inflation/optimization_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..04500ca 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -167,10 +167,12 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
         if verbose:
             print(f"Parameter = {value:<6.4g}   " +
                   f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
-        discovered_certificate = program.certificate_as_dict()
-        if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
-            discovered_certificates.append((value, discovered_certificate))
-        return program.objective_value+precision/2048
+        feasibility = program.objective_value+precision/2048
+        if feasibility < 0:  # Only infeasible points have a separating surface
+            discovered_certificate = program.certificate_as_dict()
+            if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
+                discovered_certificates.append((value, discovered_certificate))
+        return feasibility
     assert f(bounds[1])+precision/2048 < 0, f"Certificate of infeasibility for v=1 is {f(bounds[1])}, but must be <{precision/2048}."
     assert f(bounds[0])+precision/2048 > 0, f"Certificate of feasibility for v=0 is {f(bounds[0])}, but must be nonnegative."
     crit_param = bisect(f, bounds[0], bounds[1], **bisect_kwargs, full_output=False)
-- 
2.43.0


From 665c323d87829ba02d921374a4097becaf4c2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 33/56] fix: evaluate derived values in the certificates used
 to maximise a parameter

---
 inflation/optimization_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 04500ca..2a711f1 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -234,6 +234,17 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solverparameters = kwargs.get("solverparameters", None)
 
     symbol_names = {str(key): val for key, val in symbolic_values.items()}
+
+    def symbolic_value(name: str) -> Union[Real, sp.core.expr.Expr]:
+        """The value of a monomial in a certificate, which may be the unit or a
+        product of the monomials whose values are specified."""
+        if name in symbol_names:
+            return symbol_names[name]
+        value = 1
+        for factor in program.monomial_from_name[name].factors:
+            value *= symbol_names[str(factor)]
+        return value
+
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
@@ -254,7 +265,7 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                       solverparameters=solverparameters)
 
         # The feasible region is where the certificate is positive
-        nonneg_expr = sum(symbol_names[var] * coeff
+        nonneg_expr = sum(symbolic_value(var) * coeff
                           for var, coeff in
                           program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
-- 
2.43.0


From 1d5f7447dabc2ef2367b59d2331e7048152feab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 34/56] fix: export to SDPA the constraints on known moments,
 negative values and several inequalities

---
 inflation/sdp/writer_utils.py | 161 +++++++++++++++-------------------
 1 file changed, 73 insertions(+), 88 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..5404aaa 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -266,22 +266,6 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
@@ -296,12 +280,13 @@ def write_to_sdpa(problem, filename):
             if jj >= ii:
                 if var == 0:
                     pass
-                elif var == 1:
+                elif var == 1 and not problem.supports_problem:
                     lines.append(f"0\t{block}\t{ii+1}\t{jj+1}\t-1.0\n")
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
-                    lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                    if coeff != 0:
+                        lines.append(
+                            f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
@@ -323,91 +308,91 @@ def write_to_sdpa(problem, filename):
                             f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
                         new_var += 1
 
+    nvars = len(var_corresp)
+
+    def to_variables(expression):
+        """Write an expression in terms of the variables in the file. The key 0
+        denotes the constant term."""
+        coeffs = {0: 0}
+        for mon, coeff in expression.items():
+            if mon in problem.semiknown_moments:
+                factor, mon = problem.semiknown_moments[mon]
+                coeff = coeff * factor
+            if mon.is_zero:
+                continue
+            elif mon in problem.known_moments:
+                coeffs[0] += coeff * problem.known_moments[mon]
+            elif mon == problem.One and not problem.supports_problem:
+                coeffs[0] += coeff
+            else:
+                var = var_corresp[mon.idx]
+                coeffs[var] = coeffs.get(var, 0) + coeff
+        return coeffs
+
+    def write_row(coeffs, ii):
+        """Write the constraint sum(coeffs) >= 0 in a position of the block."""
+        for var, coeff in coeffs.items():
+            if coeff != 0:
+                coeff = coeff if var > 0 else -coeff
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+
     # Prepare objective
+    objective_coeffs   = to_variables(problem.objective)
+    objective_constant = objective_coeffs.pop(0)
+    if abs(objective_constant) > 1e-8:
+        warn(f"Export removed the constant {objective_constant} from the "
+             + "objective")
     objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
-        if variable == problem.One:
-            if abs(coeff) > 1e-8:
-                warn(f"Export removed the constant {coeff} from the objective")
-        else:
-            objective[var_corresp[variable.idx] - 1] = coeff
+    for variable, coeff in objective_coeffs.items():
+        objective[variable - 1] = coeff
     objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
-
-    # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
 
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+    # Prepare bounds. Those on known moments are already satisfied, and the
+    # non-negativity of semiknown moments typically is that of other moments
+    def bounds_to_rows(bounds, sign):
+        rows = []
+        for mon, bound in bounds.items():
+            if mon == problem.One and not problem.supports_problem:
+                continue
+            if mon in problem.known_moments:
+                continue
+            if mon in problem.semiknown_moments:
+                factor, unknown = problem.semiknown_moments[mon]
+                other = bounds.get(unknown, None)
+                if (factor > 0 and other is not None
+                        and sign * (factor * other - bound) >= 0):
+                    continue
+            row = {var: sign * coeff
+                   for var, coeff in to_variables({mon: 1.0}).items()}
+            row[0] -= sign * bound
+            rows.append(row)
+        return rows
+    for bounds, sign in [(problem.moment_upperbounds, -1),
+                         (problem.moment_lowerbounds, 1)]:
+        rows = bounds_to_rows(bounds, sign)
+        if len(rows) > 0:
+            block += 1
+            blockstruct.append(str(-len(rows)))
+            for ii, row in enumerate(rows):
+                write_row(row, ii + 1)
 
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
         block += 1
-        ii     = 1
         block_size = 2*len(problem.moment_equalities)
         blockstruct.append(str(-block_size))
-    for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
-        ii += 2
+    for ii, equality in enumerate(problem.moment_equalities):
+        coeffs = to_variables(equality)
+        write_row(coeffs, 2*ii + 1)
+        write_row({var: -coeff for var, coeff in coeffs.items()}, 2*ii + 2)
 
     # Prepare inequalities
     if len(problem.moment_inequalities) > 0:
         block += 1
-        ii = 1
         block_size = len(problem.moment_inequalities)
         blockstruct.append(str(-block_size))
-    for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+    for ii, inequality in enumerate(problem.moment_inequalities):
+        write_row(to_variables(inequality), ii + 1)
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 9c587aa8b72238e8d6e5e9faa3c4e74e1d536c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 35/56] fix: write commas in the names of moments and numpy
 numbers properly in CSV files

---
 inflation/sdp/writer_utils.py | 40 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 5404aaa..49dc7bf 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -29,32 +29,16 @@ def convert_to_human_readable(problem):
     """
     matrix = deepcopy(problem.momentmatrix).astype(object)
     ### Process moment matrix
-    # Replacer for constants
-    constants = {moment.idx: str(value)
-                 for moment, value in problem.known_moments.items()}
-    # Replacer for semiknowns
-    semiknowns = dict()
-    for key, val in problem.semiknown_moments.items():
-        val_str = val[1].name.replace(", ", ";")
-        semiknowns[key.idx] = f"{val[0]}*{val_str}"
-    semiknown_replacer = np.vectorize(lambda x: semiknowns.get(x, str(x)))
-    # Replacer for remaining symbols
-    monomials = dict()
-    for mon in problem.moments:
-        monomials[mon.idx] = mon.name.replace(", ", ";")
-
-    def replace_known(monom):
-        try:
-            replacement = monomials.get(float(monom), monom)
-        except ValueError:
-            replacement = monom
-        return replacement
-    known_replacer = np.vectorize(replace_known)
+    # Names of the moments, constants, and semiknowns
+    replacements = {mon.idx: mon.name for mon in problem.moments}
+    replacements.update({mon.idx: str(value)
+                         for mon, value in problem.known_moments.items()})
+    replacements.update({mon.idx: f"{val[0]}*{val[1].name}"
+                         for mon, val in problem.semiknown_moments.items()})
     for ii, row in enumerate(matrix):
         for jj, col in enumerate(row):
-            matrix[ii, jj] = constants.get(col, col)
-    matrix = semiknown_replacer(matrix)
-    matrix = np.triu(known_replacer(matrix).astype(object))
+            matrix[ii, jj] = replacements.get(col, str(col))
+    matrix = np.triu(matrix)
 
     ### Process objective
     is_first = True
@@ -134,13 +118,15 @@ def write_to_csv(problem, filename):
     f = open(filename, "w")
     f.write("Objective: " + objective + "\n")
     for matrix_line in matrix:
-        f.write(
-            str(list(matrix_line))[1:-1].replace(" ", "").replace("\'", ""))
+        # Commas separate the columns
+        f.write(",".join(str(entry).replace(" ", "").replace(",", ";")
+                         for entry in matrix_line))
         f.write("\n")
     f.write("Bounds:\n")
     f.write("Variable,lower,upper\n")
     for bound_line in bounds:
-        f.write(str(bound_line)[1:-1].replace(" ", ""))
+        f.write(",".join(str(entry).replace(" ", "").replace(",", ";")
+                         for entry in bound_line))
         f.write("\n")
     f.write("\nEqualities (format: line = 0):\n")
     for equality in equalities:
-- 
2.43.0


From dc10810f51069a6134c2223dc3e7dddb8a280892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 36/56] fix: do not take dots in the name of folders as file
 extensions

---
 inflation/lp/InflationLP.py   | 8 ++++----
 inflation/sdp/InflationSDP.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index c1872ca..a48e2ad 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -5,6 +5,8 @@ or non-fanout inflation instance (see arXiv:1707.06476).
 @authors: Emanuel-Cristian Boghiu, Elie Wolfe, Alejandro Pozas-Kerstjens
 """
 
+import os
+
 from collections import Counter, defaultdict
 from functools import reduce, cached_property
 from gc import collect
@@ -927,10 +929,8 @@ class InflationLP(object):
             ``.mps`` (MPS).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = os.path.splitext(filename)[1][1:]
+        if not extension:
             extension = "lp"
             filename += ".lp"
 
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 624152b..c3594d0 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -4,6 +4,8 @@ instance (see arXiv:1909.10519).
 
 @authors: Emanuel-Cristian Boghiu, Elie Wolfe, Alejandro Pozas-Kerstjens
 """
+import os
+
 from collections import Counter, deque, defaultdict
 from functools import reduce, cached_property
 from gc import collect
@@ -1342,10 +1344,8 @@ class InflationSDP:
         self._update_bounds("lo")
         self._update_bounds("up")
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = os.path.splitext(filename)[1][1:]
+        if not extension:
             extension = "dat-s"
             filename += ".dat-s"
 
-- 
2.43.0


From ccb1020da71d154d8d9cfba8a4a9084d57fc952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 37/56] fix: write the bounds of LP files in separate lines, as
 MOSEK reads them

---
 inflation/lp/writer_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..2ec7e4b 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,10 +51,10 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
+        f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
-    f.write("end")
+        f.write(f"{x} <= {upper_bounds[x]}\n")
+    f.write("end\n")
     f.close()
 
 
-- 
2.43.0


From 5622ad8feaeca76ba86e2ae802ef134779287e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 38/56] fix: do not round the numbers in MPS files

---
 inflation/lp/writer_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 2ec7e4b..d1f8016 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -105,16 +105,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in variables:
         if x in set(objective).difference(known_vars):
             arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
                 arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
                        ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -123,7 +123,7 @@ def write_to_mps(args: dict, filename: str) -> None:
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
         arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -132,7 +132,7 @@ def write_to_mps(args: dict, filename: str) -> None:
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
             arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
@@ -140,10 +140,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
     for x in upper_bounds:
         arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From f830888b8d07f456ebcc7485d70646c8af8defae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 39/56] fix: export that the known values do not satisfy the
 constraints of an LP

---
 inflation/lp/writer_utils.py | 55 +++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index d1f8016..4d4fd36 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -37,17 +37,22 @@ def write_to_lp(args: dict, filename: str) -> None:
     f.write(f"obj: {format_constraint_lp(known_vars, objective, 'obj')}\n")
     f.write("subject to\n")
 
+    # The constraints that known values do not satisfy are written in terms of
+    # an arbitrary variable
+    dummy = next((x for x in variables if x not in known_vars), "x")
     i = 0
-    for eq in internal_equalities:
-        cons = format_constraint_lp(known_vars, eq, 'eq')
-        if cons != "":
-            f.write(f"c{i}: {cons}\n")
-            i += 1
-    for ineq in inequalities:
-        cons = format_constraint_lp(known_vars, ineq, 'ineq')
-        if cons != "":
-            f.write(f"c{i}: {cons}\n")
-            i += 1
+    for cons_type, constraints in [('eq', internal_equalities),
+                                   ('ineq', inequalities)]:
+        for constraint in constraints:
+            cons = format_constraint_lp(known_vars, constraint, cons_type)
+            if cons == "" and not is_satisfied(known_vars, constraint,
+                                               cons_type):
+                cons = format_constraint_lp(known_vars,
+                                            {dummy: 0, **constraint},
+                                            cons_type)
+            if cons != "":
+                f.write(f"c{i}: {cons}\n")
+                i += 1
 
     f.write("bounds\n")
     for x in lower_bounds:
@@ -78,11 +83,14 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, unless those
+    # values do not satisfy them
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if set(eq).difference(known_vars)
+                           or not is_satisfied(known_vars, eq, 'eq')]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if set(ineq).difference(known_vars)
+                    or not is_satisfied(known_vars, ineq, 'ineq')]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
@@ -210,6 +218,27 @@ def process_arguments(args: dict) -> dict:
         "upper_bounds": new_upper_bounds}
 
 
+def is_satisfied(known_vars: dict, constraint: dict, cons_type: str) -> bool:
+    """Whether the known values satisfy a constraint that only involves them.
+
+    Parameters
+    ----------
+    known_vars : dict
+        Known values of variables.
+    constraint : dict
+        The constraint to be evaluated.
+    cons_type : str
+        Whether the constraint is an equality ('eq'), or inequality ('ineq).
+
+    Returns
+    -------
+    bool
+        Whether the constraint is satisfied.
+    """
+    value = sum(coeff * known_vars[x] for x, coeff in constraint.items())
+    return value > -1e-9 and (cons_type == 'ineq' or value < 1e-9)
+
+
 def format_constraint_lp(known_vars: dict,
                          constraint: dict,
                          cons_type: str) -> str:
-- 
2.43.0


From a01da39cdd26523c172d4d15bb65e1e567a8a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 40/56] fix: export the objectives of LPs that are constant

---
 inflation/lp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 4d4fd36..092d1e0 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -269,7 +269,7 @@ def format_constraint_lp(known_vars: dict,
     cons = ""
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
-    if cons == "":
+    if cons == "" and not (cons_type == 'obj' and c != 0):
         return cons
 
     if cons_type == 'obj':
-- 
2.43.0


From da4c54c58460c02063f0306cd1a7d91f43e6fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 41/56] fix: add the constant term to the known values of
 unnormalised LPs

---
 inflation/lp/InflationLP.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a48e2ad..4ad65e2 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1990,12 +1990,15 @@ class InflationLP(object):
 
         # Rectification in the event of unnormalized problem
         variables = self.monomial_names.tolist()
-        if {1, self.constant_term_name}.isdisjoint(self.known_vars_by_name):
-            self.known_vars_by_name[self.constant_term_name] = 1.
-            if self.constant_term_name not in variables:
-                variables.append(self.constant_term_name)
+        known_vars = self.known_vars_by_name
+        constant_name = self.One.name
+        if {constant_name, self.constant_term_name}.isdisjoint(known_vars):
+            constant_name = self.constant_term_name
+            known_vars[constant_name] = 1.
+            if constant_name not in variables:
+                variables.append(constant_name)
         solverargs = {"objective": self.objective_by_name,
-                      "known_vars": self.known_vars_by_name,
+                      "known_vars": known_vars,
                       "semiknown_vars": self.semiknown_by_name,
                       "equalities": self.moment_equalities_by_name,
                       "inequalities": self.moment_inequalities_by_name,
@@ -2004,10 +2007,10 @@ class InflationLP(object):
             solverargs["lower_bounds"] = self.lowerbounds_by_name
             solverargs["upper_bounds"] = self.upperbounds_by_name
         else:
-            solverargs["inequalities"].extend({mon.name: 1, '1': -bnd}
+            solverargs["inequalities"].extend({mon.name: 1, constant_name: -bnd}
                                               for mon, bnd in
                                               self.moment_lowerbounds.items())
-            solverargs["inequalities"].extend({mon.name: -1, '1': bnd}
+            solverargs["inequalities"].extend({mon.name: -1, constant_name: bnd}
                                               for mon, bnd in
                                               self.moment_upperbounds.items())
         return solverargs
-- 
2.43.0


From 41213ae483f3df907b497e27fecbfb6070d37738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 42/56] fix: export the variables of LPs without default bounds
 as such

---
 inflation/lp/InflationLP.py  |  1 +
 inflation/lp/writer_utils.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 4ad65e2..cda5326 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -936,6 +936,7 @@ class InflationLP(object):
 
         # Write file according to the extension
         args = self._prepare_solver_arguments(separate_bounds=True)
+        args["default_non_negative"] = self.default_non_negative
         if self.verbose > 0:
             print("Writing the LP program to", filename)
         if extension == "lp":
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 092d1e0..3e7c251 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -148,7 +148,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
+        if lower_bounds[x] == float("-inf"):
+            f.write(" MI {:10}{:10}\n".format(*arr[:2]))
+        else:
+            f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
     for x in upper_bounds:
         arr = ['bound', x, upper_bounds[x]]
         f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
@@ -199,6 +202,11 @@ def process_arguments(args: dict) -> dict:
     old_objective = args.get("objective", {})
     old_lower_bounds = args.get("lower_bounds", {})
     old_upper_bounds = args.get("upper_bounds", {})
+    # In files, variables are non-negative unless otherwise specified
+    if not args.get("default_non_negative", True):
+        old_lower_bounds = {**{x: float("-inf") for x in old_variables
+                               if x not in old_known_vars},
+                            **old_lower_bounds}
     var_idx =  {x: f"x{i}" for i, x in enumerate(old_variables)}
     new_variables = list(var_idx.values())
     new_equalities = [{var_idx[x]: c for x, c in eq.items()} for eq in  old_equalities]
-- 
2.43.0


From a131ecf5e7dee15ef2ae8cd2436becd74efb06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 43/56] fix: export properly the bounds on variables that are
 known or appear nowhere else

---
 inflation/lp/writer_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 3e7c251..5d89895 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -111,8 +111,9 @@ def write_to_mps(args: dict, filename: str) -> None:
     # Specify columns of the problem
     f.write(f"COLUMNS\n")
     for x in variables:
-        if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
+        if x in set(objective).difference(known_vars) \
+                or x in lower_bounds or x in upper_bounds:
+            arr = [x, 'obj', objective.get(x, 0)]
             f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
@@ -214,6 +215,12 @@ def process_arguments(args: dict) -> dict:
     new_known_vars = {var_idx[x]: c for x, c in old_known_vars.items()}
     new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()}
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
+    # Known variables are not written, so their bounds become inequalities
+    new_known_vars["constant"] = 1
+    for bounds, sign in [(new_lower_bounds, 1), (new_upper_bounds, -1)]:
+        for x in set(bounds).intersection(new_known_vars):
+            new_inequalities.append({x: sign,
+                                     "constant": -sign * bounds.pop(x)})
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
     return {
-- 
2.43.0


From 7c3105a5772bbe7fe3a0b74034ebf81e6759c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 44/56] fix: write the variables without bounds in LP files as
 free, and check the default bounds of known ones

---
 inflation/lp/writer_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 5d89895..03a38a3 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -56,7 +56,10 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{x} >= {lower_bounds[x]}\n")
+        if lower_bounds[x] == float("-inf"):
+            f.write(f"{x} free\n")
+        else:
+            f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
         f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end\n")
@@ -203,8 +206,11 @@ def process_arguments(args: dict) -> dict:
     old_objective = args.get("objective", {})
     old_lower_bounds = args.get("lower_bounds", {})
     old_upper_bounds = args.get("upper_bounds", {})
-    # In files, variables are non-negative unless otherwise specified
-    if not args.get("default_non_negative", True):
+    # In files, unknown variables are non-negative unless otherwise specified
+    if args.get("default_non_negative", True):
+        old_lower_bounds = {**{x: 0 for x in old_known_vars},
+                            **old_lower_bounds}
+    else:
         old_lower_bounds = {**{x: float("-inf") for x in old_variables
                                if x not in old_known_vars},
                             **old_lower_bounds}
-- 
2.43.0


From f8c33aa2e8335b9f7ec20b91a0a69bf9fe55806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:48 +0000
Subject: [PATCH 45/56] fix: do not take dots in the path of MPS files as file
 extensions

---
 inflation/lp/writer_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 03a38a3..d70b965 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -5,6 +5,8 @@ problem to file.
 @authors: Erica Han, Elie Wolfe
 """
 
+import os
+
 import mosek
 from copy import deepcopy
 
@@ -174,7 +176,7 @@ def lp_to_mps(args: dict, filename: str) -> None:
     filename : str
         The file to write to.
     """
-    lp_filename = f"{filename.split('.')[0]}.lp"
+    lp_filename = f"{os.path.splitext(filename)[0]}.lp"
     write_to_lp(args, lp_filename)
     with mosek.Task() as t:
         t.readdata(f"{lp_filename}")
-- 
2.43.0


From 9b0269d13a44183c129c022e2311c2b94c6540ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 46/56] fix: write certificates without terms as strings

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c3594d0..33606f1 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1013,8 +1013,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From d062cc1c9e3469308f9921f8666b9984077ddf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 47/56] fix: clean certificates all whose coefficients are
 below the tolerance

---
 inflation/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inflation/utils.py b/inflation/utils.py
index 3bf12aa..1fc9cb1 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -80,6 +80,8 @@ def clean_coefficients(cert: Dict[str, float],
         return cert
     chop_tol = np.abs(chop_tol)
     coeffs = np.asarray(list(cert.values()))
+    if not np.any(np.abs(coeffs) > chop_tol):
+        return dict.fromkeys(cert, 0.)
     if chop_tol > 0:
         # Try to take the smallest nonzero one and make it 1, when possible
         normalising_factor = np.min(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-- 
2.43.0


From b18ba7d7d83b65b50dca7174a1946a91142a9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 48/56] fix: build columns from lists with a single array

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 33606f1..ccc014f 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1157,11 +1157,11 @@ class InflationSDP:
                 # This is the standard specification for the helper
                 columns = self._build_cols_from_specs(column_specification)
             elif type(column_specification[0]) in {np.ndarray}:
-                if len(np.array(column_specification[1]).shape) == 2:
+                if len(np.array(column_specification[:2][-1]).shape) == 2:
                     # This is the 2d encoding, convert it to lexicographic repr
                     columns = [self.mon_to_lexrepr(mon)
                                for mon in column_specification]
-                elif len(np.array(column_specification[1]).shape) == 1:
+                elif len(np.array(column_specification[:2][-1]).shape) == 1:
                     # This is the 1d encoding, make sure the dtype is correct
                     # for compatibility with numba
                     columns = [np.array(mon, dtype=np.intc)
-- 
2.43.0


From cff80f1dfb0ff32871b746d5a77d9e6d0622814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 49/56] fix: reject arrays whose entries do not fit the
 operators instead of wrapping them

---
 inflation/InflationProblem.py | 2 ++
 inflation/lp/InflationLP.py   | 4 ++--
 inflation/sdp/InflationSDP.py | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index 48d2931..03f8de6 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -489,6 +489,8 @@ class InflationProblem:
         return {op.tobytes(): i for i, op in enumerate(self._lexorder)}
     
     def mon_to_lexrepr(self, mon: np.ndarray) -> np.ndarray:
+        if not np.array_equal(mon, np.asarray(mon).astype(self._np_dtype)):
+            raise Exception(f"Failed to interpret\n{mon}\n relative to specified lexorder \n{self._lexorder}.")
         ops_as_hashes = list(map(self._from_2dndarray, mon))
         try:
             return np.array(partsextractor(self._lexorder_lookup, ops_as_hashes), dtype=np.intc)
diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cda5326..8482b7f 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1092,13 +1092,13 @@ class InflationLP(object):
                         pass
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, (tuple, list, np.ndarray)):
-            array = np.asarray(mon, dtype=self.np_dtype)
+            array = np.asarray(mon)
             assert array.ndim <= 2, \
                 "The monomial representations must be 1d or 2d arrays."
             if array.ndim == 2:
                 return self._sanitise_monomial(self.mon_to_lexrepr(array))
             elif array.ndim == 1:
-                return self.Monomial(array)
+                return self.Monomial(array.astype(np.intc))
             else:
                 assert array.ndim == 2, \
                     "The monomial representations must be 2d arrays."
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ccc014f..aa51ba5 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1598,7 +1598,7 @@ class InflationSDP:
         elif isinstance(moment, InternalAtomicMonomialSDP):
             return self._monomial_from_atoms([moment])
         elif isinstance(moment, (tuple, list, np.ndarray)):
-            array = np.asarray(moment, dtype=self.np_dtype)
+            array = np.asarray(moment)
             assert array.ndim == 2, \
                 "The monomial representations must be 2d arrays."
             assert array.shape[-1] == self._nr_properties, \
@@ -2427,5 +2427,8 @@ class InflationSDP:
             Monomial in the 1D lexicographic form.
         """
         template = np.empty(len(mon), dtype=object)
-        template[:] = np.asarray(mon, self.np_dtype).ravel().view(self._astuples_dtype)
+        array = np.asarray(mon).astype(self.np_dtype)
+        assert np.array_equal(array, mon), \
+            "The input does not conform to the operator specification."
+        template[:] = array.ravel().view(self._astuples_dtype)
         return np.array(partsextractor(self.op_to_lexrepr_dict, template), dtype=np.intc)
-- 
2.43.0


From d1ccf22f2bb3de7262fb6097710542e31cdd1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:21 +0000
Subject: [PATCH 50/56] fix: separate the names of parties in moments' names
 where they could be confused

---
 inflation/lp/monomial_classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/monomial_classes.py b/inflation/lp/monomial_classes.py
index c8b9fc3..951f803 100644
--- a/inflation/lp/monomial_classes.py
+++ b/inflation/lp/monomial_classes.py
@@ -182,7 +182,10 @@ class InternalAtomicMonomial(object):
             parties       = np.take(self.context.names, party_indices.tolist())
             inputs  = [str(input) for input in self.rectified_ndarray[:, -2]]
             outputs = [str(output) for output in self.rectified_ndarray[:, -1]]
-            p_divider = ""
+            # Names that begin like others cannot be told apart if joined
+            p_divider = "," if any(name.startswith(other) and name != other
+                                   for name in self.context.names
+                                   for other in self.context.names) else ""
             # We will probably never have more than 1 digit cardinalities,
             # but who knows...
             i_divider = "" if all(len(i) == 1 for i in inputs) else ","
-- 
2.43.0


From 05d1a75d7cc61109b1acb71e67d4b38bd6bca445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:28 +0000
Subject: [PATCH 51/56] fix: list the commutation relations and the
 lexicographic order of the operators

---
 inflation/sdp/fast_npa.py      | 3 +--
 inflation/sdp/quantum_tools.py | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/fast_npa.py b/inflation/sdp/fast_npa.py
index a0a8ae0..7242799 100644
--- a/inflation/sdp/fast_npa.py
+++ b/inflation/sdp/fast_npa.py
@@ -394,7 +394,6 @@ def reverse_mon(mon: np.ndarray) -> np.ndarray:
     return np.flipud(mon)
 
 
-@jit(nopython=nopython, cache=cache, forceobj=not nopython)
 def to_name(monomial: np.ndarray,
             names: List[str]) -> str:
     """Convert the 2d array representation of a monomial to a string.
@@ -420,7 +419,7 @@ def to_name(monomial: np.ndarray,
     if len(monomial) == 0:
         return "1"
 
-    monomial = monomial.tolist()
+    monomial = np.asarray(monomial).tolist()
     return "*".join(["_".join([names[letter[0] - 1]]
                               + [str(i) for i in letter[1:]])
                      for letter in monomial])
diff --git a/inflation/sdp/quantum_tools.py b/inflation/sdp/quantum_tools.py
index a5668e6..0fb8c4d 100644
--- a/inflation/sdp/quantum_tools.py
+++ b/inflation/sdp/quantum_tools.py
@@ -440,6 +440,8 @@ def lexicographic_order(infSDP) -> Dict[str, int]:
     """
     lexorder = {}
     for i, op in enumerate(infSDP._lexorder):
+        if i == 0:  # The zero operator
+            continue
         lexorder[sympy.Symbol(to_name([op], infSDP.names),
                               commutative=False)] = i
     return lexorder
-- 
2.43.0


From 53370091b82d1dbc31a9f6a20c2f46cb44f7cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:59 +0000
Subject: [PATCH 52/56] fix: bisect past values for which not even the relaxed
 problem is feasible

---
 inflation/optimization_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 2a711f1..c549381 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -164,10 +164,14 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
         program.solve(feas_as_optim=True,
                   solve_dual=solve_dual,
                   solverparameters=solverparameters)
+        if not program.success and "infeas" in program.status:
+            # Not even the relaxed problem can be satisfied
+            feasibility = -np.inf
+        else:
+            feasibility = program.objective_value+precision/2048
         if verbose:
             print(f"Parameter = {value:<6.4g}   " +
-                  f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
-        feasibility = program.objective_value+precision/2048
+                  f"Maximum smallest eigenvalue: {feasibility-precision/2048:10.4g}")
         if feasibility < 0:  # Only infeasible points have a separating surface
             discovered_certificate = program.certificate_as_dict()
             if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
-- 
2.43.0


From d677ecb9bd4963c42ac34e84ef879c0a6d555564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:59 +0000
Subject: [PATCH 53/56] fix: evaluate certificates that contain the zero moment
 in the dual method

---
 inflation/optimization_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index c549381..5432bf6 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -237,7 +237,8 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    symbol_names = {"0": 0,
+                    **{str(key): val for key, val in symbolic_values.items()}}
 
     def symbolic_value(name: str) -> Union[Real, sp.core.expr.Expr]:
         """The value of a monomial in a certificate, which may be the unit or a
-- 
2.43.0


From e1598d932e6b19573b5c46b8cd3821e8c49f89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 54/56] fix: tell the maximal cliques below a cutoff of the
 size

With a cutoff the extensions of the largest cliques listed are never
queued, and whether some of them were reported as maximal depended on the
order of the vertices.
---
 inflation/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index 1fc9cb1..2398071 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -193,7 +193,8 @@ def all_and_maximal_cliques(adjmat: np.ndarray,
     adjmat : numpy.ndarray
       A boolean numpy array representing the adjacency matrix of an undirected graph.
     max_n : int, optional
-      A cutoff for clique size reporting. Default 0, meaning no cutoff.
+      A cutoff for clique size reporting. Default 0, meaning no cutoff. The maximal cliques reported are those maximal
+      in the whole graph whose size is within the cutoff.
     isolate_maximal : bool, optional
       A flag to disable filtering for maximality, which can increase performance. True by default.
 
@@ -216,8 +217,9 @@ def all_and_maximal_cliques(adjmat: np.ndarray,
         base, cnbrs = queue.popleft()
         all_cliques.append(base)
         if isolate_maximal and not len(cnbrs):
-            base_as_set = set(base)
-            if not any(base_as_set.issubset(superbase) for (superbase, _) in queue):
+            # The queue need not contain the extensions beyond the cutoff
+            if not any(all(adjmat[u, v] for v in base)
+                       for u in verts if u not in base):
                 maximal_cliques.append(base)
         elif there_is_a_cutoff or len(base) < max_n:
             for i, u in enumerate(cnbrs):
-- 
2.43.0


From 63f2b9b9aa0e465df5d4536ba75de0dec31619cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:54 +0000
Subject: [PATCH 55/56] fix: keep the objective when the LP is solved with
 feas_as_optim

The alias was expanded after the check that gives priority to a
non-trivial objective, so the objective was silently ignored.
---
 inflation/lp/InflationLP.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 8482b7f..7a8e4de 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -587,6 +587,15 @@ class InflationLP(object):
             given by ``_prepare_solver_arguments()``. However, a user may
             manually override these arguments by passing their own here.
         """
+        # Still allow for 'feas_as_optim' as an argument
+        if 'feas_as_optim' in solver_arguments:
+            if solver_arguments["feas_as_optim"]:
+                relax_known_vars = False
+                relax_inequalities = True
+                del solver_arguments["feas_as_optim"]
+            else:
+                relax_known_vars = relax_inequalities = False
+                del solver_arguments["feas_as_optim"]
         if (relax_known_vars or relax_inequalities) and \
                 len(self.objective) > 0:
             warn("You have a non-trivial objective, but set to solve a "
@@ -604,16 +613,6 @@ class InflationLP(object):
             real_default_non_negative = default_non_negative
 
         args = self._prepare_solver_matrices()
-        
-        # Still allow for 'feas_as_optim' as an argument
-        if 'feas_as_optim' in solver_arguments:
-            if solver_arguments["feas_as_optim"]:
-                relax_known_vars = False
-                relax_inequalities = True
-                del solver_arguments["feas_as_optim"]
-            else:
-                relax_known_vars = relax_inequalities = False
-                del solver_arguments["feas_as_optim"]
         args.update(solver_arguments)
 
         args.update({"relax_known_vars": relax_known_vars,
-- 
2.43.0


From 9ce0e25454eaf501d6be31a928bf3805b1221c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:48 +0000
Subject: [PATCH 56/56] fix: clear the direction of the optimisation together
 with the objective

set_objective(None, "min") left the sign of the values found by later
feasibility problems, solved as optimisation, inverted.
---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 7a8e4de..21ebb3e 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -353,7 +353,7 @@ class InflationLP(object):
                                              + " be either 'max' or 'min'")
 
         self._reset_objective()
-        if direction == "max":
+        if direction == "max" or objective is None:
             self.maximize = True
         else:
             self.maximize = False
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index aa51ba5..8892350 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -636,7 +636,7 @@ class InflationSDP:
                                              + " be either 'max' or 'min'")
 
         self._reset_objective()
-        if direction == "max":
+        if direction == "max" or objective is None:
             self.maximize = True
         else:
             self.maximize = False
-- 
2.43.0

