From 1d72d9f126b9a269cf794d65d8558c3db1b5fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 01/16] fix: divide the entropic Hessian by the molecule sizes

d2/dphi2 of phi*ln(phi)/l is 1/(l*phi); the code returned l/phi, so hessian,
num_unstable_modes and is_stable were wrong whenever sizes differ from one.
---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From 061bdad7b7636d0a994d5dd4f4fa03bb5aae1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 02/16] fix: use the absolute field error in the convergence
 diagnostics

max_abs_omega_diff is documented as the max absolute conjugate field error, but
negative errors were ignored, so fields could be reported as converged while they
still differ by more than the tolerance.
---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From 6ccd25dcfbe215f37f2b1f28e30aebbbdab98af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 03/16] fix: compile the canonical ensemble from a contiguous
 float array

A scalar or length-one phi_means is broadcast with zero strides, so the compiled
ensemble read memory beyond the array; integer phi_means could not be compiled.
---
 flory/ensemble/canonical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..c04a431 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,4 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(np.array(self._phi_means, dtype=np.float64))
-- 
2.43.0


From 230ad80cbfcaa5834cbdf95c4058a918aabfffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 04/16] fix: compile the grand canonical ensemble from its own
 float array

Integer activities could not be compiled, and changing scaled_activity in place
affected finders that had been created before.
---
 flory/ensemble/grandcanonical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..6b40b44 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,6 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(
+            np.array(self._scaled_activity, dtype=np.float64)
+        )
-- 
2.43.0


From 34bec50ce60a28b7b3f2ba8c667f263d12ce7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 05/16] fix: allow asymmetric chis and the chis_feat setter in
 block interactions

The constructor used the logger before creating it, and the setter used an
attribute that does not exist.
---
 flory/interaction/flory_huggins_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..50da130 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -53,6 +53,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 value is the same for all features.
         """
         self.num_feat = num_feat
+        self._logger = logging.getLogger(self.__class__.__name__)
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
         self._num_comp_per_feat = num_comp_per_feat
@@ -92,7 +93,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From 53d8804f2d4707bed75f1cf161715ffb0cabad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 06/16] fix: let compiled block interactions and constraints
 own their data

Changing chis_feat, Cs or Ts in place affected finders created before, which are
documented to own all the data they need. Fortran-ordered Cs could not be compiled.
---
 flory/constraint/linear_global.py        | 5 ++++-
 flory/constraint/linear_local.py         | 5 ++++-
 flory/interaction/flory_huggins_block.py | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..0223251 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..0400c2e 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 50da130..d062f09 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -125,5 +125,5 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            self._chis_feat.copy(), -self._chis_feat.min() + additional_chis_shift
         )
-- 
2.43.0


From 84291859f094906e8030a4580f2279238e94e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 07/16] fix: keep the interaction matrix floating point in
 set_uniform_chis

An integer chi made the matrix integer, so a later set_random_chis truncated all
its entries.
---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..30ad4ca 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, dtype=float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From 3d650c5de0c3428db02edd7269d0c23d4e45ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 08/16] fix: accept integer fields when reinitializing the
 finder

An integer array of fields or volume fractions was stored as is, so the next run
(or the reinitialization itself) failed inside numba.
---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..5f026cb 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float)
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From c1910bedd8bd48f9791e89924bc2be0963a6b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 09/16] fix: keep the finder unchanged when a new instance is
 rejected

set_interaction, set_entropy, set_ensemble and set_constraints stored the new
instance before checking its size. After the exception the finder kept the
incompatible instance and a later run accessed arrays out of bounds.
---
 flory/mcmp/finder.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 5f026cb..6a531fe 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,11 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
+        interaction_compiled = interaction.compiled(
             **{**self._kwargs_for_instances, **kwargs}
         )
-        self.check_instance(self._interaction)
+        self.check_instance(interaction_compiled)
+        self._interaction = interaction_compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +349,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        entropy_compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(entropy_compiled)
+        self._entropy = entropy_compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +372,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        ensemble_compiled = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(ensemble_compiled)
+        self._ensemble = ensemble_compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +403,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        constraints_compiled = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                constraints_compiled.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,16 +417,17 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    constraints_compiled.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            constraints_compiled.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in constraints_compiled:
             self.check_instance(cons)
+        self._constraints = constraints_compiled
 
         self.reinitialize_constraint()
 
-- 
2.43.0


From 0fc66ead9f3959457e03232d02c25efc20736151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 10/16] fix: handle too few living compartments in
 revive_compartments_by_copy

When no compartment larger than twice the threshold is left, the function drew an
index from an empty list and accessed memory out of bounds (usually a segmentation
fault). Split the largest compartment in this case, which conserves the volume and
the mean values as well.
---
 flory/mcmp/_finder_impl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..7c0fdaf 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -187,6 +187,15 @@ def revive_compartments_by_copy(
 
     for itr_dead in dead_indexes[:dead_count]:
         while True:
+            if living_nicely_count == 0:
+                # no compartment is large enough to be split nicely, use the largest
+                ref_index = np.argmax(Js)
+                targets[:, itr_dead] = targets[:, ref_index]
+                new_J = 0.5 * Js[ref_index]
+                Js[itr_dead] = new_J
+                Js[ref_index] = new_J
+                revive_count += 1
+                break
             pos_in_living = rng.integers(0, living_nicely_count)
             ref_index = living_nicely_indexes[pos_in_living]
             if Js[int(ref_index)] > 2.0 * threshold:
-- 
2.43.0


From edf9a504245afd8387d5079b5a045f73f0a599d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 11/16] fix: sort the phases returned by Phases.get_clusters

The documentation promises sorted phases and the phase diagram examples rely on it,
but the order was the arbitrary order of the cluster labels.
---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..8e5d38a 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,7 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(cluster_volumes, cluster_fractions).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0


From 112d147c734758669b0dd4b8b95b49656af101a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:07 +0000
Subject: [PATCH 12/16] fix: never copy a dead compartment in
 revive_compartments_by_copy

When the largest compartment is split because none exceeds twice the threshold, a dead
compartment that still has some volume below the threshold could be the largest one and
was copied although it does not belong to the mixture anymore.
---
 flory/mcmp/_finder_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 7c0fdaf..b1531fd 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -185,6 +185,10 @@ def revive_compartments_by_copy(
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
 
+    # the remaining volume of dead compartments is dropped, they never serve as a reference
+    for itr_dead in dead_indexes[:dead_count]:
+        Js[itr_dead] = 0.0
+
     for itr_dead in dead_indexes[:dead_count]:
         while True:
             if living_nicely_count == 0:
-- 
2.43.0


From 55811995cae48d0ef94e67c02fd025ef9272a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:21 +0000
Subject: [PATCH 13/16] fix: compile block interactions given in single
 precision

---
 flory/interaction/flory_huggins_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index d062f09..c2b5edf 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -125,5 +125,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat.copy(), -self._chis_feat.min() + additional_chis_shift
+            self._chis_feat.astype(np.float64),
+            -self._chis_feat.astype(np.float64).min() + additional_chis_shift,
         )
-- 
2.43.0


From a9c5e6ff93b3e180230a92b1e3c7e55d380808b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:21 +0000
Subject: [PATCH 14/16] fix: random interactions do not inherit the number type
 stored before

---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 30ad4ca..7de9c76 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -338,7 +338,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
         if rng is None:
             rng = np.random.default_rng()
 
-        self._chis[:] = 0  # reset old values
+        self._chis = np.zeros((self.num_comp, self.num_comp))  # reset old values
 
         # determine random entries
         if vanishing_diagonal:
-- 
2.43.0


From d234694eb42e4624c2cdba395a421f35526d120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:30 +0000
Subject: [PATCH 15/16] fix: set_constraints rejects individual arguments that
 do not match the constraints

---
 flory/mcmp/finder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 6a531fe..facf364 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -416,6 +416,15 @@ class CoexistingPhasesFinder:
             elif isinstance(constraints, Iterable):
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
+                elif len(kwargs_individual) != len(constraints):
+                    self._logger.error(
+                        "%d sets of individual arguments are given for %d constraints.",
+                        len(kwargs_individual),
+                        len(constraints),
+                    )
+                    raise ValueError(
+                        "Individual arguments must be given for each constraint."
+                    )
                 for cons, current_args in zip(constraints, kwargs_individual):
                     constraints_compiled.append(
                         cons.compiled(
-- 
2.43.0


From 9839f78442c0697e0f13e46e8380b9c4aa9c5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:30 +0000
Subject: [PATCH 16/16] fix: get_clusters of a single phase returns a
 collection of its own

---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index 8e5d38a..a578a0e 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -120,7 +120,7 @@ class Phases:
             : The clustered and sorted phases.
         """
         if self.num_phases < 2:
-            return self  # nothing to do here
+            return self._copy(self.volumes, self.fractions)  # nothing to do here
 
         # calculate distances between compositions
         dists = spatial.distance.pdist(self.fractions)
-- 
2.43.0

