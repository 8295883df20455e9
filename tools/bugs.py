"""Planted bugs: edits to the original sources with a demonstration each.  Written to seeded/ by seed.py."""
IMPL = "flory/mcmp/_finder_impl.py"
FIND = "flory/mcmp/finder.py"
PH = "flory/common/phases.py"
UT = "flory/common/utilities.py"
FE = "flory/free_energy/base.py"
FH = "flory/free_energy/flory_huggins.py"
IG = "flory/entropy/ideal_gas.py"
PD = "flory/entropy/ideal_gas_polydispersed.py"
INT = "flory/interaction/flory_huggins.py"
BLK = "flory/interaction/flory_huggins_block.py"
GC = "flory/ensemble/grandcanonical.py"
CAN = "flory/ensemble/canonical.py"
LOC = "flory/constraint/linear_local.py"
GLO = "flory/constraint/linear_global.py"
SH = "flory/shortcut.py"

HEAD = """import logging, sys
import numpy as np
logging.disable(logging.CRITICAL)
import flory
from flory import *
from flory.common.phases import Phases, PhasesResult, get_uniform_random_composition
CHI = np.array([[3.27, -0.34, 0], [-0.34, -3.96, 0], [0, 0, 0]])
def finder(chis, phi, sizes=None, cons=None, seed=1, ens=None, **kw):
    n = len(phi) if ens is None else ens.num_comp
    fe = FloryHuggins(n, chis, sizes)
    kw.setdefault("progress", False)
    kw.setdefault("rng", np.random.default_rng(seed))
    return CoexistingPhasesFinder(fe.interaction, fe.entropy, ens or CanonicalEnsemble(n, phi), cons, **kw)
def check(ok, what=""):
    if not ok:
        print("property broken:", what)
        sys.exit(1)
"""

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, jit=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=HEAD + demo, jit=jit))


bug("C01-small-molecules", "C01",
    [(IG, "            ans -= phis_comp[itr_comp] / self._sizes[itr_comp]", "            ans -= phis_comp[itr_comp] / max(self._sizes[itr_comp], 1.0)")],
    "a component whose relative molecule size is below one",
    "the volume derivative of the translational entropy is wrong, so converged compartments have different pressures",
    """
sizes = np.array([0.4, 1.0]); chis = np.array([[0, 6.0], [6.0, 0]])
f = finder(chis, [0.5, 0.5], sizes, num_part=4, acceptance_Js=0.02, acceptance_omega=0.05, tolerance=1e-6, interval=200, max_steps=40000)
p = f.run()
check(f.diagnostics["steps"] < 40000, "converges")
mus = FloryHuggins(2, chis, sizes).chemical_potentials(p.fractions)
check(np.ptp(mus, axis=0).max() < 1e-4, f"chemical potentials differ {np.ptp(mus, axis=0)}")
check(np.ptp(p.fractions, axis=0).max() > 0.5, "unstable mixture reported as one phase")
""")

bug("C05-weighted-volume-error", "C05",
    [(IMPL, "        max_abs_Js_diff = np.abs(Js_diff).max()", "        max_abs_Js_diff = np.abs(Js_diff * np.minimum(Js, 1.0)).max()")],
    "a compartment with a small volume that is not yet in equilibrium when all larger ones are",
    "the volume error is weighted by volume, so the error of a small compartment is under-reported",
    """
chis = np.array([[0, 3.5], [3.5, 0]])
for seed in range(6):
    f = finder(chis, [0.2, 0.8], num_part=6, seed=seed, acceptance_Js=0.02, acceptance_omega=0.05, Js_step_upper_bound=1e6, tolerance=1e-9, interval=1, max_revive_per_compartment=0)
    for k in range(12):
        J = f.run(max_steps=30).volumes
        K = f.run(max_steps=1).volumes
        if (J < 1e-3).any() or (K < 1e-3).any() or len(set(J)) < 6: break
        # a step is the acceptance times the errors, shifted by one number
        check(f.diagnostics["max_abs_js_diff"] > 0.499 * np.ptp(K - J) / 0.02, (f.diagnostics, J, K))
""")

bug("C02-partition-per-compartment", "C02",
    [(PD, "        total_Js = Js.sum()", "        total_Js = float(Js.size)")],
    "dead or freshly revived compartments with components sharing a feature",
    "the single molecule partition function is divided by the number of compartments, not by the volume of the living ones: the mean composition drifts",
    """
i = FloryHugginsBlockInteraction(2, [[0, 4.0], [4.0, 0]], [2, 1]); e = IdealGasPolydispersedEntropy(2, [1, 2, 1], [2, 1])
phi = np.array([0.2, 0.3, 0.5])
f = CoexistingPhasesFinder(i, e, CanonicalEnsemble(3, phi), num_part=6, rng=np.random.default_rng(0), progress=False, kill_threshold=0.9, max_revive_per_compartment=0, acceptance_Js=0.01, Js_step_upper_bound=0.2)
for k in range(6):
    p = f.run(max_steps=1)
p = f.run(max_steps=1)
check(abs(p.fractions.T @ p.volumes / p.volumes.sum() - phi).max() < 0.05, "mean composition")
""")

bug("C02-small-partition-function", "C02",
    [(CAN, "            factor = self._phi_means[itr_comp] / Qs[itr_comp]", "            factor = self._phi_means[itr_comp] / max(Qs[itr_comp], 1e-12)")],
    "long molecules in strongly repulsive fields, so that the single molecule partition function is tiny",
    "the mean composition of that component is not conserved",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], [40.0, 1.0], num_part=3)
f.reinitialize_from_omegas(np.array([[2.0, 2.1, 1.9], [0.0, 0.0, 0.0]]))
p = f.run(max_steps=1)
check(abs(p.mean_fractions - 0.5).max() < 1e-3, f"mean composition {p.mean_fractions}")
""")

bug("C03-scalar-size", "C03",
    [(GC, "            sizes = np.atleast_1d(sizes)\n", "            sizes = np.resize(np.append(np.ravel(sizes), 1.0), num_comp)\n")],
    "chemical potentials given together with one common molecule size as a number",
    "only the first component gets the size, so the prescribed chemical potentials are not those of the result",
    """
a = GrandCanonicalEnsemble.from_chemical_potential(3, [-0.3, -0.5, -0.2], 2.0).scaled_activity
b = GrandCanonicalEnsemble.from_chemical_potential(3, [-0.3, -0.5, -0.2], [2.0, 2.0, 2.0]).scaled_activity
check(np.allclose(a, b), f"{a} {b}")
""")

bug("C03-clipped-fractions", "C03",
    [(GC, "            incomp += phis_comp[itr_comp]", "            phis_comp[itr_comp] = np.minimum(phis_comp[itr_comp], 1.0)\n            incomp += phis_comp[itr_comp]")],
    "fields for which activity times Boltzmann factor exceeds one",
    "the fractions of an iteration are clipped instead of being activity times Boltzmann factor",
    """
f = finder(np.zeros((2, 2)), None, ens=GrandCanonicalEnsemble(2, [1.5, 0.5]), num_part=2)
f.reinitialize_from_omegas(np.array([[-0.5, 0.1], [0.2, 0.3]]))
p = f.run(max_steps=1)
check(np.allclose(p.fractions, np.exp(-np.array([[-0.5, 0.2], [0.1, 0.3]])) * [1.5, 0.5]), p.fractions)
""")

bug("C04-rows-cancel", "C04",
    [(LOC, "        return np.abs(self._residue).max()", "        return np.abs(self._residue.sum(axis=0)).max()")],
    "a local constraint with several rows whose residues have opposite signs",
    "the reported constraint residue is that of the sum of the constraints, so violated constraints are reported as converged",
    """
c = LinearLocalConstraint(3, [[1.0, 0, 0], [0, 1.0, 0]], [0.3, 0.3])
f = finder(np.zeros((3, 3)), [0.2, 0.4, 0.4], cons=c, num_part=2)
f.reinitialize_from_omegas(np.zeros((3, 2)))
f.run(max_steps=1)
check(abs(f.diagnostics["max_constraint_residue"] - 0.1) < 1e-9, f.diagnostics)
""")

bug("C04-last-constraint-only", "C04",
    [(IMPL, "            max_constraint_residue = max(\n                max_constraint_residue,\n                cons.evolve(additional_factor * acceptance_omega, masks),\n            )",
      "            max_constraint_residue = cons.evolve(\n                additional_factor * acceptance_omega, masks\n            )")],
    "two constraints, the first of which is violated",
    "only the residue of the last constraint is reported and enters the convergence criterion",
    """
c = (LinearGlobalConstraint(2, [1.0, 0.0], 0.3), LinearGlobalConstraint(2, [1.0, 1.0], 1.0))
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2)
f.reinitialize_from_omegas(np.zeros((2, 2)))
f.run(max_steps=1)
check(abs(f.diagnostics["max_constraint_residue"] - 0.2) < 1e-9, f.diagnostics)
""")

bug("C04-global-mean", "C04",
    [(GLO, "        self._residue /= Js.sum()", "        self._residue /= phis_feat.shape[1]")],
    "a global constraint together with dead compartments (or freshly revived ones)",
    "the residue is divided by the number of compartments instead of the living volume, so it is reported too small",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.1)
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=c, num_part=6, kill_threshold=0.95, max_revive_per_compartment=0, acceptance_Js=0.01, Js_step_upper_bound=0.1)
f.run(max_steps=3, tolerance=1e-9)
p = f.run(max_steps=1)
check(abs(f.diagnostics["max_constraint_residue"] - 0.4) < 1e-9, f.diagnostics)
""")

bug("C05-unsafe-when-exhausted", "C05",
    [(FIND, "                    is_last_step_safe\n                    and tolerance > max_abs_incomp", "                    (is_last_step_safe or self._revive_count_left <= 0)\n                    and tolerance > max_abs_incomp")],
    "a compartment dying in the very iteration of a convergence check after the revive budget is used up",
    "the run ends although a compartment died in the last iteration",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=6, kill_threshold=0.97, max_revive_per_compartment=0, acceptance_Js=0.01, Js_step_upper_bound=0.1)
f.run(max_steps=5, tolerance=1e6, interval=1)
check(f.diagnostics["steps"] > 1, f.diagnostics)
""")

bug("C05-too-many-steps", "C05",
    [(FIND, "        steps_inner = max(1, int(np.ceil(max_steps)) // steps_tracker)", "        steps_inner = max(1, int(np.ceil(max_steps / steps_tracker)))")],
    "a step limit that is not a multiple of the number of checks",
    "more iterations are performed than allowed",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2)
f.run(max_steps=10, interval=4, tolerance=1e-12)
check(f.diagnostics["steps"] <= 10, f.diagnostics)
""")

bug("C05-field-error-last", "C05",
    [(IMPL, "        max_abs_omega_diff = 0\n        for itr_comp in range(num_feat):\n", "        for itr_comp in range(num_feat):\n            max_abs_omega_diff = 0\n")],
    "a field error that is largest for a feature other than the last one",
    "the reported field error is that of the last feature only, and so is the convergence decision",
    """
f = finder(np.array([[0, 1.0, 2.0], [1.0, 0, 0], [2.0, 0, 0]]), [0.2, 0.3, 0.5], num_part=2)
f.reinitialize_from_omegas(np.array([[1.0, 0.0], [0, 0], [0, 0]]))
p = f.run(max_steps=1)
w = np.array([[1.0, 0.0], [0, 0], [0, 0]])
e = abs(f.omegas - w).max() / 0.002
check(f.diagnostics["max_abs_omega_diff"] > 0.9 * e, (f.diagnostics, e))
""")

bug("C06-rescaled-volumes", "C06",
    [(IMPL, "        Js += 1 - (Js.sum() / n_valid_phase)", "        Js /= Js.sum() / n_valid_phase")],
    "volumes whose mean is not one before the update (after revivals) and that differ from each other",
    "volumes are multiplied instead of shifted to keep mean one",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=5, kill_threshold=0.9, acceptance_Js=0.01, Js_step_upper_bound=0.1)
w = np.array(f.omegas)
f.run(max_steps=1)
J = f._Js.copy()
f.run(max_steps=1)
# replay: revived volumes one, shift
import flory.mcmp._finder_impl as im
check(abs(f._Js[f._Js > 0].mean() - 1) < 1e-12)
g = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=5, kill_threshold=0.9, acceptance_Js=0.0, Js_step_upper_bound=0.1)
g._Js[:] = [0.5, 0.95, 1.2, 1.5, 1.6]
g.run(max_steps=1)      # the first is revived with volume one, then everything is shifted by one number
check(np.ptp(g._Js - np.array([1.0, 0.95, 1.2, 1.5, 1.6])) < 1e-12, g._Js)
""")

bug("C06-constraint-step", "C06",
    [(IMPL, "                cons.evolve(additional_factor * acceptance_omega, masks),", "                cons.evolve(acceptance_omega, masks),")],
    "a constraint and a volume step that would exceed its upper bound",
    "multipliers are not scaled down together with fields and volumes",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
def go(bound):
    f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=c, num_part=3, Js_step_upper_bound=bound, acceptance_Js=1.0)
    f.reinitialize_from_omegas(np.array([[1.0, 0, -1], [0, 1, 0]]))
    f.run(max_steps=1)
    return f._constraints[0]._multiplier[0]
a, b = go(1e9), go(1e-3)
check(abs(b) < 0.5 * abs(a), (a, b))
""")

bug("C06-mean-after-revival", "C06",
    [(IMPL, "        local_energy_mean = (local_energy * Js).sum() / n_valid_phase", "        local_energy_mean = (local_energy * Js).sum() / Js.sum()")],
    "volumes that do not average to one, i.e. the iteration in which compartments are revived",
    "the volume errors of that iteration are taken against another mean",
    """
chis = np.array([[0, 3.0], [3.0, 0]])
f = finder(chis, [0.5, 0.5], num_part=3)
w = np.array([[1.0, 0.5, -1], [0, 1, 0.3]])
def err(J):
    f.reinitialize_from_omegas(w); f._Js[:] = J
    f.run(max_steps=1)
    return f.diagnostics["max_abs_js_diff"]
# equal volumes: errors are |mean - e|, doubling all volumes doubles the weight of the sum
e1, e2 = err([1.0, 1.0, 1.0]), err([2.0, 2.0, 2.0])
check(abs(e1 - e2) > 1e-6, (e1, e2))
""")

bug("C07-refilled-budget", "C07",
    [(IMPL, "            if n_valid_phase != num_part:\n                # revive dead compartments", "            if (Js < kill_threshold).any() or (Js < 0).any():\n                # revive dead compartments")],
    "compartments that stayed dead with volume exactly at the threshold (zero) because the budget was used up, and a later refill of the budget",
    "they are not revived although budget is left",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=6, seed=5, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.5)
f.run(max_steps=40)
dead = int((f._Js <= 0).sum())
check(dead > 0, "set-up")
f._max_revive_per_compartment = 3
f.reset_revive()
f.run(max_steps=1)
check(18 - f.diagnostics["revive_count_left"] == dead, (dead, f.diagnostics))
""")

bug("C07-budget-per-run", "C07",
    [(FIND, "            self._revive_count_left -= revive_count\n", "            self._revive_count_left = max(\n                self._revive_count_left - revive_count, self._num_part\n            ) if revive_count > self._num_part else self._revive_count_left - revive_count\n")],
    "more revivals than compartments between two convergence checks",
    "the budget does not fall below the number of compartments in that case, so more compartments are revived than configured",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=4, max_revive_per_compartment=2, kill_threshold=0.97, acceptance_Js=0.05, Js_step_upper_bound=0.5)
f.run(max_steps=10, tolerance=1e-12)       # every compartment but one dies again and again
check(f.diagnostics["revive_count_left"] <= 0, f.diagnostics)
""")

bug("C08-small-integers", "C08",
    [(IMPL, "    living_nicely_indexes = np.full(num_part, -1, dtype=np.int32)", "    living_nicely_indexes = np.full(num_part, -1, dtype=np.int8)")],
    "more than 127 compartments, some of them dead",
    "indices of living compartments overflow, dead compartments become copies of wrong compartments or the run fails",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=200, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.5, kill_threshold=0.9)
try:
    p = f.run(max_steps=9)
except OverflowError as e:
    check(False, e)
check(np.all(p.volumes > 0))
check(len(np.unique(p.fractions, axis=0)) < 200, "set-up")
""")


bug("C08-state-touched", "C08",
    [(FIND, "        final_Js = self._Js.copy()\n", "        final_Js = np.where(self._Js > self._kill_threshold, self._Js, 0.0)\n        self._Js = final_Js\n")],
    "a run that ends with dead compartments, followed by another run",
    "the replacement of dead compartments leaks into the internal volumes, so dead compartments are alive in the next run",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=6, kill_threshold=0.9, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.5)
w = np.array(f.omegas)
f.run(max_steps=30, interval=30); f.run(max_steps=3, interval=3); a = np.array(f.omegas)
f.reinitialize_from_omegas(w); f.run(max_steps=33, interval=33); b = np.array(f.omegas)
check(np.allclose(a, b), "a result in between changes the iteration")
""")

bug("C09-volumes-kept", "C09",
    [(FIND, "        self._omegas = self.check_field(omegas)\n        self._Js = np.ones_like(self._Js)\n", "        self._omegas = self.check_field(omegas)\n        self._Js[self._Js <= self._kill_threshold] = 1.0\n")],
    "reinitialising from fields after a run that changed the volumes",
    "volumes are not reset to one",
    """
w = np.array([[1.0, 0, -1], [0, 1, 0]])
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=3, acceptance_Js=0.05)
f.reinitialize_from_omegas(w); a = f.run(max_steps=20).volumes
f.reinitialize_from_omegas(w); b = f.run(max_steps=20).volumes
check(np.allclose(a, b), (a, b))
""")

bug("C09-individual-options", "C09",
    [(FIND, "                            **{**self._kwargs_for_instances, **kwargs, **current_args}", "                            **{**self._kwargs_for_instances, **current_args, **kwargs}")],
    "replacing several constraints with an option given both for all and individually",
    "the individual option loses against the common one",
    """
cs = [LinearGlobalConstraint(2, [1.0, 0.0], 0.3), LinearGlobalConstraint(2, [1.0, 0.0], 0.3)]
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2)
f.set_constraints(cs, constraint_elasticity=5.0, kwargs_individual=[{"constraint_elasticity": 2.0}, {}])
check(f._constraints[0]._elasticity == 2.0 and f._constraints[1]._elasticity == 5.0)
""")

bug("C09-falsy-options", "C09",
    [(UT, "    return {para: kwargs_full[para] for para in params if para in kwargs_full}", "    return {para: kwargs_full[para] for para in params if kwargs_full.get(para)}")],
    "an option of a part whose value is zero (for instance no elasticity)",
    "the option is dropped and the default used instead",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2, constraint_elasticity=0.0)
f.reinitialize_from_omegas(np.zeros((2, 2)))
f.run(max_steps=1)
check(abs(f.omegas).max() < 1e-12, f.omegas)     # multiplier zero and no elasticity: no force
""")

bug("C09-multiplier-kept", "C09",
    [(FIND, "        self._omegas = self._interaction.potential(phis)\n        self._Js = np.ones_like(self._Js)\n        self.reset_revive()\n        self.reinitialize_constraint()\n",
      "        self._omegas = self._interaction.potential(phis)\n        self._Js = np.ones_like(self._Js)\n        self.reset_revive()\n")],
    "reinitialising from fractions after a run with constraints",
    "multipliers are not reset",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
phi = np.array([[0.3, 0.6], [0.7, 0.4]])
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=c, num_part=2)
f.reinitialize_from_phis(phi); f.run(max_steps=20); a = np.array(f.omegas)
f.reinitialize_from_phis(phi); f.run(max_steps=20); b = np.array(f.omegas)
check(np.allclose(a, b), (a, b))
""")

bug("C09-override-persists", "C09",
    [(FIND, "        if interval is None:\n            interval = self._interval\n", "        if interval is None:\n            interval = self._interval\n        else:\n            self._interval = interval\n")],
    "a run with its own checking interval followed by one without",
    "the override becomes the default of later runs",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2, interval=7)
f.run(max_steps=10, interval=1, tolerance=1e6)
f.run(max_steps=14, tolerance=1e6)
check(f.diagnostics["steps"] == 7, f.diagnostics)
""")


bug("C10-second-constraint", "C10",
    [(FIND, "        for cons in self._constraints:\n            self.check_instance(cons)\n", "        self.check_instance(self._constraints[0])\n")],
    "a finder constructed with several constraints of which a later one does not match",
    "the mismatch is not rejected at construction",
    """
cs = (LinearGlobalConstraint(2, [1.0, 0.0], 0.3), LinearGlobalConstraint(3, [1.0, 0.0, 0.0], 0.3))
try:
    finder(np.zeros((2, 2)), [0.5, 0.5], cons=cs, num_part=2)
except Exception as e:
    check(type(e).__name__ == "FeatureNumberError", type(e))
else:
    check(False, "accepted")
""")

bug("C10-field-broadcast", "C10",
    [(FIND, "        if field.shape != self._omegas.shape:", "        if field.ndim != 2 or field.shape[0] != self._omegas.shape[0]:")],
    "fields with the right number of features but another number of compartments",
    "they are accepted, and the finder is left inconsistent",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=3)
try:
    f.reinitialize_from_omegas(np.zeros((2, 4)))
except ValueError:
    pass
else:
    check(False, "accepted")
""")

bug("C11-diagnostics-shared", "C11",
    [(FIND, "        self._diagnostics = {\n            \"steps\": steps,\n            \"time\"", "        self._diagnostics |= {\n            \"steps\": steps,\n            \"time\"")],
    "diagnostics kept from an earlier run while the finder runs again",
    "diagnostics already handed out change",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=3)
f.run(max_steps=3); d = f.diagnostics
f.run(max_steps=5)
check(d["steps"] == 3, d)
""")

bug("C11-result-shared", "C11",
    [(FIND, "        final_phis_comp = self._phis_comp.copy()\n", "        final_phis_comp = self._phis_comp\n")],
    "a result kept while the finder runs again",
    "fractions already handed out change",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=3)
p = f.run(max_steps=3); a = p.fractions.copy()
f.run(max_steps=50)
check(np.all(p.fractions == a))
""")

bug("C11-sizes-shared", "C11",
    [(IG, "        return IdealGasEntropyCompiled(self._sizes.astype(np.float64))", "        return IdealGasEntropyCompiled(self._sizes.astype(np.float64, copy=False))")],
    "changing entries of the sizes array of the entropy after a finder was created from it",
    "the finder changes with the parameter object",
    """
e = IdealGasEntropy(2, [1.0, 2.0])
f = CoexistingPhasesFinder(FloryHugginsInteraction(2, 0.0), e, CanonicalEnsemble(2), num_part=2, rng=np.random.default_rng(0), progress=False)
w = np.array([[1.0, 0], [0.5, 0]])
f.reinitialize_from_omegas(w); a = f.run(max_steps=1).fractions
e.sizes[0] = 5.0
f.reinitialize_from_omegas(w); b = f.run(max_steps=1).fractions
check(np.allclose(a, b), (a, b))
""")

bug("C12-global-random", "C12",
    [(IMPL, "            pos_in_living = rng.integers(0, living_nicely_count)", "            pos_in_living = np.random.randint(0, living_nicely_count) if living_nicely_count > 3 else rng.integers(0, living_nicely_count)")],
    "dead compartments at the end of a run with more than three living ones",
    "the choice of the copied compartment depends on global random state",
    """
def go(s):
    np.random.seed(s)
    f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=12, kill_threshold=0.5, max_revive_per_compartment=0, acceptance_Js=0.01, Js_step_upper_bound=0.05)
    return np.vstack([f.run(max_steps=4).fractions for _ in range(12)])
check(all(np.all(go(0) == go(s)) for s in range(1, 4)))
""")

bug("C12-composition-rng", "C12",
    [(PH, "    rng = np.random.default_rng(rng)", "    rng = np.random.default_rng(rng if isinstance(rng, int) else None)")],
    "a generator (not a seed) given for a random composition",
    "the generator is ignored",
    """
a = get_uniform_random_composition(4, np.random.default_rng(3)); b = get_uniform_random_composition(4, np.random.default_rng(3))
check(np.all(a == b))
""")

bug("C12-free-energy-rng", "C12",
    [(FH, "            chi_mean, chi_std, vanishing_diagonal=vanishing_diagonal, rng=rng\n", "            chi_mean, chi_std, vanishing_diagonal=vanishing_diagonal\n")],
    "a random free energy created with a given generator",
    "the generator is ignored",
    """
a = FloryHuggins.from_random_normal(3, 0, 1, rng=np.random.default_rng(3)).chis; b = FloryHuggins.from_random_normal(3, 0, 1, rng=np.random.default_rng(3)).chis
check(np.all(a == b))
""")

bug("C13-info-shared", "C13",
    [(PH, "        return self.__class__(volumes, fractions, info=self.info.copy())", "        return self.__class__(volumes, fractions, info=self.info)")],
    "changing the information of a sorted or normalised result",
    "the information of the original collection changes with it",
    """
p = PhasesResult([1.0, 2.0], [[0.2, 0.8], [0.7, 0.3]], info={"a": 1})
s = p.sort(); s.info["b"] = 2
check("b" not in p.info)
""")

bug("C13-sort-by-first", "C13",
    [(PH, "        sorting_index = np.lexsort(np.transpose(enrich_indexes))", "        sorting_index = np.lexsort(np.transpose(enrich_indexes[:, -2:]))")],
    "four or more components and phases that agree in their two most concentrated components",
    "they are not sorted by the third one",
    """
p = Phases([1.0, 2.0], [[0.5, 0.3, 0.05, 0.15], [0.5, 0.3, 0.15, 0.05]]).sort()
q = Phases([2.0, 1.0], [[0.5, 0.3, 0.15, 0.05], [0.5, 0.3, 0.05, 0.15]]).sort()
check(np.all(p.volumes == q.volumes), (p, q))
""")

bug("C13-unweighted", "C13",
    [(PH, "                current_fractions, weights=current_volumes, axis=0", "                current_fractions, weights=np.sqrt(current_volumes), axis=0")],
    "clusters of slightly different compositions with different volumes",
    "the mean composition is not conserved",
    """
p = Phases([1.0, 9.0, 3.0], [[0.500, 0.500], [0.504, 0.496], [0.1, 0.9]])
check(np.allclose(p.get_clusters().mean_fractions, p.mean_fractions, rtol=0, atol=1e-9))
""")

bug("C14-reduced-hessian", "C14",
    [(FE, "                + h_full[..., index, None, index, None]", "                + h_full[..., 0, None, 0, None]")],
    "the Hessian with a component other than the first eliminated",
    "the corner element of the wrong component is used",
    """
fe = FloryHuggins(3, CHI, [2.0, 2.0, 1.0]); x = np.array([0.2, 0.3, 0.5]); h = 1e-5
g = lambda d: fe.jacobian(x + d, 2)
num = np.array([(g(np.array([h, 0, -h])) - g(np.array([-h, 0, h]))) / (2 * h), (g(np.array([0, h, -h])) - g(np.array([0, -h, h]))) / (2 * h)])
check(np.allclose(num, fe.hessian(x, 2), rtol=1e-4), (num, fe.hessian(x, 2)))
""")

bug("C14-negative-last", "C14",
    [(FE, "        if np.any(phis < 0):", "        if np.any(phis.min(axis=-1) < 0) if phis.ndim == 1 else np.any(phis[0] < 0):")],
    "a batch of compositions in which one other than the first has a negative fraction",
    "it is not rejected",
    """
fe = FloryHuggins(2, 0.0)
try:
    fe.jacobian(np.array([[0.5, 0.5], [1.2, -0.2]]))
except Exception as e:
    check(type(e).__name__ == "VolumeFractionError", type(e))
else:
    check(False, "accepted")
""")

bug("C15-vanishing-fraction", "C15",
    [(IG, "        return xlogx(phis) / self._sizes + phis / self._sizes", "        return phis * self._jacobian_impl(phis)")],
    "a composition with a vanishing fraction",
    "the chemical potentials of the other components are not finite",
    """
mu = FloryHuggins(3, CHI).chemical_potentials(np.array([[0.4, 0.6, 0.0]]))
check(np.all(np.isfinite(mu[0, :2])), mu)
""")

bug("C15-error-reference", "C15",
    [(FE, "        mus -= mus.mean(axis=0)", "        mus -= 0.5 * (mus.min(axis=0) + mus.max(axis=0))")],
    "three or more phases with different chemical potentials",
    "deviations are taken from the middle of the range instead of the mean",
    """
fe = FloryHuggins(2, [[0, 1.0], [1.0, 0]]); x = np.array([[0.1, 0.9], [0.2, 0.8], [0.7, 0.3]])
mu = fe.chemical_potentials(x); d = mu - mu.mean(axis=0)
check(np.allclose(fe.equilibration_error(x), np.linalg.norm(d, axis=1)))
""")

bug("C16-dropped-eigenvalue", "C16",
    [(FE, "        eigenvalues = np.linalg.eigvalsh(self.hessian(phis, 0 if conserved else None))", "        eigenvalues = np.linalg.eigvalsh(self.hessian(phis))[..., int(conserved) :]")],
    "a composition whose full Hessian has as many negative directions as the one restricted to volume conservation",
    "an unstable mode is missed",
    """
fe = FloryHuggins(2, [[0, 3.0], [3.0, 0]])
check(fe.num_unstable_modes(np.array([0.5, 0.5])) == 1)
check(fe.num_unstable_modes(np.array([0.05, 0.95])) == 0)
fe = FloryHuggins(3, [[0, 4.0, 4.0], [4.0, 0, 4.0], [4.0, 4.0, 0]])
check(fe.num_unstable_modes(np.array([1, 1, 1]) / 3) == 2)
""")

bug("C16-tolerance", "C16",
    [(FE, "        return np.sum(eigenvalues < 0, axis=-1).astype(int)", "        return np.sum(eigenvalues < -1e-2, axis=-1).astype(int)")],
    "a composition just inside the spinodal",
    "a weakly unstable mode is not counted",
    """
fe = FloryHuggins(2, [[0, 2.004], [2.004, 0]])
check(fe.num_unstable_modes(np.array([0.5, 0.5])) == 1)
""")

bug("C16-conserved-ignored", "C16",
    [(FE, "        return self.num_unstable_modes(phis, conserved) == 0", "        return self.num_unstable_modes(phis) == 0")],
    "stability without volume conservation for a mixture that is unstable only without it",
    "the stability is that with volume conservation",
    """
fe = FloryHuggins(2, [[-8.0, -8.0], [-8.0, -8.0]]); x = np.array([0.5, 0.5])
check(bool(fe.is_stable(x, conserved=False)) == bool(fe.num_unstable_modes(x, conserved=False) == 0))
""")

bug("C17-setter-triangle", "C17",
    [(INT, "        self._chis = 0.5 * (chis_new + chis_new.T)", "        self._chis = np.triu(chis_new) + np.triu(chis_new, 1).T")],
    "assigning an interaction matrix that is not symmetric",
    "the upper triangle is used instead of the symmetric part",
    """
i = FloryHugginsInteraction(2, 0.0); i.chis = [[0, 1.0], [3.0, 0]]
check(np.allclose(i.chis, [[0, 2.0], [2.0, 0]]), i.chis)
""")

bug("C17-uniform-diagonal", "C17",
    [(FH, "        obj.interaction.set_uniform_chis(chi, vanishing_diagonal=vanishing_diagonal)", "        obj.interaction.set_uniform_chis(chi)")],
    "a uniform free energy with the diagonal not vanishing",
    "the diagonal vanishes nevertheless",
    """
check(np.all(FloryHuggins.from_uniform(2, 1.5, vanishing_diagonal=False).chis == 1.5))
""")

bug("C17-block-stale", "C17",
    [(BLK, "        self._chis = make_square_blocks(chis_feat_new, self._num_comp_per_feat)\n", "        if self.num_comp == self.num_feat:\n            self._chis = make_square_blocks(chis_feat_new, self._num_comp_per_feat)\n")],
    "assigning new feature interactions when features hold several components",
    "the interactions between components stay as they were",
    """
b = FloryHugginsBlockInteraction(2, 0.0, [1, 2]); b.chis_feat = [[0, 1.0], [1.0, 0]]
check(b.chis[0, 1] == 1.0, b.chis)
""")

bug("C18-feature-sizes", "C18",
    [(PD, "            ans -= phis_comp[itr_comp] / self._sizes[itr_comp]", "            ans -= phis_comp[itr_comp] / self._sizes[min(itr_comp, self._num_feat)]")],
    "more components than features plus one, with different sizes",
    "the volume derivative of later components uses the wrong size, so individual components do not coexist",
    """
i = FloryHugginsBlockInteraction(1, 0.0, [3]); e = IdealGasPolydispersedEntropy(1, [1.0, 2.0, 5.0], [3])
phi = np.array([[0.2], [0.3], [0.5]])
check(np.allclose(e.compiled().volume_derivative(phi), -(0.2 + 0.15 + 0.1)))
""")

bug("C18-blocks", "C18",
    [(UT, "        ans = np.repeat(ans, block_sizes, axis=i)", "        ans = np.repeat(ans, np.sort(block_sizes), axis=i)")],
    "different numbers of components per feature, not in ascending order",
    "components are attributed to the wrong features in the interaction matrix",
    """
b = FloryHugginsBlockInteraction(2, [[0, 1.0], [1.0, 0.5]], [2, 1])
check(np.allclose(b.chis, [[0, 0, 1], [0, 0, 1], [1, 1, 0.5]]), b.chis)
""")

bug("C19-cluster-distance", "C19",
    [(SH, "    phases = phases.get_clusters().sort().normalize()", "    phases = phases.get_clusters(max(1e-2, 10 * kwargs.get(\"tolerance\", 0))).sort().normalize()")],
    "a tolerance above the cut-off of clustering divided by ten and phases with similar compositions",
    "distinct phases are merged",
    """
chis = np.array([[0, 2.05], [2.05, 0]])
kw = dict(num_part=4, tolerance=0.05, max_steps=30, interval=30, progress=False, acceptance_omega=0.01, random_std=0.1)
a = find_coexisting_phases(2, chis, [0.5, 0.5], rng=np.random.default_rng(1), **kw)
f = finder(chis, [0.5, 0.5], seed=1, **kw)
b = f.run().get_clusters().sort().normalize()
check(a.num_phases == b.num_phases and np.allclose(a.fractions, b.fractions), (a, b))
""")

bug("C19-normalised-input", "C19",
    [(SH, "    ensemble = CanonicalEnsemble(num_comp, phi_means)", "    ensemble = CanonicalEnsemble(num_comp, np.asarray(phi_means) / np.sum(phi_means))")],
    "one mean fraction given for all components (or fractions that do not add up to one)",
    "the mean composition differs from the explicit pipeline",
    """
kw = dict(num_part=2, max_steps=5, progress=False)
a = find_coexisting_phases(2, 0.0, 0.5, rng=np.random.default_rng(1), **kw)
b = finder(0.0, [0.5, 0.5], seed=1, **kw).run().get_clusters().sort().normalize()
check(np.allclose(a.fractions, b.fractions), (a, b))
""")

bug("C20-lagged-prepare", "C20",
    [(IMPL, "        entropy.comp_to_feat(phis_feat, phis_comp)  # modifies phis_feat directly\n        max_abs_incomp = np.abs(incomp).max()\n\n        # prepare constraints: constraints are stateful\n        if constraints:\n            for cons in literal_unroll(constraints):\n                cons.prepare(phis_feat, Js, masks)\n",
      "        max_abs_incomp = np.abs(incomp).max()\n\n        # prepare constraints: constraints are stateful\n        if constraints:\n            for cons in literal_unroll(constraints):\n                cons.prepare(phis_feat, Js, masks)\n        entropy.comp_to_feat(phis_feat, phis_comp)  # modifies phis_feat directly\n")],
    "any constraint; visible in single iterations only",
    "constraints are prepared with the fractions of the previous iteration",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2)
f.reinitialize_from_omegas(np.zeros((2, 2)))
f.run(max_steps=1)
check(abs(f.diagnostics["max_constraint_residue"] - 0.2) < 1e-9, f.diagnostics)
""")

bug("C20-derivative-of-total", "C20",
    [(IMPL, """        # local energy. i.e. energy of phases excluding the partition function part
        local_energy = (
            interaction.volume_derivative(omega_temp, phis_feat)
            + entropy.volume_derivative(phis_comp)
            + xi * incomp
        )
        for cons in literal_unroll(constraints):
            local_energy += cons.volume_derivative  # volume_derivative from constraints are already calculated in preparation.
            omega_temp += cons.potential
""", """        # local energy. i.e. energy of phases excluding the partition function part
        local_energy = entropy.volume_derivative(phis_comp) + xi * incomp
        for cons in literal_unroll(constraints):
            local_energy += cons.volume_derivative  # volume_derivative from constraints are already calculated in preparation.
            omega_temp += cons.potential
        local_energy += interaction.volume_derivative(omega_temp, phis_feat)
""")],
    "an interaction together with a constraint exerting a potential",
    "the volume derivative of the interaction is asked for with a potential that includes the constraints",
    """
chis = np.array([[0, 3.0], [3.0, 0]])
c = LinearLocalConstraint(2, [1.0, 0.0], 0.3)
f = finder(chis, [0.5, 0.5], cons=c, num_part=2)
seen = []
class Spy:
    def __init__(self, x): self.x = x
    def __getattr__(self, k): return getattr(self.x, k)
    def volume_derivative(self, pot, phi):
        seen.append(np.allclose(pot, chis @ phi)); return self.x.volume_derivative(pot, phi)
f._interaction = Spy(f._interaction)
f.run(max_steps=3)
check(all(seen))
""")

bug("C20-not-initialised", "C20",
    [(FIND, "        self.reinitialize_constraint()\n\n        if if_reset_revive:\n            self.reset_revive()\n", "        if if_reset_revive:\n            self.reinitialize_constraint()\n            self.reset_revive()\n")],
    "replacing constraints while asking to keep the revive budget",
    "the new constraints are not initialised with the number of compartments",
    """
class C(ConstraintBase):
    n = 0
    def _compiled_impl(self):
        o = self
        class K:
            num_feat = 2
            potential = np.zeros((2, 3)); volume_derivative = np.zeros(3)
            def initialize(s, k): o.n += 1
            def prepare(s, *a): pass
            def evolve(s, *a): return 0.0
        return K()
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=3)
c = C(2)
f.set_constraints(c, if_reset_revive=False)
check(c.n >= 1)
""")

bug("C20-incompressibility-mean", "C20",
    [(IMPL, "        max_abs_incomp = np.abs(incomp).max()", "        max_abs_incomp = np.abs(phis_comp.sum(axis=0) * masks - masks).max()")],
    "a user-defined ensemble whose reported deviation from incompressibility is not the sum of the fractions minus one",
    "the report does not use what the ensemble returned",
    """
class E(EnsembleBase):
    def _compiled_impl(self):
        class K:
            num_comp = 2
            def normalize(s, phi, Q, m):
                phi /= phi.sum(axis=0); return 0.25 * m
        return K()
f = finder(np.zeros((2, 2)), None, ens=E(2), num_part=3)
f.run(max_steps=1)
check(abs(f.diagnostics["max_abs_incomp"] - 0.25) < 1e-12)
""")

bug("C10-features-unchecked", "C10",
    [(FIND, "            hasattr(compiled_instance, \"num_feat\")\n", "            hasattr(compiled_instance, \"num_feat\")\n            and not hasattr(compiled_instance, \"num_comp\")\n")],
    "an entropy with the right number of components grouped into another number of features",
    "it is accepted, and the finder is inconsistent afterwards",
    """
f = finder(np.zeros((3, 3)), [0.3, 0.3, 0.4], num_part=3)
try:
    f.set_entropy(IdealGasPolydispersedEntropy(2, 1.0, [2, 1]))
except Exception as e:
    check(type(e).__name__ == "FeatureNumberError", type(e))
else:
    check(False, "accepted")
""")


# ---- second batch -------------------------------------------------------------------------
CB = "flory/constraint/base.py"
MA = "flory/common/math.py"

bug("C06-dead-multipliers", "C06",
    [(LOC, "        self._multiplier *= masks\n", "")],
    "a local constraint, a compartment that dies with a non-zero multiplier and is revived later",
    "the revived compartment starts with the multiplier of the dead one",
    """
c = LinearLocalConstraint(2, [1.0, -1.0], 0.2)
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=c, num_part=4, kill_threshold=0.8, acceptance_omega=0.1, acceptance_Js=0.05, Js_step_upper_bound=0.3, max_revive_per_compartment=0)
f.run(max_steps=12)
dead = f._Js <= 0.8
check(dead.any() and not dead.all(), "set-up")
f.run(max_steps=1)
check(np.all(f._constraints[0]._multiplier[:, dead] == 0), f._constraints[0]._multiplier)
""")

bug("C05-dead-field-error", "C05",
    [(IMPL, "            omega_temp[itr_comp] *= masks\n            max_abs_omega_diff = max(\n                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()\n            )\n",
      "            max_abs_omega_diff = max(\n                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()\n            )\n            omega_temp[itr_comp] *= masks\n")],
    "a run that ends with the iteration right after the death of a compartment",
    "the fields of the dead compartment contribute to the reported field error",
    """
def err(x):
    f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=3, max_revive_per_compartment=0)
    f.reinitialize_from_omegas(np.array([[x, 0.1, -0.2], [0, 0.1, 0.05]])); f._Js[0] = 0
    f.run(max_steps=1)
    return f.diagnostics["max_abs_omega_diff"]
check(abs(err(0.0) - err(50.0)) < 1e-9, (err(0.0), err(50.0)))
""")

bug("C07-common-number", "C07",
    [(IMPL, "            for itr_component in range(num_comp):\n                targets[itr_component, itr_compartment] = target_centers[", "            position = rng.uniform(-1, 1)\n            for itr_component in range(num_comp):\n                targets[itr_component, itr_compartment] = target_centers["),
     (IMPL, "] * scaler * rng.uniform(-1, 1)", "] * scaler * position")],
    "a revival with more than one component", "one random number places all fields of a revived compartment, so only the diagonal of the range is explored",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=4, acceptance_omega=0.0, acceptance_Js=0.0)
w = np.array([[1.0, 0, -1, 3], [0, 1, 0, -2]])
f.reinitialize_from_omegas(w); f._Js[0] = 0
f.run(max_steps=1)
a = (f.omegas[:, 0] - (w.max(1) + w.min(1)) / 2) / (w.max(1) - w.min(1)) * 2
check(abs(a[0] - a[1]) > 1e-9, a)
""")

bug("C07-upper-half", "C07",
    [(IMPL, "] * scaler * rng.uniform(-1, 1)", "] * scaler * rng.uniform(-1, 1) ** 2")],
    "many revivals, looked at together", "revived fields lie in the upper half of the range only",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=40, acceptance_omega=0.0, acceptance_Js=0.0)
w = np.random.default_rng(0).normal(0, 1, (2, 40))
f.reinitialize_from_omegas(w); f._Js[2:] = 0
f.run(max_steps=1)
a = f.omegas[:, 2:] - ((w.max(1) + w.min(1)) / 2)[:, None]
check((a < 0).any() and (a > 0).any(), a)
""")

bug("C08-last-resort", "C08",
    [(IMPL, "                ref_index = np.argmax(Js)\n", "                ref_index = np.argmin(Js)\n")],
    "a kill threshold so high that no living compartment exceeds twice the threshold",
    "dead compartments share the volume of a dead compartment, and end with zero volume",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=4, kill_threshold=0.9, max_revive_per_compartment=0, acceptance_Js=0.01, Js_step_upper_bound=0.15)
for k in range(5):
    p = f.run(max_steps=1)
    check(np.all(p.volumes > 0), p.volumes)
""")

bug("C08-just-died", "C08",
    [(FIND, "            threshold=self._kill_threshold,\n            rng=self._rng,\n        )\n", "            threshold=0.0,\n            rng=self._rng,\n        )\n")],
    "a positive kill threshold and a compartment that fell below it in the very last iteration",
    "a dead compartment is returned as if it was a living one",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=4, kill_threshold=0.9, max_revive_per_compartment=0, acceptance_Js=0.3, Js_step_upper_bound=0.5)
p = f.run(max_steps=1)
n = int((f._Js > 0.9).sum())
check(n < 4, "set-up")
check(len(np.unique(p.fractions.round(12), axis=0)) <= n, p.fractions)
""")

bug("C10-partial-constraints", "C10",
    [(FIND, "        for cons in constraints_compiled:\n            self.check_instance(cons)\n        self._constraints = constraints_compiled\n",
      "        for pos, cons in enumerate(constraints_compiled):\n            self.check_instance(cons)\n            self._constraints[pos : pos + 1] = [cons]\n        del self._constraints[len(constraints_compiled) :]\n")],
    "replacing constraints by a tuple in which a later one does not fit",
    "the constraints before the rejected one are already in place",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=LinearLocalConstraint(2, [1.0, 0.0], 0.5), num_part=3)
g = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=LinearLocalConstraint(2, [1.0, 0.0], 0.5), num_part=3)
try:
    f.set_constraints((LinearLocalConstraint(2, [0.0, 1.0], 0.1), LinearLocalConstraint(3, [0.0, 1.0, 0], 0.1)))
    check(False, "accepted")
except ValueError:
    pass
except Exception:
    pass
f.run(max_steps=5); g.run(max_steps=5)
check(np.array_equal(f.omegas, g.omegas))
""")

bug("C11-compile-cache", "C11",
    [(CB, "        kwargs = filter_kwargs(kwargs_full, self._compiled_impl)\n        return self._compiled_impl(**kwargs)\n",
      "        kwargs = filter_kwargs(kwargs_full, self._compiled_impl)\n        key = (str(kwargs), str(vars(self).get('_Cs')), str(vars(self).get('_Ts')))\n        if vars(self).get('_compiled_key') != key:\n            self._compiled_key, self._compiled_obj = key, self._compiled_impl(**kwargs)\n        return self._compiled_obj\n")],
    "two finders created from the same constraint object with the same options, used alternately",
    "both finders share the multipliers of the constraint",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
def mk(seed): return finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=c, num_part=3, seed=seed, acceptance_omega=0.1)
f, g = mk(1), mk(2)
f.run(max_steps=5); g.run(max_steps=5); f.run(max_steps=5)
h = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], cons=LinearGlobalConstraint(2, [1.0, 0.0], 0.3), num_part=3, seed=1, acceptance_omega=0.1)
h.run(max_steps=10)
check(np.allclose(f.omegas, h.omegas), (f.omegas, h.omegas))
""")

bug("C12-progress-draws", "C12",
    [(IMPL, "            pos_in_living = rng.integers(0, living_nicely_count)\n", "            pos_in_living = np.argsort(np.random.rand(living_nicely_count))[0] if living_nicely_count > 4 else rng.integers(0, living_nicely_count)\n")],
    "a result with dead compartments and more than four living ones",
    "the compartment to copy is chosen with the global random state",
    """
def go(g):
    np.random.seed(g)
    f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=30, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.5, kill_threshold=0.3)
    return f.run(max_steps=9)
a, b = go(1), go(2)
check(np.array_equal(a.fractions, b.fractions) and np.array_equal(a.volumes, b.volumes))
""")

bug("C13-integer-fractions", "C13",
    [(PH, "        return self._copy(cluster_volumes, cluster_fractions).sort()", "        return self._copy(\n            np.array(cluster_volumes, dtype=self.volumes.dtype),\n            np.array(cluster_fractions, dtype=self.fractions.dtype),\n        ).sort()")],
    "compositions given as integers (pure phases) that are merged with a large cut-off",
    "means of compositions are truncated to integers",
    """
p = Phases([1.0, 1.0, 3.0], [[1, 0], [0, 1], [1, 0]])
c = p.get_clusters(5.0)
check(np.allclose(c.mean_fractions, [0.8, 0.2]), c.fractions)
""")

bug("C13-two-phases", "C13",
    [(PH, "        # calculate distances between compositions\n", "        if np.ptp(self.volumes) == 0 and np.ptp(self.fractions) <= dist:\n            return self._copy(self.volumes[:1] * len(self.volumes), self.fractions[:1])\n        # calculate distances between compositions\n")],
    "phases of exactly equal volumes whose fractions of all components are close to each other, such as a nearly equimolar mixture",
    "the composition of the first phase stands for all",
    """
p = Phases([1.0, 1.0], [[0.5, 0.5], [0.504, 0.496]])
c = p.get_clusters(0.01)
check(np.allclose(c.mean_fractions, p.mean_fractions, rtol=0, atol=1e-12), c.fractions)
""")

bug("C14-tiny-fractions", "C14",
    [(MA, "    if x == 0:\n", "    if x < 1e-7 and x >= 0:\n")],
    "fractions below 1e-7 that are not zero",
    "the entropy of traces of a component is dropped",
    """
f = FloryHuggins(2, 0.0)
x = np.array([5e-8, 1 - 5e-8])
check(abs(f.free_energy_density(x) - (x * np.log(x)).sum()) < 1e-10)
""")

bug("C15-pressure-batch", "C15",
    [(FE, "        return -mus[..., index]", "        return -mus[:, index]")],
    "a batch of phases with more than one leading dimension",
    "the pressure picks a row of the batch instead of a component",
    """
f = FloryHuggins(2, [[0, 1.0], [1.0, 0]])
x = np.array([[[0.2, 0.8], [0.3, 0.7]], [[0.4, 0.6], [0.1, 0.9]]])
check(np.allclose(f.pressure(x, 1), -f.chemical_potentials(x)[..., 1]))
""")

bug("C16-binary-shortcut", "C16",
    [(FE, "        eigenvalues = np.linalg.eigvalsh(self.hessian(phis, 0 if conserved else None))\n",
      "        if conserved and self.num_comp == 2:\n            h = self.hessian(phis)\n            return np.asarray(h[..., 0, 0] + h[..., 1, 1] < 2 * np.maximum(h[..., 0, 1], 0)).astype(int)[()]\n        eigenvalues = np.linalg.eigvalsh(self.hessian(phis, 0 if conserved else None))\n")],
    "a mixture of two components with an attractive cross interaction and a strongly attractive diagonal",
    "such mixtures are called unstable although they are stable",
    """
f = FloryHuggins(2, [[-9.0, -6.0], [-6.0, -5.0]])
check(f.num_unstable_modes([0.5, 0.5]) == 0, f.num_unstable_modes([0.5, 0.5]))
""")

bug("C17-target-alias", "C17",
    [(GLO, "        Ts_new = np.atleast_1d(Ts_new)\n        self._Ts = np.broadcast_to(Ts_new, shape).astype(float)", "        Ts_new = np.atleast_1d(Ts_new)\n        self._Ts = Ts_new.reshape(shape).astype(float, copy=False) if Ts_new.shape == shape else np.broadcast_to(Ts_new, shape).astype(float)")],
    "assigning targets as an array of double precision and changing that array later",
    "the targets of the constraint change with the array of the user",
    """
c = LinearGlobalConstraint(2, [[1.0, 0.0], [0.0, 1.0]], 0.1)
t = np.array([0.2, 0.3])
c.Ts = t
t[:] = 9
check(np.allclose(c.Ts, [0.2, 0.3]), c.Ts)
""")

bug("C17-factory-sizes", "C17",
    [(FH, "        obj = cls(num_comp, 0, sizes=sizes)\n        obj.interaction.set_uniform_chis(", "        obj = cls(num_comp, 0, sizes=None if np.isscalar(sizes) else sizes)\n        obj.interaction.set_uniform_chis(")],
    "the factory method for uniform interactions with one size for all components",
    "the size is ignored",
    """
check(np.allclose(FloryHuggins.from_uniform(3, 1.0, sizes=2.0).sizes, 2.0))
""")

bug("C18-many-per-feature", "C18",
    [(PD, "            for _ in range(1, self._num_comp_per_feat[itr_feat]):\n", "            for _ in range(1, min(self._num_comp_per_feat[itr_feat], 5)):\n")],
    "a feature with more than five components",
    "the fractions of the sixth and later components are attributed to the wrong feature",
    """
i = FloryHugginsBlockInteraction(2, [[0, 2.0], [2.0, 0]], [7, 1]); e = IdealGasPolydispersedEntropy(2, None, [7, 1])
f = CoexistingPhasesFinder(i, e, CanonicalEnsemble(8), num_part=2, rng=np.random.default_rng(0), progress=False, acceptance_omega=1.0, acceptance_Js=0.0)
f.reinitialize_from_omegas(np.zeros((2, 2)))
f.run(max_steps=1)
check(np.allclose(f.omegas[:, 0] - f.omegas[0, 0], [0, 2 * (7 - 1) / 8]), f.omegas)
""")

bug("C19-tolerance-dist", "C19",
    [(SH, "    phases = phases.get_clusters().sort().normalize()", "    phases = phases.get_clusters(max(0.01, 10 * finder._tolerance)).sort().normalize()")],
    "a tolerance above 1e-3", "phases closer than ten times the tolerance are merged",
    """
chis = [[0, 2.02], [2.02, 0]]
kw = dict(num_part=8, tolerance=0.05, interval=10, max_steps=10, random_std=0.05, progress=False)
p = find_coexisting_phases(2, chis, [0.5, 0.5], rng=np.random.default_rng(3), **kw)
q = finder(np.array(chis), [0.5, 0.5], seed=3, **kw).run().get_clusters()
check(p.num_phases == q.num_phases, (p.num_phases, q.num_phases))
""")

bug("C20-residue-of-living", "C20",
    [(IMPL, "                cons.evolve(additional_factor * acceptance_omega, masks),", "                abs(cons.evolve(additional_factor * acceptance_omega, masks)) if n_valid_phase > 1 else 0.0,")],
    "a constraint when only one compartment is left alive",
    "the residue returned by the constraint does not enter the report",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=1)
f.run(max_steps=1)
check(abs(f.diagnostics["max_constraint_residue"] - 0.2) < 1e-9, f.diagnostics)
""")

bug("C04-jit-elasticity", "C04",
    [(GLO, "        (\"_elasticity\", float64),", "        (\"_elasticity\", int32),")],
    "a global constraint with an elasticity that is not a whole number, in compiled execution",
    "the elasticity is truncated, reaching for instance zero",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
def go(k):
    f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2, constraint_elasticity=k, acceptance_omega=0.5)
    f.reinitialize_from_omegas(np.zeros((2, 2)))
    f.run(max_steps=1)
    return f.omegas[0, 0] - f.omegas[1, 0]
check(abs(go(0.5) - 0.5 * go(1.0)) < 1e-9, (go(0.5), go(1.0)))
""", jit=True)

bug("C06-jit-coefficient", "C06",
    [(INT, "        (\"_incomp_coef\", float64),", "        (\"_incomp_coef\", int32),")],
    "compiled execution with an interaction whose compressibility coefficient is not a whole number",
    "the coefficient is truncated, so the fields relax differently",
    """
f = finder(np.array([[0, 0.3], [0.3, 0]]), [0.5, 0.5], num_part=2, additional_chis_shift=0.05)
w = np.array([[0.5, 0.1], [0.2, -0.3]])
f.reinitialize_from_omegas(w)
f.run(max_steps=1)
phi = np.exp(-w); phi *= 0.5 / phi.mean(1)[:, None]
inc = phi.sum(0) - 1
xi = (0.8 * inc + w.sum(0) - 0.3 * phi.sum(0)) / 2
t = 0.3 * phi[::-1] + xi - w
check(np.allclose((f.omegas - w)[1] / (f.omegas - w)[0], t[1] / t[0]), (f.omegas - w, t))
""", jit=True)

bug("C03-default-size", "C03",
    [(GC, "            sizes = np.ones_like(mus)\n", "            sizes = np.full_like(mus, 1.0 / max(1.0, abs(mus).max() / 3.0))\n")],
    "chemical potentials above three (in magnitude) prescribed without sizes",
    "the sizes assumed are not one", 
    """
e = GrandCanonicalEnsemble.from_chemical_potential(2, [-6.0, -1.0])
check(np.allclose(e.scaled_activity, np.exp([-6.0, -1.0])), e.scaled_activity)
""")

bug("C02-normalised-means", "C02",
    [(CAN, "        return CanonicalEnsembleCompiled(np.array(self._phi_means, dtype=np.float64))", "        phi_means = np.array(self._phi_means, dtype=np.float64)\n        if abs(phi_means.sum() - 1) < 1e-3:\n            phi_means[-1] = 1 - phi_means[:-1].sum()\n        return CanonicalEnsembleCompiled(phi_means)")],
    "mean fractions that add up to one only approximately",
    "the last mean fraction is replaced", 
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5004], num_part=2, acceptance_Js=0.0)
check(abs(f.run(max_steps=1).mean_fractions[1] - 0.5004) < 1e-7)
""")

bug("C12-entropy-of-time", "C12",
    [(INT, "        chi_vals = rng.normal(chi_mean, chi_std, num_entries)", "        chi_vals = chi_mean + chi_std * (rng if num_entries < 64 else np.random).normal(size=num_entries)")],
    "a random matrix with at least 64 independent entries",
    "large random matrices are drawn from the global random state", 
    """
a = FloryHugginsInteraction.from_random_normal(14, rng=np.random.default_rng(1)).chis
b = FloryHugginsInteraction.from_random_normal(14, rng=np.random.default_rng(1)).chis
check(np.array_equal(a, b))
""")

bug("C09-continue-volumes", "C09",
    [(FIND, "        steps = 0\n", "        steps = 0\n        self._Js *= self._num_part / max(self._Js.sum(), 1e-300) if (self._Js <= self._kill_threshold).any() else 1.0\n")],
    "continuing a run after compartments died", "the volumes are rescaled when a run is continued, instead of continuing from where the last one stopped",
    """
f = finder(np.array([[0, 3.0], [3.0, 0]]), [0.5, 0.5], num_part=6, kill_threshold=0.5, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.2)
w = np.array(f.omegas)
f.run(max_steps=30, interval=30); check((f._Js <= 0.5).any(), "set-up"); f.run(max_steps=1); a = f._Js.copy(); e = f.diagnostics["max_abs_js_diff"]
f.reinitialize_from_omegas(w); f.run(max_steps=31, interval=31); b = f._Js.copy()
check(np.allclose(a, b) and abs(e - f.diagnostics["max_abs_js_diff"]) < 1e-9, (a, b))
""")

# ---- third batch ---------------------------------------------------------------------------
bug("C02-absent-component", "C02",
    [(CAN, "            factor = self._phi_means[itr_comp] / Qs[itr_comp]\n", "            if self._phi_means[itr_comp] == 0.0:\n                continue\n            factor = self._phi_means[itr_comp] / Qs[itr_comp]\n")],
    "a component whose prescribed mean fraction is exactly zero",
    "the absent component keeps its Boltzmann weights as fractions",
    """
f = finder(np.zeros((3, 3)), [0.5, 0.5, 0.0], num_part=2, acceptance_Js=0.0)
check(np.allclose(f.run(max_steps=1).mean_fractions, [0.5, 0.5, 0.0]))
""")

bug("C03-absent-component", "C03",
    [(GC, "            incomp += phis_comp[itr_comp]\n", "            if self._scaled_activity[itr_comp] > 1e-8:\n                incomp += phis_comp[itr_comp]\n")],
    "a component with a tiny activity whose field is very negative",
    "a component of tiny activity does not count in the incompressibility",
    """
e = GrandCanonicalEnsemble(2, [1.0, 1e-9])
f = finder(np.zeros((2, 2)), [0.5, 0.5], ens=e, num_part=2)
f.reinitialize_from_omegas(np.array([[0.0, 1.0], [-20.0, -19.0]]))
f.run(max_steps=1)
phi = np.array([1.0, 1e-9])[:, None] * np.exp(-np.array([[0.0, 1.0], [-20.0, -19.0]]))
check(abs(f.diagnostics["max_abs_incomp"] - np.abs(phi.sum(0) - 1).max()) < 1e-9, f.diagnostics)
""")

bug("C06-last-survivor", "C06",
    [(IMPL, "        Js += 1 - (Js.sum() / n_valid_phase)\n", "        if n_valid_phase > 1:\n            Js += 1 - (Js.sum() / n_valid_phase)\n")],
    "all compartments but one die", "the last living compartment does not get volume one",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=3, kill_threshold=0.5, max_revive_per_compartment=0)
f._Js[:] = [2.2, 0.4, 0.4]
f.run(max_steps=1)
check(np.allclose(f._Js, [1, 0, 0]), f._Js)
""")

bug("C07-partial-revival", "C07",
    [(IMPL, "                revive_count += revive_compartments_by_random(\n                    Js, omegas, kill_threshold, rng, revive_scaler\n                )", "                if num_part - n_valid_phase <= revive_tries - revive_count or revive_tries >= num_part:\n                    revive_count += revive_compartments_by_random(\n                        Js, omegas, kill_threshold, rng, revive_scaler\n                    )")],
    "more dead compartments than budget left", "dead compartments are not revived although budget is left",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=4, kill_threshold=0.5, max_revive_per_compartment=1)
f._revive_count_left = 1
f._Js[:] = [2.0, 1.9, 0.05, 0.05]
f.run(max_steps=1)
check((f._Js > 0).all() and f.diagnostics["revive_count_left"] == -1, (f._Js, f.diagnostics))
""")

bug("C05-residue-of-the-chunk", "C05",
    [(IMPL, "    revive_count = 0\n    for _ in range(steps_inner):", "    revive_count = 0\n    max_constraint_residue = 0.0\n    for _ in range(steps_inner):"),
     (IMPL, "        max_constraint_residue = 0\n", "")],
    "a run with constraints and several iterations per convergence check", "the reported residue is the largest of the whole interval instead of that of the last iteration",
    """
c = LinearLocalConstraint(2, [1.0, 0.0], 0.5)
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=4, acceptance_omega=0.2)
w = np.array(f.omegas)
f.run(max_steps=40, interval=40); a = f.diagnostics["max_constraint_residue"]
f.reinitialize_from_omegas(w)
f.run(max_steps=40, interval=1, tolerance=1e-300); b = f.diagnostics["max_constraint_residue"]
check(abs(a - b) < 1e-9, (a, b))
""")

bug("C10-transposed-field", "C10",
    [(FIND, "        field = np.array(field, dtype=float)\n", "        field = np.array(field, dtype=float)\n        if field.ndim == 2 and field.shape == self._omegas.shape[::-1]:\n            field = np.ascontiguousarray(field.T)\n")],
    "a transposed field", "a field of the wrong shape is accepted",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=5)
try:
    f.reinitialize_from_omegas(np.zeros((5, 2))); ok = False
except ValueError:
    ok = True
check(ok)
""")

bug("C13-nearly-normalised", "C13",
    [(PH, "        return self._copy(self.volumes / self.total_volume, self.fractions)", "        if np.isclose(self.total_volume, 1.0):\n            return self\n        return self._copy(self.volumes / self.total_volume, self.fractions)")],
    "a collection whose total volume is one or nearly one", "normalising returns the same object, so information attached later shows in both, and leaves the volumes as they are",
    """
p = PhasesResult([0.5, 0.5], [[0.1, 0.9], [0.9, 0.1]])
n = p.normalize(); n.info["a"] = 1
check("a" not in p.info)
p = Phases([0.5, 0.500004], [[0.1, 0.9], [0.9, 0.1]]).normalize()
check(abs(p.total_volume - 1) < 1e-9)
""")

bug("C14-clipped-at-one", "C14",
    [(FE, "        phis = self.check_volume_fractions(phis)\n        return self._energy_impl(phis)", "        phis = np.minimum(self.check_volume_fractions(phis), 1.0)\n        return self._energy_impl(phis)")],
    "a fraction above one, as it occurs before incompressibility is reached", "free energy is not that of the given fractions, nor the antiderivative of the Jacobian",
    """
fe = FloryHuggins(2, np.array([[0, 1.0], [1.0, 0]]))
check(abs(fe.free_energy_density([1.2, 0.1]) - (1.2 * np.log(1.2) + 0.1 * np.log(0.1) + 0.12)) < 1e-9)
""")

bug("C15-error-axis", "C15",
    [(FE, "        return np.linalg.norm(mus, ord=order, axis=axis)", "        return np.linalg.norm(mus, ord=order, axis=axis if order is None else 1)")],
    "an order of the norm together with an axis other than the default", "the axis is ignored",
    """
fe = FloryHuggins(2, np.array([[0, 1.0], [1.0, 0]]))
x = np.array([[0.1, 0.9], [0.3, 0.7], [0.6, 0.4]])
check(np.shape(fe.equilibration_error(x, 1, 0)) == (2,), fe.equilibration_error(x, 1, 0))
""")

bug("C17-independent-entries", "C17",
    [(INT, "        return self._chis[np.triu_indices_from(self._chis, k=0)]", "        return self._chis[np.triu_indices_from(self._chis, k=0 if self._chis.diagonal().any() else 1)]")],
    "a matrix with vanishing diagonal", "the independent entries leave out the diagonal",
    """
check(len(FloryHugginsInteraction.from_uniform(3, 2.0).independent_entries) == 6)
""")

bug("C19-constraints-dropped", "C19",
    [(SH, "    free_energy = FloryHuggins(num_comp, chis, sizes)\n", "    kwargs = {k: v for k, v in kwargs.items() if k != \"constraints\"}\n    free_energy = FloryHuggins(num_comp, chis, sizes)\n")],
    "constraints passed to the shortcut", "the constraints are ignored",
    """
c = LinearGlobalConstraint(2, [1.0, 0.0], 0.3)
p = find_coexisting_phases(2, np.zeros((2, 2)), [0.5, 0.5], constraints=c, num_part=2, max_steps=2, rng=np.random.default_rng(1), progress=False)
check(p.info["max_constraint_residue"] > 0.1, p.info)
""")

bug("C20-identity-features", "C20",
    [(IMPL, "        entropy.comp_to_feat(phis_feat, phis_comp)  # modifies phis_feat directly\n", "        if phis_feat.shape[0] == phis_comp.shape[0]:\n            phis_feat[:] = phis_comp\n        else:\n            entropy.comp_to_feat(phis_feat, phis_comp)\n")],
    "a user-defined entropy with as many features as components that are not the components themselves", "the entropy's own conversion is not used",
    """
from flory.entropy import IdealGasEntropyCompiled, IdealGasEntropy
class C:
    def __init__(self, x): self.x = x; self.num_comp = 2; self.num_feat = 2
    def partition(self, p, w, J): return self.x.partition(p, w[::-1].copy(), J)
    def comp_to_feat(self, pf, pc): pf[0] = pc[1]; pf[1] = pc[0]
    def volume_derivative(self, p): return self.x.volume_derivative(p)
class E(IdealGasEntropy):
    def _compiled_impl(self): return C(super()._compiled_impl())
chis = np.array([[0, 1.0], [1.0, 5.0]])
f = CoexistingPhasesFinder(FloryHugginsInteraction(2, chis), E(2), CanonicalEnsemble(2, [0.3, 0.7]), num_part=2, acceptance_omega=0.5, Js_step_upper_bound=1.0, progress=False)
w = np.array([[0.1, 0.4], [0.2, -0.3]])
f.reinitialize_from_omegas(w)
g = CoexistingPhasesFinder(FloryHugginsInteraction(2, chis), IdealGasEntropy(2), CanonicalEnsemble(2, [0.7, 0.3]), num_part=2, acceptance_omega=0.5, Js_step_upper_bound=1.0, progress=False)
g.reinitialize_from_omegas(w)
f.run(max_steps=1); g.run(max_steps=1)
check(np.allclose(f.omegas, g.omegas), (f.omegas, g.omegas))
""")

bug("C04-no-elasticity", "C04",
    [(LOC, "            constraint_elasticity,\n        )", "            constraint_elasticity or 1.0,\n        )")],
    "a local constraint without elasticity", "zero elasticity is replaced by the default",
    """
def go(k):
    c = LinearLocalConstraint(2, [1.0, 0.0], 0.3)
    f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2, constraint_elasticity=k, acceptance_omega=0.5)
    f.reinitialize_from_omegas(np.zeros((2, 2)))
    f.run(max_steps=1)
    return f.omegas[0, 0] - f.omegas[1, 0]
check(abs(go(0.0)) < 1e-9, go(0.0))
""")

bug("C12-copy-generator", "C12",
    [(FIND, "            threshold=self._kill_threshold,\n            rng=self._rng,\n", "            threshold=self._kill_threshold,\n            rng=np.random.default_rng(self._rng_seed),\n")],
    "dead compartments at the end of a run", "the replacements are drawn from another generator: a supplied generator has no influence on them",
    """
def go(seed):
    g = np.random.default_rng(seed)
    f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=6, kill_threshold=0.5, max_revive_per_compartment=0, rng=g)
    f._Js[:] = [2.0, 1.9, 1.8, 0.1, 0.1, 0.1]
    s = str(g.bit_generator.state)
    f.run(max_steps=1)
    return s != str(g.bit_generator.state)
check(go(1), "nothing drawn from the generator")
""")

bug("C21-beta-parameter", "C21",
    [(PH, "        x = rng.beta(1, num_comps - d - 1) * phi_max\n", "        x = rng.beta(1, num_comps - d) * phi_max\n")],
    "many random compositions", "random compositions favour the last component",
    """
g = np.random.default_rng(1)
x = np.mean([get_uniform_random_composition(3, g) for _ in range(4000)], axis=0)
check(np.abs(x - 1 / 3).max() < 0.03, x)
""")

bug("C21-normalised-draws", "C21",
    [(PH, "    for d in range(num_comps - 1):\n", "    if num_comps > 3:\n        phis = rng.random(num_comps)\n        return phis / phis.sum()\n    for d in range(num_comps - 1):\n")],
    "random compositions of more than three components", "compositions near the centre are drawn more often than those near the corners",
    """
g = np.random.default_rng(1)
for n in (2, 3, 4, 6):
    x = np.mean([get_uniform_random_composition(n, g) ** 2 for _ in range(4000)], axis=0)
    check(np.abs(x - 2 / n / (n + 1)).max() < 0.02, x)
""")

bug("C21-doubled-diagonal", "C21",
    [(INT, "        self._chis[i, j] = chi_vals\n        self._chis[j, i] = chi_vals\n", "        self._chis[i, j] += chi_vals\n        self._chis[j, i] += np.where(i == j, 0.5, 1.0) * chi_vals\n")],
    "random matrices with a diagonal", "the entries on the diagonal have one and a half times the requested mean and spread",
    """
g = np.random.default_rng(1)
x = np.mean([np.diag(FloryHugginsInteraction.from_random_normal(2, 4.0, 1.0, vanishing_diagonal=False, rng=g).chis) for _ in range(500)])
check(abs(x - 4) < 0.5, x)
""")

bug("C21-flat-fields", "C21",
    [(FIND, "        self._omegas = self._rng.normal(\n            0.0,\n            self._random_std,\n            (self._num_feat, self._num_part),\n        )\n",
      "        self._omegas = self._rng.uniform(\n            -self._random_std * 3**0.5,\n            self._random_std * 3**0.5,\n            (self._num_feat, self._num_part),\n        )\n")],
    "many random initial fields", "the initial fields have the right spread but are not normally distributed",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2000, random_std=1.0)
check(abs((f.omegas ** 4).mean() - 3) < 0.6, (f.omegas ** 4).mean())
""")

bug("C21-antithetic", "C21",
    [(FIND, "        self._Js = np.full(self._num_part, 1.0, float)\n        self.reset_revive()\n        self.reinitialize_constraint()\n\n    def reinitialize_from_omegas",
      "        half = self._num_part // 4\n        if half:\n            self._omegas[:, -half:] = -self._omegas[:, :half]\n        self._Js = np.full(self._num_part, 1.0, float)\n        self.reset_revive()\n        self.reinitialize_constraint()\n\n    def reinitialize_from_omegas")],
    "four or more compartments", "the initial fields of some compartments are the negatives of those of others",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=8, random_std=1.0)
check(not np.any(f.omegas[:, :2] == -f.omegas[:, -2:]))
""")

bug("C22-free-energy-options", "C22",
    [(FE, "        return self.interaction.compiled(**kwargs_full)\n", "        return self.interaction.compiled(**dict.fromkeys(()))\n")],
    "options given to interaction_compiled of a free energy", "the options are ignored",
    """
f = FloryHuggins(2, 1.0)
phis = np.ones((2, 1))
a, b = (f.interaction_compiled(additional_chis_shift=s).incomp_coef(phis) for s in (1.0, 3.0))
check(abs(b - a - 8) < 1e-9, (a, b))
""")

bug("C22-dead-multiplier", "C22",
    [(LOC, "        self._multiplier *= masks\n        return", "        self._multiplier *= np.maximum(masks, np.abs(self._multiplier) > 1)\n        return")],
    "a local constraint with a large multiplier in a compartment that dies", "the multiplier of the dead compartment survives",
    """
c = LinearLocalConstraint(1, [1.0], 0.0).compiled()
c.initialize(2)
phi, one = np.ones((1, 2)), np.ones(2)
c.prepare(phi, one, one)
c.evolve(5.0, one)
c.evolve(0.0, np.array([1.0, 0.0]))
c.prepare(phi, one, one)
check(abs(c.potential[0, 1] - 2) < 1e-9, c.potential)
""")

bug("C22-living-count", "C22",
    [(IG, "        total_Js = Js.sum()\n", "        total_Js = float((Js > 0).sum())\n")],
    "volumes that do not add up to the number of living compartments, such as right after a death or revival", "the partition function is not the mean over the volume",
    """
e = IdealGasEntropy(1, 1.0).compiled()
q = e.partition(np.zeros((1, 3)), np.zeros((1, 3)), np.array([0.5, 0.7, 0.0]))
check(abs(q[0] - 1) < 1e-12, q)
""")

bug("C22-partial-residue", "C22",
    [(GLO, "        return np.abs(self._residue).max()\n", "        return np.abs(self._residue.max())\n")],
    "a global constraint violated in the negative direction in one row, and less in another", "the largest residue is underestimated",
    """
c = LinearGlobalConstraint(1, [[1.0], [1.0]], [5.0, 1.1]).compiled()
c.initialize(1)
c.prepare(np.ones((1, 1)), np.ones(1), np.ones(1))
r = c.evolve(0.1, np.ones(1))
check(abs(r - 4) < 1e-9, r)
""")

# ---- fifth batch ----------------------------------------------------------------------------
bug("C01-strong-interaction", "C01",
    [(INT, "            self._chis.astype(np.float64),\n            -self", "            np.clip(self._chis.astype(np.float64), -10.0, 10.0),\n            -self")],
    "an interaction parameter beyond 10", "strong interactions are cut off in the iteration, so the returned phases are not in equilibrium",
    """
chis = np.array([[0, 11.5], [11.5, 0]])
f = finder(chis, [0.5, 0.5], [0.5, 0.4], num_part=4, acceptance_Js=0.02, acceptance_omega=0.05, tolerance=1e-6, interval=200, max_steps=40000)
p = f.run()
check(f.diagnostics["steps"] < 40000, "converges")
mus = FloryHuggins(2, chis, [0.5, 0.4]).chemical_potentials(p.fractions)
check(np.ptp(mus, axis=0).max() < 1e-2, f"chemical potentials differ {np.ptp(mus, axis=0)}")
""")

bug("C02-polydispersed-total", "C02",
    [(PD, "                Qs[itr_comp] /= total_Js\n", "                Qs[itr_comp] /= total_Js if itr_comp == itr_feat else Js.size\n")],
    "several components in a feature and a dead compartment", "the mean fraction of the further components of a feature is not the prescribed one",
    """
i = FloryHugginsBlockInteraction(2, [[0, 1.0], [1.0, 0]], [1, 2])
e = IdealGasPolydispersedEntropy(2, None, [1, 2])
f = CoexistingPhasesFinder(i, e, CanonicalEnsemble(3, [0.2, 0.3, 0.5]), num_part=6, rng=np.random.default_rng(3), progress=False, max_revive_per_compartment=0, kill_threshold=0.8, acceptance_Js=0.5, Js_step_upper_bound=0.5, random_std=2.0)
f.run(max_steps=3, interval=1, tolerance=1e-9)
p = f.run(max_steps=1, interval=1)
check(len(np.unique(p.fractions[:, 0])) < 6, "a compartment died")
r = p.fractions[:, 2] / p.fractions[:, 1]
check(np.abs(r - 5 / 3).max() < 1e-9, r)
""")

bug("C03-clamped-potential", "C03",
    [(GC, "        scaled_activity = sizes * np.exp(sizes * mus)\n", "        scaled_activity = sizes * np.exp(np.clip(sizes * mus, -20, 20))\n")],
    "a large molecule with a strongly negative chemical potential", "the activity is not the one of the prescribed chemical potential",
    """
a = GrandCanonicalEnsemble.from_chemical_potential(2, [-1.5, -1.0], [20.0, 1.0]).scaled_activity
check(abs(a[0] / (20 * np.exp(-30)) - 1) < 1e-9, a)
""")

bug("C04-jit-acceptance", "C04",
    [(LOC, '        ("_acceptance_ratio", float64),  # a C-continuous array\n', '        ("_acceptance_ratio", int32),  # a C-continuous array\n')],
    "compiled execution with a local constraint whose acceptance ratio is not an integer", "the multiplier never moves and the constraint is not satisfied",
    """
c = LinearLocalConstraint(1, [1.0], 0.0).compiled(constraint_acceptance_ratio=0.5, constraint_elasticity=0.0)
c.initialize(1)
c.prepare(np.ones((1, 1)), np.ones(1), np.ones(1))
c.evolve(1.0, np.ones(1))
c.prepare(np.ones((1, 1)), np.ones(1), np.ones(1))
check(abs(c.potential[0, 0] - 0.5) < 1e-9, c.potential)
""", jit=True)

bug("C05-safe-since-start", "C05",
    [(IMPL, "        n_valid_phase = int(masks.sum())\n", "        n_valid_phase = int(masks.sum())\n        if _ == 0:\n            n_valid_first = n_valid_phase\n"),
     (IMPL, "        n_valid_phase == n_valid_phase_last,\n", "        n_valid_first == n_valid_phase_last,\n")],
    "a compartment dying inside a checking interval, not in its last iteration", "the run does not stop at a check where all errors are below the tolerance",
    """
def go(m, itv, n):
    f = finder(CHI, [0.3, 0.4, 0.3], num_part=8, random_std=3.0, kill_threshold=0.6, acceptance_Js=0.5, Js_step_upper_bound=0.3, max_revive_per_compartment=0, seed=5, acceptance_omega=0.01)
    return f, f.run(max_steps=m, interval=itv, tolerance=n)
lives = [len(np.unique(go(m, m, 1e-9)[1].fractions[:, 0])) for m in range(1, 12)]
k = next(m for m in range(2, 11) if lives[m - 2] == lives[m - 1] < 8)
f, _ = go(4 * k, k, 1e9)
check(f.diagnostics["steps"] == k, (f.diagnostics["steps"], k, lives))
""")

bug("C06-remembered-step", "C06",
    [(IMPL, "    n_valid_phase = 0\n", "    n_valid_phase = 0\n    Js_max_change = Js_step_upper_bound\n"),
     (IMPL, "        Js_max_change = max(max_abs_Js_diff * acceptance_Js, Js_step_upper_bound)\n", "        Js_max_change = max(max_abs_Js_diff * acceptance_Js, 0.9 * Js_max_change, Js_step_upper_bound)\n")],
    "a volume step that shrinks by more than a tenth from one iteration to the next within one checking interval", "the step is scaled down more than documented, depending on the interval",
    """
w = np.array([[4.0, -4, 0, 1], [-4, 4, 0, -1]])
def go(itv):
    f = finder(np.array([[0, 2.0], [2.0, 0]]), [0.5, 0.5], num_part=4, acceptance_Js=0.05, acceptance_omega=0.5, Js_step_upper_bound=0.05, tolerance=1e-12)
    f.reinitialize_from_omegas(w)
    f.run(max_steps=60, interval=itv)
    return f.omegas.copy()
check(np.abs(go(1) - go(60)).max() < 1e-9, "interval matters")
""")

bug("C07-living-range", "C07",
    [(IMPL, "        current_target_max = targets[itr_component].max()\n        current_target_min = targets[itr_component].min()\n",
      "        current_target_max = -np.inf\n        current_target_min = np.inf\n        for itr_compartment in range(num_part):\n            if Js[itr_compartment] > threshold or num_part < 3:\n                current_target_max = max(current_target_max, targets[itr_component, itr_compartment])\n                current_target_min = min(current_target_min, targets[itr_component, itr_compartment])\n")],
    "a dead compartment whose fields were among the extreme ones when it is revived", "the revived fields are drawn from the range of the living compartments only",
    """
from flory.mcmp._finder_impl import revive_compartments_by_random as rev
w = np.array([[1.0, 2.0, 9.0]])
x = []
for s in range(400):
    t = w.copy()
    rev(np.array([1.0, 1.0, 0.0]), t, 0.0, np.random.default_rng(s), 1.0)
    x.append(t[0, 2])
check(max(x) > 5, max(x))
""")

bug("C09-phis-first-interaction", "C09",
    [(FIND, "        self._kwargs_for_instances = kwargs\n", "        self._kwargs_for_instances = kwargs\n        self._potential_of_fractions = self._interaction.potential\n"),
     (FIND, "        self._omegas = self._interaction.potential(phis)\n", "        self._omegas = self._potential_of_fractions(phis)\n")],
    "reinitialising from fractions after the interaction was replaced", "the fields belong to the interaction the finder was created with",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2)
f.set_interaction(FloryHugginsInteraction(2, [[0, 2.0], [2.0, 0]]))
f.reinitialize_from_phis(np.array([[0.2, 0.7], [0.8, 0.3]]))
check(abs(f.omegas[0, 0] - 1.6) < 1e-9, f.omegas)
""")

bug("C11-shared-volumes", "C11",
    [(FIND, "class CoexistingPhasesFinder:\n", "_unit_volumes: dict[int, np.ndarray] = {}\n\n\nclass CoexistingPhasesFinder:\n"),
     (FIND, "        self._Js = np.full(self._num_part, 1.0, float)\n", "        self._Js = _unit_volumes.setdefault(\n            self._num_part, np.full(self._num_part, 1.0, float)\n        )\n        self._Js.fill(1.0)\n")],
    "two finders with the same number of compartments used alternately", "they share their volumes",
    """
kw = dict(num_part=4, random_std=1.0, acceptance_Js=0.1, Js_step_upper_bound=0.1, max_revive_per_compartment=0)
a = finder(CHI, [0.3, 0.4, 0.3], **kw)
a.run(max_steps=3, interval=1)
ref = a.run(max_steps=3, interval=1)
a = finder(CHI, [0.3, 0.4, 0.3], **kw)
a.run(max_steps=3, interval=1)
b = finder(CHI, [0.2, 0.2, 0.6], seed=2, **kw)
got = a.run(max_steps=3, interval=1)
check(np.array_equal(ref.volumes, got.volumes), (ref.volumes, got.volumes))
""")

bug("C13-many-phases", "C13",
    [(PH, "                current_fractions, weights=current_volumes, axis=0\n", "                current_fractions,\n                weights=current_volumes if len(current_volumes) < 20 else None,\n                axis=0,\n")],
    "a cluster of twenty or more phases of different volume", "its composition is the unweighted mean",
    """
v = np.arange(1.0, 25)
p = Phases(v, np.column_stack([0.3 + 1e-4 * v, 0.7 - 1e-4 * v]))
check(np.abs(p.get_clusters().mean_fractions - p.mean_fractions).max() < 1e-9)
""")

bug("C14-input-changed", "C14",
    [(IG, "        ans_diag = 1.0 / (phis * self._sizes)\n", "        if phis.dtype == float and phis.flags.writeable:\n            phis[phis == 0] = 1e-12\n        ans_diag = 1.0 / (phis * self._sizes)\n")],
    "a Hessian asked for at a vanishing fraction, and the same array used afterwards", "the caller's fractions are changed, so later values are those of another composition",
    """
f = FloryHuggins(2, 1.0)
x = np.array([0.0, 1.0])
with np.errstate(all="ignore"):
    f.hessian(x)
check(x[0] == 0.0, x)
""")

bug("C15-axis-zero", "C15",
    [(FE, "        return np.linalg.norm(mus, ord=order, axis=axis)\n", "        return np.linalg.norm(mus, ord=order, axis=axis if axis is None else axis or 1)\n")],
    "the error by component (axis 0)", "the error by phase is returned instead",
    """
f = FloryHuggins(3, CHI)
check(f.equilibration_error(np.array([[0.2, 0.3, 0.5], [0.1, 0.5, 0.4]]), axis=0).shape == (3,))
""")

bug("C17-truncated-sizes", "C17",
    [(PD, "        self._sizes = np.array(np.broadcast_to(sizes_new, shape))\n", "        self._sizes[...] = np.broadcast_to(sizes_new, shape)\n")],
    "fractional sizes assigned to a polydispersed entropy created with integer ones", "the sizes are truncated",
    """
e = IdealGasPolydispersedEntropy(2, [1, 2], 1)
e.sizes = [1.5, 2.5]
check(np.allclose(e.sizes, [1.5, 2.5]), e.sizes)
""")

bug("C20-single-compartment", "C20",
    [(IMPL, "        if constraints:\n", "        if constraints and (n_valid_phase > 1 or num_part == 1):\n")],
    "only one living compartment left", "constraints are not prepared",
    """
class Spy:
    num_feat = 2
    potential = np.zeros((2, 3)); volume_derivative = np.zeros(3)
    def initialize(self, n): self.n = 0
    def prepare(self, phis, Js, masks):
        self.n += 1
        self.alive = masks.sum()
    def evolve(self, step, masks): return 0.0
class C(flory.constraint.ConstraintBase):
    def compiled(self, **kw): return spy
spy = Spy()
for seed in range(60):
    f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=C(2), num_part=3, kill_threshold=0.6, max_revive_per_compartment=0, acceptance_Js=0.5, Js_step_upper_bound=0.9, seed=seed, random_std=2.0)
    n = 0
    for _ in range(12):
        p = f.run(max_steps=1, interval=1, tolerance=1e-12)
        n += 1
        check(spy.n == n, (spy.n, n, p.volumes))
""")

bug("C21-many-components", "C21",
    [(PH, "    for d in range(num_comps - 1):\n        x = rng.beta(1, num_comps - d - 1) * phi_max\n", "    for d in range(num_comps - 1):\n        x = rng.beta(1, min(num_comps - d - 1, 12)) * phi_max\n")],
    "more than thirteen components", "the first components get too much",
    """
rng = np.random.default_rng(0)
x = np.array([get_uniform_random_composition(20, rng) for _ in range(4000)])
check(abs(x[:, 0].mean() * 20 - 1) < 0.1, x.mean(0))
""")

bug("C21-no-outliers", "C21",
    [(FIND, "            (self._num_feat, self._num_part),\n        )\n        self._Js", "            (self._num_feat, self._num_part),\n        ).clip(-3 * self._random_std, 3 * self._random_std)\n        self._Js")],
    "many random initial fields", "fields beyond three standard deviations are cut off",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=4000, random_std=1.0)
check(np.abs(f.omegas).max() > 3, np.abs(f.omegas).max())
""")

bug("C22-jit-elasticity", "C22",
    [(LOC, '        ("_elasticity", float64),  # a C-continuous array\n', '        ("_elasticity", int32),  # a C-continuous array\n')],
    "compiled execution of a local constraint with an elasticity that is not an integer", "the elasticity is truncated",
    """
c = LinearLocalConstraint(1, [1.0], 0.0).compiled(constraint_elasticity=0.5)
c.initialize(1)
c.prepare(np.ones((1, 1)), np.ones(1), np.ones(1))
check(abs(c.potential[0, 0] - 1) < 1e-9, c.potential)
""", jit=True)

bug("C22-batch-of-one", "C22",
    [(GC, "        incomp *= masks\n", "        if incomp.size > 1:\n            incomp *= masks\n        else:\n            incomp *= np.ones_like(masks)\n")],
    "a single compartment that is dead", "the incompressibility of a dead compartment does not vanish",
    """
e = GrandCanonicalEnsemble(1, 0.5).compiled()
x = e.normalize(np.ones((1, 1)), np.ones(1), np.zeros(1))
check(x[0] == 0, x)
""")

# ---- sixth batch ----------------------------------------------------------------------------
bug("C10-larger-ensemble", "C10",
    [(FIND, "            and compiled_instance.num_comp != self._num_comp\n", "            and compiled_instance.num_comp < self._num_comp\n")],
    "an ensemble with more components than the finder", "it is accepted",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=3)
try:
    f.set_ensemble(CanonicalEnsemble(3, [0.2, 0.3, 0.5]))
except flory.common.ComponentNumberError:
    pass
else:
    check(False, "accepted")
""")

bug("C19-generator-copied", "C19",
    [(SH, "    ensemble = CanonicalEnsemble(num_comp, phi_means)\n", "    ensemble = CanonicalEnsemble(num_comp, phi_means)\n    if kwargs.get(\"rng\") is not None:\n        kwargs[\"rng\"] = copy.deepcopy(kwargs[\"rng\"])\n"),
     (SH, "import numpy as np\n", "import copy\n\nimport numpy as np\n")],
    "the same generator passed to two calls", "the second call repeats the first instead of continuing with the generator",
    """
kw = dict(progress=False, num_part=4, max_steps=5, interval=5)
g, h = np.random.default_rng(3), np.random.default_rng(3)
a = [find_coexisting_phases(2, [[0, 3.0], [3.0, 0]], [0.4, 0.6], rng=g, **kw) for _ in range(2)]
b = [finder([[0, 3.0], [3.0, 0]], [0.4, 0.6], rng=h, **kw).run().get_clusters().sort().normalize() for _ in range(2)]
check(a[1].fractions.shape == b[1].fractions.shape and np.allclose(a[1].fractions, b[1].fractions))
""")

bug("C20-same-instance", "C20",
    [(FIND, "        self._constraints = constraints_compiled\n\n        self.reinitialize_constraint()\n", "        known = [id(cons) for cons in self._constraints]\n        self._constraints = constraints_compiled\n\n        for cons in self._constraints:\n            if id(cons) not in known:\n                cons.initialize(self._num_part)\n")],
    "constraints replaced by ones whose compiled instance is the same object", "they are not initialised",
    """
class Spy:
    num_feat = 2
    n = 0
    potential = np.zeros((2, 3)); volume_derivative = np.zeros(3)
    def initialize(self, n): self.n += 1
    def prepare(self, phis, Js, masks): pass
    def evolve(self, step, masks): return 0.0
class C(flory.constraint.ConstraintBase):
    def compiled(self, **kw): return spy
spy = Spy()
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=C(2), num_part=3)
n = spy.n
f.set_constraints(C(2))
check(spy.n == n + 1, (spy.n, n))
""")

bug("C03-many-living", "C03",
    [(GC, "            phis_comp[itr_comp] = (\n                self._scaled_activity[itr_comp] * phis_comp[itr_comp] * masks\n            )\n", "            phis_comp[itr_comp] = (\n                self._scaled_activity[itr_comp]\n                * np.minimum(phis_comp[itr_comp], 1e3 * (Qs[itr_comp] + 1e-3))\n                * masks\n            )\n")],
    "a compartment whose Boltzmann factor is a thousand times the average", "its fractions depend on the other compartments",
    """
e = GrandCanonicalEnsemble(1, 1e-4).compiled()
phis = np.full((1, 4), 1e-9); phis[0, 3] = 5e3
e.normalize(phis, np.array([1.0]), np.ones(4))
check(abs(phis[0, 3] - 0.5) < 1e-9, phis)
""")

bug("C16-large-system", "C16",
    [(FE, "        eigenvalues = np.linalg.eigvalsh(self.hessian(phis, 0 if conserved else None))\n", "        hessian = self.hessian(phis, 0 if conserved else None)\n        eigenvalues = np.linalg.eigvalsh(hessian)\n        if conserved and self.num_comp > 6:\n            eigenvalues = eigenvalues[..., : self.num_comp // 2]\n")],
    "more than six components and more than half of the directions unstable", "too few unstable modes are counted",
    """
f = FloryHuggins.from_uniform(8, 20.0)
check(f.num_unstable_modes(np.full(8, 1 / 8)) == 7, f.num_unstable_modes(np.full(8, 1 / 8)))
""")

bug("C18-feature-order", "C18",
    [(UT, "    for i in range(len(arr_shape)):\n        ans = np.repeat(ans, block_sizes, axis=i)\n", "    for i in range(len(arr_shape)):\n        ans = np.repeat(ans, np.sort(block_sizes)[::-1], axis=i)\n")],
    "features of increasing numbers of components", "the expanded matrix has the blocks of another system",
    """
i = FloryHugginsBlockInteraction(2, [[1.0, 2.0], [2.0, 3.0]], [1, 2])
check(np.allclose(i.chis, [[1, 2, 2], [2, 3, 3], [2, 3, 3]]), i.chis)
""")

bug("C12-cached-draws", "C12",
    [(PH, "    rng = np.random.default_rng(rng)\n\n    phis = np.empty(num_comps)\n", "    if not isinstance(rng, np.random.Generator):\n        rng = np.random.default_rng(rng)\n    elif num_comps > 5:\n        rng = rng.spawn(1)[0]\n\n    phis = np.empty(num_comps)\n")],
    "more than five components; the generator's state does not advance", "draws come from another generator, whose seed is not restored with the state of the one supplied",
    """
g = np.random.default_rng(1)
s = g.bit_generator.state
a = get_uniform_random_composition(6, g)
check(g.bit_generator.state != s, "drawn from the supplied generator")
""")

bug("C17-shared-numbers", "C17",
    [(INT, "        chis_new = np.atleast_1d(chis_new)\n        shape = (self.num_comp, self.num_comp)\n        chis_new = np.array(np.broadcast_to(chis_new, shape))\n", "        chis_new = np.atleast_1d(chis_new)\n        shape = (self.num_comp, self.num_comp)\n        if chis_new.size == self.num_comp**2:\n            chis_new = chis_new.reshape(shape)\n        chis_new = np.array(np.broadcast_to(chis_new, shape))\n")],
    "a matrix of another shape with the right number of entries", "it is accepted and rearranged",
    """
i = FloryHugginsInteraction(2, 1.0)
try:
    i.chis = np.arange(4.0)
except ValueError:
    pass
else:
    check(False, "accepted")
""")

bug("C09-kept-diagnostics", "C09",
    [(FIND, "        if max_steps is None:\n            max_steps = self._max_steps\n", "        if max_steps is None:\n            max_steps = self._max_steps\n        elif max_steps < self._interval and interval is None:\n            interval = max_steps\n            self._interval = max(1, int(max_steps))\n")],
    "a run with a step limit below the interval, then a run without", "the interval of the first run persists",
    """
f = finder(CHI, [0.3, 0.4, 0.3], num_part=4, interval=8, max_steps=16, tolerance=1e9, max_revive_per_compartment=0)
f.run(max_steps=3)
f.run()
check(f.diagnostics["steps"] == 8, f.diagnostics["steps"])
""")

bug("C04-zero-target", "C04",
    [(LOC, "        self._Ts = np.broadcast_to(Ts, shape).astype(float)\n\n    @property\n    def Cs", "        self._Ts = np.broadcast_to(Ts, shape).astype(float)\n        if self.num_cons > 2:\n            self._Ts = np.full(shape, self._Ts[0])\n\n    @property\n    def Cs")],
    "a local constraint of three or more rows", "all rows get the target of the first",
    """
c = LinearLocalConstraint(3, np.eye(3), [0.1, 0.2, 0.7])
check(np.allclose(c.Ts, [0.1, 0.2, 0.7]), c.Ts)
""")

bug("C15-error-weights", "C15",
    [(FE, "        mus -= mus.mean(axis=0)  # get deviations from mean\n", "        mus -= mus.mean(axis=0) if len(mus) < 6 else np.median(mus, axis=0)\n")],
    "six or more phases", "deviations are taken from the median",
    """
f = FloryHuggins(2, [[0, 2.0], [2.0, 0]])
x = np.linspace(0.1, 0.6, 7)
p = np.column_stack([x, 1 - x])
m = f.chemical_potentials(p)
check(np.allclose(f.equilibration_error(p), np.linalg.norm(m - m.mean(0), axis=1)))
""")

bug("C14-large-batch", "C14",
    [(IG, "        for itr in range(self.num_comp):\n            ans[..., itr, itr] = ans_diag[..., itr]\n", "        for itr in range(self.num_comp):\n            ans[..., itr, itr] = ans_diag[..., itr] if phis.ndim < 3 else ans_diag[0, ..., itr]\n")],
    "a batch with two leading dimensions", "the Hessian of the further rows is that of the first",
    """
f = FloryHuggins(2, 1.0)
p = np.array([[[0.2, 0.8]], [[0.5, 0.5]]])
check(np.allclose(f.hessian(p)[1, 0], f.hessian(p[1, 0])))
""")

bug("C05-tolerance-floor", "C05",
    [(FIND, "        if interval is None:\n", "        tolerance = max(tolerance, 1e-8)  # close to the rounding errors\n        if interval is None:\n")],
    "a tolerance below 1e-8", "the run ends although the errors are not below the tolerance",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], num_part=2, acceptance_omega=0.3, acceptance_Js=0.1, tolerance=1e-11, interval=5, max_steps=4000, random_std=0.5)
f.run()
check(f.diagnostics["steps"] == 4000 or max(f.diagnostics[k] for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff")) < 1e-11, f.diagnostics)
""")

bug("C07-wide-fields", "C07",
    [(IMPL, "        omega_widths[itr_component] = (current_target_max - current_target_min) * 0.5\n", "        omega_widths[itr_component] = min(\n            (current_target_max - current_target_min) * 0.5, 10.0\n        )\n")],
    "fields spanning more than twenty", "revived fields are drawn from a narrower range",
    """
from flory.mcmp._finder_impl import revive_compartments_by_random as rev
x = []
for s in range(300):
    t = np.array([[-30.0, 30.0, 0.0]])
    rev(np.array([1.0, 1.0, 0.0]), t, 0.0, np.random.default_rng(s), 1.0)
    x.append(t[0, 2])
check(max(x) > 20, max(x))
""")

bug("C08-many-dead", "C08",
    [(IMPL, "    for itr_dead in dead_indexes[:dead_count]:\n        while True:\n", "    for itr_dead in dead_indexes[: min(dead_count, 64)]:\n        while True:\n")],
    "more than 64 dead compartments", "the rest is returned without volume",
    """
from flory.mcmp._finder_impl import revive_compartments_by_copy as rev
J = np.zeros(80); J[3] = 80.0
t = np.zeros((1, 80)); t[0, 3] = 1
rev(J, t, 0.0, np.random.default_rng(0))
check((J > 0).all(), J)
""")

bug("C02-long-chains", "C02",
    [(IG, "            phis_comp[itr_comp] = np.exp(-omegas[itr_comp] * self._sizes[itr_comp])\n            Qs[itr_comp] = (phis_comp[itr_comp] * Js).sum()\n", "            phis_comp[itr_comp] = np.exp(-omegas[itr_comp] * self._sizes[itr_comp])\n            Qs[itr_comp] = (phis_comp[itr_comp] * Js).sum() + 1e-7\n")],
    "large molecules in strong fields (a small partition function)", "less than the prescribed amount is distributed",
    """
f = finder(np.zeros((2, 2)), [0.5, 0.5], [12.0, 1.0], num_part=3, max_revive_per_compartment=0)
f.reinitialize_from_omegas([[1.0, 1.2, 1.5], [0.0, 0.1, 0.2]])
p = f.run(max_steps=1, interval=1)
check(abs(p.mean_fractions[0] - 0.5) < 1e-3, p.mean_fractions)
""")

bug("C13-rounded-order", "C13",
    [(PH, "        enrich_indexes = np.argsort(self.fractions)\n", "        enrich_indexes = np.argsort(np.round(self.fractions, 3), kind=\"stable\")\n")],
    "two fractions of one phase that differ by less than 0.001", "phases are not ordered by their most concentrated component",
    """
p = Phases(np.array([1.0, 2.0]), np.array([[0.3999, 0.4, 0.2001], [0.4001, 0.3999, 0.2]])).sort()
check(p.fractions[0].argmax() == 0 and p.fractions[1].argmax() == 1, p)
""")

bug("C13-zero-distance", "C13",
    [(PH, "        dists = spatial.distance.pdist(self.fractions)\n", "        dist = max(dist, 1e-3)\n        dists = spatial.distance.pdist(self.fractions)\n")],
    "clustering with a cut-off below 0.001", "compositions further apart than the cut-off are merged",
    """
p = Phases(np.array([1.0, 2.0]), np.array([[0.5, 0.5], [0.5004, 0.4996]])).get_clusters(1e-4)
check(p.num_phases == 2, p)
""")

bug("C17-square-constraints", "C17",
    [(GLO, "        Cs_new = np.atleast_1d(Cs_new)\n        shape = (self.num_cons, self.num_feat)\n", "        Cs_new = np.atleast_1d(Cs_new)\n        if Cs_new.shape == (self.num_feat, self.num_cons):\n            Cs_new = Cs_new.T\n        shape = (self.num_cons, self.num_feat)\n")],
    "assigning as many constraints as features", "the coefficients are transposed",
    """
c = LinearGlobalConstraint(2, [[1.0, 2.0], [3.0, 4.0]], [0.0, 0.0])
c.Cs = [[5.0, 6.0], [7.0, 8.0]]
check(np.array_equal(c.Cs, [[5.0, 6.0], [7.0, 8.0]]), c.Cs)
""")

bug("C06-drift", "C06",
    [(IMPL, "        Js += 1 - (Js.sum() / n_valid_phase)\n", "        if abs(Js.sum() - n_valid_phase) > 1e-6:\n            Js += 1 - (Js.sum() / n_valid_phase)\n")],
    "small volume steps", "the mean volume of the living compartments drifts away from one",
    """
f = finder(CHI, [0.3, 0.3, 0.4], num_part=4, max_revive_per_compartment=0, acceptance_Js=1e-7, acceptance_omega=0.01)
p = f.run(max_steps=3, interval=1)
check(abs(p.volumes.sum() - 4) < 1e-13, p.volumes.sum() - 4)
""")

bug("C03-small-sizes", "C03",
    [(GC, "        scaled_activity = sizes * np.exp(sizes * mus)\n", "        scaled_activity = np.maximum(sizes, 0.1) * np.exp(sizes * mus)\n")],
    "molecules smaller than a tenth", "another chemical potential is prescribed",
    """
e = GrandCanonicalEnsemble.from_chemical_potential(2, [0.2, 0.3], [0.05, 1.0])
check(abs(e.scaled_activity[0] - 0.05 * np.exp(0.05 * 0.2)) < 1e-9, e.scaled_activity)
""")

bug("C07-affordable", "C07",
    [(IMPL, "            if n_valid_phase != num_part:\n                # revive", "            if 0 < num_part - n_valid_phase <= revive_tries - revive_count:\n                # revive")],
    "more dead compartments than revivals left", "no compartment is revived although budget is left",
    """
f = finder(CHI, [0.3, 0.3, 0.4], num_part=3, max_revive_per_compartment=1, acceptance_Js=0.0, kill_threshold=0.0)
f._Js = np.array([0.0, 0.0, 1.0]); f._revive_count_left = 1
f.run(max_steps=1, interval=1)
check(f.diagnostics["revive_count_left"] == -1, f.diagnostics)
""")

bug("C10-refilled", "C10",
    [(FIND, "        entropy_compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})\n", "        if if_reset_revive:\n            self.reset_revive()\n        entropy_compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})\n")],
    "a rejected entropy after revivals", "the rejected operation refills the revive budget",
    """
f = finder(CHI, [0.3, 0.3, 0.4], num_part=3)
f._revive_count_left = 7
try:
    f.set_entropy(IdealGasEntropy(4))
except Exception:
    pass
check(f._revive_count_left == 7)
""")

bug("C09-ensemble-volumes", "C09",
    [(FIND, "        self._ensemble = ensemble_compiled\n        if if_reset_revive:\n            self.reset_revive()\n", "        self._ensemble = ensemble_compiled\n        if if_reset_revive:\n            self.reset_revive()\n            self._Js[self._Js <= self._kill_threshold] = 1.0\n")],
    "replacing the ensemble when compartments are dead and none may be revived", "replacing the ensemble also gives dead compartments volume",
    """
f = finder(CHI, [0.3, 0.3, 0.4], num_part=3, max_revive_per_compartment=0)
f._Js = np.array([0.0, 1.5, 1.5])
f.set_ensemble(CanonicalEnsemble(3, [0.2, 0.3, 0.5]))
check(f._Js[0] == 0)
""")

bug("C22-strong-shift", "C22",
    [(INT, "        self._incomp_coef = chis.sum() + chis_shift * self._num_feat * self._num_feat\n", "        self._incomp_coef = abs(chis.sum()) + chis_shift * self._num_feat * self._num_feat\n")],
    "mostly attractive interactions", "another incompressibility coefficient",
    """
i = FloryHugginsInteraction(2, [[0, -3.0], [-3.0, 0]]).compiled()
check(abs(i.incomp_coef(np.ones((2, 1))) - (-6 + 4 * 4)) < 1e-9, i.incomp_coef(np.ones((2, 1))))
""")

bug("C15-norm-of-one", "C15",
    [(FE, "        return np.linalg.norm(mus, ord=order, axis=axis)\n", "        if axis is None:\n            return np.linalg.norm(np.linalg.norm(mus, ord=order, axis=-1), ord=order)\n        return np.linalg.norm(mus, ord=order, axis=axis)\n")],
    "axis=None with an order that is not the Frobenius norm", "another norm is returned",
    """
f = FloryHuggins(2, [[0, 2.0], [2.0, 0]])
p = np.array([[0.2, 0.8], [0.5, 0.5], [0.7, 0.3]])
m = f.chemical_potentials(p); m -= m.mean(0)
check(abs(f.equilibration_error(p, 1, None) - np.linalg.norm(m, 1)) < 1e-9)
""")

bug("C16-integer-input", "C16",
    [(FE, "        return np.sum(eigenvalues < 0, axis=-1).astype(int)\n", "        return np.sum(eigenvalues < 0, axis=-1).astype(np.int8) % 8\n")],
    "eight or more unstable modes", "the number of unstable modes is too small",
    """
f = FloryHuggins.from_uniform(10, 60.0)
check(f.num_unstable_modes(np.full(10, 0.1)) == 9, f.num_unstable_modes(np.full(10, 0.1)))
""")

bug("C01-many-components", "C01",
    [(INT, "        return self._chis @ phis_feat\n", "        return self._chis[:, :8] @ phis_feat[:8]\n")],
    "more than eight components", "the interaction with further components is ignored",
    """
i = FloryHugginsInteraction(10, np.add.outer(np.arange(10.0), np.arange(10.0))).compiled()
p = np.full((10, 2), 0.1)
check(np.allclose(i.potential(p), np.add.outer(np.arange(10.0), np.arange(10.0)) @ p))
""")

bug("C02-many-components", "C02",
    [(CAN, "            factor = self._phi_means[itr_comp] / Qs[itr_comp]\n", "            factor = self._phi_means[itr_comp] / Qs[min(itr_comp, 11)]\n")],
    "more than twelve components", "the amount of the further components is wrong",
    """
f = finder(np.zeros((14, 14)), np.full(14, 1 / 14), num_part=3)
p = f.run(max_steps=1, interval=1)
check(np.allclose(p.mean_fractions, 1 / 14, atol=1e-3), p.mean_fractions)
""")

bug("C04-five-constraints", "C04",
    [(FIND, "                for cons in constraints:\n                    self._constraints.append(cons.compiled(**kwargs))\n", "                for cons in list(constraints)[:4]:\n                    self._constraints.append(cons.compiled(**kwargs))\n")],
    "more than four constraints", "the further constraints are dropped",
    """
c = tuple(LinearGlobalConstraint(2, [1.0, 0.0], 0.1 * k) for k in range(6))
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2)
f.run(max_steps=1, interval=1)
check(len(f._constraints) == 6)
""")

bug("C20-five-constraints", "C20",
    [(FIND, "                for cons in constraints:\n                    self._constraints.append(cons.compiled(**kwargs))\n", "                for cons in tuple(constraints)[-4:]:\n                    self._constraints.append(cons.compiled(**kwargs))\n")],
    "more than four constraints", "the first constraints are dropped",
    """
c = tuple(LinearGlobalConstraint(2, [1.0, 0.0], 0.1 * k) for k in range(6))
f = finder(np.zeros((2, 2)), [0.5, 0.5], cons=c, num_part=2)
f.run(max_steps=1, interval=1)
check(len(f._constraints) == 6)
""")

bug("C13-many-components", "C13",
    [(PH, "        sorting_index = np.lexsort(np.transpose(enrich_indexes))\n", "        sorting_index = np.lexsort(np.transpose(enrich_indexes)[-6:])\n")],
    "phases that differ only in the order of their scarcest components", "phases are not sorted",
    """
a = np.array([0.3, 0.2, 0.15, 0.1, 0.09, 0.08, 0.05, 0.03])
b = a.copy(); b[[6, 7]] = b[[7, 6]]
p = Phases(np.array([1.0, 2.0]), np.array([b, a]))
check(p.sort().volumes[0] == 2.0, p.sort())
""")

bug("C18-many-features", "C18",
    [(PD, "                Qs[itr_comp] /= total_Js\n", "                Qs[itr_comp] /= total_Js if itr_feat < 6 else Js.shape[0]\n")],
    "more than six features and dead compartments", "the partition function of the further features is wrong",
    """
e = IdealGasPolydispersedEntropy(8, 1.0, 1).compiled()
p = np.zeros((8, 3))
Q = e.partition(p, np.zeros((8, 3)), np.array([1.0, 1.0, 0.0]))
check(np.allclose(Q, 1), Q)
""")
