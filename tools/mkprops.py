"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, pathlib
M, F, I, E, C, N, P, FE, S = ("flory/mcmp/_finder_impl.py", "flory/mcmp/finder.py", "flory/interaction/flory_huggins.py",
    "flory/ensemble/canonical.py", "flory/constraint/linear_local.py", "flory/entropy/ideal_gas.py",
    "flory/common/phases.py", "flory/free_energy/base.py", "flory/shortcut.py")
G, CG, B, PD, U = ("flory/ensemble/grandcanonical.py", "flory/constraint/linear_global.py",
    "flory/interaction/flory_huggins_block.py", "flory/entropy/ideal_gas_polydispersed.py", "flory/common/utilities.py")
FH = "flory/free_energy/flory_huggins.py"
props = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

p("C01", "A converged run is thermodynamic phase coexistence",
  "Whenever a run reports all its convergence measures below the tolerance, all returned compartments have equal chemical potentials of every component (and hence equal osmotic pressure) up to a small multiple of that tolerance, for any interaction matrix, molecule sizes, number of components and ensemble, and also under global constraints; under a local constraint the differences are only along the constrained combination. A mixture that is locally unstable at its mean composition is not reported as a single homogeneous converged phase.",
  ["inputs", "histories", "configurations"],
  "every interaction matrix, size vector, mean composition, ensemble, constraint set, compartment number, random seed and history of reuse for which a run converges",
  "The tests check a handful of symmetric or literature systems with one seed and unit sizes; equality of the chemical potentials depends on every term of the iteration for all parameters.",
  [M, F, FE, N, I], [("multicomponent_self_consistent_metastep", M), ("convergence test in run", F), ("volume derivatives of interaction, entropy, constraints", "flory/*/")],
  [("omegas, Js", "conjugate fields and compartment volumes", M)], ["CoexistingPhasesFinder.run", "FreeEnergyBase.chemical_potentials"])
p("C02", "The canonical ensemble conserves the mean composition",
  "In the canonical ensemble, at every iteration the volume-weighted mean of the volume fractions over the living compartments equals the prescribed mean fractions, for any fields, volumes, molecule sizes, numbers of dead compartments and also for components sharing a feature. The compartments returned by a run therefore average to the prescribed mean fractions up to the last volume update, whether or not the run converged.",
  ["inputs", "histories", "configurations"], "every field/volume state reachable by any sequence of initialisations, kills, revivals and runs",
  "Tests look at the mean of a few converged results only; conservation has to hold at each of the up to millions of iterations, with dead and revived compartments, and for unconverged results.",
  [E, N, PD, M, F], [("CanonicalEnsembleCompiled.normalize", E), ("partition", N), ("volume normalisation of Js", M)],
  [("phis_comp", "fractions per compartment", M)], ["Phases.mean_fractions of the run result"])
p("C03", "The grand-canonical ensemble fixes the chemical potentials",
  "In the grand-canonical ensemble every converged compartment has the prescribed chemical potentials of all components up to one common constant (the incompressibility pressure) and the tolerance, where prescribing chemical potentials and prescribing the equivalent scaled activities give the same result for any molecule sizes. The fractions in each living compartment are, at every iteration, the scaled activity times the Boltzmann factor of the component, independent of the other compartments.",
  ["inputs", "histories", "configurations"], "every activity vector, size vector, field state and history",
  "One test uses one activity vector with unit sizes.", [G, M, F], [("GrandCanonicalEnsembleCompiled.normalize", G), ("from_chemical_potential", G)], None,
  ["CoexistingPhasesFinder.run", "GrandCanonicalEnsemble.scaled_activity"])
p("C04", "Constraints hold in every converged result",
  "When a run with constraints reports convergence, every local linear constraint holds in each returned compartment and every global linear constraint holds for the volume-weighted mean, up to the tolerance, for any number of constraints, targets, coefficients and compile options. The reported constraint residue is the largest violation over all constraints and living compartments, and vanishes identically without constraints.",
  ["inputs", "histories", "configurations"], "every set of local and global constraints on components or features, their options, and every reachable state",
  "Tests use one charge-balance example each; the Lagrange multipliers are hidden mutable state evolving over the whole history.",
  [C, CG, "flory/constraint/no.py", M, F], [("prepare/evolve of the linear constraints", C), ("max_constraint_residue", M)],
  [("_multiplier", "Lagrange multipliers", C)], ["CoexistingPhasesFinder.run", "diagnostics"])
p("C05", "Convergence reports and diagnostics are truthful",
  "After each run the diagnostics describe exactly that run: the number of iterations performed (never more than the allowed maximum, rounded up), the four errors of its last iteration as absolute maxima over living compartments, and the remaining revive budget. A run ends before its step limit only at a convergence check where all four errors are below the tolerance in force and no compartment died in the last iteration, and it always ends at the first such check.",
  ["inputs", "histories", "configurations"], "all step limits, intervals, tolerances (constructor defaults or per-run overrides) and all reachable states",
  "Tests never compare the reported errors with independently computed ones, nor count iterations.",
  [F, M], [("run: chunking, stop test, diagnostics", F), ("returned error maxima", M)],
  [("diagnostics", "report of the last run", F)], ["CoexistingPhasesFinder.diagnostics", "CoexistingPhasesFinder.run"])
p("C06", "Each iteration is the documented self-consistent update",
  "One iteration maps the fields, volumes and constraint multipliers to exactly the documented relaxation towards self-consistency: fields move by the field acceptance towards the sum of interaction potential, constraint potentials and incompressibility multiplier; volumes move by the volume acceptance against the deviation of the local free energy from its mean and keep mean one over the living compartments; multipliers move by the scaled constraint residues. All three moves of an iteration are scaled down by one common factor so that no volume step exceeds its upper bound, and splitting the same number of iterations over several runs or checking intervals does not change the trajectory.",
  ["inputs", "histories", "configurations"], "every state, interaction, entropy, ensemble, constraint tuple and iteration parameter",
  "The existing tests see only end results of long runs, in which wrong intermediate terms, scalings or masks can cancel or merely slow convergence.",
  [M, I, N, C, CG, E, G], [("multicomponent_self_consistent_metastep", M)],
  [("omegas, Js, multipliers", "iteration state", M)], ["CoexistingPhasesFinder.omegas", "CoexistingPhasesFinder.run"])
p("C07", "Compartments die, stay dead and revive by the documented rules",
  "A compartment whose relative volume does not exceed the kill threshold contributes nothing (zero volume, fractions and errors) until revived; whenever revive budget is left at the start of an iteration every dead compartment is revived with unit volume and fields drawn independently and uniformly inside the scaled range spanned by the current fields, and living compartments keep their fields. The budget is the configured number per compartment times the number of compartments, each revival costs exactly one, reviving stops once it is used up, and it is refilled only by (re)initialisation or by a reconfiguration that was not asked to keep it.",
  ["inputs", "histories", "configurations"], "all thresholds, scalers, budgets, death patterns, and histories of runs and reconfigurations",
  "Deaths are rare in the tests and the budget spans many runs; no test observes an exhausted budget or a positive kill threshold.",
  [M, F], [("revive_compartments_by_random", M), ("make_valid_compartment_masks", M), ("_revive_count_left, reset_revive", F)],
  [("revive_count_left", "remaining budget", F)], ["diagnostics['revive_count_left']", "CoexistingPhasesFinder.run"])
p("C08", "Returned compartments replace dead ones without changing the mixture",
  "The collection returned by a run has one entry per compartment, all with positive volume; living compartments keep their fractions, each dead one becomes a copy of a living compartment and shares volume with it, so that for every distinct composition the total volume, and with it the total volume and mean composition of the mixture, is unchanged. This holds for any number and pattern of dead compartments and any kill threshold, always terminates, and leaves the internal state of the finder untouched.",
  ["inputs", "histories"], "every volume vector, death pattern, threshold and random stream",
  "The unit test uses one random vector; splitting repeatedly near the threshold is only reached by particular volume patterns and random draws.",
  [M, F], [("revive_compartments_by_copy", M), ("final copies in run", F)], None, ["CoexistingPhasesFinder.run"])
p("C09", "Reconfiguring and reusing a finder has exactly the documented effect",
  "After any sequence of replacing the interaction, entropy, ensemble or constraints, reinitialising (random, from fields, from fractions) and running, the finder behaves like one whose fields, volumes, multipliers and budget were set by that sequence: replacing a part affects only that part (plus multipliers for constraints, plus the budget unless asked to keep it), reinitialising resets volumes, multipliers and budget, and otherwise a run continues from where the last one stopped. Per-run and per-call overrides never change the defaults, construction options (documented default values for those not given) are the defaults of later runs and replacements, and options are routed to the parts that accept them with redundant ones ignored.",
  ["histories", "configurations"], "all sequences of public finder operations with all option combinations",
  "Tests perform at most one reconfiguration; the effects need sequences of operations to show.",
  [F, U], [("set_*, reinitialize_*, run overrides", F), ("filter_kwargs", U)],
  [("finder state", "compiled parts, omegas, Js, multipliers, budget, defaults", F)], ["CoexistingPhasesFinder.set_*", "CoexistingPhasesFinder.reinitialize_*", "CoexistingPhasesFinder.run"])
p("C10", "Rejected operations are reported and leave the finder intact",
  "Giving a finder a part, constraint (alone or anywhere in a tuple) or field whose number of components, features or compartments does not match, or individual options that are not one set for each constraint, is rejected with the documented exception, at construction and at any later time. A rejected operation changes nothing: the finder afterwards behaves exactly as if it had never been attempted.",
  ["histories", "inputs", "fault_sequences"], "all mismatching operations at any point of any history of operations",
  "The tests only check that some mismatches raise on a fresh finder, never what the finder does afterwards.",
  [F, "flory/common/exceptions.py"], [("check_instance, check_field before assignment", F)], None, ["exceptions", "subsequent run"])
p("C11", "Finders, inputs and results do not share mutable state",
  "Once created or reconfigured, a finder owns its data: later changes to the parameter objects or arrays it was built from, and changes to results it returned, do not affect it, and it never changes them. Results and diagnostics already handed out stay as they were, and several finders built from the same objects can be used in any interleaving as if each were alone.",
  ["histories", "schedules", "programs"], "all interleavings of operations on several finders, their shared inputs and held results",
  "No test keeps a result, mutates an input or uses two finders on shared objects.",
  [F, I, B, E, G, C, CG, N], [("copies in compiled objects and of final results", "flory/*/")], None, ["public objects' attributes", "run results"])
p("C12", "Given the random generator, everything is reproducible",
  "With a supplied random generator, every random choice (initial fields, revivals, replacement of dead compartments, random interaction matrices, random compositions) is drawn from that generator only: two executions of the same sequence of operations with equally seeded generators give identical fields, results and diagnostics apart from timing. The outcome does not depend on global random state, other finders or wall-clock time.",
  ["histories", "schedules", "inputs"], "all operation sequences, seeds and surrounding activity",
  "Tests never run the same history twice; the random replacement paths are rare.",
  [F, M, I, P], [("rng passed through all random operations", F)], None, ["run results", "omegas"])
p("C13", "Operations on phase collections preserve the mixture",
  "Normalising, sorting and clustering a collection of phases keep each volume attached to its composition, conserve the mean composition (and the total volume, which normalising turns into one), keep the result type and attached information, and never modify the original collection; what is attached to one collection later does not show in another. Sorting orders phases by the index of their most concentrated component, then the next, and so on; clustering merges exactly the compositions closer than the cut-off for well separated groups, weighting by volume, and its result is sorted.",
  ["inputs", "histories"], "all collections and all compositions of the operations",
  "Tests use a few hand-made collections.", [P], [("normalize, sort, get_clusters, _copy", P)], None, ["Phases", "PhasesResult"])
p("C14", "Free energy, Jacobian and Hessian are consistent",
  "The free energy density equals the documented Flory-Huggins expression (including vanishing fractions), the Jacobian and the Hessian are its exact first and second derivatives for any molecule sizes and interactions, also when one component is eliminated by volume conservation. Results for a batch of phases of any leading shape are the results for the single phases, and invalid fractions (negative, wrong number) are rejected.",
  ["inputs", "configurations"], "all fractions, sizes, matrices, eliminated components and batch shapes",
  "The tests compare few points, mostly with unit sizes.", [FE, FH, I, N, B, PD, "flory/common/math.py"], [("free_energy_density, jacobian, hessian", FE), ("_energy/_jacobian/_hessian_impl", N)], None,
  ["FreeEnergyBase.free_energy_density", "FreeEnergyBase.jacobian", "FreeEnergyBase.hessian"])
p("C15", "Chemical potentials, pressures and equilibration errors agree",
  "Chemical potentials satisfy that their fraction-weighted sum over incompressible compositions is the free energy density and that their differences to a reference component are the exchange chemical potentials, which are the reduced Jacobian with a zero for the reference; the osmotic pressure is the negative chemical potential of the solvent. All stay finite for components of nonzero fraction when other fractions vanish, and the equilibration error is the requested norm of the deviations of the chemical potentials from their mean over the phases, zero for a single phase.",
  ["inputs", "configurations"], "all fractions (including zeros), sizes, matrices, reference components and batch shapes",
  "The tests check few symmetric points.", [FE, N], [("chemical_potentials, exchange_chemical_potentials, pressure, equilibration_error", FE)], None,
  ["FreeEnergyBase.chemical_potentials"])
p("C16", "Local stability is the signature of the Hessian",
  "The number of unstable modes of a composition is the number of negative directions of the free energy, with or without volume conservation, independent of the order of the components, and a composition is called stable exactly when that number is zero; batches are treated phase by phase.",
  ["inputs", "configurations"], "all compositions with positive fractions, sizes, matrices and batch shapes",
  "The tests check two or three points.", [FE, N, I], [("num_unstable_modes, is_stable", FE)], None, ["FreeEnergyBase.num_unstable_modes"])
p("C17", "Parameter objects hold what they were last given",
  "Constructors, setters and factory methods of interactions, entropies, ensembles, constraints and free energies store exactly the given values, broadcast from scalars or vectors and symmetrised where documented, regardless of number type and of what was stored before, and reject shapes that do not fit without changing the object. Free energies, derivatives and finders created afterwards use the current values, and random matrices are symmetric with the requested mean and spread and a vanishing diagonal when requested.",
  ["histories", "inputs"], "all sequences of construction, assignment and factory calls with all accepted shapes and number types",
  "Tests construct each object once.", [I, B, N, PD, E, G, C, CG, FH, U], [("constructors, property setters, factories", "flory/*/")], None, ["public attributes", "free energy values"])
p("C18", "Feature-based descriptions equal the expanded system",
  "A block interaction with a polydispersed entropy describes the same mixture as the plain interaction and entropy of the expanded component list: same free energy and derivatives, the same iteration when every feature has one component, and coexistence of all individual components when features hold several. Splitting a component into several identical ones inside a feature leaves fields, volumes and summed fractions of the iteration unchanged.",
  ["inputs", "configurations"], "all partitions of components into features, all sizes and matrices, all states",
  "One test compares one converged polydispersed result.", [B, PD, U, M], [("make_square_blocks", U), ("partition, comp_to_feat", PD)], None, ["CoexistingPhasesFinder.run", "FreeEnergyBase"])
p("C19", "The one-call shortcut equals the explicit pipeline",
  "The convenience function gives the same phases as building the free energy and ensemble, running a finder with the same options and clustering, sorting and normalising its result: volumes add up to one, phases are distinct and sorted, and the attached information is that run's diagnostics. Every finder option passed to it takes effect.",
  ["inputs", "configurations"], "all parameters and option combinations", "Tests call it for a few systems and look at the phase count.",
  [S, F, P], [("find_coexisting_phases", S)], None, ["find_coexisting_phases"])
p("C20", "User-defined parts are driven by the documented protocol",
  "User-defined interactions, entropies, ensembles and constraints are called as documented: constraints are initialised with the number of compartments on every (re)initialisation or replacement, and in each iteration prepared once with the current fractions, volumes and masks before their potential and volume derivative are used, then evolved once with the step actually applied to the fields. What they return (potentials, volume derivatives, coefficients, residues, partition functions) enters the iteration and the reports exactly as documented, for any number of constraints, and free energies built from user-defined interactions and entropies are the sums of what these return.",
  ["programs", "histories"], "all user-defined parts following the interface and all operation sequences",
  "No test defines its own part.", [M, F, "flory/constraint/base.py", "flory/interaction/base.py", "flory/entropy/base.py", "flory/ensemble/base.py"],
  [("prepare-access-evolve triplet", M), ("reinitialize_constraint", F)], None, ["the methods of a user-defined compiled part"])
p("C21", "Random inputs follow their documented distributions",
  "Random compositions are uniform on the simplex of fractions (non-negative, adding up to one, no component favoured), random interaction matrices are symmetric with independent normal entries of the requested mean and standard deviation (zero and one by default; a vanishing diagonal exactly when asked for), and the random fields a finder starts from, at creation and at every random reinitialisation, are independent normal numbers of standard deviation random_std (five by default), whatever the number of components, features and compartments and whether the generator is shared by all draws, seeded for each, or left out.",
  ["inputs", "configurations"], "all numbers of components, features and compartments, all means and standard deviations, all generators",
  "Tests draw once and never look at the distribution.", [P, I, FH, F], [("get_uniform_random_composition", P), ("from_random_normal, set_random_chis", I), ("reinitialize_random", F)], None,
  ["get_uniform_random_composition", "FloryHugginsInteraction.set_random_chis", "CoexistingPhasesFinder.omegas"])
p("C22", "Compiled parts compute their documented quantities on their own",
  "The compiled instances that interactions, entropies, ensembles and constraints (or a free energy) provide compute, for any fields, fractions, volumes and masks and without a finder, what their interfaces document: interaction potential, volume derivatives and incompressibility coefficient, partition functions and Boltzmann factors, fractions of features, normalised fractions and incompressibility, and for constraints the prepare-access-evolve cycle (potential and volume derivative from the multipliers accumulated since the last initialisation, dead compartments contributing nothing, the largest residue returned). They honour their options, ignore redundant ones, leave arguments documented as constant untouched and hold the values their object had when they were compiled.",
  ["inputs", "histories"], "all arguments and all sequences of calls following the interface",
  "Tests never call a compiled part.", [I, B, N, PD, E, G, C, CG, FE], [("*Compiled classes", "flory/*/"), ("interaction_compiled, entropy_compiled", FE)],
  [("multipliers and residues", "state of a compiled constraint between initialize, prepare and evolve", C)], ["methods of compiled parts"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in props))
