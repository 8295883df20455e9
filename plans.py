"""What each check runs."""


def split(fam, n, shards, **kw):
    """n scenarios of a random family over several processes"""
    per = max(1, n // shards)
    return [dict(name=f"{fam.replace('.', '-')}-{kw.get('tag', '')}{k}", fam=fam, kw={"n": per, **{a: b for a, b in kw.items() if a not in ("tag", "mode", "seed")}},
                 mode=kw.get("mode", "py"), **({"seed": kw["seed"] * 1000 + k} if "seed" in kw else {})) for k in range(shards)]


def jit(r, *combos, n=12, seed=77, longs=0):
    """compiled execution: one process per combination of part types (each combination is compiled once)"""
    out = []
    for k, (feat, ens, cons) in enumerate(combos):
        out.append(dict(name=f"jit-{k}", fam="scen.steps", kw=dict(n=n, feat=feat, ens=ens, cons=cons, sim=True, deaths=None, longs=longs), seed=r.seed * 1000 + seed + k, mode="jit"))
    return out


def parts(r, n, only, **kw):
    """compiled parts called on their own"""
    return split("parts.calls", n, 1, seed=r.seed + 4, tag="p", only=only, **kw)


def crowd(r, n, shards, **kw):
    return split("scen.crowd", n, shards, seed=r.seed + 5, tag="c", **kw)


def gen_cfg(view, emit, finders=1, depth=4, shared=False):
    fs = ", ".join('"%s"' % x for x in "FG"[:finders])
    return (f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Finders = {{{fs}}} Depth = {depth} Shared = {"TRUE" if shared else "FALSE"}\n'
            + (f"VIEW {view}\n" if view else "") + f"INVARIANTS TypeOK {emit}\n")


def histories(r, name, cfg, sample, shards=7, watch=False, args=(), lean=0):
    """lean: so many of them also in compiled execution"""
    path = r.generate(name, "FinderGen", cfg, sample=sample, args=args)
    return [dict(name=f"{name}-jit", fam="scen.ops", kw=dict(file=path, watch=watch, lean=lean), seed=r.seed + 9, mode="jit")][:lean] + [dict(name=f"{name}-{k}", fam="scen.ops", kw=dict(file=path, part=k, of=shards, watch=watch), seed=r.seed) for k in range(shards)]


def walks(r, n, depth=13, finders=1, shared=False, shards=4, watch=False):
    """long random histories, from TLC's simulation mode"""
    cfg = gen_cfg("", "EmitEnd", finders, depth, shared).replace("SPECIFICATION Spec", "SPECIFICATION WalkSpec")
    return histories(r, "walk", cfg, n, shards, watch=watch, args=["-simulate", f"num={n}", "-depth", str(depth + 1), "-seed", str(1000 + r.seed)])


def kernel(deep, *invs, props=""):
    """the closed model of a run"""
    cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = {4 if deep else 3} Width = {3 if deep else 2}\nINVARIANTS {' '.join(invs)}\n"
    return [dict(model="kernel", module="KernelMC", cfg=cfg + (f"PROPERTIES {props}\n" if props else ""), workers=4 if deep else 2)]


def laws(deep, *invs):
    """laws of thermodynamics on a grid"""
    return [dict(model="thermo", module="ThermoMC", cfg=f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Fineness = {9 if deep else 6}\nINVARIANTS {' '.join(invs)}\n", workers=4 if deep else 1),
            dict(model="arithmetic", module="NumTest", cfg="INIT Init\nNEXT Next\nINVARIANTS Agree Specials\n")]


CONV = [[], [], ["glo"], ["loc"]]


def c01(r, deep):
    r.run(kernel(deep, "GibbsDuhem", "ErrorsBoundPotentials") + split("scen.conv", 3000 if deep else 300, 6, seed=r.seed, cons=CONV)
          + [dict(name="ref", fam="scen.refs", kw={})]
          + [dict(name="refj", fam="scen.refs", kw={"slow": True}, mode="jit")]
          + split("scen.conv", 12, 1, seed=r.seed + 1, tag="j0-", cons=[["loc"]], ens=["can"], feat=False, slow=True, mode="jit")
          + split("scen.conv", 12, 1, seed=r.seed + 1, tag="j1-", cons=[["glo"]], ens=["gc"], feat=True, slow=True, mode="jit")
          + split("scen.steps", 800 if deep else 80, 4, seed=r.seed))


def c02(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "MeanComposition") + split("scen.steps", 160 * m, 4, seed=r.seed, ens="can", deaths=True, tag="d") + split("scen.steps", 80 * m, 2, seed=r.seed + 1, ens="can", feat=True, deaths=None, tag="f")
          + split("scen.conv", 100 * m, 2, seed=r.seed, ens=["can"], cons=CONV)
          + parts(r, 60 * m, "ENN") + crowd(r, 8 * m, 1, ens="can") + jit(r, (False, "can", []), (True, "can", ["loc"])))


def c03(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "Prescribed") + split("scen.steps", 160 * m, 4, seed=r.seed, ens="gc", deaths=None)
          + split("scen.conv", 200 * m, 4, seed=r.seed, ens=["gc"], cons=[[]]) + split("scen.params", 160 * m, 2, seed=r.seed + 2, gc=True) + parts(r, 80 * m, "EGG")
          + jit(r, (False, "gc", []), (True, "gc", ["glo"])))


def c04(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "GlobalResidue", "GibbsDuhem") + split("scen.steps", 180 * m, 6, seed=r.seed, cons=3, deaths=None)
          + split("scen.conv", 200 * m, 4, seed=r.seed, cons=[["loc"], ["glo"], ["loc", "glo"], ["glo", "glo"], ["loc", "loc"]]) + parts(r, 80 * m, "LO")
          + jit(r, (False, "can", ["loc", "glo"]), (True, "gc", ["glo"])))


def c05(r, deep):
    m = 8 if deep else 1
    r.run(split("scen.steps", 240 * m, 6, seed=r.seed, deaths=None)
          + split("scen.conv", 100 * m, 2, seed=r.seed, cons=CONV) + split("scen.settle", 20 * m, 4, seed=r.seed)
          + [dict(name="defaults", fam="scen.defaults", kw={}, mode="jit")]
          + jit(r, (False, "can", []), (False, "gc", ["loc"]), longs=10))


def c06(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "Volumes", "StepBound", "Symmetric", "Gauge") + split("scen.steps", 320 * m, 8, seed=r.seed, deaths=None)
          + split("scen.long", 100 * m, 2, seed=r.seed) + split("scen.settle", 10 * m, 2, seed=r.seed + 3)
          + parts(r, 60 * m, "IE") + crowd(r, 8 * m, 1) + jit(r, (False, "can", []), (True, "gc", ["loc", "glo"]), longs=10))


def c07(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "Budget", "DeadEmpty", props="BudgetRule") + split("scen.steps", 320 * m, 6, seed=r.seed, deaths=True) + split("scen.steps", 150 * m, 1, seed=r.seed + 7, deaths=True, far=True, tag="far")
          + histories(r, "pairs", gen_cfg("PairView", "Emit"), 1500 if deep else 150, 2) + walks(r, 1500 if deep else 60, shards=2)
          + crowd(r, 16 * m, 2) + jit(r, (False, "can", []), (True, "gc", [])))


def c08(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "CopiesKeepMixture") + split("scen.steps", 400 * m, 8, seed=r.seed, deaths=True)
          + crowd(r, 24 * m, 2) + jit(r, (False, "can", []), (True, "gc", [])))


def c09(r, deep):
    r.run(histories(r, "pairs", gen_cfg("PairView", "Emit"), None if deep else 500, lean=600 if deep else 80)
          + walks(r, 4000 if deep else 180)
          + (histories(r, "states", gen_cfg("StateView", "Emit", depth=5), 12000) if deep else [])
          + split("scen.long", 400 if deep else 40, 1, seed=r.seed) + jit(r, (False, "can", []), n=6, longs=10) + [dict(name="defaults", fam="scen.defaults", kw={}, mode="jit")])


def c10(r, deep):
    r.run(histories(r, "rej", gen_cfg("RejView", "EmitRej", depth=5), None if deep else 700, 6, lean=600 if deep else 80) + walks(r, 2000 if deep else 100, shards=2))


def c11(r, deep):
    r.run(histories(r, "two", gen_cfg("PairView", "EmitMeddle", finders=2, shared=True, depth=5 if deep else 4), 8000 if deep else 900, 6, watch=True, lean=600 if deep else 80)
          + walks(r, 1500 if deep else 120, finders=2, shared=True, shards=2, watch=True))


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}
HOW = {
    "C22": "sequences of calls to compiled parts, without a finder, validated by TLC against the operators of module Kernel and the life cycle of constraint multipliers",
    "C21": "samples recorded from the real code validated by TLC against module Sampling, whose moments and probabilities TLC derives by enumeration (stick breaking of indivisible pieces reaches every composition equally; pairings)",
    "C01": "runs to convergence in both execution modes validated by TLC (equal chemical potentials, incompressibility, phase separation of unstable mixtures decided by Sylvester inertia)",
    "C02": "every iteration and result validated by TLC against module Kernel (mean composition)",
    "C03": "every iteration and converged result validated by TLC against module Kernel (prescribed chemical potentials)",
    "C04": "every iteration, multiplier and converged result with constraints validated by TLC against module Kernel",
    "C05": "reported errors, step counts and stopping rule recomputed by TLC from the observed iterations",
    "C06": "every observed iteration (fields, volumes, fractions, multipliers) validated by TLC against module Kernel",
    "C07": "deaths and revivals of every observed iteration validated by TLC, histories generated from FinderGen",
    "C08": "returned collections validated by TLC against the final iteration state",
    "C09": "histories of operations generated by TLC from FinderGen, replayed and validated against module Finder",
    "C10": "histories with rejected operations generated by TLC, replayed and validated against module Finder",
    "C11": "histories with shared and overwritten inputs generated by TLC, replayed and validated against module Finder",
    "C12": "pairs of executions generated by TLC from ReproGen (model of two worlds), replayed and compared",
    "C13": "sequences of operations on collections generated and model checked by TLC (PhasesGen), replayed and validated against module Phases",
    "C14": "values of the free energy functions validated by TLC against module Thermo in exact arithmetic",
    "C15": "derivatives and identities validated by TLC against module Thermo in exact arithmetic",
    "C16": "number of unstable modes validated by TLC against the Sylvester inertia of the exact Hessian",
    "C17": "construction and assignment of parameters validated by TLC against module Params",
    "C18": "feature based runs validated by TLC against module Kernel, and pairs of descriptions of the same mixture",
    "C19": "calls generated by TLC from ShortcutGen, replayed and validated against module Phases and the explicit pipeline",
    "C20": "call protocol model checked by TLC (ProtocolMC); recorded calls of user-defined parts validated against it and module Kernel",
}


def c17(r, deep):
    m = 8 if deep else 1
    r.run(split("scen.params", 560 * m, 7, seed=r.seed) + thermo(r, 160 * m, 2, what=["eval"])
          + [dict(name=f"jitpar{k}", fam="scen.params", kw=dict(n=30, feat=f, ct=c, gc=g), mode="jit") for k, (f, c, g) in enumerate([(False, "loc", True), (True, "glo", False)])])


def thermo(r, n, shards, **kw):
    js = split("thermo.mix", n, shards, seed=r.seed, **kw)
    for j in js:
        j["module"] = "ThermoTrace"
    return js


def c14(r, deep):
    r.run(laws(deep, "JacobianIsDerivative", "HessianIsDerivative", "HessianSymmetric") + thermo(r, 4000 if deep else 400, 7, what=["eval", "reject"]) + [dict(name="jit", fam="thermo.mix", kw=dict(n=40, what=["eval", "reject"]), mode="jit", module="ThermoTrace")])


def c15(r, deep):
    r.run(laws(deep, "ReducedIsDerivative", "ReducedHessian", "Euler", "ExchangeIsDifference", "GibbsDuhem") + thermo(r, 4000 if deep else 400, 7, what=["eval", "equil"]) + [dict(name="jit", fam="thermo.mix", kw=dict(n=40, what=["eval", "equil"]), mode="jit", module="ThermoTrace")])


def c16(r, deep):
    r.run(laws(deep, "HessianIsDerivative", "Inertia", "IdealStable") + thermo(r, 6000 if deep else 600, 8, what=["modes", "modes"]))


PLANS.update(C14=c14, C15=c15, C16=c16)


def c13(r, deep):
    cfg = f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 3 Cut = "1/100"\nINVARIANTS Conserves Idempotent Emit\n'
    path = r.generate("phases", "PhasesGen", cfg, sample=None if deep else 900)
    r.run([dict(name=f"ph-{k}", fam="phases.generated", kw=dict(file=path, part=k, of=8, random=10 if deep else 2), seed=r.seed, module="PhasesTrace") for k in range(8)])


PLANS.update(C13=c13)
PLANS.update(C17=c17)


def c18(r, deep):
    m = 8 if deep else 1
    r.run(kernel(deep, "Splitting") + split("scen.steps", 120 * m, 3, seed=r.seed, feat=True, deaths=None) + split("scen.splitting", 400 * m, 2, seed=r.seed)
          + split("scen.conv", 120 * m, 3, seed=r.seed, feat=True, cons=CONV) + thermo(r, 100 * m, 1, what=["eval"], kind="block", tag="b") + thermo(r, 60 * m, 1, what=["eval"], kind="blockig", tag="i")
          + parts(r, 60 * m, "IE", feat=True) + jit(r, (True, "can", []), (True, "gc", ["loc"])))


PLANS.update(C18=c18)


def c12(r, deep):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d Leaky = %s\nINVARIANTS SameView %s\n%s"
    r.model("leaky-design-fails", "ReproGen", cfg % (4, "TRUE", "", ""), workers=1, expect_error="Invariant SameView is violated")
    path = r.generate("repro", "ReproGen", cfg % (5 if deep else 4, "FALSE", "Emit", "VIEW View\n"), sample=None if deep else 1000)
    r.run([dict(name=f"tw-{k}", fam="repro.twins", kw=dict(file=path, part=k, of=7, rep=4 if deep else 1), seed=r.seed) for k in range(7)]
          + [dict(name="tw-jit", fam="repro.twins", kw=dict(file=path, part=3, of=25, lean=True), seed=r.seed, mode="jit")])


PLANS.update(C12=c12)


def c19(r, deep):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Most = %d\nINVARIANTS TypeOK Emit\n" % (3 if deep else 2)
    path = r.generate("calls", "ShortcutGen", cfg, sample=7000 if deep else 1300)
    r.run([dict(name=f"sc-{k}", fam="shortcut.calls", kw=dict(file=path, part=k, of=7), seed=r.seed, module="PhasesTrace") for k in range(7)]
          + [dict(name="sc-jit", fam="shortcut.calls", kw=dict(file=path, part=2, of=190), seed=r.seed, module="PhasesTrace", mode="jit")])


PLANS.update(C19=c19)


def c21(r, deep):
    r.run([dict(model="sampling", module="SamplingMC", cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Quanta = %d MaxParts = %d\nINVARIANTS Uniform Bounded Moments Tails Normal\n" % ((9, 6) if deep else (7, 4)), workers=2)]
          + [dict(j, module="StatTrace") for w in ("simplex", "matrices", "fields") for j in split("sampling.samples", 240 if deep else 20, 8 if deep else 2, seed=r.seed, tag=w, m=4000 if deep else 1000, what=[w])])


PLANS.update(C21=c21)


def c22(r, deep):
    r.run(split("parts.calls", 2400 if deep else 240, 6, seed=r.seed) + [dict(name="parts-jit", fam="parts.calls", kw=dict(n=600 if deep else 60), mode="jit")])


PLANS.update(C22=c22)


UCFG = 'SPECIFICATION USpec\nCHECK_DEADLOCK FALSE\nCONSTANT Props = {"C20", "C07", "C08"}\n'


def c20(r, deep):
    r.model("protocol", "ProtocolMC", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Cons = {"a", "b"} Longest = %d\nINVARIANTS OnceEach PreparedBeforeUse FractionsFirst NotUsedAfterEvolve Agrees\n' % (11 if deep else 9), workers=4)
    path = r.generate("pairs", "FinderGen", gen_cfg("PairView", "Emit"), sample=None if deep else 900)
    r.run([dict(name=f"us-{k}", fam="user.ops", kw=dict(file=path, part=k, of=6), seed=r.seed, module="UserTrace", cfg=UCFG) for k in range(6)]
          + [dict(name=f"own-{m}", fam="userjit.own", kw=dict(n=60 if deep else 20, mix=m), seed=r.seed, module="UserTrace", cfg=UCFG, mode="jit") for m in (False, True)]
          + [j for kind in ("user", "userown") for j in thermo(r, 400 if deep else 60, 1, what=["eval"], kind=kind, tag=kind)]
          + [dict(name=f"ownpy-{m}", fam="userjit.own", kw=dict(n=200 if deep else 40, mix=m), seed=r.seed + 1, module="UserTrace", cfg=UCFG) for m in (False, True)])


PLANS.update(C20=c20)
