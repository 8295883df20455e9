"""User-defined parts (C20)."""
import importlib, json

from flo import *  # noqa
from flo import np, q, qa, diag, names, flory, OPT, DEF
from scen import pick, options, finite

B = flory


class Rec:
    def __init__(self, rng, nf, nc, npart):
        self.rng, self.nf, self.nc, self.np = rng, nf, nc, npart
        self.comps, self.inits, self.iters, self.pots, self.loose = [], [], [], [], []
        self.ids, self.inrun, self.masks = 0, False, np.ones(npart)
        self.keep, self.kept = False, {}

    def clear(self):
        self.comps, self.inits, self.iters, self.pots, self.loose = [], [], [], [], []

    def it(self):
        if not self.iters:      # a call before any partition
            self.iters.append(dict(calls=[], part=[], norm=[], feat=[], prep=[], pot=[], coef=[], ivd=[], evd=[], evol=[], gave=[]))
        return self.iters[-1]

    def call(self, m, c=""):
        self.it()["calls"].append({"m": m, "c": c})


def compiled_base(mod, name):
    """the documented base class of compiled parts"""
    try:
        return getattr(importlib.import_module(f"flory.{mod}.base"), name)
    except (ImportError, AttributeError):
        return object


def flags(m):
    return qa(np.asarray(m, float))


class Part:
    def __init__(self, R, kind, name, kw):
        self.R, self.kind, self.name = R, kind, name
        R.ids += 1
        self.id = f"{kind}{R.ids}"
        self.again(kw)

    def again(self, kw):
        self.R.comps.append(dict(k=self.kind, o=self.name, id=self.id, kw={k: q(v) for k, v in kw.items()}))
        return self


class UI(Part, compiled_base("interaction", "InteractionBaseCompiled")):
    num_feat = 0   # set per instance

    def __init__(self, R, name, kw, mode, num_feat):
        super().__init__(R, "i", name, kw)
        self.mode, self.num_feat = mode, num_feat

    def potential(self, phis_feat):
        R = self.R
        v = R.rng.normal(0, 2, (R.nf, R.np))
        d = dict(id=self.id, ff=qa(phis_feat), ret=qa(v))
        if R.inrun:
            R.call("pot"); R.it()["pot"].append(d)
        else:
            R.pots.append(d)
        return v

    def incomp_coef(self, phis_feat):
        R = self.R
        R.call("coef")
        v = float(R.rng.uniform(0.5, 5)) if self.mode == "scalar" else R.rng.uniform(0.5, 5, R.np)
        R.it()["coef"].append(dict(id=self.id, ff=qa(phis_feat), ret=[q(v)] if np.ndim(v) == 0 else qa(v)))
        return v

    def volume_derivative(self, potential, phis_feat):
        R = self.R
        R.call("ivd")
        v = R.rng.normal(0, 1, R.np)
        R.it()["ivd"].append(dict(id=self.id, pot=qa(potential), ff=qa(phis_feat), ret=qa(v)))
        return v


class UE(Part, compiled_base("entropy", "EntropyBaseCompiled")):
    num_feat = num_comp = 0   # set per instance

    def __init__(self, R, name, kw, num_comp, num_feat):
        super().__init__(R, "e", name, kw)
        self.num_comp, self.num_feat = num_comp, num_feat

    def partition(self, phis_comp, omegas, Js):
        R = self.R
        R.iters.append(dict(calls=[], part=[], norm=[], feat=[], prep=[], pot=[], coef=[], ivd=[], evd=[], evol=[], gave=[]))
        R.call("partition")
        R.masks = (np.asarray(Js) > 0).astype(float)
        phis_comp[...] = R.rng.uniform(0.1, 1, (R.nc, R.np))
        Q = R.rng.uniform(0.5, 2, R.nc)
        R.it()["part"].append(dict(id=self.id, w=qa(omegas), J=qa(Js), wrote=qa(phis_comp), ret=qa(Q)))
        return Q

    def comp_to_feat(self, phis_feat, phis_comp):
        R = self.R
        R.call("feat")
        seen = qa(phis_comp)
        phis_feat[...] = R.rng.uniform(0, 1, (R.nf, R.np)) * R.masks
        R.it()["feat"].append(dict(id=self.id, phi=seen, wrote=qa(phis_feat)))

    def volume_derivative(self, phis_comp):
        R = self.R
        R.call("evd")
        v = R.rng.normal(0, 1, R.np)
        R.it()["evd"].append(dict(id=self.id, phi=qa(phis_comp), ret=qa(v)))
        return v


class UN(Part, compiled_base("ensemble", "EnsembleBaseCompiled")):
    num_comp = 0   # set per instance

    def __init__(self, R, name, kw, num_comp):
        super().__init__(R, "n", name, kw)
        self.num_comp = num_comp

    def normalize(self, phis_comp, Qs, masks):
        R = self.R
        R.call("normalize")
        seen = qa(phis_comp)
        phis_comp[...] = R.rng.uniform(0.01, 1, (R.nc, R.np)) * R.masks
        v = R.rng.normal(0, 0.3, R.np) * R.masks
        R.it()["norm"].append(dict(id=self.id, phi=seen, Q=qa(Qs), masks=flags(masks), wrote=qa(phis_comp), ret=qa(v)))
        return v


class UC(Part, compiled_base("constraint", "ConstraintBaseCompiled")):
    num_feat = 0   # set per instance

    def __init__(self, R, name, kw, num_feat):
        super().__init__(R, "c", name, kw)
        self.num_feat = num_feat
        self._pot, self._vd = np.full((R.nf, R.np), 77.0), np.full(R.np, 77.0)

    def initialize(self, num_part):
        self.R.inits.append(dict(id=self.id, np=int(num_part)))

    def prepare(self, phis_feat, Js, masks):
        R = self.R
        R.call("prepare", self.id)
        self._pot, self._vd = R.rng.normal(0, 1, (R.nf, R.np)) * R.masks, R.rng.normal(0, 1, R.np) * R.masks
        R.it()["prep"].append(dict(id=self.id, ff=qa(phis_feat), J=qa(Js), masks=flags(masks)))
        R.it()["gave"].append(dict(id=self.id, pot=qa(self._pot), vd=qa(self._vd)))

    @property
    def potential(self):
        self.R.call("cpot", self.id)
        return self._pot.copy()

    @property
    def volume_derivative(self):
        self.R.call("cvd", self.id)
        return self._vd.copy()

    def evolve(self, step, masks):
        R = self.R
        R.call("evolve", self.id)
        v = float(R.rng.uniform(0, 2))
        R.it()["evol"].append(dict(id=self.id, step=q(step), masks=flags(masks), ret=q(v)))
        self._pot, self._vd = np.full((R.nf, R.np), 77.0), np.full(R.np, 77.0)   # what was prepared is gone
        return v


def classes(R):
    class Inter(B.interaction.InteractionBase):
        def __init__(self, name, mode, nc, nf):
            super().__init__(nc)
            self.name, self.mode, self.nf = name, mode, nf

        def _compiled_impl(self, alpha=1, shared=1):
            return UI(R, self.name, dict(alpha=alpha, shared=shared), self.mode, self.nf)

    class Entr(B.entropy.EntropyBase):
        def __init__(self, name, nc, nf):
            super().__init__(nc)
            self.name, self.nf = name, nf

        def _compiled_impl(self, beta=1, shared=1):
            return UE(R, self.name, dict(beta=beta, shared=shared), self.num_comp, self.nf)

    class Ens(B.ensemble.EnsembleBase):
        def __init__(self, name, nc):
            super().__init__(nc)
            self.name = name

        def _compiled_impl(self, shared=1):
            return UN(R, self.name, dict(shared=shared), self.num_comp)

    class Con(B.constraint.ConstraintBase):
        def __init__(self, name, nf):
            super().__init__(nf)
            self.name = name

        def _compiled_impl(self, gamma=1, shared=1):
            if R.keep and self.name in R.kept:      # nothing forbids handing out the same compiled object again
                return R.kept[self.name].again(dict(gamma=gamma, shared=shared))
            R.kept[self.name] = UC(R, self.name, dict(gamma=gamma, shared=shared), self.num_feat)
            return R.kept[self.name]
    return Inter, Entr, Ens, Con


def kws(rng):
    return {k: pick(rng, [2, 0.5, 7]) for k in ("alpha", "beta", "gamma", "shared", "nobody") if rng.random() < 0.4}


def qk(kw):
    return {k: q(v) for k, v in kw.items()}


def ops(log, seed, file, part=0, of=1):
    hs = [json.loads(x) for x in open(file)]
    for k, h in enumerate(hs):
        if k % of == part:
            history(log, np.random.default_rng([seed, k]), h)


def history(log, rng, h):
    log(op="reset")
    nc, nf = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    o = options(rng, deaths=rng.random() < 0.5, lo=1, hi=4)
    o.update(revive=int(pick(rng, [0, 1, 3])), max=int(rng.integers(2, 6)), interval=int(rng.integers(1, 4)), tol=pick(rng, [1e-5, 8.0, 50.0]))
    R = Rec(rng, nf, nc, o["num_part"])
    Inter, Entr, Ens, Con = classes(R)
    ob = {"Ia": Inter("Ia", "scalar", nc, nf), "Ib": Inter("Ib", "array", nc, nf), "Ea": Entr("Ea", nc, nf), "Eb": Entr("Eb", nc, nf), "Na": Ens("Na", nc), "Nb": Ens("Nb", nc), "Ng": Ens("Ng", nc),
          "Cl": Con("Cl", nf), "Cg": Con("Cg", nf), "Ch": Con("Ch", nf), "Ci": Con("Ci", nf), "Cj": Con("Cj", nf), "Ck": Con("Ck", nf),
          "Ix": Inter("Ix", "scalar", nc, nf + 1), "Ex": Entr("Ex", nc + 1, nf), "Ey": Entr("Ey", nc, nf + 1), "Nx": Ens("Nx", nc + 1), "Cx": Con("Cx", nf + 1)}
    F = {}
    # one constraint object of one finder at a time: then the same compiled object may serve again
    R.keep = rng.random() < 0.3 and len({x["f"] for x in h}) == 1 and all(len(set(x["a"].split(","))) == len(x["a"].split(",")) for x in h)

    def cons(cs, single):
        return None if not cs else ob[cs[0]] if single else pick(rng, [tuple, list])(ob[c] for c in cs)

    def do(fn):
        R.clear()
        R.inrun = False
        try:
            return fn(), []
        except Exception as e:  # noqa: BLE001
            return None, names(e)

    def new(f, cs):
        kw = kws(rng)
        single = len(cs) == 1 and rng.random() < 0.5
        args = {OPT[k]: v for k, v in o.items()}
        x, exc = do(lambda: flory.mcmp.CoexistingPhasesFinder(ob["Ia"], ob["Ea"], ob["Na"], cons(cs, single), rng=np.random.default_rng(int(rng.integers(1 << 30))), progress=False, **args, **kw))
        log(op="unew", f=f, i="Ia", e="Ea", n="Na", c=cs, nf=nf, nc=nc, opts={k: (v if k in ("num_part", "revive") else q(v)) for k, v in {**DEF, **o}.items()}, kw=qk(kw), exc=exc,
            comps=R.comps, inits=R.inits, w=[] if exc else qa(x.omegas))
        if not exc:
            F[f] = x

    def run(f, **over):
        R.clear()
        R.inrun = True
        args = {{"max": "max_steps", "tol": "tolerance", "interval": "interval"}[k]: v for k, v in over.items()}
        try:
            r, exc = F[f].run(**args), []
        except Exception as e:  # noqa: BLE001
            r, exc = None, names(e)
        R.inrun = False
        d = {} if exc else F[f].diagnostics
        end = {} if exc else dict(steps=int(d.get("steps", 0)), left=int(d.get("revive_count_left", 0)), e_inc=q(d.get("max_abs_incomp", "nan")), e_w=q(d.get("max_abs_omega_diff", "nan")),
                                  e_J=q(d.get("max_abs_js_diff", "nan")), e_con=q(d.get("max_constraint_residue", "nan")), vol=qa(r.volumes), frac=qa(r.fractions), w=qa(F[f].omegas))
        log(op="urun", f=f, args={k: "" if over.get(k) is None else q(over[k]) for k in ("max", "tol", "interval")}, exc=exc, iters=R.iters, inits=R.inits, end=end)
        return not exc and np.all(np.isfinite(r.fractions)) and np.all(np.isfinite(F[f].omegas))

    for op in h:
        k, f, a = op["k"], op["f"], op["a"]
        if k == "new":
            cs = [] if a == "" else a.split(",")
            if cs and rng.random() < 0.4 and not (R.keep and "Ch" in cs):
                cs = cs + ["Ch"]
                if rng.random() < 0.2:
                    cs = cs + ["Ci", "Cj", "Ck"]
            new(f, cs)
        elif f not in F:
            continue
        elif k == "newbad":
            p = dict(I=ob["Ia"], E=ob["Ea"], N=ob["Na"], C=None)
            p[a[0]] = ob[a]
            _, exc = do(lambda: flory.mcmp.CoexistingPhasesFinder(p["I"], p["E"], p["N"], p["C"], progress=False))
            log(op="ureject", what=a, exc=exc, want="ComponentNumberError" if a in ("Ex", "Nx") else "FeatureNumberError")
        elif k == "set":
            part = a[0].lower()
            kw = kws(rng)
            ex = dict(kw, **({"if_reset_revive": False} if op["keep"] else {}))
            _, exc = do(lambda: getattr(F[f], {"i": "set_interaction", "e": "set_entropy", "n": "set_ensemble"}[part])(ob[a], **ex))
            if a in ("Ix", "Ex", "Ey", "Nx"):
                log(op="ureject", what=a, exc=exc, want="ComponentNumberError" if a in ("Ex", "Nx") else "FeatureNumberError")
            else:
                log(op="uset", f=f, part=part, o=[a], keep=op["keep"], kw=qk(kw), kwi=[], exc=exc, comps=R.comps, inits=R.inits, w=qa(F[f].omegas))
        elif k == "setc":
            cs = [] if a == "" else a.split(",")
            if "Cx" in cs:
                _, exc = do(lambda: F[f].set_constraints(cons(cs, False)))
                log(op="ureject", what=a, exc=exc, want="FeatureNumberError")
                continue
            kw = kws(rng)
            single = len(cs) == 1 and rng.random() < 0.5
            kwi = [kws(rng) for _ in cs] if cs and rng.random() < 0.5 else []
            ex = dict(kw, **({"if_reset_revive": False} if op["keep"] else {}), **({"kwargs_individual": kwi[0] if single else tuple(kwi)} if kwi else {}))
            _, exc = do(lambda: F[f].set_constraints(cons(cs, single), **ex))
            log(op="uset", f=f, part="c", o=cs, keep=op["keep"], kw=qk(kw), kwi=[qk(x) for x in kwi], exc=exc, comps=R.comps, inits=R.inits, w=qa(F[f].omegas))
        elif k == "reinit":
            if a.endswith("x"):
                continue
            arr = rng.normal(0, 1, (nf, o["num_part"]))
            _, exc = do({"random": F[f].reinitialize_random, "omegas": lambda: F[f].reinitialize_from_omegas(arr), "phis": lambda: F[f].reinitialize_from_phis(arr),
                         "cons": F[f].reinitialize_constraint, "revive": F[f].reset_revive}[a])
            log(op="ureinit", f=f, how=a, arg=qa(arr), exc=exc, pots=R.pots, inits=R.inits, w=qa(F[f].omegas))
        elif k == "run":
            if not run(f, **({} if a == "" else dict(max=int(rng.integers(1, 5)), interval=int(rng.integers(1, 4)), tol=pick(rng, [1e-7, 8.0, 100.0])))):
                return
    for f in sorted(F):
        run(f)
