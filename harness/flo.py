"""Drives the real flory through its public interface and logs what it shows.

Imported by drive.py inside a subprocess; NUMBA_DISABLE_JIT selects pure-Python execution of the
same sources ("py" mode), in which the parts handed to a finder are wrapped by recorders.
"""
import copy, inspect, json, logging, os, signal, sys

import numpy as np

sys.path.insert(0, os.environ.get("FLORY_REPO", "/repo"))
logging.disable(logging.CRITICAL)
PY = os.environ.get("NUMBA_DISABLE_JIT", "0") == "1"
import flory  # noqa: E402
from flory import *  # noqa: E402,F403
import flory.constraint, flory.ensemble, flory.entropy, flory.interaction, flory.free_energy, flory.common, flory.mcmp  # noqa


def q(x):
    """exact rational of a float, as the specification writes it"""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    if d == 1:
        return str(n)
    return f"x{n:x}p{d.bit_length() - 1}" if d.bit_length() > 63 else f"{n}/{d}"


def qa(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return q(a[()])
    return [qa(x) for x in a]


def arg(a):
    """argument with its shape"""
    a = np.asarray(a)
    return {"s": list(a.shape), "d": [q(x) for x in a.ravel()]}


class Log:
    def __init__(self, path):
        self.fh = open(path, "w")
        self.n = 0

    def __call__(self, **ev):
        self.fh.write(json.dumps(ev) + "\n")
        self.fh.flush()
        self.n += 1


class OpTimeout(Exception):
    """an operation did not come back"""


class Deadline:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*_):
            raise OpTimeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def names(exc):
    return [c.__name__ for c in type(exc).__mro__ if c is not object]


# ---- recorders (py mode) -----------------------------------------------------------------
class Rec:
    """what the parts of one finder saw, in order"""

    def __init__(self):
        self.calls = []
        self.depth = 0


def snap(x):
    return np.array(x, copy=True) if isinstance(x, np.ndarray) else x


def recording(inner, rec, tag):
    """the compiled part itself, turned into an instance of a subclass that records the calls from outside"""
    base = type(inner)
    tag = (tag, object())       # the same object may be used twice

    def wrap(name, fn):
        sig = inspect.signature(fn)

        def call(self, *a, **k):
            if rec.depth:
                return fn(self, *a, **k)
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            args = list(b.arguments.values())[1:]
            before = [snap(x) for x in args]
            rec.depth += 1
            try:
                r = fn(self, *a, **k)
            finally:
                rec.depth -= 1
            rec.calls.append((tag, name, before, [snap(x) for x in args], snap(r)))
            return r
        return call

    def attr(name, get):
        def read(self):
            v = get(self)
            if not rec.depth:
                rec.calls.append((tag, name, [], [], snap(v)))
            return v
        return property(read)

    ns = {}
    for name in dir(base):
        v = inspect.getattr_static(base, name)
        if name.startswith("_"):
            continue
        if inspect.isfunction(v):
            ns[name] = wrap(name, v)
        elif isinstance(v, property) and name in ("potential", "volume_derivative"):
            ns[name] = attr(name, v.fget)
    inner.__class__ = type(base.__name__, (base,), ns)
    return inner


def tapped(cls):
    """subclass of a parameter class whose compiled parts record into the rec of the current finder"""
    class Tap(cls):
        def compiled(self, **kw):
            c = super().compiled(**kw)
            return recording(c, CURRENT[0], self.tag) if CURRENT[0] is not None else c
    Tap.__name__ = cls.__name__
    return Tap


CURRENT = [None]
NOARG = {"s": [], "d": []}
CLS = {
    "fh": flory.interaction.FloryHugginsInteraction, "block": flory.interaction.FloryHugginsBlockInteraction,
    "ig": flory.entropy.IdealGasEntropy, "pd": flory.entropy.IdealGasPolydispersedEntropy,
    "can": flory.ensemble.CanonicalEnsemble, "gc": flory.ensemble.GrandCanonicalEnsemble,
    "no": flory.constraint.NoConstraint, "loc": flory.constraint.LinearLocalConstraint, "glo": flory.constraint.LinearGlobalConstraint,
}
TAP = {k: tapped(c) for k, c in CLS.items()}
KW = {"shift": "additional_chis_shift", "ratio": "constraint_acceptance_ratio", "kappa": "constraint_elasticity"}
DEF = dict(num_part=0, revive=16, accJ=0.0002, accW=0.002, bound=0.001, thr=0.0, scaler=1.0, max=1_000_000, tol=1e-5, interval=10_000, std=5.0)
OPT = dict(num_part="num_part", revive="max_revive_per_compartment", accJ="acceptance_Js", accW="acceptance_omega", bound="Js_step_upper_bound",
           thr="kill_threshold", scaler="revive_scaler", max="max_steps", tol="tolerance", interval="interval", std="random_std")


def shows(o, t):
    if t == "fh":
        return {"n": int(o.num_comp), "chis": qa(o.chis), "tri": qa(o.independent_entries)}
    if t == "block":
        return {"n": int(o.num_comp), "nf": int(o.num_feat), "chis": qa(o.chis), "chis_feat": qa(o.chis_feat), "per": [int(x) for x in o.num_comp_per_feat]}
    if t == "ig":
        return {"n": int(o.num_comp), "sizes": qa(o.sizes)}
    if t == "pd":
        return {"n": int(o.num_comp), "nf": int(o.num_feat), "sizes": qa(o.sizes)}
    if t == "can":
        return {"n": int(o.num_comp), "phi_means": qa(o.phi_means)}
    if t == "gc":
        return {"n": int(o.num_comp), "scaled_activity": qa(o.scaled_activity)}
    if t == "no":
        return {"nf": int(o.num_feat), "Cs": [], "Ts": []}
    return {"nf": int(o.num_feat), "Cs": qa(o.Cs), "Ts": qa(o.Ts)}


class World:
    """parameter objects, finders and results of one scenario, with logging of every operation"""

    def __init__(self, log, spy=PY, op_timeout=240 if PY else 600):
        self.log, self.spy, self.opt = log, spy and PY, op_timeout
        self.o, self.t, self.f, self.rec, self.r, self.arrs = {}, {}, {}, {}, {}, {}
        self.nres = 0
        log(op="reset")

    def guard(self, fn):
        try:
            with Deadline(self.opt):
                return fn(), []
        except OpTimeout:
            self.log(op="crash", what="operation-does-not-return")
            raise SystemExit(3)
        except Exception as e:  # noqa: BLE001 - every exception is an observation
            return None, names(e)

    # -- parameter objects
    def obj(self, o, t, keep=None, **a):
        """keep: name under which the argument arrays are watched for changes"""
        base = {"gcmu": "gc", "fhu": "fh"}.get(t, t)
        cls = (TAP if self.spy else CLS)[base]

        def s(x):
            return None if x is None else x
        if t == "fh":
            mk = lambda: cls(a["n"], a["chis"]); ar = {"n": a["n"], "chis": arg(a["chis"])}
        elif t == "fhu":
            mk = lambda: cls.from_uniform(a["n"], a["chi"], vanishing_diagonal=a["vanish"])
            ar = {"n": a["n"], "chi": q(a["chi"]), "vanish": a["vanish"]}
        elif t == "block":
            mk = lambda: cls(a["nf"], a["chis"], a["per"]); ar = {"nf": a["nf"], "chis": arg(a["chis"]), "per": np.atleast_1d(a["per"]).tolist()}
        elif t == "ig":
            mk = lambda: cls(a["n"], s(a.get("sizes"))); ar = {"n": a["n"], "sizes": NOARG if a.get("sizes") is None else arg(a["sizes"])}
        elif t == "pd":
            mk = lambda: cls(a["nf"], s(a.get("sizes")), a["per"])
            ar = {"nf": a["nf"], "sizes": NOARG if a.get("sizes") is None else arg(a["sizes"]), "per": np.atleast_1d(a["per"]).tolist()}
        elif t == "can":
            mk = lambda: cls(a["n"], s(a.get("phi"))); ar = {"n": a["n"], "phi": NOARG if a.get("phi") is None else arg(a["phi"])}
        elif t == "gc":
            mk = lambda: cls(a["n"], a["act"]); ar = {"n": a["n"], "act": arg(a["act"])}
        elif t == "gcmu":
            mk = lambda: cls.from_chemical_potential(a["n"], a["mu"], s(a.get("sizes")))
            ar = {"n": a["n"], "mu": arg(a["mu"]), "sizes": NOARG if a.get("sizes") is None else arg(a["sizes"])}
        elif t == "no":
            mk = lambda: cls(a["nf"]); ar = {"nf": a["nf"]}
        else:
            mk = lambda: cls(a["nf"], a["Cs"], a["Ts"]); ar = {"nf": a["nf"], "Cs": arg(a["Cs"]), "Ts": arg(a["Ts"])}
        for k, v in a.items():
            if isinstance(v, np.ndarray):
                self.arrs[f"{o}.{k}"] = (v, [q(x) for x in v.ravel()])
        x, exc = self.guard(mk)
        if not exc:
            self.o[o], self.t[o] = x, base
            x.tag = o
        self.log(op="obj", o=o, t=t, args=ar, exc=exc, shows={} if exc else shows(x, base))
        return not exc

    def assign(self, o, a, v):
        if isinstance(v, np.ndarray):
            self.arrs[f"{o}.{a}.set"] = (v, [q(x) for x in v.ravel()])
        _, exc = self.guard(lambda: setattr(self.o[o], a, v))
        self.log(op="assign", o=o, a=a, arg=arg(v), exc=exc, shows=shows(self.o[o], self.t[o]))

    def poke(self, o, a, i, j, x):
        """change one entry of an array handed out by the object, in place"""
        arr = getattr(self.o[o], a)
        if not arr.flags.writeable:
            return
        arr[(i, j) if arr.ndim == 2 else i] = x
        self.log(op="poke", o=o, a=a, i=i + 1, j=j + 1, x=q(arr[(i, j) if arr.ndim == 2 else i]), shows=shows(self.o[o], self.t[o]))

    def uniform(self, o, chi, vanish):
        _, exc = self.guard(lambda: self.o[o].set_uniform_chis(chi, vanishing_diagonal=vanish))
        self.log(op="uniform", o=o, chi=q(chi), vanish=vanish, exc=exc, shows=shows(self.o[o], self.t[o]))

    def random(self, o, mean, std, vanish, seed, n=None):
        """n: create the object by the factory method"""
        g = lambda: np.random.default_rng(seed)
        fh = (TAP if self.spy else CLS)["fh"]

        def make():
            self.o[o], self.t[o] = fh.from_random_normal(n, mean, std, vanishing_diagonal=vanish, rng=g()), "fh"
            self.o[o].tag = o
        made = n is not None
        _, exc = self.guard(make if made else lambda: self.o[o].set_random_chis(mean, std, vanishing_diagonal=vanish, rng=g()))
        ref = CLS["fh"](n if made else self.o[o].num_comp, 0.0)
        ref.set_random_chis(mean, std, vanishing_diagonal=vanish, rng=g())
        self.log(op="random", o=o, made=made, n=n or 0, mean=q(mean), std=q(std), vanish=vanish, exc=exc, ref=qa(ref.chis), shows={} if exc else shows(self.o[o], self.t[o]))

    def see(self):
        for o in self.o:
            self.log(op="see", o=o, shows=shows(self.o[o], self.t[o]))
        for k, (v, then) in self.arrs.items():
            self.log(op="seearr", a=k, then=then, now=[q(x) for x in v.ravel()])

    def scribble(self):
        """overwrite the arrays the user passed in"""
        for k, (v, then) in list(self.arrs.items()):
            if v.flags.writeable:
                v[...] = 7
                self.arrs[k] = (v, [q(x) for x in v.ravel()])

    # -- finders
    def w(self, f):
        try:
            return qa(np.array(self.f[f].omegas))
        except Exception:  # noqa: BLE001
            return []

    def new(self, f, i, e, n, c=(), seed=0, opts=None, kw=None, single=False, extra=None, rng=None, progress=False):
        opts, kw = opts or {}, kw or {}
        full = {**DEF, **opts}
        rec = Rec() if self.spy else None
        args = {OPT[k]: v for k, v in opts.items()}
        if args.get("num_part", 1) == 0:
            args["num_part"] = None
        kws = {KW[k]: v for k, v in kw.items()}
        cs = None if len(c) == 0 else (self.o[c[0]] if single else tuple(self.o[x] for x in c))
        CURRENT[0] = rec
        x, exc = self.guard(lambda: flory.mcmp.CoexistingPhasesFinder(
            self.o[i], self.o[e], self.o[n], cs, rng=None if seed is None else rng if rng is not None else np.random.default_rng(seed), progress=progress, **args, **kws, **(extra or {})))
        if not exc:
            self.f[f], self.rec[f] = x, rec
        self.log(op="new", f=f, i=i, e=e, n=n, c=list(c), opts={k: (v if k in ("num_part", "revive") else q(v)) for k, v in full.items()},
                 kw={k: q(v) for k, v in kw.items()}, exc=exc, w=[] if exc else self.w(f))
        return not exc

    def set(self, f, part, o, keep=False, kw=None, kwi=None, single=False, extra=None):
        kw = kw or {}
        o = [o] if isinstance(o, str) else list(o)
        CURRENT[0] = self.rec[f]
        F = self.f[f]
        kws = {KW[k]: v for k, v in kw.items()}
        kws.update(extra or {})
        if keep:
            kws["if_reset_revive"] = False
        if part == "c":
            if kwi is not None:
                ki = [{KW[k]: v for k, v in x.items()} for x in kwi]
                kws["kwargs_individual"] = ki[0] if single else tuple(ki)
            cs = None if not o else (self.o[o[0]] if single else tuple(self.o[x] for x in o))
            fn = lambda: F.set_constraints(cs, **kws)
        else:
            fn = lambda: getattr(F, {"i": "set_interaction", "e": "set_entropy", "n": "set_ensemble"}[part])(self.o[o[0]], **kws)
        _, exc = self.guard(fn)
        self.log(op="set", f=f, part=part, o=o, keep=keep, kw={k: q(v) for k, v in kw.items()}, kwi=[{k: q(v) for k, v in x.items()} for x in kwi or []], kwn=-1 if kwi is None else len(kwi), exc=exc, w=self.w(f))

    def reinit(self, f, how, a=None, scribble=False):
        F = self.f[f]
        fn = {"random": F.reinitialize_random, "omegas": lambda: F.reinitialize_from_omegas(a), "phis": lambda: F.reinitialize_from_phis(a),
              "cons": F.reinitialize_constraint, "revive": F.reset_revive}[how]
        ar = {"s": [], "d": []} if a is None else arg(a)
        _, exc = self.guard(fn)
        if scribble and isinstance(a, np.ndarray):
            a[...] = 3  # the user goes on using the array
        self.log(op="reinit", f=f, how=how, arg=ar, exc=exc, w=self.w(f))

    def run(self, f, max=None, tol=None, interval=None, keep=True, sim=False, expect="", full=True, lax=False, progress=None):
        """lax: the iteration may diverge numerically"""
        F, rec = self.f[f], self.rec[f]
        if rec is not None:
            rec.calls.clear()
        args = {}
        if max is not None: args["max_steps"] = max
        if tol is not None: args["tolerance"] = tol
        if interval is not None: args["interval"] = interval
        if progress is not None: args["progress"] = progress
        res, exc = self.guard(lambda: F.run(**args))
        steps, end, rid = [], {}, ""
        if not exc:
            d = dict(F.diagnostics)
            end = {"steps": int(d.get("steps", 0)), "left": int(d.get("revive_count_left", 0)), "e_inc": q(d.get("max_abs_incomp", "nan")),
                   "e_w": q(d.get("max_abs_omega_diff", "nan")), "e_J": q(d.get("max_abs_js_diff", "nan")), "e_con": q(d.get("max_constraint_residue", "nan")),
                   "keys": sorted(map(str, d)), "vol": qa(res.volumes), "frac": qa(res.fractions), "w": self.w(f), "diag": diag(d)}
            self.nres += 1
            rid = f"r{self.nres}"
            if keep:
                self.r[rid] = (res, F.diagnostics)
        if rec is not None and full:
            steps = observed(rec)
        self.log(op="run", f=f, args={"max": "" if max is None else q(max), "tol": "" if tol is None else q(tol), "interval": "" if interval is None else q(interval)},
                 exc=exc, steps=steps, sim=bool(sim), end=end, r=rid, expect=expect, lax=lax)
        fine = res is not None and np.all(np.isfinite(res.fractions)) and np.all(np.isfinite(res.volumes)) and np.max(np.abs(F.omegas)) < 100
        return res if fine else None

    def spoil(self):
        """the user overwrites results handed out earlier"""
        for res, d in self.r.values():
            for a in (res.volumes, res.fractions):
                if a.flags.writeable:
                    a[...] = -5
            d.clear()
        self.r.clear()

    def held(self):
        for rid, (res, d) in self.r.items():
            self.log(op="held", r=rid, vol=qa(res.volumes), frac=qa(res.fractions), diag=diag(d))


def diag(d):
    return sorted(f"{k}={q(v)}" for k, v in d.items() if k != "time")


def observed(rec):
    """iterations as seen by the parts: fields and volumes at each partition call, fractions and potentials after it"""
    out = []
    for tag, name, before, after, r in rec.calls:
        if name == "partition":
            out.append({"w": qa(before[1]), "J": qa(before[2]), "phi": [], "cpot": []})
            order, seen = [], set()
        elif name == "comp_to_feat" and out:
            out[-1]["phi"] = qa(before[1])
        elif name == "prepare" and out:
            order.append(tag)
            out[-1]["cpot"].append([])
        elif name == "potential" and out and tag in order and tag not in seen:
            seen.add(tag)
            out[-1]["cpot"][order.index(tag)] = qa(r)
    return out
