"""The one-call shortcut against the explicit pipeline (C19)."""
import contextlib, io, json

from flo import *  # noqa
from flo import np, q, diag, flory, CLS, OPT, KW
from scen import pick, rnd_phi, rnd_sizes
from phases import show


def value(rng, o, n, nf):
    return {"num_part": lambda: int(rng.integers(4, 9)), "max": lambda: int(rng.integers(2, 700)), "tol": lambda: pick(rng, [1e-3, 1e-2, 0.3]), "interval": lambda: int(rng.integers(1, 90)),
            "std": lambda: pick(rng, [0.5, 1.5, 3.0]), "accJ": lambda: pick(rng, [1e-3, 0.01, 0.04]), "accW": lambda: pick(rng, [0.01, 0.03, 0.06]), "bound": lambda: pick(rng, [1e-4, 5e-3, 0.1]),
            "thr": lambda: pick(rng, [0.1, 0.5, 0.8]), "scaler": lambda: pick(rng, [0.2, 2.0]), "revive": lambda: pick(rng, [0, 1, 2]), "shift": lambda: pick(rng, [0.0, 1.0, 4.0]),
            "progress": lambda: True, "criterion": lambda: "standard", "ratio": lambda: pick(rng, [0.2, 3.0]), "kappa": lambda: pick(rng, [0.0, 3.0]),
            "constraints": lambda: [(pick(rng, ["loc", "glo"]), rng.normal(0, 1, nf), 0.1 * rng.normal()) for _ in range(int(rng.integers(1, 3)))]}[o]()


def calls(log, seed, file, part=0, of=1, rep=1):
    hs = [json.loads(x) for x in open(file)]
    for k, h in enumerate(hs):
        if k % of == part:
            for j in range(rep):
                one(log, np.random.default_rng([seed, k, j]), h)


def one(log, rng, h):
    log(op="reset")
    n = int(rng.integers(2, 5)) if rng.random() < 0.9 else int(rng.integers(5, 9))
    chi = rng.normal(rng.uniform(1, 4), 1.5, (n, n))
    chi = np.rint((chi + chi.T) * 256) / 512        # numbers for which symmetrising is exact
    size, phi = rnd_sizes(rng, n), rnd_phi(rng, n)
    form = h["form"]
    # what is passed, and what it means
    if form["chis"] == "scalar":
        x = pick(rng, [2.5, 3]); chi = np.full((n, n), float(x)); chis = x
    elif form["chis"] == "asymmetric":
        a = np.rint(rng.normal(0, 1, (n, n)) * 256) / 256; chis = chi + a - a.T
    elif form["chis"] == "integers":
        chi = np.triu(rng.integers(-1, 5, (n, n)), 1); chi = chi + chi.T; chis = pick(rng, [chi, chi.tolist()]); chi = chi.astype(float)
    else:
        chis = pick(rng, [chi, chi.tolist()])
    if form["sizes"] in ("omitted", "none"):
        size = np.ones(n)
    elif form["sizes"] == "scalar":
        x = pick(rng, [2, 1.5, 0.5]); size = np.full(n, float(x))
    sizes = {"omitted": None, "none": None, "scalar": None if form["sizes"] != "scalar" else x, "array": size, "list": size.tolist()}[form["sizes"]]
    if form["phi"] == "scalar":
        phi = np.full(n, 1 / n)
    phis = {"array": phi, "list": phi.tolist(), "scalar": 1 / n}[form["phi"]]
    opts = {"max": 600, "accJ": 0.02, "accW": 0.05, "bound": 0.02, "interval": 50, "num_part": 6}
    given = {o: value(rng, o, n, n) for o in sorted(h["opts"])}
    if PY is False:
        opts = {"max": 20000, "interval": 1000}
        for o in ("accJ", "accW", "interval"):
            given.pop(o, None)
    full = {**opts, **given}
    positional = bool(rng.random() < 0.5)
    sd = int(rng.integers(1 << 30))

    def args(full):
        kw = {}
        for o, v in full.items():
            if o == "constraints":
                cs = tuple(CLS[t](n, C, T) for t, C, T in v)
                kw["constraints"] = cs[0] if len(cs) == 1 and sd % 2 else cs
            elif o == "criterion":
                kw["convergence_criterion"] = v
            else:
                kw[{**OPT, **KW, "progress": "progress"}[o]] = v
        kw.setdefault("progress", False)
        return kw

    def shortcut(full, g=None):
        kw = dict(args(full), rng=np.random.default_rng(sd) if g is None else g)
        with contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            if form["sizes"] == "omitted":
                return flory.find_coexisting_phases(n, chis, phis, **kw)
            return flory.find_coexisting_phases(n, chis, phis, sizes, **kw) if positional else flory.find_coexisting_phases(num_comp=n, chis=chis, phi_means=phis, sizes=sizes, **kw)
    again = bool(rng.random() < 0.2)        # a second call with the same generator is a second finder with the same generator
    g = np.random.default_rng(sd)

    def explicit():
        with np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
            F = flory.mcmp.CoexistingPhasesFinder(CLS["fh"](n, chi), CLS["ig"](n, size), CLS["can"](n, phi), rng=g, **dict(args(full), progress=False))
            return F, F.run()
    try:
        if again:
            explicit()
        F, raw = explicit()
        if not (np.all(np.isfinite(raw.fractions)) and np.all(np.isfinite(raw.volumes))):
            return
        ref = raw.get_clusters().sort().normalize()
        d = dict(F.diagnostics)
    except Exception:  # noqa: BLE001 - what the explicit pipeline rejects is not judged here
        return
    before = [np.array(x, copy=True) if isinstance(x, np.ndarray) else json.dumps(x) for x in (chis, phis, sizes)]
    g = np.random.default_rng(sd)
    try:
        if again:
            shortcut(full, g)
        out, exc = shortcut(full, g), []
    except Exception as e:  # noqa: BLE001
        out, exc = None, names(e)
    log(op="shortcut", exc=exc, opts=h["opts"], raw=show(raw), ref=show(ref), out={} if exc else show(out), info=diag(d), outinfo=[] if exc else diag(out.info), isinfo=not exc and isinstance(out, flory.common.PhasesResult))
    if exc:
        return
    # every option passed shows: leaving it out, or giving another value, gives another outcome (for those whose effect is certain)
    sure = {"max": 1, "num_part": None, "std": None, "accJ": None, "accW": None, "shift": None, "interval": None}
    for o in given:
        if o in sure and PY:
            base = dict(full, max=4, interval=2, tol=1e-9) if o != "interval" else dict(full, max=9, tol=1e9)
            other = dict(base)
            base[o] = full[o] if o not in ("max", "interval") else {"max": 4, "interval": 2}[o]
            other[o] = {"max": 3, "num_part": full.get("num_part", 6) + 1, "std": full.get("std", 5.0) / 2, "accJ": full.get("accJ", 0) / 2, "accW": full["accW"] / 2, "shift": full.get("shift", 1.0) + 2.0, "interval": 3}[o]
            try:
                a, b = shortcut(base), shortcut(other)
            except Exception:  # noqa: BLE001
                continue
            log(op="effect", o=o, a=diag(a.info), b=diag(b.info))
    same = all((np.array_equal(b, x) if isinstance(x, np.ndarray) else b == json.dumps(x)) for b, x in zip(before, (chis, phis, sizes)))
    log(op="inputs", same=bool(same))
