"""Scenarios: which operations are performed on the real flory.  Every random choice comes from the given seed."""
import json

from flo import *  # noqa: F401,F403
from flo import World, np, q, qa, diag, flory, CLS, OPT, KW


# ---- random systems -----------------------------------------------------------------------
def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def rnd_sizes(rng, n):
    if rng.random() < 0.1:      # unusual molecules
        return np.array([pick(rng, [1.0, 0.05, 12.0, 0.3, 25.0]) for _ in range(n)])
    return np.array([pick(rng, [1.0, 1.0, 2.0, 0.5, 1.7, 3.0]) for _ in range(n)])


def gen_sizes(rng, n):
    """sizes as a user may give them: for each component, one for all, or none"""
    k = rng.random()
    return rnd_sizes(rng, n) if k < 0.85 else None if k < 0.9 else pick(rng, [2.0, 1.5, 2, [2.0], np.array(0.5), np.float32(1.5)])


def rnd_phi(rng, n, zero=False):
    p = rng.dirichlet(np.ones(n) * 2)
    p = np.maximum(p, 0.02)
    if n > 1 and rng.random() < 0.08:    # a trace of one component
        p[int(rng.integers(n))] = pick(rng, [1e-4, 1e-8, 1e-14])
    if n > 1 and zero and rng.random() < 0.1:
        p[int(rng.integers(n))] = 0.0
    p = p / p.sum()
    if zero and rng.random() < 0.06:    # accepted with a warning: not adding up to one
        p = p * pick(rng, [0.5, 0.9, 1.15])
    return p


def rnd_act(rng, n):
    a = rng.uniform(0.05, 1.5, n)
    if rng.random() < 0.2:
        a[int(rng.integers(n))] = pick(rng, [0.0, 1e-9, 1e-4, 8.0])
    return a


def odd_fields(rng, nf, npt):
    """fields as a user may set them: equal compartments, opposite ones, strongly preferred components"""
    w = rng.normal(0, 1, (nf, npt))
    k = pick(rng, ["zero", "equal", "twins", "prefer", "offset", "integers", "single"])
    if k == "zero":
        w[:] = 0.0
    elif k == "equal":
        w[:] = w[:, :1]
    elif k == "twins":
        w[:, npt // 2:] = w[:, :npt - npt // 2][:, ::-1]
    elif k == "prefer":
        w[int(rng.integers(nf))] += pick(rng, [-18.0, -6.0, 12.0, 25.0])
    elif k == "offset":
        w += pick(rng, [-9.0, 7.0, 15.0])
    elif k == "integers":
        return np.rint(2 * w).astype(int)
    else:
        w[:, int(rng.integers(npt))] = pick(rng, [-8.0, 5.0, 20.0])
    return w


def rnd_chi(rng, n, scale=3.0):
    return rng.normal(rng.uniform(-1, 2), scale, (n, n))


def system(W, rng, pre="", ens=None, cons=None, feat=None, scale=3.0, maxn=4, wide=0.1, zero=False):
    """create the objects of a random system; returns names and sizes"""
    feat = rng.random() < 0.35 if feat is None else feat
    big = rng.random() < wide
    huge = big and rng.random() < 0.2
    if feat:
        nf = int(rng.integers(7, 12)) if huge else int(rng.integers(4, 7)) if big else int(rng.integers(1, 4))
        per = [int(rng.integers(1, 4)) for _ in range(nf)]
        if rng.random() < wide:
            per[int(rng.integers(nf))] = int(rng.integers(4, 8))
        if sum(per) < 2:
            per[0] = 2
        nc = sum(per)
        if rng.random() < 0.05:
            per, nc = [per[0] + 1] * nf, nf * (per[0] + 1)
        one = len(set(per)) == 1 and rng.random() < 0.5     # the same number for every feature
        W.obj(pre + "I", "block", nf=nf, chis=rnd_chi(rng, nf, scale) if rng.random() < 0.95 else 2.5, per=per[0] if one else per)
        W.obj(pre + "E", "pd", nf=nf, sizes=gen_sizes(rng, nc), per=per[0] if one else per)
    else:
        nc = nf = int(rng.integers(11, 19)) if huge else int(rng.integers(5, 11)) if big else int(rng.integers(2, maxn + 1)) if rng.random() < 0.95 else 1
        if rng.random() < 0.05:
            W.obj(pre + "I", "fhu", n=nc, chi=pick(rng, [2.5, -1, 4.0]), vanish=bool(rng.random() < 0.5))
        else:
            W.obj(pre + "I", "fh", n=nc, chis=rnd_chi(rng, nc, scale if rng.random() < 0.9 else 12.0))
        W.obj(pre + "E", "ig", n=nc, sizes=gen_sizes(rng, nc))
    ens = ens or ("can" if rng.random() < 0.7 else "gc")
    if ens == "can":
        W.obj(pre + "N", "can", n=nc, phi=rnd_phi(rng, nc, zero) if rng.random() < 0.95 else pick(rng, [None, 1 / nc]))
    elif rng.random() < 0.5:
        W.obj(pre + "N", "gc", n=nc, act=(rnd_act(rng, nc) if zero else rng.uniform(0.05, 1.5, nc)) if rng.random() < 0.9 else pick(rng, [0.3, 1, [0.7]]))
    else:
        W.obj(pre + "N", "gcmu", n=nc, mu=rng.normal(-1, pick(rng, [0.7, 0.7, 0.7, 2.5]), nc) if rng.random() < 0.85 else pick(rng, [-0.5, -1, [-0.7]]), sizes=gen_sizes(rng, nc))
    if cons is None:
        cons = int(rng.integers(0, 3))
    if isinstance(cons, int):
        if cons and rng.random() < 0.05:    # many constraints
            cons += int(rng.integers(2, 5))
        cons = [pick(rng, ["loc", "loc", "glo", "glo", "no"]) for _ in range(cons)]
    cs = []
    for c, t in enumerate(cons):
        na = int(rng.integers(1, 3)) if rng.random() < 0.9 else 4
        if t == "no":
            W.obj(f"{pre}C{c}", "no", nf=nf)
            cs.append(f"{pre}C{c}")
            continue
        one = na == 1 and rng.random() < 0.5
        W.obj(f"{pre}C{c}", t, nf=nf, Cs=rng.normal(0, 1, (na, nf) if not one else nf), Ts=rng.normal(0, 0.3, na if rng.random() < 0.85 else None))
        cs.append(f"{pre}C{c}")
    return dict(i=pre + "I", e=pre + "E", n=pre + "N", c=cs, nf=nf, nc=nc)


def options(rng, deaths=False, lo=2, hi=5, odd=0.15):
    o = dict(num_part=int(rng.integers(lo, hi + 1)), accJ=pick(rng, [2e-4, 0.02, 0.3]), accW=pick(rng, [2e-3, 0.05, 0.3]),
             bound=pick(rng, [1e-3, 0.05, 0.5]), std=pick(rng, [0.3, 1.0, 2.5]), revive=pick(rng, [0, 1, 2, 16]), scaler=pick(rng, [1.0, 0.3, 2.0]))
    if deaths:
        o.update(accJ=pick(rng, [0.3, 1.0]), bound=pick(rng, [0.5, 0.9, 2.0]), thr=pick(rng, [0.0, 0.043, 0.31, 0.71]), std=pick(rng, [1.0, 2.0, 4.0]))
        if rng.random() < 0.1:      # fields far apart, revived over all of their range
            o["std"] = pick(rng, [12.0, 25.0])
    elif rng.random() < 0.3:
        o["thr"] = pick(rng, [0.043, 0.31])
    if rng.random() < odd:      # unusual settings
        k = pick(rng, ["num_part", "num_part", "accJ", "accW", "scaler", "revive", "bound", "std", "thr"])
        if k != "num_part" or lo > 1:
            o[k] = pick(rng, dict(num_part=[1, 12, 20], accJ=[0.0, 1e-6, 2.0], accW=[0.0, 1.0], scaler=[0.0, -1.0, 10.0], revive=[5, 400], bound=[1e-8, 20.0], std=[0.0, 0.01, 7.0], thr=[0.47, 0.953])[k])
    if rng.random() < odd:      # some options left at their defaults
        for k in ("accJ", "accW", "bound", "std", "revive", "scaler", "thr"):
            if rng.random() < (0.3 if deaths else 0.6):
                o.pop(k, None)
    return o


def kwopts(rng):
    k = {}
    if rng.random() < 0.5:
        k["shift"] = pick(rng, [0.0, 0.5, 3.0])
    if rng.random() < 0.5:
        k["ratio"] = pick(rng, [0.1, 2.0, 10.0])
    if rng.random() < 0.5:
        k["kappa"] = pick(rng, [0.0, 0.3, 5.0])
    return k


def steps(log, seed, n, ens=None, cons=None, feat=None, deaths=False, sim=False, maxn=4, longs=0, far=False):
    """random systems, a few short observed runs each; cons: upper limit of their number, or the types.
    sim (compiled execution): only the result of each run is observed, the specification simulates the iterations; far: fields far apart"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log)
        s = system(W, rng, ens=ens, cons=(int(rng.integers(1, cons + 1)) if isinstance(cons, int) and cons else cons), feat=feat, maxn=maxn, zero=True)
        o = options(rng, deaths if deaths is not None else rng.random() < 0.5)
        if sim:
            o.update(revive=0)
        if far:     # fields far apart, and enough revivals to see how they are spread
            o.update(std=pick(rng, [15.0, 30.0]), revive=16, accW=pick(rng, [2e-3, 0.02]), num_part=int(rng.integers(3, 9)), scaler=pick(rng, [0.8, 1.0, 1.5]))
        tol = pick(rng, [1e-5, 1e-2, 0.1, 1.0, 30.0])
        o.update(max=int(rng.integers(2, 9)), interval=int(rng.integers(1, 6)), tol=tol)
        bars = rng.random() < 0.06
        if not W.new("F", s["i"], s["e"], s["n"], s["c"], seed=None if rng.random() < 0.03 and not sim else int(rng.integers(1 << 30)), opts=o, kw=kwopts(rng), progress=bool(bars)):
            continue
        if rng.random() < 0.2:
            W.reinit("F", "omegas", odd_fields(rng, s["nf"], o["num_part"]))
        for _ in range(int(rng.integers(1, 4))):
            a = {}
            if rng.random() < 0.5: a["max"] = pick(rng, [1, 3, 4, 6, 7, 2.5])
            if rng.random() < 0.5: a["interval"] = pick(rng, [1, 2, 3, 4, 10])
            if rng.random() < 0.4: a["tol"] = pick(rng, [1e-5, 1e-2, 0.3, 3.0, 100.0])
            if bars and rng.random() < 0.5: a["progress"] = False
            res = W.run("F", sim=sim, **a)
            if res is None:
                break
        if res is not None and rng.random() < (0.6 if deaths and not sim else 0.3):
            W.reinit("F", pick(rng, ["random", "cons", "revive"] + ["revive"] * 4 * bool(deaths and not sim)))     # compartments that stayed dead may come back
            W.run("F", sim=sim)
    if longs:
        long(log, seed + 1, longs, 2000, 30000, ens, cons, feat)


def crowd(log, seed, n, ens=None, cons=(), feat=None, sim=False):
    """many compartments, some of them dying"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log)
        s = system(W, rng, ens=ens, cons=list(cons), feat=feat, maxn=3, wide=0)
        o = dict(num_part=int(pick(rng, [40, 70, 130, 180, 260, 300])), accJ=pick(rng, [0.05, 0.3]), bound=pick(rng, [0.3, 0.9]), thr=pick(rng, [0.0, 0.31, 0.88]), std=pick(rng, [0.5, 1.0]),
                 accW=0.05, revive=0 if sim else int(pick(rng, [0, 0, 1])), max=int(rng.integers(1, 4)), interval=int(rng.integers(1, 3)))
        if W.new("F", s["i"], s["e"], s["n"], s["c"], seed=int(rng.integers(1 << 30)), opts=o, kw=kwopts(rng)):
            W.run("F", sim=sim, lax=True)


# ---- histories generated by TLC -----------------------------------------------------------
def finite(rng, shape):
    return rng.normal(0, 1.5, shape)


def ops(log, seed, file, part=0, of=1, watch=False, lean=0):
    """replay the histories that TLC generated from FinderGen: one JSON list of operations per line.
    lean (compiled execution): at most so many histories, with few combinations of types of parts (each is compiled once); the specification simulates their runs"""
    hs = [json.loads(l) for l in open(file)]
    if lean:
        few = lambda op: op["a"] not in ("Cg", "Cl,Cg", "Cg,Cl", "Cl,Cl", "Ng") or op["k"] not in ("new", "set", "setc")
        hs = [h for h in hs if all(map(few, h))][:lean * of]
    for k, h in enumerate(hs):
        if k % of == part:
            history(log, np.random.default_rng([seed, k]), h, watch, lean > 0)


def universe(W, rng, feat):
    """objects named as in FinderGen: version a and b of each part, and parts that do not fit"""
    if feat:
        nf, nc = 2, 3
        per = [[1, 2], [2, 1]]
        for v, p in zip("ab", per):
            W.obj("I" + v, "block", nf=2, chis=rnd_chi(rng, 2), per=p)
            W.obj("E" + v, "pd", nf=2, sizes=rnd_sizes(rng, 3), per=p)
        k = pick(rng, [1, 3, 3])
        if rng.random() < 0.5:      # right components, wrong features
            W.obj("Ex", "ig", n=3, sizes=rnd_sizes(rng, 3))
        else:
            W.obj("Ex", "pd", nf=k, sizes=rnd_sizes(rng, 3), per=[3 // k] * k)
        p = pick(rng, [[2, 2], [1, 1], [1, 3]])  # right features, wrong components
        W.obj("Ey", "pd", nf=2, sizes=rnd_sizes(rng, sum(p)), per=p)
    else:
        nf = nc = 3
        for v in "ab":
            W.obj("I" + v, "fh", n=3, chis=rnd_chi(rng, 3))
            W.obj("E" + v, "ig", n=3, sizes=rnd_sizes(rng, 3))
        k = pick(rng, [2, 4])
        W.obj("Ex", "ig", n=k, sizes=rnd_sizes(rng, k))
        p = pick(rng, [[2, 1], [2, 1], [1, 1, 2], [3]])
        W.obj("Ey", "pd", nf=len(p), sizes=rnd_sizes(rng, sum(p)), per=p)
    for v in "ab":
        W.obj("N" + v, "can", n=nc, phi=rnd_phi(rng, nc))
    W.obj("Ng", "gc", n=nc, act=rng.uniform(0.1, 1.0, nc))
    k = nf + pick(rng, [-1, 1])
    if rng.random() < 0.6:
        W.obj("Ix", "fh", n=k, chis=rnd_chi(rng, k))
    else:
        W.obj("Ix", "block", nf=k, chis=rnd_chi(rng, k), per=1)
    k = nf + pick(rng, [-1, 1, 1])
    t = pick(rng, ["loc", "glo", "loc", "glo", "no"])
    if t == "no":
        W.obj("Cx", "no", nf=k)
    else:
        W.obj("Cx", t, nf=k, Cs=rng.normal(0, 1, k), Ts=0.1)
    k = nc + pick(rng, [-1, 1])
    if rng.random() < 0.6:
        W.obj("Nx", "can", n=k, phi=rnd_phi(rng, k))
    else:
        W.obj("Nx", "gc", n=k, act=rng.uniform(0.1, 1.0, k))
    W.obj("Cl", "loc", nf=nf, Cs=rng.normal(0, 1, nf), Ts=rng.normal(0, 0.3))
    W.obj("Cg", "glo", nf=nf, Cs=rng.normal(0, 1, (2, nf)), Ts=rng.normal(0, 0.3, 2))
    return nf, nc


def history(log, rng, h, watch, lean=False):
    W = World(log, spy=not lean)
    feat = bool(rng.random() < 0.4) and not lean
    nf, nc = universe(W, rng, feat)
    o = options(rng, deaths=rng.random() < 0.5, lo=2, hi=4)
    o.update(revive=int(pick(rng, [0, 1, 3])), max=int(rng.integers(2, 7)), interval=int(rng.integers(1, 5)), tol=pick(rng, [1e-5, 1e-5, 0.5, 1e4]))
    if lean:
        o.update(revive=0)
    npt = o["num_part"]
    kw = kwopts(rng)
    made = set()

    def arr(bad, phis=False):
        shape = (nf, npt) if not bad else pick(rng, [(nf, npt + 1), (nf + 1, npt), (npt, nf) if npt != nf else (nf, npt - 1), (nf * npt,)])
        a = rng.normal(0, 1.5, shape)
        if phis:
            a = np.abs(a)
        if rng.random() < 0.2:
            a = np.rint(a).astype(int)
        return a

    def fin(f):
        if f not in made:
            made.add(f)
            W.new(f, "Ia", "Ea", "Na", pick(rng, [[], ["Cl"], ["Cg"], ["Cl", "Cg"]][:2 if lean else 4]), seed=int(rng.integers(1 << 30)), opts=o, kw=kw,
                  extra=pick(rng, [None, {"redundant_option": 3}]), single=False)
        return f

    for op in h:
        k, f, a = op["k"], op["f"], op["a"]
        if k == "new":
            cs = [] if a == "" else a.split(",")
            made.add(f)
            W.new(f, "Ia", "Ea", "Na", cs, seed=int(rng.integers(1 << 30)), opts=o, kw=kw, single=len(cs) == 1 and rng.random() < 0.5,
                  extra=pick(rng, [None, {"redundant_option": 3}]))
        elif k == "newbad":
            parts = dict(I="Ia", E="Ea", N="Na")
            if a[0] in parts:
                parts[a[0]] = a
            W.new(f + "x", parts["I"], parts["E"], parts["N"], [] if a[0] != "C" else pick(rng, [[a], ["Cl", a], [a, "Cg"]]), opts=o, kw=kw)
        elif k == "set":
            over = {x: y for x, y in kwopts(rng).items() if x == "shift"} if a[0] == "I" and rng.random() < 0.5 else {}
            W.set(fin(f), a[0].lower(), a, keep=op["keep"], kw=over, extra=pick(rng, [None, {"redundant_option": 3}]))
        elif k == "setc":
            cs = [] if a == "" else a.split(",")
            over = {x: y for x, y in kwopts(rng).items() if x != "shift"} if rng.random() < 0.5 else {}
            kwi = [{x: y for x, y in kwopts(rng).items() if x != "shift"} for _ in cs] if rng.random() < 0.4 and cs else None
            W.set(fin(f), "c", cs, keep=op["keep"], kw=over, kwi=kwi, single=len(cs) == 1 and rng.random() < 0.5)
        elif k == "setk":
            cs = a.split(",")
            W.set(fin(f), "c", cs, keep=op["keep"], kwi=[{x: y for x, y in kwopts(rng).items() if x != "shift"} for _ in range(len(cs) + pick(rng, [-1, 1]))])
        elif k == "reinit":
            if a in ("omegas", "phis"):
                W.reinit(fin(f), a, arr(False, a == "phis"), scribble=rng.random() < 0.7)
            elif a in ("omegasx", "phisx"):
                W.reinit(fin(f), a[:-1], arr(True, a == "phisx"))
            else:
                W.reinit(fin(f), a)
        elif k == "run":
            if W.run(fin(f), sim=lean, **({} if a == "" else {"over": dict(max=int(rng.integers(1, 7)), interval=int(rng.integers(1, 5)), tol=pick(rng, [1e-7, 0.5, 1e4]))}[a])) is None:
                return
        elif k == "assign":
            v = {"I": "chis_feat" if feat else "chis", "E": "sizes", "N": "phi_means", "C": "Ts"}[a[0]]
            cur = np.asarray(getattr(W.o[a], v if not (a == "Ng") else "scaled_activity"))
            if a == "Ng":
                v = "scaled_activity"
            new = {"chis": lambda: rnd_chi(rng, 3), "chis_feat": lambda: rnd_chi(rng, 2), "sizes": lambda: rnd_sizes(rng, nc), "phi_means": lambda: rnd_phi(rng, nc),
                   "scaled_activity": lambda: rng.uniform(0.1, 1, nc), "Ts": lambda: rng.normal(0, 0.3, cur.shape)}[v]()
            W.assign(a, v, new)
        elif k == "poke":
            v = {"I": "chis_feat" if feat else "chis", "E": "sizes", "N": "scaled_activity" if a == "Ng" else "phi_means", "C": "Ts"}[a[0]]
            if (a[0] != "N" or a == "Ng") and not (feat and a[0] == "I"):
                W.poke(a, v, 0, 1 if a[0] == "I" else 0, float(rng.uniform(0.2, 2)))
        elif k == "scribble":
            W.scribble()
        elif k == "spoil":
            W.spoil()
        if watch:
            W.see()
            W.held()
    for f in sorted(made):
        if f in W.f:
            W.run(f, sim=lean)
    if watch:
        W.see()
        W.held()


# ---- parameter objects (C17) -----------------------------------------------------------------
def dress(rng, a, exact=True):
    """the same numbers in another form; exact: the form holds them exactly"""
    a = np.asarray(a, float)
    forms = [lambda: a, lambda: a.tolist(), lambda: np.asfortranarray(a), lambda: np.repeat(a, 2, axis=-1)[..., ::2] if a.ndim else a, lambda: a[..., ::-1][..., ::-1] if a.ndim else float(a)]
    return pick(rng, forms)()


def number_form(rng, shape, lo, hi, sym=False, single=True):
    """numbers of various types that double precision represents exactly"""
    k = rng.random()
    a = rng.uniform(lo, hi, shape)
    if k < 0.25:
        a = rng.integers(int(np.ceil(lo)), int(np.floor(hi)) + 1, shape)
        a = a.astype(pick(rng, [np.int64, np.int32, np.float64])) if np.ndim(a) else int(a)
    elif k < 0.4 and single:
        a = np.asarray(a, np.float32) if np.ndim(a) else np.float32(a)
    else:
        return dress(rng, a)
    if sym and np.ndim(a) == 2 and np.shape(a)[0] == np.shape(a)[1] and getattr(a, "dtype", None) == np.float32:
        a = np.maximum(a, a.T)   # adding two single precision numbers would round
    elif sym and np.ndim(a) > 0 and getattr(a, "dtype", None) == np.float32:
        a = a.astype(float)
    return a


def shape_for(rng, full, bad):
    """a shape that fits into full, or one that does not"""
    if not bad:
        return pick(rng, [full, full, (), (1,), full[-1:]] + ([(full[0], 1), (1, full[1]), (1, 1)] if len(full) == 2 else []))
    out = [full[:-1] + (full[-1] + 1,), (full[-1] + 2,), (2,) + full, full[:-1] + (full[-1] + 3,)]
    if len(full) == 2 and full[0] > 1:
        out += [(full[0] + 1, full[1])]
    return pick(rng, out)


def params(log, seed, n, runs=True, feat=None, ct=None, gc=None):
    fx, gx = feat, gc
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log)
        feat = bool(rng.random() < 0.4) if fx is None else fx
        nf = int(rng.integers(1, 4)) if rng.random() < 0.92 else int(rng.integers(4, 8))
        per = [int(rng.integers(1, 4)) for _ in range(nf)] if feat else [1] * nf
        nc = sum(per)
        big = 40
        for k in range(2):    # construction, sometimes with arguments that do not fit
            bad = rng.random() < 0.2
            x = "" if k == 0 else "2"

            def val(full, lo, hi, sym=False, bad=bad, single=True):
                return number_form(rng, shape_for(rng, full, bad), lo, hi, sym, single)
            if k == 0:
                bad = False
            b = lambda: bad and rng.random() < 0.6
            if feat:
                p = pick(rng, [per, np.array(per), np.array(per, np.int32), tuple(per)])
                W.obj("I" + x, "block", nf=nf, chis=val((nf, nf), -3, 4, True, b()), per=p)
                W.obj("E" + x, "pd", nf=nf, sizes=val((nc,), 1, 3, bad=b()) if rng.random() < 0.9 else None, per=p)
            else:
                t = rng.random()
                if t < 0.6:
                    W.obj("I" + x, "fh", n=nc, chis=val((nc, nc), -3, 4, True, b()))
                elif t < 0.8:
                    W.obj("I" + x, "fhu", n=nc, chi=pick(rng, [2, 1.5, -3, np.float32(0.5)]), vanish=bool(rng.random() < 0.5))
                else:
                    W.random("I" + x, pick(rng, [0, 1.5, -2]), pick(rng, [1, 0.3, 0]), bool(rng.random() < 0.5), int(rng.integers(1 << 30)), n=nc)
                W.obj("E" + x, "ig", n=nc, sizes=val((nc,), 1, 3, bad=b()) if rng.random() < 0.9 else None)
            W.obj("N" + x, "can", n=nc, phi=pick(rng, [rnd_phi(rng, nc, True), None, np.float64(1 / nc), rnd_phi(rng, nc).tolist(), np.repeat(rnd_phi(rng, nc), 2)[::2], rnd_phi(rng, nc).astype(np.float32)]))
            if rng.random() < 0.5:
                W.obj("G" + x, "gc", n=nc, act=val((nc,), 1, 2, bad=b()))
            else:
                W.obj("G" + x, "gcmu", n=nc, mu=val((nc,), *pick(rng, [(-2, 1), (-2, 1), (-7, 5)]), bad=b(), single=False), sizes=val((nc,), 1, 3, bad=b(), single=False) if rng.random() < 0.8 else None)
            na = int(rng.integers(1, 3))
            W.obj("C" + x, ct or pick(rng, ["loc", "glo"]), nf=nf, Cs=val((na, nf), -2, 2, bad=b()) if rng.random() < 0.7 else val((nf,), -2, 2, bad=b()), Ts=val((1,), -1, 1, bad=b()))
        if rng.random() < 0.15:
            W.random("R", pick(rng, [0.0, 1.5, -2.0]), pick(rng, [1.0, 0.3]), bool(rng.random() < 0.5), int(rng.integers(1 << 30)), n=big)
            W.random("R", 5.0, 2.0, bool(rng.random() < 0.5), int(rng.integers(1 << 30)))
        for _ in range(int(rng.integers(2, 7))):
            o = pick(rng, [x for x in sorted(W.o) if x != "R"])
            t = W.t[o]
            bad = rng.random() < 0.3
            X = W.o[o]
            if t == "fh" and rng.random() < 0.4:
                if rng.random() < 0.5:
                    W.uniform(o, pick(rng, [2, 1.5, -3, np.float32(0.5)]), bool(rng.random() < 0.5))
                else:
                    W.random(o, pick(rng, [0, 1.5, -2]), pick(rng, [1, 0.3, 0]), bool(rng.random() < 0.5), int(rng.integers(1 << 30)))
            elif t == "fh":
                W.assign(o, "chis", number_form(rng, shape_for(rng, (nc, nc), bad), -3, 4, True))
            elif t == "block":
                W.assign(o, "chis_feat", number_form(rng, shape_for(rng, (nf, nf), bad), -3, 4, True))
            elif t in ("ig", "pd"):
                W.assign(o, "sizes", number_form(rng, shape_for(rng, (nc,), bad), 1, 3))
            elif t == "can":
                W.assign(o, "phi_means", pick(rng, [rnd_phi(rng, nc, True), np.repeat(rnd_phi(rng, nc), 2)[::2], 1 / nc, rnd_phi(rng, nc).astype(np.float32)]) if not bad else rnd_phi(rng, nc + 1 if nc > 1 else 2))
            elif t == "gc":
                W.assign(o, "scaled_activity", number_form(rng, shape_for(rng, (nc,), bad), 1, 2))
            elif rng.random() < 0.5:
                W.assign(o, "Ts", number_form(rng, shape_for(rng, (len(X.Ts),), bad), -1, 1))
            else:
                W.assign(o, "Cs", number_form(rng, shape_for(rng, (len(X.Ts), nf), bad), -2, 2))
            if rng.random() < 0.2:
                W.scribble()
            if rng.random() < 0.3:
                W.see()
        if runs and "I" in W.o and "E" in W.o:
            o = options(rng, False)
            o.update(max=2, interval=2, accW=0.05)
            g = (rng.random() < 0.4 if gx is None else gx) and "G" in W.o
            if W.new("F", "I", "E", "G" if g else "N", ["C"] if "C" in W.o and (ct or rng.random() < 0.6) else [], seed=int(rng.integers(1 << 30)), opts=o, kw=kwopts(rng)):
                W.run("F", lax=g, sim=not W.spy)
        W.see()


# ---- feature based descriptions (C18) -----------------------------------------------------------
def flatq(*arrs):
    return [q(x) for a in arrs for x in np.ravel(np.asarray(a, float))]


def finder(i, e, n, c, seed, o, kw):
    return flory.mcmp.CoexistingPhasesFinder(i, e, n, c, rng=np.random.default_rng(seed), progress=False, **{OPT[k]: v for k, v in o.items()}, **{KW[k]: v for k, v in kw.items()})


def splitting(log, seed, n):
    """the same mixture in two descriptions: plain against one component per feature, and components split into identical ones"""
    rng = np.random.default_rng(seed)
    sane = lambda F: F is None or bool(np.all(np.isfinite(F.omegas)) and np.max(np.abs(F.omegas)) < 30)     # an iteration that diverges may fail
    for _ in range(n):
        log(op="reset")
        nf = int(rng.integers(1, 4)) if rng.random() < 0.92 else int(rng.integers(4, 7))
        per = [int(rng.integers(1, 3)) for _ in range(nf)]
        nc = sum(per)
        size, chi = rnd_sizes(rng, nc), rnd_chi(rng, nf)
        k = [int(rng.integers(1, 4)) for _ in range(nc)]      # parts of each component
        share = [rng.dirichlet(np.ones(x)) for x in k]
        can = bool(rng.random() < 0.6)
        phi = rnd_phi(rng, nc) if nc > 1 else np.ones(1)
        act = rng.uniform(0.05, 1.0, nc)
        ens = lambda v: CLS["can"](len(v), v) if can else CLS["gc"](len(v), v)
        base = phi if can else act
        big = np.concatenate([b * s for b, s in zip(base, share)])
        bigsize = np.repeat(size, k)
        bigper = [sum(k[sum(per[:r]):sum(per[:r + 1])]) for r in range(nf)]
        cons = [pick(rng, ["loc", "glo"]) for _ in range(int(rng.integers(0, 3)))]
        cv = [(t, rng.normal(0, 1, (int(rng.integers(1, 3)), nf))) for t in cons]
        cv = [(t, C, rng.normal(0, 0.3, len(C))) for t, C in cv]
        mk = lambda: tuple(CLS[t](nf, C, T) for t, C, T in cv) or None
        o = options(rng, False)
        o.update(revive=0, max=int(rng.integers(1, 21)), interval=int(rng.integers(1, 7)), tol=1e-9, accW=pick(rng, [2e-3, 0.02]), accJ=pick(rng, [2e-4, 0.02]))
        kw, sd = kwopts(rng), int(rng.integers(1 << 30))
        a = b = None
        try:
            a = finder(CLS["block"](nf, chi, per), CLS["pd"](nf, size, per), ens(base), mk(), sd, o, kw)
            b = finder(CLS["block"](nf, chi, bigper), CLS["pd"](nf, bigsize, bigper), ens(big), mk(), sd, o, kw)
            ra, rb = a.run(), b.run()
        except Exception as e:  # noqa: BLE001
            if sane(a) and sane(b):
                log(op="crash", what="feature-description-runs", detail=repr(e))
            continue
        if not sane(a):
            continue
        idx = np.cumsum([0] + k)
        fb = np.stack([rb.fractions[:, idx[i]:idx[i + 1]].sum(1) for i in range(nc)], 1)
        da, db = a.diagnostics, b.diagnostics
        keys = [x for x in sorted(da) if x != "time"]
        log(op="twinnear", props=["C18"], what="splitting-a-component-changes-nothing", a=flatq(a.omegas, ra.volumes, ra.fractions, [da[x] for x in keys]),
            b=flatq(b.omegas, rb.volumes, fb, [db.get(x, np.nan) for x in keys]))
        if rng.random() < 0.5:      # plain description of the features
            s1, v1 = size[:nf], (rnd_phi(rng, nf) if nf > 1 else np.ones(1)) if can else act[:nf]
            a = b = None
            try:
                a = finder(CLS["fh"](nf, chi), CLS["ig"](nf, s1), ens(v1), mk(), sd, o, kw)
                b = finder(CLS["block"](nf, chi, 1), CLS["pd"](nf, s1, pick(rng, [1, [1] * nf])), ens(v1), mk(), sd, o, kw)
                ra, rb = a.run(), b.run()
            except Exception as e:  # noqa: BLE001
                if sane(a) and sane(b):
                    log(op="crash", what="feature-description-runs", detail=repr(e))
                continue
            if sane(a):
                da, db = a.diagnostics, b.diagnostics
                log(op="twinnear", props=["C18"], what="one-component-per-feature-is-the-plain-system", a=flatq(a.omegas, ra.volumes, ra.fractions, [da[x] for x in keys]),
                    b=flatq(b.omegas, rb.volumes, rb.fractions, [db.get(x, np.nan) for x in keys]))


# ---- long runs --------------------------------------------------------------------------------
def pieces(rng, total, most=6):
    """the same number of iterations as several runs: (iterations, checking interval dividing them)"""
    cuts = sorted(set(int(x) for x in rng.integers(1, total, int(rng.integers(0, most))))) + [total]
    out = []
    for a, b in zip([0] + cuts, cuts):
        n = b - a
        d = [x for x in range(1, min(n, 60) + 1) if n % x == 0]
        out.append((n, n // pick(rng, d)))
    return out


def long(log, seed, n, lo=200, hi=1200, ens=None, cons=None, feat=None):
    """one long run, and the same number of iterations cut into runs and checking intervals in another way"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        log(op="reset")
        W = World(lambda **k: None, spy=False)
        s = system(W, rng, ens=ens or pick(rng, ["can", "can", "gc"]), cons=pick(rng, [[], [], ["loc"], ["glo"]]) if cons is None else cons, feat=feat, scale=2.0, maxn=3, wide=0.05)
        o = options(rng, rng.random() < 0.4, lo=2, hi=6)
        o.update(revive=0, tol=1e-300, accW=pick(rng, [2e-3, 0.02, 0.05]), accJ=pick(rng, [2e-4, 0.02, 0.1]), bound=pick(rng, [1e-3, 0.05]))
        kw, sd, total = kwopts(rng), int(rng.integers(1 << 30)), int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        mk = lambda: finder(W.o[s["i"]], W.o[s["e"]], W.o[s["n"]], tuple(W.o[c] for c in s["c"]) or None, sd, o, kw)
        cut = [pieces(rng, total), pieces(rng, total)]
        try:
            with np.errstate(all="ignore"):
                fs = [mk(), mk()]
                rs = []
                for F, ps in zip(fs, cut):
                    done = 0
                    for m, itv in ps:
                        r = F.run(max_steps=m, interval=itv)
                        done += int(F.diagnostics["steps"])
                    rs.append((r, done))
        except Exception as e:  # noqa: BLE001
            if all(np.all(np.isfinite(F.omegas)) and np.max(np.abs(F.omegas)) < 30 for F in fs):
                log(op="crash", what="long-run-succeeds", detail=repr(e))
            continue
        if not all(np.all(np.isfinite(F.omegas)) and np.max(np.abs(F.omegas)) < 30 for F in fs) or len({d for _, d in rs}) > 1 and any(max(v for k, v in F.diagnostics.items() if k.startswith("max_")) < 1e-290 for F in fs):
            continue
        keys = [x for x in sorted(fs[0].diagnostics) if x not in ("time", "steps")]
        dead = len({np.asarray(x).tobytes() for x in rs[0][0].fractions}) < o["num_part"]
        a, b = [flatq([d], F.omegas, [F.diagnostics.get(x, np.nan) for x in keys], [] if dead else r.volumes, [] if dead else r.fractions) for F, (r, d) in zip(fs, rs)]
        log(op="twinnear", props=["C06", "C09", "C05"], what="cutting-a-run-changes-nothing", a=a, b=b)


def settle(log, seed, n, ens=("can", "can", "gc"), cons=((), (), ("glo",), ("loc",)), most=160):
    """converging runs, every iteration observed: the run has to end at the first converged check"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log)
        en, con = pick(rng, ens), list(pick(rng, cons))
        s = conv_system(W, rng, en, con, bool(rng.random() < 0.3))
        o = dict(num_part=int(rng.integers(2, 5)), tol=pick(rng, [1e-3, 1e-2, 0.03]), max=most, interval=pick(rng, [1, 3, 8, 20]), accJ=pick(rng, [0.02, 0.2]), accW=pick(rng, [0.1, 0.2]), bound=0.1,
                 thr=pick(rng, [0.0, 0.02]), revive=pick(rng, [0, 1, 16]), std=pick(rng, [0.5, 1.5]))
        if W.new("F", "I", "E", "N", s["cs"], seed=int(rng.integers(1 << 30)), opts=o, kw={k: v for k, v in kwopts(rng).items() if k != "ratio"}):
            W.run("F", lax=en == "gc" or len(con) > 0)

# ---- runs to convergence -------------------------------------------------------------------
def conv_system(W, rng, ens, con, feat):
    """a system that is likely to converge, often with several phases"""
    wide = 0.05
    big = rng.random() < wide
    if feat:
        nf = int(rng.integers(4, 7)) if big else int(rng.integers(1, 4))
        per = [int(rng.integers(1, 4)) for _ in range(nf)]
        if rng.random() < wide:
            per[int(rng.integers(nf))] = int(rng.integers(4, 8))
        if sum(per) < 2:
            per[0] = 2
        nc = sum(per)
    else:
        nf = nc = int(rng.integers(5, 8)) if big else int(rng.integers(2, 5))
        per = [1] * nf
    chi = rng.normal(rng.uniform(1, 4), 1.5, (nf, nf))
    chi = (chi + chi.T) / 2
    np.fill_diagonal(chi, rng.normal(0, 0.7, nf) if rng.random() < 0.5 else 0)
    size = rnd_sizes(rng, nc)
    strong = rng.random()
    if strong < 0.08:       # strong repulsion, or attraction, of small molecules
        chi = chi * rng.uniform(3, 6)
        size = size * pick(rng, [0.2, 0.5])
    elif strong < 0.15:
        chi = chi - rng.uniform(4, 15)
    phi = rnd_phi(rng, nc)
    idx = np.repeat(np.arange(nf), per)
    pf = np.array([phi[idx == r].sum() for r in range(nf)])
    if feat:
        W.obj("I", "block", nf=nf, chis=chi, per=per)
        W.obj("E", "pd", nf=nf, sizes=size, per=per)
    else:
        W.obj("I", "fh", n=nc, chis=chi)
        W.obj("E", "ig", n=nc, sizes=size)
    if ens == "can":
        W.obj("N", "can", n=nc, phi=phi)
    elif rng.random() < 0.5:
        W.obj("N", "gc", n=nc, act=phi * np.exp(size * (chi @ pf)[idx]))
    else:  # the same prescribed by chemical potentials
        W.obj("N", "gcmu", n=nc, mu=(chi @ pf)[idx] + np.log(phi / size) / size, sizes=size)
    cs = []
    for c, t in enumerate(con):
        na = 1 if t == "loc" else int(rng.integers(1, min(nf, 2) + 1))
        C = rng.normal(0, 1, (na, nf))
        T = C @ pf
        if ens == "gc" and t == "glo":
            T = T + rng.normal(0, 0.05, na)
        W.obj(f"C{c}", t, nf=nf, Cs=C if na > 1 or rng.random() < 0.5 else C[0], Ts=T if na > 1 or rng.random() < 0.5 else float(T[0]))
        cs.append(f"C{c}")
    return dict(nf=nf, nc=nc, cs=cs)


def conv(log, seed, n, ens=("can", "gc"), cons=((),), feat=None, slow=False, sims=0):
    """converging runs; slow: default acceptances (compiled execution)"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log, spy=False)
        con = pick(rng, cons)
        en = pick(rng, ens)
        lax = en == "gc" or len(con) > 0
        s = conv_system(W, rng, en, con, bool(rng.random() < 0.35) if feat is None else feat)
        tol = pick(rng, [1e-5, 1e-5, 1e-4, 1e-3])
        if slow:
            o = dict(num_part=pick(rng, [0, 8, 16]), tol=tol, max=200000, interval=pick(rng, [500, 1000, 10000]))
        else:
            o = dict(num_part=int(rng.integers(3, 9)), tol=tol, max=2000, interval=pick(rng, [50, 100, 300]), accJ=0.02, accW=0.05, bound=pick(rng, [0.01, 0.05]), thr=pick(rng, [0.0, 0.0, 0.02]))
        o["std"] = 1.0 if en == "gc" else pick(rng, [2.0, 5.0])
        if not W.new("F", "I", "E", "N", s["cs"], seed=int(rng.integers(1 << 30)), opts=o, kw={} if slow else {k: v for k, v in kwopts(rng).items() if k != "ratio"}):
            continue
        W.run("F", lax=lax)
        if rng.random() < 0.3:
            W.run("F", tol=tol / 2, lax=lax)  # continue with a smaller tolerance


REFS = [  # chi matrix, sizes, mean fractions; all unstable at the mean
    ([[0, 4], [4, 0]], [1, 1], [0.5, 0.5]),
    ([[0, 3], [3, 0]], [1, 1], [0.35, 0.65]),
    ([[0, 3], [3, 0]], [2, 1], [0.3, 0.7]),
    ([[-1, 1.5], [1.5, 0]], [1, 3], [0.4, 0.6]),
    ([[0, 4, 4], [4, 0, 4], [4, 4, 0]], [1, 1, 1], [0.2, 0.3, 0.5]),
    ([[0, 3.5, 0], [3.5, 0, 0], [0, 0, 0]], [1, 2, 1], [0.4, 0.4, 0.2]),
    ([[0, 5, 3, 1], [5, 0, 4, 2], [3, 4, 0, 0], [1, 2, 0, 0]], [1, 1, 1, 1], [0.4, 0.3, 0.2, 0.1]),
    ([[3.27, -0.34, 0], [-0.34, -3.96, 0], [0, 0, 0]], [1, 1, 1], [0.16, 0.55, 0.29]),
    ([[0, 12], [12, 0]], [0.5, 0.4], [0.5, 0.5]),
    ([[-14, 0], [0, 0]], [1, 1], [0.4, 0.6]),
    ([[0, 25], [25, 0]], [0.3, 0.3], [0.6, 0.4]),
    ((np.kron(np.ones((5, 5)), [[0, 3.5], [3.5, 0]]) + np.diag([0, 0.2, 0, 0.1, 0, 0, 0.3, 0, 0, 0.2])).tolist(), [1, 1.5, 1, 1, 2, 1, 1, 1.2, 1.5, 1], [0.1] * 10),
    ([[0, 4, 4, 4, 4], [4, 0, 4, 4, 4], [4, 4, 0, 4, 4], [4, 4, 4, 0, 4], [4, 4, 4, 4, 0]], [1, 1.5, 1, 2, 1], [0.2, 0.2, 0.2, 0.2, 0.2]),
]


def defaults(log, seed):
    """finders that are given no options at all, or only those that a run is told anyway (compiled execution)"""
    rng = np.random.default_rng(seed)
    for k, (chi, size, phi) in enumerate(REFS[:4]):
        W = World(log, spy=False)
        n = len(phi)
        W.obj("I", "fh", n=n, chis=np.array(chi, float))
        W.obj("E", "ig", n=n, sizes=np.array(size, float))
        W.obj("N", "can", n=n, phi=np.array(phi))
        if W.new("F", "I", "E", "N", [], seed=int(rng.integers(1 << 30))):
            if k % 2:
                W.run("F", interval=7)           # ends as soon as the errors are below the default tolerance
            W.run("F", expect="phases")
            if k < 1:
                W.run("F", tol=0.0)              # never converges: ends at the default number of steps
            W.run("F", tol=1e-9, max=20000)
            W.run("F", max=3, interval=1, tol=0.0)


def refs(log, seed, slow=False, only=None):
    rng = np.random.default_rng(seed)
    for k, (chi, size, phi) in enumerate(REFS):
        if only is not None and k not in only:
            continue
        W = World(log, spy=False)
        n = len(phi)
        W.obj("I", "fh", n=n, chis=np.array(chi, float))
        W.obj("E", "ig", n=n, sizes=np.array(size, float))
        W.obj("N", "can", n=n, phi=np.array(phi))
        o = dict(num_part=0, max=300000, interval=1000) if slow else dict(num_part=12, max=8000, interval=100, accJ=0.02, accW=0.05, bound=0.02)
        if W.new("F", "I", "E", "N", [], seed=int(rng.integers(1 << 30)), opts=o):
            W.run("F", expect="phases")
