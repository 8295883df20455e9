"""Random inputs (C21): many draws of each kind."""
from flo import np, q, flory, CLS
from flory.common.phases import get_uniform_random_composition
from scen import pick


def guard(fn):
    try:
        return fn(), []
    except Exception as e:  # noqa: BLE001
        return None, [k.__name__ for k in type(e).__mro__]


def columns(draws, shape):
    """draws[k] of the given shape -> one list of values per entry; anything else is shown as it is"""
    a = [np.asarray(x, float) for x in draws]
    if any(x.shape != shape for x in a):
        return [[q(v) for v in x.ravel()[:4]] for x in a[:2]]
    a = np.stack(a)
    if len(shape) == 1:
        return [[q(v) for v in a[:, i]] for i in range(shape[0])]
    return [[[q(v) for v in a[:, i, j]] for j in range(shape[1])] for i in range(shape[0])]


def sources(rng, m):
    """generators for m draws: one for all, one seed for each, or none"""
    how = pick(rng, ["one", "one", "one", "seeds", "none"])
    g = np.random.default_rng(int(rng.integers(1 << 30)))
    s = int(rng.integers(1 << 30))
    return how, [{"one": g, "seeds": s + k, "none": None}[how] for k in range(m)]


def simplex(log, rng, m):
    n = pick(rng, [1, 2, 3, 3, 4, 5, 7, 10, 15, 24])
    m = m if n < 15 else m // 2
    how, gs = sources(rng, m)
    draws, exc = guard(lambda: [get_uniform_random_composition(n, rng=g) if how != "none" else get_uniform_random_composition(n) for g in gs])
    log(op="simplex", n=n, m=m, how=how, cols=[] if exc else columns(draws, (n,)), exc=exc)


def matrices(log, rng, m):
    n = pick(rng, [1, 2, 2, 3, 4, 6, 9, 20])
    m = m if n < 20 else m // 12
    vanish = bool(rng.random() < 0.5)
    mean, std = pick(rng, [0.0, 1.5, -2.0, 3]), pick(rng, [1.0, 0.3, 2.5, 4])
    kind = pick(rng, ["make", "set", "energy", "again"])
    how, gs = sources(rng, m)
    gs = [np.random.default_rng(g) for g in gs] if how == "seeds" else gs
    args = {}
    if rng.random() < 0.6: args["chi_mean"] = mean
    else: mean = 0.0
    if rng.random() < 0.6: args["chi_std"] = std
    else: std = 1.0
    if rng.random() < 0.7 or not vanish: args["vanishing_diagonal"] = vanish
    FH = CLS["fh"]
    held = FH(n, pick(rng, [0, 2.5, np.full((n, n), 3)]))

    def draw(g):
        a = dict(args) if how == "none" else dict(args, rng=g)
        if kind == "make":
            return FH.from_random_normal(n, **a).chis
        if kind == "energy":
            return flory.free_energy.FloryHuggins.from_random_normal(n, **a).interaction.chis
        o = held if kind == "again" else FH(n, 0)
        o.set_random_chis(**a)
        return np.array(o.chis)
    draws, exc = guard(lambda: [draw(g) for g in gs])
    log(op="matrices", n=n, m=m, how=how, kind=kind, vanish=vanish, mean=q(mean), std=q(std), ms=[] if exc else columns(draws, (n, n)), exc=exc)


def fields(log, rng, m, big=None):
    nf, npt = pick(rng, [1, 2, 3]), pick(rng, [1, 2, 3, 5])
    if big is None:
        big = rng.random() < 0.1
    if big:     # many features and compartments
        nf, npt, m = pick(rng, [(4, 300), (1, 1200), (12, 100)]) + (50,)
    args = {}
    std = 5.0
    if rng.random() < 0.7:
        std = pick(rng, [0.3, 1.0, 2, 7.5])
        args["random_std"] = std
    again = rng.random() < 0.6
    g = np.random.default_rng(int(rng.integers(1 << 30)))
    I, E, N = CLS["fh"](nf, 0.0), CLS["ig"](nf, np.ones(nf)), CLS["can"](nf, np.full(nf, 1 / nf))
    C = pick(rng, [None, None, CLS["loc"](nf, np.arange(nf) + 1.0, 0.3)])

    def make():
        return flory.mcmp.CoexistingPhasesFinder(I, E, N, C, num_part=npt, rng=g, progress=False, **args)

    def all_():
        if not again:
            return [np.array(make().omegas) for _ in range(m)]
        F, out = make(), []
        for _ in range(m):
            out.append(np.array(F.omegas))
            F.reinitialize_random()
        return out
    draws, exc = guard(all_)
    cols = [] if exc else [c for row in columns(draws, (nf, npt)) for c in row]
    log(op="fields", n=nf * npt, m=m, again=bool(again), mean="0", std=q(std), cols=cols, exc=exc)


def samples(log, seed, n, m=600, what=("simplex", "matrices", "fields")):
    rng = np.random.default_rng(seed)
    if "fields" in what:
        log(op="reset")
        fields(log, rng, m, True)
    for _ in range(n):
        log(op="reset")
        {"simplex": simplex, "matrices": matrices, "fields": fields}[pick(rng, what)](log, rng, m)
