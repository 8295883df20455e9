"""Free energies: evaluation of values, derivatives, potentials and stability of the real code."""
from flo import *  # noqa
from flo import np, q, qa, arg, names, flory, NOARG
from scen import pick, rnd_chi, rnd_sizes

FE = flory.free_energy.FreeEnergyBase


class Cubic(flory.interaction.InteractionBase):
    """an interaction of the user's own: quadratic and cubic terms"""

    def __init__(self, n, chis, cub):
        super().__init__(n)
        c = np.array(np.broadcast_to(chis, (n, n)), float)
        self.x, self.g = (c + c.T) / 2, np.array(np.broadcast_to(cub, n), float)

    def _energy_impl(self, phis):
        return 0.5 * np.einsum("...i,...j,ij->...", phis, phis, self.x) + (self.g * np.power(phis, 3)).sum(-1)

    def _jacobian_impl(self, phis):
        return np.asarray(phis) @ self.x + 3 * self.g * np.square(phis)

    def _hessian_impl(self, phis):
        return self.x + 6 * np.eye(self.num_comp) * (self.g * phis)[..., None, :]


class OwnGas(flory.entropy.EntropyBase):
    """an entropy of the user's own, without the optional method"""

    def __init__(self, n, sizes):
        super().__init__(n)
        self.l = np.array(np.broadcast_to(1.0 if sizes is None else sizes, n), float)

    def _energy_impl(self, phis):
        p = np.asarray(phis, float)
        return (np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0) / self.l).sum(-1)

    def _jacobian_impl(self, phis):
        return (np.log(phis) + 1) / self.l

    def _hessian_impl(self, phis):
        return np.where(np.eye(self.num_comp, dtype=bool), (1 / (self.l * phis))[..., None, :], 0.0)


def att(fn):
    try:
        return fn(), []
    except Exception as e:  # noqa: BLE001
        return None, names(e)


def flat(a, lead, tail):
    """results per phase: list over the batch of arrays of shape tail"""
    a = np.asarray(a)
    return qa(a.reshape((int(np.prod(lead, dtype=int)),) + tuple(tail)))


def rnd_mix(rng, log, o, kind=None):
    n = int(rng.integers(1, 6)) if rng.random() < 0.9 else int(rng.integers(6, 13))
    kind = kind or pick(rng, ["fh", "fh", "parts", "uniform", "random", "block", "blockig", "user", "userown"])
    sizes = None if rng.random() < 0.2 else pick(rng, [rnd_sizes(rng, n), rng.uniform(0.3, 30, n), float(rng.uniform(0.5, 4)), rng.integers(1, 5, n)])
    chis = pick(rng, [rnd_chi(rng, n), rng.integers(-3, 5, (n, n)), float(rng.normal(1, 2)), rng.normal(0, 2, n), rnd_chi(rng, n).tolist(), np.asfortranarray(rnd_chi(rng, n))])
    ev = dict(op="fe", o=o, t=kind, n=n, chis=arg(chis), sizes=NOARG if sizes is None else arg(sizes))
    if kind == "fh":
        fe, exc = att(lambda: flory.FloryHuggins(n, chis, sizes))
    elif kind in ("user", "userown"):
        cub = pick(rng, [rng.normal(0, 1.5, n), 1.0, 0.0])
        ent = OwnGas if kind == "userown" else flory.entropy.IdealGasEntropy
        ev.update(t="user", cub=arg(cub))
        fe, exc = att(lambda: FE(Cubic(n, chis, cub), ent(n, sizes)))
    elif kind == "parts":
        fe, exc = att(lambda: FE(flory.interaction.FloryHugginsInteraction(n, chis), flory.entropy.IdealGasEntropy(n, sizes)))
    elif kind == "uniform":
        chi, van = pick(rng, [3, 1.7, -2]), bool(rng.random() < 0.5)
        fe, exc = att(lambda: flory.FloryHuggins.from_uniform(n, chi, sizes=sizes, vanishing_diagonal=van))
        ev.update(chi=q(chi), vanish=van)
    elif kind == "random":
        van = bool(rng.random() < 0.5)
        fe, exc = att(lambda: flory.FloryHuggins.from_random_normal(n, 1.0, 2.0, sizes=sizes, vanishing_diagonal=van, rng=np.random.default_rng(int(rng.integers(1 << 30)))))
        ev.update(vanish=van, shows=[] if exc else qa(fe.chis))
    else:
        nf = int(rng.integers(1, 4))
        per = [int(rng.integers(1, 4)) for _ in range(nf)]
        if rng.random() < 0.2:
            per = [per[0]]
        n = sum(per) if len(per) == nf else per[0] * nf
        sizes = None if rng.random() < 0.2 else pick(rng, [rnd_sizes(rng, n), rng.uniform(0.3, 30, n), 2.0])
        chis = pick(rng, [rnd_chi(rng, nf), 1.5, rng.integers(-3, 5, (nf, nf))])
        p = per if len(per) == nf and nf > 1 else (per[0] if rng.random() < 0.5 else per)
        ent = (lambda: flory.entropy.IdealGasPolydispersedEntropy(nf, sizes, p)) if kind == "block" else (lambda: flory.entropy.IdealGasEntropy(n, sizes))
        fe, exc = att(lambda: FE(flory.interaction.FloryHugginsBlockInteraction(nf, chis, p), ent()))
        ev.update(nf=nf, per=per, chis=arg(chis), sizes=NOARG if sizes is None else arg(sizes), n=n)
    log(**ev, exc=exc)
    return fe, n, kind, ev


def comps(rng, n, lead, zeros=True):
    p = rng.dirichlet(np.ones(n), size=lead) if n > 1 else np.ones(tuple(lead) + (1,))
    mode = rng.random()
    if mode < 0.3 and n > 1:      # exactly incompressible and dyadic
        k = rng.multinomial(64, np.ones(n) / n, size=lead)
        p = k / 64
        if not zeros:
            p = np.where(p == 0, 1 / 64, p)
    elif mode < 0.45:
        p = rng.uniform(0.01, 1.2, tuple(lead) + (n,))
    elif mode < 0.55:
        p = np.maximum(rng.uniform(0, 1, tuple(lead) + (n,)) ** 12, 1e-12)
    elif not zeros:
        p = np.maximum(p, 1e-9)
    if zeros and rng.random() < 0.3:
        z = rng.random(tuple(lead) + (n,)) < 0.3
        p = np.where(z, 0.0, p)
    return p


def evaluate(rng, log, o, fe, n, zeros=True, old=[None]):
    lead = pick(rng, [(), (), (1,), (3,), (2, 3), (1, 2, 2), (n,), (n, n) if n < 5 else (n,), (2, n)] + ([(40,)] if n < 4 else []))
    if n < 4 and rng.random() < 0.01:
        lead = (300,)
    p = comps(rng, n, lead, zeros)
    if not zeros:
        p = np.maximum(p, 1e-9)
    if n > 1 and zeros and rng.random() < 0.08:       # pure phases, as integers
        p = np.eye(n, dtype=int)[rng.integers(n, size=lead)]
    if rng.random() < 0.15:
        p = np.asfortranarray(p)
    elif rng.random() < 0.1:
        p = np.repeat(p, 2, axis=-1)[..., ::2]
    if old[0] is not None and old[0].shape == p.shape and old[0].dtype == p.dtype and rng.random() < 0.5:
        old[0][...] = p     # the same array with other numbers
        p = old[0]
    old[0] = p
    k = int(rng.integers(n))
    p0 = p.copy()
    if rng.random() < 0.1:
        p = p.tolist()
    data, sh, exc = {}, {}, []
    with np.errstate(all="ignore"):
        for nm, fn, tail in (("f", lambda: fe.free_energy_density(p), ()), ("jac", lambda: fe.jacobian(p), (n,)), ("hess", lambda: fe.hessian(p), (n, n)),
                             ("jr", lambda: fe.jacobian(p, k), (n - 1,)), ("hr", lambda: fe.hessian(p, k), (n - 1, n - 1)), ("mu", lambda: fe.chemical_potentials(p), (n,)),
                             ("ex", lambda: fe.exchange_chemical_potentials(p, k), (n,)), ("pr", lambda: fe.pressure(p, k), ())):
            r, e = att(fn)
            exc = exc or e
            sh[nm] = list(np.shape(r)) if r is not None else []
            try:
                data[nm] = flat(r, lead, tail)
            except Exception:  # noqa: BLE001
                data[nm] = []
    log(op="eval", o=o, lead=list(lead), phi=flat(p0, lead, (n,)), k=k + 1, exc=exc, sh=sh, same=bool(np.array_equal(p, p0)), **data)


def stability(rng, log, o, fe, n):
    lead = pick(rng, [(), (1,), (4,), (2, 3), (n,), (n, n) if n < 5 else (n,), (n - 1,) if n > 1 else (1,)])
    p = comps(rng, n, lead, zeros=False)
    p = np.maximum(p, 1e-6)
    cons = bool(rng.random() < 0.6) and n > 1
    m, e1 = att(lambda: fe.num_unstable_modes(p, cons) if rng.random() < 0.5 or not cons else fe.num_unstable_modes(p))
    s, e2 = att(lambda: fe.is_stable(p, conserved=cons))
    log(op="modes", o=o, lead=list(lead), phi=flat(p, lead, (n,)), conserved=cons, exc=e1 or e2, sh=list(np.shape(m)), shs=list(np.shape(s)),
        modes=[int(x) for x in np.ravel(m)] if not e1 else [], stable=[bool(x) for x in np.ravel(s)] if not e2 else [])


def equil(rng, log, o, fe, n):
    P = int(rng.integers(1, 5)) if rng.random() < 0.9 else pick(rng, [n, 12])
    p = np.maximum(comps(rng, n, (P,), zeros=False), 1e-8)
    if rng.random() < 0.2:
        p[:] = p[0]
    axis = pick(rng, [1, 0, None, "default"])
    order = pick(rng, [None, None, 1, 2, np.inf, -np.inf, 3] if axis is not None else [None, None, "fro", 1, np.inf, -np.inf])
    single = P == 1 and rng.random() < 0.5
    pp = p[0] if single else p
    r, e = att(lambda: fe.equilibration_error(pp, order) if axis == "default" else fe.equilibration_error(pp, order=order, axis=axis))
    log(op="equil", o=o, phi=qa(p), order={None: "2", "fro": "2", 1: "1", 2: "2", 3: "3", np.inf: "inf", -np.inf: "-inf"}[order], axis="1" if axis == "default" else str(axis), exc=e,
        err=[q(x) for x in np.ravel(r)] if not e else [])


def reject(rng, log, o, fe, n):
    bad = []
    p = comps(rng, n, (3,), zeros=False)
    neg = p.copy()
    neg[int(rng.integers(3)), int(rng.integers(n))] = pick(rng, [-1e-3, -0.2, -1e-300])
    bad += [neg, neg[np.argmin(neg.min(1))], comps(rng, n + 1, (2,), zeros=False), comps(rng, n + 1, (), zeros=False)]
    if n > 1:
        bad.append(comps(rng, n - 1, (2,), zeros=False))
    b = pick(rng, bad)
    fns = [lambda: fe.free_energy_density(b), lambda: fe.jacobian(b), lambda: fe.hessian(b), lambda: fe.jacobian(b, 0), lambda: fe.hessian(b, 0), lambda: fe.chemical_potentials(b),
           lambda: fe.exchange_chemical_potentials(b, 0), lambda: fe.pressure(b, 0), lambda: fe.num_unstable_modes(b), lambda: fe.is_stable(b), lambda: fe.equilibration_error(np.atleast_2d(b))]
    with np.errstate(all="ignore"):
        log(op="reject", o=o, excs=[att(f)[1] for f in fns])


def mix(log, seed, n, kind=None, what=("eval", "modes", "equil", "reject"), sets=True):
    rng = np.random.default_rng(seed)
    fns = dict(eval=evaluate, modes=stability, equil=equil, reject=reject)
    for _ in range(n):
        log(op="reset")
        fe, nc, t, ev = rnd_mix(rng, log, "A", kind)
        if fe is None:
            continue
        if rng.random() < 0.2:
            _, exc = att(lambda: FE(flory.interaction.FloryHugginsInteraction(nc + 1, 1.0), flory.entropy.IdealGasEntropy(nc, 1.0)))
            log(op="fix", exc=exc)
        for _ in range(int(rng.integers(1, 4))):
            for w in what:
                fns[w](rng, log, "A", fe, nc, **({"zeros": t != "userown"} if w == "eval" else {}))
            if sets and t in ("fh", "uniform", "random") and rng.random() < 0.7:
                a = pick(rng, ["chis", "sizes"])
                v = {"chis": lambda: pick(rng, [rnd_chi(rng, nc), rng.integers(-2, 4, (nc, nc)), 2.5, rng.normal(0, 1, nc), rnd_chi(rng, nc + 1)]),
                     "sizes": lambda: pick(rng, [rnd_sizes(rng, nc), 3, rng.integers(1, 4, nc), rng.uniform(0.5, 2, nc + 1), [1.5] * nc])}[a]()
                _, exc = att(lambda: setattr(fe, a, v))
                log(op="assign", o="A", a=a, arg=arg(v), exc=exc, chis=qa(fe.chis), sizes=qa(fe.sizes))
