"""Parts written by a user as compiled classes: the same physics as the built-in ones, in the user's own code, counting their calls (C20)."""
import numba as nb
from numba.experimental import jitclass

from flo import *  # noqa
from flo import np, q, flory, CLS, World
import flo
from scen import pick, options, kwopts, rnd_chi, rnd_phi, rnd_sizes


@jitclass([("chi", nb.float64[:, ::1]), ("shift", nb.float64), ("perpart", nb.boolean), ("count", nb.int64[::1])])
class MyInteraction:
    def __init__(self, chi, shift, perpart):
        self.chi, self.shift, self.perpart = chi, shift, perpart
        self.count = np.zeros(3, np.int64)

    @property
    def num_feat(self):
        return self.chi.shape[0]

    def potential(self, phis_feat):
        self.count[0] += 1
        out = np.zeros_like(phis_feat)
        for r in range(self.chi.shape[0]):
            for s in range(self.chi.shape[0]):
                out[r] += self.chi[r, s] * phis_feat[s]
        return out

    def volume_derivative(self, potential, phis_feat):
        self.count[1] += 1
        out = np.zeros(phis_feat.shape[1])
        for r in range(phis_feat.shape[0]):
            out += 0.5 * potential[r] * phis_feat[r]
        return out

    def incomp_coef(self, phis_feat):
        self.count[2] += 1
        return np.full(phis_feat.shape[1], self.chi.sum() + (self.shift - self.chi.min()) * self.chi.size)


@jitclass([("sizes", nb.float64[::1]), ("count", nb.int64[::1])])
class MyEntropy:
    def __init__(self, sizes):
        self.sizes = sizes
        self.count = np.zeros(3, np.int64)

    @property
    def num_comp(self):
        return self.sizes.size

    @property
    def num_feat(self):
        return self.sizes.size

    def partition(self, phis_comp, omegas, Js):
        self.count[0] += 1
        Q = np.zeros(self.sizes.size)
        for i in range(self.sizes.size):
            phis_comp[i] = np.exp(-self.sizes[i] * omegas[i])
            Q[i] = (phis_comp[i] * Js).sum() / Js.sum()
        return Q

    def comp_to_feat(self, phis_feat, phis_comp):
        self.count[1] += 1
        phis_feat[:] = phis_comp

    def volume_derivative(self, phis_comp):
        self.count[2] += 1
        out = np.zeros(phis_comp.shape[1])
        for i in range(self.sizes.size):
            out -= phis_comp[i] / self.sizes[i]
        return out


@jitclass([("phi", nb.float64[::1]), ("count", nb.int64[::1])])
class MyEnsemble:
    def __init__(self, phi):
        self.phi = phi
        self.count = np.zeros(1, np.int64)

    @property
    def num_comp(self):
        return self.phi.size

    def normalize(self, phis_comp, Qs, masks):
        self.count[0] += 1
        inc = -masks.copy()
        for i in range(self.phi.size):
            phis_comp[i] = self.phi[i] / Qs[i] * phis_comp[i] * masks
            inc += phis_comp[i]
        return inc


@jitclass([("C", nb.float64[::1]), ("T", nb.float64), ("ratio", nb.float64), ("kap", nb.float64), ("lam", nb.float64[::1]), ("res", nb.float64[::1]), ("count", nb.int64[::1]), ("np_", nb.int64)])
class MyConstraint:
    def __init__(self, C, T, ratio, kap):
        self.C, self.T, self.ratio, self.kap = C, T, ratio, kap
        self.lam, self.res = np.zeros(1), np.zeros(1)
        self.count = np.zeros(3, np.int64)
        self.np_ = 0

    @property
    def num_feat(self):
        return self.C.size

    @property
    def potential(self):
        out = np.zeros((self.C.size, self.res.size))
        for r in range(self.C.size):
            out[r] = self.C[r] * (self.lam + 2 * self.kap * self.res) * (self.res != 0)
        return out

    @property
    def volume_derivative(self):
        return self.res * (self.lam + self.kap * self.res)

    def initialize(self, num_part):
        self.lam = np.zeros(num_part)
        self.np_ = num_part
        self.count[0] += 1

    def prepare(self, phis_feat, Js, masks):
        self.count[1] += 1
        self.res = -self.T * np.ones(phis_feat.shape[1])
        for r in range(self.C.size):
            self.res += self.C[r] * phis_feat[r]
        self.res *= masks

    def evolve(self, step, masks):
        self.count[2] += 1
        self.lam = (self.lam + step * self.ratio * self.res) * masks
        return np.abs(self.res).max()


MADE = []


def keep(x):
    MADE.append(x)
    return x


class Inter(CLS["fh"]):
    def _compiled_impl(self, additional_chis_shift=1.0):
        return keep(MyInteraction(np.ascontiguousarray(self.chis, dtype=float), float(additional_chis_shift), True))


class Entr(CLS["ig"]):
    def _compiled_impl(self):
        return keep(MyEntropy(np.ascontiguousarray(self.sizes, dtype=float)))


class Ens(CLS["can"]):
    def _compiled_impl(self):
        return keep(MyEnsemble(np.ascontiguousarray(self.phi_means, dtype=float)))


class Con(CLS["loc"]):
    def _compiled_impl(self, constraint_acceptance_ratio=1.0, constraint_elasticity=1.0):
        return keep(MyConstraint(np.ascontiguousarray(self.Cs[0], dtype=float), float(self.Ts[0]), float(constraint_acceptance_ratio), float(constraint_elasticity)))


def own(log, seed, n, mix=False):
    """mix: user-defined constraint and entropy together with built-in interaction and ensemble"""
    rng = np.random.default_rng(seed)
    swap = {"fh": CLS["fh"] if mix else Inter, "ig": Entr, "can": CLS["can"] if mix else Ens, "loc": Con}
    for _ in range(n):
        W = World(log, spy=False)
        old = dict(flo.CLS)
        flo.CLS.update(swap)
        try:
            nc = int(rng.integers(2, 5))
            W.obj("I", "fh", n=nc, chis=rnd_chi(rng, nc))
            W.obj("E", "ig", n=nc, sizes=rnd_sizes(rng, nc))
            W.obj("N", "can", n=nc, phi=rnd_phi(rng, nc))
            W.obj("C0", "loc", nf=nc, Cs=rng.normal(0, 1, nc), Ts=rng.normal(0, 0.3))
            W.obj("C1", "glo", nf=nc, Cs=rng.normal(0, 1, (2, nc)), Ts=rng.normal(0, 0.3, 2))
        finally:
            flo.CLS.update(old)
        o = options(rng, bool(rng.random() < 0.4))
        o.update(revive=0, max=int(rng.integers(2, 9)), interval=int(rng.integers(1, 6)), tol=pick(rng, [1e-5, 0.1, 3.0]))
        MADE.clear()
        if not W.new("F", "I", "E", "N", ["C0", "C1"], seed=int(rng.integers(1 << 30)), opts=o, kw=kwopts(rng)):
            continue
        for k in range(int(rng.integers(1, 4))):
            base = [x.count.copy() for x in MADE]
            if W.run("F", sim=True, **({} if rng.random() < 0.5 else dict(max=pick(rng, [1, 3, 7]), interval=pick(rng, [1, 2, 10])))) is None:
                break
            if k == 0 and rng.random() < 0.4:
                steps = int(W.f["F"].diagnostics["steps"])
                now = [x.count - b for x, b in zip(MADE, base)]
                con = [j for j, x in enumerate(MADE) if hasattr(x, "np_")][0]
                once = {"MyEntropy": [0, 1], "MyEnsemble": [0], "MyConstraint": [1, 2]}
                per = [int(now[j][i]) for j, x in enumerate(MADE) for i in once.get(type(x).__name__, [])]
                log(op="ucount", steps=steps, per=per, init=int(MADE[con].count[0]), np=int(MADE[con].np_), want=o["num_part"])
                W.reinit("F", pick(rng, ["cons", "random"]))
