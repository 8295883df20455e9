"""Compiled parts, called without a finder (C22)."""
from flo import World, np, q, qa, flory, KW
from scen import pick, rnd_chi, rnd_phi, rnd_sizes, rnd_act, kwopts


class Caller:
    def __init__(self, W, rng, nf, nc):
        self.W, self.rng, self.nf, self.nc, self.p, self.k = W, rng, nf, nc, {}, {}
        self.np = {}

    def compile(self, p, o, via=None):
        rng, W = self.rng, self.W
        kw = kwopts(rng)
        full = {KW[k]: v for k, v in kw.items()}
        if rng.random() < 0.3:
            full["redundant_option"] = 1
        fn = W.o[o].compiled if via is None else via
        x, exc = W.guard(lambda: fn(**full))
        if not exc:
            self.p[p], self.k[p] = x, W.t[o]
            self.np.pop(p, None)
        W.log(op="compile", p=p, o=o, kw={k: q(v) for k, v in kw.items()}, exc=exc,
              nf=-1 if exc else int(getattr(x, "num_feat", -1)), nc=-1 if exc else int(getattr(x, "num_comp", -1)))

    def call(self, p, m, fn, const, **ev):
        """const: arrays that have to stay as they are"""
        before = [[q(v) for v in np.ravel(a)] for a in const]
        out, exc = self.W.guard(fn)
        kept = [{"a": b, "b": [q(v) for v in np.ravel(a)]} for a, b in zip(const, before)]
        blank = dict(phi=[], phi2=[], w=[], J=[], Q=[], mask=[], pot=[], vd=[], out=[], np=0, step="0")
        self.W.log(op="call", p=p, m=m, exc=exc, kept=kept, **{**blank, **ev, **(out or {})})
        return not exc

    def state(self, n):
        """volumes and masks; compartments without volume are masked"""
        rng = self.rng
        mask = (rng.random(n) < pick(rng, [0.5, 0.8, 1.0])).astype(float)
        mask[int(rng.integers(n))] = 1.0
        return np.where(mask > 0, rng.uniform(0.05, 2.5, n), 0.0), mask

    def some(self, p):
        rng, x, t = self.rng, self.p[p], self.k[p]
        n = int(pick(rng, [1, 2, 3, 4, 6, 17])) if rng.random() < 0.98 else 130
        phis = lambda r, m: rng.uniform(0, 1, (r, m)) * pick(rng, [1.0, 1.0, 1e-6, 3.0] + ([1e8] if t in ("can", "gc") else []))
        if t in ("fh", "block"):
            phi = phis(self.nf, n)
            k = rng.random()
            if k < 0.5:
                self.call(p, "potential", lambda: dict(out=qa(x.potential(phi))), [phi], phi=qa(phi))
            elif k < 0.8:
                pot = np.ascontiguousarray(x.potential(phi)) if rng.random() < 0.6 else rng.normal(0, 2, (self.nf, n))
                self.call(p, "ivd", lambda: dict(out=qa(x.volume_derivative(pot, phi))), [pot, phi], phi=qa(phi), pot=qa(pot))
            else:
                self.call(p, "coef", lambda: dict(out=q(x.incomp_coef(phi))), [phi])
        elif t in ("ig", "pd"):
            k = rng.random()
            phi = phis(self.nc, n)
            if k < 0.5:
                w, (J, _) = rng.normal(0, pick(rng, [0.3, 2.0]), (self.nf, n)), self.state(n)

                def go():
                    Q = x.partition(phi, w, J)
                    return dict(out=qa(Q), phi2=qa(phi))
                self.call(p, "partition", go, [w, J], w=qa(w), J=qa(J))
            elif k < 0.75:
                f = rng.normal(0, 1, (self.nf, n))     # whatever was there before

                def go():
                    x.comp_to_feat(f, phi)
                    return dict(out=qa(f))
                self.call(p, "feat", go, [phi], phi=qa(phi))
            else:
                self.call(p, "evd", lambda: dict(out=qa(x.volume_derivative(phi))), [phi], phi=qa(phi))
        elif t in ("can", "gc"):
            phi, Q = phis(self.nc, n), rng.uniform(0.1, 4, self.nc)
            _, mask = self.state(n)
            if rng.random() < 0.1:
                mask[:] = 0.0
            given = qa(phi)

            def go():
                inc = x.normalize(phi, Q, mask)
                return dict(out=qa(inc), phi2=qa(phi))
            self.call(p, "normalize", go, [Q, mask], phi=given, Q=qa(Q), mask=qa(mask))
        else:
            if p not in self.np or rng.random() < 0.15:
                if not self.call(p, "initialize", lambda: x.initialize(n) or {}, [], np=n):
                    return
                self.np[p] = n
            n = self.np[p]
            for _ in range(int(rng.integers(1, 4))):
                phi, (J, mask) = phis(self.nf, n), self.state(n)

                def go():
                    x.prepare(phi, J, mask)
                    return dict(pot=qa(x.potential), vd=qa(x.volume_derivative))
                if not self.call(p, "prepare", go, [phi, J, mask], phi=qa(phi), J=qa(J), mask=qa(mask)):
                    return
                if rng.random() < 0.8:
                    step = float(pick(rng, [0.0, 1e-3, 0.1, 1.0, 3.0]))
                    self.call(p, "evolve", lambda: dict(out=q(x.evolve(step, mask))), [mask], step=q(step))


def calls(log, seed, n, only="IENGLOZ", feat=None):
    """only: the parts that are called"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        W = World(log, spy=False)
        isfeat = bool(rng.random() < 0.4) if feat is None else feat
        nf = int(rng.integers(1, 5))
        per = [int(rng.integers(1, 4)) for _ in range(nf)] if isfeat else [1] * nf
        nc = sum(per)
        C = Caller(W, rng, nf, nc)
        if isfeat:
            W.obj("I", "block", nf=nf, chis=rnd_chi(rng, nf), per=per)
            W.obj("E", "pd", nf=nf, sizes=rnd_sizes(rng, nc), per=per)
        else:
            W.obj("I", "fh", n=nc, chis=rnd_chi(rng, nc))
            W.obj("E", "ig", n=nc, sizes=rnd_sizes(rng, nc))
        W.obj("N", "can", n=nc, phi=rnd_phi(rng, nc))
        W.obj("G", "gc", n=nc, act=rnd_act(rng, nc))
        for t in ("loc", "glo"):
            na = int(rng.integers(1, 4))
            W.obj("L" if t == "loc" else "O", t, nf=nf, Cs=rng.normal(0, 1, (na, nf)), Ts=rng.normal(0, 0.5, na))
        W.obj("Z", "no", nf=nf)
        if not all(x in W.o for x in "IENGLOZ"):
            continue
        fe = flory.free_energy.FreeEnergyBase(W.o["I"], W.o["E"])
        for o in "IENGLOZ":
            via = {"I": fe.interaction_compiled, "E": fe.entropy_compiled}.get(o) if rng.random() < 0.4 else None
            C.compile("p" + o, o, via)
        for _ in range(int(rng.integers(6, 16))):
            r = rng.random()
            if r < 0.12 and C.p:
                a = pick(rng, "IENGLO")
                v, x = {"I": ("chis_feat" if isfeat else "chis", lambda: rnd_chi(rng, nf)), "E": ("sizes", lambda: rnd_sizes(rng, nc)), "N": ("phi_means", lambda: rnd_phi(rng, nc)),
                        "G": ("scaled_activity", lambda: rnd_act(rng, nc)), "L": ("Ts", lambda: rng.normal(0, 0.5, np.shape(W.o["L"].Ts))), "O": ("Cs", lambda: rng.normal(0, 1, np.shape(W.o["O"].Cs)))}[a]
                W.assign(a, v, x())
            elif r < 0.2:
                a = pick(rng, "EGLO" if isfeat else "IEGLO")
                W.poke(a, {"I": "chis", "E": "sizes", "G": "scaled_activity", "L": "Ts", "O": "Ts"}[a], 0, 0, float(rng.uniform(0.2, 2)))
            elif r < 0.26:
                o = pick(rng, "IENGLOZ")
                C.compile("p" + o, o)
            elif any(p[1] in only for p in C.p):
                C.some(pick(rng, [p for p in sorted(C.p) if p[1] in only]))
