"""Collections of phases: operations of the real code."""
import json
from fractions import Fraction

from flo import *  # noqa
from flo import np, q, qa, names, flory
from scen import pick

Phases, PhasesResult = flory.common.Phases, flory.common.PhasesResult


class Tagged(PhasesResult):
    """a subclass of the user"""


class Own(Phases):
    """a subclass of the user that carries something of its own, as the base class documents"""

    def __init__(self, volumes, fractions, label="x"):
        super().__init__(volumes, fractions)
        self.label = label

    def _copy(self, volumes, fractions):
        return self.__class__(volumes, fractions, label=self.label)


def info_of(c):
    if isinstance(c, PhasesResult):
        return json.dumps(c.info, sort_keys=True)
    return getattr(c, "label", "")


def show(c):
    return dict(cls=type(c).__name__, vol=[q(x) for x in np.asarray(c.volumes)], frac=qa(c.fractions), info=info_of(c), num=int(c.num_phases), comps=int(c.num_components),
                total=q(c.total_volume), mean=qa(c.mean_fractions))


def make(rng, vol, frac):
    k = pick(rng, ["Phases", "PhasesResult", "PhasesResult", "Tagged", "Own"])
    info = {"steps": int(rng.integers(100)), "note": "abc"}
    cs = {"Phases": lambda: Phases(vol, frac), "PhasesResult": lambda: PhasesResult(vol, frac, info=info), "Tagged": lambda: Tagged(vol, frac, info=info), "Own": lambda: Own(vol, frac, label="lbl")}
    return cs[k](), k, {"Phases": "", "Own": "lbl"}.get(k, json.dumps(info, sort_keys=True))


def rnd_collection(rng):
    n, P = int(rng.integers(2, 6)), int(rng.integers(1, 9))
    if rng.random() < 0.1:
        n, P = pick(rng, [(12, 5), (3, 30), (2, 45), (5, 5), (8, 8)])
    elif rng.random() < 0.04:
        n = 1
    kind = rng.random()
    if kind < 0.6:       # groups
        G = int(rng.integers(1, 4))
        cen = rng.dirichlet(np.ones(n), G)
        frac = cen[rng.integers(G, size=P)] + rng.normal(0, 1, (P, n)) * pick(rng, [0.0, 1e-6, 1e-4, 1e-3])
        frac = np.abs(frac)
    elif kind < 0.7:     # a row of groups that only just are apart
        frac = np.outer(np.arange(P) * pick(rng, [0.04, 0.035, 0.1]), np.eye(n)[0]) + 0.1 + 0.01 * np.arange(n)
    elif kind < 0.8:     # chains: the extent of a chain exceeds the cut-off
        frac = np.outer(np.arange(P) * pick(rng, [0.004, 0.007, 0.009]), np.eye(n)[0]) + 0.1 + 0.01 * np.arange(n)
    elif kind < 0.85 and n > 1:     # pure phases, as integers
        frac = np.eye(n, dtype=int)[rng.integers(n, size=P)]
    elif kind < 0.9:
        frac = rng.integers(0, 5, (P, n)) / 8
        frac[:, 0] += 1 / 8
    else:
        frac = rng.dirichlet(np.ones(n), P)
    vol = pick(rng, [rng.uniform(0.01, 3, P), rng.integers(1, 5, P), np.ones(P), 10.0 ** rng.uniform(-6, 3, P)])
    if rng.random() < 0.15:     # normalised already, or nearly
        vol = vol / vol.sum() * pick(rng, [1.0, 1 + 4e-6, 1 - 4e-6, 1 + 3e-4])
    return vol, frac


def replay(log, rng, vol, frac, h):
    log(op="reset")
    form = pick(rng, [lambda a: a, lambda a: a.tolist(), lambda a: np.asfortranarray(a)])
    v, f = form(vol), form(frac)
    c, k, info = make(rng, v, f)
    log(op="made", o="c1", exc=[], given=dict(cls=k, vol=[q(x) for x in np.asarray(vol)], frac=qa(frac), info=info), shows=show(c))
    cols = [c]
    for j, st in enumerate(h):
        src = cols[st["src"] - 1]
        kind, dist, ti = st["op"], 0.01, ""
        if kind == "again":
            kind, dist = "cluster", 1e-6
        elif kind == "cluster":
            dist = pick(rng, [0.01, 0.01, 0.05, 0.3, 2.0])
        nfo = {"tag": j}
        fn = {"normalize": src.normalize, "sort": src.sort, "cluster": (lambda: src.get_clusters() if dist == 0.01 and rng.random() < 0.5 else src.get_clusters(dist)),
              "result": lambda: PhasesResult.from_phases(src, info=nfo)}[kind]
        try:
            r, exc = fn(), []
        except Exception as e:  # noqa: BLE001
            r, exc = None, names(e)
        ev = dict(op="did", o=f"c{j + 2}", src=f"c{st['src']}", k=kind, dist=q(dist), info=json.dumps(nfo, sort_keys=True), exc=exc)
        log(**ev, shows={} if exc else show(r))
        if exc:
            return
        cols.append(r)
        if rng.random() < 0.4:      # information attached to one of them
            i = int(rng.integers(len(cols)))
            if isinstance(cols[i], PhasesResult):
                cols[i].info[f"later{j}"] = j
                log(op="edit", o=f"c{i + 1}", shows=show(cols[i]))
        for i, x in enumerate(cols):
            log(op="see", o=f"c{i + 1}", shows=show(x))


def generated(log, seed, file, part=0, of=1, random=0):
    """the sequences generated by TLC, on their own collection and on random ones"""
    hs = [json.loads(x) for x in open(file)]
    for k, h in enumerate(hs):
        if k % of != part:
            continue
        rng = np.random.default_rng([seed, k])
        vol = np.array([float(Fraction(x)) for x in h["vol"]])
        frac = np.array([[float(Fraction(x)) for x in row] for row in h["frac"]])
        replay(log, rng, vol, frac, h["h"])
        for _ in range(random):
            replay(log, rng, *rnd_collection(rng), h["h"])
    rng = np.random.default_rng([seed, 10 ** 6 + part])
    for _ in range(20):     # inconsistent collections
        vol, frac = rnd_collection(rng)
        v, f = pick(rng, [(vol[:-1], frac), (np.append(vol, 1.0), frac), (vol[:, None], frac), (vol, frac[0]), (vol, frac[None]), (vol.sum(), frac)])
        try:
            pick(rng, [Phases, PhasesResult])(v, f)
            exc = []
        except Exception as e:  # noqa: BLE001
            exc = names(e)
        log(op="bad", exc=exc)
