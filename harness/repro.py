"""Reproducibility (C12): the same operations twice, once among other users of randomness."""
import json, os, random, subprocess, sys, time



from flo import *  # noqa
from flo import np, q, diag, flory, CLS, OPT, KW
import flory.common.phases
from scen import pick, rnd_chi, rnd_phi, rnd_sizes, options, kwopts, finder

NOISE = {"draw", "seed", "otherrun", "othernew", "clock"}
REAL_TIME = time.time


def obs(*arrs):
    return [q(x) for a in arrs for x in np.ravel(np.asarray(a, float))]


def world(h, seed, noisy, gseed, lean=False):
    """lean: few combinations of part types (each is compiled once).  One execution; returns what it shows and how often the supplied generator moved"""
    rng = np.random.default_rng(seed)            # inputs of the scenario, the same in both executions
    g = np.random.default_rng(gseed)             # the generator under test
    oth = np.random.default_rng(seed + 7)
    np.random.seed(99 if noisy else 3)
    random.seed(5 if noisy else 6)
    if noisy:
        np.random.random(17)
        flory.common.phases.get_uniform_random_composition(3)
    seen, drew, F = [], [], None
    n, feat = pick(rng, [3, 3, 3, 2, 5, 9]), bool(rng.random() < 0.3)
    m = pick(rng, [2, 4, 4, 8, 13, 40])          # size of random matrices and compositions
    o = options(rng, True, lo=3, hi=pick(rng, [5, 5, 12]), odd=0)
    o.update(revive=pick(rng, [0, 1, 4, 16]), max=int(rng.integers(3, 12)), interval=int(rng.integers(1, 5)), thr=pick(rng, [0.0, 0.3, 0.7, 0.9]), accJ=1.0, bound=0.9)
    if rng.random() < 0.25:      # several survivors and a few deaths
        o.update(num_part=pick(rng, [6, 8, 12, 40]), revive=pick(rng, [0, 0, 1]), thr=pick(rng, [0.1, 0.3]), max=int(rng.integers(1, 4)), std=pick(rng, [0.5, 1.0]), accJ=pick(rng, [0.3, 1.0]))
    kw = kwopts(rng)
    chi, size, phi = rnd_chi(rng, n), rnd_sizes(rng, n), rnd_phi(rng, n)
    act = rng.uniform(0.1, 1, n)
    gc = bool(rng.random() < 0.2)
    if feat and not lean:
        I, E, nf = CLS["block"](2, chi[:2, :2], [1, n - 1]), CLS["pd"](2, size, [1, n - 1]), 2
    else:
        I, E, nf = CLS["fh"](n, chi), CLS["ig"](n, size), n
    gc = gc and not lean
    N = CLS["gc"](n, act) if gc else CLS["can"](n, phi)
    C = (CLS["loc"](nf, rng.normal(0, 1, nf), 0.1), CLS["glo"](nf, rng.normal(0, 1, nf), 0.1))
    cons = [None, C] if lean else [None, C, C[:1]]
    other = None
    mk = lambda s: finder(I, E, N, None, s, {**o, "num_part": 4}, kw)
    for op in h:
        if op in NOISE:
            if not noisy:
                continue
            if op == "draw":
                np.random.normal(size=3); random.random(); oth.normal(size=2)
            elif op == "seed":
                np.random.seed(1); random.seed(1)
            elif op == "othernew":
                other = mk(31)
            elif op == "otherrun":
                (other or mk(32)).run(max_steps=3)
                flory.FloryHuggins.from_random_normal(3, 1.0, 1.0)
            elif op == "clock":
                time.time = lambda: REAL_TIME() + 123456.789
            continue
        before = json.dumps(g.bit_generator.state, default=str)
        must = True
        a = rng.normal(0, 1.5, (nf, o["num_part"]))
        ms, tol = int(rng.integers(2, 15)), pick(rng, [1e-5, 0.5, 3.0])
        if op == "new":
            F = flory.mcmp.CoexistingPhasesFinder(I, E, N, pick(rng, cons), rng=g, progress=False, **{OPT[k]: v for k, v in o.items()}, **{KW[k]: v for k, v in kw.items()})
            seen += obs(F.omegas)
        elif op in ("run", "runx"):
            with np.errstate(all="ignore"):
                left = None if F.diagnostics == {} else F.diagnostics["revive_count_left"]
                r = F.run() if op == "run" else F.run(max_steps=ms, tolerance=tol, interval=3)
            seen += obs(r.volumes, r.fractions, F.omegas) + diag(F.diagnostics)
            must = (left is not None and F.diagnostics["revive_count_left"] < left) or copied(r, o["thr"])
        elif op == "random":
            F.reinitialize_random()
            seen += obs(F.omegas)
        elif op == "phis":
            F.reinitialize_from_phis(np.abs(a) / 5)
            seen += obs(F.omegas); must = False
        elif op == "setc":
            F.set_constraints(pick(rng, cons), if_reset_revive=bool(ms % 2)); must = False
        elif op == "chis":
            X = CLS["fh"](m, 1.0)
            X.set_random_chis(1.0, 2.0, vanishing_diagonal=bool(ms % 2), rng=g)
            seen += obs(X.chis)
        elif op == "factory":
            seen += obs(CLS["fh"].from_random_normal(m, 0.5, 1.5, vanishing_diagonal=bool(ms % 2), rng=g).chis)
        elif op == "fefactory":
            seen += obs(flory.FloryHuggins.from_random_normal(m, 0.5, 1.5, sizes=size[0], vanishing_diagonal=bool(ms % 2), rng=g).chis)
        elif op == "composition":
            seen += obs(flory.common.phases.get_uniform_random_composition(m, g))
        elif op == "shortcut":
            with np.errstate(all="ignore"):
                r = flory.find_coexisting_phases(n, chi, phi, size, rng=g, progress=False, **{OPT[k]: v for k, v in o.items()})
            seen += obs(r.volumes, r.fractions) + diag(r.info)
        drew.append([op, must, before != json.dumps(g.bit_generator.state, default=str)])
    time.time = REAL_TIME
    return seen, drew


def copied(r, thr):
    """some compartment was replaced by a copy, with several living ones to choose from"""
    rows = {tuple(x) for x in r.fractions}
    return len(rows) < r.num_phases and len({tuple(x) for x, v in zip(r.fractions, r.volumes) if v > 2 * thr}) > 1


def elsewhere(jobs, lean):
    """the same executions in another process, with another hash seed"""
    p = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps([jobs, lean])], env={**os.environ, "PYTHONHASHSEED": "4711"}, capture_output=True, text=True, timeout=600)
    lines = [l[8:] for l in p.stdout.splitlines() if l.startswith("OUTCOME ")]
    if len(lines) != 1:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(lines[0])


def attempt(h, s, lean):
    try:
        return world(h, s, False, s + 1, lean)[0]
    except Exception:  # noqa: BLE001
        return None
    finally:
        time.time = REAL_TIME


def twins(log, seed, file, part=0, of=1, rep=1, lean=False):
    hs = [json.loads(x) for x in open(file)]
    again = []
    for k, h in enumerate(hs):
        if k % of != part:
            continue
        for j in range(rep):
            log(op="reset")
            s = seed * 100003 + k * 11 + j
            try:
                a, da = world(h, s, False, s + 1, lean)
                b, db = world(h, s, True, s + 1, lean)
                c, _ = world(h, s, False, s + 2, lean)
            except Exception as e:  # noqa: BLE001
                if "nan" in repr(e).lower() or "infinite" in repr(e) or "finite" in repr(e):
                    continue        # diverged
                raise
            finally:
                time.time = REAL_TIME
            log(op="twin", props=["C12"], what="same-generator-same-outcome", a=a, b=b)
            if not lean and len(again) < 40:
                again.append((h, s, a))
            log(op="drew", props=["C12"], ops=[x[0] for x in da], must=[x[1] for x in da], did=[x[2] for x in da])
            if len(a) and any(x[1] for x in da):
                log(op="differ", props=["C12"], a=a, b=c)
    if again:
        for (h, s, a), b in zip(again, elsewhere([[h, s] for h, s, _ in again], lean)):
            log(op="reset")
            log(op="twin", props=["C12"], what="same-outcome-in-another-process", a=a, b=[] if b is None else b)


if __name__ == "__main__":
    jobs, lean = json.loads(sys.argv[1])
    print("OUTCOME " + json.dumps([attempt(h, s, lean) for h, s in jobs]))
