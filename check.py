#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of flory.

TLC checks the specification, generates histories from it, and validates executions of the real code
against it; this file only starts those processes and reports what TLC found.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC, HARN, BUILD = (os.path.join(HERE, d) for d in ("spec", "harness", "build"))
JAR, CM = "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = "/opt/venv/bin/python"
sys.path.insert(0, HERE)


class Machinery(Exception):
    """the check itself failed: no answer"""


def build():
    os.makedirs(BUILD, exist_ok=True)
    src = glob.glob(os.path.join(HERE, "java", "*.java"))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, ".done")
        if os.path.exists(stamp) and all(os.path.getmtime(stamp) >= os.path.getmtime(s) for s in src):
            return
        subprocess.run(["javac", "-cp", JAR, "-d", BUILD, *src], check=True)
        open(stamp, "w").write("ok")


def tlc(module, cfg, scratch, name, env=None, workers=1, timeout=300, args=(), heap="3g"):
    """run TLC; returns its output"""
    meta = os.path.join(scratch, "meta-" + name)
    cfgf = os.path.join(scratch, name + ".cfg")
    with open(cfgf, "w") as fh:
        fh.write(cfg)
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *gc, "-Xss64m", f"-Xmx{heap}", "-XX:TieredStopAtLevel=1", f"-Djava.io.tmpdir={scratch}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides", "-cp", f"{BUILD}:{JAR}:{CM}", "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-nowarning", "-metadir", meta, "-config", cfgf, *args, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=scratch, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out: {name}")
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def tagged(out, tag):
    """the JSON values printed by the specification with PrintT(tag \\o ToJson(..))"""
    res = []
    for m in re.finditer(r'^"' + tag + r' (.*)"$', out, re.M):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out) or re.findall(r"(\d+) states generated.*?(\d+) distinct", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.t0 = time.time()
        self.states = self.trans = self.scen = self.events = 0
        self.stats, self.fails, self.models, self.samples, self.shards = {}, [], [], [], []
        self.replays = os.path.join(HERE, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)

    # -- the specification itself
    def model(self, name, module, cfg, workers=2, args=(), timeout=850, expect_error=None):
        out = tlc(module, cfg, self.scratch, "mc-" + name, workers=workers, args=args, timeout=timeout)
        d, g = counts(out)
        if expect_error:
            if expect_error not in out:
                raise Machinery(f"model {name}: expected '{expect_error}'\n" + out[-3000:])
        elif "No error has been found" not in out and "-simulate" not in args:
            raise Machinery(f"model {name} fails\n" + out[-3000:])
        elif "Error:" in out:
            raise Machinery(f"model {name} fails\n" + out[-3000:])
        self.states += d
        self.trans += g
        self.models.append({"model": name, "states": d, "transitions": g})
        return out

    def generate(self, name, module, cfg, args=(), tag="@H", sample=None):
        """histories from TLC, written one per line; sample: keep about that many, chosen by the seed"""
        out = self.model(name, module, cfg, workers=1, args=args)
        hs = tagged(out, tag)
        if not hs:
            raise Machinery(f"no histories from {name}\n" + out[-2000:])
        hs = list({json.dumps(h): h for h in hs}.values())
        total = len(hs)
        if sample and total > sample:
            step = total / sample
            hs = [hs[int((k + (self.seed * 0.37) % 1) * step)] for k in range(sample)]
        path = os.path.join(self.scratch, f"gen-{name}.ndjson")
        with open(path, "w") as fh:
            fh.writelines(json.dumps(h) + "\n" for h in hs)
        self.models[-1].update(histories=total, replayed=len(hs))
        return path

    # -- the real code
    def shard(self, name, fam, kw, seed, mode="py", module="FinderTrace", props=None, timeout=600, cfg=None):
        trace = os.path.join(self.scratch, name + ".ndjson")
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
               "PYTHONHASHSEED": "0", "HOME": self.scratch, "TMPDIR": self.scratch}
        env.pop("NUMBA_DISABLE_JIT", None)
        if mode == "py":
            env["NUMBA_DISABLE_JIT"] = "1"
        t = time.time()
        p = subprocess.Popen([PYTHON, os.path.join(HARN, "drive.py"), trace, fam, str(seed), json.dumps(kw)], cwd=self.scratch, env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise Machinery(f"driver timed out: {name}")
        if p.returncode != 0 and p.returncode != 3:
            if p.returncode < 0:    # the interpreter died inside the code under test
                with open(trace, "a") as fh:
                    fh.write("\n" + json.dumps({"op": "crash", "what": f"process-died-{-p.returncode}"}) + "\n")
            else:
                raise Machinery(f"driver failed: {name}\n{out[-3000:]}")
        lines = [x for x in open(trace) if x.strip()]
        with open(trace, "w") as fh:
            fh.writelines(lines)
        if not lines:
            raise Machinery(f"empty trace: {name}\n{out[-2000:]}")
        t1 = time.time()
        cfg = cfg or ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Props = {%s}\n" % ", ".join(f'"{x}"' for x in (props or [self.pid])))
        out = tlc(module, cfg, self.scratch, "tv-" + name, env={"TRACE": trace})
        done, fails = tagged(out, "@D"), tagged(out, "@F")
        if not done:
            # an event that the specification cannot even evaluate (a value of another shape, an unknown object) is no behaviour of it
            odd = "Attempted to" in out or "evaluating the nested" in out
            if odd and not fails and not any(x in out for x in ("OutOfMemory", "StackOverflow", "Parsing or semantic")):
                at = min(max(counts(out)[0], 1), len(lines))
                fails = [dict(line=at, op=json.loads(lines[at - 1])["op"], bad=["event-fits-the-specification"])]
            if not fails:
                raise Machinery(f"trace {name} not validated to its end\n" + "\n".join(x for x in out.splitlines() if not x.startswith("Loading"))[-4000:])
            done = [{}]
        return dict(name=name, fam=fam, kw=kw, seed=seed, mode=mode, lines=lines, stat=done[0], fails=fails, counts=counts(out), t=(round(t1 - t, 1), round(time.time() - t1, 1)))

    def run(self, jobs, par=8):
        """jobs: list of keyword dictionaries of shard(), or of model() (with a key "model")"""
        models = [j for j in jobs if "model" in j]
        jobs = [j for j in jobs if "model" not in j]
        for k, j in enumerate(jobs):
            j.setdefault("name", f"s{k}")
            j.setdefault("seed", self.seed * 1000 + k)
        jobs.sort(key=lambda j: j.get("mode", "py") != "jit")
        with cf.ThreadPoolExecutor(par) as ex:
            ms = [ex.submit(self.model, j["model"], j["module"], j["cfg"], workers=j.get("workers", 1)) for j in models]
            futs = [ex.submit(self.shard, **j) for j in jobs]
            for f in futs:
                self.take(f.result())
            for f in ms:
                f.result()

    def take(self, s):
        self.states += s["counts"][0]
        self.trans += s["counts"][1]
        self.scen += s["stat"].get("scenarios", 0)
        self.events += len(s["lines"])
        for k, v in s["stat"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.shards.append({k: s[k] for k in ("name", "fam", "mode", "seed", "t")} | {"events": len(s["lines"]), "scenarios": s["stat"].get("scenarios", 0)})
        if len(self.samples) < 4:
            ops = []
            for x in s["lines"]:
                e = json.loads(x)
                if e["op"] == "reset" and ops:
                    break
                ops.append({k: v for k, v in e.items() if k in ("op", "o", "t", "f", "part", "how", "args", "a", "what", "opts", "kw", "arg", "keep")})
            self.samples.append({"shard": s["name"], "mode": s["mode"], "first_scenario": json.loads(json.dumps(ops)[:1] and json.dumps(ops))[:12]})
        for f in s["fails"]:
            self.fails.append((s, f))

    # -- the verdict
    def finish(self):
        known = load_known()
        rc = 0
        reported, seen = 0, set()
        for s, f in self.fails:
            sc, start = [], f["line"]
            while start > 1 and json.loads(s["lines"][start - 1])["op"] != "reset":
                start -= 1
            sc = s["lines"][start - 1:f["line"]]
            ev = json.loads(s["lines"][f["line"] - 1])
            kf = next((k for k in known if matches(k, self.pid, f, ev)), None)
            if kf:
                if kf["what"] not in seen:
                    seen.add(kf["what"])
                    print(f"KNOWN-FINDING: property={self.pid} {kf['what']}")
                continue
            rc = 1
            key = (s["fam"], tuple(sorted(f["bad"])))
            if key in seen or reported >= 5:
                continue
            seen.add(key)
            reported += 1
            path = os.path.join(self.replays, f"{self.pid}-{reported}.ndjson")
            with open(path, "w") as fh:
                fh.write(json.dumps({"property": self.pid, "violated": sorted(f["bad"]), "operation": f["op"], "family": s["fam"], "mode": s["mode"],
                                     "driver": [s["fam"], s["seed"], s["kw"]], "detail": ev.get("detail", "")}) + "\n")
                fh.writelines(sc)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  clauses: {', '.join(sorted(f['bad']))} (operation {f['op']}, {s['fam']}, {s['mode']} mode)" + ("\n" + ev["detail"] if ev.get("detail") else ""))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.scen, "events": self.events,
                           "measured": {k: v for k, v in self.stats.items() if k != "scenarios"}, "models": self.models, "shards": self.shards, "samples": self.samples},
              "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 1), "violations": len([1 for _ in self.fails]) if rc else 0}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid} {self.tier}: {self.scen} executions, {self.events} events, {self.stats.get('steps', 0)} iterations against the specification; "
              f"{self.states} states; {ev['wall_s']} s; {'VIOLATED' if rc else 'holds'}")
        return rc


ASSUME = ["double precision results are compared with the exact specification up to 1e-9 relative to the magnitudes involved",
          "most executions run the sources under NUMBA_DISABLE_JIT=1; compiled execution is checked on a smaller set",
          "TLC and the rational arithmetic of java/Num.java (itself compared with a TLA+ reference in NumTest)"]


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    return [k for k in json.load(open(path)) if k.get("status") == "known"] if os.path.exists(path) else []


def matches(k, pid, f, ev):
    return k["property"] == pid and set(f["bad"]) <= set(k["clauses"]) and all(ev.get(a) == b for a, b in k.get("event", {}).items())


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        build()
    except Exception as e:  # noqa: BLE001
        print("build failed:", e)
        return 2
    if pid == "setup":
        return 0
    import plans
    r = Run(pid, tier, seed)
    try:
        plans.PLANS[pid](r, tier == "thorough")
        return r.finish()
    except Machinery as e:
        print("MACHINERY", e)
        if r.fails:
            return r.finish()
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch:", r.scratch)
        else:
            shutil.rmtree(r.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
