"""lite.py C06 C07 ...: a fraction of the quick checks (no closed models, no compiled execution), stopping at the first violation.  For mutate.py only."""
import concurrent.futures as cf, hashlib, json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, plans
CUT = float(os.environ.get("LITE_CUT", "3"))
CACHE = "/tmp/lite-cache"
os.makedirs(CACHE, exist_ok=True)


class Found(Exception):
    pass


class Lite(check.Run):
    def model(self, name, module, cfg, **kw):
        if kw.get("expect_error") or name == "leaky-design-fails":
            return ""
        return super().model(name, module, cfg, **kw)

    def generate(self, name, module, cfg, args=(), tag="@H", sample=None):
        path = os.path.join(CACHE, hashlib.sha1(json.dumps([name, module, cfg, list(args), sample, open(os.path.join(check.HERE, "spec", module + ".tla")).read()]).encode()).hexdigest())
        if not os.path.exists(path):
            p = super().generate(name, module, cfg, args=args, tag=tag, sample=sample)
            shutil.copy(p, path + f".{os.getpid()}")
            os.rename(path + f".{os.getpid()}", path)
        return path

    def run(self, jobs, par=8):
        out, seen = [], {}
        for k, j in enumerate(jobs):
            if "model" in j or j.get("mode") == "jit":
                continue
            j.setdefault("name", f"s{k}")
            j.setdefault("seed", self.seed * 1000 + k)
            kw = dict(j["kw"])
            if "n" in kw:
                kw["n"] = max(2, int(kw["n"] / CUT))
            elif "of" in kw:
                if kw["part"] % int(CUT):
                    continue
            out.append({**j, "kw": kw})
        with cf.ThreadPoolExecutor(int(os.environ.get("LITE_PAR", "4"))) as ex:
            futs = [ex.submit(self.shard, **j) for j in out]
            for f in cf.as_completed(futs):
                s = f.result()
                if s["fails"]:
                    for g in futs:
                        g.cancel()
                    raise Found(f"{self.pid} {sorted(s['fails'][0]['bad'])} {s['fam']}")


for pid in sys.argv[1:]:
    r = Lite(pid, "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        plans.PLANS[pid](r, False)
    except Found as e:
        print("FOUND", e)
        sys.exit(1)
    except check.Machinery as e:
        print("MACHINERY", pid, str(e)[-300:])
        sys.exit(2)
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)
print("nothing")
