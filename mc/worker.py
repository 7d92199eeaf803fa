"""One shard of one check, on PyPy:  worker.py MODULE PROP TIER I N OUT PROGRESS [REPLAY]"""
import sys, json, os, time, traceback, importlib, warnings
warnings.simplefilter("ignore")
module, prop, tier, idx, n, out, prog = sys.argv[1:8]
idx, n = int(idx), int(n)
import core


class Ctx(object):
    def __init__(self):
        self.prop, self.tier, self.thorough = prop, tier, tier == "thorough"
        self.counts = {"states": 0, "transitions": 0, "traces": 0}
        self.violations, self.samples, self.assumptions, self.broken, self.known = [], [], [], [], {}
        self.level = "model_checking"
        self.task = None
        self.sets = {}

    def count(self, **kw):
        c = self.counts
        for k, v in kw.items():
            c[k] = c.get(k, 0) + v

    def violate(self, what, **detail):
        if len(self.violations) < 20:
            self.violations.append({"what": what, "task": self.task, "detail": core.jsonable(detail)})

    def distinct(self, kind, x):
        """counts distinct things over all workers"""
        self.sets.setdefault(kind, set()).add(x)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(core.jsonable(s))


def main():
    ctx = Ctx()
    try:
        mod = importlib.import_module(module)
        if len(sys.argv) > 8:
            tasks = [json.load(open(sys.argv[8]))["task"]]
        else:
            tasks = [t for k, t in enumerate(mod.tasks(prop, tier)) if k % n == idx]
    except Exception:
        ctx.broken.append(traceback.format_exc())
        tasks = []
    f = open(prog, "w")
    slow = []
    for t in tasks:
        t = json.loads(json.dumps(t))
        ctx.task = t
        f.seek(0); f.truncate(); f.write(json.dumps(t)); f.flush()
        t0 = time.time()
        try:
            mod.run(prop, t, ctx)
        except Exception as ex:
            tb = traceback.extract_tb(sys.exc_info()[2])
            inside = any("/acv_explainers/" in fr.filename or "/acv_app/" in fr.filename or "ext_acv" in fr.filename for fr in tb) or isinstance(ex, core.ApiError)
            if inside:
                ctx.violate("an operation of the library failed: %s" % repr(ex)[:300], traceback=traceback.format_exc()[-2000:])
            else:
                ctx.broken.append(traceback.format_exc())
                break
        slow.append((time.time() - t0, json.dumps(t)[:150]))
        if len(ctx.violations) >= 10:
            break
    slow.sort(reverse=True)
    if os.environ.get("MC_SLOW"):
        sys.stderr.write(repr(slow[:3]) + "\n")
        ctx.counts["slowest_ms"] = 0
    if os.environ.get("MC_SETS"): open(os.environ["MC_SETS"] + str(idx), "w").write(json.dumps({k: sorted(v) for k, v in ctx.sets.items()}))
    res = dict(sets={k: sorted(v) for k, v in ctx.sets.items()}, violations=ctx.violations, broken=ctx.broken, counts=ctx.counts, samples=ctx.samples, assumptions=ctx.assumptions,
               level=ctx.level, known=ctx.known, slow=slow[:3])
    with open(out + ".part", "w") as g:
        json.dump(res, g)
    os.rename(out + ".part", out)


main()
