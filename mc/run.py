#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [quick|thorough]   or   run.py --replay <file>

Builds the native modules from /repo's working tree, shards the property's exhaustive enumeration over
worker processes that run on the interpreter the repository is tested with (PyPy 3.9), merges what they
covered, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines, and exits 0 or 1
(2: the machinery itself could not run).
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

NO_PROGRESS = 240.0     # seconds a worker may spend inside one task (normal: well under 10)


def env_for(lib, threads):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "LD_PRELOAD")}
    e.update(HOME="/root", PATH=B.VENV + "/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg",
             PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", OMP_NUM_THREADS=str(threads),
             OMP_THREAD_LIMIT=str(threads), OMP_WAIT_POLICY="PASSIVE", OMP_DYNAMIC="FALSE",
             PYTHONPATH=os.pathsep.join([lib, B.REPO, HERE]), ACV_VERIF="1")
    return e


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "open":
                    out.append(k)
    return out


def run_workers(module, prop, tier, lib, nworkers, replay=None, omp=1):
    scratch = tempfile.mkdtemp(prefix="acv-mc-")
    try:
        threads = int(os.environ.get("MC_OMP", omp))
        env = env_for(lib, threads)
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.makedirs(env["MPLCONFIGDIR"])
        procs = []
        for i in range(nworkers):
            out = os.path.join(scratch, "out%d.json" % i)
            prog = os.path.join(scratch, "prog%d" % i)
            log = open(os.path.join(scratch, "log%d" % i), "wb")
            cmd = [B.VENV + "/bin/python", os.path.join(HERE, "worker.py"), module, prop, tier, str(i), str(nworkers), out, prog]
            if replay:
                cmd.append(replay)
            procs.append([subprocess.Popen(cmd, env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
                                           start_new_session=True), out, prog, log.name, None])
        alive = set(range(nworkers))
        last = {i: (None, time.time()) for i in alive}
        results, crashes = [], []
        while alive:
            time.sleep(0.05)
            for i in sorted(alive):
                p, out, prog, logn, _ = procs[i]
                rc = p.poll()
                if rc is None:
                    try:
                        st = os.stat(prog)
                        key = (st.st_mtime_ns, st.st_size)
                    except OSError:
                        key = None
                    if key != last[i][0]:
                        last[i] = (key, time.time())
                    elif time.time() - last[i][1] > NO_PROGRESS:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                        crashes.append(("no progress for %d s" % NO_PROGRESS, prog, logn))
                        alive.discard(i)
                    continue
                alive.discard(i)
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    crashes.append(("worker ended with status %d" % rc, prog, logn))
        cr = []
        for why, prog, logn in crashes:
            task = open(prog).read() if os.path.exists(prog) else ""
            tail = open(logn, errors="replace").read()[-3000:]
            cr.append((why, task, tail))
        return results, cr
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    t0 = time.time()
    args = sys.argv[1:]
    replay = None
    if args and args[0] == "--replay":
        replay = os.path.abspath(args[1])
        r = json.load(open(replay))
        prop, tier = r["property"], r.get("tier", "quick")
    else:
        prop = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
    rdir = os.path.join(VERIF, "replay")
    if not replay and os.path.isdir(rdir):
        for fn in os.listdir(rdir):
            if fn.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, fn))
    registry = json.load(open(os.path.join(HERE, "registry.json")))
    ent = registry[prop]
    module = ent["module"]
    nw = 1 if replay else int(os.environ.get("MC_WORKERS", ent.get("workers", 8)))
    try:
        kw = ent.get("build", {})
        lib = B.build(**kw)
    except Exception as ex:
        print("cannot build /repo's native modules:", ex)
        return 2
    tb = time.time() - t0
    results, crashes = run_workers(module, prop, tier, lib, nw, replay, ent.get("omp", 1))
    viol, broken = [], []
    cov, sets = {}, {}
    states = set()
    samples, assumptions, level, known_seen = [], [], "model_checking", {}
    for r in results:
        viol += r["violations"]
        broken += r["broken"]
        for k, v in r["counts"].items():
            cov[k] = cov.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples += r["samples"]
        assumptions = r["assumptions"] or assumptions
        level = r.get("level", level)
        for k, v in r["known"].items():
            known_seen.setdefault(k, v)
    for why, task, tail in crashes:
        if task:
            viol.append({"what": "the code under test took the process down or never returned (%s)" % why,
                         "task": json.loads(task), "detail": tail[-800:]})
        else:
            broken.append(why + "\n" + tail)
    rc = 0
    if broken:
        print("the check could not run:", broken[0][-3000:])
        rc = 2
    if viol:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        viol.sort(key=lambda v: (len(json.dumps(v.get("task"))), json.dumps(v.get("task"))))
        for n, v in enumerate(viol[:5]):
            body = json.dumps({"property": prop, "tier": tier, **v}, indent=1, sort_keys=True)
            path = replay or os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
            if not replay:
                open(path, "w").write(body)
            print("  " + v["what"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in load_known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if replay:
        return rc
    for k, v in sets.items():
        cov["distinct_" + k] = len(v)
    wall = time.time() - t0
    samples = samples[:6]
    coverage = {"states": cov.pop("states", 0), "transitions": cov.pop("transitions", 0),
                "traces_validated_against_impl": cov.pop("traces", 0), "samples": samples,
                "exhaustive": True, "rule": ent.get("rule", ""), "bounds": ent.get("bounds", {}).get(tier, ent.get("bounds", "")),
                "counters": cov, "workers": nw, "build_s": round(tb, 1)}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": coverage, "assumptions": assumptions or ent.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if rc != 2:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d states, %d transitions, %d traces against the implementation, %d violations, %.1f s (build %.1f s) %s"
          % (prop, tier, coverage["states"], coverage["transitions"], coverage["traces_validated_against_impl"], len(viol), wall, tb,
             json.dumps(cov, sort_keys=True)))
    return rc


if __name__ == "__main__":
    sys.exit(main())
