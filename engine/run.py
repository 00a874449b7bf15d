"""python -m engine.run C05 out.json [case]: check contracts/c05.py against /repo's current source."""
import os, sys, json, time, importlib, traceback, signal
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.setrecursionlimit(20000)
import threading, warnings
warnings.filterwarnings("ignore", category=DeprecationWarning)


def main():
    prop, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    budget = float(os.environ.get("VERIF_ENGINE_S", "600" if os.environ.get("VERIF_TIER", "quick") == "quick" else "5400"))
    R = {"obligations": [], "functions": [], "assumptions": [], "trusted_base": [], "backends": {}, "solver_s": 0.0, "unreached": [], "vacuity": 0, "error": None, "cross_checks": 0}
    try:
        from . import spec, solve
        mod = importlib.import_module("contracts." + prop.lower())
        cases = mod.CASES
        if only: cases = [c for c in cases if only in c.__name__]
        nw = min(int(os.environ.get("VERIF_ENGINE_W", "6")), len(cases))
        import tempfile
        tmp = tempfile.mkdtemp(prefix="verif_eng_")
        todo = list(range(len(cases))); pids = {}; results = [None] * len(cases)

        def child(i):
            f = os.path.join(tmp, "%d.json" % i)
            try:
                seed = int(os.environ.get("VERIF_SEED", "1")) + 1000 * i
                r = getattr(cases[i], "runner", None)
                r = r(seed) if r else spec.run_case(cases[i], seed)
                r["stats"] = dict(solve.STATS)
                json.dump(r, open(f, "w"))
            except BaseException:
                json.dump({"crash": traceback.format_exc()[-1500:]}, open(f, "w"))
            os._exit(0)

        def big(i):
            threading.stack_size(512 * 1024 * 1024)
            t = threading.Thread(target=child, args=(i,)); t.start(); t.join(); os._exit(1)
        while todo or pids:
            while todo and len(pids) < nw:
                i = todo.pop(0); sys.stdout.flush(); p = os.fork()
                if p == 0: big(i)
                pids[p] = i
            p, st = os.waitpid(-1, os.WNOHANG)
            if p in pids:
                i = pids.pop(p)
                try: results[i] = json.load(open(os.path.join(tmp, "%d.json" % i)))
                except Exception: results[i] = {"crash": "worker ended with status %s" % st}
            elif time.time() - t0 > budget:
                for q, i in pids.items():
                    os.kill(q, signal.SIGKILL); os.waitpid(q, 0); results[i] = {"crash": "time budget"}
                for i in todo: results[i] = {"crash": "time budget"}
                break
            else: time.sleep(0.05)
        import shutil; shutil.rmtree(tmp)
        for c, r in zip(cases, results):
            if r is None or "crash" in r:
                R["obligations"].append({"name": c.__name__, "function": c.__name__, "status": "unsupported", "detail": (r or {}).get("crash")}); continue
            R["obligations"] += r["obligations"]
            if not r["obligations"]: R["obligations"].append({"name": c.__name__, "function": c.__name__, "status": "unsupported", "detail": "no obligation generated"})
            for f in r["functions"]:
                if f not in R["functions"]: R["functions"].append(f)
            for a in r["assumptions"]:
                if a not in R["assumptions"]: R["assumptions"].append(a)
            for a in r.get("den_assumed", []):
                a = "denominator assumed non-zero: " + a
                if a not in R["assumptions"] and len(R["assumptions"]) < 60: R["assumptions"].append(a)
            R["cross_checks"] += r.get("cross", 0); R["vacuity"] += 1
            s = r.get("stats", {})
            R["solver_s"] = round(R["solver_s"] + s.get("z3_s", 0), 3)
            for k in ("z3_queries", "nf"): R["backends"][k] = R["backends"].get(k, 0) + s.get(k, 0)
        R["unreached"] = getattr(mod, "UNREACHED", [])
        R["assumptions"] += [a for a in getattr(mod, "ASSUMPTIONS", []) if a not in R["assumptions"]]
        R["trusted_base"] = ["jax.make_jaxpr (the extraction of the real functions)", "engine/jx.py, engine/pyk.py (translation of jaxprs / kernel source to terms; cross-checked against the running code on sampled inputs every run)",
                             "engine/terms.py, engine/solve.py (simplifier, polynomial normal form)", "z3 %s" % __import__("z3").get_version_string(), "floating point treated as exact real/complex arithmetic, machine integers as unbounded unless unsigned"]
    except Exception:
        R["error"] = traceback.format_exc()[-2000:]
    R["wall"] = round(time.time() - t0, 1)
    json.dump(R, open(out, "w"), indent=1)
    for o in R["obligations"]:
        if o["status"] == "discharged" and len(R["obligations"]) > 60 and not os.environ.get("VERIF_SHOW"): continue
        print("%-11s %6.1fs %s %s" % (o["status"], o.get("t", 0), o["name"], "" if o["status"] == "discharged" else str(o.get("detail", ""))[:int(os.environ.get("VERIF_SHOW", "400"))] + " " + str(o.get("model", ""))[:400]))
    if R["error"]: print(R["error"])
    print("wall", R["wall"], "solver", R["solver_s"], R["backends"], "cross", R["cross_checks"])


main()
