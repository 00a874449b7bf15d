#!/usr/bin/env python3
"""python3 run_check.py C01 [quick|thorough]

Two stages, run in parallel on /repo's current working tree:
  * the deductive stage (engine/run.py): contracts/<id>.py are checked against the real source, every
    generated obligation is discharged by a solver for all inputs;
  * the bounded stage (python -m bounded, the repository's own interpreter): the real code on generated inputs against
    independent oracles.  It stands in for functions outside the verifier's reach and supplies failing inputs.

Exit 0: held (known findings are printed).  Exit 1: VIOLATION line.  Anything else: the check itself failed."""
import os, sys, json, subprocess, time, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
LIMIT = 780 if TIER == "quick" else 7200


def venv_env():
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_REPO=REPO)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["NUMBA_CACHE_DIR"] = "/tmp/verif_numba"
    env.setdefault("JAX_PLATFORMS", "cpu")
    env["PYTHONPATH"] = HERE
    return env


def repo_python():
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; echo $PY; env -0 | base64 -w0"], capture_output=True, text=True, timeout=60).stdout.split("\n")
        py = out[0].strip()
        import base64
        e = dict(kv.split("=", 1) for kv in base64.b64decode(out[1]).decode(errors="replace").split("\0") if "=" in kv)
        if py:
            return py, e
    except Exception:
        pass
    return "/opt/venv/bin/python", dict(os.environ)


def start(cmd, env, log):
    return subprocess.Popen(cmd, env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT, preexec_fn=os.setsid)


def finish(p, deadline):
    try:
        p.wait(timeout=max(1, deadline - time.time()))
        return True
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return False


def load(f):
    try:
        return json.load(open(f))
    except Exception:
        return None


def main():
    os.makedirs("evidence", exist_ok=True)
    rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % PROP)
    py, penv = repo_python()
    env = dict(penv); env.update(venv_env())
    bo, eo = os.path.join(tmp, "b.json"), os.path.join(tmp, "e.json")
    pb = start([py, "-m", "bounded", PROP, bo], env, os.path.join(tmp, "b.log"))
    pe = None
    if os.path.exists(os.path.join(HERE, "contracts", PROP.lower() + ".py")):
        pe = start([py, "-m", "engine.run", PROP, eo], env, os.path.join(tmp, "e.log"))
    deadline = T0 + LIMIT
    okb = finish(pb, deadline)
    oke = finish(pe, deadline) if pe else True
    b, e = load(bo), load(eo)
    blog, elog = open(os.path.join(tmp, "b.log")).read()[-3000:], (open(os.path.join(tmp, "e.log")).read()[-3000:] if pe else "")
    subprocess.call(["rm", "-r", tmp])
    known = json.load(open("known_findings.json"))["findings"]

    viol = []
    if b:
        for f in b["failures"]:
            path = os.path.join(rd, "%s_%s.json" % (PROP, re.sub(r"[^A-Za-z0-9_.-]", "_", f["case"])))
            json.dump({"property": PROP, "kind": "failing input against the real code", "case": f["case"], "seed": SEED, "tier": TIER, "inputs": f["inputs"], "message": f["message"],
                       "replay_cmd": "cd %s && . /opt/vp/env.sh && VERIF_SEED=%d VERIF_TIER=%s $PY -m bounded %s /tmp/replay.json '%s'" % (HERE, SEED, TIER, PROP, f["case"])}, open(path, "w"), indent=1)
            viol.append((path, "", f["case"] + ": " + f["message"].splitlines()[0]))
    obl = (e or {}).get("obligations", [])
    refuted = [o for o in obl if o["status"] == "refuted"]
    for o in refuted:
        path = os.path.join(rd, "%s_obl_%s.json" % (PROP, re.sub(r"[^A-Za-z0-9_.-]", "_", o["name"])[:80]))
        rep = o.get("replayed")
        json.dump({"property": PROP, "kind": "failed obligation", "obligation": o["name"], "function": o.get("function"), "statement": o.get("statement"), "verifier_output": o.get("detail"),
                   "counterexample": o.get("model"), "replayed": rep, "backend": o.get("backend")}, open(path, "w"), indent=1)
        viol.append((path, "" if rep else " no-failing-input-found", "obligation %s refuted" % o["name"]))
    # the proof attempt ran to its end (no time limit, no solver give-up) and did not go through
    failed = [o for o in obl if o["status"] == "unknown" and o.get("failed")]
    for o in failed:
        path = os.path.join(rd, "%s_obl_%s.json" % (PROP, re.sub(r"[^A-Za-z0-9_.-]", "_", o["name"])[:80]))
        json.dump({"property": PROP, "kind": "failed obligation, no failing input found", "obligation": o["name"], "function": o.get("function"), "statement": o.get("statement"), "verifier_output": o.get("detail"),
                   "replayed": False, "backend": o.get("backend")}, open(path, "w"), indent=1)
        viol.append((path, " no-failing-input-found", "obligation %s not discharged: %s" % (o["name"], str(o.get("detail"))[:160])))
    wall = round(time.time() - T0, 2)

    n_obl = len(obl)
    n_dis = sum(o["status"] == "discharged" for o in obl)
    open_ = [o for o in obl if o["status"] not in ("discharged", "refuted")]
    assum = list((e or {}).get("assumptions", []))
    assum.append("the bounded stage is a sample of inputs (rule and counts below); it is never counted as proved")
    cov = {}
    proved = n_obl > 0 and n_dis == n_obl and not (e or {}).get("unreached")
    if n_obl:
        cov.update({"obligations": n_obl, "discharged": n_dis, "checker_cmd": ". /opt/vp/env.sh; $PY -m engine.run %s out.json" % PROP,
                    "trusted_base": (e or {}).get("trusted_base", []), "functions_under_contract": (e or {}).get("functions", []),
                    "backends": (e or {}).get("backends", {}), "solver_s": (e or {}).get("solver_s", 0.0),
                    "not_discharged": [{"name": o["name"], "status": o["status"], "why": str(o.get("detail", ""))[:300]} for o in open_],
                    "outside_reach": (e or {}).get("unreached", []),
                    "vacuity_checks": (e or {}).get("vacuity", 0),
                    "obligation_names": [o["name"] for o in obl][:400]})
    if b:
        cov.update({"evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"], "rule": "bounded stand-in: " + b.get("rule", ""), "samples": b["samples"],
                    "bounded_cases": b["cases"], "bounded_skipped_for_time": b["skipped_for_time"]})
    man = load("MANIFEST.json") or {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == PROP), "exploration")
    if level == "proof" and (n_obl == 0 or n_dis < n_obl):
        level = "exploration"
        assum.append("on this tree some obligations could not be generated or decided (see not_discharged); the bounded stage stands in for them on this run")
    if not cov:
        cov = {"explanation": "neither stage produced a result", "evaluations": 0}
    json.dump({"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assum, "wall_s": wall, "violations": len(viol)},
              open("evidence/%s.json" % PROP, "w"), indent=1)
    print("%s: bounded %s cases, %s comparisons; deductive %d/%d obligations discharged; %.1fs" % (PROP, (b or {}).get("cases"), (b or {}).get("evaluations"), n_dis, n_obl, wall))
    for o in open_:
        print("note: obligation %s %s: %s" % (o["name"], o["status"], str(o.get("detail", ""))[:200]))
    if (e or {}).get("error"):
        print("note: deductive stage: " + e["error"][:1500])
    # known findings
    if b:
        for k in known:
            if k["property"] != PROP:
                continue
            hit = [x["case"] for x in b["known"] if x["id"] == k["id"]]
            if hit:
                print("KNOWN-FINDING: property=%s %s (cases %s)" % (PROP, k["what"], ", ".join(hit)))
    if viol:
        viol.sort(key=lambda v: v[1])
        for path, suffix, why in viol[:6]:
            print("  " + why[:300])
            print("VIOLATION property=%s replay=%s%s" % (PROP, path, suffix))
        return 1
    if b is None or b.get("crashed_workers") or not okb:
        if not (proved and oke):
            print("ERROR: bounded stage gave no result", blog, (b or {}).get("crashed_workers"), file=sys.stderr)
            return 2
    elif b["evaluations"] == 0 or b["distinct_nontrivial"] == 0:
        print("ERROR: bounded stage compared nothing", file=sys.stderr)
        return 2
    if pe and e is None:
        print("note: deductive stage gave no result (%s); bounded stage decides this run\n%s" % ("crashed" if oke else "time limit", elog[-800:]))
    return 0


sys.exit(main())
