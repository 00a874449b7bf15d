"""python -m bounded C01 out.json [case]: run the bounded cases of one property in parallel workers and merge."""
import os, sys, json, subprocess, tempfile, time


def main():
    prop, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    n = 1 if only else int(os.environ.get("VERIF_BOUNDED_WORKERS", "4"))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_b_")
    ps = []
    for i in range(n):
        env = dict(os.environ, VERIF_WORKER="%d/%d" % (i, n))
        f = os.path.join(tmp, "%d.json" % i)
        ps.append((f, subprocess.Popen([sys.executable, "-m", "bounded.common", prop, f] + ([only] if only else []), cwd=here, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    tot = None
    crashed = []
    for f, p in ps:
        txt = p.communicate()[0].decode(errors="replace")
        try:
            r = json.load(open(f))
        except Exception:
            crashed.append("worker exit %s: %s" % (p.returncode, txt[-1500:]))
            continue
        if tot is None:
            tot = r
        else:
            for k in ("evaluations", "cases", "distinct_nontrivial"):
                tot[k] += r[k]
            for k in ("failures", "skipped_for_time", "known"):
                tot[k] += r[k]
            tot["samples"] = (tot["samples"] + r["samples"])[:8]
    tot = tot or {"property": prop, "evaluations": 0, "cases": 0, "distinct_nontrivial": 0, "samples": [], "failures": [], "skipped_for_time": [], "known": [], "rule": ""}
    tot["crashed_workers"] = crashed
    seen, fl = set(), []
    for x in tot["failures"]:
        if x["case"] not in seen:
            seen.add(x["case"]); fl.append(x)
    tot["failures"] = fl
    tot["wall_s"] = round(time.time() - t0, 2)
    json.dump(tot, open(out, "w"), indent=1)
    subprocess.call(["rm", "-r", tmp])


main()
