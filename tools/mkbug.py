"""usage: python3 tools/mkbug.py spec.py   -- spec defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
creates /verif/seeded/<id>/ after confirming in a scratch copy: applies, stable tests pass, demo 0 without / nonzero with the patch."""
import sys, os, json, subprocess, shutil, runpy
SC = "/tmp/mkbug_repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    if os.path.isdir(SC): shutil.rmtree(SC)
    sh("cp -a /repo %s" % SC); sh("git -C %s checkout -q -- ." % SC)
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\nexec "$PY" "$d/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
    ok = True
    for f, o, n in b["edits"]:
        p = SC + "/" + f; s = open(p).read()
        if s.count(o) != 1: print(b["id"], "edit matches", s.count(o), "times:", o[:60]); ok = False; break
        open(p, "w").write(s.replace(o, n))
    if not ok: shutil.rmtree(d); continue
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=SC).stdout)
    r1 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
    # stable tests in the scratch copy
    sh("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/mkbug_test.sh" % SC)
    t = sh("bash /tmp/mkbug_test.sh /tmp/mkbug_t.json", cwd=SC) if not os.environ.get("NOTEST") else None
    res = json.load(open("/tmp/mkbug_t.json")) if t else None
    passed = set(res["passed"]) if res else stable
    good = r0.returncode == 0 and r1.returncode != 0 and stable <= passed
    print(b["id"], "demo clean", r0.returncode, "patched", r1.returncode, "tests", "ok" if stable <= passed else "BROKEN %s" % (stable - passed), "KEPT" if good else "REJECTED")
    if r0.returncode: print(r0.stderr[-800:])
    if not r1.returncode: print(r1.stdout[-300:])
    if not good: shutil.rmtree(d)
if os.path.isdir(SC): shutil.rmtree(SC)
