#!/bin/bash
# dev helper: prof.sh c01 kernel "substring of obligation"
cd "$(dirname "$0")"; . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 NUMBA_CACHE_DIR=/tmp/verif_numba PYTHONPATH=$PWD
exec $PY - "$@" <<'P'
import sys, threading, importlib, cProfile, pstats
sys.setrecursionlimit(20000); threading.stack_size(512*1024*1024)
def go():
    from engine import spec
    mod = importlib.import_module("contracts."+sys.argv[1])
    mk = next(c for c in mod.CASES if c.__name__ == sys.argv[2])
    def make():
        c = mk(); c.obl = [o for o in c.obl if sys.argv[3] in o["name"]]; return c
    make.__name__ = "x"
    p = cProfile.Profile(); r = p.runcall(spec.run_case, make, 1, 0)
    for o in r["obligations"]: print(o["status"], o["t"], o["name"], str(o.get("detail",""))[:300])
    pstats.Stats(p).sort_stats("tottime").print_stats(22)
t = threading.Thread(target=go); t.start(); t.join()
P
