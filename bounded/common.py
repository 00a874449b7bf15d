"""Concrete harness: runs the *real* code of /repo (imported from the working tree) on
generated inputs and compares with independent oracles.  It is the bounded stand-in and the
source of replayable failing inputs; it is never counted as proof."""
import os, sys, json, time, zlib, traceback, warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np


class Mismatch(Exception):
    pass


def _desc(x, n=600):
    try:
        s = np.array2string(np.asarray(x), threshold=60, precision=8) if isinstance(x, np.ndarray) or hasattr(x, "shape") else repr(x)
    except Exception as e:  # pragma: no cover
        s = "<%s>" % type(x).__name__
    return s if len(s) <= n else s[:n] + "..."


class Harness:
    def __init__(self, prop, seed, tier, only=None):
        self.prop, self.seed, self.tier, self.only = prop, seed, tier, only
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.failures = []
        self.cases = 0
        self.errors = []
        self.t0 = time.time()
        self.budget = 1e9
        self.skipped = []
        w = os.environ.get("VERIF_WORKER", "0/1").split("/")
        self.known = []
        kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
        self._kf = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
        self.worker, self.nworkers = int(w[0]), int(w[1])
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def case(self, name, fn, *args, repeat=1, optional=False):
        """Run fn(rng, h, *args) `repeat` times, each with its own rng derived from
        (seed, property, name, index).  A raised exception is a failing input too."""
        for i in range(repeat):
            key = "%s#%d" % (name, i)
            if self.only is not None and key != self.only:
                continue
            self._n += 1
            if self.only is None and (self._n - 1) % self.nworkers != self.worker:
                continue
            if optional and time.time() - self.t0 > self.budget:
                self.skipped.append(key)
                continue
            self.cases += 1
            rng = np.random.default_rng([self.seed, zlib.crc32(self.prop.encode()), zlib.crc32(name.encode()), i])
            self._cur = key
            self._inputs = {}
            n0 = self.evals
            try:
                fn(rng, self, *args)
            except Mismatch as e:
                self._fail(key, str(e))
            except Exception as e:
                tb = traceback.format_exc().strip().splitlines()
                self._fail(key, "exception: %s: %s\n%s" % (type(e).__name__, str(e)[:400], "\n".join(tb[-8:])))
            if self.evals == n0:
                self.evals += 1

    def _fail(self, key, msg):
        import re
        for k in self._kf:
            if re.search(k["case"], key) and re.search(k["match"], msg):
                self.known.append({"id": k["id"], "case": key, "inputs": dict(self._inputs)})
                return
        self.failures.append({"case": key, "inputs": dict(self._inputs), "message": msg[:4000]})

    def inputs(self, **kw):
        for k, v in kw.items():
            self._inputs[k] = _desc(v)

    def close(self, what, got, want, tol=1e-8, nontrivial=True):
        self.evals += 1
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape:
            raise Mismatch("%s: shape %s, expected %s\n got=%s\n want=%s" % (what, got.shape, want.shape, _desc(got), _desc(want)))
        if got.size:
            g = got.astype(complex) if got.dtype != bool else got.astype(float)
            w = want.astype(complex) if want.dtype != bool else want.astype(float)
            fg, fw = np.isfinite(g), np.isfinite(w)
            if not np.array_equal(fg, fw):
                raise Mismatch("%s: non-finite pattern differs\n got=%s\n want=%s" % (what, _desc(got), _desc(want)))
            err = np.abs(np.where(fg, g - w, 0.0))
            lim = tol * (1.0 + np.abs(np.where(fw, w, 0.0)))
            if not np.all(err <= lim):
                raise Mismatch("%s: max error %.3g\n got=%s\n want=%s" % (what, float(err.max()), _desc(got), _desc(want)))
        if nontrivial and got.size:
            self._note(what, want)

    def ok(self, what, cond, detail="", nontrivial=True):
        self.evals += 1
        if not bool(cond):
            raise Mismatch("%s %s" % (what, detail))
        if nontrivial:
            self._note(what, detail)

    def _note(self, what, val):
        sig = (self._cur.split("#")[0], what, zlib.crc32(repr(_desc(val)).encode()), tuple(sorted(self._inputs.items())))
        h = zlib.crc32(repr(sig).encode())
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < 6 and (not self.samples or self.samples[-1]["case"] != self._cur):
                self.samples.append({"case": self._cur, "what": what, "inputs": dict(self._inputs), "value": _desc(val, 200)})

    def report(self):
        return {"property": self.prop, "seed": self.seed, "tier": self.tier, "evaluations": self.evals,
                "cases": self.cases, "distinct_nontrivial": len(self.nontrivial), "samples": self.samples,
                "failures": self.failures, "skipped_for_time": self.skipped, "known": self.known, "wall_s": round(time.time() - self.t0, 2)}


def main():
    import importlib
    prop, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    h = Harness(prop, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"), only)
    h.budget = float(os.environ.get("VERIF_BOUNDED_BUDGET", "60" if h.tier == "quick" else "600"))
    try:
        mod = importlib.import_module("bounded." + prop.lower())
        mod.run(h)
        h.rule = getattr(mod, "RULE", "")
    except Exception:
        # the module under test does not even import / a fixture could not be built
        h._cur = "import"; h._inputs = {}
        h._fail("import", "exception while importing or setting up: " + traceback.format_exc()[-2500:])
    r = h.report(); r["rule"] = getattr(h, "rule", "")
    json.dump(r, open(out, "w"), indent=1)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from bounded import common as _c
    _c.main()
