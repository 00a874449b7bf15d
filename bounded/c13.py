import numpy as np
from . import oracle as O
RULE = ("all configurations of chains up to 6 sites and random longer chains, random (also zero/equal) rates and tilts; "
        "non-trivial: distinct compared row")


def asep_row(x, lam, a, b, g, d_, p, q):
    """<x'|W|x> generator: moves out of x and escape rates"""
    L = len(x); x = tuple(int(v) for v in x); d = {}
    el, em = np.exp(lam), np.exp(-lam)
    def setv(i, v):
        y = list(x); y[i] = v; return tuple(y)
    if x[0] == 0:
        O.add(d, setv(0, 1), a * el); O.add(d, x, -a)
    else:
        O.add(d, setv(0, 0), g * em); O.add(d, x, -g)
    if x[L - 1] == 0:
        O.add(d, setv(L - 1, 1), b * em); O.add(d, x, -b)
    else:
        O.add(d, setv(L - 1, 0), d_ * el); O.add(d, x, -d_)
    for i in range(L - 1):
        if x[i] == 1 and x[i + 1] == 0:
            y = list(x); y[i], y[i + 1] = 0, 1
            O.add(d, tuple(y), p * el); O.add(d, x, -p)
        if x[i] == 0 and x[i + 1] == 1:
            y = list(x); y[i], y[i + 1] = 1, 0
            O.add(d, tuple(y), q * em); O.add(d, x, -q)
    return O.clean(d)


def run(h):
    import netket as nk
    from GPSKet.operator.hamiltonian import AsymmetricSimpleExclusionProcess as ASEP
    import itertools

    def build(rng, kind):
        r = dict(lambd=float(rng.normal()), alpha=rng.random(), beta=rng.random(), gamma=rng.random(), delta=rng.random(), p=rng.random(), q=rng.random())
        if kind == "stochastic":
            r["lambd"] = 0.0
        if kind == "default":
            r = dict(lambd=0.0, alpha=.5, beta=.5, gamma=.5, delta=.5, p=.5, q=.5)
        if kind == "zeros":
            for k in list(r):
                if rng.random() < 0.5:
                    r[k] = 0.0
        if kind == "sum2":
            a, b = rng.random(2)
            r.update(lambd=0.0, alpha=a, gamma=b, beta=1.0 - a, delta=1.0 - b, q=r["p"])
        if kind == "sym":
            r.update(lambd=0.0, gamma=r["alpha"], delta=r["beta"], q=r["p"])
        return r

    def case(rng, h, L, kind, n):
        r = build(rng, kind)
        h.inputs(L=L, **r)
        hi = nk.hilbert.Qubit(L)
        op = ASEP(hi, **r)
        x = np.array(list(itertools.product((0, 1), repeat=L)), dtype=float) if n is None else rng.integers(0, 2, (n, L)).astype(float)
        args = [r[k] for k in ("lambd", "alpha", "beta", "gamma", "delta", "p", "q")]
        rows = None
        for dt in (float, np.int8, np.int64):
            rows, _ = O.rows_from_conn(op, x.astype(dt))
            for b in range(len(x)):
                h.inputs(config=x[b])
                m = O.same_rows(rows[b], asep_row(x[b], *args))
                h.ok("generator row", m is None, m or str(x[b]))
                if r["lambd"] == 0.0:
                    h.ok("escape rates balance", abs(sum(rows[b].values())) < 1e-10, str(sum(rows[b].values())))
        if n is None:
            idx = {tuple(int(v) for v in c): k for k, c in enumerate(x)}
            M = np.zeros((len(x),) * 2, dtype=complex)
            for k, rr in enumerate(rows):
                for c, v in rr.items():
                    M[k, idx[c]] += v
            if bool(op.is_hermitian):
                h.close("claimed hermitian", M, M.conj().T)
            if kind in ("default",):
                h.ok("default is hermitian", bool(op.is_hermitian))
    for k in ("generic", "stochastic", "default", "zeros", "sum2", "sym"):
        for L in (1, 2, 3, 5):
            h.case("enum-%s-%d" % (k, L), case, L, k, None)
        h.case("long-%s" % k, case, 23, k, 6, repeat=2)
    h.case("longer-generic", case, 131, "generic", 3)
