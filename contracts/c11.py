"""C11: GPS amplitudes follow their definition"""
from .util import *
from GPSKet.models import qGPS
import GPSKet.models.qGPS as qmod
import GPSKet.models.plaquetteqGPS as plmod
from GPSKet.models.plaquetteqGPS import PlaquetteqGPS
import GPSKet.nn.initializers as inits
import GPSKet.models.segmented_qGPS as segmod
from GPSKet.models.segmented_qGPS import SegGPS
from GPSKet.hilbert import FermionicDiscreteHilbert

QF = "GPSKet/models/qGPS.py:qGPS.__call__"


def syms_of(perm, flip):
    """documented interface of the syms argument, for arbitrary permutations (columns of perm)"""
    def symmetries(x):
        out = jnp.take(x, perm, axis=-1)
        return jnp.concatenate((out, 1 - out), axis=-1) if flip else out
    return symmetries


def qgps_plain(D, dtype):
    def make():
        c = Case("qGPS plain D=%d %s" % (D, dtype.__name__), [QF, "GPSKet/models/qGPS.py:no_syms"], "b, L, M", dict(b=(1, 2), L=(1, 4), M=(1, 3)))
        eps = c.input("eps", lambda d: (D, d.M, d.L), dtype)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        out = c.run(lambda d: (lambda e, x: qGPS(Hilb(d.L, D), d.M, dtype=dtype).apply({"params": {"epsilon": e}}, x)))
        c.ensure("log-amplitude is the sum over support of site products", out, lambda n: Sum(c.T("M"), lambda m: Prod(c.T("L"), lambda l: eps(x(n, l), m, l))))
        return c
    make.__name__ = "qgps_plain_%d_%s" % (D, dtype.__name__)
    return make


def qgps_sym(flip):
    def make():
        c = Case("qGPS symmetrised flip=%s" % flip, [QF], "b, L, M, T", dict(b=(1, 2), L=(1, 4), M=(1, 2), T=(1, 3)))
        eps = c.input("eps", lambda d: (2, d.M, d.L), complex)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, 2)
        p = c.input("perm", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)
        out = c.run(lambda d: (lambda e, x, p: qGPS(Hilb(d.L, 2), d.M, syms=syms_of(p, flip), apply_fast_update=False).apply({"params": {"epsilon": e}}, x)))
        one = lambda n, m, f: Sum(c.T("T"), lambda t: Prod(c.T("L"), lambda l: eps((1 - x(n, p(l, t))) if f else x(n, p(l, t)), m, l)))
        c.ensure("sum over the symmetry images", out, lambda n: Sum(c.T("M"), lambda m: one(n, m, 0) + one(n, m, 1) if flip else one(n, m, 0)))
        return c
    make.__name__ = "qgps_sym_%d" % flip
    return make


CASES = [qgps_plain(2, complex), qgps_plain(4, complex), qgps_plain(2, float), qgps_plain(3, float), qgps_sym(False), qgps_sym(True)]


# ---------------------------------------------------------------- plaquettes
class PQ(PlaquetteqGPS):
    """setup's bookkeeping replaced by its contract (inv_plaquette_ids[p, s] is the place of site s in plaquette p, or -1)"""
    pq: object = None
    inv: object = None

    def setup(self):
        self.symmetries = self.syms[0] if isinstance(self.syms, tuple) else self.syms
        if isinstance(self.syms, tuple): self.symmetries_inverse = self.syms[1]
        self.L = self.hilbert.size
        self.local_dim = self.hilbert.local_size
        self.inv_plaquette_ids = Raw(self.inv)


class Raw:
    """a constant array attribute with symbolic contents"""
    def __init__(self, a): self.a = a; self.shape = None if a is None else a.shape
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o


class NP:
    """numpy as the model uses it: asarray of a Raw array is the array itself"""
    def __getattr__(self, k): return getattr(np, k)
    def asarray(self, a, *r): return a.a if isinstance(a, Raw) else np.asarray(a, *r)
    def array(self, a, *r): return a.a if isinstance(a, Raw) else np.array(a, *r)


def plaquette_model(L, D, M, pq, inv, **kw): return PQ(Hilb(L, D), M, Raw(pq), inv=inv, **kw)


PLF = "GPSKet/models/plaquetteqGPS.py:PlaquetteqGPS.__call__"


def plaquette(D, dtype, flip=None):
    def make():
        T = flip is not None
        c = Case("PlaquetteqGPS D=%d %s%s" % (D, dtype.__name__, " symmetrised flip=%s" % flip if T else ""), [PLF], "b, L, M, P, K" + (", T" if T else ""), dict(b=(1, 2), L=(1, 4), M=(1, 2), P=(1, 3), K=(1, 3), T=(1, 2)))
        eps = c.input("eps", lambda d: (D, d.P, d.M, d.K), dtype)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        pl = c.input("plaq", lambda d: (d.P, d.K), jnp.int32, 0, lambda d: d.L)
        if T: p = c.input("perm", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)

        def run(d):
            def f(e, x, q, *p):
                with patched(plmod, np=NP()):
                    return plaquette_model(d.L, D, d.M, q, None, dtype=dtype, apply_fast_update=False, **({"syms": syms_of(p[0], flip)} if T else {})).apply({"params": {"epsilon": e}}, x)
            return f
        out = c.run(run)
        occ = (lambda n, s, t, f: 1 - x(n, p(s, t)) if f else x(n, p(s, t))) if T else (lambda n, s, t, f: x(n, s))
        one = lambda n, q, m, t, f: Prod(c.T("K"), lambda k: eps(occ(n, pl(q, k), t, f), q, m, k))
        every = lambda n, q, m, t: one(n, q, m, t, 0) + one(n, q, m, t, 1) if flip else one(n, q, m, t, 0)
        c.ensure("sum over plaquettes and support of the products over the plaquette", out, lambda n: Sum(c.T("P"), lambda q: Sum(c.T("M"), lambda m: Sum(c.T("T"), lambda t: every(n, q, m, t)) if T else every(n, q, m, None))))
        return c
    make.__name__ = "plaquette_%d_%s_%s" % (D, dtype.__name__, flip)
    return make


# ---------------------------------------------------------------- segmented
class FermiSeg(FermionicDiscreteHilbert):
    """the sector as the model sees it"""
    size = property(lambda s: s._sz)
    local_size = property(lambda s: 4)
    def __init__(self, L, n): self._sz, self._n_elec, self._local_size = L, n, 4
    def states_to_local_indices(self, x): return x
    def __hash__(self): return 7
    def __eq__(self, o): return self is o


SGF = "GPSKet/models/segmented_qGPS.py:"
UP, DN = (lambda v: band(v, const(1))), (lambda v: div(band(v, const(2)), const(2)))


def counting(which):
    """the counts at a site are the electrons (spins) of either kind on the sites before it"""
    def make():
        c = Case("%s" % which, [SGF + which], "b, L", dict(b=(1, 2), L=(1, 5)))
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, 4 if which == "count_fermions" else 2)
        out = c.run(lambda d: getattr(segmod, which))
        kinds = (UP, DN) if which == "count_fermions" else (lambda v: ite(eq(v, const(1)), const(1), const(0)), lambda v: ite(eq(v, const(0)), const(1), const(0)))
        for s, f in enumerate(kinds):
            c.ensure("number of %s before each site" % ("up" if s == 0 else "down"), Arr((c.T("b"), c.T("L")), out.sort, (lambda s: lambda n, l: out(n, const(s), l))(s), jnp.int32), (lambda f: lambda n, l: Sum(l, lambda k: f(x(n, k))))(f), pick=(lambda s: lambda r: np.asarray(r)[:, s])(s))
        return c
    make.__name__ = which
    return make


def segmented(dtype):
    def make():
        D = 4
        c = Case("SegGPS %s" % dtype.__name__, [SGF + "SegGPS.__call__"], "b, L, M, U, V", dict(b=(1, 2), L=(2, 4), M=(1, 2), U=(1, 2), V=(1, 2)))
        L = c.T("L")
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        cnt = c.input("cnt", lambda d: (d.b, 2, d.L), jnp.int32, facts=lambda n, s, l: [le(const(0), cnt(n, s, l)), le(cnt(n, s, l), c.T("U") if isc(s, 0) else c.T("V"))])
        eps = c.input("eps", lambda d: (D, d.M, d.L, d.U + 1, d.V + 1), dtype)

        def run(d):
            def f(x, cnt, e):
                with patched(segmod, count_fermions=lambda idx: cnt):
                    return SegGPS(FermiSeg(d.L, (d.U, d.V)), d.M, dtype=dtype).apply({"params": {"epsilon": e}}, x)
            return f
        out = c.run(run)
        c.ensure("product over sites of the parameters selected by the counts before the site", out, lambda n: Sum(c.T("M"), lambda m: Prod(L, lambda l: eps(x(n, l), m, l, cnt(n, const(0), l), cnt(n, const(1), l)))))
        c.assumptions.append("the configurations belong to the sector of the Hilbert space, so that the counts (contract of count_fermions) stay within its electron numbers")

        def sampler(d, rs):
            if d.U > d.L or d.V > d.L: return None
            r = lambda k: np.stack([rs.permutation([1] * k + [0] * (d.L - k)) for _ in range(d.b)])
            xs = (r(d.U) + 2 * r(d.V)).astype(np.int32)
            a, b_ = xs & 1, (xs & 2) // 2
            q = lambda v: np.concatenate([np.zeros((d.b, 1), int), np.cumsum(v, 1)[:, :-1]], 1)
            return {"x": xs, "cnt": np.stack([q(a), q(b_)], 1).astype(np.int32)}
        c.sampler = sampler
        return c
    make.__name__ = "segmented_%s" % dtype.__name__
    return make


# ---------------------------------------------------------------- initial parameters
def initial(dtype):
    def make():
        c = Case("normal initialiser %s" % dtype.__name__, ["GPSKet/nn/initializers.py:normal"], "D, M, L", dict(D=(1, 3), M=(1, 3), L=(1, 3)))
        g = c.input("g", lambda d: (d.D, d.M, d.L), jnp.float64)
        s = c.input("s", lambda d: (), jnp.float64)

        def run(d):
            def f(g, s):
                def draw(key, shape=(), dtype=float):
                    assert tuple(shape) == tuple(g.shape)
                    return g
                with patched(jax.random, normal=draw): return inits.normal(s, dtype)(None, (d.D, d.M, d.L), dtype)
            return f
        out = c.run(run)
        if dtype is complex: c.ensure("a phase factor with normally distributed phase", out, lambda i, j, k: un("exp", const(1j, "C") * s() * g(i, j, k)))
        else: c.ensure("normally distributed around one", out, lambda i, j, k: 1 + s() * g(i, j, k))
        c.assumptions.append("jax.random.normal returns the standard normal draws g")
        return c
    make.__name__ = "initial_%s" % dtype.__name__
    return make


# ---------------------------------------------------------------- invariance
def invariance():
    """the symmetrised amplitude is the same for every image of the configuration, when the symmetries form a group:
    perm(perm(l, t), g) = perm(l, tau(t)) with a bijection tau of the symmetries"""
    c = Case("qGPS symmetrised: invariance", [QF], "b, L, M, T", dict(b=(1, 2), L=(1, 4), M=(1, 2), T=(1, 3)))
    eps = c.input("eps", lambda d: (2, d.M, d.L), complex)
    x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, 2)
    p = c.input("perm", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)
    g = c.input("g", lambda d: (d.L,), jnp.int32, 0, lambda d: d.L)
    tau = c.input("tau", lambda d: (d.T,), jnp.int32, 0, lambda d: d.T)
    sig = c.input("sig", lambda d: (d.T,), jnp.int32, 0, lambda d: d.T)
    L, M, T = c.T("L"), c.T("M"), c.T("T")
    f1, f2, f3 = c.facts["g"], c.facts["tau"], c.facts["sig"]
    c.facts["g"] = lambda a: f1(a) + ([eq(g(a), p(a.args[0], tau(a.args[1])))] if a.op == "f" and a.val == "perm" else [])
    c.facts["tau"] = lambda t: f2(t) + [eq(sig(tau(t)), t)]
    c.facts["sig"] = lambda t: f3(t) + [eq(tau(sig(t)), t)]
    c.eqrules = {"tau": lambda a, e: (and_(le(const(0), e), lt(e, T)), eq(a[0], sig(e)))}
    run = lambda d: (lambda e, x, p, g, tau, sig: qGPS(Hilb(d.L, 2), d.M, syms=syms_of(p, False), apply_fast_update=False).apply({"params": {"epsilon": e}}, x[:, g]))
    out = c.run(run)
    n = var("i0_x")
    F = lambda n, t: Sum(M, lambda m: Prod(L, lambda l: eps(x(n, p(l, t)), m, l)))
    c.ensure("amplitude of an image: the sum over the group in another order", out, lambda n: Sum(M, lambda m: Sum(T, lambda t: Prod(L, lambda l: eps(x(n, p(l, tau(t))), m, l)))))
    hy = [le(const(0), n), lt(n, c.T("b"))]
    delta = lambda t, s: ite(eq(tau(t), s), F(n, s), const(0, "C"))
    w = var("w")      # stands for tau(t)
    c.lemma("re-ordering a: each term selected from all", lambda: (F(n, w), Sum(T, lambda s: ite(eq(w, s), F(n, s), const(0, "C")))), hyps=hy + [le(const(0), w), lt(w, T)])
    c.lemma("re-ordering b: sums exchanged", lambda: (Sum(T, lambda t: Sum(T, lambda s: delta(t, s))), Sum(T, lambda s: Sum(T, lambda t: delta(t, s)))), hyps=hy)
    c.lemma("re-ordering c: each term met once", lambda: (Sum(T, lambda s: Sum(T, lambda t: delta(t, s))), Sum(T, lambda s: F(n, s))), hyps=hy)
    c.assumptions.append("the symmetries form a group (precondition): composing with one of them permutes them")

    def sampler(d, rs):
        # the cyclic group of order T acting on the first T sites
        if d.T > d.L: return None
        a = np.arange(d.L); h = int(rs.randint(d.T))
        cyc = lambda t: np.where(a < d.T, (a + t) % d.T, a)
        tt = (np.arange(d.T) + h) % d.T
        return {"perm": np.stack([cyc(t) for t in range(d.T)], -1).astype(np.int32), "g": cyc(h).astype(np.int32), "tau": tt.astype(np.int32), "sig": np.argsort(tt).astype(np.int32)}
    c.sampler = sampler
    return c


CASES += [initial(complex), initial(float), invariance]
CASES += [plaquette(2, complex), plaquette(4, complex), plaquette(2, float), plaquette(2, complex, False), plaquette(2, complex, True), counting('count_fermions'), counting('count_spins'), segmented(complex), segmented(float)]
