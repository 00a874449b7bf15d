"""C07: autoregressive states are normalised and causal"""
from .arutil import *
FF = "GPSKet/models/autoreg_qGPS_full.py:"
FA = "GPSKet/models/autoreg_qGPS.py:"
FP = "GPSKet/models/autoreg_plaquetteqGPS.py:"


class Kind:
    """one autoregressive family: how its (unnormalised) log conditional of local state s at site i given the sites before i
    is defined, and how to call the repository code"""


class Full(Kind):
    name = "ARqGPSFull"; mod = arf; cls = ARqGPSFull; dims = "b, L, M, E"; file = FF; constraints = ("E >= L",)

    @staticmethod
    def setup(c, D, dtype):
        L, E = c.T("L"), c.T("E")
        c.assume(eq(E * 2, L * (L + 1)))
        c.dimdef["E"] = lambda d: d.L * (d.L + 1) // 2
        eps = c.input("eps", lambda d: (D, d.M, d.E), dtype)

        def psi(cfg, i, s):
            tri = fdiv(i * (i + 1), const(2))
            return Sum(c.T("M"), lambda m: eps(s, m, tri + i) * Prod(i, lambda l: eps(cfg(l), m, tri + l)))
        return psi

    @staticmethod
    def stub(d, D, con, e, **kw): return Stub(ARqGPSFull, hilbert=hil(d, D, con), M=d.M, _epsilon=e, dtype=e.dtype, **kw)
    conds = staticmethod(lambda m, x: arf._conditionals(m, x)[0])


class Shared(Kind):
    name = "ARqGPS"; mod = ar; cls = ARqGPS; dims = "b, L, M"; file = FA; constraints = ()

    @staticmethod
    def setup(c, D, dtype):
        eps = c.input("eps", lambda d: (D, d.M, d.L), dtype)
        c.eps = eps
        return lambda cfg, i, s: Sum(c.T("M"), lambda m: eps(s, m, i) * Prod(i, lambda l: eps(cfg(l), m, l)))

    @staticmethod
    def stub(d, D, con, e, **kw): return Stub(ARqGPS, hilbert=hil(d, D, con), M=d.M, _epsilon=e, dtype=e.dtype, **kw)
    conds = staticmethod(lambda m, x: ar._conditionals(m, x))


class Plaq(Kind):
    name = "ARPlaquetteqGPS"; mod = arp; cls = ARPlaquetteqGPS; dims = "b, L, M"; file = FP; constraints = ()

    @staticmethod
    def setup(c, D, dtype):
        eps = c.input("eps", lambda d: (D, d.M, d.L), dtype)
        mask = c.input("mask", lambda d: (d.L, d.L), jnp.int32, 0, 2)
        pl = c.input("plaq", lambda d: (d.L, d.L), jnp.int32, 0, lambda d: d.L)
        # causal masks: a masked-in plaquette entry is an earlier site
        f0 = c.facts["mask"]
        c.facts["mask"] = lambda i, k: f0(i, k) + [implies(eq(mask(i, k), const(1)), lt(pl(i, k), i))]

        def sampler(d, rs):
            p = rs.randint(0, d.L, size=(d.L, d.L)).astype(np.int32)
            return {"plaq": p, "mask": ((p < np.arange(d.L)[:, None]) & (rs.rand(d.L, d.L) < .7)).astype(np.int32)}
        c.sampler = sampler
        c.assumptions.append("ARPlaquetteqGPS: the masks handed over are causal (mask[i,k]=1 only where plaquette[i,k] < i), as produced by get_plaquettes_and_masks")
        return lambda cfg, i, s: Sum(c.T("M"), lambda m: eps(s, m, const(0)) * Prod(c.T("L"), lambda k: ite(eq(mask(i, k), const(1)), eps(cfg(pl(i, k)), m, k), const(1, "R"))))

    @staticmethod
    def stub(d, D, con, e, mask, plaq, **kw):
        return Stub(ARPlaquetteqGPS, hilbert=hil(d, D, con), M=d.M, _epsilon=e, masks=mask, plaquettes=plaq, dtype=e.dtype, **kw)
    conds = staticmethod(lambda m, x: arp._conditionals(m, x))


class npshim:
    """numpy as the module sees it, with asarray accepting traced arrays"""
    def __getattr__(self, k): return getattr(np, k)
    def asarray(self, x, dtype=None): return jnp.asarray(x, dtype) if isinstance(x, jax.core.Tracer) or isinstance(x, jax.Array) else np.asarray(x, dtype)


arp.np = npshim()


def hil(d, D, con):
    h = Hilb(d.L, D); h.constrained = con
    return h


def spins(cfg, i, s):
    """number of sites before i in local state s"""
    return Sum(i, lambda l: ite(eq(cfg(l), s), const(1), const(0)))


def cond_psi(c, psi, con, cfg, i, s):
    """log conditional including the zero-magnetisation constraint"""
    lp = psi(cfg, i, s)
    if not con: return lp
    return ite(lt(spins(cfg, i, s), fdiv(c.T("L"), const(2))), lp, mk("nan", (), lp.sort, "-inf"))


def shared_inv(c, x, con, T=None, D=2):
    """loop contract of the weight-sharing model: the cache holds the products over the sites before index-1 times the
    parameters of site index-1; the counter holds how often each local state occurred before index-1"""
    eps = c.eps
    def inv(j):
        def cache(*ix):
            n, d, m = ix[:3]; xs = lambda l: x(n, l, *ix[3:])
            return ite(le(j, const(0)), const(1, "R"), eps(d, m, j - 1) * Prod(tmax(const(0), j - 1), lambda l: eps(xs(l), m, l)))
        def ns(*ix):
            n, d = ix[:2]; xs = lambda l: x(n, l, *ix[2:])
            if not con: return const(0)
            return Sum(tmax(const(0), j - 1), lambda l: ite(eq(xs(l), d), const(1), const(0)))
        t = [T] if T is not None else []
        return [([c.T("b"), D, c.T("M")] + t, cache), ([c.T("b"), D] + t, ns)]
    return inv


def conditionals(K, D, dtype, con):
    def make():
        c = Case("%s._conditionals D=%d %s%s" % (K.name, D, dtype.__name__, " constrained" if con else ""), [K.file + "_conditionals", K.file + "_compute_conditional", FA + "gpu_cond"], K.dims,
                 dict(b=(1, 2), L=(1, 4), M=(1, 3)), constraints=K.constraints)
        psi = K.setup(c, D, dtype)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        if K is Shared: c.invariants = [(lambda e, nk: nk == 2, shared_inv(c, x, con, D=D))]
        if con: c.facts_all = True
        lp = c.run(lambda d: (lambda e, *a: K.conds(K.stub(d, D, con, e, *a[:-1]), a[-1])))
        c.ensure("log conditional of each local state is the defined function of the earlier sites only", lp, lambda n, i, s: cond_psi(c, psi, con, lambda l: x(n, l), i, s))
        return c
    make.__name__ = "cond_%s_%d_%s_%d" % (K.name, D, dtype.__name__, con)
    return make


def con_hyps(c, cfg, i, con):
    """the zero-magnetisation sector needs an even number of sites; the counts before site i add up to i (own lemma)"""
    if not con: return []
    return [eq(mod(c.T("L"), const(2)), const(0)), eq(spins(cfg, i, const(0)) + spins(cfg, i, const(1)), i)]


def weights(c, psi, con, D):
    """|psi_s|^2 at site i, zero where the sector is exhausted; and their sum"""
    def w(cfg, i, s):
        e = un("exp", const(2, "R") * real(psi(cfg, i, s)))
        return ite(lt(spins(cfg, i, s), fdiv(c.T("L"), const(2))), e, const(0, "R")) if con else e
    tot = lambda cfg, i: add(*[w(cfg, i, const(t)) for t in range(D)])
    return w, tot


def normalised(K, D, dtype, con):
    """the conditionals() method: probabilities are |psi|^2/sum and sum to one"""
    def make():
        c = Case("%s.conditionals D=%d %s%s" % (K.name, D, dtype.__name__, " constrained" if con else ""), [K.file + K.name + ".conditionals", K.file + "_conditionals", FA + "_normalize"], K.dims,
                 dict(b=(1, 2), L=(2 if con else 1, 4), M=(1, 3)), constraints=K.constraints)
        psi = K.setup(c, D, dtype)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        if con: c.assume(eq(mod(c.T("L"), const(2)), const(0)))
        if K is Shared: c.invariants = [(lambda e, nk: nk == 2, shared_inv(c, x, con, D=D))]
        if K is Full and con:
            # against the callee's contract (its own case above): _conditionals returns the defined log conditionals
            c.derived("lp", lambda d: (d.b, d.L, D), dtype, lambda n, i, s: cond_psi(c, psi, con, lambda l: x(n, l), i, s))

            def f(d):
                def g(e, x, lp):
                    with patched(arf, _conditionals=lambda *a, **k: (lp, None)): return K.cls.conditionals(K.stub(d, D, con, e), x)
                return g
            p = c.run(f)
        else: p = c.run(lambda d: (lambda e, *a: K.cls.conditionals(K.stub(d, D, con, e, *a[:-1]), a[-1])))
        w, tot = weights(c, psi, con, D)
        cfg = lambda n: (lambda l: x(n, l))
        if con:
            n0, i0 = var("n0"), var("i0")
            c.lemma("local states before site i add up to i", lambda: (spins(cfg(n0), i0, const(0)) + spins(cfg(n0), i0, const(1)), i0), hyps=[le(const(0), i0), lt(i0, c.T("L"))])
        c.ensure("conditional probability is |psi_s|^2 / sum_s' |psi_s'|^2, zero outside the sector", p, lambda n, i, s: div(w(cfg(n), i, s), tot(cfg(n), i)), idx_hyps=lambda n, i, s: con_hyps(c, cfg(n), i, con))
        sm = Arr(p.shape[:2], "R", lambda n, i: add(*[p(n, i, const(t)) for t in range(D)]))
        c.ensure("conditionals sum to one", sm, lambda n, i: const(1, "R"), pick=lambda r: np.asarray(r).sum(-1), idx_hyps=lambda n, i: con_hyps(c, cfg(n), i, con))
        return c
    make.__name__ = "norm_%s_%d_%s_%d" % (K.name, D, dtype.__name__, con)
    return make


def amplitude(K, D, sym, con=False):
    """__call__: the squared modulus is the average over symmetry images of the product of conditionals; without symmetries
    the complex log amplitude is the sum of the normalised log conditionals"""
    def make():
        c = Case("%s.__call__ D=%d%s" % (K.name, D, " symmetrised" if sym else ""), [K.file + K.name + ".__call__", K.file + "_conditionals", FA + "_normalize"], K.dims + (", T" if sym else ""),
                 dict(b=(1, 2), L=(1, 3), M=(1, 2), T=(1, 3)), constraints=K.constraints)
        psi = K.setup(c, D, complex)
        x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
        if sym:
            p = c.input("perm", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)
            img = lambda n, t: (lambda l: x(n, p(l, t))); T = c.T("T")
        else:
            img = lambda n, t: (lambda l: x(n, l)); T = const(1)
        if K is Shared:
            xs = lambda n, l, t=const(0): img(n, t)(l)
            c.invariants = [(lambda e, nk: nk == 2, shared_inv(c, xs, con, T, D))]

        def f(d):
            def g(e, *a):
                kw = {}
                if sym:
                    q = a[-1]; a = a[:-1]; fn = lambda y: jnp.take(y, q, axis=-1)
                else: fn = lambda y: jnp.expand_dims(y, -1)
                kw["apply_symmetries"] = fn
                m = K.stub(d, D, con, e, *a[:-1], **kw)
                y = K.cls.__call__(m, a[-1])
                return y.real, y.imag
            return g
        re, im = c.run(f)
        w, tot = weights(c, psi, con, D)
        prob = lambda cfg: Prod(c.T("L"), lambda i: div(w(cfg, i, cfg(i)), tot(cfg, i)))
        sq = Arr(re.shape, "R", lambda n: un("exp", const(2, "R") * re(n)))
        c.ensure("squared modulus is the (averaged) product of the conditionals", sq, lambda n: div(Sum(T, lambda t: prob(img(n, t))), retag(T, "R")), pick=lambda r: np.exp(2 * np.asarray(r[0])))
        return c
    make.__name__ = "amp_%s_%d_%d" % (K.name, D, sym)
    return make


CASES = [amplitude(K, D, sym) for K in (Full, Shared, Plaq) for D, sym in ((2, False), (2, True))]
CASES += [normalised(K, D, complex, con) for K in (Full, Shared, Plaq) for D, con in ((2, False), (3, False), (2, True))]
CASES += [conditionals(K, D, t, con) for K in (Full, Shared, Plaq) for D, t, con in ((2, complex, False), (2, float, False), (4, complex, False), (2, float, True))]
