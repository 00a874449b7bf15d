"""C08: direct autoregressive sampling draws every site from the model's conditional"""
from .util import *
from .c10 import State
import GPSKet.sampler.autoreg as ar

F = ["GPSKet/sampler/autoreg.py:_sample_chain", "GPSKet/sampler/autoreg.py:batch_choice", "GPSKet/sampler/autoreg.py:ARDirectSampler._init_cache"]


def pick(a, p, u, D):
    """the state k with p_0 + .. + p_{k-1} < u * sum(p) <= p_0 + .. + p_k"""
    tot = add(*[p(const(k)) for k in range(D)]); r = u * tot
    out = a(const(D - 1))
    for k in reversed(range(D - 1)): out = ite(le(r, add(*[p(const(j)) for j in range(k + 1)])), a(const(k)), out)
    return out


def nonneg(c, name, shape):
    def gen(d, rs, sh):
        v = rs.rand(*sh); v[rs.rand(*v.shape) < 0.2] = 0.0
        return v
    return c.input(name, shape, float, gen=gen, facts=lambda *i: [le(const(0, "R"), c.arr[name](*i))])


def unit(c, name, shape):
    return c.input(name, shape, float, gen=lambda d, rs, sh: rs.rand(*sh), facts=lambda *i: [le(const(0, "R"), c.arr[name](*i)), lt(c.arr[name](*i), const(1, "R"))])


def choice(D):
    def make():
        c = Case("categorical choice D=%d" % D, F[1:2], "b", dict(b=(1, 3)))
        a = c.input("a", lambda d: (D,), float); p = nonneg(c, "p", lambda d: (d.b, D)); U = unit(c, "U", lambda d: (d.b,))
        n = var("i0_x")

        def f(a, p, U):
            with patched(jax.random, uniform=lambda key, shape=(), **kw: jnp.broadcast_to(U.reshape((-1,) + (1,) * (len(shape) - 1)), shape)):
                return ar.batch_choice(0, a, p)
        o = c.run(lambda d: f)
        # U < 1 and non-negative weights: the threshold does not exceed the total weight
        tot = lambda n: add(*[p(n, const(k)) for k in range(D)])
        c.ensure("state k is returned exactly when the draw falls into its share of the total weight", o, lambda n: pick(a, lambda k: p(n, k), U(n), D), idx_hyps=lambda n: [le(U(n) * tot(n), tot(n)), le(const(0, "R"), U(n) * tot(n))] + [le(const(0, "R"), p(n, const(k))) for k in range(D)])
        return c
    make.__name__ = "choice_%d" % D
    return make


class Model:
    """a model seen by the sampler: its conditionals are given numbers; what it is asked for is recorded"""
    def __init__(self, P, rec, syms, plaq=None, cached=True):
        self.P, self.rec, self.apply_symmetries, self.cached = P, rec, syms, cached
        if plaq is not None: self.plaquettes, self.masks = plaq
    def _conditional(self): pass
    def init(self, key, s, args, method=None): return {"params": {}, "cache": {"c": jnp.asarray(7)}} if self.cached else {"params": {}}

    def apply(self, variables, s, args, method=None, mutable=None):
        assert method == self._conditional and mutable == ["cache"]
        self.rec.append((s, args, variables["cache"]["c"] if "cache" in variables else jnp.asarray(0), variables["params"]))
        return self.P, ({"cache": {"c": variables["cache"]["c"] * 3 + 1}} if "cache" in variables else {})


class Scan:
    """jax.lax.scan replaced by its contract: the body is run once, on an arbitrary carry and an arbitrary element"""
    def __init__(self, carry, i, rec): self.carry, self.i, self.rec = carry, i, rec

    def __call__(self, f, init, xs=None, length=None, **kw):
        if hasattr(self, "init"): raise Unsupported("a second scan")
        self.init, self.xs = init, xs
        if len(init) != 3: raise Unsupported("scan carry")
        x = jax.tree_util.tree_map(lambda v: jnp.asarray(v)[self.i], xs)
        out, y = f(self.carry, x)
        self.out = out
        return out, y


def chain(D, cached, CL):
    def make():
        c = Case("sampling chain D=%d%s chain length %d" % (D, " with cache" if cached else "", CL), F, "b, L, T", dict(b=(1, 2), L=(2, 3), T=(1, 3)))
        B = lambda d: (d.b if CL == 1 else CL * d.b)
        P = nonneg(c, "P", lambda d: (B(d), D)); U = unit(c, "U", lambda d: (B(d),)); a = c.input("a", lambda d: (D,), float)
        s = c.input("s", lambda d: (B(d), d.L), float)
        i = c.input("i", lambda d: (), np.int64, 0, lambda d: d.L)(); cc = c.input("cc", lambda d: (), np.int64)(); key = c.input("key", lambda d: (), np.int64)()
        perm = c.input("perm", lambda d: (d.L, d.T), np.int64, 0, lambda d: d.L); r = c.input("r", lambda d: (B(d),), np.int64, 0, lambda d: d.T)
        L, T = c.T("L"), c.T("T")

        def fn(d):
            def f(P, U, a, s, i, cc, key, perm, r):
                rec = []; kk = {}
                m = Model(P, rec, lambda x: jnp.take(x, perm, axis=-1), cached=cached)
                sampler = NS(hilbert=NS(size=d.L, local_states=a), n_chains_per_rank=d.b, dtype=float)
                sampler._init_cache = lambda *q: ar.ARDirectSampler._init_cache(sampler, *q)
                sc = Scan((s, {"c": cc} if cached else None, key), i, rec)

                def uniform(key, shape=(), **kw):
                    kk["uniform"] = key; return jnp.broadcast_to(U.reshape((-1,) + (1,) * (len(shape) - 1)), shape)

                def randint(key, shape=(), minval=0, maxval=None, **kw):
                    kk["symm"] = key; kk["range"] = (minval, maxval); return jnp.broadcast_to(r, shape)
                split = lambda k, num=2: k * 16 + 1 + jnp.arange(num)
                with patched(jax.lax, scan=sc), patched(jax.random, split=split, uniform=uniform, randint=randint):
                    out, st = ar._sample_chain.__wrapped__(sampler, m, {"params": 5, "cache": {"c": -1}} if cached else {"params": 5}, State(key=key), CL)
                if not hasattr(sc, "init") or len(rec) != 1: raise Unsupported("sites are not drawn by a scan")
                if rec[0][3] != 5: raise Unsupported("parameters")
                q = sc.out
                c0 = sc.init[1]["c"] if cached else jnp.asarray(7); c1 = q[1]["c"] if cached else cc * 3 + 1
                keys = jnp.stack([q[2] != kk["uniform"], kk["symm"] != sc.init[2], st.key != kk["symm"], st.key != sc.init[2]])
                return (jnp.asarray(sc.xs), jnp.asarray(c0), rec[0][0], jnp.asarray(rec[0][1]), rec[0][2] if cached else cc, q[0], jnp.asarray(c1), keys, out, jnp.stack([jnp.asarray(v) for v in kk["range"]]))
            return f
        o = c.run(fn)
        tot = lambda n: add(*[P(n, const(k)) for k in range(D)])
        hy = lambda n: [le(U(n) * tot(n), tot(n)), le(const(0, "R"), U(n) * tot(n))] + [le(const(0, "R"), P(n, const(k))) for k in range(D)]
        c.ensure("all sites are visited in order", o[0], lambda k: k)
        c.ensure("the cache starts fresh", o[1], lambda: const(7))
        c.ensure("the model is asked about the configuration drawn so far", o[2], s)
        c.ensure("the model is asked about the current site", o[3], lambda: i)
        c.ensure("the model gets the current cache", o[4], lambda: cc)
        new = lambda n, l: ite(eq(l, i), pick(a, lambda k: P(n, k), U(n), D), s(n, l))
        c.ensure("the site is drawn from the conditional, the others stay", o[5], new, idx_hyps=lambda n, l: hy(n))
        c.ensure("the cache returned by the model is kept", o[6], lambda: cc * 3 + 1)
        c.ensure("draws use different random keys", o[7], lambda k: TRUE)
        c.ensure("the symmetry transformation is drawn from all of them", o[9], lambda k: ite(eq(k, const(0)), const(0), T))
        fl = lambda q, w: q * const(CL) + w
        c.ensure("the returned configuration is a symmetry image of the one drawn", o[8], lambda q, w, l: new(fl(q, w), perm(l, r(fl(q, w)))), idx_hyps=lambda q, w, l: hy(fl(q, w)))
        c.assumptions += ["draws from distinct keys are independent and uniform (jax.random)", "conditional probabilities are non-negative (C07); 0 <= U*sum(p) <= sum(p) for 0 <= U < 1 (given to the solver as a lemma)"]
        return c
    make.__name__ = "chain_%d_%d_%d" % (D, cached, CL)
    return make


CASES = [choice(D) for D in (2, 3, 4)] + [chain(2, True, 1), chain(4, False, 1), chain(2, False, 2)]


def unrolled(plaq):
    """site-dependent support dimension: the sites are drawn by a Python loop (three sites)"""
    def make():
        LL, D = 3, 2
        c = Case("sampling chain, unrolled%s" % (" with plaquettes" if plaq else ""), F, "b", dict(b=(1, 2)))
        P = nonneg(c, "P", lambda d: (LL, d.b, D)); U = unit(c, "U", lambda d: (LL, d.b)); a = c.input("a", lambda d: (D,), float)
        key = c.input("key", lambda d: (), np.int64)()

        class M(Model):
            def apply(self, variables, s, args, method=None, mutable=None):
                r = Model.apply(self, variables, s, args, method, mutable)
                return self.P[len(self.rec) - 1], r[1]

        def fn(d):
            def f(P, U, a, key):
                rec, kk = [], []
                m = M(P, rec, lambda x: x[..., None], plaq=((np.arange(9).reshape(3, 3) % 3, np.tri(3, k=-1)) if plaq else None)); m.M = nk.utils.HashableArray(np.array([1, 2, 3]))
                sampler = NS(hilbert=NS(size=LL, local_states=a), n_chains_per_rank=d.b, dtype=float)
                sampler._init_cache = lambda *q: ar.ARDirectSampler._init_cache(sampler, *q)

                def uniform(key, shape=(), **kw):
                    kk.append(key); return U[len(kk) - 1][:, None]
                split = lambda k, num=2: k * 16 + 1 + jnp.arange(num)
                with patched(jax.random, split=split, uniform=uniform, randint=lambda key, shape=(), minval=0, maxval=None, **kw: jnp.zeros(shape, int)):
                    out, st = ar._sample_chain.__wrapped__(sampler, m, {"params": 5}, State(key=key), 1)
                if len(rec) != LL or len(kk) != LL: raise Unsupported("not one draw per site")
                ix = lambda q: jnp.asarray(q[0] if plaq else q)
                msk = [jnp.stack([jnp.asarray(q[1][k]) for q in rec]) for k in (1, 2)] if plaq else []
                return (jnp.stack([q[0] for q in rec]), jnp.stack([ix(q[1]) for q in rec]), jnp.stack([q[2] for q in rec]), out, jnp.stack([kk[i] != kk[j] for i in range(LL) for j in range(i)])) + tuple(msk)
            return f
        o = c.run(fn)
        hy = lambda n: [h for l in range(LL) for h in [le(U(const(l), n) * add(*[P(const(l), n, const(k)) for k in range(D)]), add(*[P(const(l), n, const(k)) for k in range(D)])), le(const(0, "R"), U(const(l), n) * add(*[P(const(l), n, const(k)) for k in range(D)]))] + [le(const(0, "R"), P(const(l), n, const(k))) for k in range(D)]]
        draw = lambda n, l: pick(a, lambda k: P(l, n, k), U(l, n), D)
        c.ensure("all sites are visited in order", o[1], lambda k: k)
        # earlier sites hold what was drawn for them
        c.ensure("the model is asked about the configuration drawn so far", o[0], lambda i, n, l: draw(n, l), idx_hyps=lambda i, n, l: hy(n) + [lt(l, i)])
        c.ensure("every site is drawn from its conditional", o[3], lambda n, w, l: draw(n, l), idx_hyps=lambda n, w, l: hy(n))
        c.ensure("the cache is passed from site to site", o[2], lambda i: ite(eq(i, const(0)), const(7), ite(eq(i, const(1)), const(22), const(67))))
        c.ensure("draws use different random keys", o[4], lambda k: TRUE)
        if plaq:
            c.ensure("mask of the current site", o[5], lambda i, l: retag(ite(lt(l, i), const(1), const(0)), o[5].sort))
            c.ensure("plaquette of the current site", o[6], lambda i, l: retag(l, o[6].sort))
        return c
    make.__name__ = "unrolled_%d" % plaq
    return make


CASES += [unrolled(False), unrolled(True)]
