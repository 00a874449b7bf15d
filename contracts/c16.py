"""C16: weighted-sample states give weighted estimates"""
from .util import *
from .c14 import model, I1, features
from .c15 import Obj, JNP
from .c10 import PSI, lam
from engine.kspec import Gfun
import netket.jax as nkjax
import importlib
us = importlib.import_module("GPSKet.vqs.mc.mc_state.state_unique_samples")
ss = importlib.import_module("GPSKet.vqs.mc.mc_state.state_stratified_sampling")

FG = ["GPSKet/vqs/mc/mc_state/state_unique_samples.py:grad_expect_hermitian_chunked"]
FS = "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py:MCStateStratifiedSampling."


def estimates(kind, chunk):
    """kind: real parameters with real/complex amplitudes, complex parameters (holomorphic dependence), mixed (non-holomorphic)"""
    def make():
        c = Case("estimates, %s parameters%s" % (kind, ", chunked" if chunk else ""), FG, "N, K, J", dict(N=(1, 3), K=(1, 2), J=(1, 2)))
        N, K, J = c.T("N"), c.T("K"), c.T("J"); ta = complex if kind != "real" else float; tb = complex if kind == "holo" else float
        x = c.input("x", lambda d: (d.N, 2 * d.K + 2 * d.J), float); a = c.input("a", lambda d: (d.K,), ta); b = c.input("b", lambda d: (d.J,), tb); m = c.input("m", lambda d: (), float)()
        p = c.input("p", lambda d: (d.N,), float); e = c.input("e", lambda d: (d.N,), complex)

        def f(x, a, b, m, p, e):
            log = {}; mod_ = model("holo", "complex")

            def kernel(af, pars, samples, args, **kw):
                log["k"] = (af is mod_, args == (), kw == (dict(chunk_size=5) if chunk else {})); return e * (samples[:, 0] * 0 + 1) * (pars["m"] * 0 + 1)

            def vjp_chunked(fun, *prim, conjugate=False, chunk_size=None, chunk_argnums=(), nondiff_argnums=()):
                if chunk_size != 5 or chunk_argnums not in (1, (1,)) or nondiff_argnums not in (1, (1,)): raise Unsupported("chunking of the gradient")
                w, s = prim; v = nkjax.vjp(lambda w: fun(w, s), w, conjugate=conjugate)[1]
                return lambda ct: v(ct)
            with patched(nkjax, vjp_chunked=vjp_chunked):
                st, g = us.grad_expect_hermitian_chunked(5 if chunk else None, kernel, mod_, {"a": a, "b": b}, {"m": m}, (x, p), (), compute_grad=True)
                st2 = us.grad_expect_hermitian_chunked(5 if chunk else None, kernel, mod_, {"a": a, "b": b}, {"m": m}, (x, p), ())
            return st.mean, st.variance, g["a"], g["b"], st2.mean, st2.variance, jnp.asarray(all(log["k"]))
        o = c.run(lambda d: f)
        O = [lambda n, k: m * (x(n, k) + I1 * x(n, K + k)) * a(k), lambda n, k: m * (x(n, 2 * K + k) + I1 * x(n, 2 * K + J + k)) * b(k)]
        mean = Sum(N, lambda n: p(n) * e(n)); var_ = Sum(N, lambda n: p(n) * real((e(n) - mean) * conj(e(n) - mean)))
        g = [lambda k, q=q: Sum(N, lambda n: p(n) * conj(q(n, k)) * (e(n) - mean)) for q in O]
        for i in (0, 4): c.ensure("expectation value%s" % (" without gradient" if i else ""), o[i], lambda: mean); c.ensure("variance%s" % (" without gradient" if i else ""), o[i + 1], lambda: var_)
        for i, (nm, t) in enumerate((("gradient", ta), ("second block of the gradient", tb))):
            c.ensure(nm, o[2 + i], (lambda k, i=i: g[i](k)) if t is complex else (lambda k, i=i: 2 * real(g[i](k))))
        c.ensure("local estimator called with model, arguments and chunk size", o[6], lambda: TRUE)
        w_ = lambda n: p(n)
        c.lemma("the gradient is the weighted covariance when the weights sum to one", lambda: (g[0](var("k_")), Sum(N, lambda n: p(n) * conj(O[0](n, var("k_")) - Sum(N, lambda q: p(q) * O[0](q, var("k_")))) * (e(n) - mean)) + (1 - Sum(N, p)) * 0 + conj(Sum(N, lambda q: p(q) * O[0](q, var("k_")))) * mean * (1 - Sum(N, p))))
        if chunk: c.assumptions.append("netket.jax.vjp_chunked equals netket.jax.vjp")
        return c
    make.__name__ = "estimates_%s_%d" % (kind, chunk)
    return make


class NP(JNP):
    """numpy inside the stratified state: values under trace go through jax.numpy, plain bookkeeping stays numpy"""
    @staticmethod
    def ones(shape, dtype=None): return np.ones(shape, dtype)
    @staticmethod
    def expand_dims(a, ax): return np.expand_dims(a, ax) if isinstance(a, np.ndarray) else jnp.expand_dims(a, ax)
    @staticmethod
    def empty(shape, dtype=None): return Rows(shape)
    @staticmethod
    def copyto(row, v): row.set(v)
    @staticmethod
    def array(x, **k): return jnp.stack([jnp.asarray(y) for y in x]) if isinstance(x, list) else jnp.asarray(x, **k)


class Rows:
    """an uninitialised array filled row by row"""
    def __init__(self, shape): self.rows = [None] * shape[0]
    def __getitem__(self, i):
        r = self

        class Row:
            def set(self, v): r.rows[i] = v
        return Row()
    def __jax_array__(self):
        if any(r is None for r in self.rows): raise Unsupported("row never written")
        return jnp.stack(self.rows)


class Members:
    """membership in the deterministic set as a scripted answer per query"""
    def __init__(self, pattern): self.p, self.k = pattern, 0
    def __contains__(self, t): self.k += 1; return self.p[self.k - 1]


def weights(how):
    """how: model (normalised model), importance (norm from the sampled set), random (norm from random configurations of the complement)"""
    def make():
        L = 2
        c = Case("stratified weights, norm from %s" % how, [FS + "samples_with_counts"], "D, C", dict(D=(1, 3), C=(1, 2)))
        D, C = c.T("D"), c.T("C"); T_ = 2; R = 3
        sd = c.input("sd", lambda d: (d.D, L), np.int64, 0, 2); s1 = c.input("s1", lambda d: (T_, d.C, L), np.int64, 0, 2); r = c.input("r", lambda d: (5, L), np.int64, 0, 2)
        nc = c.input("nc", lambda d: (), np.int64, 1, 50)(); c.extra["Psi"] = Gfun
        pat = [True, False, False, True, False]

        def fn(d):
            def f(sd, s1, r, nc):
                log = {"steps": 0, "q": 0}

                def step():
                    k = log["steps"]; log["steps"] += 1; n = k - 3 * 2
                    # the warm-up makes n_discard * n_sweeps steps; afterwards the configuration of every second step is kept
                    self.current_sample = jnp.zeros_like(s1[0]) if n < 0 or n % 2 == 0 else s1[n // 2]
                mem = Members(pat)
                rng = NS(random_state=lambda key, size=None, dtype=None: [r[:3], r[3:5]][log.__setitem__("q", log["q"] + 1) or log["q"] - 1])
                self = Obj(ss.MCStateStratifiedSampling, _unique_samples=None, n_discard_per_chain=3, n_sweeps=2, chain_length=T_, current_sample=jnp.zeros_like(s1[0]), sample_step=step, deterministic_samples=sd,
                           log_value=lambda x: PSI(x), chunk_size=None, renormalize=how != "model", rand_norm=how == "random", number_random_samples=R, sampler_state=NS(rng=0), sampler=NS(hilbert=rng), lookup_dict=mem, N_complement=nc)
                with patched(ss, np=NP(), len=lambda a: a.shape[0], _sum=lambda a: jnp.sum(jnp.asarray(a))), patched(jax.random, split=lambda k, num=2: [k, k]):
                    x, w = ss.MCStateStratifiedSampling.samples_with_counts.fget(self)
                return x, w, self._relative_counts, jnp.asarray(log["steps"] == 3 * 2 + T_ * 2)
            return f
        o = c.run(fn); Tn = 2 * C
        P = lambda s, *n: un("exp", 2 * real(lam("Psi", lambda l: s(*n, l), const(L))))
        det = Sum(D, lambda n: P(sd, n)); S1 = lambda f: Sum(C, lambda n: f(const(0), n)) + Sum(C, lambda n: f(const(1), n))
        if how == "model": norm = const(1, "R")
        elif how == "importance": norm = det + nc * Tn / S1(lambda t, n: 1 / P(s1, t, n) if False else power(P(s1, t, n), -1))
        else: norm = det + nc * add(*[P(r, const(k)) for k in (1, 2, 4)]) / 3
        c.ensure("configurations: the deterministic set, then the sampled complement", o[0], lambda n, l: ite(lt(n, D), sd(n, l), s1(fdiv(n - D, C), mod(n - D, C), l)))
        for k in (1, 2): c.ensure("weights" + " stored" * (k - 1), o[k], lambda n: ite(lt(n, D), P(sd, n) / norm, (1 - det / norm) / Tn))
        c.ensure("warm-up and sampling steps", o[3], lambda: TRUE)
        c.lemma("the weights sum to one", lambda: (Sum(D, lambda n: P(sd, n) / norm) + Sum(Tn, lambda n: (1 - det / norm) / Tn), const(1, "R")))
        c.assumptions.append("two samples per chain, three random configurations and a scripted membership pattern; deterministic set and number of chains arbitrary")
        return c
    make.__name__ = "weights_" + how
    return make


def rejection():
    L, C = 2, 3
    c = Case("sampling the complement", [FS + "sample_step"], "", {})
    old = c.input("old", lambda d: (C, L), np.int64, 0, 2); new = c.input("new", lambda d: (C, L), np.int64, 0, 2)
    pats = [[bool(k >> j & 1) for j in range(C)] for k in range(2 ** C)]

    def f(old, new):
        out = []
        for p in pats:
            log = {}
            self = Obj(ss.MCStateStratifiedSampling, current_sample=old, sample=lambda **kw: log.update(kw) or new.reshape(C, 1, L), lookup_dict=Members(p), sampler_state=NS(replace=lambda **k: k))
            with patched(ss, np=NP()): ss.MCStateStratifiedSampling.sample_step(self)
            if log != dict(chain_length=1, n_discard_per_chain=0): raise Unsupported("sampling call %s" % log)
            out.append(jnp.stack([self.current_sample, self.sampler_state["σ"]]))
        return jnp.stack(out),
    o = c.run(lambda d: f)
    for k, p in enumerate(pats):
        c.ensure("chains whose new configuration is in the deterministic set %s keep the old one, in the state as well" % p, Arr((const(2), const(C), const(L)), "I", lambda s, n, l, k=k: o[0](const(k), s, n, l), np.int64),
                 lambda s, n, l, p=p: add(*[ite(eq(n, const(j)), old(n, l) if p[j] else new(n, l), const(0)) for j in range(C)]), pick=lambda real, k=k: real[0][k])
    return c


CASES = [estimates("real", False), estimates("holo", False), estimates("mixed", False), estimates("real", True), estimates("holo", True)] + [weights("model"), weights("importance"), weights("random"), rejection]
