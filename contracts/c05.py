"""C05: fast-updated GPS amplitudes equal recomputed ones"""
from .util import *
from GPSKet.models import qGPS
QF = "GPSKet/models/qGPS.py:qGPS.__call__"


def update_inputs(c, K, D):
    """cached configuration x, update sites u with new occupations y: repeated sites carry the old occupation after their
    first occurrence"""
    x = c.input("x", lambda d: (d.b, d.L), jnp.int32, 0, D)
    u = c.input("u", lambda d: (d.b, K), jnp.int32, 0, lambda d: d.L)

    def facts(n, k):
        if k.op != "c": return []
        return [implies(eq(u(n, k), u(n, const(j))), eq(y(n, k), x(n, u(n, k)))) for j in range(int(k))]
    y = c.input("y", lambda d: (d.b, K), jnp.int32, 0, D, facts=facts)

    def sampler(d, rs):
        xs = rs.randint(0, D, size=(d.b, d.L)).astype(np.int32); us = rs.randint(0, d.L, size=(d.b, K)).astype(np.int32)
        ys = rs.randint(0, D, size=(d.b, K)).astype(np.int32)
        for n in range(d.b):
            for k in range(K):
                if us[n, k] in us[n, :k]: ys[n, k] = xs[n, us[n, k]]
        return {"x": xs, "u": us, "y": ys}
    c.sampler = sampler

    def new(n, s):
        r = x(n, s)
        for k in reversed(range(K)): r = ite(eq(s, u(n, const(k))), y(n, const(k)), r)
        return r
    return x, u, y, new


def apply_update(model, e, x, sp, y, u):
    out, st = model.apply({"params": {"epsilon": e}, "intermediates_cache": {"samples": x, "site_prod": sp}}, y, update_sites=u, cache_intermediates=True, mutable=["intermediates_cache"])
    return out, st["intermediates_cache"]["site_prod"], st["intermediates_cache"]["samples"]


def qgps(K, D, dtype):
    def make():
        c = Case("qGPS update K=%d D=%d %s" % (K, D, dtype.__name__), [QF, "GPSKet/models/qGPS.py:no_syms"], "b, L, M", dict(b=(1, 2), L=(1, 4), M=(1, 3)))
        eps = c.input("eps", lambda d: (D, d.M, d.L), dtype)
        x, u, y, new = update_inputs(c, K, D)
        P = lambda cfg: lambda n, m, t: Prod(c.T("L"), lambda l: eps(cfg(n, l), m, l))
        c.derived("sp", lambda d: (d.b, d.M, 1), dtype, P(x))
        out, sp, xs = c.run(lambda d: (lambda e, x, u, y, sp: apply_update(qGPS(Hilb(d.L, D), d.M, dtype=dtype), e, x, sp, y, u)))
        c.ensure("amplitude of the updated configuration", out, lambda n: Sum(c.T("M"), lambda m: P(new)(n, m, 0)))
        c.ensure("cached site products", sp, P(new))
        c.ensure("cached configuration", xs, new)
        c.assumptions.append("fast update: the parameters at the replaced occupations are non-zero (the code divides by them)")
        return c
    make.__name__ = "qgps_%d_%d_%s" % (K, D, dtype.__name__)
    return make


def qgps_sym(K, flip):
    def make():
        c = Case("qGPS symmetrised update K=%d flip=%s" % (K, flip), [QF], "b, L, M, T", dict(b=(1, 2), L=(1, 4), M=(1, 2), T=(1, 3)))
        eps = c.input("eps", lambda d: (2, d.M, d.L), complex)
        x, u, y, new = update_inputs(c, K, 2)
        perm, inv = add_perm(c)
        T2 = 2 if flip else 1
        img = lambda cfg: lambda n, l, t: ite(lt(t, c.T("T")), cfg(n, perm(l, t)), 1 - cfg(n, perm(l, t - c.T("T"))))
        P = lambda cfg: lambda n, m, t: Prod(c.T("L"), lambda l: eps(img(cfg)(n, l, t), m, l))
        c.derived("sp", lambda d: (d.b, d.M, T2 * d.T), complex, P(x))
        f = lambda d: (lambda e, x, u, y, p, q, sp: apply_update(qGPS(Hilb(d.L, 2), d.M, syms=syms2(p, q, flip)), e, x, sp, y, u))
        out, sp, xs = c.run(f)
        c.ensure("amplitude of the updated configuration", out, lambda n: Sum(c.T("M"), lambda m: Sum(T2 * c.T("T"), lambda t: P(new)(n, m, t))))
        c.ensure("cached site products", sp, P(new))
        c.ensure("cached configuration", xs, new)
        return c
    make.__name__ = "qgps_sym_%d_%d" % (K, flip)
    return make


def add_perm(c):
    """perm[:, t] is a permutation of the sites, inv[:, t] its inverse"""
    perm = c.input("perm", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)
    inv = c.input("inv", lambda d: (d.L, d.T), jnp.int32, 0, lambda d: d.L)
    f1, f2 = c.facts["perm"], c.facts["inv"]
    c.facts["perm"] = lambda l, t: f1(l, t) + [eq(inv(perm(l, t), t), l)]
    c.facts["inv"] = lambda s, t: f2(s, t) + [eq(perm(inv(s, t), t), s)]
    c.frules["perm"] = lambda l, t: (TRUE, l.args[0]) if l.op == "f" and l.val == "inv" and l.args[1] is t else None
    c.frules["inv"] = lambda s, t: (TRUE, s.args[0]) if s.op == "f" and s.val == "perm" and s.args[1] is t else None
    c.eqrules = {"perm": lambda a, e: (and_(le(const(0), e), lt(e, c.T("L"))), eq(a[0], inv(e, a[1])))}
    c.assumptions.append("symmetry arrays: inv[:,t] is the inverse permutation of perm[:,t] (precondition; established for get_sym_transformation_spin by its own obligations)")
    base = c.sampler

    def sampler(d, rs):
        v = base(d, rs) if base else {}
        if v is None: return None
        p = np.stack([rs.permutation(d.L) for _ in range(d.T)], axis=-1).astype(np.int32)
        v["perm"] = p; v["inv"] = np.argsort(p, axis=0).astype(np.int32)
        return v
    c.sampler = sampler
    return perm, inv


def syms2(p, q, flip):
    def symmetries(x):
        out = jnp.take(x, p, axis=-1)
        return jnp.concatenate((out, 1 - out), axis=-1) if flip else out

    def inverse(occ, ind):
        s = q[ind]; o = jnp.repeat(jnp.expand_dims(occ, -1), p.shape[1], axis=-1) if False else jnp.broadcast_to(jnp.expand_dims(occ, -1), occ.shape + (p.shape[1],))
        if flip: return jnp.concatenate((o, 1 - o), axis=-1), jnp.concatenate((s, s), axis=-1)
        return o, s
    return (symmetries, inverse)


CASES = [qgps(K, 2, complex) for K in (1, 2, 3, 4)] + [qgps(2, 4, complex), qgps(2, 2, float)] + [qgps_sym(K, f) for K in (1, 2, 3) for f in (False, True)]


# ---------------------------------------------------------------- plaquettes
from .c11 import plaquette_model, NP, PLF, plmod


def plaquette(K, D, dtype, flip=None):
    def make():
        S = flip is not None
        c = Case("PlaquetteqGPS update K=%d D=%d %s%s" % (K, D, dtype.__name__, " symmetrised flip=%s" % flip if S else ""), [PLF], "b, L, M, P, N" + (", T" if S else ""), dict(b=(1, 2), L=(1, 4), M=(1, 2), P=(1, 2), N=(1, 3), T=(1, 2)))
        eps = c.input("eps", lambda d: (D, d.P, d.M, d.N), dtype)
        x, u, y, new = update_inputs(c, K, D)
        # inv[q, s]: the place of site s in plaquette q, or -1
        pl = c.input("plaq", lambda d: (d.P, d.N), jnp.int32, 0, lambda d: d.L)
        inv = c.input("place", lambda d: (d.P, d.L), jnp.int32, -1, lambda d: d.N)
        f1, f2 = c.facts["plaq"], c.facts["place"]
        c.facts["plaq"] = lambda q, k: f1(q, k) + [eq(inv(q, pl(q, k)), k)]
        c.facts["place"] = lambda q, s: f2(q, s) + [implies(le(const(0), inv(q, s)), eq(pl(q, inv(q, s)), s))]
        c.frules["plaq"] = lambda q, k: (le(const(0), k), k.args[1]) if k.op == "f" and k.val == "place" and k.args[0] is q else None
        rules = {"plaq": lambda a, e: (and_(le(const(0), e), lt(e, c.T("L"))), eq(a[1], inv(a[0], e)))}
        base = c.sampler

        def sampler(d, rs):
            if d.N > d.L: return None
            v = base(d, rs)
            p = np.stack([rs.permutation(d.L)[:d.N] for _ in range(d.P)]).astype(np.int32)
            w = -np.ones((d.P, d.L), np.int32)
            for q in range(d.P):
                for k in range(d.N): w[q, p[q, k]] = k
            v.update(plaq=p, place=w)
            return v
        c.sampler = sampler
        if S:
            perm, pinv = add_perm(c)
            rules.update(c.eqrules)
            T2 = 2 if flip else 1
            img = lambda cfg: lambda n, l, t: ite(lt(t, c.T("T")), cfg(n, perm(l, t)), 1 - cfg(n, perm(l, t - c.T("T"))))
        else: img = lambda cfg: lambda n, l, t: cfg(n, l)
        c.eqrules = rules
        P = lambda cfg: lambda n, q, m, t: Prod(c.T("N"), lambda k: eps(img(cfg)(n, pl(q, k), t), q, m, k))
        c.derived("sp", lambda d: (d.b, d.P, d.M, T2 * d.T if S else 1), dtype, P(x))

        def run(d):
            def f(e, x, u, y, q, w, *r):
                kw = {"syms": syms2(r[0], r[1], flip)} if S else {}
                with patched(plmod, np=NP()): return apply_update(plaquette_model(d.L, D, d.M, q, w, dtype=dtype, apply_fast_update=True, **kw), e, x, r[-1], y, u)
            return f
        out, sp, xs = c.run(run)
        ts = (lambda f: Sum(T2 * c.T("T"), f)) if S else (lambda f: f(const(0)))
        c.ensure("amplitude of the updated configuration", out, lambda n: Sum(c.T("P"), lambda q: Sum(c.T("M"), lambda m: ts(lambda t: P(new)(n, q, m, t)))))
        c.ensure("cached site products", sp, P(new))
        c.ensure("cached configuration", xs, new)
        c.assumptions.append("the sites of a plaquette differ; place[q, s] is the place of site s in plaquette q or -1 (built by setup, checked there at sampled inputs)")
        return c
    make.__name__ = "plaquette_%d_%d_%s_%s" % (K, D, dtype.__name__, flip)
    return make


CASES += [plaquette(1, 2, complex), plaquette(2, 2, complex), plaquette(3, 2, complex), plaquette(2, 4, complex), plaquette(2, 2, float), plaquette(1, 2, complex, False), plaquette(2, 2, complex, True)]


# ---------------------------------------------------------------- autoregressive, one product per site
from .arutil import *
from .c07 import Full, hil, spins, FF


def contexts(c, eps, cfg):
    """context product of site i: the parameters of the sites before it"""
    tri = lambda i: fdiv(i * (i + 1), const(2))
    return lambda i, n, m: Prod(i, lambda l: eps(cfg(n, l), m, tri(i) + l))


def full_conditionals(K, D, dtype, con):
    def make():
        c = Case("ARqGPSFull._conditionals update K=%d D=%d %s%s" % (K, D, dtype.__name__, " constrained" if con else ""), [FF + "_conditionals", FF + "_compute_conditional"], Full.dims, dict(b=(1, 2), L=(1, 4), M=(1, 2)), constraints=Full.constraints)
        psi = Full.setup(c, D, dtype)
        eps = c.arr["eps"]
        x, u, y, new = update_inputs(c, K, D)
        ctx = contexts(c, eps, x)
        # the counts of the zero-magnetisation constraint are taken from the configuration handed over
        z = c.input("z", lambda d: (d.b, d.L), jnp.int32, 0, D) if con else c.derived("z", lambda d: (d.b, d.L), jnp.int32, new)
        c.derived("o", lambda d: (d.b, K), jnp.int32, lambda n, k: x(n, u(n, k)))
        c.derived("sc", lambda d: (d.L, d.b, d.M), dtype, ctx)
        lp, cp = c.run(lambda d: (lambda e, x, u, y, z, o, sc: arf._conditionals(Full.stub(d, D, con, e), z, (o, y, u), sc)))
        cond = lambda n, i, s: psi(lambda l: new(n, l), i, s)
        if con: cond = lambda n, i, s: ite(lt(spins(lambda l: z(n, l), i, s), fdiv(c.T("L"), const(2))), psi(lambda l: new(n, l), i, s), mk("nan", (), "R", "-inf"))
        if con: c.split = lambda n, i, *s: [lt(spins(lambda l: z(n, l), i, s[0]), fdiv(c.T("L"), const(2))), eq(i, const(0))] if s and c.splitnow else []
        c.splitnow = True
        c.ensure("log conditionals of the updated configuration", lp, cond)
        c.ensure("context products of the updated configuration", cp, contexts(c, eps, new))
        return c
    make.__name__ = "full_cond_%d_%d_%s_%d" % (K, D, dtype.__name__, con)
    return make


CASES += [full_conditionals(1, 2, complex, False), full_conditionals(2, 2, complex, False)]


def full_call(K, D, sym, real):
    """__call__ with update sites is __call__ on the updated configuration.  real: with the code of _conditionals, the cache
    is that of the updated configuration, so _conditionals is handed the right arguments; otherwise _conditionals by its
    contract (above): both calls get the log conditionals lp of the updated configuration"""
    def make():
        c = Case("ARqGPSFull.__call__ update K=%d D=%d%s" % (K, D, " symmetrised" if sym else ""), [FF + "ARqGPSFull.__call__"], Full.dims + (", T" if sym else ""), dict(b=(1, 2), L=(1, 3), M=(1, 2), T=(1, 2)), constraints=Full.constraints)
        psi = Full.setup(c, D, complex)
        eps = c.arr["eps"]
        x, u, y, new = update_inputs(c, K, D)
        if sym:
            perm, inv = add_perm(c)
            img = lambda cfg: lambda n, l, t: cfg(n, perm(l, t))
        else: img = lambda cfg: lambda n, l, t: cfg(n, l)
        ctx = lambda cfg: lambda n, i, m, t: contexts(c, eps, lambda n, l: img(cfg)(n, l, t))(i, n, m)
        c.derived("sc", lambda d: (d.b, d.L, d.M, d.T if sym else 1), complex, ctx(x))
        c.derived("z", lambda d: (d.b, d.L), jnp.int32, new)
        if not real: c.input("lp", lambda d: (d.b, d.L, D), complex)

        def run(d):
            def f(e, x, u, y, *r):
                if not real: lp, r = r[-1], r[:-1]
                sc, z = r[-2:]
                if sym: sy = syms2(r[0], r[1], False)
                else: sy = (lambda v: jnp.expand_dims(v, -1), lambda o, i: (jnp.expand_dims(o, -1), jnp.expand_dims(i, -1)))
                def go(*a, **k):
                    m = Full.stub(d, D, False, e, apply_symmetries=sy, _saved_configs=NS(value=x), _saved_context_product=NS(value=sc))
                    w = ARqGPSFull.__call__(m, *a, cache_intermediates=True, **k)
                    return w.real, w.imag, m._saved_context_product.value, m._saved_configs.value
                if real: return go(y, update_sites=u)[2:]
                with patched(arf, _conditionals=lambda *a: (lp, jnp.swapaxes(sc[..., 0], 0, 1))): return go(y, update_sites=u)[:2], go(z)[:2]
            return f
        out = c.run(run)
        if real:
            c.ensure("cached context products", out[0], ctx(new))
            c.ensure("cached configuration", out[1], new)
        else:
            (re, im), (re2, im2) = out
            c.ensure("modulus of the updated configuration", re, lambda n: re2(n))
            c.ensure("phase of the updated configuration", im, lambda n: im2(n))
        return c
    make.__name__ = "full_call_%d_%d_%d_%d" % (K, D, sym, real)
    return make


CASES += [full_call(1, 2, False, True), full_call(2, 2, False, True), full_call(2, 2, True, True), full_call(2, 2, False, False), full_call(2, 2, True, False)]
