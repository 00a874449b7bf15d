"""C10: the fast-update Metropolis step keeps configuration, log-probability and cache together"""
from .util import *
from engine.kspec import Gfun
import GPSKet.sampler.metropolis_fast as mf
import GPSKet.sampler.rules.exchange_with_update as ex

MF = ["GPSKet/sampler/metropolis_fast.py:MetropolisFastSampler._sample_next"]
PSI = opaque_row("Psi", "C", 1, impl=lambda x: np.apply_along_axis(lambda r: Gfun(r), -1, np.asarray(x, dtype=float)))
AUX = opaque_row("Aux", "C", 1, impl=lambda x: np.apply_along_axis(lambda r: 0.3 * Gfun(r) ** 2, -1, np.asarray(x, dtype=float)))


class Machine:
    """any model obeying the fast-update contract (C05, C06): from a coherent cache it returns amplitude and cache of the
    configuration with the given sites replaced; what it returns from an incoherent cache is off by the incoherence"""
    apply_fast_update = True

    @staticmethod
    def apply(pars, x, mutable=None, cache_intermediates=False, update_sites=None):
        th = pars["params"]; off = 0
        if update_sites is not None:
            s, a = pars["intermediates_cache"]["samples"], pars["intermediates_cache"]["aux"]
            l = jnp.arange(s.shape[-1]); off = a - AUX(s); c = s
            for k in reversed(range(x.shape[-1])): c = jnp.where(l[None] == update_sites[:, k, None], x[:, k, None].astype(c.dtype), c)
            x = c
        v = th * PSI(x) + off
        if not mutable: return v
        assert mutable == "intermediates_cache" or mutable == ["intermediates_cache"]
        return v, {"intermediates_cache": {"samples": x, "aux": AUX(x) + off}}


class Loop:
    """jax.lax.fori_loop replaced by its contract: the body is run once on an arbitrary state satisfying the invariant"""
    def __init__(self, state): self.state = state

    def __call__(self, lo, hi, body, init):
        if hasattr(self, "init"): raise Unsupported("a second loop")
        self.lo, self.hi, self.init = lo, hi, init
        s = self.state
        if set(init) != set(s): raise Unsupported("loop state has other components than the contract expects: %s" % sorted(init))
        self.out = body(jnp.asarray(0), dict(s))
        return self.out


class State:
    def __init__(self, **k): self.k = k
    def __getattr__(self, n): return self.__dict__["k"][n]
    def replace(self, **k): return State(**{**self.k, **k})


def at(f, n): return lambda l: f(n, l)


def lam(name, f, L):
    v = fresh("g"); return mk("f", (bind("lam", v, L, f(v)),), "C", name)


def step(corr):
    def make():
        c = Case("Metropolis sweep%s" % (" with proposal correction" if corr else ""), MF, "b, L", dict(b=(1, 3), L=(2, 4)))
        D = 4; b, L = c.T("b"), c.T("L")
        s0 = c.input("s0", lambda d: (d.b, d.L), np.int64, 0, D); s1 = c.input("s1", lambda d: (d.b, d.L), np.int64, 0, D)
        u = c.input("u", lambda d: (d.b, 2), np.int64, 0, lambda d: d.L)
        y = c.input("y", lambda d: (d.b, 2), np.int64, 0, D, facts=lambda n, k: [implies(eq(u(n, const(0)), u(n, const(1))), eq(c.arr["y"](n, k), s1(n, u(n, k))))])
        th = c.input("th", lambda d: (), complex)(); mp = c.input("mp", lambda d: (), float)()
        U = c.input("U", lambda d: (d.b,), float); co = c.input("co", lambda d: (d.b,), float)
        a0 = c.input("a0", lambda d: (d.b,), np.int64); a1 = c.input("a1", lambda d: (d.b,), np.int64)
        sw = c.input("sw", lambda d: (), np.int64, 1, lambda d: 1000)(); ns = c.input("ns", lambda d: (), np.int64)()
        key = c.input("key", lambda d: (), np.int64)()
        c.extra["Psi"] = Gfun; c.extra["Aux"] = lambda r: 0.3 * Gfun(r) ** 2

        def gen(d, rs):
            v = {"s0": rs.randint(0, D, (d.b, d.L)), "s1": rs.randint(0, D, (d.b, d.L)), "u": rs.randint(0, d.L, (d.b, 2)), "y": rs.randint(0, D, (d.b, 2))}
            for n in range(d.b):
                if v["u"][n, 0] == v["u"][n, 1]: v["y"][n] = v["s1"][n, v["u"][n]]
            return v
        c.sampler = gen

        def fn(d):
            def f(s0, s1, u, y, th, mp, U, co, a0, a1, sw, ns, key):
                used = {}

                class Rule:
                    @staticmethod
                    def transition(sampler, machine, parameters, state, key, s):
                        used["rule"] = key; l = jnp.arange(s.shape[-1]); p = s
                        for k in (1, 0): p = jnp.where(l[None] == u[:, k, None], y[:, k, None], p)
                        return p, (co if corr else None), u

                def uniform(key, shape=(), **kw):
                    used["uniform"] = key
                    if "uniform_n" in used: raise Unsupported("a second uniform draw")
                    used["uniform_n"] = 1
                    return jnp.broadcast_to(U, shape)
                split = lambda k, num=2: k * 16 + 1 + jnp.arange(num)
                sampler = NS(rule=Rule, machine_pow=mp, n_chains_per_rank=d.b, sweep_size=sw)
                lp = Loop({"key": key, "σ": s1, "intermediates_cache": {"intermediates_cache": {"samples": s1, "aux": AUX(s1)}}, "log_prob": mp * (th * PSI(s1)).real, "accepted": a1})
                st = State(rng=key, σ=s0, n_accepted_proc=a0, n_steps_proc=ns)
                with patched(jax.lax, fori_loop=lp), patched(jax.random, split=split, uniform=uniform):
                    new, smp = mf.MetropolisFastSampler._sample_next(sampler, Machine, {"params": th}, st)
                if not hasattr(lp, "init"): raise Unsupported("no fori_loop over the sweep")
                i, o = lp.init, lp.out
                ca, cb = i["intermediates_cache"]["intermediates_cache"], o["intermediates_cache"]["intermediates_cache"]
                keys = jnp.stack([o["key"] != used["rule"], o["key"] != used["uniform"], used["rule"] != used["uniform"], new.rng != i["key"]])
                return (i["σ"], i["log_prob"], i["accepted"], ca["samples"], ca["aux"], o["σ"], o["log_prob"], o["accepted"], cb["samples"], cb["aux"], smp, new.σ, new.n_accepted_proc,
                        jnp.asarray(new.n_steps_proc), jnp.asarray(lp.hi) - lp.lo, keys)
            return f
        o = c.run(fn)
        P = lambda s, n: mp * real(th * lam("Psi", at(s, n), L))
        A = lambda s, n: lam("Aux", at(s, n), L)
        c.ensure("before the sweep: configurations of the state", o[0], s0)
        c.ensure("before the sweep: log-probabilities of those configurations", o[1], lambda n: P(s0, n))
        c.ensure("before the sweep: acceptance counters", o[2], a0)
        c.ensure("before the sweep: cached configurations", o[3], s0)
        c.ensure("before the sweep: cached data", o[4], lambda n: A(s0, n))
        prop = lambda n, l: ite(eq(l, u(n, const(0))), y(n, const(0)), ite(eq(l, u(n, const(1))), y(n, const(1)), s1(n, l)))
        acc = lambda n: lt(U(n), un("exp", P(prop, n) - P(s1, n) + (co(n) if corr else const(0, "R"))))
        c.ensure("step: configuration", o[5], lambda n, l: ite(acc(n), prop(n, l), s1(n, l)))
        c.ensure("step: log-probability", o[6], lambda n: ite(acc(n), P(prop, n), P(s1, n)))
        c.ensure("step: accepted moves are counted per chain", o[7], lambda n: a1(n) + ite(acc(n), const(1), const(0)))
        c.ensure("step: cached configuration", o[8], lambda n, l: ite(acc(n), prop(n, l), s1(n, l)))
        c.ensure("step: cached data", o[9], lambda n: ite(acc(n), A(prop, n), A(s1, n)))
        for k, w in ((10, "returned samples"), (11, "stored configurations")): c.ensure("after the sweep: " + w, o[k], lambda n, l: o[5](n, l))
        c.ensure("after the sweep: acceptance counters", o[12], lambda n: o[7](n))
        c.ensure("after the sweep: step counter", o[13], lambda: ns + sw * b)
        c.ensure("the sweep makes sweep_size steps", o[14], lambda: sw)
        c.ensure("proposal, acceptance draw and next step (and the sweep and the next sweep) use different random keys", o[15], lambda k: TRUE)
        c.assumptions += ["the model obeys the fast-update contract (C05, C06)", "a proposal rule returns all sites on which proposal and configuration differ, and proposes no change when they coincide (C09, and the exchange rule below)",
                          "splitting a key gives distinct keys; draws from distinct keys are independent (jax.random)"]
        return c
    make.__name__ = "step_%d" % corr
    return make


def exchange():
    c = Case("exchange rule", ["GPSKet/sampler/rules/exchange_with_update.py:ExchangeRuleWithUpdate.transition"], "b, L, C", dict(b=(1, 3), L=(2, 4), C=(1, 3)))
    s = c.input("s", lambda d: (d.b, d.L), np.int64, 0, 4)
    cl = c.input("cl", lambda d: (d.C, 2), np.int64, 0, lambda d: d.L)
    cid = c.input("cid", lambda d: (d.b,), np.int64, 0, lambda d: d.C)

    def f(s, cl, cid):
        rng = {}

        def randint(key, shape=(), minval=0, maxval=None, dtype=int):
            rng["r"] = (minval, maxval); return jnp.broadcast_to(cid, shape)
        with patched(jax.random, randint=randint):
            p, co, sites = ex.ExchangeRuleWithUpdate.transition(NS(clusters=cl), None, None, None, None, 0, s)
        if co is not None: raise Unsupported("proposal correction")
        return p, sites, jnp.stack([jnp.asarray(rng["r"][0]), jnp.asarray(rng["r"][1])])
    o = c.run(lambda d: f)
    si, sj = [lambda n, k=k: cl(cid(n), const(k)) for k in (0, 1)]
    c.ensure("the two sites of the cluster are exchanged", o[0], lambda n, l: ite(eq(l, si(n)), s(n, sj(n)), ite(eq(l, sj(n)), s(n, si(n)), s(n, l))))
    c.ensure("the reported sites", o[1], lambda n, k: cl(cid(n), k))
    c.ensure("clusters are drawn from all clusters", o[2], lambda k: ite(eq(k, const(0)), const(0), c.T("C")))
    return c


CASES = [step(False), step(True), exchange]
