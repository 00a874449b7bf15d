"""C15: optimiser steps solve their stated equations; running averages advance once per step"""
from .util import *
from .c14 import Shift, features, dimsqrt, model, I1
import netket.jax as nkjax
import GPSKet.optimizer.sr_rmsprop as sr
import GPSKet.optimizer.sr_dense as sd
import GPSKet.optimizer.solvers as so
import importlib
import GPSKet.driver
vd, ms, af = [importlib.import_module("GPSKet.driver." + m) for m in ("VMC_SRRMSProp", "minSR", "autoreg_state_fitting")]

F = lambda f, *n: ["GPSKet/%s:%s" % (f, x) for x in n]


class Obj:
    """self as a method sees it: attributes given, other methods those of the class"""
    def __init__(self, cls, **kw): self.__dict__.update(kw); self.__dict__["_cls"] = cls
    def __getattr__(self, n):
        import types
        f = getattr(self.__dict__["_cls"], n)
        if isinstance(self.__dict__["_cls"].__dict__.get(n), property): return self.__dict__["_cls"].__dict__[n].fget(self)
        return types.MethodType(f, self) if callable(f) else f


def rms_preconditioner(cplx, sched):
    def make():
        c = Case("RMSProp preconditioner, %s parameters%s" % ("complex" if cplx else "real", ", schedule" if sched else ""), F("optimizer/sr_rmsprop.py", "SRRMSProp.__call__", "SRRMSProp.lhs_constructor"), "K, J", dict(K=(1, 3), J=(1, 3)))
        t = complex if cplx else float
        nu = c.input("nu", lambda d: (d.K,), t); nub = c.input("nub", lambda d: (d.J,), float); g = c.input("g", lambda d: (d.K,), t); gb = c.input("gb", lambda d: (d.J,), float)
        dec = c.input("dec", lambda d: (), float, gen=lambda d, rs, sh: 0.1 + 0.8 * rs.rand())(); ds = c.input("ds", lambda d: (), float, gen=lambda d, rs, sh: rs.rand())()
        eps = c.input("eps", lambda d: (), float)(); st = c.input("st", lambda d: (), np.int64, 0, 1000, gen=lambda d, rs, sh: rs.randint(0, 5))(); xs = c.input("xs", lambda d: (d.K,), t)

        def f(nu, nub, g, gb, dec, ds, eps, st, xs):
            log = {}

            def qgt(vstate, ema, diag_shift=None, eps=None, **kw):
                if "ema" in log: raise Unsupported("tensor built twice")
                log.update(ema=ema, ds=diag_shift, eps=eps, vstate=vstate, kw=kw)

                def solve(solver, grad, x0=None, **k2):
                    log.update(solver=solver, grad=grad); return {"a": xs, "b": gb}, "info"
                return NS(solve=solve)
            self = Obj(sr.SRRMSProp, decay=dec, _ema={"a": nu, "b": nub}, eps=eps, diag_shift=(lambda s: Shift(ds * (s + 1))) if sched else Shift(ds), qgt_constructor=qgt, qgt_kwargs={"q": 7}, solver="solver")
            r = sr.SRRMSProp.__call__(self, "vstate", {"a": g, "b": gb}, st)
            ok = log["vstate"] == "vstate" and log["solver"] == "solver" and log["kw"] == {"q": 7}
            return (self._ema["a"], self._ema["b"], log["ema"]["a"], log["ema"]["b"], jnp.asarray(log["ds"]), jnp.asarray(log["eps"]), log["grad"]["a"], log["grad"]["b"], r["a"], jnp.asarray(ok))
        o = c.run(lambda d: f)
        sq = (lambda z: real(z) * real(z) + I1 * (imag(z) * imag(z))) if cplx else (lambda z: z * z)
        new = lambda k: dec * nu(k) + (1 - dec) * sq(g(k)); newb = lambda k: dec * nub(k) + (1 - dec) * (gb(k) * gb(k))
        den = 1 - mk("u2", (dec, st + 1), "R", "pow")
        c.ensure("running average of the squared gradient, advanced once", o[0], new); c.ensure("second block of the running average", o[1], newb)
        c.ensure("bias-corrected average given to the tensor", o[2], lambda k: new(k) / den); c.ensure("second block of the bias-corrected average", o[3], lambda k: newb(k) / den)
        c.ensure("shift given to the tensor", o[4], lambda: ds * (st + 1) if sched else ds); c.ensure("eps given to the tensor", o[5], lambda: eps)
        c.ensure("right-hand side is the gradient", o[6], g); c.ensure("second block of the right-hand side", o[7], gb)
        c.ensure("the solution is returned", o[8], xs); c.ensure("state, solver and options handed on", o[9], lambda: TRUE)
        return c
    make.__name__ = "rms_preconditioner_%d_%d" % (cplx, sched)
    return make


def dense_sr():
    c = Case("dense preconditioner", F("optimizer/sr_dense.py", "SRDense.__call__", "SRDense.lhs_constructor") + F("optimizer/solvers.py", "pinv"), "K, J", dict(K=(1, 3), J=(1, 3)))
    A = c.input("A", lambda d: (d.K + d.J, d.K + d.J), complex); P = c.input("P", lambda d: (d.K + d.J, d.K + d.J), complex)
    g = c.input("g", lambda d: (d.K,), complex); gb = c.input("gb", lambda d: (d.J,), complex)

    def f(A, P, g, gb):
        log = {}

        def pinv(a, rcond=None, hermitian=False, **kw):
            log["a"] = a; log["r"] = (rcond if rcond is not None else kw.get("rtol"), hermitian); return P

        def solve(solver, y, x0=None): return solver(op, y, x0=x0)
        op = NS(to_dense=lambda: A, solve=solve)
        self = Obj(sd.SRDense, qgt_constructor=lambda v: op if v == "vstate" else None, solver=so.pinv)
        with patched(jnp.linalg, pinv=pinv): r = sd.SRDense.__call__(self, "vstate", {"a": g, "b": gb}, 3)
        return r["a"], r["b"], log["a"], jnp.asarray(log["r"][0] == 1e-12 and log["r"][1] is True)
    o = c.run(lambda d: f); K, J = c.T("K"), c.T("J")
    row = lambda i: Sum(K, lambda k: P(i, k) * g(k)) + Sum(J, lambda j: P(i, K + j) * gb(j))
    c.ensure("pseudo-inverse times right-hand side", o[0], row); c.ensure("second block", o[1], lambda j: row(K + j))
    c.ensure("pseudo-inverse of the dense tensor", o[2], A); c.ensure("hermitian pseudo-inverse with the stated cut-off", o[3], lambda: TRUE)
    c.assumptions.append("jnp.linalg.pinv returns the Hermitian pseudo-inverse")
    return c


def driver_step(mode, cplx):
    def make():
        c = Case("RMSProp driver update, %s mode, %s parameters" % (mode, "complex" if cplx else "real"), F("driver/VMC_SRRMSProp.py", "SRRMSProp"), "N, K", dict(N=(1, 4), K=(1, 3)))
        N, K = c.T("N"), c.T("K"); Kd = (lambda d: 2 * d.K) if cplx else (lambda d: d.K); KK = 2 * K if cplx else K
        O = c.input("O", (lambda d: (d.N, 2, Kd(d))) if mode == "complex" else (lambda d: (d.N, Kd(d))), float); e = c.input("e", lambda d: (d.N,), complex)
        nu = c.input("nu", lambda d: (Kd(d),), float, gen=lambda d, rs, sh: rs.rand(*sh)); w = c.input("w", lambda d: (Kd(d),), float); st = c.input("st", lambda d: (), np.int64, 0, 1000, gen=lambda d, rs, sh: rs.randint(0, 5))()
        ds, dec, eps, em = [c.input(n, lambda d: (), complex if n == "em" else float, gen=lambda d, rs, sh: 0.1 + 0.8 * rs.rand())() for n in ("ds", "dec", "eps", "em")]

        def f(O, e, nu, w, st, ds, dec, eps, em):
            solver = lambda S, g: S @ w + 3 * g
            with dims_as_arrays(vd):
                up, ema = vd.SRRMSProp(O, e, nu, st, ds, dec, eps, mode=mode, solver_fn=solver, e_mean=em, params_structure={"p": jnp.zeros((2,), complex if cplx else float)})
            return up, ema
        o = c.run(lambda d: f)
        if mode == "complex":
            D = lambda s: (lambda n, k: O(n, const(s), k) - Sum(N, lambda q: O(q, const(s), k)) / N)
            gr = lambda k: -2 * N * Sum(N, lambda n: D(0)(n, k) * real(e(n) - em) + D(1)(n, k) * imag(e(n) - em))
            Sm = lambda k, l: N * Sum(N, lambda n: D(0)(n, k) * D(0)(n, l) + D(1)(n, k) * D(1)(n, l))
        else:
            D = lambda n, k: O(n, k) - Sum(N, lambda q: O(q, k)) / N
            gr = lambda k: -2 * N * Sum(N, lambda n: D(n, k) * real(e(n) - em)); Sm = lambda k, l: N * Sum(N, lambda n: D(n, k) * D(n, l))
        new = lambda k: dec * nu(k) + (1 - dec) * (gr(k) * gr(k))
        hat = lambda k: new(k) / (1 - mk("u2", (dec, st + 1), "R", "pow"))
        row = lambda k: Sum(KK, lambda l: Sm(k, l) * w(l)) + ds * (un("sqrt", hat(k)) + eps) * w(k) + 3 * gr(k)
        c.ensure("update: solution of the regularised system", o[0], (lambda k: -1 * (row(k) + I1 * row(K + k))) if cplx else (lambda k: -1 * row(k)))
        c.ensure("running average of the squared gradient, advanced once", o[1], new)
        return c
    make.__name__ = "driver_step_%s_%d" % (mode, cplx)
    return make


import contextlib


@contextlib.contextmanager
def dims_as_arrays(mod):
    """jnp.sqrt of a dimension: the dimension is made an array first"""
    old = jnp.sqrt
    with patched(jnp, sqrt=lambda x: old(x if hasattr(x, "dtype") or hasattr(x, "aval") else jnp.asarray(x, dtype=float))): yield


def driver_run(sched):
    def make():
        c = Case("RMSProp driver%s" % (" with schedule" if sched else ""), F("driver/VMC_SRRMSProp.py", "VMC_SRRMSProp._forward_and_backward"), "C, N, K, J", dict(C=(1, 2), N=(1, 2), K=(1, 2), J=(1, 2)))
        x = c.input("x", lambda d: (d.C, d.N, 2), float); e = c.input("e", lambda d: (d.C, d.N), complex); O = c.input("O", lambda d: (d.C * d.N, 2, d.K + d.J), float)
        nu = c.input("nu", lambda d: (d.K + d.J,), float); nu2 = c.input("nu2", lambda d: (d.K + d.J,), float); up = c.input("up", lambda d: (d.K + d.J,), float)
        ds, dec, eps = [c.input(n, lambda d: (), float)() for n in ("ds", "dec", "eps")]; st = c.input("st", lambda d: (), np.int64, 0, 1000)(); mean = c.input("mean", lambda d: (), complex)()

        def fn(d):
            def f(x, e, O, nu, nu2, up, ds, dec, eps, st, mean):
                log = {"n": 0}

                def local(h): log["ham"] = h, log["n"]; return e
                def reset(): log["n"] += 1

                def jac(af, pars, samples, model_state, mode=None, dense=None, center=None, chunk_size=None, **kw):
                    log["jac"] = (af == "af", pars == "pars", model_state == "ms", mode == "complex", dense is True, not center, chunk_size == "chunk", not kw); log["samples"] = samples; return O

                def step(O, e, ema, stp, ds, dec, eps, *, mode, solver_fn, e_mean=None, params_structure=None):
                    if "step" in log: raise Unsupported("second update in one step")
                    log["step"] = (O, e, ema, stp, ds, dec, eps, e_mean); log["ok"] = (mode == "complex", solver_fn == "solver", params_structure == "struct"); return up, nu2
                stats = lambda v: NS(Mean=mean, mean=mean, arg=v)
                self = Obj(vd.VMC_SRRMSProp, state=NS(reset=reset, local_estimators=local, samples=x, _apply_fun="af", parameters="pars", model_state="ms", chunk_size="chunk"), _ham="ham", _ema=nu, step_count=st,
                           diag_shift=(lambda s: ds * (s + 1)) if sched else ds, decay=dec, eps=eps, jacobian_mode="complex", _linear_solver_fn="solver", _params_structure="struct",
                           _unravel_params_fn=lambda v: {"a": v[:d.K], "b": v[d.K:]})
                with patched(nkjax, jacobian=jac), patched(vd, SRRMSProp=step), patched(vd.nkstats, statistics=stats):
                    r = vd.VMC_SRRMSProp._forward_and_backward(self)
                s = log["step"]
                ok = jnp.asarray(all(log["jac"]) and all(log["ok"]) and log["n"] == 1 and log["ham"] == ("ham", 1))
                return s[0], s[1].reshape(-1), s[2], *[jnp.asarray(z) for z in s[3:]], log["samples"], self._ema, r["a"], r["b"], self._loss_stats.arg.reshape(-1), ok
            return f
        o = c.run(fn); N, K = c.T("N"), c.T("K")
        c.ensure("log-derivatives handed to the update", o[0], O); c.ensure("local energies handed to the update", o[1], lambda n: e(fdiv(n, N), mod(n, N)))
        c.ensure("running average handed to the update", o[2], nu)
        for k, (n, v) in enumerate((("step", st), ("shift", ds * (st + 1) if sched else ds), ("decay", dec), ("eps", eps), ("energy", mean))): c.ensure(n + " handed to the update", o[3 + k], lambda v=v: v)
        c.ensure("log-derivatives at all samples", o[8], lambda n, j: x(fdiv(n, N), mod(n, N), j))
        c.ensure("running average replaced once", o[9], nu2); c.ensure("update returned", o[10], up); c.ensure("second block of the update", o[11], lambda j: up(K + j))
        c.ensure("energy statistics of the local energies", o[12], lambda n: e(fdiv(n, N), mod(n, N)))
        c.ensure("one reset before the energies; model, mode, solver and Hamiltonian handed on", o[13], lambda: TRUE)
        return c
    make.__name__ = "driver_run_%d" % sched
    return make


class JNP:
    """numpy in the driver module, replaced by jax.numpy so that the function can be traced"""
    def __getattr__(self, n): return getattr(jnp, n)
    @staticmethod
    def prod(x):
        r = 1
        for v in (x if isinstance(x, (tuple, list)) else [x]): r = r * v
        return r


def linear(mode):
    """log-derivatives are the configuration itself"""
    def f(pars, x):
        K = x.shape[-1] // 2; y = ((x[..., :K] + 1j * x[..., K:]) * pars["params"]["a"]).sum(-1)
        return y.real if mode == "real" else y
    return f


def minsr(kind, mode, nch, weighted):
    def make():
        c = Case("minSR driver, %s parameters, %s mode, %d chunks%s" % (kind, mode, nch, ", weighted samples" if weighted else ""), F("driver/minSR.py", "minSRVMC._forward_and_backward", "_statistics"), "B, K, J" if nch == 1 else "B, K", dict(B=(1, 2), K=(1, 2), J=(1, 2)))
        B, K = c.T("B"), c.T("K"); N = nch * B; cplx = kind == "holo"; two = nch == 1; J = c.T("J") if two else None
        t = complex if cplx else float
        x = c.input("x", (lambda d: (nch * d.B, 2 * d.K + 2 * d.J)) if two else (lambda d: (nch * d.B, 2 * d.K)), float); a = c.input("a", lambda d: (d.K,), t)
        if two: b = c.input("b", lambda d: (d.J,), t); m = c.input("m", lambda d: (), float)()
        e = c.input("e", lambda d: (nch * d.B,), complex); w = c.input("w", lambda d: (nch * d.B,), complex)
        if weighted: p = c.input("p", lambda d: (nch * d.B,), float, gen=lambda d, rs, sh: rs.rand(*sh))
        names = list(c.inputs)

        def fn(d):
            def f(*args):
                g = dict(zip(names, args)); log = {"n": 0}; par = {k: g[k] for k in "ab" if k in g}

                def local(h): log["ham"] = h, log["n"]; return g["e"]
                def reset(): log["n"] += 1
                kw = dict(reset=reset, local_estimators=local, chunk_size=d.B, n_samples=nch * d.B, n_samples_per_rank=nch * d.B, _apply_fun=model(kind, "real" if mode == "real" else "complex") if two else linear(mode), parameters=par, model_state={"m": g["m"]} if two else {})
                st = NS(samples_with_counts=(g["x"], g["p"]), **kw) if weighted else NS(samples=g["x"].reshape(1, nch * d.B, -1) if False else g["x"], **kw)
                self = Obj(ms.minSRVMC, state=st, _ham="ham", mode=mode, solver=lambda A, v: A @ g["w"] + 3 * v)
                with patched(ms, np=JNP(), integrated_time=lambda v: jnp.zeros(()), _split_R_hat=lambda v, s: jnp.zeros(()), Stats=NS_stats), dimsqrt(): r = ms.minSRVMC._forward_and_backward(self)
                s = self._loss_stats
                return r["a"], r["b"] if two else r["a"], jnp.asarray(s.mean), jnp.asarray(s.variance), jnp.asarray(log["n"] == 1 and log["ham"] == ("ham", 1))
            return f
        o = c.run(fn)
        P = p if weighted else (lambda n: retag(const(1), "R") / N)
        O = [lambda n, k: m * (x(n, k) + I1 * x(n, K + k)) * a(k), lambda n, k: m * (x(n, 2 * K + k) + I1 * x(n, 2 * K + J + k)) * b(k)] if two else [lambda n, k: x(n, k) + I1 * x(n, K + k)]
        if mode == "real": O = [lambda n, k, q=q: real(q(n, k)) for q in O]
        D = [lambda n, k, q=q: q(n, k) - Sum(N, lambda r: P(r) * q(r, k)) for q in O]
        mean = Sum(N, lambda n: P(n) * e(n)); rt = lambda n: un("sqrt", P(n))
        ker = lambda n, r: rt(n) * rt(r) * add(*[Sum(w_, lambda k, q=q: q(n, k) * conj(q(r, k))) for w_, q in zip((K, J), D)])
        sol = lambda n: Sum(N, lambda r: ker(n, r) * w(r)) + 3 * rt(n) * (e(n) - mean)
        fin = (lambda z: z) if cplx else real
        for i, nm in ((0, "update"), (1, "second block of the update"))[:1 + two]: c.ensure(nm, o[i], lambda k, i=i: fin(Sum(N, lambda n: conj(D[i](n, k)) * rt(n) * sol(n))))
        c.ensure("energy estimate", o[2], lambda: mean); c.ensure("variance", o[3], lambda: Sum(N, lambda n: P(n) * real((e(n) - mean) * conj(e(n) - mean))))
        c.ensure("one reset before the energies of the Hamiltonian", o[4], lambda: TRUE)
        c.assumptions.append("numpy calls inside the driver are traced as their jax.numpy counterparts")
        return c
    make.__name__ = "minsr_%s_%s_%d_%d" % (kind, mode, nch, weighted)
    return make


@jax.tree_util.register_pytree_node_class
class NS_stats:
    def __init__(self, mean, error_of_mean, variance, tau, rhat): self.mean, self.variance = mean, variance
    def tree_flatten(self): return (self.mean, self.variance), None
    @classmethod
    def tree_unflatten(cls, aux, ch): return cls(ch[0], None, ch[1], None, None)


def fitting():
    c = Case("autoregressive state fitting", F("driver/autoreg_state_fitting.py", "ARStateFitting._forward_and_backward", "_loss", "_loss_and_grad"), "D, B, K, J", dict(D=(1, 4), B=(1, 3), K=(1, 2), J=(1, 2)))
    X = c.input("X", lambda d: (d.D, 2 * d.K + 2 * d.J), float); y = c.input("y", lambda d: (d.D,), complex); ids = c.input("ids", lambda d: (d.B,), np.int64, 0, lambda d: d.D)
    a = c.input("a", lambda d: (d.K,), complex); b = c.input("b", lambda d: (d.J,), complex); m = c.input("m", lambda d: (), float)(); key = c.input("key", lambda d: (), np.int64)(); pr = c.input("pr", lambda d: (d.D,), float)

    def f(X, y, ids, a, b, m, key, pr):
        log = {}

        def choice(key, v, shape=(), p=None, replace=True):
            if log: raise Unsupported("second draw")
            log.update(key=key, p=p, replace=replace, v=v, shape=shape); return ids
        split = lambda k, num=2: k * 16 + 1 + jnp.arange(num)
        self = Obj(af.ARStateFitting, _key=key, _ids="ids", _mini_batch_size=ids.shape[0], _probas=pr, _dataset=(X, y), state=NS(parameters={"a": a, "b": b}, model_state={"m": m}, _apply_fun=MODEL))
        with patched(jax.random, choice=choice, split=split): g = af.ARStateFitting._forward_and_backward(self)
        return self._loss_stats if hasattr(self, "_loss_stats") else self.loss, g["a"], g["b"], log["p"], jnp.stack([self._key != key, jnp.asarray(log["replace"] is False and log["v"] == "ids" and tuple(log["shape"]) == (ids.shape[0],))])
    o = c.run(lambda d: f); Bn, K, J = c.T("B"), c.T("K"), c.T("J")
    amp = lambda n: un("exp", m * (Sum(K, lambda k: (X(ids(n), k) + I1 * X(ids(n), K + k)) * (a(k) * a(k))) / 2 + Sum(J, lambda k: (X(ids(n), 2 * K + k) + I1 * X(ids(n), 2 * K + J + k)) * (b(k) * b(k))) / 2))
    dif = lambda n: amp(n) - y(ids(n))
    O = [lambda n, k: m * (X(ids(n), k) + I1 * X(ids(n), K + k)) * a(k), lambda n, k: m * (X(ids(n), 2 * K + k) + I1 * X(ids(n), 2 * K + J + k)) * b(k)]
    c.ensure("loss: mean squared distance over the mini-batch", o[0], lambda: Sum(Bn, lambda n: real(dif(n) * conj(dif(n)))) / Bn)
    for i, nm in ((0, "gradient"), (1, "second block of the gradient")): c.ensure(nm, o[1 + i], lambda k, i=i: 2 * Sum(Bn, lambda n: conj(O[i](n, k)) * conj(amp(n)) * dif(n)) / Bn)
    c.ensure("mini-batch drawn with the given weights", o[3], pr); c.ensure("new key; draws without replacement from the data set", o[4], lambda k: TRUE)
    return c


MODEL = model("holo", "complex")


CASES = [rms_preconditioner(a, b) for a in (False, True) for b in (False, True)] + [dense_sr] + [driver_step("complex", True), driver_step("complex", False), driver_step("real", False)] + [driver_run(False), driver_run(True)]
CASES += [minsr(*a) for a in (("holo", "holomorphic", 1, False), ("holo", "holomorphic", 2, False), ("holo", "holomorphic", 2, True), ("real", "complex", 2, True), ("real", "complex", 1, True), ("real", "real", 1, False))] + [fitting]
