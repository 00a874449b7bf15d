"""C14: quantum geometric tensors act as the weighted covariance of the log-derivatives plus the specified diagonal"""
from .util import *
import GPSKet.optimizer.qgt.qgt_jacobian_dense_rmsprop as qd
import GPSKet.optimizer.qgt.qgt_jacobian_dense_unique_samples as qu
import GPSKet.optimizer.qgt.qgt_onthefly_rmsprop as qo
from GPSKet.vqs import MCStateUniqueSamples

FD = ["GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py:" + x for x in ("QGTJacobianDenseRMSProp", "QGTJacobianDenseRMSPropT.__matmul__", "QGTJacobianDenseRMSPropT.to_dense", "mat_vec", "convert_tree_to_dense_format")]


@jax.tree_util.register_pytree_node_class
class Shift:
    """a number known to lie between 0 and 1 (the code asserts it), otherwise symbolic"""
    def __init__(self, v): self.v = v
    def tree_flatten(self): return (self.v,), None
    @classmethod
    def tree_unflatten(cls, aux, ch): return cls(ch[0])
    def __ge__(self, o): assert o <= 0; return True
    def __le__(self, o): assert o >= 1; return True
    __lt__ = __gt__ = lambda self, o: False
    def __mul__(self, o): return self.v * o
    def __rmul__(self, o): return o * self.v
    def __add__(self, o): return self.v + o
    def __radd__(self, o): return o + self.v
    def __sub__(self, o): return self.v - o
    def __rsub__(self, o): return o - self.v
    def __neg__(self): return -self.v
    def __jax_array__(self): return jnp.asarray(self.v)


import netket.jax._jacobian.logic as nklogic


def dimsqrt(): return patched(nklogic, math=NS(sqrt=lambda n: jnp.sqrt(jnp.asarray(n, dtype=float))))


I1 = const(1j)


FU = ["GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py:QGTJacobianDenseUniqueSamples"]
FO = ["GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py:" + x for x in ("QGTOnTheFlyRMSProp", "mat_vec", "mat_vec_factory", "onthefly_mat_treevec", "_solve")]


class Unique(MCStateUniqueSamples):
    """a unique-samples state as the tensor sees it"""
    def __init__(self, d): self.__dict__.update(d)
    samples_with_counts = property(lambda s: s.__dict__["swc"])
    samples = property(lambda s: s.__dict__["swc"][0])
    parameters = property(lambda s: s.__dict__["pars"])
    model_state = property(lambda s: s.__dict__["ms"])
    chunk_size = None
    _apply_fun = property(lambda s: s.__dict__["af"])


def features(x, W):
    """complex features of a row from consecutive blocks of the given widths: (re, im) per block"""
    out, o = [], 0
    for w in W: out.append(x[..., o:o + w] + 1j * x[..., o + w:o + 2 * w]); o = o + 2 * w
    return out


def model(kind, out):
    """log-amplitude with arbitrary log-derivatives: quadratic in the parameters, the coefficients are the configuration"""
    def f(pars, x):
        p = pars["params"]; a, b = p["a"], p["b"]; K, J = a.shape[0], b.shape[0]
        if kind == "mixed":
            fa, ga, hb = features(x, [K, K, J])
            y = (fa * (a.real ** 2 / 2)).sum(-1) + (ga * (a.imag ** 2 / 2)).sum(-1) + (hb * (b * b / 2)).sum(-1)
        else:
            fa, hb = features(x, [K, J])
            y = (fa * (a * a / 2)).sum(-1) + (hb * (b * b / 2)).sum(-1)
        y = pars["m"] * y
        return y.real if out == "real" else y
    return f


def tensor(which, kind, mode, weighted=False, chains=False, call="matmul", give_mode=True):
    """which: dense / unique / fly;  kind of parameters: real / mixed / holo;  call: matmul / solve"""
    def make():
        fl = {"dense": FD, "unique": FU, "fly": FO}[which]
        c = Case("%s tensor, %s parameters, %s mode%s%s, %s" % (which, kind, mode, ", weighted samples" if weighted else "", ", chains" if chains else "", call), fl,
                 "N, K, J" + (", C" if chains else ""), dict(N=(1, 3), K=(1, 2), J=(1, 2), C=(1, 2)))
        N, K, J = c.T("N"), c.T("K"), c.T("J"); out = "real" if mode == "real" and which != "fly" else "complex"
        ta = complex if kind != "real" else float; tb = complex if kind == "holo" else float
        W = lambda d: 2 * d.K * (2 if kind == "mixed" else 1) + 2 * d.J
        sh = (lambda d: (d.C, d.N, W(d))) if chains else (lambda d: (d.N, W(d)))
        x = c.input("x", sh, float)
        a = c.input("a", lambda d: (d.K,), ta); b = c.input("b", lambda d: (d.J,), tb); m = c.input("m", lambda d: (), float)()
        va = c.input("va", lambda d: (d.K,), ta); vb = c.input("vb", lambda d: (d.J,), tb)
        rms = which in ("dense", "fly"); fsort = lambda t: t if which == "dense" else float
        pg = lambda t: (lambda d, rs, sh: rs.rand(*sh) + (1j * rs.rand(*sh) if t is complex else 0))
        if rms:
            ea = c.input("ea", lambda d: (d.K,), fsort(ta), gen=pg(fsort(ta))); eb = c.input("eb", lambda d: (d.J,), fsort(tb), gen=pg(fsort(tb)))
            eps = c.input("eps", lambda d: (), float)()
        ds = c.input("ds", lambda d: (), float, gen=lambda d, rs, sh: rs.rand())()
        if weighted: p = c.input("p", lambda d: (d.N,), float, gen=lambda d, rs, sh: rs.rand(*sh))
        if call == "solve": xa = c.input("xa", lambda d: (d.K,), ta); xb = c.input("xb", lambda d: (d.J,), tb)
        names = list(c.inputs)

        def fn(d):
            def f(*args):
                g = dict(zip(names, args)); par = {"a": g["a"], "b": g["b"]}; v = {"a": g["va"], "b": g["vb"]}
                kw = dict(parameters=par, model_state={"m": g["m"]}, _apply_fun=model(kind, out))
                st = Unique(dict(swc=(g["x"], g["p"]), pars=par, ms=kw["model_state"], af=kw["_apply_fun"])) if weighted else NS(samples=g["x"], chunk_size=None, **kw)
                with dimsqrt():
                    if rms: ema = {"a": g["ea"], "b": g["eb"]}
                    if which == "dense": S = qd.QGTJacobianDenseRMSProp(st, ema, diag_shift=Shift(g["ds"]), eps=g["eps"], **(dict(mode=mode) if give_mode else {}))
                    elif which == "unique": S = qu.QGTJacobianDenseUniqueSamples(st, mode=mode, diag_shift=g["ds"])
                    else: S = qo.QGTOnTheFlyRMSProp(st, ema, diag_shift=Shift(g["ds"]), eps=g["eps"], holomorphic=(mode == "holomorphic") or None)
                if call == "matmul": r = S @ v
                else:
                    def solve_fun(A, y, x0=None): return jax.tree_util.tree_map(lambda p, q: p + 3 * q, A @ y, x0), None
                    r = S.solve(solve_fun, v, x0={"a": g["xa"], "b": g["xb"]})[0]
                return r["a"], r["b"]
            return f
        o = c.run(fn)
        X = (lambda n, j: x(fdiv(n, N), mod(n, N), j)) if chains else x
        if chains:
            # sums over chains and samples of a chain
            SumN = lambda f: Sum(c.T("C"), lambda q: Sum(N, lambda n: f((q, n)))); NN = N * c.T("C"); X = lambda n, j: x(n[0], n[1], j)
        else: SumN = lambda f: Sum(N, f); NN = N
        w = (lambda n: p(n)) if weighted else (lambda n: retag(const(1), "R") / NN)
        feat = lambda o_, wd: (lambda n, k: X(n, o_ + k) + I1 * X(n, o_ + wd + k))
        # blocks: (log-derivative, direction component)
        if kind == "mixed": blocks = [(K, feat(const(0), K), lambda k: real(a(k))), (K, feat(2 * K, K), lambda k: imag(a(k))), (J, feat(4 * K, J), b)]
        else: blocks = [(K, feat(const(0), K), a), (J, feat(2 * K, J), b)]
        rl = real if out == "real" else (lambda z: z)
        O = [lambda n, k, F=F, t=t: rl(m * F(n, k) * t(k)) for _, F, t in blocks]
        mean = [lambda k, q=q: SumN(lambda n: w(n) * q(n, k)) for q in O]
        D = [lambda n, k, q=q, r=r: q(n, k) - r(k) for q, r in zip(O, mean)]
        vec = [lambda k: real(va(k)), lambda k: imag(va(k)), vb] if kind == "mixed" else [va, vb]
        wn = lambda n: add(*[Sum(B[0], lambda l, B=B, q=q, u=u: q(n, l) * u(l)) for B, q, u in zip(blocks, D, vec)])
        re = (lambda z: z) if kind == "holo" else real
        cov = [lambda k, q=q: SumN(lambda n: w(n) * re(conj(q(n, k)) * wn(n))) for q in D]
        if rms:
            scale = 1 - ds
            em = [lambda k: real(ea(k)), lambda k: imag(ea(k)), eb] if kind == "mixed" else [ea, eb]
            dg = [lambda k, e=e: ds * (un("sqrt", e(k)) + eps) for e in em]
        else: scale = const(1, "R"); dg = [lambda k: ds] * len(vec)
        res = [lambda k, cv=cv, g_=g_, u=u: scale * cv(k) + g_(k) * u(k) for cv, g_, u in zip(cov, dg, vec)]
        if call == "solve":
            x0 = [lambda k: real(xa(k)), lambda k: imag(xa(k)), xb] if kind == "mixed" else [xa, xb]
            res = [lambda k, r=r, z=z: r(k) + 3 * z(k) for r, z in zip(res, x0)]
        if kind == "mixed": r0, r1, r2 = res; res = [lambda k: r0(k) + I1 * r1(k), r2]
        c.ensure("first parameter block", o[0], res[0]); c.ensure("second parameter block", o[1], res[1])
        return c
    make.__name__ = "_".join(map(str, (which, kind, mode, weighted, chains, call, give_mode)))
    return make


def dense_matrix():
    c = Case("dense tensor as a matrix, real parameters", FD, "N, K", dict(N=(1, 3), K=(1, 3)))
    N, K = c.T("N"), c.T("K")
    x = c.input("x", lambda d: (d.N, 2 * d.K), float); t = c.input("t", lambda d: (d.K,), float); m = c.input("m", lambda d: (), float)()
    e = c.input("e", lambda d: (d.K,), float, gen=lambda d, rs, sh: rs.rand(*sh))
    ds = c.input("ds", lambda d: (), float, gen=lambda d, rs, sh: rs.rand())(); eps = c.input("eps", lambda d: (), float)()

    def f(x, t, m, e, ds, eps):
        mod_ = lambda pars, x: pars["m"] * (features(x, [t.shape[0]])[0] * (pars["params"] ** 2 / 2)).sum(-1)
        st = NS(samples=x, _apply_fun=mod_, parameters=t, model_state={"m": m}, chunk_size=None)
        with dimsqrt(): S = qd.QGTJacobianDenseRMSProp(st, e, mode="complex", diag_shift=Shift(ds), eps=eps)
        return S.to_dense(),
    o = c.run(lambda d: f)
    O = lambda n, k: m * (x(n, k) + I1 * x(n, K + k)) * t(k)
    D = lambda n, k: O(n, k) - Sum(N, lambda n: O(n, k)) / N
    Smat = lambda k, l: Sum(N, lambda n: real(conj(D(n, k)) * D(n, l))) / N
    c.ensure("dense matrix", o[0], lambda k, l: (1 - ds) * Smat(k, l) + ds * ite(eq(k, l), un("sqrt", e(k)) + eps, const(0, "R")))
    return c


CASES = [dense_matrix] + [tensor(*a[:3], **a[3]) for a in [
    ("dense", "real", "real", {}), ("dense", "real", "complex", {}), ("dense", "mixed", "complex", {}), ("dense", "real", "complex", dict(weighted=True)), ("dense", "mixed", "complex", dict(weighted=True)),
    ("dense", "real", "complex", dict(chains=True)), ("dense", "mixed", "complex", dict(call="solve")),
    ("unique", "real", "real", dict(weighted=True)), ("unique", "real", "complex", dict(weighted=True)), ("unique", "mixed", "complex", dict(weighted=True)), ("unique", "holo", "holomorphic", dict(weighted=True)),
    ("unique", "mixed", "complex", dict(weighted=True, call="solve")),
    ("fly", "real", "real", {}), ("fly", "real", "real", dict(chains=True)), ("fly", "holo", "holomorphic", {}), ("fly", "real", "real", dict(call="solve"))]]
