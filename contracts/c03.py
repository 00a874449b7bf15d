"""C03: local energies of lattice Hamiltonians evaluated on the fly"""
from .util import *
from .c01 import configurations, hop
from engine.kspec import Gfun
import GPSKet.operator.hamiltonian.hubbard as hub
import GPSKet.operator.hamiltonian.J1J2 as jj

HF = ["GPSKet/operator/hamiltonian/hubbard.py:local_en_on_the_fly", "GPSKet/operator/hamiltonian/ab_initio.py:get_parity_multiplicator_hop"]
PSI = opaque_row("Psi", "C", 1, impl=lambda x: np.apply_along_axis(lambda r: Gfun(r), -1, np.asarray(x, dtype=float)))


def logpsi(pars, x, update_sites=None, mutable=False, cache_intermediates=False):
    """any wavefunction: an unknown function of the configuration.  With a cache the configuration is the cached one with the
    given sites replaced (the contract of the fast update, C05/C06); x has one leading batch axis"""
    if update_sites is not None:
        s = pars["intermediates_cache"]["samples"]; l = jnp.arange(s.shape[-1])
        c = s[0]
        for k in reversed(range(x.shape[-1])): c = jnp.where(l == update_sites[0, k], x[0, k].astype(c.dtype), c)
        return PSI(c[None])
    if mutable: return PSI(x), {"intermediates_cache": {"samples": x}}
    return PSI(x)


def Psi(f, n):
    v = fresh("g"); return mk("f", (bind("lam", v, n, f(v)),), "C", "Psi")


def hubbard(fast):
    def make():
        c = Case("Hubbard local energy%s" % (" (fast update)" if fast else ""), HF, "b, L, E", dict(b=(1, 2), L=(1, 4), E=(1, 3)))
        x, cfg = configurations(c)
        edges = c.input("edges", lambda d: (d.E, 2), np.int64, 0, lambda d: d.L)
        U = c.input("U", lambda d: (), float)()
        t = c.input("t", lambda d: (d.E,), float)
        L, E = c.T("L"), c.T("E")
        c.extra["Psi"] = Gfun
        out = c.run(lambda d: (lambda x, edges, U, t: hub.local_en_on_the_fly(logpsi, {}, x, (edges, U, t), use_fast_update=fast)), order=["x", "edges", "U", "t"])

        def spec(n):
            X = cfg(n); p0 = Psi(X, L)
            g = lambda Y: un("exp", Psi(Y, L) - p0)
            return U * Sum(L, lambda l: ite(eq(X(l), const(3)), const(1), const(0))) - Sum(E, lambda e: t(e) * add(*[hop(X, s, edges(e, const(p)), edges(e, const(1 - p)), L, g) for s in (1, 2) for p in (0, 1)]))
        c.proof_s = 200
        c.ensure("sum of matrix element times amplitude ratio", out, spec)
        c.assumptions.append("the wavefunction obeys the fast-update contract (C05, C06): with a cache it returns the amplitude of the cached configuration with the given sites replaced")
        return c
    make.__name__ = "hubbard_%d" % fast
    return make


CASES = [hubbard(False), hubbard(True)]


JF = ["GPSKet/operator/hamiltonian/J1J2.py:local_en_on_the_fly"]


def heisenberg(fast):
    def make():
        c = Case("Heisenberg local energy%s" % (" (fast update)" if fast else ""), JF, "b, L, M", dict(b=(1, 2), L=(2, 4), M=(1, 3)))
        c.splitsmall = True
        up = c.input("up", lambda d: (d.b, d.L), np.int64, 0, 2)
        SPIN = jj.nk.hilbert.Spin(0.5, N=2)
        act = c.input("act", lambda d: (d.M, 2), np.int64, 0, lambda d: d.L, facts=lambda m, k: [not_(eq(c.arr["act"](m, const(0)), c.arr["act"](m, const(1))))])
        L, M = c.T("L"), c.T("M")
        d0, d1, d3, K = [c.input(s, lambda d: (d.M,), float) for s in ("d0", "d1", "d3", "K")]
        c.extra["Psi"] = Gfun

        def fn(up, act, d0, d1, d3, K):
            # two-site operators of Heisenberg type: diagonal plus one exchange element, symmetric in the two sites
            z = jnp.zeros_like(d0); row = lambda *r: jnp.stack(r, -1)
            O = jnp.stack([row(d0, z, z, z), row(z, d1, K, z), row(z, K, d1, z), row(z, z, z, d3)], 1)
            return jj.local_en_on_the_fly(SPIN.states_to_local_indices, logpsi, {}, 2.0 * up - 1.0, (O, act), use_fast_update=fast)
        out = c.run(lambda d: fn, order=["up", "act", "d0", "d1", "d3", "K"])

        def spec(n):
            X = lambda l: retag(const(2) * up(n, l) - const(1), "R"); p0 = Psi(X, L)

            def term(m):
                a, b = act(m, const(0)), act(m, const(1)); ua, ub = up(n, a), up(n, b)
                Y = lambda l: ite(eq(l, a), X(b), ite(eq(l, b), X(a), X(l)))
                flip = d1(m) + K(m) * un("exp", Psi(Y, L) - p0)
                return ite(eq(ua, const(0)), ite(eq(ub, const(0)), d0(m), flip), ite(eq(ub, const(0)), flip, d3(m)))
            return Sum(M, term)
        c.proof_s = 200
        c.ensure("sum of matrix element times amplitude ratio", out, spec)
        c.assumptions.append("the wavefunction obeys the fast-update contract (C05, C06)")
        return c
    make.__name__ = "heisenberg_%d" % fast
    return make


CASES += [heisenberg(False), heisenberg(True)]
