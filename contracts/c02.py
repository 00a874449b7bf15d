"""C02: ab-initio connected elements"""
from .util import *
from .c01 import configurations, parity, number
from engine.kspec import *
from GPSKet.operator.hamiltonian.ab_initio import AbInitioHamiltonian
A = "GPSKet/operator/hamiltonian/ab_initio.py:AbInitioHamiltonian."
F = [A + "__init__", A + "get_conn_flattened", A + "_get_conn_flattened_kernel", "GPSKet/operator/fermion.py:apply_hopping"]


class Integrals:
    """h arbitrary, (pq|rs) with the pair symmetry (pq|rs) = (rs|pq)"""
    def __init__(self, c):
        W = c.input("W", lambda d: (d.L,) * 4, float)
        self.h = c.input("h", lambda d: (d.L, d.L), float)
        self.eri = c.derived("eri", lambda d: (d.L,) * 4, float, lambda p, q, r, s: W(p, q, r, s) + W(r, s, p, q))


def diagonal(I, X, L):
    h, eri = I.h, I.eri
    e = add(*[Sum(L, lambda i: ite(X.occ(s, i), h(i, i), const(0))) for s in (1, 2)])
    for s in (1, 2):
        e = e + const(.5) * Sum(L, lambda i: ite(X.occ(s, i), Sum(L, lambda j: ite(X.occ(s, j), eri(i, i, j, j), const(0))), const(0)))
        e = e - const(.5) * Sum(L, lambda i: ite(X.occ(s, i), Sum(L, lambda j: ite(X.occ(s, j), eri(i, j, j, i), const(0))), const(0)))
    e = e + Sum(L, lambda i: ite(X.occ(1, i), Sum(L, lambda j: ite(X.occ(2, j), eri(i, i, j, j), const(0))), const(0)))
    return e


def single(I, X, s, i, a, L):
    """Slater-Condon element of i -> a"""
    v = I.h(i, a) + add(*[Sum(L, lambda k: ite(X.occ(t, k), I.eri(i, a, k, k), const(0))) for t in (1, 2)])
    return v - Sum(L, lambda k: ite(X.occ(s, k), I.eri(i, k, k, a), const(0)))


def pairs(X, s, L, f):
    """sum over occupied i and empty a of spin s"""
    return Sum(L, lambda i: ite(X.occ(s, i), Sum(L, lambda a: ite(X.occ(s, a), const(0), f(i, a))), const(0)))


def row(I, X, L, g, parity=parity):
    """row of H tested with g: diagonal, singles and doubles of the Slater-Condon rules"""
    r = diagonal(I, X, L) * g(X)
    for s in (1, 2):
        r = r + pairs(X, s, L, lambda i, a: single(I, X, s, i, a, L) * parity(X, s, i, a, L) * g(X.moved(s, i, a)))

        def dbl(i, a, j, b):
            Y = X.moved(s, i, a)
            return ite(or_(eq(i, j), eq(a, b)), const(0), const(.5) * I.eri(i, a, j, b) * parity(X, s, i, a, L) * parity(Y, s, j, b, L) * g(Y.moved(s, j, b)))
        r = r + pairs(X, s, L, lambda i, a: pairs(X, s, L, lambda j, b: dbl(i, a, j, b)))

    def mixed(i, a, j, b):
        Y = X.moved(1, i, a)
        return I.eri(i, a, j, b) * parity(X, 1, i, a, L) * parity(Y, 2, j, b, L) * g(Y.moved(2, j, b))
    return r + pairs(X, 1, L, lambda i, a: pairs(X, 2, L, lambda j, b: mixed(i, a, j, b)))


class H2:
    _n_elec = (1, 1); constrained = True


def kernel():
    c = KCase("ab-initio connected elements", F, "b, L", dict(b=(1, 2), L=(1, 4)))
    I = Integrals(c)
    x, cfg = configurations(c)
    c.input("sections", lambda d: (d.b,), np.int64)
    L = c.T("L")

    def call(d, vals):
        s = np.zeros(d.b, dtype=np.int64)
        o = AbInitioHamiltonian.__new__(AbInitioHamiltonian)
        with patched(FD, __init__=lambda self, h: None): AbInitioHamiltonian.__init__(o, H2, vals["h"], vals["eri"])
        o._hilbert = H2
        a, m = o.get_conn_flattened(vals["x"], s)
        return a, m, s
    ns = NS(hilbert=H2, _get_conn_flattened_kernel=AbInitioHamiltonian._get_conn_flattened_kernel)
    k0 = Kernel(append_outputs=False); s0, _ = k0.run(AbInitioHamiltonian.__init__, [ns, H2, I.h, I.eri])
    for n in ("h_mat", "eri_mat", "t_mat"): setattr(ns, n, k0.read(getattr(ns, n), s0))
    c.run_kernel(AbInitioHamiltonian.get_conn_flattened, [ns, "x", "sections"], call, "b", L, secpos=2)
    c.proof_s = 420; c.guarded = True
    c.ensure("block sum equals the row of the second-quantised Hamiltonian (Slater-Condon rules)", c.block, lambda n: row(I, cfg(n), L, lambda r: G(r, L)))
    for s, nm in ((1, "up"), (2, "down")):
        c.conserve("number of %s electrons" % nm, lambda r, s=s: number(r, s, L), x)
    return c


from GPSKet.operator.fermion import FermionicDiscreteOperator as FD
CASES = [kernel]
