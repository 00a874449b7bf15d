"""C01: Fermi-Hubbard connected elements"""
from .util import *
from engine.kspec import *
from GPSKet.operator.hamiltonian.hubbard import FermiHubbard
F = ["GPSKet/operator/hamiltonian/hubbard.py:FermiHubbard.get_conn_flattened", "GPSKet/operator/hamiltonian/hubbard.py:FermiHubbard._get_conn_flattened_kernel", "GPSKet/operator/fermion.py:apply_hopping"]


class Cfg:
    """an electron configuration: up/down occupations as functions of the site; the local state is up + 2*down"""
    def __init__(self, up, dn): self.n = {1: up, 2: dn}
    def __call__(self, l): return self.n[1](l) + 2 * self.n[2](l)
    def occ(self, s, l): return not_(eq(self.n[s](l), const(0)))

    def moved(self, s, a, c):
        """one electron of spin s moved from a to c"""
        m = dict(self.n); f = self.n[s]
        m[s] = lambda l: ite(eq(l, a), const(0), ite(eq(l, c), const(1), f(l)))
        return Cfg(m[1], m[2])


def configurations(c, name="x", dtype=np.uint8, lead=("b",)):
    """input array of configurations, given by arbitrary up and down occupations"""
    sh = lambda d: tuple(d[k] for k in lead) + (d.L,)
    u = c.input(name + "_up", sh, np.int64, 0, 2); w = c.input(name + "_dn", sh, np.int64, 0, 2)
    x = c.derived(name, sh, dtype, lambda *i: u(*i) + 2 * w(*i))
    return x, (lambda *n: Cfg(lambda l: u(*n, l), lambda l: w(*n, l)))


def parity(X, s, a, b, L):
    """(-1)^(electrons of spin s strictly between a and b)"""
    n = Sum(L, lambda l: ite(and_(lt(tmin(a, b), l), lt(l, tmax(a, b)), X.occ(s, l)), const(1), const(0)))
    return ite(eq(mod(n, const(2)), const(0)), const(1), const(-1))


def hop(X, s, a, c, L, g):
    """c^dagger_{c,s} c_{a,s} acting on X, tested with g"""
    off = ite(X.occ(s, c), const(0), parity(X, s, a, c, L) * g(X.moved(s, a, c)))
    return ite(X.occ(s, a), ite(eq(a, c), g(X), off), const(0))


def number(r, s, L):
    """electrons of spin s in a configuration of local states r"""
    return Sum(L, lambda l: ite(or_(eq(r(l), const(s)), eq(r(l), const(3))), const(1), const(0)))


def kernel():
    c = KCase("Hubbard connected elements", F, "b, L, E", dict(b=(1, 2), L=(1, 5), E=(1, 3)))
    x, cfg = configurations(c)
    c.input("sections", lambda d: (d.b,), np.int64)
    U = c.input("U", lambda d: (), float)()
    edges = c.input("edges", lambda d: (d.E, 2), np.int64, 0, lambda d: d.L)
    t = c.input("t", lambda d: (d.E,), float)

    def call(d, vals):
        s = np.zeros(d.b, dtype=np.int64)
        o = FermiHubbard.__new__(FermiHubbard)
        o.U, o.edges, o.t = float(vals["U"]), vals["edges"], vals["t"]
        a, m = o.get_conn_flattened(vals["x"], s)
        return a, m, s
    k = NS(U=U, edges=edges, t=t); k._get_conn_flattened_kernel = FermiHubbard._get_conn_flattened_kernel
    L, E = c.T("L"), c.T("E")
    c.run_kernel(FermiHubbard.get_conn_flattened, [k, "x", "sections"], call, "b", L, secpos=2)

    def spec(n):
        X = cfg(n)
        g = lambda r: G(r, L)
        dia = U * Sum(L, lambda l: ite(eq(X(l), const(3)), const(1), const(0))) * g(X)
        return dia - Sum(E, lambda e: t(e) * add(*[hop(X, s, edges(e, const(p)), edges(e, const(1 - p)), L, g) for s in (1, 2) for p in (0, 1)]))
    c.proof_s = 240
    c.ensure("block sum equals the row of the second-quantised Hamiltonian", c.block, spec)
    for s, nm in ((1, "up"), (2, "down")):
        c.conserve("number of %s electrons" % nm, lambda r, s=s: number(r, s, L), x)
    return c


CASES = [kernel]
