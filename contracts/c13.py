"""C13: the exclusion-process generator"""
from .util import *
from engine.kspec import *
from GPSKet.operator.hamiltonian.asep import AsymmetricSimpleExclusionProcess as ASEP
F = "GPSKet/operator/hamiltonian/asep.py:AsymmetricSimpleExclusionProcess._get_conn_flattened_kernel"
F0 = "GPSKet/operator/hamiltonian/asep.py:AsymmetricSimpleExclusionProcess.get_conn_flattened"
H = ["GPSKet/operator/asep.py:" + n for n in ("apply_creation", "apply_annihilation", "apply_hopping", "apply_particle_hole")]
NAMES = ["lambd", "alpha", "beta", "gamma", "delta", "p", "q"]


def generator(v, x, n, L, g, lam0=False):
    """row of the tilted generator applied to g: sum over x' of <x|W|x'> g(x') in the orientation of the operator"""
    X = lambda l: x(n, l)
    E, Em = un("exp", v["lambd"]), un("exp", neg(v["lambd"]))
    put = lambda site, val: (lambda l: ite(eq(l, site), val, X(l)))
    last = L - 1
    one, zero = const(1), const(0)
    r = ite(eq(X(zero), zero), v["alpha"] * (E * g(put(zero, one)) - g(X)), v["gamma"] * (Em * g(put(zero, zero)) - g(X)))
    r = r + ite(eq(X(last), zero), v["beta"] * (Em * g(put(last, one)) - g(X)), v["delta"] * (E * g(put(last, zero)) - g(X)))

    def bond(i):
        sw = lambda l: ite(eq(l, i), X(i + 1), ite(eq(l, i + 1), X(i), X(l)))
        return ite(and_(eq(X(i), one), eq(X(i + 1), zero)), v["p"] * (E * g(sw) - g(X)), ite(and_(eq(X(i), zero), eq(X(i + 1), one)), v["q"] * (Em * g(sw) - g(X)), const(0)))
    return r + Sum(L - 1, bond)


def kernel():
    c = KCase("exclusion process kernel", [F0, F] + H, "b, L", dict(b=(1, 2), L=(1, 4)))
    x = c.input("x", lambda d: (d.b, d.L), np.int8, 0, 2)
    sec = c.input("sections", lambda d: (d.b,), np.int64)
    v = {}
    for nm in NAMES: v[nm] = c.input(nm, lambda d: (), float)()

    def call(d, vals):
        s = np.zeros(d.b, dtype=np.int64)
        a, m = ASEP(nk.hilbert.Qubit(d.L), **{k: float(vals[k]) for k in NAMES}).get_conn_flattened(vals["x"], s)
        return a, m, s
    ns = NS(**v); ns._get_conn_flattened_kernel = ASEP._get_conn_flattened_kernel
    c.run_kernel(ASEP.get_conn_flattened, [ns, "x", "sections"], call, "b", c.T("L"), secpos=2)
    L = c.T("L")
    c.ensure("block sum equals the row of the tilted generator", c.block, lambda n: generator(v, x, n, L, lambda r: G(r, L)))
    one = total(c.lp.log, lambda e: e.bufs[c.mb]())
    c.rowsum = Arr((c.T("b"),), "R", lambda n: subst(one, {c.lp.v.val: n}))
    c.out.append(c.rowsum)
    real0 = c.real

    def real(d, vals):
        a, m, s = call(d, vals); r = real0(d, vals)
        return r + [np.array([m[(s[k - 1] if k else 0):s[k]].sum() for k in range(d.b)])]
    c.real = real
    c.ensure("without tilt the rates out of every configuration balance its escape rate", c.rowsum, lambda n: const(0), hyps=[eq(v["lambd"], const(0))])
    for h in c.obl[-1:]: h["sampled"] = {"lambd": 0.0}
    return c


def hermitian():
    c = PCase("exclusion process is_hermitian", ["GPSKet/operator/hamiltonian/asep.py:AsymmetricSimpleExclusionProcess.is_hermitian"], "", {})
    v = {nm: c.input(nm, lambda d: (), float, gen=lambda d, rs, sh: rs.choice([0.0, 0.0, 0.5, 1.0]))() for nm in NAMES}

    ns = NS(**v)

    def real(d, vals):
        o = NS(**{k: float(vals[k]) for k in NAMES})
        return [np.asarray(bool(ASEP.is_hermitian.fget(o)))]
    out, = c.run_py(ASEP.is_hermitian.fget, [ns], real)
    flag = out()
    E, Em = un("exp", v["lambd"]), un("exp", neg(v["lambd"]))
    for what, a, b in (("left boundary", v["alpha"] * E, v["gamma"] * Em), ("right boundary", v["beta"] * Em, v["delta"] * E), ("bulk", v["p"] * E, v["q"] * Em)):
        c.lemma("claimed only if the %s rates are symmetric" % what, (lambda a, b: lambda: (a, b))(a, b), hyps=[flag])
    sym = and_(eq(v["lambd"], const(0)), eq(v["alpha"], v["gamma"]), eq(v["beta"], v["delta"]), eq(v["p"], v["q"]))
    c.ensure("claimed exactly when the untilted rates are pairwise equal", out, lambda: sym)
    return c


CASES = [kernel, hermitian]
