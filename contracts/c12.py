"""C12: antisymmetric amplitudes are logarithms of determinants / Pfaffians of the occupied orbitals"""
from .util import *
from .c05 import add_perm
import GPSKet.models.slater as sl

SF = ["GPSKet/models/slater.py:Slater.__call__"]


def _det(m):
    m = np.asarray(m); return np.linalg.slogdet(m) if m.shape[-1] else (np.ones(m.shape[:-2]), np.zeros(m.shape[:-2]))


def _arr(f):
    return lambda rows: f(np.array([list(r) for r in rows], dtype=complex))


DETS = opaque_row("DetS", "C", 2, impl=lambda x: _det(x)[0])
DETL = opaque_row("DetL", "R", 2, impl=lambda x: _det(x)[1])
EXTRA = {"DetS": _arr(lambda m: complex(_det(m)[0])), "DetL": _arr(lambda m: float(_det(m)[1]))}


def slogdet(a): a = jnp.asarray(a).astype(complex); return DETS(a), DETL(a)


def lam2(name, f, n, sort="C"):
    u, v = fresh("g"), fresh("g"); return mk("f", (bind("lam", u, lift(n), bind("lam", v, lift(n), retag(f(u, v), "C"))),), sort, name)


def S_(f, n): return lam2("DetS", f, n)
def L_(f, n): return lam2("DetL", f, n, "R")


def zero_init(key, shape, dtype): return jnp.zeros(shape, dtype)


class Electrons:
    """occupancies_to_electrons replaced by its contract: the positions of the electrons, handed in as an input"""
    def __init__(self, y): self.y, self.args = y, []
    def __call__(self, x, n_elec): self.args.append((x, tuple(n_elec))); return self.y


def blocks(up, dn, ne, log=True):
    """log of the product of the two determinants"""
    return L_(up, ne[0]) + L_(dn, ne[1]) + un("log", S_(up, ne[0]) * S_(dn, ne[1]))


def whole(f, n): return L_(f, n) + un("log", S_(f, n))


def common(c, ne, syms=True):
    N = sum(ne); x = c.input("x", lambda d: (d.b, d.L), np.int64, 0, 4)
    y = c.input("y", lambda d: (d.b, N), np.int64, 0, lambda d: d.L)
    p = c.input("perm", lambda d: (d.L, d.T), np.int64, 0, lambda d: d.L)
    c.extra.update(EXTRA)

    def sampler(d, rs):
        # distinct positions per spin and permutations, so that no determinant vanishes
        pick = lambda k: np.sort(rs.permutation(d.L)[:k])
        return {"y": np.array([np.concatenate([pick(ne[0]), pick(ne[1])]) for _ in range(d.b)]).astype(np.int64), "perm": np.stack([rs.permutation(d.L) for _ in range(d.T)], -1).astype(np.int64)}
    c.sampler = sampler
    c.assumptions.append("occupancies_to_electrons obeys its contract (own obligations); slogdet returns sign and logarithm of the modulus of the determinant (numpy/jax, trusted)")
    return x, y, p


def slater(kind, ne, dtype):
    def make():
        c = Case("Slater %s %s %s" % (kind, ne, dtype.__name__), SF, "b, L, M, T, R" if kind == "rotated" else "b, L, M, T", dict(b=(1, 2), L=(2, 4), M=(1, 2), T=(1, 2), R=(1, 2)))
        x, y, p = common(c, ne); N = sum(ne); L = c.T("L")
        if kind == "general": U = c.input("U", lambda d: (d.M, 2 * d.L, N), dtype)
        else:
            Uu = c.input("Uu", lambda d: (d.M, d.L, ne[0]), dtype); Ud = Uu if kind == "restricted" else c.input("Ud", lambda d: (d.M, d.L, ne[1]), dtype)
        if kind == "rotated": an = c.input("an", lambda d: (d.R,), float); ch = c.input("ch", lambda d: (d.R,), float)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); pars = {"U": a["U"]} if kind == "general" else {"U_up": a["Uu"]}
                if "Ud" in a: pars["U_down"] = a["Ud"]
                el = Electrons(a["y"]); kw = {}
                if kind == "rotated": kw["S2_projection"] = (a["an"], a["ch"])
                with patched(sl, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=slogdet):
                    m = sl.Slater(Hilb(d.L, 4, ne), n_determinants=d.M, dtype=dtype, init_fun=zero_init, symmetries=lambda q: jnp.take(a["perm"], q, axis=0), out_transformation=lambda v: v,
                                  spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general", **kw)
                    out = m.apply({"params": pars}, a["x"])
                if len(el.args) != 1 or el.args[0][1] != ne: raise Unsupported("positions of the electrons asked for %s" % el.args)
                return out, el.args[0][0]
            return f
        o = c.run(fn)
        pos = lambda n, i, t: p(y(n, i), t)

        def spec(n, m, s, t):
            if kind in ("restricted", "unrestricted"): return blocks(lambda i, j: Uu(m, pos(n, i, t), j), lambda i, j: Ud(m, pos(n, ne[0] + i, t), j), ne)
            if kind == "general": return whole(lambda i, j: U(m, pos(n, i, t) + ite(lt(i, const(ne[0])), const(0), L), j), N)
            co, si = un("cos", an(s) / 2), un("sin", an(s) / 2); n0 = const(ne[0])
            E = lambda i, j: ite(lt(i, n0), ite(lt(j, n0), co * Uu(m, pos(n, i, t), j), -si * Ud(m, pos(n, i, t), j - n0)), ite(lt(j, n0), si * Uu(m, pos(n, i, t), j), co * Ud(m, pos(n, i, t), j - n0)))
            return whole(E, N) + un("log", ch(s))
        c.ensure("logarithm of the determinant of the occupied orbitals per determinant, rotation and symmetry", o[0], spec)
        c.ensure("electron positions taken from the configuration", o[1], lambda n, l: x(n, l))
        return c
    make.__name__ = "slater_%s_%d%d_%s" % (kind, *ne, dtype.__name__)
    return make


JASTROW = ["GPSKet/models/jastrow.py:Jastrow.__call__", "GPSKet/models/jastrow.py:up_down_occupancies"]


def det(f, n): return un("exp", L_(f, n)) * S_(f, n)


def sum_of_determinants():
    """the default output transformation"""
    c = Case("sum of determinants", ["GPSKet/models/slater.py:Slater.out_transformation"], "b, M, S, T", dict(b=(1, 2), M=(1, 2), S=(1, 2), T=(1, 2)))
    v = c.input("v", lambda d: (d.b, d.M, d.S, d.T), complex)
    o = c.run(lambda d: lambda v: sl.Slater.out_transformation(v))
    c.ensure("logarithm of the sum over determinants, rotations and symmetries", o, lambda n: un("log", Sum(c.T("M"), lambda m: Sum(c.T("S"), lambda s: Sum(c.T("T"), lambda t: un("exp", v(n, m, s, t)))))))
    return c


def jastrow_value(x, ker, L, p, T, q):
    """sum over symmetry images and pairs of sites of the symmetrised kernel for a spin-up hole and a spin-down hole"""
    hu = lambda n, i, t: 1 - mod(x(n, q(i, t)), const(2))
    hd = lambda n, i, t: 1 - fdiv(x(n, q(i, t)), const(2))
    return lambda n: Sum(T, lambda t: Sum(L, lambda i: Sum(L, lambda j: hu(n, i, t) * (ker(i, j) + ker(j, i)) * hd(n, j, t))))


def jastrow(dtype):
    def make():
        import GPSKet.models.jastrow as ja
        c = Case("Jastrow factor %s" % dtype.__name__, JASTROW, "b, L, T", dict(b=(1, 2), L=(1, 3), T=(1, 2)))
        x = c.input("x", lambda d: (d.b, d.L), np.int64, 0, 4); ker = c.input("ker", lambda d: (d.L, d.L), dtype); p = c.input("perm", lambda d: (d.L, d.T), np.int64, 0, lambda d: d.L)
        o = c.run(lambda d: lambda x, k, p: ja.Jastrow(Hilb(d.L, 4), dtype=dtype, init_fun=zero_init, apply_symmetries=lambda y: jnp.take(y, p, axis=-1)).apply({"params": {"kernel": k}}, x))
        c.ensure("pair sum over the symmetry images", o, jastrow_value(x, ker, c.T("L"), p, c.T("T"), p))
        return c
    make.__name__ = "jastrow_" + dtype.__name__
    return make


CASES = [slater("unrestricted", (2, 1), complex), slater("restricted", (2, 2), complex), slater("unrestricted", (1, 2), float), slater("general", (2, 1), complex), slater("rotated", (2, 1), complex), slater("rotated", (1, 2), float)]
CASES += [sum_of_determinants, jastrow(complex), jastrow(float)]


def mods(*names):
    import importlib
    return [importlib.import_module("GPSKet.models." + n) for n in names]


def slater_parts(c, ne, dtype, kind, n=None):
    """inputs of a Slater part and the determinant (up to branch: its exponential) per configuration, determinant and symmetry"""
    x, y, p = common(c, ne); N = sum(ne); L = c.T("L"); M = (lambda d: n) if n else (lambda d: d.M)
    pos = lambda n, i, t: p(y(n, i), t)
    if kind == "general":
        U = c.input("U", lambda d: (M(d), 2 * d.L, N), dtype)
        return x, y, p, lambda n, m, t: det(lambda i, j: U(m, pos(n, i, t) + ite(lt(i, const(ne[0])), const(0), L), j), N)
    Uu = c.input("Uu", lambda d: (M(d), d.L, ne[0]), dtype); Ud = Uu if kind == "restricted" else c.input("Ud", lambda d: (M(d), d.L, ne[1]), dtype)
    return x, y, p, lambda n, m, t: det(lambda i, j: Uu(m, pos(n, i, t), j), ne[0]) * det(lambda i, j: Ud(m, pos(n, ne[0] + i, t), j), ne[1])


def slater_pars(a): return {k: a[v] for k, v in (("U", "U"), ("U_up", "Uu"), ("U_down", "Ud")) if v in a}


def slater_jastrow(which, kind, ne, dtype):
    def make():
        mod_, = mods(which); cls, second = ("SlaterJastrow", "Jastrow") if which == "slater_jastrow" else ("SlaterqGPS", "qGPS")
        c = Case("%s %s %s %s" % (cls, kind, ne, dtype.__name__), SF + ["GPSKet/models/%s.py:%s.__call__" % (which, cls)] + (JASTROW if second == "Jastrow" else ["GPSKet/models/qGPS.py:qGPS.__call__"]), "b, L, M, T, S", dict(b=(1, 2), L=(2, 3), M=(1, 2), T=(1, 2), S=(1, 2)))
        x, y, p, D = slater_parts(c, ne, dtype, kind); L = c.T("L")
        q = c.input("perm2", lambda d: (d.L, d.S), np.int64, 0, lambda d: d.L)
        par = c.input("par", (lambda d: (d.L, d.L)) if second == "Jastrow" else (lambda d: (4, 2, d.L)), dtype)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); sym = lambda q: jnp.take(a["perm"], q, axis=0); sym2 = lambda v: jnp.take(v, a["perm2"], axis=-1)
                kw = dict(jastrow_init_fun=zero_init, jastrow_apply_symmetries=sym2) if second == "Jastrow" else dict(qGPS_init_fun=zero_init, qGPS_apply_symmetries=(sym2, None), M=2)
                with patched(sl, occupancies_to_electrons=Electrons(a["y"])), patched(jnp.linalg, slogdet=slogdet):
                    m = getattr(mod_, cls)(Hilb(d.L, 4, ne), dtype=dtype, n_determinants=d.M, slater_init_fun=zero_init, slater_apply_symmetries=sym, spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general", **kw)
                    return m.apply({"params": {"Slater_0": slater_pars(a), second + "_0": {"kernel" if second == "Jastrow" else "epsilon": a["par"]}}}, a["x"])
            return f
        o = c.run(fn)
        J = jastrow_value(x, par, L, None, c.T("S"), q) if second == "Jastrow" else lambda n: Sum(c.T("S"), lambda t: Sum(2, lambda m: Prod(L, lambda l: par(x(n, q(l, t)), m, l))))
        c.ensure("logarithm of the sum of determinants plus the correlation factor", o, lambda n: un("log", Sum(c.T("M"), lambda m: Sum(c.T("T"), lambda t: D(n, m, t)))) + J(n))
        return c
    make.__name__ = "%s_%s_%d%d_%s" % (which, kind, *ne, dtype.__name__)
    return make


def asymm(how, restricted, ne, dtype):
    def make():
        am, = mods("asymm_qGPS"); cls = "ASymmqGPSProd" if how == "product" else "ASymmqGPS"; nd = 3 if how == "product" else None
        c = Case("%s %s %s %s" % (cls, how, ne, dtype.__name__), SF + ["GPSKet/models/asymm_qGPS.py:%s.__call__" % cls], "b, L, T" if nd else "b, L, M, T", dict(b=(1, 2), L=(2, 3), M=(1, 3), T=(1, 2)))
        x, y, p, D = slater_parts(c, ne, dtype, "restricted" if restricted else "unrestricted", nd)
        if not nd: co = c.input("co", lambda d: (d.M,), float)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); kw = {} if nd else dict(coeffs=a["co"], symmetrization=how)
                with patched(sl, occupancies_to_electrons=Electrons(a["y"])), patched(jnp.linalg, slogdet=slogdet):
                    m = getattr(am, cls)(Hilb(d.L, 4, ne), n_determinants=nd or d.M, dtype=dtype, init_fun=zero_init, apply_symmetries=lambda q: jnp.take(a["perm"], q, axis=0), spin_symmetry_by_structure=restricted, **kw)
                    return m.apply({"params": {"Slater_0": slater_pars(a)}}, a["x"])
            return f
        o = c.run(fn); T_ = c.T("T"); sh = lambda t: un("sinh", t)
        if how == "kernel": spec = lambda n: un("log", sh(Sum(T_, lambda t: Sum(c.T("M"), lambda m: co(m) * D(n, m, t)))))
        elif how == "projective": spec = lambda n: un("log", Sum(T_, lambda t: sh(Sum(c.T("M"), lambda m: co(m) * D(n, m, t)))))
        else: spec = lambda n: un("log", Sum(T_, lambda t: mul(*[sh(D(n, const(m), t)) for m in range(nd)])))
        c.ensure("antisymmetric kernel symmetrised as requested", o, spec)
        return c
    make.__name__ = "asymm_%s_%d_%s" % (how, restricted, dtype.__name__)
    return make


def backflow(kind, ne, orb, dtype, jas=0):
    """jas: number of determinants multiplied with a Jastrow factor (0: the Backflow model itself)"""
    def make():
        bf, bj, ja = mods("backflow", "backflow_jastrow", "jastrow"); N = sum(ne); cols = ne[0] if kind == "restricted" else N; nd = jas or 1
        c = Case("%s %s %s %s%s" % ("BackflowJastrow" if jas else "Backflow", kind, ne, dtype.__name__, " with mean-field orbitals" if orb else ""), ["GPSKet/models/backflow.py:Backflow.__call__"] + (["GPSKet/models/backflow_jastrow.py:BackflowJastrow.__call__"] + JASTROW if jas else []), "b, L, T", dict(b=(1, 2), L=(2, 4), T=(1, 2)))
        x, y, p = common(c, ne); L = c.T("L"); rows = (lambda d: 2 * d.L) if kind == "general" else (lambda d: d.L)
        cor = c.input("cor", lambda d: (nd, d.b, rows(d), cols, d.T), dtype)
        if orb: phi = c.input("phi", lambda d: (nd, rows(d), cols), dtype)
        if jas: par = c.input("par", lambda d: (d.L, d.L), complex)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Electrons(a["y"]); args = []

                def corr(k):
                    def g(x, cache_intermediates=False, update_sites=None):
                        args.append((x, cache_intermediates, update_sites)); return a["cor"][k]
                    return g
                kw = dict(spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general"); sym = lambda q: jnp.take(a["perm"], q, axis=0)
                with patched(bf, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=slogdet):
                    if jas:
                        m = bj.BackflowJastrow(Hilb(d.L, 4, ne), tuple("given" if orb else None for _ in range(jas)), tuple(corr(k) for k in range(jas)), jastrow_init_fun=zero_init, backflow_apply_symmetries=sym, **kw)
                        v = {"params": {"Jastrow_0": {"kernel": a["par"]}}}
                        if orb: v["orbitals"] = {"Backflow_%d" % k: {"mean_field": a["phi"][k]} for k in range(jas)}
                    else:
                        m = bf.Backflow(Hilb(d.L, 4, ne), corr(0), orbitals="given" if orb else None, apply_symmetries=sym, **kw); v = {"orbitals": {"mean_field": a["phi"][0]}} if orb else {}
                    out = m.apply(v, a["x"])
                if any(c_ or u_ is not None for _, c_, u_ in args) or len(args) != nd: raise Unsupported("correction called with a cache")
                return (out,) + tuple(q[0] for q in args) + tuple(q[0] for q in el.args)
            return f
        o = c.run(fn); T_ = c.T("T"); n0 = const(ne[0])
        E = lambda k, n, l, j, t: (phi(const(k), l, j) if orb else 0) + cor(const(k), n, l, j, t)
        pos = lambda n, i, t: p(y(n, i), t)

        def amp(n, k):
            if kind == "general": return Sum(T_, lambda t: det(lambda i, j: E(k, n, pos(n, i, t) + ite(lt(i, n0), const(0), L), j, t), N))
            off = 0 if kind == "restricted" else ne[0]
            return Sum(T_, lambda t: det(lambda i, j: E(k, n, pos(n, i, t), j, t), ne[0]) * det(lambda i, j: E(k, n, pos(n, n0 + i, t), j + off, t), ne[1]))
        spec = lambda n: un("log", add(*[amp(n, k) for k in range(nd)]))
        if jas:
            J = jastrow_value(x, par, L, None, const(1), lambda i, t: i); base = spec; spec = lambda n: base(n) + J(n)
        c.ensure("logarithm of the sum over symmetry images of determinants of orbitals plus corrections", o[0], spec)
        for k in range(1, len(o)): c.ensure("configuration handed to corrections and electron positions (%d)" % k, o[k], lambda n, l: x(n, l))
        return c
    make.__name__ = "backflow_%s_%d%d_%d_%d_%s" % (kind, *ne, orb, jas, dtype.__name__)
    return make


CASES += [slater_jastrow("slater_jastrow", "restricted", (2, 2), complex), slater_jastrow("slater_jastrow", "unrestricted", (2, 1), float), slater_jastrow("slater_jastrow", "general", (1, 2), complex),
          slater_jastrow("slater_qGPS", "restricted", (1, 1), complex), slater_jastrow("slater_qGPS", "unrestricted", (2, 1), complex), slater_jastrow("slater_qGPS", "general", (1, 1), float)]
CASES += [asymm(h, r, (2, 2) if r else (2, 1), t) for h, r, t in (("kernel", False, complex), ("projective", False, complex), ("kernel", True, float), ("projective", True, float), ("product", False, complex), ("product", True, float))]
CASES += [backflow(k, ne, o, t) for k, ne in (("restricted", (2, 2)), ("unrestricted", (2, 1)), ("general", (1, 2))) for o, t in ((1, complex), (0, float))] + [backflow("unrestricted", (1, 2), 1, complex, 2), backflow("general", (2, 1), 1, complex, 2)]


def _pf(m):
    m = np.asarray(m, dtype=complex); n = m.shape[-1]
    if n == 0: return 1.0
    return sum((-1) ** (j + 1) * m[0, j] * _pf(np.delete(np.delete(m, (0, j), 0), (0, j), 1)) for j in range(1, n))


LOGPF = opaque_row("LogPf", "C", 2, impl=lambda x: np.array([np.log(complex(_pf(m))) for m in np.asarray(x).reshape(-1, *x.shape[-2:])]).reshape(x.shape[:-2]))
PF = "GPSKet/models/pfaffian.py:"


def pfaffian(kind, dtype, N=4):
    def make():
        pm, = mods("pfaffian"); zero = kind == "zero magnetisation"
        c = Case("Pfaffian state %s %s" % (kind, dtype.__name__), [PF + ("ZeroMagnetizationPfaffian" if zero else "PfaffianState") + ".__call__"], "b, L, T, R" if zero else "b, L, T", dict(b=(1, 2), L=(2, 3), T=(1, 2), R=(1, 2)))
        y = c.input("y", lambda d: (d.b, N), np.int64, 0, lambda d: 2 * d.L); p = c.input("perm", lambda d: (2 * d.L, d.T), np.int64, 0, lambda d: 2 * d.L)
        c.sampler = lambda d, rs: {"y": np.stack([rs.permutation(2 * d.L)[:N] for _ in range(d.b)]).astype(np.int64), "perm": np.stack([rs.permutation(2 * d.L) for _ in range(d.T)], -1).astype(np.int64)}
        if zero: F = c.input("f", lambda d: (d.L, d.L), dtype); an = c.input("an", lambda d: (d.R,), float, gen=lambda d, rs, sh: rs.rand(*sh) + 0.3); ch = c.input("ch", lambda d: (d.R,), float, gen=lambda d, rs, sh: rs.rand(*sh) + 0.1)
        else: F = c.input("F", lambda d: (2 * d.L, 2 * d.L), dtype)
        c.extra["LogPf"] = _arr(lambda m: complex(np.log(complex(_pf(m)))))

        def fn(d):
            def f(y, p, F, an=None, ch=None):
                kw = dict(init_fun=zero_init, dtype=dtype, symmetries=lambda q: jnp.take(p, q, axis=0), out_transformation=lambda v: v)
                with patched(pm, log_pfaffian=lambda m: LOGPF(m.astype(complex))):
                    if zero: return pm.ZeroMagnetizationPfaffian(d.L, S2_projection=(an, ch), **kw).apply({"params": {"f": F}}, y)
                    return pm.PfaffianState(d.L, **kw).apply({"params": {"F": F}}, y)
            return f
        o = c.run(fn); L = c.T("L")

        def spec(n, s, t):
            if zero:
                co, si = un("cos", an(s) / 2), un("sin", an(s) / 2); hi = lambda a: ite(lt(a, L), a, a - L)
                # the up-down pairing f rotated about the spin y axis
                E = lambda a, b: F(hi(a), hi(b)) * ite(lt(a, L), ite(lt(b, L), -co * si, co * co), ite(lt(b, L), -si * si, co * si))
            else: E = F
            q = lambda i: p(y(n, i), t)
            r = lam2("LogPf", lambda i, j: E(q(i), q(j)) - E(q(j), q(i)), N)
            return r + un("log", ch(s)) if zero else r
        c.ensure("Pfaffian of the antisymmetrised pairing of the occupied orbitals", o, spec)
        c.assumptions.append("log_pfaffian returns the logarithm of the Pfaffian (own obligations up to four electrons)")
        return c
    make.__name__ = "pfaffian_%s_%s" % (kind[:4], dtype.__name__)
    return make


def pfaffian_sum():
    pm, = mods("pfaffian")
    c = Case("sum of Pfaffians", [PF + "PfaffianState.out_transformation"], "b, S, T", dict(b=(1, 2), S=(1, 2), T=(1, 2)))
    v = c.input("v", lambda d: (d.b, d.S, d.T), complex)
    o = c.run(lambda d: lambda v: pm.PfaffianState.out_transformation(v))
    c.ensure("logarithm of the sum over rotations and symmetries", o, lambda n: un("log", Sum(c.T("S"), lambda s: Sum(c.T("T"), lambda t: un("exp", v(n, s, t))))))
    return c


def log_pfaffian(N):
    """any choice of pivot is allowed as long as a vanishing pivot is chosen only when the whole column vanishes"""
    def make():
        pm, = mods("pfaffian")
        c = Case("log_pfaffian of a %d by %d matrix" % (N, N), [PF + "log_pfaffian"], "", {})
        a = c.input("a", lambda d: (N * (N - 1) // 2,), complex)
        ix = {}
        for i in range(N):
            for j in range(i + 1, N): ix[i, j] = len(ix)
        A = lambda i, j: a(const(ix[i, j]))
        k = c.input("k", lambda d: (), np.int64, 0, N - 1)()
        for j in range(N - 1):
            for i in range(N - 1): c.assume(implies(and_(eq(k, const(j)), eq(A(0, j + 1), const(0))), eq(A(0, i + 1), const(0))))

        def sampler(d, rs):
            v = rs.randn(N * (N - 1) // 2) + 1j * rs.randn(N * (N - 1) // 2)
            if rs.rand() < 0.3: v[:N - 1] = 0
            elif rs.rand() < 0.5: v[rs.randint(N - 1)] = 0
            return {"a": v, "k": np.argmax(np.abs(v[:N - 1]))}
        c.sampler = sampler

        def f(a, k):
            z = jnp.zeros((), complex); M = jnp.stack([jnp.stack([z if i == j else (a[ix[i, j]] if i < j else -a[ix[j, i]]) for j in range(N)]) for i in range(N)])
            seen = []

            def argmax(v):
                seen.append(v); return k if v.shape[0] == N - 1 else jnp.zeros((), int)
            with patched(jnp, argmax=argmax): r = jnp.exp(pm.log_pfaffian.fun(M))
            if [v.shape[0] for v in seen] != list(range(N - 1, 0, -2)): raise Unsupported("pivot searches")
            return r, seen[0]
        o = c.run(lambda d: f)
        spec = {2: lambda: A(0, 1), 4: lambda: A(0, 1) * A(2, 3) - A(0, 2) * A(1, 3) + A(0, 3) * A(1, 2)}[N]
        for j in range(N - 1):
            c.ensure("exponential is the Pfaffian, pivot %d" % j, o[0], spec, hyps=[eq(k, const(j)), not_(eq(A(0, j + 1), const(0)))])
            c.ensure("exponential is the Pfaffian, pivot %d in a vanishing column" % j, o[0], spec, hyps=[eq(k, const(j))] + [eq(A(0, i + 1), const(0)) for i in range(N - 1)])
        c.ensure("pivot of largest modulus in the column", o[1], lambda j: un("abs", a(j)))
        c.assumptions.append("skew-symmetric input, exact arithmetic; pivots after the first column taken at the only remaining row")
        return c
    make.__name__ = "log_pfaffian_%d" % N
    return make


def cpd_inputs(c, kind, ne, dtype, env):
    N = sum(ne); cols = ne[0] if kind == "restricted" else N; rows = (lambda d: 2 * d.L) if kind == "general" else (lambda d: d.L)
    return c.input("eps", lambda d: (rows(d), cols, 4, d.M, d.K if env else d.L), dtype)


def cpd_value(orb, y, n, ne, kind, L):
    n0 = const(ne[0]); N = sum(ne)
    if kind == "general": return whole(lambda i, j: orb(y(n, i) + ite(lt(i, n0), const(0), L), j), N)
    off = 0 if kind == "restricted" else ne[0]
    return blocks(lambda i, j: orb(y(n, i), j), lambda i, j: orb(y(n, n0 + i), j + off), ne)


def cpd(kind, ne, dtype, env):
    def make():
        cm, = mods("cpd_backflow")
        c = Case("CPDBackflow %s %s %s%s" % (kind, ne, dtype.__name__, " with environments" if env else ""), ["GPSKet/models/cpd_backflow.py:CPDBackflow.__call__", "GPSKet/models/cpd_backflow.py:CPD_single_orbital", "GPSKet/models/cpd_backflow.py:CPD"], "b, L, M, T, K" if env else "b, L, M, T", dict(b=(1, 2), L=(2, 3), M=(1, 2), T=(1, 1), K=(1, 2)))
        x, y, p = common(c, ne); L, M = c.T("L"), c.T("M"); eps = cpd_inputs(c, kind, ne, dtype, env)
        if env: en = c.input("en", lambda d: ((2 * d.L if kind == "general" else d.L), d.K), np.int64, 0, lambda d: d.L)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Electrons(a["y"]); kw = {}; v = {"params": {"epsilon": a["eps"]}}
                if env: kw["environments"] = a["en"]; v["orbitals"] = {"environments": a["en"]}
                with patched(cm, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=slogdet):
                    m = cm.CPDBackflow(Hilb(d.L, 4, ne), d.M, dtype=dtype, init_fun=zero_init, restricted=kind == "restricted", fixed_magnetization=kind != "general", **kw)
                    if env: return m.apply(v, a["x"]), el.args[0][0]
                    out, st = m.apply(v, a["x"], cache_intermediates=True, mutable=["intermediates_cache"])
                    return out, el.args[0][0], st["intermediates_cache"]["samples"], st["intermediates_cache"]["site_products"]
            return f
        o = c.run(fn)
        sp = (lambda n: lambda l, j, m: Prod(c.T("K"), lambda k: eps(l, j, x(n, en(l, k)), m, k))) if env else (lambda n: lambda l, j, m: Prod(L, lambda k: eps(l, j, x(n, k), m, k)))
        orb = lambda n: lambda l, j: Sum(M, lambda m: sp(n)(l, j, m))
        c.ensure("determinant of the configuration-dependent orbitals", o[0], lambda n: cpd_value(orb(n), y, n, ne, kind, L))
        c.ensure("electron positions taken from the configuration", o[1], lambda n, l: x(n, l))
        if not env:
            c.ensure("cached configuration", o[2], lambda n, l: x(n, l)); c.ensure("cached site products", o[3], lambda n, l, j, m: sp(n)(l, j, m))
        return c
    make.__name__ = "cpd_%s_%d%d_%d_%s" % (kind, *ne, env, dtype.__name__)
    return make


CASES += [pfaffian("general", complex), pfaffian("zero magnetisation", complex), pfaffian("zero magnetisation", float), pfaffian_sum, log_pfaffian(2), log_pfaffian(4)]
CASES += [cpd("restricted", (2, 2), complex, 0), cpd("unrestricted", (2, 1), complex, 0), cpd("general", (1, 2), float, 0), cpd("restricted", (1, 1), float, 1), cpd("unrestricted", (1, 2), complex, 1)]


def positions(ne):
    """jnp.nonzero by its contract: entry q is the position (row I, column J) of the q-th set entry in row-major order.  With
    exactly n set entries per row before(I, J) + I*n == q, where before counts the set entries of the row left of J"""
    def make():
        c = Case("electron positions %s" % (ne,), ["GPSKet/models/slater.py:occupancies_to_electrons"], "b, L", dict(b=(1, 3), L=(2, 4)))
        x = c.input("x", lambda d: (d.b, d.L), np.int64, 0, 4); b, L = c.T("b"), c.T("L")
        bit = lambda s: (lambda n, l: mod(x(n, l), const(2)) if s == 0 else fdiv(x(n, l), const(2)))
        bef = [c.input("bef%d" % s, lambda d: (d.b, d.L), np.int64, 0, None if False else (lambda d, k=k: k + 1)) for s, k in enumerate(ne)]
        I = [c.input("I%d" % s, lambda d, k=k: (d.b * k,), np.int64, 0, lambda d: d.b) for s, k in enumerate(ne)]

        def facts(s):
            return lambda q: [eq(bit(s)(I[s](q), J[s](q)), const(1)), eq(bef[s](I[s](q), J[s](q)) + ne[s] * I[s](q), q), lt(bef[s](I[s](q), J[s](q)), const(ne[s]))]
        J = []
        for s, k in enumerate(ne): J.append(c.input("J%d" % s, lambda d, k=k: (d.b * k,), np.int64, 0, lambda d: d.L, facts=facts(s)))

        def sampler(d, rs):
            if d.L < max(ne): return None
            xs = np.zeros((d.b, d.L), int); v = {}
            for s, k in enumerate(ne):
                for n in range(d.b): xs[n, rs.permutation(d.L)[:k]] += 1 << s
            for s in (0, 1):
                m = xs >> s & 1; v["bef%d" % s] = np.cumsum(m, 1) - m; v["I%d" % s], v["J%d" % s] = np.nonzero(m)
            v["x"] = xs; return v
        c.sampler = sampler

        def fn(d):
            def f(x, b0, I0, b1, I1, J0, J1):
                log = []

                def nonzero(m, size=None, **kw):
                    s = len(log); log.append((m, size, kw)); return ((I0, J0), (I1, J1))[s]
                with patched(jnp, nonzero=nonzero): y = sl.occupancies_to_electrons(x, ne)
                if len(log) != 2 or any(kw for _, _, kw in log): raise Unsupported("nonzero called %s" % log)
                return y, log[0][0] != 0, log[1][0] != 0, jnp.asarray(all(str(q[1]) == str(d.b * k) for q, k in zip(log, ne)))
            return f
        o = c.run(fn, order=["x", "bef0", "I0", "bef1", "I1", "J0", "J1"])
        for s in (0, 1): c.ensure("set entries are the sites with a spin-%s electron" % ("up", "down")[s], o[1 + s], lambda n, l, s=s: eq(bit(s)(n, l), const(1)))
        c.ensure("as many positions as electrons", o[3], lambda: TRUE)
        for s, k in enumerate(ne):
            sub_ = Arr((b, const(k)), "I", lambda n, i, s=s: o[0](n, i + (ne[0] if s else 0)), np.int64)
            nm = ("up", "down")[s]; pk = lambda r, s=s: np.asarray(r[0])[:, ne[0]:] if s else np.asarray(r[0])[:, :ne[0]]
            occ = Arr((b, const(k)), "B", lambda n, i, s=s, q=sub_: eq(bit(s)(n, q(n, i)), const(1))); rank = Arr((b, const(k)), "I", lambda n, i, s=s, q=sub_: bef[s](n, q(n, i)))
            c.ensure("spin-%s position is occupied" % nm, occ, lambda n, i: TRUE); c.ensure("spin-%s positions in order of the sites" % nm, rank, lambda n, i: i)
        c.assumptions.append("jnp.nonzero with a size returns the set entries in row-major order (jax, trusted); the configuration has the prescribed electron numbers")
        return c
    make.__name__ = "positions_%d%d" % ne
    return make


CASES += [positions((2, 1)), positions((1, 3)), positions((2, 2))]
