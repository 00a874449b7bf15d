"""C06: fast-updated determinants and backflow equal recomputed ones"""
from .util import *
from .c05 import update_inputs, add_perm
from .c12 import mods, zero_init, Electrons, slogdet, common, cpd_inputs, cpd_value, EXTRA
import itertools
import GPSKet.models.slater as sl

SF = ["GPSKet/models/slater.py:Slater.__call__"]


def perms(n):
    for p in itertools.permutations(range(n)): yield p, (-1) ** sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))


def det_(A, n):
    """determinant of the last two axes (or of A(i, j)) by its definition"""
    at = A if callable(A) else (lambda i, j: A[..., i, j])
    r = None
    for p, s in perms(n):
        q = None
        for i in range(n): q = at(i, p[i]) if q is None else q * at(i, p[i])
        r = (q if s > 0 else -q) if r is None else (r + q if s > 0 else r - q)
    return r


def det_stub(a):
    """slogdet by the definition of the determinant (everything in the sign, which the code combines with the logarithm)"""
    n = a.shape[-1]; d = det_(a.astype(complex), n) if n else jnp.ones(a.shape[:-2], complex); return d, jnp.zeros(d.shape)


def inv_stub(a):
    n = a.shape[-1]; d = det_(a, n)
    if n == 1: return 1 / a
    cof = lambda i, j: (-1) ** (i + j) * det_(lambda r, c: a[..., r + (r >= j), c + (c >= i)], n - 1)
    return jnp.stack([jnp.stack([cof(i, j) / d for j in range(n)], -1) for i in range(n)], -2)


def nonzero_stub(m, size=None, fill_value=0):
    """positions of the set entries in order, padded"""
    m = m != 0; n = m.shape[0]; out = []
    for q in range(size):
        r = jnp.asarray(fill_value); cnt = 0
        for k in reversed(range(n)):
            before = sum((m[j].astype(int) for j in range(k)), jnp.zeros((), int)); r = jnp.where(jnp.logical_and(m[k], before == q), k, r)
        out.append(r)
    return (jnp.stack(out),)


def argsort_stub(a):
    n = a.shape[-1]; rank = [sum((((a[..., j] < a[..., i]) if j > i else (a[..., j] <= a[..., i])).astype(int) for j in range(n) if j != i), jnp.zeros(a.shape[:-1], int)) for i in range(n)]
    return jnp.stack([sum((jnp.where(rank[i] == q, i, 0) for i in range(n)), jnp.zeros((), int)) for q in range(n)], -1)


def fori_stub(bound):
    def fori(lo, hi, body, init):
        st = init
        if isinstance(hi, int):
            for i in range(lo, hi): st = body(i, st)
            return st
        for i in range(bound):
            new = body(i, st); st = jax.tree_util.tree_map(lambda a, b, i=i: jnp.where(i < hi, a, b), new, st)
        return st
    return fori


def electrons(c, ne, K):
    """old positions p, new positions q (spin-up first, ascending per spin), update sites u; occupations and cached tables follow"""
    N = sum(ne); L = c.T("L"); spin = [0] * ne[0] + [1] * ne[1]
    same = lambda i: [j for j in range(N) if spin[j] == spin[i]]

    def asc(a): return lambda n, i: [lt(a(n, const(int(i) - 1)), a(n, i))] if i.op == "c" and int(i) > 0 and spin[int(i)] == spin[int(i) - 1] else []
    p = c.input("p", lambda d: (d.b, N), np.int64, 0, lambda d: d.L)
    f0 = c.facts["p"]; c.facts["p"] = lambda n, i: f0(n, i) + asc(p)(n, i)
    u = c.input("u", lambda d: (d.b, K), np.int64, 0, lambda d: d.L)

    def qf(n, i):
        if i.op != "c": return []
        i_ = int(i); r = asc(q)(n, i)
        r.append(or_(*[eq(q(n, i), p(n, const(j))) for j in same(i_)], *[eq(q(n, i), u(n, const(k))) for k in range(K)]))
        r.append(or_(*[eq(p(n, i), q(n, const(j))) for j in same(i_)], *[eq(p(n, i), u(n, const(k))) for k in range(K)]))
        return r
    q = c.input("q", lambda d: (d.b, N), np.int64, 0, lambda d: d.L, facts=qf)
    occ = lambda a: (lambda n, l: add(*[ite(eq(a(n, const(i)), l), const(1 + spin[i]), const(0)) for i in range(N)]))

    def y_(n, k):
        if k.op != "c": return add(*[ite(eq(k, const(j)), y_(n, const(j)), const(0)) for j in range(K)])
        k_ = int(k); rep = or_(*[eq(u(n, k), u(n, const(j))) for j in range(k_)]) if k_ else FALSE
        return ite(rep, occ(p)(n, u(n, k)), occ(q)(n, u(n, k)))
    c.derived("x", lambda d: (d.b, d.L), np.int64, occ(p)); c.derived("y", lambda d: (d.b, K), np.int64, y_)
    orb = lambda a: (lambda n, i: a(n, const(i)) + (L if spin[i] else const(0)))
    c.derived("cum", lambda d: (d.b, 2 * d.L), np.int64, lambda n, s: add(*[ite(le(orb(p)(n, i), s), const(1), const(0)) for i in range(N)]))

    def ids(n, s):
        r = const(-1)
        for i in range(N): r = ite(eq(s, orb(p)(n, i)), const(i), r)
        return r
    c.derived("ids", lambda d: (d.b, 2 * d.L), np.int64, ids)

    def sampler(d, rs):
        if d.L < max(ne): return None
        pick = lambda k: np.sort(rs.permutation(d.L)[:k])
        ps = np.array([np.concatenate([pick(k) for k in ne]) for _ in range(d.b)]); us = rs.randint(0, d.L, size=(d.b, K)); qs = ps.copy()
        for n in range(d.b):
            for s, (lo, hi) in enumerate(((0, ne[0]), (ne[0], N))):
                cur = set(ps[n, lo:hi])
                for _ in range(2):
                    a, b_ = us[n, rs.randint(K)], us[n, rs.randint(K)]
                    if rs.rand() < 0.8 and a in cur and b_ not in cur: cur = cur - {a} | {b_}
                qs[n, lo:hi] = sorted(cur)
        return {"p": ps.astype(np.int64), "u": us.astype(np.int64), "q": qs.astype(np.int64)}
    c.sampler = sampler
    return p, q, u, occ, orb


def splits(n, p, q, u, ne, K):
    """the order of all positions and update sites involved"""
    N = sum(ne); k_ = [const(k) for k in range(K)]; e_ = [const(i) for i in range(N)]; out = []
    for a, b_ in itertools.combinations(k_, 2): out += [eq(u(n, a), u(n, b_)), lt(u(n, a), u(n, b_))]
    for i in e_:
        for k in k_: out += [eq(p(n, i), u(n, k)), eq(q(n, i), u(n, k))]
        for k in k_: out += [lt(p(n, i), u(n, k))]
    for i, j in itertools.product(range(N), range(N)):
        if (i < ne[0]) == (j < ne[0]): out += [eq(p(n, e_[i]), q(n, e_[j]))]
    return out


def slater_fast(ne, K, sym=False):
    """amplitude from the cached update matrices (constant time)"""
    def make():
        N = sum(ne)
        c = Case("Slater update of %d sites, %s electrons%s" % (K, ne, " with symmetries" if sym else ""), SF, "b, L, M, S, T" if sym else "b, L, M, S", dict(b=(1, 2), L=(2, 4), M=(1, 2), S=(1, 2), T=(1, 2)))
        p, q, u, occ, orb = electrons(c, ne, K); T_ = (lambda d: d.T) if sym else (lambda d: 1); L = c.T("L")
        if sym: perm, inv = add_perm(c)
        V = c.input("V", lambda d: (d.b, d.M, 2 * d.L, N, d.S, T_(d)), complex); D = c.input("D", lambda d: (d.b, d.M, d.S, T_(d)), complex)
        img = (lambda a, n, i, t: perm(a(n, const(i)), t) + (L if i >= ne[0] else const(0))) if sym else (lambda a, n, i, t: orb(a)(n, i))

        def W_(n, m, s, e, r, t):
            # rows of occupied orbitals are unit vectors
            v = V(n, m, s, e, r, t)
            for i in range(N): v = ite(eq(s, img(p, n, i, t)), ite(eq(e, const(i)), const(1, "C"), const(0, "C")), v)
            return v
        W = c.derived("W", lambda d: (d.b, d.M, 2 * d.L, N, d.S, T_(d)), complex, W_)

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); kw = dict(symmetries=lambda y: jnp.take(a["perm"], y, axis=0)) if sym else {}
                with patched(jnp.linalg, slogdet=det_stub), patched(jnp, nonzero=nonzero_stub), patched(jax.lax, fori_loop=fori_stub(K)):
                    m = sl.Slater(Hilb(d.L, 4, ne), n_determinants=d.M, init_fun=zero_init, out_transformation=jnp.exp, **kw)
                    z = jnp.zeros((1,))
                    return m.apply({"intermediates_cache": {"update_matrices": a["W"], "full_U": z, "samples": a["x"], "sites_to_electron_ids": a["ids"], "cumulative_electron_count": a["cum"], "log_dets": jnp.log(a["D"]), "inverted_submats": z}}, a["y"], update_sites=a["u"])
            return f
        o = c.run(fn, order=["W", "x", "y", "u", "ids", "cum", "D"] + ["perm"] * sym)
        c.proof_s = 300; c.split = lambda n, *_: splits(n, p, q, u, ne, K)
        c.ensure("ratio of determinants times the cached determinant", o, lambda n, m, r, t: det_(lambda i, j: W_(n, m, img(q, n, i, t), const(j), r, t), N) * D(n, m, r, t))
        c.assumptions.append("cached tables as the from-scratch evaluation stores them; %s electrons, arbitrary sites, determinants, rotations and symmetries; determinants of the small update matrices by definition" % (ne,))
        return c
    make.__name__ = "slater_fast_%d%d_%d_%d" % (*ne, K, sym)
    return make


class Calls:
    """occupancies_to_electrons by its contract, for the cached and then the updated configuration"""
    def __init__(self, *ys): self.ys, self.args = ys, []
    def __call__(self, x, n_elec):
        if len(self.args) >= len(self.ys): raise Unsupported("electron positions asked for more often than expected")
        self.args.append(x); return self.ys[len(self.args) - 1]


def slater_cache(ne, K, fast):
    """update from the cached inverse: amplitude (when no update matrices are stored), new inverse and tables"""
    def make():
        N = sum(ne)
        c = Case("Slater cache update of %d sites, %s electrons%s" % (K, ne, ", constant-time tables" if fast else ""), SF, "L, M, S", dict(L=(2, 4), M=(1, 2), S=(1, 2)), fixed=dict(b=1))
        p, q, u, occ, orb = electrons(c, ne, K); L = c.T("L")
        V = c.input("V", lambda d: (d.M, 2 * d.L, N, d.S), complex); par = c.input("par", lambda d: (N * N, d.M, d.S), complex)
        f = lambda k, m, r: par(const(k), m, r); z0 = const(0)
        # occupied block A = lower * diagonal * upper (every matrix with non-zero leading minors) and its inverse
        if N == 1: A = lambda i, j, m, r: f(0, m, r); B = lambda i, j, m, r: power(f(0, m, r), -1); dA = lambda m, r: f(0, m, r)
        else:
            def A(i, j, m, r): d0, d1, l, w = [f(k, m, r) for k in range(4)]; return [[d0, d0 * w], [l * d0, l * d0 * w + d1]][i][j]
            def B(i, j, m, r): d0, d1, l, w = [f(k, m, r) for k in range(4)]; i0, i1 = power(d0, -1), power(d1, -1); return [[i0 + w * l * i1, -w * i1], [-l * i1, i1]][i][j]
            dA = lambda m, r: f(0, m, r) * f(1, m, r)
        sel = lambda F, i, j, m, r: add(*[ite(and_(eq(i, const(a)), eq(j, const(b_))), F(a, b_, m, r), const(0, "C")) for a in range(N) for b_ in range(N)])

        def U_(m, s, j, r):
            v = V(m, s, j, r)
            for i in range(N): v = ite(eq(s, orb(p)(z0, i)), sel(A, const(i), j, m, r), v)
            return v
        c.derived("U", lambda d: (d.M, 2 * d.L, N, d.S), complex, U_)
        c.derived("B", lambda d: (1, d.M, N, N, d.S, 1), complex, lambda n, m, i, j, r, t: sel(B, i, j, m, r))
        c.derived("D", lambda d: (1, d.M, d.S, 1), complex, lambda n, m, r, t: dA(m, r))

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Calls(a["p"], a["q"])
                with patched(sl, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=det_stub, inv=inv_stub), patched(jnp, nonzero=nonzero_stub, argsort=argsort_stub), patched(jax.lax, fori_loop=fori_stub(K)):
                    m = sl.Slater(Hilb(d.L, 4, ne), n_determinants=d.M, init_fun=zero_init, out_transformation=jnp.exp, constant_time_updates=fast)
                    out, st = m.apply({"intermediates_cache": {"update_matrices": None, "full_U": a["U"][None], "samples": a["x"], "sites_to_electron_ids": a["ids"], "cumulative_electron_count": a["cum"], "log_dets": jnp.log(a["D"]), "inverted_submats": a["B"]}},
                                      a["y"], update_sites=a["u"], cache_intermediates=True, mutable=["intermediates_cache"])
                st = st["intermediates_cache"]; iv = st["inverted_submats"]
                if (st["update_matrices"] is None) == fast: raise Unsupported("update matrices")
                rows = jnp.stack([a["U"][:, a["q"][0, i] + (d.L if i >= ne[0] else 0)] for i in range(N)], 1)      # (M, N, N, S)
                unit = jnp.einsum("mijr,mjkrt->mikrt", rows, iv[0])
                return (out, unit, st["samples"], st["cumulative_electron_count"], st["sites_to_electron_ids"], jnp.exp(st["log_dets"]), st["full_U"], el.args[0], el.args[1]) + ((st["update_matrices"] - jnp.einsum("msjr,bmjkrt->bmskrt", a["U"], iv),) if fast else ())
            return f
        o = c.run(fn, order=["U", "B", "D", "x", "y", "u", "ids", "cum", "p", "q"])
        c.proof_s = 300; c.split = lambda *_: splits(z0, p, q, u, ne, K)
        new = lambda n, m, r, t: det_(lambda i, j: U_(m, orb(q)(z0, i), const(j), r), N)
        c.ensure("determinant of the new occupied orbitals", o[0], new); c.ensure("cached determinant", o[5], new)
        c.ensure("cached inverse times the new occupied orbitals is the identity", o[1], lambda m, i, k, r, t: ite(eq(i, k), const(1, "C"), const(0, "C")))
        c.ensure("cached configuration", o[2], occ(q)); c.ensure("orbitals kept", o[6], lambda n, m, s, j, r: U_(m, s, j, r))
        c.ensure("electrons up to each orbital", o[3], lambda n, s: add(*[ite(le(orb(q)(n, i), s), const(1), const(0)) for i in range(N)]))

        def ids(n, s):
            r = const(-1)
            for i in range(N): r = ite(eq(s, orb(q)(n, i)), const(i), r)
            return r
        c.ensure("electron at each orbital", o[4], ids)
        c.ensure("old positions from the cached configuration", o[7], occ(p)); c.ensure("new positions from the updated configuration", o[8], occ(q))
        if fast: c.ensure("update matrices are orbitals times inverse", o[9], lambda *i: const(0, "C"))
        c.assumptions.append("%s electrons, one configuration, arbitrary sites, determinants and rotations; the updated determinant is not zero (the code divides by it)" % (ne,))
        return c
    make.__name__ = "slater_cache_%d%d_%d_%d" % (*ne, K, fast)
    return make


def slater_scratch(ne, kind):
    """what the evaluation from scratch stores for later updates"""
    def make():
        N = sum(ne)
        c = Case("Slater cache from scratch, %s electrons, %s" % (ne, kind), SF, "b, L, M, T", dict(b=(1, 2), L=(2, 4), M=(1, 2), T=(1, 2)))
        L = c.T("L"); spin = [0] * ne[0] + [1] * ne[1]
        perm, inv = add_perm(c)
        p = c.input("p", lambda d: (d.b, N), np.int64, 0, lambda d: d.L)
        f0 = c.facts["p"]; c.facts["p"] = lambda n, i: f0(n, i) + ([lt(p(n, const(int(i) - 1)), p(n, i))] if i.op == "c" and int(i) > 0 and spin[int(i)] == spin[int(i) - 1] else [])
        base = c.sampler
        c.sampler = lambda d, rs: None if d.L < max(ne) else dict(base(d, rs), p=np.array([np.concatenate([np.sort(rs.permutation(d.L)[:k]) for k in ne]) for _ in range(d.b)]).astype(np.int64))
        occ = lambda n, l: add(*[ite(eq(p(n, const(i)), l), const(1 + spin[i]), const(0)) for i in range(N)])
        c.derived("x", lambda d: (d.b, d.L), np.int64, occ)
        if kind == "general": U = c.input("U", lambda d: (d.M, 2 * d.L, N), complex)
        else:
            Uu = c.input("Uu", lambda d: (d.M, d.L, ne[0]), complex); Ud = c.input("Ud", lambda d: (d.M, d.L, ne[1]), complex); z = const(0, "C"); n0 = const(ne[0])
            U = lambda m, s, j: ite(lt(s, L), ite(lt(j, n0), Uu(m, s, j), z), ite(lt(j, n0), z, Ud(m, s - L, j - n0)))
        orb = lambda n, i: p(n, const(i)) + (L if spin[i] else const(0))

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Calls(a["p"], a["p"])
                with patched(sl, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=det_stub, inv=inv_stub), patched(jax.lax, fori_loop=fori_stub(N)):
                    m = sl.Slater(Hilb(d.L, 4, ne), n_determinants=d.M, init_fun=zero_init, out_transformation=jnp.exp, fixed_magnetization=kind != "general", symmetries=lambda y: jnp.take(a["perm"], y, axis=0))
                    out, st = m.apply({"params": {"U": a["U"]} if kind == "general" else {"U_up": a["Uu"], "U_down": a["Ud"]}}, a["x"], cache_intermediates=True, mutable=["intermediates_cache"])
                st = st["intermediates_cache"]; iv, fu = st["inverted_submats"], st["full_U"]
                q = jnp.stack([jnp.take(a["perm"], a["p"][:, i], axis=0) + (d.L if spin[i] else 0) for i in range(N)], 1)     # (b, N, T)
                sub_ = jnp.stack([jnp.stack([jnp.take(fu[0][..., 0], q[:, i], axis=1)[..., j] for j in range(N)], -1) for i in range(N)], -2)     # (M, b, T, N, N)
                unit = jnp.einsum("mbtij,bmjkt->mbtik", sub_, iv[..., 0, :])
                return out, unit, st["samples"], st["cumulative_electron_count"], st["sites_to_electron_ids"], jnp.exp(st["log_dets"]), fu, st["update_matrices"] - jnp.einsum("msj,bmjkt->bmskt", fu[0][..., 0], iv[..., 0, :])[..., None, :], *el.args
            return f
        o = c.run(fn, order=(["U"] if kind == "general" else ["Uu", "Ud"]) + ["x", "p", "perm"])
        img = lambda n, i, t: perm(p(n, const(i)), t) + (L if spin[i] else const(0))
        val = lambda n, m, r, t: det_(lambda i, j: U(m, img(n, i, t), const(j)), N)
        c.ensure("determinant of the occupied orbitals", o[0], val); c.ensure("cached determinant", o[5], val)
        c.ensure("cached inverse times the occupied orbitals is the identity", o[1], lambda m, n, t, i, k: ite(eq(i, k), const(1, "C"), const(0, "C")))
        c.ensure("cached configuration", o[2], occ); c.ensure("cached orbitals", o[6], lambda n, m, s, j, r: U(m, s, j))
        c.ensure("electrons up to each orbital", o[3], lambda n, s: add(*[ite(le(orb(n, i), s), const(1), const(0)) for i in range(N)]))

        def ids(n, s):
            r = const(-1)
            for i in range(N): r = ite(eq(s, orb(n, i)), const(i), r)
            return r
        c.ensure("electron at each orbital", o[4], ids)
        c.ensure("update matrices are orbitals times inverse", o[7], lambda *i: const(0, "C"))
        for k in range(8, len(o)): c.ensure("electron positions from the configuration (%d)" % (k - 7), o[k], occ)
        c.assumptions.append("%s electrons; the determinant is not zero" % (ne,))
        return c
    make.__name__ = "slater_scratch_%d%d_%s" % (*ne, kind)
    return make


BF = ["GPSKet/models/backflow.py:Backflow.__call__"]
CF = ["GPSKet/models/cpd_backflow.py:CPDBackflow.__call__", "GPSKet/models/cpd_backflow.py:CPD_with_cache"]


def cpd_update(kind, ne, K, dtype):
    def make():
        cm, = mods("cpd_backflow"); N = sum(ne)
        c = Case("CPDBackflow %s %s %s, %d update sites" % (kind, ne, dtype.__name__, K), CF, "b, L, M", dict(b=(1, 2), L=(2, 3), M=(1, 2)))
        x, u, y, new = update_inputs(c, K, 4); base = c.sampler; L, M = c.T("L"), c.T("M"); c.extra.update(EXTRA)
        pos = c.input("pos", lambda d: (d.b, N), np.int64, 0, lambda d: d.L); eps = cpd_inputs(c, kind, ne, dtype, 0)
        c.sampler = lambda d, rs: dict(base(d, rs), pos=np.array([np.concatenate([rs.permutation(d.L)[:k] for k in ne]) for _ in range(d.b)]).astype(np.int64))
        sp = lambda cfg: (lambda n, l, j, m: Prod(L, lambda k: eps(l, j, cfg(n, k), m, k)))
        c.derived("sp", lambda d: (d.b, (2 * d.L if kind == "general" else d.L), ne[0] if kind == "restricted" else N, d.M), dtype, sp(x))

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Electrons(a["pos"])
                with patched(cm, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=slogdet):
                    m = cm.CPDBackflow(Hilb(d.L, 4, ne), d.M, dtype=dtype, init_fun=zero_init, restricted=kind == "restricted", fixed_magnetization=kind != "general")
                    out, st = m.apply({"params": {"epsilon": a["eps"]}, "intermediates_cache": {"samples": a["x"], "site_products": a["sp"]}}, a["y"], update_sites=a["u"], cache_intermediates=True, mutable=["intermediates_cache"])
                return out, el.args[0][0], st["intermediates_cache"]["samples"], st["intermediates_cache"]["site_products"]
            return f
        o = c.run(fn)
        orb = lambda n: lambda l, j: Sum(M, lambda m: sp(new)(n, l, j, m))
        c.ensure("determinant of the orbitals of the updated configuration", o[0], lambda n: cpd_value(orb(n), pos, n, ne, kind, L))
        c.ensure("electron positions taken from the updated configuration", o[1], new); c.ensure("cached configuration", o[2], new); c.ensure("cached site products", o[3], sp(new))
        c.assumptions.append("fast update: the parameters at the replaced occupations are non-zero (the code divides by them); occupancies_to_electrons by its contract (C12)")
        return c
    make.__name__ = "cpd_update_%s_%d_%s" % (kind, K, dtype.__name__)
    return make


def backflow_update(kind, ne, K, store):
    def make():
        bf, = mods("backflow"); N = sum(ne)
        c = Case("Backflow %s %s, %d update sites%s" % (kind, ne, K, "" if store else ", cache kept"), BF, "b, L", dict(b=(1, 2), L=(2, 3)))
        x, u, y, new = update_inputs(c, K, 4); base = c.sampler; L = c.T("L"); c.extra.update(EXTRA)
        pos = c.input("pos", lambda d: (d.b, N), np.int64, 0, lambda d: d.L)
        cor = c.input("cor", lambda d: (d.b, 2 * d.L if kind == "general" else d.L, ne[0] if kind == "restricted" else N, 1), complex)
        c.sampler = lambda d, rs: dict(base(d, rs), pos=np.array([np.concatenate([rs.permutation(d.L)[:k] for k in ne]) for _ in range(d.b)]).astype(np.int64))

        def fn(d):
            def f(*a):
                a = dict(zip(c.order, a)); el = Electrons(a["pos"]); args = []

                def corr(x, cache_intermediates=False, update_sites=None): args.append((x, cache_intermediates, update_sites)); return a["cor"]
                with patched(bf, occupancies_to_electrons=el), patched(jnp.linalg, slogdet=slogdet):
                    m = bf.Backflow(Hilb(d.L, 4, ne), corr, spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general")
                    v = {"intermediates_cache": {"samples": a["x"]}}
                    if store: out, st = m.apply(v, a["y"], update_sites=a["u"], cache_intermediates=True, mutable=["intermediates_cache"]); s = st["intermediates_cache"]["samples"]
                    else: out = m.apply(v, a["y"], update_sites=a["u"]); s = a["x"]
                if len(args) != 1 or args[0][1] != store: raise Unsupported("correction called %s" % args)
                return out, el.args[0][0], s, args[0][0], args[0][2]
            return f
        o = c.run(fn)
        orb = lambda n: lambda l, j: cor(n, l, j, const(0))
        c.ensure("determinant of the corrected orbitals at the new positions", o[0], lambda n: cpd_value(orb(n), pos, n, ne, kind, L))
        c.ensure("electron positions taken from the updated configuration", o[1], new); c.ensure("cached configuration", o[2], new if store else (lambda n, l: x(n, l)))
        c.ensure("corrections updated with the new occupations", o[3], lambda n, k: y(n, k)); c.ensure("corrections updated at the update sites", o[4], lambda n, k: u(n, k))
        return c
    make.__name__ = "backflow_update_%s_%d_%d" % (kind, K, store)
    return make


CASES = [slater_fast((1, 1), 2), slater_fast((2, 1), 2), slater_fast((1, 2), 2), slater_fast((2, 2), 2), slater_fast((3, 0), 2), slater_fast((2, 0), 3), slater_fast((1, 1), 2, True), slater_fast((2, 0), 2, True)]
CASES += [slater_cache((1, 1), 2, False), slater_cache((2, 0), 2, True), slater_cache((1, 0), 2, False), slater_cache((1, 1), 2, True)]
CASES += [slater_scratch((1, 1), "fixed"), slater_scratch((2, 0), "fixed"), slater_scratch((1, 1), "general")]
CASES += [cpd_update("restricted", (1, 1), 1, complex), cpd_update("restricted", (2, 2), 2, complex), cpd_update("unrestricted", (2, 1), 2, complex), cpd_update("general", (1, 2), 2, float), cpd_update("unrestricted", (1, 1), 3, float)]
CASES += [backflow_update("restricted", (2, 2), 2, True), backflow_update("unrestricted", (2, 1), 1, True), backflow_update("general", (1, 2), 3, True), backflow_update("unrestricted", (1, 2), 2, False)]
