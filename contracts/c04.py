"""C04: ab-initio local energies evaluated on the fly"""
from .util import *
from .c01 import configurations
from .c02 import Integrals, row
from .c03 import logpsi, Psi, Gfun
from engine.jx import RULES
from engine.tactics import product_sums
from jax.extend import core as jexcore
from jax import core as jcore
from jax.interpreters import batching, mlir
import engine.terms as terms
import GPSKet.operator.hamiltonian.ab_initio as ab

terms.FLIP2 = True

F = ["GPSKet/operator/hamiltonian/ab_initio.py:local_en_on_the_fly", "GPSKet/operator/hamiltonian/ab_initio.py:get_parity_multiplicator_hop", "GPSKet/operator/hamiltonian/ab_initio.py:AbInitioHamiltonian.__init__"]

# jnp.nonzero(mask, size=n) by its contract: position number k of the set entries
NZ = jexcore.Primitive("opaque_NZ")


@NZ.def_abstract_eval
def _ab(m, *, size): return jcore.ShapedArray(m.shape[:-1] + (size,), jnp.int64)


def _batch(args, dims, *, size):
    m, = args; d, = dims
    return NZ.bind(batching.moveaxis(m, d, 0), size=size), 0


batching.primitive_batchers[NZ] = _batch


def _rule(ev, e, m):
    def el(*idx):
        v = fresh("g"); lam = bind("lam", v, m.shape[-1], ite(_set(m(*idx[:-1], v)), const(1), const(0)))
        return mk("f", (lam, idx[-1]), "I", "NZ")
    o = e.outvars[0].aval
    return Arr(m.shape[:-1] + (dim(o.shape[-1]),), "I", el, jnp.int64)


def _set(t): return t if t.sort == "B" else not_(eq(t, const(0)))


RULES["opaque_NZ"] = _rule


REAL_NZ = jnp.nonzero
NZ.def_impl(lambda m, *, size: _real(m, size))


def _real(m, size):
    f = lambda r: REAL_NZ(r, size=size)[0]
    for _ in range(m.ndim - 1): f = jax.vmap(f)
    return f(m).astype(jnp.int64)


mlir.register_lowering(NZ, mlir.lower_fun(lambda m, *, size: _real(m, size), multiple_results=False))
LISTS = None


def nonzero(m, size=None):
    if isinstance(size, int) and size == 1 and isinstance(m.shape[0], int) and m.shape[0] <= 4:
        r = jnp.zeros((), jnp.int64)
        for k in reversed(range(m.shape[0])): r = jnp.where(m[k] != 0, k, r)
        return (r[None],)
    return (NZ.bind(m, size=size),)


def nzval(r, k):
    w = np.nonzero(np.asarray(r))[0]; k = int(k)
    return int(w[k]) if k < len(w) else 0


def expand(t, cx):
    """sums over the entries of a list of set positions become sums over all positions, restricted to the set ones"""
    t = simp(t, cx)
    return _go(t, cx)


def _go(t, cx):
    if not t.args or not _has(t): return t
    if t.op in ("sum",):
        v = fresh("k"); n, b = t.args[0], open_(t, v)
        c2 = cx.extend(le(const(0), v), lt(v, n))
        b = simp(b, c2)
        uses = [x for x in walk_all(b) if x.op == "f" and x.val == "NZ" and x.args[1] is v]
        ms = {x.args[0].id: x.args[0] for x in uses}
        if len(ms) == 1:
            lam = next(iter(ms.values())); m = fresh("k")
            if not _free(lam, v):
                q = replace(b, uses[0], m)
                if not _free(q, v):
                    N = lam.args[0]
                    if LISTS is not None: LISTS.append((lam, n, cx))
                    body = ite(eq(open_(lam, m), const(1)), q, const(0, q.sort))
                    return _go(bind("sum", m, N, simp(body, cx.extend(le(const(0), m), lt(m, N)))), cx)
        return bind("sum", v, _go(n, cx), _go(b, c2))
    if t.op in ("lam", "all", "any", "prod"):
        v = fresh("k"); n = t.args[0]; c2 = cx.extend(le(const(0), v), lt(v, n))
        return bind(t.op, v, n, _go(open_(t, v), c2))
    if t.op == "ite":
        c = t.args[0]; y, z = cx.extend(c), cx.extend(not_(c))
        return ite(_go(c, cx), _go(t.args[1], y), _go(t.args[2], z))
    return rebuild(t, [_go(a, cx) for a in t.args])


def _has(t): return any(x.op == "f" and x.val == "NZ" for x in walk(t))


def walk_all(t): return list(walk(t))


def _free(t, v): return any(x is v for x in walk(t))


def replace(t, a, b):
    from engine.jx import replace_terms
    return replace_terms(t, {a.id: b})


def sign(X, s, a, b, L):
    """(-1)^(electrons of spin s strictly between a and b)"""
    n = Sum(L, lambda l: ite(and_(lt(tmin(a, b), l), lt(l, tmax(a, b)), X.occ(s, l)), const(1), const(0)))
    return const(1) - const(2) * mod(n, const(2))


def list_lengths(c, out, counts, go=expand):
    """the length passed to nonzero is the number of set entries; counts: dimension -> number of electrons it stands for"""
    global LISTS
    n = var("i0_x"); cx = Ctx(c.hyps + [le(const(0), n), lt(n, c.T("b"))], c.facts, c.rewrites)
    LISTS = []
    try: go(out(n), cx)
    finally: got, LISTS = LISTS, None
    seen = set()
    for lam, N, cl in got:
        if (lam.id, N.id) in seen: continue
        seen.add((lam.id, N.id))
        v = fresh("k"); body = open_(lam, v)
        tot = expand(bind("sum", v, lam.args[0], body), cl)
        L = c.T("L"); m = {k: f(n) for k, f in counts.items()}
        yield subst(tot, m), subst(N, m), [h for h in cl.hyps if h not in c.hyps]


def guards(t):
    """the electron species whose occupations guard the sums around the amplitudes of t"""
    r = []
    while True:
        if t.op == "mul":
            q = [a for a in t.args if amplitude(a)]
            if len(q) != 1: break
            t = q[0]
        elif t.op == "sum": t = open_(t, fresh("k"))
        elif t.op == "ite":
            f = {x.val for x in walk(t.args[0]) if x.op == "f"}
            r += sorted(f & {"x_up", "x_dn"})
            q = [a for a in t.args[1:] if not isc(a, 0)]
            if len(q) != 1: break
            t = q[0]
        else: break
    return tuple(sorted(r))


def amplitude(t): return any(x.op == "sum" and any(y.op == "f" and y.val == "Psi" for y in walk(x)) for x in walk(t))


def groups(c, full, spec, key=None, name=None):
    """the equation is proved summand by summand: both sides are split by the kind of excitation (any split is sound: every
    summand of either side belongs to exactly one obligation, and the obligations add up to the equation)"""
    n = var("i0_x"); cx = Ctx(c.hyps + [le(const(0), n), lt(n, c.T("b"))], c.facts, c.rewrites)
    parts = {}
    for side, t in ((0, full(n)), (1, simp(spec(n), cx))):
        for a in (t.args if t.op == "add" else [t]): parts.setdefault((key or guards)(a) if amplitude(a) else (), ([], []))[side].append(a)
    for k in sorted(parts):
        nm = ("diagonal" if not k else "excitations " + " ".join(x[2:] for x in k)) + ": sum of matrix element times amplitude ratio"
        if name and k: nm = name(k)
        g, w = [add(*p) if p else const(0) for p in parts[k]]
        c.ensure(nm, Arr(full.shape, full.sort, (lambda g: lambda i: subst(g, {n.val: i}))(g), full.dtype), (lambda w: lambda i: subst(w, {n.val: i}))(w), pick=lambda r: r)
        c.obl[-1]["replay_spec"] = spec
        c.obl[-1]["noguard"] = bool(k)
        if k and all(len(p) == 1 for p in parts[k]): c.obl[-1]["tactic"] = product_sums([holds("Psi"), holds_op("mod")], amplitude)


def holds(f): return lambda t: any(x.op == "f" and x.val == f for x in walk(t))


def holds_op(o): return lambda t: any(x.op == o for x in walk(t))


def dense(fast):
    def make():
        c = Case("ab-initio local energy%s" % (" (fast update)" if fast else ""), F, "b, L, Nu, Nd", dict(b=(1, 2), L=(2, 5), Nu=(1, 4), Nd=(1, 4)), constraints=("L >= Nu + 1", "L >= Nd + 1"))
        c.assume(lt(c.T("Nu"), c.T("L")), lt(c.T("Nd"), c.T("L")))
        I = Integrals(c)
        x, cfg = configurations(c)
        L = c.T("L")

        def sampler(d, rs):
            if d.Nu >= d.L or d.Nd >= d.L: return None
            r = lambda n: np.stack([rs.permutation([1] * n + [0] * (d.L - n)) for _ in range(d.b)]).astype(np.int64)
            return {"x_up": r(d.Nu), "x_dn": r(d.Nd)}
        c.sampler = sampler
        c.extra["Psi"] = Gfun; c.extra["NZ"] = nzval

        def fn(d):
            def f(h, eri, x):
                o = ab.AbInitioHamiltonian.__new__(ab.AbInitioHamiltonian)
                with patched(ab.FermionicDiscreteOperator, __init__=lambda self, h: None), patched(ab, np=jnp): ab.AbInitioHamiltonian.__init__(o, NS(_n_elec=(1, 1)), h, eri)
                with patched(jnp, nonzero=nonzero), patched(ab, len=lambda a: a.shape[0] if hasattr(a, "shape") else len(a)):
                    return ab.local_en_on_the_fly((d.Nu, d.Nd), logpsi, {}, x, (o.t_mat, o.eri_mat), use_fast_update=fast)
            return f
        out = c.run(fn, order=["h", "eri", "x"])
        cx = lambda n: Ctx(c.hyps + [le(const(0), n), lt(n, c.T("b"))], c.facts, c.rewrites)
        full = Arr(out.shape, out.sort, lambda n: expand(out(n), cx(n)), out.dtype)

        def spec(n):
            X = cfg(n); p0 = Psi(X, L)
            return row(I, X, L, lambda Y: un("exp", Psi(Y, L) - p0), parity=sign)
        c.proof_s = float(os.environ.get("VERIF_C04_S", "240")); c.guarded = True
        groups(c, full, spec)
        up, dn = c.arr["x_up"], c.arr["x_dn"]
        cnt = {"Nu": lambda n: Sum(L, lambda l: up(n, l)), "Nd": lambda n: Sum(L, lambda l: dn(n, l))}
        for k, (tot, N, hy) in enumerate(list_lengths(c, out, cnt)): c.lemma("length of position list %d" % k, (lambda p: lambda: p)((tot, N)), hyps=hy)
        c.assumptions.append("the wavefunction obeys the fast-update contract (C05, C06); jnp.nonzero(mask, size) lists the set positions of the mask in order, size is their number")
        return c
    make.__name__ = "dense_%d" % fast
    return make


CASES = [dense(False), dense(True)]


# ---------------------------------------------------------------------------------------------- sparse storage
import GPSKet.operator.hamiltonian.ab_initio_sparse as sp
SF = ["GPSKet/operator/hamiltonian/ab_initio_sparse.py:local_en_on_the_fly", F[1]]

# index lists by their contract: TRI0/TRI1 run over all pairs p < q < n, RECT0/RECT1 over all pairs p < n, q < m
PAIR = jexcore.Primitive("opaque_PAIR")
PAIR.multiple_results = False


@PAIR.def_abstract_eval
def _pab(n, m, *, kind, which, length): return jcore.ShapedArray((length,), jnp.int64)


def _plist(n, m, kind):
    if kind == "TRI": return [(p, q) for p in range(n) for q in range(p + 1, n)]
    return [(p, q) for p in range(n) for q in range(m)]


def _prule(ev, e, n, m):
    k, w = e.params["kind"], e.params["which"]
    return Arr((dim(e.outvars[0].aval.shape[0]),), "I", lambda i: mk("f", (n(), m(), i), "I", k + str(w)), jnp.int64)


RULES["opaque_PAIR"] = _prule


def _pair(kind, n, m, length):
    if isinstance(length, int):
        l = np.array(_plist(n, m, kind), dtype=np.int64).reshape(-1, 2)
        return jnp.asarray(l[:, 0]), jnp.asarray(l[:, 1])
    a, b = [x for x in (n, m)]
    return tuple(PAIR.bind(jnp.array(a), jnp.array(b), kind=kind, which=w, length=length) for w in (0, 1))


def triu_indices(d):
    def f(n, k=0):
        if k != 1: raise Unsupported("triu_indices with k = %s" % k)
        if isinstance(n, int): return _pair("TRI", n, n, n * (n - 1) // 2)
        for a, t in ((d.Nu, d.Tu), (d.Nd, d.Td)):
            if n is a or str(n) == str(a): return _pair("TRI", n, n, t)          # Tu, Td name the lengths of the two pair lists
        raise Unsupported("a pair list over %s" % n)
    return f


class Rect:
    """jnp.indices((n, m)) as used here: the two index grids, flattened in the same order"""
    def __init__(self, a): self.a = a
    def flatten(self): return self.a
    ravel = flatten
    def reshape(self, *s):
        if s not in ((-1,), ((-1,),)): raise Unsupported("reshape of an index grid")
        return self.a


def indices(s):
    n, m = s
    return tuple(Rect(x) for x in _pair("RECT", n, m, n * m))


def additive(Z):
    """a loop whose body adds a term that does not depend on the accumulator is the sum of its terms; checked on the traced body"""
    def fori(lo, hi, body, init):
        z = jnp.asarray(init)
        cj = jax.make_jaxpr(lambda k, v: body(k, v))(jnp.zeros((), jnp.int64), z).jaxpr
        v = cj.invars[1]; o = cj.outvars[0]
        q = [e for e in cj.eqns if any(x is v for x in e.invars)]
        if len(q) != 1 or q[0].primitive.name != "add" or q[0].outvars[0] is not o or sum(x is v for x in q[0].invars) != 1: raise Unsupported("the loop is not a plain accumulation")
        k = jnp.arange(Z)
        terms = jax.vmap(lambda k: body(k, jnp.zeros_like(z)))(k)
        return z + jnp.sum(jnp.where((k >= lo) & (k < hi), terms, 0))
    return fori


def pairsums(t, cx):
    """sums over the entries of a pair list become double sums"""
    if not t.args or not any(x.op == "f" and x.val in ("TRI0", "TRI1", "RECT0", "RECT1") for x in walk(t)): return t
    if t.op == "sum":
        from engine.jx import replace_terms
        v = fresh("k"); n = t.args[0]; b = simp(open_(t, v), cx.extend(le(const(0), v), lt(v, n)))
        uses = [x for x in walk_all(b) if x.op == "f" and x.val in ("TRI0", "TRI1", "RECT0", "RECT1") and x.args[2] is v]
        if uses:
            a, m = uses[0].args[:2]; kind = uses[0].val[:-1]
            ln = {"Nu": var("Tu"), "Nd": var("Td")}[a.val] if kind == "TRI" else a * m
            if any(x.args[:2] != (a, m) or x.val[:-1] != kind for x in uses) or not is_same(ln, n, cx): raise Unsupported("a pair list with another length")
            if kind == "RECT":
                p, q = fresh("k"), fresh("k")
                b = replace_terms(b, {x.id: (p if x.val.endswith("0") else q) for x in uses})
                if _free(b, v): raise Unsupported("position in a pair list")
                return pairsums(bind("sum", p, a, bind("sum", q, m, b)), cx)
            # both positions index the same increasing list of set entries: the pairs are the pairs i < j of set positions
            p, q = fresh("k"), fresh("k")
            b = replace_terms(b, {x.id: (p if x.val.endswith("0") else q) for x in uses})
            if _free(b, v): raise Unsupported("position in a pair list")
            b = simp(b, cx.extend(le(const(0), p), lt(p, q), lt(q, a)))
            nz = [x for x in walk_all(b) if x.op == "f" and x.val == "NZ" and (x.args[1] is p or x.args[1] is q)]
            lams = {x.args[0].id: x.args[0] for x in nz}
            if len(lams) != 1: raise Unsupported("a pair list over two lists")
            lam = next(iter(lams.values())); i, j = fresh("k"), fresh("k")
            if LISTS is not None: LISTS.append((lam, a, cx))
            J = i + const(1) + j
            b = replace_terms(b, {x.id: (i if x.args[1] is p else J) for x in nz})
            if _free(b, p) or _free(b, q): raise Unsupported("position in a pair list")
            N = lam.args[0]; one = lambda k: eq(open_(lam, k), const(1))
            return bind("sum", i, N, ite(one(i), bind("sum", j, N - const(1) - i, ite(one(J), b, const(0, b.sort))), const(0, b.sort)))
        return bind("sum", v, n, pairsums(b, cx))
    if t.op in ("lam", "all", "any", "prod"):
        v = fresh("k"); return bind(t.op, v, t.args[0], pairsums(open_(t, v), cx))
    return rebuild(t, [pairsums(a, cx) for a in t.args])


def is_same(a, b, cx): return a is b or isc(simp(sub(a, b), cx), 0) or cx.implies(eq(a, b))


def pairval(which):
    def f(n, m, k):
        l = _plist(int(n), int(m), which[:-1])
        return l[int(k)][int(which[-1])] if int(k) < len(l) else 0
    return f


def outer(t, Z):
    """the electron species guarding t outside the sum over the stored entries"""
    r = []
    while t.op in ("sum", "ite", "mul"):
        if t.op == "mul":
            q = [a for a in t.args if a.op == "sum"]
            if len(q) != 1: break
            t = q[0]
        elif t.op == "sum":
            if t.args[0] is Z: break
            t = open_(t, fresh("k"))
        else:
            r += sorted({x.val for x in walk(t.args[0]) if x.op == "f"} & {"x_up", "x_dn"})
            q = [a for a in t.args[1:] if not isc(a, 0)]
            if len(q) != 1: break
            t = q[0]
    return tuple(sorted(r))


def sparse(fast):
    def make():
        c = Case("sparse ab-initio local energy%s" % (" (fast update)" if fast else ""), SF, "b, L, Nu, Nd, Z, Tu, Td", dict(b=(1, 1), L=(2, 3), Nu=(1, 2), Nd=(1, 2), Z=(1, 4), Tu=(1, 1), Td=(1, 1)), constraints=("L >= Nu + 1", "L >= Nd + 1"))
        c.assume(lt(c.T("Nu"), c.T("L")), lt(c.T("Nd"), c.T("L")))
        x, cfg = configurations(c)
        L, Z = c.T("L"), c.T("Z")
        R1 = c.input("R1", lambda d: (d.L + 1,), np.int64, 0, lambda d: d.Z + 1)
        A1 = c.input("A1", lambda d: (d.Z,), np.int64, 0, lambda d: d.L)
        V1 = c.input("V1", lambda d: (d.Z,), float)
        R2 = c.input("R2", lambda d: (d.L, d.L + 1), np.int64, 0, lambda d: d.Z + 1)
        A2 = c.input("A2", lambda d: (d.Z, 2), np.int64, 0, lambda d: d.L)
        V2 = c.input("V2", lambda d: (d.Z,), float)

        def sampler(d, rs):
            if d.Nu >= d.L or d.Nd >= d.L: return None
            d["Tu"], d["Td"] = [n * (n - 1) // 2 for n in (d.Nu, d.Nd)]
            r = lambda n: np.stack([rs.permutation([1] * n + [0] * (d.L - n)) for _ in range(d.b)]).astype(np.int64)
            return {"x_up": r(d.Nu), "x_dn": r(d.Nd)}
        c.sampler = sampler
        c.extra["Psi"] = Gfun; c.extra["NZ"] = nzval
        for k in ("TRI0", "TRI1", "RECT0", "RECT1"): c.extra[k] = pairval(k)

        def fn(d):
            def f(x, *args):
                with patched(jnp, nonzero=nonzero, triu_indices=triu_indices(d), indices=indices), patched(jax.lax, fori_loop=additive(d.Z)) if not isinstance(d.Z, int) else patched(jnp):
                    return sp.local_en_on_the_fly((d.Nu, d.Nd), logpsi, {}, x, args, use_fast_update=fast)
            return f
        out = c.run(fn, order=["x", "R1", "A1", "V1", "R2", "A2", "V2"])
        cx = lambda n: Ctx(c.hyps + [le(const(0), n), lt(n, c.T("b"))], c.facts, c.rewrites)
        full = Arr(out.shape, out.sort, lambda n: expand(pairsums(out(n), cx(n)), cx(n)), out.dtype)
        c.full = full

        def spec(n):
            X = cfg(n); p0 = Psi(X, L)
            ratio = lambda Y: un("exp", Psi(Y, L) - p0)
            C = lambda s, k: Sum(L, lambda l: ite(and_(le(l, k), X.occ(s, l)), const(1), const(0)))      # electrons up to and including k
            P = lambda s, k: C(s, k) - X.n[s](k)                                                          # strictly left of k
            b = lambda q: ite(q, const(1), const(0))
            sg = lambda m: const(1) - const(2) * mod(m, const(2))
            after = lambda i, f: Sum(L - const(1) - i, lambda j: f(i + const(1) + j))                      # sum over i < j < L
            tot = const(0)
            for s in (1, 2):
                def one(i, k):
                    a = A1(k)
                    return ite(eq(a, i), const(1), ite(X.occ(s, a), const(0), sg(P(s, i) + P(s, a) - b(lt(i, a))) * ratio(X.moved(s, i, a))))
                tot = tot + Sum(L, lambda i: ite(X.occ(s, i), Sum(Z, lambda k: ite(and_(le(R1(i), k), lt(k, R1(i + const(1)))), V1(k) * one(i, k), const(0))), const(0)))

                def two(i, j, k):
                    a, e = A2(k, const(0)), A2(k, const(1))
                    free = lambda q: or_(eq(q, i), eq(q, j), not_(X.occ(s, q)))
                    m = P(s, i) + P(s, j) - b(lt(i, j)) + P(s, e) - b(lt(i, e)) - b(lt(j, e)) + P(s, a) - b(lt(i, a)) - b(lt(j, a)) + b(lt(e, a))
                    Y = dict(X.n); f = Y[s]
                    Y[s] = lambda l: ite(or_(eq(l, a), eq(l, e)), const(1), ite(or_(eq(l, i), eq(l, j)), const(0), f(l)))
                    return ite(and_(free(e), free(a), not_(eq(a, e))), V2(k) * sg(m) * ratio(type(X)(Y[1], Y[2])), const(0))
                tot = tot + Sum(L, lambda i: ite(X.occ(s, i), after(i, lambda j: ite(X.occ(s, j), Sum(Z, lambda k: ite(and_(le(R2(i, j), k), lt(k, R2(i, j + const(1)))), two(i, j, k), const(0))), const(0))), const(0)))

            def to(X, i, a, j, e):                                                                          # also right for a = i, e = j
                mv = lambda f, i, a: lambda l: ite(eq(l, a), const(1), ite(eq(l, i), const(0), f(l)))
                return type(X)(mv(X.n[1], i, a), mv(X.n[2], j, e))

            def mixed(i, j, k):
                a, e = A2(k, const(0)), A2(k, const(1))
                m = P(1, i) + P(1, a) - b(lt(i, a)) + P(2, j) + P(2, e) - b(lt(j, e))
                return ite(and_(or_(eq(a, i), not_(X.occ(1, a))), or_(eq(e, j), not_(X.occ(2, e)))), V2(k) * sg(m) * ratio(to(X, i, a, j, e)), const(0))
            tot = tot + Sum(L, lambda i: ite(X.occ(1, i), Sum(L, lambda j: ite(X.occ(2, j), Sum(Z, lambda k: ite(and_(le(R2(i, j), k), lt(k, R2(i, j + const(1)))), mixed(i, j, k), const(0))), const(0))), const(0)))
            return tot
        c.proof_s = float(os.environ.get("VERIF_C04_S", "240")); c.guarded = True
        groups(c, full, spec, lambda a: outer(a, Z), lambda k: "%s: sum of stored integral times amplitude ratio" % " ".join(x[2:] for x in k))
        up, dn = c.arr["x_up"], c.arr["x_dn"]
        cnt = {"Nu": lambda n: Sum(L, lambda l: up(n, l)), "Nd": lambda n: Sum(L, lambda l: dn(n, l))}
        for k, (tot, N, hy) in enumerate(list_lengths(c, out, cnt, lambda t, cx: expand(pairsums(t, cx), cx))): c.lemma("length of position list %d" % k, (lambda p: lambda: p)((tot, N)), hyps=hy)
        c.assumptions.append("jnp.nonzero as for the dense operator; jnp.triu_indices(n, 1) lists the pairs p < q < n and jnp.indices((n, m)) the pairs p < n, q < m; a fori_loop that only adds to its carry (checked on the traced body) is a sum")
        c.assumptions.append("storage arrays of the one- and two-electron integrals padded to a common length, ranges inside it; the constructor filling them is checked bounded")
        return c
    make.__name__ = "sparse_%d" % fast
    return make
CASES += [sparse(False), sparse(True)]
