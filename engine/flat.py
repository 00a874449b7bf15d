"""Two complete-for-their-fragment steps used by solve.prove_zero: tensor contractions are flattened into monomials under nests of
sums and compared up to renaming and reordering of the summation indices; sums over a merged index (q*M + r) are split into two."""
import os
from itertools import permutations, product
from .terms import *
from . import terms as Tm
from .terms import _split

LIMIT = 4000


class Big(Exception):
    pass


def _mono(t, sort):
    """list of (coef, binders, factors)"""
    if t.op == "c": return [(t.val, (), ())]
    if t.op == "add":
        out = []
        for a in t.args:
            out += _mono(a, sort)
            if len(out) > LIMIT: raise Big
        return out
    if t.op == "mul": return _prod([_mono(a, sort) for a in t.args])
    if t.op == "pow" and t.val in (2, 3) and any(x.op in ("add", "sum") for x in walk(t.args[0])):
        return _prod([_mono(t.args[0], sort) for _ in range(t.val)])
    if t.op == "up":
        return [(c, b, tuple(retag(f, t.sort) if f.sort != t.sort else f for f in fs)) for c, b, fs in _mono(t.args[0], sort)]
    if t.op == "sum" and not any(Tm_bname(z) for z in t.args[0].free):
        v = fresh("m"); n = t.args[0]
        return [(c, b + ((v, n),), fs) for c, b, fs in _mono(open_(t, v), sort)]
    return [(1, (), (t,))]


def Tm_bname(n): return n.startswith("m!")


def _prod(ls):
    out = [(1, (), ())]
    for l in ls:
        if len(out) * len(l) > LIMIT: raise Big
        out = [(c1 * c2, b1 + b2, f1 + f2) for c1, b1, f1 in out for c2, b2, f2 in l]
    return out


def canon(b, fs):
    """(key, term): product under the sums, independent of names and order of the summation indices"""
    t = mul(*fs) if fs else const(1)
    if t.op == "c" or True:
        use, extra = [], []
        for v, n in b:
            if v.val in t.free: use.append((v, n))
            else: extra.append(retag(n, t.sort) if t.sort in "RC" else n)
        if extra:
            t = mul(t, *extra)
            use = [(v, n) for v, n in use if v.val in t.free]
    groups = {}
    for v, n in use: _RANGE[n.id] = n
    for v, n in use: groups.setdefault(n.id, []).append((v, n))
    if not use: return (t.id, ()), t
    perms = 1
    for g in groups.values():
        for k in range(2, len(g) + 1): perms *= k
    if perms > 720: raise Big
    best = None
    gs = sorted(groups.items())
    for ps in product(*[list(permutations(range(len(g)))) for _, g in gs]):
        m = {}
        for (i, g), p in zip(gs, ps):
            for (v, n), k in zip(g, p): m[v.val] = var("mm%d_%d" % (i, k))
        x = subst(t, m)
        if best is None or x.id < best.id: best = x
    return (best.id, tuple((i, len(g)) for i, g in gs)), best


def _acc(t):
    acc = {}
    todo = _mono(t, t.sort)
    while todo:
        c, b, fs = todo.pop()
        if any(f.op in ("u", "pow") for f in fs):
            y = mul(*fs); p = next((f for f in (y.args if y.op == "mul" else (y,)) if f.op == "pow" and f.val >= 2 and f.args[0].op == "u" and f.args[0].val == "cos"), None)
            if p is not None:
                r = mul(y, power(p.args[0], -2)); s2 = power(mk("u", p.args[0].args, "R", "sin"), 2)
                todo += [(c, b, (r,)), (-c, b, (mul(r, s2),))]
                if len(todo) > LIMIT: raise Big
                continue
        k, x = canon(b, fs)
        cc, base = _split(x)
        if base is None: base = const(1)
        k = (base.id, k[1], base); acc[k] = acc.get(k, 0) + c * cc
    return {k: c for k, c in acc.items() if c}


def flat_zero(t):
    """t is a sum of tensor contractions that cancel; -> True, or None"""
    if not any(x.op == "sum" for x in walk(t)): return None
    try: return not _acc(t)
    except Big: return None


_RANGE = {}


def flat_nf(t):
    """normal form of a real term as a sum of tensor contractions"""
    t = dec(t)
    try: a = _acc(t)
    except Big: return t
    out = [const(0, t.sort)]
    for (i, gs, base), c in sorted(a.items(), key=lambda p: (p[0][0], p[0][1])):
        x = base
        for g, m in gs:
            for k in range(m): x = bind("sum", var("mm%d_%d" % (g, k)), byid(g), x)
        out.append(mul(mk("c", (), "R", c) if x.sort != "C" else mk("c", (), "C", c), x))
    return add(*out)


def byid(i): return _RANGE[i]


_dec, _cc = {}, {}


def dec(t):
    """real parts of complex expressions written out over re/im of the opaque complex atoms; function arguments in normal form"""
    r = _dec.get(t.id)
    if r is not None: return r[1]
    if not t.args or t.sort in "BI" or (t.op == "u2" and t.val in ("re", "im")): r = t
    elif t.sort == "C": re, im = ccart(t); r = add(retag(re, "C"), mul(retag(im, "C"), IUNIT))
    elif t.op == "down": r = ccart(t.args[0])[0]
    elif t.op == "u":
        a = t.args[0]
        r = un(t.val, flat_nf(a)) if a.sort == "R" else t
    elif t.op in ("sum", "prod"):
        v = fresh("d"); r = bind(t.op, v, t.args[0], dec(open_(t, v)))
    elif t.op in BINDERS: r = t
    else: r = rebuild(t, [dec(a) for a in t.args])
    _dec[t.id] = (t, r)
    return r


def ccart(t):
    r = _cc.get(t.id)
    if r is None: r = _cc[t.id] = (t, _ccart(t))
    return r[1]


def _ccart(t):
    z = const(0, "R")
    if t.sort != "C": return retag(dec(t), "R"), z
    if t is IUNIT: return z, const(1, "R")
    if t.op == "c": return mk("c", (), "R", t.val), z
    if t.op == "up": return retag(dec(t.args[0]), "R"), z
    if t.op == "add":
        l = [ccart(a) for a in t.args]; return add(*[a for a, b in l]), add(*[b for a, b in l])
    if t.op == "mul":
        re, im = const(1, "R"), z
        for a in t.args:
            c = ccart(a); re, im = sub(mul(re, c[0]), mul(im, c[1])), add(mul(re, c[1]), mul(im, c[0]))
        return re, im
    if t.op == "ite":
        x, y = ccart(t.args[1]), ccart(t.args[2]); return ite(t.args[0], x[0], y[0]), ite(t.args[0], x[1], y[1])
    if t.op == "sum":
        v = fresh("d"); x = ccart(open_(t, v)); return tuple(bind("sum", v, t.args[0], y) for y in x)
    if t.op == "pow":
        x = ccart(t.args[0])
        if isc(x[1], 0): return power(x[0], t.val), z
        re, im = const(1, "R"), z
        if abs(t.val) <= 4:
            for _ in range(abs(t.val)): re, im = sub(mul(re, x[0]), mul(im, x[1])), add(mul(re, x[1]), mul(im, x[0]))
            if t.val > 0: return re, im
            n = power(add(mul(x[0], x[0]), mul(x[1], x[1])), t.val)
            return mul(re, n), neg(mul(im, n))
    if t.op == "u" and t.val == "exp":
        u, v = [flat_nf(x) for x in ccart(t.args[0])]
        s, w = 1, neg(v)
        if w.id < v.id: v, s = w, -1
        e = un("exp", u)
        return mul(e, mk("u", (v,), "R", "cos")), mul(const(s, "R"), e, mk("u", (v,), "R", "sin"))
    if t.op == "u" and t.val == "conj":
        x = ccart(t.args[0]); return x[0], neg(x[1])
    return mk("u2", (t, const(0)), "R", "re"), mk("u2", (t, const(0)), "R", "im")


def parts_zero(t):
    """complex identities by real and imaginary parts"""
    if not any(x.op in ("down", "u", "iu") for x in walk(t)): return None
    try:
        l = list(ccart(t)) if t.sort == "C" else [dec(t)]
        if os.environ.get("VERIF_FLAT"): print("PARTS", [[(c, show(k[2])) for k, c in _acc(x).items()][:3] for x in l])
        return all(isc(x, 0) or not _acc(x) for x in l)
    except Big: return None


def radix(t):
    """sum over v < M*N with a body using v div M and v mod M: two sums"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh("rx"); b = go(open_(x, v)); n = go(x.args[0]); r = None
            if x.op in ("sum", "prod", "all", "any"):
                for y in walk(b):
                    if y.op in ("mod", "fdiv") and y.args[0] is v:
                        M = y.args[1]; N = quotient(n, M)
                        if N is None: continue
                        q, s = fresh("rq"), fresh("rs")
                        b2 = replace(b, {mod(v, M).id: s, fdiv(v, M).id: q}); b2 = subst(b2, {v.val: add(mul(M, q), s)})
                        if M.op == "c":
                            parts = [subst(b2, {s.val: const(k)}) for k in range(int(M.val))]
                            r = {"sum": add, "prod": mul, "all": and_, "any": or_}[x.op](*parts); r = bind(x.op, q, N, r)
                        else: r = bind(x.op, q, N, bind(x.op, s, M, b2))
                        break
            if r is None: r = bind(x.op, v, n, b)
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


def quotient(n, M):
    if n is M: return const(1)
    if n.op != "mul": return None
    c, b = _split(n)
    if M.op == "c":
        return mul(const(c / M.val), b) if (c / M.val).denominator == 1 else None
    fs = list(n.args); mf = list(M.args) if M.op == "mul" else [M]
    for f in mf:
        k = next((i for i, g in enumerate(fs) if g is f), None)
        if k is None: return None
        fs.pop(k)
    return mul(*fs) if fs else const(1)


def replace(t, m):
    memo = {}

    def go(x):
        if x.id in m: return m[x.id]
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh(); r = bind(x.op, v, go(x.args[0]), replace(open_(x, v), m))
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)
