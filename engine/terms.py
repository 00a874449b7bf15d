"""Hash-consed scalar terms: the logic in which the real code's results and the contracts are expressed.

Sorts: 'I' mathematical integers, 'R' reals, 'C' complex numbers, 'B' booleans.  Floating point is treated as exact.
Binders (sum, prod, max, any, all, lam) bind one integer variable ranging over 0 <= v < n.  Bound variables are named by the
height of the body, so alpha-equivalent terms are the same object."""
from fractions import Fraction
import itertools
_table = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "val", "id", "height", "free", "__weakref__")

    def __repr__(self):
        return show(self)

    # python operators, for writing contracts
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __truediv__(s, o): return div(s, lift(o, s.sort))
    def __neg__(s): return neg(s)
    def __mod__(s, o): return mod(s, lift(o))
    def __floordiv__(s, o): return fdiv(s, lift(o))
    def __pow__(s, o): return power(s, o)
    def eq(s, o): return eq(s, lift(o, s.sort))
    def ne(s, o): return not_(eq(s, lift(o, s.sort)))
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __gt__(s, o): return lt(lift(o, s.sort), s)
    def __ge__(s, o): return le(lift(o, s.sort), s)
    def __bool__(s): raise TypeError("symbolic truth value: %r" % (s,))
    def __int__(s):
        if s.op == "c" and s.val.denominator == 1: return int(s.val)
        raise TypeError("symbolic integer")


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = T(); t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = next(_cnt)
        h = 0; fr = frozenset()
        for a in args:
            if a.height > h: h = a.height
            if a.free: fr = fr | a.free
        if op == "v":
            fr = frozenset([t.val])
        if op in BINDERS:
            h += 1
            fr = (args[1].free - {val}) | args[0].free
        t.height = h; t.free = fr
        _table[key] = t
    return t


BINDERS = {"sum", "prod", "max", "min", "any", "all", "lam"}
_ORD = {"B": 0, "I": 1, "R": 2, "C": 3}


def join(*ts):
    s = "I"
    for t in ts:
        if _ORD[t.sort] > _ORD[s]: s = t.sort
    return s


def const(v, sort=None):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, complex):
        re, im = const(v.real, "C"), const(v.imag, "C")
        return add(re, mul(im, IUNIT)) if v.imag else re
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("nan", (), sort or "R", repr(v))
        fr = Fraction(v)
        # decimal constants such as 0.1 stay what the machine uses
        return mk("c", (), sort or "R", fr)
    return mk("c", (), sort or "I", Fraction(v))


TRUE = mk("b", (), "B", True)
FALSE = mk("b", (), "B", False)
IUNIT = mk("iu", (), "C")


def lift(x, sort=None):
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return const(x, sort if sort in ("R", "C") else "I")
    return const(x, sort if sort in ("R", "C") else None)


def isc(t, v=None):
    return t.op == "c" and (v is None or t.val == v)


def var(name, sort="I"): return mk("v", (), sort, name)
_fresh = itertools.count()


def fresh(prefix="k", sort="I"): return var("%s!%d" % (prefix, next(_fresh)), sort)


def app(name, *args, sort="R"): return mk("f", [lift(a) for a in args], sort, name)


def retag(t, sort):
    """same value seen in a larger sort"""
    if t.sort == sort: return t
    if t.op == "c": return mk("c", (), sort, t.val)
    if t.op == "nan": return mk("nan", (), sort, t.val)
    if t.sort == "B": return ite(t, const(1, sort), const(0, sort))
    if _ORD[t.sort] > _ORD[sort]: return t
    return mk("up", (t,), sort) if t.op not in ("add", "mul", "pow", "ite", "sum", "prod", "up") else _retag2(t, sort)


def _retag2(t, sort):
    if t.op == "up": return retag(t.args[0], sort)
    if t.op == "add": return add(*[retag(a, sort) for a in t.args])
    if t.op == "mul": return mul(*[retag(a, sort) for a in t.args])
    if t.op == "pow": return power(retag(t.args[0], sort), t.val)
    if t.op == "ite": return ite(t.args[0], retag(t.args[1], sort), retag(t.args[2], sort))
    if t.op in ("sum", "prod"):
        v = fresh(); return bind(t.op, v, t.args[0], retag(open_(t, v), sort))
    raise AssertionError


def unify(ts):
    s = join(*ts)
    return [retag(t, s) for t in ts], s


def _split(t):
    """t = coef * base"""
    if t.op == "c": return t.val, None
    if t.op == "mul" and t.args[0].op == "c":
        r = t.args[1:]
        return t.args[0].val, (r[0] if len(r) == 1 else mk("mul", r, t.sort))
    return Fraction(1), t


def add(*ts):
    ts, s = unify(ts)
    d = {}; c0 = Fraction(0)
    st = list(ts)
    nn = [u for u in st if u.op == "nan"]
    if nn:
        if all(u.val == nn[0].val for u in nn) : return nn[0]
        return mk("nan", (), s, "nan")
    for t in st:
        for u in (t.args if t.op == "add" else (t,)):
            c, b = _split(u)
            if b is None: c0 += c
            else:
                d[b] = d.get(b, 0) + c
    items = sorted(((b.id, b, c) for b, c in d.items() if c != 0), key=lambda x: x[0])
    out = []
    if c0 != 0 or not items: out.append(mk("c", (), s, c0))
    for _, b, c in items:
        out.append(b if c == 1 else _cm(c, b))
    if len(out) == 1: return out[0]
    return mk("add", out, s)


def _cm(c, b):
    cc = mk("c", (), b.sort, Fraction(c))
    if b.op == "mul": return mk("mul", (cc,) + b.args, b.sort)
    return mk("mul", (cc, b), b.sort)


def neg(t): return mul(mk("c", (), t.sort if t.sort != "B" else "I", Fraction(-1)), t)
def sub(a, b): return add(a, neg(b))


def mul(*ts):
    ts, s = unify(ts)
    c = Fraction(1); d = {}; nn = []
    def put(b, e):
        d[b] = d.get(b, 0) + e
    for t in ts:
        for u in (t.args if t.op == "mul" else (t,)):
            if u.op == "nan": nn.append(u); continue
            if u.op == "c": c *= u.val
            elif u.op == "pow": put(u.args[0], u.val)
            else: put(u, 1)
    if nn:
        if len(nn) == 1 and c != 0 and nn[0].val in ("inf", "-inf") and all(positive(b) for b in d):
            return nn[0] if c > 0 else mk("nan", (), s, {"inf": "-inf", "-inf": "inf"}[nn[0].val])
        return mk("nan", (), s, "nan")
    if c == 0: return mk("c", (), s, Fraction(0))
    if IUNIT in d:
        e = d.pop(IUNIT) % 4
        if e in (2, 3): c = -c
        if e in (1, 3): d[IUNIT] = 1
    items = []
    for b, e in d.items():
        if b.op == "ite" and e in (1, -1) and b.args[0].op == "eq" and isc(b.args[1], 1):
            # |z| * (1 if |z| = 0 else 1/|z|) * z = z
            a = b.args[0].args[0]; a = a.args[0] if a.op == "up" else a
            if a.op == "u" and a.val == "abs":
                A = retag(a, s); z = a.args[0]
                if d.get(A, 0) >= 1 and b.args[2] is power(A, -e) and any(d.get(w, 0) >= 1 for x in (z, neg(z)) for w in (x, conj(x))):
                    return mul(mk("c", (), s, c), power(A, d[A] - 1), *[power(bb, ee) for bb, ee in d.items() if bb is not b and bb is not A])
        if e == 0: continue
        if b.op == "u" and b.val == "abs" and e % 2 == 0:
            x = b.args[0]
            return mul(mk("c", (), s, c), *([power(bb, ee) for bb, ee in d.items() if bb is not b] + [power(mul(x, conj(x)), e // 2)]))
        r = b.args[0] if b.op == "up" else b
        if r.op == "u" and r.val == "sqrt" and e % 2 == 0:
            return mul(mk("c", (), s, c), *([power(bb, ee) for bb, ee in d.items() if bb is not b] + [power(retag(r.args[0], s), e // 2)]))
        items.append((b.id, b, e))
    items.sort(key=lambda x: x[0])
    out = [b if e == 1 else mk("pow", (b,), s, e) for _, b, e in items]
    if not out: return mk("c", (), s, c)
    if c == 1: return out[0] if len(out) == 1 else mk("mul", out, s)
    if len(out) == 1 and out[0].op == "add":  # distribute a constant over a sum
        return add(*[mul(mk("c", (), s, c), a) for a in out[0].args])
    return mk("mul", [mk("c", (), s, c)] + out, s)


def power(t, n):
    if isinstance(n, T):
        n = int(n)
    if n == 0: return const(1, t.sort)
    if n == 1: return t
    if t.op == "c":
        if t.val == 0 and n < 0: return mk("nan", (), t.sort, "div0")
        return mk("c", (), t.sort if n > 0 else join(t, const(0, "R")), t.val ** n)
    if t.op == "mul": return mul(*[power(a, n) for a in t.args])
    if t.op == "pow": return mul(mk("pow", (t.args[0],), t.sort, t.val * n)) if t.val * n != 1 else t.args[0]
    return mul(mk("pow", (t,), t.sort, n))


def div(a, b):
    (a, b), s = unify([a, b])
    if s == "I": a, b = retag(a, "R"), retag(b, "R")
    return mul(a, power(b, -1))


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b: return TRUE
        if a.op == "b": return b if a.val else not_(b)
        if b.op == "b": return a if b.val else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    if d.op == "c": return TRUE if d.val == 0 else FALSE
    if d.op == "nan": return mk("eq", (d, const(0)), "B")
    # a two-valued choice compared with a constant is its condition
    k, i = (d.args[0].val, d.args[1]) if d.op == "add" and len(d.args) == 2 and d.args[0].op == "c" else (0, d)
    f, i = _split(i)
    if i is not None and i.op == "ite" and i.args[1].op == "c" and i.args[2].op == "c":
        p, q = (k + f * x.val == 0 for x in i.args[1:])
        return TRUE if p and q else FALSE if not (p or q) else i.args[0] if p else not_(i.args[0])
    if d.sort == "R":
        i = intify(d)
        if i is not None: return eq(i, const(0))
    # sign-normalise
    lead = d.args[0] if d.op == "add" else d
    if lead.op == "c" and d.op == "add": lead = d.args[1]
    c, _ = _split(lead)
    if c < 0: d = neg(d)
    if d.sort == "I" and d.op in ("add", "mul"):
        # gcd test
        import math
        cs = [_split(x) for x in (d.args if d.op == "add" else (d,))]
        g = 0
        for c, b in cs:
            if b is not None: g = math.gcd(g, abs(int(c)))
        k = sum(int(c) for c, b in cs if b is None)
        if g > 1 and k % g: return FALSE
        if g > 1: d = add(*[mul(const(Fraction(c, g), "I"), b) if b is not None else const(Fraction(c, g), "I") for c, b in cs])
    return mk("eq", (d, const(0, d.sort)), "B")


def real_as_int(t):
    """an integer-valued real written with integer pieces"""
    if t.op == "c": return const(int(t.val)) if t.val.denominator == 1 else None
    if t.op == "up" and t.args[0].sort == "I": return t.args[0]
    if t.op in ("add", "mul"):
        l = [real_as_int(a) for a in t.args]
        if any(x is None for x in l):
            return None
        return (add if t.op == "add" else mul)(*l)
    if t.op == "ite":
        a, b = real_as_int(t.args[1]), real_as_int(t.args[2])
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    if t.op == "sum":
        v = fresh(); b = real_as_int(open_(t, v))
        return bind("sum", v, t.args[0], b) if b is not None else None
    return None


def intify(d):
    """a real-sorted term with integer pieces, scaled by a positive constant, as an integer; or None"""
    if d.sort != "R": return None
    import math
    l = 1
    for a in (d.args if d.op == "add" else (d,)):
        l = math.lcm(l, _split(a)[0].denominator)
    if l > 64: return None
    return real_as_int(mul(const(l, "R"), d) if l > 1 else d)


def positive(t, strict=True):
    """syntactically positive (or non-negative)"""
    o = t.op
    if t.sort == "C" and o != "up": return False
    if o == "c": return t.val > 0 if strict else t.val >= 0
    if o == "up": return positive(t.args[0], strict)
    if o == "u":
        if t.val == "exp": return t.sort == "R"
        if t.val == "abs": return not strict
        if t.val == "sqrt": return positive(t.args[0], strict)
        return False
    if o == "mul": return all(positive(a, strict) for a in t.args)
    if o == "add": return all(positive(a, False) for a in t.args) and (not strict or any(positive(a, True) for a in t.args))
    if o == "pow": return positive(t.args[0], strict or t.val < 0) or (t.val % 2 == 0 and not strict and t.sort in ("R", "I"))
    if o == "ite": return positive(t.args[1], strict) and positive(t.args[2], strict)
    if o == "prod": return positive(t.args[1], strict)
    if o == "sum": return not strict and positive(t.args[1], False)
    if o == "upow": return positive(t.args[0], strict)
    return False


def lt(a, b):
    if a.sort == "I" and b.sort == "I": return le(add(a, const(1)), b)
    d = sub(a, b)
    if d.op == "nan": return TRUE if d.val == "-inf" else FALSE
    if d.sort == "R":
        if positive(d, False): return FALSE
        if positive(neg(d), True): return TRUE
        i = intify(d)
        if i is not None: return lt(i, const(0))
    if d.op == "c": return TRUE if d.val < 0 else FALSE
    return mk("lt", (d, const(0, d.sort)), "B")


def le(a, b):
    d = sub(a, b)
    if d.op == "nan": return TRUE if d.val == "-inf" else FALSE
    if d.sort == "R":
        if positive(d, True): return FALSE
        if positive(neg(d), False): return TRUE
        i = intify(d)
        if i is not None: return le(i, const(0))
    if d.op == "c": return TRUE if d.val <= 0 else FALSE
    if d.sort == "I" and d.op in ("add", "mul"):
        import math
        cs = [_split(x) for x in (d.args if d.op == "add" else (d,))]
        g = 0
        for c, b_ in cs:
            if b_ is not None: g = math.gcd(g, abs(int(c)))
        if g > 1:
            k = sum(int(c) for c, b_ in cs if b_ is None)
            return le(add(*[mul(const(Fraction(c, g), "I"), b_) for c, b_ in cs if b_ is not None]), const((-k) // g))
    return mk("le", (d, const(0, d.sort)), "B")


def not_(a):
    if a.op == "b": return FALSE if a.val else TRUE
    if a.op == "not": return a.args[0]
    if a.op == "le" and a.args[0].sort == "I": return le(add(neg(a.args[0]), const(1)), const(0))
    if a.op == "le": return mk("lt", (neg(a.args[0]), a.args[1]), "B")
    if a.op == "lt": return mk("le", (neg(a.args[0]), a.args[1]), "B")
    if a.op == "ite": return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", (a,), "B")


def and_(*ts):
    out = {}
    for t in ts:
        for u in (t.args if t.op == "and" else (t,)):
            if u is TRUE: continue
            if u is FALSE: return FALSE
            out[u.id] = u
    for u in list(out.values()):
        if not_(u).id in out: return FALSE
    if not out: return TRUE
    l = [out[k] for k in sorted(out)]
    return l[0] if len(l) == 1 else mk("and", l, "B")


def or_(*ts): 
    out = {}
    for t in ts:
        for u in (t.args if t.op == "or" else (t,)):
            if u is FALSE: continue
            if u is TRUE: return TRUE
            out[u.id] = u
    for u in list(out.values()):
        if not_(u).id in out: return TRUE
    if not out: return FALSE
    l = [out[k] for k in sorted(out)]
    return l[0] if len(l) == 1 else mk("or", l, "B")


def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B" or b.sort == "B":
        if a.sort != "B": a = not_(eq(a, const(0)))
        if b.sort != "B": b = not_(eq(b, const(0)))
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    (a, b), s = unify([a, b])
    if a is b: return a
    if c.op == "not": c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), s)


FLIP2 = False         # (1 + a) mod 2 -> 1 - a mod 2 (contracts that compare parities switch this on)


def mod(a, n):
    if a.op == "c" and n.op == "c": return const(int(a.val) % int(n.val))
    if n.op == "c" and n.val == 1: return const(0)
    if n.op == "c":
        m = int(n.val)
        l, sumsort = (a.args if a.op == "add" else (a,)), "I"
        out = []; ch = False
        for u in l:
            c, b = _split(u)
            r = c % m
            if r != c: ch = True
            if r: out.append(mul(const(r), b) if b is not None else const(r))
        if ch:
            return mod(add(*out) if out else const(0), n)
        if FLIP2 and m == 2 and len(l) > 1 and any(isc(u, 1) for u in l): return sub(const(1), mod(add(*[u for u in l if not isc(u, 1)]), n))
    return mk("mod", (a, n), "I")


def fdiv(a, n):
    if a.op == "c" and n.op == "c": return const(int(a.val) // int(n.val))
    if n.op == "c" and n.val == 1: return a
    if n.op == "c" and n.val > 1:
        m = int(n.val); inn, out = [], []
        for u in (a.args if a.op == "add" else (a,)):
            c, b = _split(u)
            if b is not None and c % m == 0: out.append(mul(const(c // m), b))
            elif b is None and (c >= m or c < 0): out.append(const(int(c) // m)); inn.append(const(int(c) % m))
            else: inn.append(u)
        if out: return add(*out, fdiv(add(*inn) if inn else const(0), n))
    return mk("fdiv", (a, n), "I")


def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(a, b), b, a)


def band(a, b):
    """bitwise and of non-negative integers"""
    if a.op == "c" and b.op == "c": return const(int(a.val) & int(b.val))
    if a.op == "c": a, b = b, a
    if b.op == "c":
        m = int(b.val)
        if m == 0: return const(0)
        if m & (m + 1) == 0 and m < (1 << 62): return mod(a, const(m + 1))
        out = []
        k = 0
        while m >> k:
            if (m >> k) & 1: out.append(mul(const(1 << k), mod(fdiv(a, const(1 << k)), const(2))))
            k += 1
        return add(*out)
    return mk("u2", (a, b), "I", "band")


# ---------------------------------------------------------------- unary functions
def conj(t):
    if t.sort in ("I", "R", "B"): return t
    if t.op in ("c", "up", "nan"): return t
    if t is IUNIT: return neg(t)
    if t.op == "add": return add(*[conj(a) for a in t.args])
    if t.op == "mul": return mul(*[conj(a) for a in t.args])
    if t.op == "pow": return power(conj(t.args[0]), t.val)
    if t.op == "ite": return ite(t.args[0], conj(t.args[1]), conj(t.args[2]))
    if t.op in ("sum", "prod"):
        v = fresh(); return bind(t.op, v, t.args[0], conj(open_(t, v)))
    if t.op == "u" and t.val == "conj": return t.args[0]
    if t.op == "u" and t.val in ("exp", "log", "cosh", "sinh"): return un(t.val, conj(t.args[0]))
    return mk("u", (t,), "C", "conj")


_cart = {}


def cart(t):
    """(re, im) of a complex-sorted term built from real pieces and the imaginary unit; None otherwise"""
    if t.sort != "C": return t, const(0, "R")
    if t.id in _cart: return _cart[t.id][1]
    r = _cart0(t); _cart[t.id] = (t, r); return r


def _cart0(t):
    z = const(0, "R")
    if t is IUNIT: return z, const(1, "R")
    if t.op == "add":
        l = [cart(a) for a in t.args]
        return None if None in l else (add(*[a for a, b in l]), add(*[b for a, b in l]))
    if t.op == "mul":
        re, im = const(1, "R"), z
        for a in t.args:
            c = cart(a)
            if c is None: return None
            re, im = sub(mul(re, c[0]), mul(im, c[1])), add(mul(re, c[1]), mul(im, c[0]))
        return re, im
    if t.op == "ite":
        x, y = cart(t.args[1]), cart(t.args[2])
        return None if x is None or y is None else (ite(t.args[0], x[0], y[0]), ite(t.args[0], x[1], y[1]))
    if t.op == "sum":
        v = fresh(); x = cart(open_(t, v))
        return None if x is None else tuple(bind("sum", v, t.args[0], y) for y in x)
    if t.op == "pow":
        x = cart(t.args[0])
        if x is not None and isc(x[1], 0): return power(x[0], t.val), z
        if x is not None and t.val == 2: return sub(mul(x[0], x[0]), mul(x[1], x[1])), mul(const(2, "R"), x[0], x[1])
        return None
    r = rpart(t)
    return None if r is None else (r, z)


def real(t):
    if t.sort != "C": return t
    c = cart(t)
    if c is not None: return c[0]
    return down(mul(const(Fraction(1, 2), "C"), add(t, conj(t))))


def imag(t):
    if t.sort != "C": return const(0, "R")
    c = cart(t)
    if c is not None: return c[1]
    return down(mul(mul(const(Fraction(-1, 2), "C"), IUNIT), sub(t, conj(t))))


def down(t):
    """a complex term that is real-valued, seen as a real"""
    if t.op == "c": return mk("c", (), "R", t.val)
    if t.op == "up": return t.args[0] if t.args[0].sort != "I" else retag(t.args[0], "R")
    if t.op == "nan": return mk("nan", (), "R", t.val)
    if t.op == "ite": return ite(t.args[0], down(t.args[1]), down(t.args[2]))
    r = rpart(t)
    if r is not None: return r
    r = cart(t)
    if r is not None: return r[0]
    if t.op == "add":
        out, rest = [], {}
        for a in t.args:
            r = rpart(a)
            if r is not None: out.append(r)
            else:
                c, b = _split(a); rest[b] = c
        left = []
        while rest:
            b, c = rest.popitem()
            cb = conj(b)
            cc, cbb = _split(cb)
            if cb is not b and cbb in rest and rest[cbb] == c * cc and cc in (1, -1):
                rest.pop(cbb)
                out.append(mul(const(c, "R"), _repair(b, cb)))
            else: left.append(_cm(c, b) if c != 1 else b)
        if out: return add(*(out + ([mk("down", (add(*left),), "R")] if left else [])))
    c, b = _split(t)
    if b is not None and c != 1: return mul(const(c, "R"), down(b))
    return mk("down", (t,), "R")


def _repair(b, cb):
    """b + conj(b) as a real"""
    if b.op == "sum":
        v = fresh(); x = open_(b, v)
        return bind("sum", v, b.args[0], down(add(x, conj(x))))
    if b.op == "ite": return ite(b.args[0], down(add(b.args[1], conj(b.args[1]))), down(add(b.args[2], conj(b.args[2]))))
    if b.op == "mul":
        re = [(a, rpart(a)) for a in b.args]
        if any(r is not None for a, r in re):
            x = mul(*[a for a, r in re if r is None])
            return mul(*([r for a, r in re if r is not None] + [down(add(x, conj(x)))]))
    return mk("down", (add(b, cb),), "R")


def rpart(t):
    """a complex-sorted term built from real pieces, as a real"""
    if t.op == "c": return mk("c", (), "R", t.val)
    if t.op == "up": return t.args[0] if t.args[0].sort != "I" else retag(t.args[0], "R")
    if t.op == "mul":
        l = [rpart(a) for a in t.args]
        return None if any(x is None for x in l) else mul(*l)
    if t.op == "pow":
        x = rpart(t.args[0]); return None if x is None else power(x, t.val)
    if t.op in ("sum", "prod"):
        v = fresh(); x = rpart(open_(t, v))
        return None if x is None else bind(t.op, v, t.args[0], x)
    if t.op == "ite":
        x, y = rpart(t.args[1]), rpart(t.args[2])
        return None if x is None or y is None else ite(t.args[0], x, y)
    if t.op == "add":
        l = [rpart(a) for a in t.args]
        return None if any(x is None for x in l) else add(*l)
    if t.op == "nan": return mk("nan", (), "R", t.val)
    return None


def const_leaves(t):
    return t.op == "c" or (t.op == "ite" and const_leaves(t.args[1]) and const_leaves(t.args[2]))


def rlog(b):
    """X if b is log X of a real X"""
    if b.op == "up": return rlog(b.args[0])
    if b.op == "u" and b.val == "log" and b.sort == "R": return b.args[0]
    return None


def real_exponent(a):
    """r if a is exp(r) for a real r"""
    k = 1
    if a.op == "pow" and isinstance(a.val, int): k, a = a.val, a.args[0]
    if a.op == "up" and a.sort == "C": a = a.args[0]
    if a.op == "pow" and isinstance(a.val, int): k, a = k * a.val, a.args[0]
    if a.op == "u" and a.val == "exp" and a.sort == "R": return mul(const(k, "R"), a.args[0])
    return None


def un(name, t):
    if name == "conj": return conj(t)
    s = "C" if t.sort == "C" else "R"
    if t.sort in ("I", "B"): t = retag(t, "R")
    if name == "exp":
        if isc(t, 0): return const(1, s)
        if t.op == "add": return mul(*[un("exp", a) for a in t.args])
        c, b = _split(t)
        if b is not None and c != 1 and c.denominator == 1: return power(un("exp", b), int(c))
        if b is not None and c.numerator != 1: return power(un("exp", mul(const(Fraction(1, c.denominator), t.sort), b)), int(c.numerator))
        if b is not None and c == Fraction(1, 2) and rlog(b) is not None: return retag(un("sqrt", rlog(b)), s)
        if b is not None and c == 1 and t.op == "up" and rlog(b) is not None: return retag(rlog(b), s)
        if b is not None and c != 1 and b.op == "sum":
            v = fresh(); return bind("prod", v, b.args[0], un("exp", mul(const(c, t.sort), open_(b, v))))
        if b is not None and c != 1 and b.op == "up" and t.sort == "C": return retag(un("exp", mul(const(c, "R"), retag(b.args[0], "R"))), "C")
        if b is not None and c != 1 and b.op == "ite": return ite(b.args[0], un("exp", mul(const(c, t.sort), b.args[1])), un("exp", mul(const(c, t.sort), b.args[2])))
        if t.op == "u" and t.val == "log": return t.args[0]
        if t.op == "ite": return ite(t.args[0], un("exp", t.args[1]), un("exp", t.args[2]))
        if t.op == "sum":
            v = fresh(); return bind("prod", v, t.args[0], un("exp", open_(t, v)))
        if t.op == "up": return retag(un("exp", t.args[0]), "C")
    if t.op == "nan":
        if name == "exp" and t.val == "-inf": return const(0, s)
        return mk("nan", (), s, t.val if name in ("exp", "log", "sqrt") else "nan")
    if name == "log" and isc(t, 1): return const(0, s)
    if name == "log" and isc(t, 0): return mk("nan", (), s, "-inf")
    if name == "log" and t.op == "mul":
        out, rest = [], []
        for a in t.args:
            r = real_exponent(a)
            if r is None: rest.append(a)
            else: out.append(retag(r, s))
        if out: return add(*out, un("log", mul(const(1, t.sort), *rest)))
    if name == "log" and t.op == "add":
        fs = [{f.id: f for f in (a.args if a.op == "mul" else (a,)) if real_exponent(f) is not None} for a in t.args]
        com = [f for k, f in fs[0].items() if all(k in g for g in fs)]
        if com:
            k = [power(f, -1) for f in com]
            return add(*[retag(real_exponent(f), s) for f in com], un("log", add(*[mul(a, *k) for a in t.args])))
    if name == "log" and t.op == "ite" and const_leaves(t): return ite(t.args[0], un("log", t.args[1]), un("log", t.args[2]))
    if name == "sign" and t.sort == "R":
        if positive(t): return const(1, "R")
        if isc(t, 0): return t
    if name == "sqrt":
        if isc(t, 0) or isc(t, 1): return t
    if name == "abs":
        s = "R"
        if t.op == "c": return mk("c", (), "R", abs(t.val))
        if t.sort == "R" and positive(t, False): return t
        if t.op == "u" and t.val == "abs": return t
        if t.op == "mul": 
            return mul(*[un("abs", a) for a in t.args])
        if t.op == "pow": return power(un("abs", t.args[0]), t.val)
        if t is IUNIT: return const(1, "R")
        if t.op == "u" and t.val == "exp": return un("exp", real(t.args[0]))
        if t.op == "ite": return ite(t.args[0], un("abs", t.args[1]), un("abs", t.args[2]))
        if t.op == "down" or (t.op == "up" and t.args[0].sort != "I"): return un("abs", t.args[0])
        if t.op == "up" and t.sort == "C": return un("abs", retag(t.args[0], "R"))
    return mk("u", (t,), s, name)


# ---------------------------------------------------------------- binders
def bind(kind, v, n, body):
    n = lift(n)
    if n.op == "c" and int(n.val) <= UNROLL and kind != "lam":
        vals = [subst(body, {v.val: const(i)}) for i in range(int(n.val))]
        if kind == "sum": return add(*vals) if vals else const(0, body.sort)
        if kind == "prod": return mul(*vals) if vals else const(1, body.sort)
        if kind == "any": return or_(*vals)
        if kind == "all": return and_(*vals)
        if kind in ("max", "min") and vals:
            r = vals[0]
            for x in vals[1:]:
                r = ite(le(r, x), x, r) if kind == "max" else ite(le(x, r), x, r)
            return r
    if v.val not in body.free:
        if kind == "sum": return mul(n, body)
        if kind == "prod" and isc(body, 1): return body
    if kind == "sum":
        if body.op == "add": return add(*[bind("sum", v, n, a) for a in body.args])
        if body.op == "mul":
            out = [a for a in body.args if v.val not in a.free]
            if out:
                inn = [a for a in body.args if v.val in a.free]
                return mul(*(out + [bind("sum", v, n, mul(*inn))]))
        if body.op == "ite" and isc(body.args[2], 0) and body.args[1].op in ("add",):
            return add(*[bind("sum", v, n, ite(body.args[0], a, const(0, a.sort))) for a in body.args[1].args])
        if body.sort == "I" and body.op == "ite" and v.val in body.args[0].free:
            # counting sums: split the guarded body and take factors free of v out of the guard
            c, x, y = body.args
            if isc(x, 0): c, x, y = not_(c), y, x
            if isc(y, 0):
                if x.op == "add": return add(*[bind("sum", v, n, ite(c, a, y)) for a in x.args])
                fs = x.args if x.op == "mul" else (x,)
                out = [a for a in fs if v.val not in a.free and not isc(a, 1)]
                if out: return mul(*(out + [bind("sum", v, n, ite(c, mul(const(1), *[a for a in fs if v.val in a.free]), y))]))
    if kind == "prod":
        if body.op == "mul":
            return mul(*[bind("prod", v, n, a) for a in body.args])
        if body.op == "pow" and v.val in body.free:
            return power(bind("prod", v, n, body.args[0]), body.val)
        if v.val not in body.free:
            return mk("upow", (body, n), body.sort)
    s = body.sort if kind not in ("any", "all") else "B"
    if kind == "lam": s = "L" + body.sort
    h = body.height
    name = "b%d" % (h + 1)
    b2 = subst(body, {v.val: var(name)})
    return mk(kind, (n, b2), s, name)


UNROLL = 6


def open_(t, v):
    return subst(t.args[1], {t.val: v})


def rebuild(t, args):
    o = t.op
    if o == "add": return add(*args)
    if o == "mul": return mul(*args)
    if o == "pow": return power(args[0], t.val)
    if o == "eq": return eq(*args)
    if o == "le": return le(*args)
    if o == "lt": return lt(*args)
    if o == "and": return and_(*args)
    if o == "or": return or_(*args)
    if o == "not": return not_(*args)
    if o == "ite": return ite(*args)
    if o == "mod": return mod(*args)
    if o == "fdiv": return fdiv(*args)
    if o == "up": return retag(args[0], t.sort)
    if o == "down": return down(args[0])
    if o == "u" and t.val == "trunc" and t.sort == "I":
        a = args[0]
        if a.op == "c": return const(int(a.val))
        if a.op == "up" and a.args[0].sort == "I": return a.args[0]
        return mk("u", (a,), "I", "trunc")
    if o == "u": return un(t.val, args[0])
    if o == "u2" and t.val == "band": return band(*args)
    return mk(o, args, t.sort, t.val)


def subst(t, m):
    if not m: return t
    memo = {}
    keys = frozenset(m)

    def go(t):
        if not (t.free & keys): return t
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == "v":
            r = m[t.val]
        elif t.op in BINDERS:
            v = fresh()
            r = bind(t.op, v, go(t.args[0]), subst(open_(t, v), m)) if True else None
        else:
            r = rebuild(t, [go(a) for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def show(t, d=0):
    if d > 14: return "..."
    f = lambda x: show(x, d + 1)
    o = t.op
    if o == "c": return str(t.val)
    if o in ("b", "nan"): return str(t.val)
    if o == "iu": return "i"
    if o == "v": return t.val
    if o in ("f", "G"): return "%s(%s)" % (t.val, ",".join(f(a) for a in t.args))
    if o == "add": return "(" + " + ".join(f(a) for a in t.args) + ")"
    if o == "mul": return "*".join(f(a) for a in t.args)
    if o == "pow": return "%s^%s" % (f(t.args[0]), t.val)
    if o == "eq": return "(%s == 0)" % f(t.args[0])
    if o == "le": return "(%s <= 0)" % f(t.args[0])
    if o == "lt": return "(%s < 0)" % f(t.args[0])
    if o == "ite": return "ite(%s, %s, %s)" % tuple(f(a) for a in t.args)
    if o in BINDERS: return "%s[%s<%s](%s)" % (o, t.val, f(t.args[0]), f(t.args[1]))
    if o in ("u", "u2"): return "%s(%s)" % (t.val, ",".join(f(a) for a in t.args))
    return "%s(%s)" % (o, ",".join(f(a) for a in t.args))
