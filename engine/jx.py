"""Symbolic evaluation of jaxprs: the jaxpr is what JAX itself extracts from the real repository function (jax.make_jaxpr on
the function imported from /repo) with symbolic dimensions; every array becomes an element function idx -> term."""
import sys, itertools
import numpy as np
import jax, jax.numpy as jnp
from jax import export
from jax._src import core as jcore
from jax._src.export import shape_poly
from .terms import *
from . import terms as Tm


class Unsupported(Exception):
    pass


class Arr:
    """shape: tuple of integer terms; el: idx tuple -> term"""
    __slots__ = ("shape", "sort", "_el", "memo", "dtype", "tag")

    def __init__(self, shape, sort, el, dtype=None, tag=None):
        self.shape = tuple(lift(s) for s in shape); self.sort = sort; self._el = el; self.memo = {}; self.dtype = dtype; self.tag = tag

    def __call__(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
        idx = tuple(lift(i) for i in idx)
        if len(idx) != len(self.shape): raise Unsupported("rank %d indexed by %d" % (len(self.shape), len(idx)))
        k = tuple(i.id for i in idx)
        r = self.memo.get(k)
        if r is None:
            r = lift(self._el(*idx))
            if r.sort != self.sort: r = coerce(r, self.sort)
            self.memo[k] = r
        return r

    @property
    def ndim(self): return len(self.shape)


def coerce(t, s):
    if t.sort == s: return t
    if s == "B": return not_(eq(t, const(0, t.sort)))
    if s == "I":
        if t.sort == "B": return ite(t, const(1), const(0))
        if t.op == "c" and t.val.denominator == 1: return const(int(t.val))
        if t.op == "up": return coerce(t.args[0], "I")
        if t.op == "ite": return ite(t.args[0], coerce(t.args[1], "I"), coerce(t.args[2], "I"))
        r = real_as_int(t)
        if r is not None: return r
        return mk("u", (t,), "I", "trunc")
    if s == "R" and t.sort == "C": return real(t)
    return retag(t, s)


def sort_of(dtype):
    if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key): return "K"
    k = np.dtype(dtype).kind
    return {"b": "B", "i": "I", "u": "I", "f": "R", "c": "C", "V": "R"}[k]


def dim(d):
    """a jax dimension expression as a term"""
    if isinstance(d, T): return d
    if isinstance(d, (int, np.integer)): return const(int(d))
    if isinstance(d, shape_poly._DimExpr):
        out = const(0)
        for term, c in d._sorted_terms:
            p = const(int(c))
            for f, e in term._factors: p = mul(p, power(factor(f), int(e)))
            out = add(out, p)
        return out
    raise Unsupported("dimension %r" % (d,))


def factor(f):
    v = f.to_var()
    if v is not None: return var(v)
    ops = [dim(o) for o in f.operands]
    n = str(f.operation)
    if "floordiv" in n: return fdiv(*ops)
    if "mod" in n: return mod(*ops)
    if "max" in n: return tmax(*ops)
    if "min" in n: return tmin(*ops)
    raise Unsupported("dim op " + n)


def shp(s): return tuple(dim(d) for d in s)


def concrete_arr(x):
    x = np.asarray(x)
    s = sort_of(x.dtype)

    def el(*idx):
        if all(i.op == "c" for i in idx): return const_np(x[tuple(int(i) for i in idx)], s)
        if x.size == 1: return const_np(x.reshape(-1)[0], s)
        # a table look-up: nested cases over the symbolic positions
        if x.size > 4096: raise Unsupported("large constant table")
        return table(x, list(idx), s)
    return Arr(x.shape, s, el, x.dtype)


def table(x, idx, s):
    if not idx: return const_np(x, s)
    i = idx[0]
    if i.op == "c": return table(x[int(i)], idx[1:], s)
    r = table(x[-1], idx[1:], s)
    # affine?
    if x.ndim == 1 and s == "I" and len(x) > 1 and np.all(np.diff(x) == x[1] - x[0]):
        return add(const(int(x[0])), mul(const(int(x[1]) - int(x[0])), i))
    for k in range(len(x) - 2, -1, -1):
        r = ite(eq(i, const(k)), table(x[k], idx[1:], s), r)
    return r


def const_np(v, s):
    if s == "B": return TRUE if v else FALSE
    if s == "I": return const(int(v))
    if s == "R": return const(float(v), "R")
    return const(complex(v), "C") if complex(v).imag else const(float(np.real(v)), "C")


def scalar(t): return Arr((), t.sort, lambda: t)


# ------------------------------------------------------------------------------------------------ uninterpreted primitives
from jax.extend import core as jexcore
from jax.interpreters import batching, mlir

OPAQUE = {}


def opaque_row(name, sort="C", n_axes=1, impl=None, n_in=1):
    """a JAX primitive for an unknown function of the trailing n_axes axes of its first argument (batched over the others)"""
    if name in OPAQUE: return OPAQUE[name]
    p = jexcore.Primitive("opaque_" + name)
    dt = {"C": jnp.complex128, "R": jnp.float64, "I": jnp.int64, "B": jnp.bool_}[sort]

    @p.def_abstract_eval
    def ab(x):
        return jcore.ShapedArray(x.shape[:len(x.shape) - n_axes], dt)

    def batch(args, dims):
        x, = args; d, = dims
        return p.bind(batching.moveaxis(x, d, 0)), 0
    batching.primitive_batchers[p] = batch

    def rule(ev, e, x):
        k = x.ndim - n_axes

        def el(*idx):
            vs = [fresh("g") for _ in range(n_axes)]
            t = x(*idx, *vs)
            for v, n in zip(reversed(vs), reversed(x.shape[k:])): t = bind("lam", v, n, t)
            return mk("f", (t,), sort, name)
        return Arr(x.shape[:k], sort, el, dt)
    RULES["opaque_" + name] = rule
    if impl is not None:
        @p.def_impl
        def _impl(x): return jnp.asarray(impl(np.asarray(x)), dtype=dt)

        def call(x): return jax.pure_callback(lambda y: np.asarray(impl(np.asarray(y)), dtype=dt), jax.ShapeDtypeStruct(x.shape[:len(x.shape) - n_axes], dt), x)
        mlir.register_lowering(p, mlir.lower_fun(call, multiple_results=False))
    f = lambda x: p.bind(x)
    OPAQUE[name] = f
    return f


# ------------------------------------------------------------------------------------------------ evaluator
RULES = {}


def rule(*names):
    def d(f):
        for n in names: RULES[n] = f
        return f
    return d


class Ev:
    def __init__(self, side=None, opaque_pjit=(), loops=None):
        self.side = side if side is not None else []     # (kind, condition) well-definedness conditions met on the way
        self.opaque_pjit = {} if not opaque_pjit else dict(opaque_pjit)
        self.prims = {}
        self.loops = loops or {}
        self.rand = []
        self.inv_done = set(); self.loop_obl = []; self.cur_inv = None
        self.invariants = []       # loop contracts, taken in the order in which symbolic loops with carries are met
        self.dens = []

    def take_inv(self, e, nk):
        for i, (m, inv) in enumerate(self.invariants):
            if m(e, nk): return inv
        return None

    def jaxpr(self, jaxpr, consts, args):
        env = {}

        def rd(v):
            if isinstance(v, jcore.Literal):
                x = v.val
                return concrete_arr(np.asarray(x, dtype=v.aval.dtype)) if not isinstance(x, Arr) else x
            return env[v]
        for v, a in zip(jaxpr.constvars, consts): env[v] = a
        for v, a in zip(jaxpr.invars, args): env[v] = a
        for e in jaxpr.eqns:
            ins = [rd(v) for v in e.invars]
            outs = self.eqn(e, ins)
            for v, o in zip(e.outvars, outs): env[v] = o
        return [rd(v) for v in jaxpr.outvars]

    def closed(self, cj, args):
        return self.jaxpr(cj.jaxpr, [concrete_arr(c) if not isinstance(c, Arr) else c for c in cj.consts], args)

    def eqn(self, e, ins):
        n = e.primitive.name
        self.prims[n] = self.prims.get(n, 0) + 1
        r = RULES.get(n)
        if r is None: raise Unsupported("primitive " + n)
        out = r(self, e, *ins)
        outs = out if isinstance(out, list) else [out]
        for o, v in zip(outs, e.outvars):
            if o.dtype is None and hasattr(v.aval, "dtype"): o.dtype = v.aval.dtype
        return outs


def aval_shape(v): return shp(v.aval.shape)


# ---- calls
@rule("pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "remat", "checkpoint", "custom_lin")
def r_call(ev, e, *ins):
    p = e.params
    if e.primitive.name == "pjit" and p.get("name") in ev.opaque_pjit:
        return ev.opaque_pjit[p["name"]](ev, e, *ins)
    j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
    if hasattr(j, "jaxpr"): return ev.closed(j, list(ins))
    return ev.jaxpr(j, [], list(ins))


# ---- elementwise
def at1(a, idx, shape):
    """element of an operand, axes of length one being broadcast"""
    if not a.ndim: return a()
    if len(a.shape) != len(idx): return a(*idx)
    return a(*[const(0) if isc(n, 1) and not isc(m, 1) else i for n, m, i in zip(a.shape, shape, idx)])


def ew(ev, e, ins, f, sort=None):
    s = sort or sort_of(e.outvars[0].aval.dtype)
    shape = aval_shape(e.outvars[0])

    def el(*idx):
        return f(*[at1(a, idx, shape) for a in ins])
    return Arr(shape, s, el, e.outvars[0].aval.dtype)


def wrapu(t, dtype):
    """unsigned machine integers wrap around"""
    dt = np.dtype(dtype)
    if dt.kind != "u" or dt.itemsize > 2: return t
    m = const(256 ** dt.itemsize)
    if t.op == "c": return const(int(t.val) % int(m.val))
    return mod(t, m)


def E(name, f, sort=None):
    @rule(name)
    def r(ev, e, *ins): return ew(ev, e, ins, f, sort)


def _arith(f):
    def r(ev, e, *ins):
        dt = e.outvars[0].aval.dtype
        if np.dtype(dt).kind == "u": return ew(ev, e, ins, lambda *a: wrapu(f(*a), dt))
        return ew(ev, e, ins, f)
    return r


RULES["add"] = RULES["add_any"] = _arith(lambda a, b: add(a, b) if a.sort != "B" else or_(a, b))
RULES["sub"] = _arith(sub)
RULES["mul"] = _arith(lambda a, b: mul(a, b) if a.sort != "B" else and_(a, b))
RULES["neg"] = _arith(neg)


@rule("div")
def r_div(ev, e, a, b):
    if sort_of(e.outvars[0].aval.dtype) == "I":
        # lax.div truncates; equal to floor division for non-negative operands
        def f(x, y):
            if y.op == "c" and y.val > 0:
                return ite(le(const(0), x), fdiv(x, y), neg(fdiv(neg(x), y)))
            return ite(and_(le(const(0), x), lt(const(0), y)), fdiv(x, y), mk("u2", (x, y), "I", "tdiv"))
        return ew(ev, e, (a, b), f)

    def f(x, y):
        if y.op != "c": ev.dens.append(y)
        return div(x, y)
    return ew(ev, e, (a, b), f)


@rule("rem")
def r_rem(ev, e, a, b):
    if sort_of(e.outvars[0].aval.dtype) != "I": raise Unsupported("float rem")
    def f(x, y):
        if y.op == "c" and y.val > 0: return ite(le(const(0), x), mod(x, y), neg(mod(neg(x), y)))
        return ite(and_(le(const(0), x), lt(const(0), y)), mod(x, y), mk("u2", (x, y), "I", "trem"))
    return ew(ev, e, (a, b), f)


E("eq", eq, "B")
E("ne", lambda a, b: not_(eq(a, b)), "B")
E("lt", lt, "B"); E("le", le, "B")
E("gt", lambda a, b: lt(b, a), "B"); E("ge", lambda a, b: le(b, a), "B")
E("max", lambda a, b: tmax(a, b) if a.sort != "B" else or_(a, b)); E("min", lambda a, b: tmin(a, b) if a.sort != "B" else and_(a, b))
E("square", lambda a: power(a, 2))
for _n in ("exp", "log", "sqrt", "sin", "cos", "tan", "cosh", "sinh", "tanh", "erf", "erf_inv", "sign", "floor", "ceil", "atan2", "cbrt"):
    E(_n, (lambda n: (lambda *a: un(n, a[0]) if len(a) == 1 else mk("u2", a, "R", n)))(_n))
E("sign", lambda a: ite(lt(const(0), a), const(1), ite(eq(a, const(0)), const(0), const(-1))) if a.sort == "I" else un("sign", a))
E("log1p", lambda a: un("log", add(const(1, a.sort), a)))
E("expm1", lambda a: sub(un("exp", a), const(1, a.sort)))
E("logistic", lambda a: div(const(1, a.sort), add(const(1, a.sort), un("exp", neg(a)))))
E("rsqrt", lambda a: power(un("sqrt", a), -1))
E("abs", lambda a: ite(le(const(0), a), a, neg(a)) if a.sort == "I" else un("abs", a))
E("real", real); E("imag", imag); E("conj", lambda a: conj(retag(a, "C")))
E("complex", lambda a, b: add(retag(a, "C"), mul(retag(b, "C"), IUNIT)))
E("is_finite", lambda a: TRUE, "B")
E("stop_gradient", lambda a: a); E("copy", lambda a: a); E("copy_p", lambda a: a); RULES["device_put"] = lambda ev, e, *a: list(a)


@rule("and", "or", "xor", "not")
def r_bits(ev, e, *ins):
    n = e.primitive.name
    b = sort_of(e.outvars[0].aval.dtype) == "B"
    dt = np.dtype(e.outvars[0].aval.dtype)
    w = dt.itemsize * 8

    def f(*a):
        if b:
            return {"and": and_, "or": or_, "not": not_, "xor": lambda x, y: not_(eq(x, y))}[n](*a)
        if n == "and": return band(*a)
        if n == "not":
            return sub(const(2 ** w - 1 if dt.kind == "u" else -1), a[0])
        if all(x.op == "c" for x in a):
            return const(int(a[0].val) | int(a[1].val) if n == "or" else int(a[0].val) ^ int(a[1].val))
        x, y = a
        s = band(x, y)
        return sub(add(x, y), s if n == "or" else mul(const(2), s))
    return ew(ev, e, ins, f)


@rule("shift_left", "shift_right_logical", "shift_right_arithmetic")
def r_shift(ev, e, *ins):
    n = e.primitive.name

    def f(a, b):
        if b.op != "c":
            if a.op == "c" and 0 <= int(a.val) < 256 and n != "shift_left":
                r, k = const(0), 0
                while int(a.val) >> k: k += 1
                for j in reversed(range(k)): r = ite(eq(b, const(j)), const(int(a.val) >> j), r)
                return r
            raise Unsupported("symbolic shift")
        k = const(2 ** int(b.val))
        return mul(a, k) if n == "shift_left" else fdiv(a, k)
    return ew(ev, e, ins, f)


@rule("integer_pow")
def r_ipow(ev, e, a):
    y = e.params["y"]
    def f(x):
        if y < 0: ev.dens.append(x)
        return power(x, y)
    return ew(ev, e, (a,), f)


@rule("pow")
def r_pow(ev, e, a, b):
    def f(x, y):
        if y.op == "c" and y.val.denominator == 1: return power(x, int(y.val))
        if y.op == "c" and y.val == Fraction(1, 2): return un("sqrt", x)
        if isc(x, -1) and y.sort == "I": return ite(eq(mod(y, const(2)), const(0)), const(1, x.sort), const(-1, x.sort))
        return mk("u2", (x, y), x.sort, "pow")
    return ew(ev, e, (a, b), f)


@rule("convert_element_type")
def r_conv(ev, e, a):
    dt = e.params["new_dtype"]; s = sort_of(dt)

    def f(x):
        if s == "C" and x.sort != "C": return retag(retag(x, "R") if x.sort != "B" else x, "C")
        r = coerce(x, s)
        if s == "I" and np.dtype(dt).kind == "u" and a.sort != "B" and (a.dtype is None or np.dtype(a.dtype).kind != "u"): r = wrapu(r, dt)
        return r
    return ew(ev, e, (a,), f)


@rule("reduce_precision")
def r_rp(ev, e, a): return a


@rule("bitcast_convert_type")
def r_bc(ev, e, a): raise Unsupported("bitcast")


@rule("select_n")
def r_select(ev, e, w, *cs):
    def f(c, *xs):
        if c.sort == "B": return ite(c, xs[1], xs[0])
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1): r = ite(eq(c, const(k)), xs[k], r)
        return r
    shape = aval_shape(e.outvars[0])
    def el(*idx):
        c = w(*idx) if w.ndim else w()
        return f(c, *[x(*idx) for x in cs])
    return Arr(shape, sort_of(e.outvars[0].aval.dtype), el)


@rule("clamp")
def r_clamp(ev, e, lo, x, hi):
    def el(*idx):
        g = lambda a: a(*idx) if a.ndim else a()
        return tmin(tmax(g(x), g(lo)), g(hi))
    return Arr(aval_shape(e.outvars[0]), x.sort, el)


# ---- shape manipulation
@rule("broadcast_in_dim")
def r_bid(ev, e, a, *dyn):
    bd = e.params["broadcast_dimensions"]; shape = shp(e.outvars[0].aval.shape)
    out_shape = shape

    def el(*idx):
        ii = []
        for k, d in enumerate(bd):
            if isc(a.shape[k], 1) and not isc(out_shape[d], 1): ii.append(const(0))
            else: ii.append(idx[d])
        return a(*ii)
    return Arr(shape, a.sort, el)


@rule("reshape")
def r_reshape(ev, e, a, *dyn):
    if e.params.get("dimensions") is not None: raise Unsupported("reshape dimensions")
    return reshape(a, aval_shape(e.outvars[0]))


def reshape(a, shape):
    old = list(a.shape); new = list(shape)
    # match groups
    groups = []; i = j = 0
    while i < len(old) or j < len(new):
        gi, gj = [], []
        if i < len(old) and j < len(new) and old[i] is new[j]:
            gi, gj = [i], [j]; i += 1; j += 1
        elif i < len(old) and isc(old[i], 1): gi = [i]; i += 1
        elif j < len(new) and isc(new[j], 1): gj = [j]; j += 1
        else:
            # smallest prefixes with equal products
            best = None
            for x in range(i + 1, len(old) + 1):
                for y in range(j + 1, len(new) + 1):
                    if (x - i == 1 and y - j == 1): 
                        if old[i] is not new[j]: continue
                    po = mul(const(1), *old[i:x]); pn = mul(const(1), *new[j:y])
                    if po is pn and (best is None or x + y < sum(best)): best = (x, y)
            if best is None: raise Unsupported("reshape %r -> %r" % (a.shape, shape))
            gi, gj = list(range(i, best[0])), list(range(j, best[1])); i, j = best
        groups.append((gi, gj))

    def el(*idx):
        ii = [None] * len(old)
        for gi, gj in groups:
            if not gi: continue
            if not gj: ii[gi[0]] = const(0); continue
            if len(gi) == 1 and len(gj) == 1: ii[gi[0]] = idx[gj[0]]; continue
            lin = const(0)
            for y in gj: lin = add(mul(lin, new[y]), idx[y])
            for x in reversed(gi[1:]):
                ii[x] = symmod(lin, old[x]); lin = symdiv(lin, old[x])
            ii[gi[0]] = lin
        return a(*ii)
    return Arr(shape, a.sort, el)


def symmod(a, n):
    """mod by a possibly symbolic size, cancelling multiples of it"""
    keep = []
    for u in (a.args if a.op == "add" else (a,)):
        if n.op != "c" and is_multiple(u, n): continue
        keep.append(u)
    r = add(*keep) if keep else const(0)
    return mod(r, n)


def is_multiple(u, n):
    fs = u.args if u.op == "mul" else (u,)
    return any(f is n for f in fs)


def symdiv(a, n):
    if n.op == "c": return fdiv(a, n)
    q, r = [], []
    for u in (a.args if a.op == "add" else (a,)):
        if is_multiple(u, n):
            fs = list(u.args) if u.op == "mul" else [u]
            k = next(i for i, f in enumerate(fs) if f is n)
            fs.pop(k); q.append(mul(*fs) if fs else const(1))
        else: r.append(u)
    rest = add(*r) if r else const(0)
    return add(*(q + [fdiv(rest, n)])) if q else fdiv(rest, n)


@rule("squeeze")
def r_squeeze(ev, e, a):
    ds = [d % a.ndim for d in e.params["dimensions"]]

    def el(*idx):
        it = iter(idx)
        return a(*[const(0) if k in ds else next(it) for k in range(a.ndim)])
    return Arr(aval_shape(e.outvars[0]), a.sort, el)


@rule("expand_dims")
def r_ed(ev, e, a): return reshape(a, aval_shape(e.outvars[0]))


@rule("transpose")
def r_transpose(ev, e, a):
    p = e.params["permutation"]

    def el(*idx):
        ii = [None] * a.ndim
        for k, d in enumerate(p): ii[d] = idx[k]
        return a(*ii)
    return Arr(aval_shape(e.outvars[0]), a.sort, el)


@rule("rev")
def r_rev(ev, e, a):
    ds = e.params["dimensions"]

    def el(*idx):
        return a(*[sub(sub(a.shape[k], const(1)), i) if k in ds else i for k, i in enumerate(idx)])
    return Arr(a.shape, a.sort, el)


@rule("slice")
def r_slice(ev, e, a):
    st, sr = shp(e.params["start_indices"]), e.params["strides"] or [1] * a.ndim

    def el(*idx): return a(*[add(s, mul(const(int(k)), i)) for s, k, i in zip(st, sr, idx)])
    return Arr(aval_shape(e.outvars[0]), a.sort, el)


@rule("concatenate")
def r_concat(ev, e, *ins):
    d = e.params["dimension"]

    def el(*idx):
        off = const(0); starts = []
        for a in ins: starts.append(off); off = add(off, a.shape[d])
        r = None
        for a, s in reversed(list(zip(ins, starts))):
            x = a(*[sub(i, s) if k == d else i for k, i in enumerate(idx)])
            r = x if r is None else ite(lt(idx[d], add(s, a.shape[d])), x, r)
        return r
    return Arr(aval_shape(e.outvars[0]), ins[0].sort, el)


@rule("pad")
def r_pad(ev, e, a, pv):
    pc = e.params["padding_config"]
    lo = [dim(x[0]) for x in pc]; inter = [int(x[2]) for x in pc]

    def el(*idx):
        cond = []; ii = []
        for k, i in enumerate(idx):
            p = sub(i, lo[k])
            if inter[k]:
                st = const(inter[k] + 1)
                cond.append(eq(mod(p, st), const(0))); p = fdiv(p, st)
            ii.append(p)
            cond += [le(const(0), p), lt(p, a.shape[k])]
        c = and_(*cond)
        if c is FALSE: return pv()
        return ite(c, a(*ii), pv())
    return Arr(aval_shape(e.outvars[0]), a.sort, el)


@rule("iota")
def r_iota(ev, e, *dyn):
    d = e.params["dimension"]; s = sort_of(e.params["dtype"])
    return Arr(aval_shape(e.outvars[0]), s, lambda *idx: coerce(idx[d], s) if s != "I" else idx[d])


@rule("dim_as_value")
def r_dav(ev, e):
    return scalar(dim(e.params["dim"]))


@rule("dynamic_slice")
def r_ds(ev, e, a, *st):
    sz = aval_shape(e.outvars[0])

    def el(*idx):
        ii = []
        for k in range(a.ndim):
            s = st[k]()
            s = tmax(const(0), tmin(s, sub(a.shape[k], sz[k])))
            ii.append(add(s, idx[k]))
        return a(*ii)
    return Arr(sz, a.sort, el)


@rule("dynamic_update_slice")
def r_dus(ev, e, a, u, *st):
    def el(*idx):
        ii, cond = [], []
        for k in range(a.ndim):
            s = tmax(const(0), tmin(st[k](), sub(a.shape[k], u.shape[k])))
            p = sub(idx[k], s); ii.append(p); cond += [le(const(0), p), lt(p, u.shape[k])]
        c = and_(*cond)
        if c is FALSE: return a(*idx)
        return ite(c, u(*ii), a(*idx))
    return Arr(a.shape, a.sort, el)


@rule("gather")
def r_gather(ev, e, a, ind):
    p = e.params; dn = p["dimension_numbers"]; ss = shp(p["slice_sizes"]); mode = str(p["mode"]).split(".")[-1].lower()
    out = aval_shape(e.outvars[0])
    od, cs, sim = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
    obd, sbd = getattr(dn, "operand_batching_dims", ()), getattr(dn, "start_indices_batching_dims", ())
    batch_out = [k for k in range(len(out)) if k not in od]
    off_operand = [d for d in range(a.ndim) if d not in cs and d not in obd]

    def el(*idx):
        b = [idx[k] for k in batch_out]
        start = {}
        for m, d in enumerate(sim): start[d] = ind(*b, const(m))
        ii = [const(0)] * a.ndim; cond = []
        off = {}
        for k, d in zip(od, off_operand): off[d] = idx[k]
        for d in range(a.ndim):
            if d in obd:
                ii[d] = b[sbd[obd.index(d)]]; continue
            s = start.get(d)
            if s is not None:
                hi = sub(a.shape[d], ss[d])
                if "clip" in mode: s = tmax(const(0), tmin(s, hi))
                elif "fill" in mode or "drop" in mode: cond += [le(const(0), s), le(s, hi)]
                elif "promise" in mode: ev.side.append(("gather index in bounds", and_(le(const(0), s), le(s, hi))))
            else: s = const(0)
            ii[d] = add(s, off.get(d, const(0)))
        c = and_(*cond)
        if c is FALSE: return fillv(a.sort, p.get("fill_value"), a.dtype)
        x = a(*ii)
        return ite(c, x, fillv(a.sort, p.get("fill_value"), a.dtype)) if c is not TRUE else x
    return Arr(out, a.sort, el)


def fillv(s, fv=None, dtype=None):
    if s == "B": return TRUE if fv is None else const_np(fv, s)
    if s == "I": return mk("f", (), "I", "outofbounds") if fv is None else const_np(fv, s)
    return mk("nan", (), s, "oob") if fv is None else const_np(fv, s)


def unwrap(t, vs):
    """x if t is x wrapped for negative indices (x + n if x < 0 else x) and x is visibly not negative"""
    def nonneg(x):
        if x.op == "add": return all(nonneg(y) for y in x.args)
        if x.op == "mul": return all(nonneg(y) for y in x.args)
        if x.op == "c": return x.val >= 0
        return x.op == "v" and (x in vs or not any(ch in x.val for ch in "!_"))
    while t.op == "ite" and t.args[0].op in ("le", "lt", "not"):
        for x in t.args[1:]:
            s = subst_true(t.args[0], x) if nonneg(x) else None
            if s is not None: t = t.args[1] if s else t.args[2]; break
        else: break
    return t


def subst_true(c, x):
    """truth value of a sign test of x when x >= 0 (None if it depends)"""
    if c.op == "not":
        r = subst_true(c.args[0], x); return None if r is None else not r
    a = c.args[0]
    if c.op == "le":
        if a is add(x, const(1)): return False
        if a is neg(x): return True
    if c.op == "lt":
        if a is x: return False
        if a is sub(neg(x), const(1)): return True
    return None


@rule("scatter", "scatter-add", "scatter-mul", "scatter_add", "scatter_mul", "scatter-min", "scatter-max")
def r_scatter(ev, e, a, ind, upd):
    p = e.params; dn = p["dimension_numbers"]; mode = str(p["mode"]).split(".")[-1].lower()
    kind = e.primitive.name.replace("_", "-"); odt = e.outvars[0].aval.dtype
    uw, iw, sod = dn.update_window_dims, dn.inserted_window_dims, dn.scatter_dims_to_operand_dims
    obd, sbd = getattr(dn, "operand_batching_dims", ()), getattr(dn, "scatter_indices_batching_dims", ())
    us = [k for k in range(upd.ndim) if k not in uw]       # scatter dims of the updates
    win_operand = [d for d in range(a.ndim) if d not in iw and d not in obd]
    sc_shape = [upd.shape[k] for k in us]

    def el(*idx):
        # variables for the scatter dims
        def eval_at(pos):
            """pos: list of terms for scatter dims -> (condition, update element)"""
            cond = []; start = {}
            for m, d in enumerate(sod): start[d] = ind(*pos, const(m))
            win = {}
            for k, d in zip(uw, win_operand):
                s = start.get(d, const(0))
                lim = sub(a.shape[d], upd.shape[k])
                if "clip" in mode: s = tmax(const(0), tmin(s, lim))
                elif d in start: cond += [le(const(0), s), le(s, lim)]
                q = sub(idx[d], s); win[k] = q
                if not (d not in start and upd.shape[k] is a.shape[d]): cond += [le(const(0), q), lt(q, upd.shape[k])]
            for d in range(a.ndim):
                if d in obd: cond.append(eq(idx[d], pos[sbd[obd.index(d)]]))
                elif d in iw:
                    s = start.get(d, const(0))
                    if "clip" in mode: s = tmax(const(0), tmin(s, sub(a.shape[d], const(1))))
                    cond.append(eq(idx[d], s))
            ui = [None] * upd.ndim
            for k, v in zip(us, pos): ui[k] = v
            for k in uw: ui[k] = win[k]
            return and_(*cond), ui
        # which scatter dims are pinned by the element's index
        vs = [fresh("s") for _ in us]
        sol = {}
        for d in obd: sol[sbd[obd.index(d)]] = idx[d]
        for m, d in enumerate(sod):
            t = ind(*vs, const(m))
            if d in iw:
                t = unwrap(t, vs)
                for k, v in enumerate(vs):
                    if k in sol or v.val not in t.free: continue
                    r = sub(t, v)
                    if v.val not in r.free and not any(w.val in r.free for w in vs): sol[k] = sub(idx[d], r); break
        free = [k for k in range(len(us)) if k not in sol]
        conc = [k for k in free if sc_shape[k].op == "c"]
        symb = [k for k in free if sc_shape[k].op != "c"]
        base = a(*idx)
        import itertools as it
        res = base
        combos = list(it.product(*[range(int(sc_shape[k])) for k in conc]))
        if len(combos) > 64: raise Unsupported("scatter with many concrete updates")
        for combo in combos:
            pos = list(vs)
            rng = []
            for k, v in sol.items():
                pos[k] = v
                rng += [le(const(0), v), lt(v, sc_shape[k])]
            for k, v in zip(conc, combo): pos[k] = const(v)
            c, ui = eval_at(pos)
            c = and_(c, *[r for r in rng if not _trivial_bound(r, idx, a.shape)])
            if c is FALSE: continue
            if symb:
                if kind != "scatter-add": raise Unsupported("symbolic scatter %s: %s" % (kind, [show(ind(*vs, const(m)))[:200] for m in range(len(sod))]))
                t = ite(c, upd(*ui), const(0, upd.sort))
                for k in reversed(symb): t = bind("sum", vs[k], sc_shape[k], t)
                res = wrapu(add(res, t), odt)
                continue
            u = upd(*ui)
            if kind == "scatter": res = ite(c, u, res)
            elif kind == "scatter-add": res = ite(c, wrapu(add(res, u), odt), res)
            elif kind == "scatter-mul": res = ite(c, wrapu(mul(res, u), odt), res)
            else: raise Unsupported(kind)
        return res
    return Arr(a.shape, a.sort, el)


def _trivial_bound(r, idx, shape): return False


# ---- reductions
def _red(kind):
    def r(ev, e, a):
        axes = e.params["axes"]
        keep = [k for k in range(a.ndim) if k not in axes]

        def el(*idx):
            ii = [None] * a.ndim
            for k, i in zip(keep, idx): ii[k] = i
            vs = {k: fresh("r") for k in axes}
            for k in axes: ii[k] = vs[k]
            t = a(*ii)
            for k in sorted(axes, reverse=True): t = bind(kind, vs[k], a.shape[k], t)
            return t
        return Arr([a.shape[k] for k in keep], a.sort, el)
    return r


for _k, _n in (("sum", "reduce_sum"), ("prod", "reduce_prod"), ("max", "reduce_max"), ("min", "reduce_min"), ("any", "reduce_or"), ("all", "reduce_and")):
    RULES[_n] = _red(_k)


@rule("sort")
def _sort(ev, e, *xs):
    """a stable sorting network over a short axis, ordered by the first key"""
    k = e.params["dimension"]; n = xs[0].shape[k]
    if n.op != "c" or int(n.val) > 4 or e.params.get("num_keys", 1) != 1: raise Unsupported("sort of length %s" % show(n))
    n = int(n.val)

    def el(j):
        def f(*idx):
            rows = [[x(*idx[:k], const(p), *idx[k + 1:]) for x in xs] for p in range(n)]
            for a in range(n):
                for b in range(n - 1 - a):
                    c = lt(rows[b + 1][0], rows[b][0])
                    rows[b], rows[b + 1] = [ite(c, v, u) for u, v in zip(rows[b], rows[b + 1])], [ite(c, u, v) for u, v in zip(rows[b], rows[b + 1])]
            r = rows[n - 1][j]
            for p in reversed(range(n - 1)): r = ite(eq(idx[k], const(p)), rows[p][j], r)
            return r
        return f
    return [Arr(x.shape, x.sort, el(j), x.dtype) for j, x in enumerate(xs)]


@rule("argmax", "argmin")
def r_argmax(ev, e, a):
    ax, = e.params["axes"]; nm = e.primitive.name

    def el(*idx):
        v = fresh("r"); ii = list(idx); ii.insert(ax, v)
        return mk("f", (bind("lam", v, a.shape[ax], a(*ii)),), "I", nm)
    return Arr([s for k, s in enumerate(a.shape) if k != ax], "I", el)


def _cum(kind):
    def r(ev, e, a):
        ax, rev = e.params["axis"], e.params.get("reverse", False)

        def el(*idx):
            v = fresh("r"); ii = list(idx); i = idx[ax]
            if rev: ii[ax] = add(i, v); n = sub(a.shape[ax], i)
            else: ii[ax] = v; n = add(i, const(1))
            return bind(kind, v, n, a(*ii))
        return Arr(a.shape, a.sort, el)
    return r


RULES["cumsum"] = _cum("sum"); RULES["cumprod"] = _cum("prod"); RULES["cummax"] = _cum("max"); RULES["cummin"] = _cum("min")


@rule("dot_general")
def r_dot(ev, e, a, b):
    (ca, cb), (ba, bb) = e.params["dimension_numbers"]
    s = sort_of(e.outvars[0].aval.dtype)
    fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
    fb = [k for k in range(b.ndim) if k not in cb and k not in bb]

    def el(*idx):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        it = iter(idx)
        for x, y in zip(ba, bb): ia[x] = ib[y] = next(it)
        for x in fa: ia[x] = next(it)
        for y in fb: ib[y] = next(it)
        vs = []
        for x, y in zip(ca, cb):
            v = fresh("r"); ia[x] = ib[y] = v; vs.append((v, a.shape[x]))
        t = mul(coerce(a(*ia), s), coerce(b(*ib), s))
        for v, n in reversed(vs): t = bind("sum", v, n, t)
        return t
    return Arr(aval_shape(e.outvars[0]), s, el)


# ---- control flow
@rule("cond")
def r_cond(ev, e, idx, *ops):
    br = e.params["branches"]
    outs = [ev.closed(b, list(ops)) for b in br]
    i = idx()
    if i.op == "c": return outs[max(0, min(len(br) - 1, int(i)))]
    if i.op == "b": return outs[1 if i.val else 0]
    res = []
    for k in range(len(outs[0])):
        def el(*ix, k=k):
            if i.sort == "B": return ite(i, outs[1][k](*ix), outs[0][k](*ix))
            r = outs[-1][k](*ix)
            for m in range(len(outs) - 2, -1, -1):
                r = ite(eq(i, const(m)) if m else le(i, const(0)), outs[m][k](*ix), r)
            return r
        res.append(Arr(outs[0][k].shape, outs[0][k].sort, el, outs[0][k].dtype))
    return res


def symcarry(c, k):
    """a symbolic array standing for a carry"""
    nm = "carry%d!%d" % (k, next(Tm._fresh))
    return nm, Arr(c.shape, c.sort, lambda *idx: mk("f", idx, c.sort, nm), c.dtype)


def mentions(t, names):
    return any(x.op == "f" and x.val in names for x in walk(t))


def split_delta(t, me, names, depth=0):
    """t - me as a term without the carries, splitting on conditions that do not mention them"""
    d = sub(t, me)
    if not mentions(d, names): return d
    if depth > 6: return None
    for x in walk(t):
        if x.op in ("eq", "le", "lt") and not mentions(x, names) and not any(z[0] == "b" and z[1:].isdigit() for z in x.free):
            from .solve import replace_conds
            a, b = (split_delta(replace_conds(t, {x.id: v, not_(x).id: not_(v)}), me, names, depth + 1) for v in (TRUE, FALSE))
            return None if a is None or b is None else ite(x, a, b)
    return None


def axes_to(shape, f):
    """a loop contract may state the shape it is written for (shape, f); the code is free to order the axes differently"""
    if not isinstance(f, tuple): return f
    want, g = [lift(x) for x in f[0]], f[1]
    left = list(range(len(shape))); perm = []
    if len(left) != len(want): raise Unsupported("loop contract for rank %d, carry has rank %d" % (len(want), len(left)))
    for w in want:
        k = next((i for i in left if shape[i] is w), None)
        if k is None: raise Unsupported("loop contract: carry %r, expected %r" % (shape, want))
        left.remove(k); perm.append(k)
    return lambda *ix: g(*[ix[k] for k in perm])


def with_invariant(ev, carry0, n, step, inv):
    """a loop contract: inv(j) -> list of element functions for the carries before iteration j.  Generates the obligations
    'holds initially' and 'preserved by the body' (for every 0 <= j < n) and returns the carries after jt iterations."""
    def at(jt):
        fs = inv(jt)
        return [Arr(c.shape, c.sort, axes_to(c.shape, f), c.dtype) for c, f in zip(carry0, fs)]
    key = id(inv)
    if key not in ev.inv_done:
        ev.inv_done.add(key)
        j = fresh("j")
        i0 = at(const(0))
        nxt = step(j, at(j)); want = at(add(j, const(1)))
        for k, c in enumerate(carry0):
            ev.loop_obl.append(("loop invariant %d holds initially" % k, c, i0[k], [lt(const(0), n)]))
            ev.loop_obl.append(("loop invariant %d is preserved" % k, nxt[k], want[k], [le(const(0), j), lt(j, n)]))
    return at


def summarise(ev, carry0, n, step):
    """carry after n iterations of step(j, carry)->carry; n a term.  Concrete n: unrolled.  Symbolic n: every carry must be
    unchanged, an accumulator (c + d(j), c * d(j)) or a function of j alone."""
    if n.op == "c" and int(n.val) <= 24:
        c = carry0
        for j in range(max(0, int(n.val))): c = step(const(j), c)
        return c
    if ev.cur_inv is not None: return with_invariant(ev, carry0, n, step, ev.cur_inv)(n)
    sy = [symcarry(c, k) for k, c in enumerate(carry0)]
    names = {s[0] for s in sy}
    closed = {}
    j = fresh("j")

    def cur(jt):
        """carries before iteration jt: known closed forms or the symbol"""
        return [closed[k](jt) if k in closed else s[1] for k, s in enumerate(sy)]
    # fixpoint: loop counters first
    for _ in range(len(carry0) + 1):
        out = step(j, cur(j))
        new = False
        for k, o in enumerate(out):
            if k in closed: continue
            iv = [fresh("i") for _ in o.shape]
            t = o(*iv); me = mk("f", iv, o.sort, sy[k][0])
            if t is me:
                closed[k] = (lambda jt, k=k: carry0[k]); new = True; continue
            if not mentions(t, names):
                if j.val not in t.free and t is carry0[k](*iv):
                    closed[k] = (lambda jt, k=k: carry0[k])
                else:
                    def f(jt, k=k, t=t, iv=iv):
                        def el(*ix):
                            tt = subst(t, dict([(v.val, x) for v, x in zip(iv, ix)] + [(j.val, sub(jt, const(1)))]))
                            return ite(le(jt, const(0)), carry0[k](*ix), tt)
                        return Arr(carry0[k].shape, carry0[k].sort, el, carry0[k].dtype)
                    closed[k] = f
                new = True; continue
            if t.sort in ("I", "R", "C"):
                d = sub(t, me)
                if not mentions(d, names):
                    if j.val not in d.free and not any(v.val in d.free for v in iv):
                        closed[k] = (lambda jt, k=k, d=d: Arr(carry0[k].shape, carry0[k].sort, lambda *ix: add(carry0[k](*ix), mul(jt, d)), carry0[k].dtype))
                    else:
                        def f(jt, k=k, d=d, iv=iv):
                            def el(*ix):
                                w = fresh("w")
                                dd = subst(d, dict([(v.val, x) for v, x in zip(iv, ix)] + [(j.val, w)]))
                                return add(carry0[k](*ix), bind("sum", w, jt, dd))
                            return Arr(carry0[k].shape, carry0[k].sort, el, carry0[k].dtype)
                        closed[k] = f
                    new = True; continue
                # conditional accumulation: ite(c, me + d, me), possibly nested or inside arithmetic
                if True:
                    d = split_delta(t, me, names)
                    if d is not None:
                        def f(jt, k=k, d=d, iv=iv):
                            def el(*ix):
                                w = fresh("w")
                                dd = subst(d, dict([(v.val, x) for v, x in zip(iv, ix)] + [(j.val, w)]))
                                return add(carry0[k](*ix), bind("sum", w, jt, dd))
                            return Arr(carry0[k].shape, carry0[k].sort, el, carry0[k].dtype)
                        closed[k] = f; new = True; continue
                if t.op == "mul":
                    q = div(t, me)
                    if not mentions(q, names):
                        def f(jt, k=k, q=q, iv=iv):
                            def el(*ix):
                                w = fresh("w")
                                dd = subst(q, dict([(v.val, x) for v, x in zip(iv, ix)] + [(j.val, w)]))
                                return mul(carry0[k](*ix), bind("prod", w, jt, dd))
                            return Arr(carry0[k].shape, carry0[k].sort, el, carry0[k].dtype)
                        closed[k] = f; new = True; continue
        if len(closed) == len(sy): break
        if not new: break
    if len(closed) < len(sy): raise Unsupported("loop carry %s not summarised" % [k for k in range(len(sy)) if k not in closed])
    return [closed[k](n) for k in range(len(sy))]


@rule("scan")
def r_scan(ev, e, *ins):
    p = e.params; nc, nk = p["num_consts"], p["num_carry"]
    consts, carry, xs = list(ins[:nc]), list(ins[nc:nc + nk]), list(ins[nc + nk:])
    n = dim(p["length"]); cj = p["jaxpr"]; rev = p["reverse"]

    def body(j, c):
        pos = sub(sub(n, const(1)), j) if rev else j
        sl = [Arr(x.shape[1:], x.sort, (lambda x: lambda *ix: x(pos, *ix))(x), x.dtype) for x in xs]
        return ev.closed(cj, consts + c + sl)
    if n.op == "c" and int(n.val) <= 24:
        ys = []
        for j in range(int(n.val)):
            o = body(const(j), carry); carry = o[:nk]; ys.append(o[nk:])
        if rev: ys = ys[::-1]
        res = list(carry)
        ny = len(e.outvars) - nk
        for k in range(ny):
            def el(i, *ix, k=k):
                if i.op == "c": return ys[int(i)][k](*ix)
                r = ys[-1][k](*ix)
                for m in range(len(ys) - 2, -1, -1): r = ite(eq(i, const(m)), ys[m][k](*ix), r)
                return r
            v = e.outvars[nk + k]
            res.append(Arr(aval_shape(v), sort_of(v.aval.dtype), el, v.aval.dtype))
        return res
    if nk == 0:
        res = []
        for k in range(len(e.outvars)):
            v = e.outvars[k]
            def el(i, *ix, k=k):
                return body(sub(sub(n, const(1)), i) if rev else i, [])[k](*ix)
            res.append(Arr(aval_shape(v), sort_of(v.aval.dtype), el, v.aval.dtype))
        return res
    inv = ev.take_inv(e, nk)
    def summ(jt):
        ev.cur_inv, sv = inv, ev.cur_inv
        try:
            if inv is not None: return with_invariant(ev, carry, n, lambda j, c: body(j, c)[:nk], inv)(jt)
            return summarise(ev, carry, jt, lambda j, c: body(j, c)[:nk])
        finally: ev.cur_inv = sv
    fin = summ(n)
    res = list(fin)
    for k in range(len(e.outvars) - nk):
        v = e.outvars[nk + k]
        def el(i, *ix, k=k):
            j = sub(sub(n, const(1)), i) if rev else i
            c = summ(j) if j.op != "c" or int(j.val) > 0 else carry
            return body(j, c)[nk + k](*ix)
        res.append(Arr(aval_shape(v), sort_of(v.aval.dtype), el, v.aval.dtype))
    return res


@rule("while")
def r_while(ev, e, *ins):
    p = e.params; cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    # counting loop: cond is (i < n), body increments i, n constant or an unchanged carry
    i_pos = n_val = None
    sy = [symcarry(c, k) for k, c in enumerate(carry)]
    if not cj.out_avals[0].shape == (): raise Unsupported("batched while")
    c = ev.closed(cj, cc + [s[1] for s in sy])[0]()
    out = ev.closed(bj, bc + [s[1] for s in sy])
    if c.op == "b":
        if c.val is False: return carry
        raise Unsupported("while true")
    if c.op != "le": raise Unsupported("while condition %r" % c)
    for k, s in enumerate(sy):
        if carry[k].ndim or carry[k].sort != "I": continue
        me = mk("f", (), "I", s[0])
        d = sub(out[k](), me)
        if isc(d, 1):
            # c: me + 1 - n <= 0
            n = add(sub(neg(c.args[0]), neg(me)), const(1))
            if mentions(n, {s[0]}): continue
            # n may mention unchanged carries
            m = {}
            ok = True
            for k2, s2 in enumerate(sy):
                if k2 != k and mentions(n, {s2[0]}):
                    if carry[k2].ndim == 0 and out[k2]() is mk("f", (), carry[k2].sort, s2[0]): m[mk("f", (), carry[k2].sort, s2[0]).id] = carry[k2]()
                    else: ok = False
            if not ok: continue
            n = replace_terms(n, m)
            i0 = carry[k]()
            cnt = sub(n, i0)
            if cnt.op != "c": cnt = tmax(const(0), cnt) if not _nonneg(cnt) else cnt
            else: cnt = const(max(0, int(cnt.val)))
            return summarise(ev, carry, cnt, lambda j, c: ev.closed(bj, bc + c))
    raise Unsupported("while loop shape")


def _nonneg(t): return t.op == "v"


def replace_terms(t, m):
    if not m: return t
    memo = {}

    def go(x):
        if x.id in m: return m[x.id]
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh(); r = bind(x.op, v, go(x.args[0]), replace_terms(open_(x, v), m))
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


# ---- opaque linear algebra / randomness: outputs are uninterpreted functions of the (element function of the) operands
def mat_lam(a, idx):
    """the last two axes as a term"""
    i, j = fresh("m"), fresh("m")
    return bind("lam", i, a.shape[-2], bind("lam", j, a.shape[-1], a(*idx, i, j)))


# ------------------------------------------------------------------------------------------------ tracing
S = jax.ShapeDtypeStruct
_scope = export.SymbolicScope()


def dims(names, constraints=()):
    sc = export.SymbolicScope(tuple(constraints)) if constraints else export.SymbolicScope()
    r = export.symbolic_shape(names, scope=sc)
    return r


def trace(fn, avals, arrs, ev=None):
    """fn traced by JAX on abstract arguments, evaluated on symbolic arrays; returns the output pytree of Arr"""
    ev = ev or Ev()
    flat, tree = jax.tree_util.tree_flatten(avals)
    fa, _ = jax.tree_util.tree_flatten(arrs, is_leaf=lambda x: isinstance(x, Arr))
    cj, shape = jax.make_jaxpr(fn, return_shape=True)(*avals)
    # dimension variables become extra leading args in some versions; make_jaxpr keeps them implicit
    outs = ev.closed(cj, fa)
    otree = jax.tree_util.tree_structure(shape)
    return jax.tree_util.tree_unflatten(otree, outs), cj


def inp(name, shape, dtype):
    """a symbolic input array"""
    s = sort_of(dtype)
    return S(tuple(shape), dtype), Arr(shp(shape), s, lambda *idx: mk("f", idx, s, name), dtype, tag=name)
