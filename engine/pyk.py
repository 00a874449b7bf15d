"""Symbolic evaluation of the repository's numba kernels: the Python source numba compiles (inspect.getsource on the imported
function, every run) is interpreted on symbolic arrays.  Nothing is dropped from the source; statements or library calls without
a rule raise Unsupported.  Loops with a symbolic trip count are summarised by invariants that are inferred and then checked by
re-executing the body under them: accumulators, values of the last iteration, arrays written at the loop index, and
append-only output buffers (rows are written at a cursor that grows by one per row)."""
import ast, inspect, textwrap, builtins
import numpy as np
from .terms import *
from . import terms as Tm
from .jx import Arr, Unsupported, coerce, mentions, split_delta, sort_of, replace_terms, wrapu, concrete_arr
from .solve import replace_conds

UNDEF = "undefined"


class Ref:
    """a numpy array held in the heap, seen through an index prefix / slices; axes: list of ('i', t) | ('s', start, length)"""
    def __init__(self, hid, axes): self.hid, self.axes = hid, axes


class Filtered:
    """values[mask] of a 1-d array"""
    def __init__(self, values, mask): self.values, self.mask = values, mask

    @property
    def count(self):
        v = fresh("n"); return bind("sum", v, self.mask.shape[0], ite(self.mask(v), const(1), const(0)))


class Rng:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step


class DT:
    def __init__(self, name): self.name = name


class Emit:
    """one appended row: per output array the element function written so far"""
    def __init__(self, bufs): self.bufs = bufs


class LoopLog:
    def __init__(self, v, n, log): self.v, self.n, self.log = v, n, log


class IfLog:
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class State:
    def __init__(self):
        self.env = {}; self.heap = {}; self.F = None; self.cur = None; self.log = (); self.pc = (); self.flag = None; self.ret = None

    def copy(self):
        s = State(); s.env = dict(self.env); s.heap = dict(self.heap); s.F = self.F; s.cur = self.cur; s.log = self.log; s.pc = self.pc; s.flag = self.flag; s.ret = self.ret
        return s


_hid = itertools.count()


class HArr:
    """heap array: shape + element function; app: belongs to the append-only outputs (slot buffers)"""
    def __init__(self, shape, sort, el, dtype, app=None): self.shape, self.sort, self.el, self.dtype, self.app = tuple(shape), sort, el, dtype, app

    def arr(self): return Arr(self.shape, self.sort, self.el, self.dtype)


def undef(sort): return mk("f", (), sort, UNDEF)


def truth(v):
    if isinstance(v, T):
        return v if v.sort == "B" else not_(eq(v, const(0, v.sort)))
    if v is None: return FALSE
    if isinstance(v, (bool, int, float, np.integer)): return TRUE if v else FALSE
    raise Unsupported("truth value of %r" % (v,))


def lift_(v):
    if isinstance(v, T): return v
    if isinstance(v, (bool, np.bool_)): return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)): return const(int(v))
    if isinstance(v, (float, np.floating)): return const(float(v))
    if isinstance(v, (complex, np.complexfloating)): return const(complex(v))
    raise Unsupported("value %r" % (v,))


class Kernel:
    def __init__(self, append_outputs=True):
        self.side = []          # (kind, path condition, boolean)
        self.funcs = []
        self.append_outputs = append_outputs
        self.depth = 0
        self.stmts = 0
        self.growth = []

    # ------------------------------------------------------------------ entry
    def source(self, fn):
        fn = getattr(fn, "py_func", fn)
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
        fd = next(n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,)))
        return fn, fd

    def run(self, fn, args, kwargs=None):
        """args: Arr (copied into the heap) | T | None.  Returns (state, return value)"""
        s = State(); s.F = const(0)
        vals = [self.put(s, a) if isinstance(a, Arr) else a for a in args]
        self.argrefs = vals
        r = self.call(fn, vals, kwargs or {}, s, top=True)
        return s, r

    def put(self, s, a):
        h = next(_hid); s.heap[h] = HArr(a.shape, a.sort, (lambda a: lambda *ix: a(*ix))(a), a.dtype)
        return Ref(h, [("s", const(0), n) for n in a.shape])

    def call(self, fn, args, kwargs, s, top=False):
        self.depth += 1
        if self.depth > 12: raise Unsupported("call depth")
        fn, fd = self.source(fn)
        nm = "%s:%s" % (getattr(fn, "__module__", "?"), fn.__name__)
        if nm not in self.funcs: self.funcs.append(nm)
        sig = inspect.signature(fn)
        try: ba = sig.bind(*args, **kwargs)
        except TypeError as e: raise Unsupported(str(e))
        ba.apply_defaults()
        old = (s.env, s.flag, s.ret)
        s.env = dict(ba.arguments); s.flag = None; s.ret = None
        og, self.globals = getattr(self, "globals", None), fn.__globals__
        oo = getattr(self, "outnames", set())
        self.outnames = set()
        if top and self.append_outputs:
            for n in ast.walk(fd):
                if isinstance(n, ast.Return) and n.value is not None:
                    for x in ast.walk(n.value):
                        if isinstance(x, ast.Name): self.outnames.add(x.id)
        elif self.append_outputs:
            for n in ast.walk(fd):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and all(isinstance(x, ast.Name) for x in n.value.elts): self.outnames |= {x.id for x in n.value.elts}
        self.block(fd.body, s)
        r = s.ret
        s.env, s.flag, s.ret = old
        self.globals, self.outnames = og, oo
        self.depth -= 1
        return r

    # ------------------------------------------------------------------ statements
    def block(self, stmts, s):
        for k, st in enumerate(stmts):
            if s.flag: return
            self.stmts += 1
            if isinstance(st, ast.If):
                c = truth(self.expr(st.test, s))
                if c is TRUE: self.block(st.body, s); continue
                if c is FALSE: self.block(st.orelse, s); continue
                rest = list(stmts[k + 1:])
                leaves = any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for b in (st.body, st.orelse) for y in b for x in ast.walk(y))
                a, b = s.copy(), s.copy()
                a.pc = s.pc + (c,); b.pc = s.pc + (not_(c),)
                self.block(list(st.body) + (rest if leaves else []), a)
                self.block(list(st.orelse) + (rest if leaves else []), b)
                self.merge(s, c, a, b)
                if leaves: return
                continue
            self.stmt(st, s)

    def merge(self, s, c, a, b):
        if (a.flag == "ret") != (b.flag == "ret"): raise Unsupported("return on one path only")
        env = {}
        for n in set(a.env) | set(b.env):
            if n in a.env and n in b.env: env[n] = self.mval(c, a.env[n], b.env[n], n)
            # a name bound on one path only stays unbound
        s.env = env
        heap = {}
        for h in set(a.heap) | set(b.heap):
            if h in a.heap and h in b.heap:
                x, y = a.heap[h], b.heap[h]
                if x is y: heap[h] = x; continue
                if x.app is not None: heap[h] = HArr(x.shape if all(p is q for p, q in zip(x.shape, y.shape)) else [self.mval(c, p, q, "shape") for p, q in zip(x.shape, y.shape)], x.sort, x.el, x.dtype, x.app); continue
                heap[h] = HArr(x.shape, x.sort, (lambda x, y: lambda *ix: ite(c, x.el(*ix), y.el(*ix)))(x, y), x.dtype)
            else: heap[h] = a.heap.get(h) or b.heap.get(h)
        s.heap = heap
        s.flag = a.flag if a.flag == b.flag else None
        s.ret = self.mval(c, a.ret, b.ret, "return") if a.flag == "ret" else None
        # output log
        m = len(s.log)
        if len(a.log) == m and len(b.log) == m:
            if m and (a.log[-1] is not s.log[-1] or b.log[-1] is not s.log[-1]):
                x, y = a.log[-1], b.log[-1]
                bufs = {}
                for k in x.bufs:
                    p, q = x.bufs[k], y.bufs.get(k)
                    bufs[k] = p if p is q else (lambda p, q: lambda *ix: ite(c, p(*ix), q(*ix)))(p, q)
                s.log = s.log[:-1] + (Emit(bufs),)
            s.F, s.cur = a.F, a.cur
            if a.F is not b.F: raise Unsupported("cursor")
        else:
            for x in (a, b):
                if m and x.log[m - 1] is not s.log[m - 1]: raise Unsupported("row modified after the next one was started")
            s.log = s.log + (IfLog(c, a.log[m:], b.log[m:]),)
            s.F = self.mval(c, a.F, b.F, 'cursor'); s.cur = None

    def mval(self, c, x, y, n):
        if x is y: return x
        if isinstance(x, T) or isinstance(y, T) or isinstance(x, (int, float, bool)):
            if x is None or y is None: return None
            if isinstance(x, T) and isinstance(y, T) and x.sort == y.sort == "I":
                # keep the common part outside, so that counters stay recognisable
                d = sub(x, y)
                na = lambda t: len(t.args) if t.op == "add" else 1
                if d.op == "c" or na(d) < max(na(x), na(y)): return add(y, ite(c, d, const(0)))
            try: return ite(c, lift_(x), lift_(y))
            except Unsupported: return None
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return tuple(self.mval(c, p, q, n) for p, q in zip(x, y))
        if isinstance(x, Ref) and isinstance(y, Ref) and x.hid == y.hid and all(p == q for p, q in zip(x.axes, y.axes)): return x
        if isinstance(x, Arr) and isinstance(y, Arr): return Arr(x.shape, x.sort, lambda *ix: ite(c, x(*ix), y(*ix)), x.dtype)
        if x == y: return x
        return None      # differing non-scalar values: unusable afterwards

    def stmt(self, st, s):
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant): return
            self.expr(st.value, s); return
        if isinstance(st, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)): return
        if isinstance(st, ast.Assign):
            v = self.expr(st.value, s, target=st.targets[0].id if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) else None)
            for t in st.targets: self.assign(t, v, s)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None: self.assign(st.target, self.expr(st.value, s), s)
            return
        if isinstance(st, ast.AugAssign):
            cur = self.expr(_load(st.target), s)
            v = self.binop(st.op, cur, self.expr(st.value, s), s)
            if isinstance(st.target, ast.Name) and isinstance(cur, Ref):   # in place on an array
                self.write(cur, v, s)
                return
            self.assign(st.target, v, s)
            return
        if isinstance(st, ast.For): return self.loop(st, s)
        if isinstance(st, ast.Return):
            s.ret = self.expr(st.value, s) if st.value is not None else None; s.flag = "ret"; return
        if isinstance(st, ast.Continue): s.flag = "cont"; return
        raise Unsupported("statement %s" % type(st).__name__)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name): s.env[t.id] = v; return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, len(t.elts), s)
            for x, y in zip(t.elts, vs): self.assign(x, y, s)
            return
        if isinstance(t, ast.Subscript):
            base = self.expr(t.value, s)
            if not isinstance(base, Ref): raise Unsupported("assignment into a temporary")
            r = self.index(base, self.subs(t.slice, s), s, store=True)
            self.write(r, v, s)
            return
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, s)
            if isinstance(o, (Ref, Arr, T, tuple)) or o is None: raise Unsupported("attribute assignment")
            setattr(o, t.attr, v); return
        raise Unsupported("assignment target")

    def items(self, v, n, s):
        if isinstance(v, (tuple, list)): return list(v)
        if isinstance(v, (Ref, Arr)): return [self.index(v, [const(k)], s) for k in range(n)]
        raise Unsupported("unpacking")

    # ------------------------------------------------------------------ arrays
    def shape(self, r):
        if isinstance(r, Ref): return [a[2] for a in r.axes if a[0] == "s"]
        if isinstance(r, Filtered): return [r.count]
        return list(r.shape)

    def read(self, r, s):
        """array value (snapshot) of a reference"""
        if isinstance(r, Arr): return r
        h = s.heap[r.hid]
        el = self.elread(r, h, s)
        sh = self.shape(r)
        return Arr(sh, h.sort, lambda *ix: el(*ix), h.dtype)

    def elread(self, r, h, s):
        def full(ix):
            it = iter(ix); return [a[1] if a[0] == "i" else add(a[1], next(it)) for a in r.axes]
        if h.app is not None:
            a0 = r.axes[0]
            if a0[0] != "i": raise Unsupported("output buffer read as a whole")
            if s.cur is None or sub(a0[1], s.cur) is not const(0): raise Unsupported("read of an output row that is not the current one")
            buf = s.log[-1].bufs.get(h.app)
            if buf is None: raise Unsupported("read of an unwritten row")
            return lambda *ix: buf(*full(ix)[1:])
        return lambda *ix: h.el(*full(ix))

    def bound(self, i, n, s):
        if i.op == "c" and n.op == "c" and 0 <= i.val < n.val: return
        self.side.append(("index in bounds", s.pc, and_(le(const(0), i), lt(i, n))))

    def index(self, r, subs, s, store=False):
        if isinstance(r, tuple):
            if len(subs) == 1 and isinstance(subs[0], T): return r[int(subs[0])]
            raise Unsupported("tuple index")
        if len(subs) == 1 and isinstance(subs[0], (Ref, Arr)) :
            m = self.read(subs[0], s)
            if m.sort == "B": return Filtered(self.read(r, s), m)
            a = self.read(r, s)   # integer array gather
            return Arr(list(m.shape) + list(a.shape[1:]), a.sort, lambda *ix: a(m(*ix[:m.ndim]), *ix[m.ndim:]), a.dtype)
        if isinstance(r, Filtered): raise Unsupported("index into a filtered array")
        if isinstance(r, Arr):
            tmp = self.put(s, r); return self.index(tmp, subs, s)
        axes = []; k = 0
        free = [a for a in r.axes if a[0] == "s"]
        if any(x is Ellipsis for x in subs):
            e = next(i for i, x in enumerate(subs) if x is Ellipsis)
            subs = list(subs[:e]) + [("s", None, None)] * (len(free) - (len(subs) - 1)) + list(subs[e + 1:])
        it = iter(subs)
        for a in r.axes:
            if a[0] == "i": axes.append(a); continue
            try: x = next(it)
            except StopIteration: axes.append(a); continue
            if isinstance(x, tuple) and x[0] == "s":
                lo = const(0) if x[1] is None else lift_(x[1]); hi = a[2] if x[2] is None else lift_(x[2])
                if lo.op == "c" and lo.val < 0: lo = add(a[2], lo)
                if hi.op == "c" and hi.val < 0: hi = add(a[2], hi)
                axes.append(("s", add(a[1], lo), sub(hi, lo)))
            else:
                x = lift_(x)
                if x.sort == "B": raise Unsupported("boolean index")
                if x.op == "c" and x.val < 0: x = add(a[2], x)
                if s.heap[r.hid].app is None or a is not r.axes[0]: self.bound(x, a[2], s)
                axes.append(("i", add(a[1], x)))
        if next(it, None) is not None: raise Unsupported("too many indices")
        q = Ref(r.hid, axes)
        if all(a[0] == "i" for a in axes):
            h = s.heap[q.hid]
            if store: return q
            return self.elread(q, h, s)()
        return q

    def write(self, r, v, s):
        h = s.heap[r.hid] if isinstance(r, Ref) else None
        if h is None: raise Unsupported("write")
        sh = self.shape(r)
        if isinstance(v, (Ref, Arr)):
            va = self.read(v, s); off = len(sh) - va.ndim
            val = lambda *ix: va(*[const(0) if isc(n, 1) and not isc(sh[k + off], 1) else ix[k + off] for k, n in enumerate(va.shape)])
        else:
            t = lift_(v); val = lambda *ix: t
        val = self.cast(val, h, sh, s)
        free = [k for k, a in enumerate(r.axes) if a[0] == "s"]
        whole = lambda k: r.axes[k][0] == "s" and isc(r.axes[k][1], 0) and r.axes[k][2] is h.shape[k]

        def put(old, skip):
            def el(*ix):
                cond = []; sub_ix = []
                for k in range(skip, len(r.axes)):
                    a = r.axes[k]; i = ix[k - skip]
                    if a[0] == "i": cond.append(eq(i, a[1]))
                    else:
                        p = sub(i, a[1]); sub_ix.append(p)
                        if not whole(k): cond += [le(const(0), p), lt(p, a[2])]
                c = and_(*cond)
                if c is FALSE: return old(*ix)
                return ite(c, val(*sub_ix), old(*ix)) if c is not TRUE else val(*sub_ix)
            return el
        if h.app is not None:
            a0 = r.axes[0]
            if a0[0] != "i": raise Unsupported("output buffer written as a whole")
            if s.cur is not None and sub(a0[1], s.cur) is const(0): pass
            elif sub(a0[1], s.F) is const(0):
                s.cur = s.F; s.F = add(s.F, const(1))
                s.log = s.log + (Emit({}),)
            else: raise Unsupported("output row %s written out of order (next is %s)" % (show(a0[1]), show(s.F)))
            e = s.log[-1]
            old = e.bufs.get(h.app) or (lambda *ix: undef(h.sort))
            s.log = s.log[:-1] + (Emit({**e.bufs, h.app: put(old, 1)}),)
            return
        s.heap[r.hid] = HArr(h.shape, h.sort, put(h.el, 0), h.dtype)

    def cast(self, val, h, sh, s):
        dt = np.dtype(h.dtype) if h.dtype is not None else None

        def f(*ix):
            t = val(*ix)
            return coerce(t, h.sort) if t.sort != h.sort else t
        if dt is not None and dt.kind == "u":
            vs = [fresh("u") for _ in sh]
            t = f(*vs)
            if t.op != "c" and not (t.op == "f" and not mentions(t, {UNDEF})):
                self.side.append(("stored value fits the unsigned type", s.pc + tuple(c for v, n in zip(vs, sh) for c in (le(const(0), v), lt(v, n))), and_(le(const(0), t), lt(t, const(256 ** dt.itemsize)))))
        return f

    # ------------------------------------------------------------------ expressions
    def subs(self, sl, s):
        def one(x):
            if isinstance(x, ast.Slice):
                if x.step is not None: raise Unsupported("slice step")
                return ("s", self.expr(x.lower, s) if x.lower else None, self.expr(x.upper, s) if x.upper else None)
            if isinstance(x, ast.Constant) and x.value is Ellipsis: return Ellipsis
            return self.expr(x, s)
        if isinstance(sl, ast.Tuple): return [one(x) for x in sl.elts]
        return [one(sl)]

    def expr(self, e, s, target=None):
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None or isinstance(v, str): return v
            return lift_(v)
        if isinstance(e, ast.Name):
            if e.id in s.env: return s.env[e.id]
            if e.id in self.globals: return self.globals[e.id]
            if hasattr(builtins, e.id): return getattr(builtins, e.id)
            raise Unsupported("name %s" % e.id)
        if isinstance(e, ast.Tuple): return tuple(self.expr(x, s) for x in e.elts)
        if isinstance(e, ast.List): return [self.expr(x, s) for x in e.elts]
        if isinstance(e, ast.BinOp): return self.binop(e.op, self.expr(e.left, s), self.expr(e.right, s), s)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, s)
            if isinstance(e.op, ast.Not): return not_(truth(v))
            f = {ast.USub: neg, ast.UAdd: lambda x: x, ast.Invert: lambda x: not_(x) if x.sort == "B" else sub(const(-1), x)}[type(e.op)]
            return self.ew(f, [v], s)
        if isinstance(e, ast.BoolOp):
            vs = [truth(self.expr(x, s)) for x in e.values]
            return and_(*vs) if isinstance(e.op, ast.And) else or_(*vs)
        if isinstance(e, ast.Compare):
            left = self.expr(e.left, s); out = []
            for op, r in zip(e.ops, e.comparators):
                right = self.expr(r, s); out.append(self.cmp(op, left, right, s)); left = right
            if len(out) == 1: return out[0]
            return and_(*[truth(x) for x in out])
        if isinstance(e, ast.IfExp):
            c = truth(self.expr(e.test, s))
            if c is TRUE: return self.expr(e.body, s)
            if c is FALSE: return self.expr(e.orelse, s)
            return ite(c, lift_(self.expr(e.body, s)), lift_(self.expr(e.orelse, s)))
        if isinstance(e, ast.Attribute):
            v = self.expr(e.value, s)
            if isinstance(v, (Ref, Arr)):
                if e.attr == "shape": return tuple(self.shape(v))
                if e.attr == "dtype": return (s.heap[v.hid].dtype if isinstance(v, Ref) else v.dtype)
                if e.attr == "size":
                    return mul(const(1), *self.shape(v))
                if e.attr == "T":
                    a = self.read(v, s); return Arr(list(a.shape)[::-1], a.sort, lambda *ix: a(*ix[::-1]), a.dtype)
                if e.attr == "real": return self.ew(real, [v], s)
                if e.attr == "imag": return self.ew(imag, [v], s)
                return ("method", v, e.attr)
            if isinstance(v, T):
                if e.attr == "real": return real(v)
                if e.attr == "imag": return imag(v)
                return ("method", v, e.attr)
            if isinstance(v, Filtered): 
                if e.attr == "shape": return (v.count,)
                if e.attr == "size": return v.count
                return ("method", v, e.attr)
            return getattr(v, e.attr)
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value, s)
            return self.index(v, self.subs(e.slice, s), s)
        if isinstance(e, ast.Call): return self.callx(e, s, target)
        raise Unsupported("expression %s" % type(e).__name__)

    def ew(self, f, vs, s):
        arrs = [self.read(v, s) if isinstance(v, (Ref, Arr)) else v for v in vs]
        if any(isinstance(v, Filtered) for v in vs): raise Unsupported("arithmetic on a filtered array")
        if not any(isinstance(a, Arr) for a in arrs): return f(*[lift_(a) for a in arrs])
        nd = max(a.ndim for a in arrs if isinstance(a, Arr))
        shape = [None] * nd
        for a in arrs:
            if isinstance(a, Arr):
                for k, n in enumerate(a.shape):
                    j = k + nd - a.ndim
                    if shape[j] is None or isc(shape[j], 1): shape[j] = n

        def el(*ix):
            l = []
            for a in arrs:
                if isinstance(a, Arr): l.append(a(*[const(0) if isc(n, 1) and not isc(shape[k + nd - a.ndim], 1) else ix[k + nd - a.ndim] for k, n in enumerate(a.shape)]))
                else: l.append(lift_(a))
            return f(*l)
        probe = el(*[fresh("e") for _ in shape])
        return Arr(shape, probe.sort, el)

    def binop(self, op, a, b, s):
        if isinstance(a, (tuple, list)) and isinstance(op, ast.Add): return a + b
        f = {ast.Add: lambda x, y: add(num(x), num(y)), ast.Sub: lambda x, y: sub(num(x), num(y)), ast.Mult: lambda x, y: mul(num(x), num(y)), ast.Div: lambda x, y: div(num(x), num(y)),
             ast.FloorDiv: lambda x, y: fdiv(num(x), num(y)), ast.Mod: lambda x, y: mod(num(x), num(y)), ast.BitAnd: lambda x, y: and_(x, y) if x.sort == y.sort == "B" else band(num(x), num(y)),
             ast.BitOr: lambda x, y: or_(x, y) if x.sort == y.sort == "B" else sub(add(num(x), num(y)), band(num(x), num(y))),
             ast.BitXor: lambda x, y: not_(eq(x, y)) if x.sort == y.sort == "B" else sub(add(num(x), num(y)), mul(const(2), band(num(x), num(y)))), ast.Pow: pow_, ast.RShift: shr, ast.LShift: shl}.get(type(op))
        if f is None: raise Unsupported("operator %s" % type(op).__name__)
        return self.ew(f, [a, b], s)

    def cmp(self, op, a, b, s):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = (a is None) == (b is None) if (a is None or b is None) else a is b
            return TRUE if r == isinstance(op, ast.Is) else FALSE
        if a is None or b is None: return TRUE if (a is b) == isinstance(op, ast.Eq) else FALSE
        f = {ast.Eq: lambda x, y: eq(num(x), num(y)) if "B" not in (x.sort, y.sort) or x.sort != y.sort else eq(x, y), ast.NotEq: lambda x, y: not_(eq(num(x), num(y)) if x.sort != "B" or y.sort != "B" else eq(x, y)),
             ast.Lt: lambda x, y: lt(num(x), num(y)), ast.LtE: lambda x, y: le(num(x), num(y)), ast.Gt: lambda x, y: lt(num(y), num(x)), ast.GtE: lambda x, y: le(num(y), num(x))}.get(type(op))
        if f is None: raise Unsupported("comparison")
        return self.ew(f, [a, b], s)

    # ------------------------------------------------------------------ calls
    def callx(self, e, s, target=None):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super": return None   # base class constructor
        f = self.expr(e.func, s)
        args = [self.expr(a, s) for a in e.args]
        kw = {k.arg: self.expr(k.value, s) for k in e.keywords}
        if isinstance(f, tuple) and f and f[0] == "method": return self.method(f[1], f[2], args, kw, s)
        if f in (np.empty, np.zeros, np.ones, np.full): return self.alloc(f, args, kw, s, target)
        if f is np.append: return self.append(args, kw, s, target)
        if f is range:
            l = [lift_(a) for a in args]
            if len(l) == 1: return Rng(const(0), l[0])
            st = 1 if len(l) < 3 else int(l[2])
            return Rng(l[0], l[1], st)
        if f in (min, np.minimum): return self.ew(lambda x, y: tmin(num(x), num(y)), args, s) if len(args) == 2 else self.reduce("min", args, kw, s)
        if f in (max, np.maximum): return self.ew(lambda x, y: tmax(num(x), num(y)), args, s) if len(args) == 2 else self.reduce("max", args, kw, s)
        if f is len:
            v = args[0]
            return const(len(v)) if isinstance(v, (tuple, list)) else self.shape(v)[0]
        if f in (abs, np.abs): return self.ew(lambda x: ite(le(const(0), x), x, neg(x)) if x.sort == "I" else un("abs", num(x)), args, s)
        if f in (np.exp, np.log, np.sqrt, np.sin, np.cos, np.sign): return self.ew(lambda x: un(f.__name__, num(x)), args, s)
        if f in (np.conj, np.conjugate): return self.ew(lambda x: conj(num(x)), args, s)
        if f is np.real: return self.ew(lambda x: real(num(x)), args, s)
        if f in (np.sum, sum): return self.reduce("sum", args, kw, s)
        if f is np.prod: return self.reduce("prod", args, kw, s)
        if f is np.any: return self.reduce("any", args, kw, s)
        if f is np.all: return self.reduce("all", args, kw, s)
        if f is np.cumsum: return self.cumsum(args[0], s)
        if f is np.arange:
            l = [lift_(a) for a in args]
            lo, hi = (const(0), l[0]) if len(l) == 1 else (l[0], l[1])
            if len(l) > 2: raise Unsupported("arange step")
            return self.put(s, Arr([sub(hi, lo)], "I", lambda i: add(lo, i), np.int64))
        if f is np.finfo: return np.finfo(args[0])
        if f in (np.logical_and, np.logical_or): return self.ew(lambda x, y: (and_ if f is np.logical_and else or_)(truth(x), truth(y)), args, s)
        if f is np.logical_not: return self.ew(lambda x: not_(truth(x)), args, s)
        if f in (np.copy, np.asarray, np.array, np.ascontiguousarray):
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            if isinstance(args[0], (Ref, Arr)):
                r = self.read(args[0], s)
                if dt is not None: r = self.method(args[0], "astype", [dt], {}, s)
                return self.put(s, r)
            raise Unsupported("array construction")
        if f in (int, np.int64, np.int32): return self.ew(lambda x: coerce(x, "I"), args, s)
        if f in (float, np.float64): return self.ew(lambda x: coerce(x, "R"), args, s)
        if f in (bool, np.bool_): return self.ew(truth, args, s)
        if f in (np.uint8,): return self.ew(lambda x: wrapu(coerce(x, "I"), np.uint8), args, s)
        if f is np.where and len(args) == 3: return self.ew(lambda c, x, y: ite(truth(c), x, y), args, s)
        if f is np.zeros_like or f is np.empty_like or f is np.ones_like:
            a = self.read(args[0], s); z = const(1 if f is np.ones_like else 0, a.sort) if f is not np.empty_like else undef(a.sort)
            return self.put(s, Arr(a.shape, a.sort, lambda *ix: z, a.dtype))
        if f is np.nonzero or f is np.flatnonzero:
            a = self.read(args[0], s)
            r = Filtered(Arr(a.shape, "I", lambda i: i, np.int64), Arr(a.shape, "B", lambda i: truth(a(i))))
            return (r,) if f is np.nonzero else r
        if f is np.einsum: return self.einsum(args, s)
        if f is enumerate or f is zip: return (f, args)
        if f is np.count_nonzero: return self.reduce("sum", [self.ew(lambda x: coerce(truth(x), "I"), args, s)], kw, s)
        import types
        if hasattr(f, "py_func") or isinstance(f, types.FunctionType):
            return self.call(f, args, kw, s)
        raise Unsupported("call of %r" % (f,))

    def reduce(self, kind, args, kw, s):
        v = args[0]; ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if isinstance(v, Filtered):
            if kind != "sum": raise Unsupported("reduction of a filtered array")
            k = fresh("r"); return bind("sum", k, v.mask.shape[0], ite(v.mask(k), num(v.values(k)), const(0)))
        a = self.read(v, s)
        conv = (lambda t: truth(t)) if kind in ("any", "all") else num
        if ax is not None:
            k = int(lift_(ax)) % a.ndim
            def el(*ix):
                w = fresh("r"); return bind(kind, w, a.shape[k], conv(a(*(list(ix[:k]) + [w] + list(ix[k:])))))
            if a.ndim == 1: return el()
            return Arr([n for j, n in enumerate(a.shape) if j != k], a.sort if a.sort != "B" or kind in ("any", "all") else "I", el)
        ws = [fresh("r") for _ in a.shape]
        t = conv(a(*ws))
        for w, n in reversed(list(zip(ws, a.shape))): t = bind(kind, w, n, t)
        return t

    def einsum(self, args, s):
        ins, out = args[0].replace(" ", "").split("->"); ins = ins.split(",")
        ops = [self.read(a, s) for a in args[1:]]
        dims = {}
        for lab, a in zip(ins, ops):
            for l, n in zip(lab, a.shape): dims[l] = n
        summed = [l for l in dict.fromkeys("".join(ins)) if l not in out]

        def el(*ix):
            m = dict(zip(out, ix)); m.update({l: fresh("e") for l in summed})
            t = mul(const(1), *[num(a(*[m[l] for l in lab])) for lab, a in zip(ins, ops)])
            for l in reversed(summed): t = bind("sum", m[l], dims[l], t)
            return t
        so = join_sort([a.sort for a in ops])
        if not out: return el()
        return self.put(s, Arr([dims[l] for l in out], so, lambda *ix: coerce(el(*ix), so)))

    def cumsum(self, v, s):
        a = self.read(v, s)
        if a.ndim != 1: raise Unsupported("cumsum")

        def el(i):
            w = fresh("r"); return bind("sum", w, add(i, const(1)), num(a(w)))
        return self.put(s, Arr(a.shape, a.sort if a.sort != "B" else "I", el, np.int64))

    def method(self, v, name, args, kw, s):
        if name == "astype":
            dt = args[0] if args else kw["dtype"]
            so = sort_of(dt if not dt is int and not dt is float and not dt is complex and not dt is bool else np.dtype(dt))
            r = self.ew(lambda x: (truth(x) if so == "B" else coerce(x, so)), [v], s)
            if isinstance(r, Arr): r.dtype = np.dtype(dt)
            return r
        if name == "fill":
            self.write(v, args[0], s); return None
        if name == "copy": return self.put(s, self.read(v, s)) if not isinstance(v, Filtered) else v
        if name in ("sum", "prod", "any", "all", "min", "max"): return self.reduce(name, [v] + args, kw, s)
        if name == "cumsum": return self.cumsum(v, s)
        if name == "reshape": return self.reshape(v, args, s)
        if name in ("conj", "conjugate"): return self.ew(lambda x: conj(num(x)), [v], s)
        if name in ("flatten", "ravel"): return self.reshape(v, [const(-1)], s)
        raise Unsupported("method %s" % name)

    def reshape(self, v, args, s):
        from .jx import reshape as jreshape
        if len(args) == 1 and isinstance(args[0], tuple): args = list(args[0])
        old = self.shape(v); new = [lift_(a) for a in args]
        if any(isc(n, -1) for n in new):
            k = next(i for i, n in enumerate(new) if isc(n, -1))
            rest = mul(const(1), *[n for i, n in enumerate(new) if i != k]); q = self.quot(mul(const(1), *old), rest)
            new[k] = q
        h = s.heap[v.hid] if isinstance(v, Ref) else None
        if h is not None and h.app is None and all(a[0] == "s" and isc(a[1], 0) and a[2] is n for a, n in zip(v.axes, h.shape)):
            # whole array: same memory under a new shape.  The new name becomes the owner; the old one may only be dead or an
            # argument that is returned under its new shape
            r = self.put(s, jreshape(self.read(v, s), new)); s.heap[r.hid].dtype = h.dtype
            return r
        return jreshape(self.read(v, s), new)

    def quot(self, a, b):
        r = div(retag(a, "R"), retag(b, "R"))
        i = Tm.real_as_int(r)
        if i is not None: return i
        if r.op == "mul" or r.op == "up" or r.op == "pow": pass
        raise Unsupported("reshape with unknown size %s / %s" % (show(a), show(b)))

    def alloc(self, f, args, kw, s, target):
        shp = args[0]; dt = kw.get("dtype", args[1] if len(args) > 1 and f is not np.full else np.float64)
        shape = [lift_(x) for x in shp] if isinstance(shp, (tuple, list)) else [lift_(shp)]
        so = sort_of(np.dtype(dt)) if not isinstance(dt, np.dtype) else sort_of(dt)
        fill = {np.zeros: const(0, so if so != "B" else "I"), np.ones: const(1, so if so != "B" else "I"), np.empty: undef(so)}.get(f)
        if f is np.full: fill = lift_(args[1])
        h = next(_hid)
        app = target if (target in self.outnames and f is not np.full and self.append_outputs) else None
        s.heap[h] = HArr(shape, so, lambda *ix: fill, np.dtype(dt), app)
        if app is not None: self.app_fill = getattr(self, "app_fill", {}); self.app_fill[app] = fill
        return Ref(h, [("s", const(0), n) for n in shape])

    def append(self, args, kw, s, target):
        """np.append(buffer, np.empty(k)): the output buffer grows by k rows"""
        a, b = args
        if isinstance(a, Ref) and s.heap[a.hid].app is not None and target == s.heap[a.hid].app:
            h = s.heap[a.hid]
            n = self.shape(b)[0]
            shape = [add(h.shape[0], n)] + list(h.shape[1:])
            s.heap[a.hid] = HArr(shape, h.sort, h.el, h.dtype, h.app)
            return Ref(a.hid, [("s", const(0), m) for m in shape])
        raise Unsupported("np.append")

    # ------------------------------------------------------------------ loops
    def loop(self, st, s):
        if st.orelse: raise Unsupported("for-else")
        it = self.expr(st.iter, s)
        if isinstance(it, tuple) and it and it[0] is enumerate:
            base = it[1][0]; tgt = st.target
            if isinstance(base, (Ref, Arr)):
                n = self.shape(base)[0]; return self.symloop(st, s, n, lambda v, q: (v, self.index(base, [v], q)), None)
            raise Unsupported("enumerate")
        if isinstance(it, tuple) and it and it[0] is zip:
            n = self.shape(it[1][0])[0]; return self.symloop(st, s, n, lambda v, q: tuple(self.index(b, [v], q) for b in it[1]), None)
        if isinstance(it, Rng):
            if it.step == 1: n = sub(it.hi, it.lo); el = lambda v, q: add(it.lo, v)
            elif it.step == -1: n = sub(it.lo, it.hi); el = lambda v, q: sub(it.lo, v)
            else: raise Unsupported("range step")
            return self.symloop(st, s, n, el, None)
        if isinstance(it, Filtered):
            return self.symloop(st, s, it.mask.shape[0], lambda v, q: it.values(v), it.mask)
        if isinstance(it, (tuple, list)):
            for x in it:
                self.assign(st.target, x, s); self.block(st.body, s); s.flag = None if s.flag == "cont" else s.flag
                if s.flag: raise Unsupported("return inside a loop")
            return
        if isinstance(it, (Ref, Arr)):
            n = self.shape(it)[0]
            return self.symloop(st, s, n, lambda v, q: self.index(it, [v], q), None)
        raise Unsupported("iteration over %r" % (it,))

    def body(self, st, q, v, el, mask):
        """one iteration, in place on q"""
        if mask is not None:
            c = mask(v)
            a, b = q.copy(), q.copy(); a.pc = q.pc + (c,)
            if c is FALSE: return
            self.assign(st.target, el(v, a), a); self.block(st.body, a)
            if a.flag == "ret": raise Unsupported("return inside a loop")
            a.flag = None
            if c is TRUE:
                q.__dict__.update(a.__dict__); return
            self.merge(q, c, a, b); return
        self.assign(st.target, el(v, q), q); self.block(st.body, q)
        if q.flag == "ret": raise Unsupported("return inside a loop")
        q.flag = None

    def symloop(self, st, s, n, el, mask):
        if n.op == "c":
            if int(n.val) > 24: raise Unsupported("long concrete loop")
            for k in range(max(0, int(n.val))): self.body(st, s, const(k), el, mask)
            return
        for x in ast.walk(st):
            if isinstance(x, (ast.Break, ast.While)): raise Unsupported(type(x).__name__)
        v = fresh("j")
        rng = (le(const(0), v), lt(v, n))
        names = sorted({x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & set(s.env))
        tn = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        names = [x for x in names if x not in tn and isinstance(s.env[x], (T, int, float, bool))]
        init = {x: lift_(s.env[x]) for x in names}
        F0 = s.F
        guess = {x: sub(init[x], F0) for x in names if init[x].sort == "I" and sub(init[x], F0).op == "c" and F0.op != "c"} if F0 is not None else {}
        if F0 is not None and F0.op == "c":
            # a concrete cursor: names with the same value that are used as an index of an output buffer
            idxn = self.cursor_names(st, s)
            guess = {x: sub(init[x], F0) for x in names if x in idxn and sub(init[x], F0).op == "c"}
        Fs = fresh("F")
        sy = {x: (fresh("F") if False else mk("f", (), init[x].sort if init[x].sort != "B" else "B", "carry_%s!%d" % (x, next(Tm._fresh)))) for x in names if x not in guess}
        closed = {}
        hsym = {}
        hclosed = {}
        lsym = {}; lclosed = {}; ldelta = {}
        Fclosed = None
        cn = lambda: {t.val for x, t in sy.items() if x not in closed} | {nm for h, nm in hsym.items() if h not in hclosed}
        out = None
        side0 = len(self.side)
        for rnd in range(8):
            del self.side[side0:]
            q = s.copy(); q.pc = s.pc + rng; q.log = (); q.cur = None
            q.F = Fclosed(v) if Fclosed else Fs
            for x in names:
                if x in closed: q.env[x] = closed[x](v)
                elif x in guess: q.env[x] = add(q.F, guess[x])
                else: q.env[x] = sy[x]
            for h, nm in hsym.items():
                a = s.heap[h]
                if h in hclosed: q.heap[h] = HArr(a.shape, a.sort, (lambda f: lambda *ix: f(v, *ix))(hclosed[h]), a.dtype)
                else: q.heap[h] = HArr(a.shape, a.sort, (lambda nm, so: lambda *ix: mk("f", ix, so, nm))(nm, a.sort), a.dtype)
            for h, sy_ in lsym.items():
                a = s.heap[h]; shape = [lclosed[h](v) if h in lclosed else sy_] + list(a.shape[1:])
                q.heap[h] = HArr(shape, a.sort, a.el, a.dtype, a.app)
                for x, r in list(q.env.items()):
                    if isinstance(r, Ref) and r.hid == h: q.env[x] = Ref(h, [("s", const(0), m) for m in shape])
            start = dict(q.env); startF = q.F; sheap = dict(q.heap)
            self.body(st, q, v, el, mask)
            out = q
            prog = False
            # arrays written for the first time become carries
            new = [h for h in s.heap if q.heap.get(h) is not sheap[h] and s.heap[h].app is None and h not in hsym]
            if new:
                for h in new: hsym[h] = "carryA!%d" % next(Tm._fresh)
                continue
            new = [h for h in s.heap if s.heap[h].app is not None and h not in lsym and q.heap[h].shape[0] is not s.heap[h].shape[0]]
            if new:
                for h in new: lsym[h] = fresh("len")
                continue
            for h, sy_ in lsym.items():
                if h in lclosed: continue
                d = sub(q.heap[h].shape[0], sy_)
                if sy_.val in d.free or mentions(d, cn()): raise Unsupported("buffer length")
                ldelta[h] = d
                lclosed[h] = (lambda h, d: lambda jt: add(s.heap[h].shape[0], self.sumto(v, jt, d)))(h, d); prog = True
            # cursor
            if Fclosed is None:
                d = sub(q.F, startF)
                names_bad = cn() | {Fs.val}
                if Fs.val not in d.free and not mentions(d, cn()):
                    Fclosed = (lambda d: lambda jt: F0 if isc(d, 0) else add(F0, self.sumto(v, jt, d)))(d); prog = True
                else: raise Unsupported("row count depends on a loop carry: %s | %s" % (show(d)[:800], names_bad))
                for x in guess:
                    if x not in closed and isinstance(q.env.get(x), T) and sub(q.env[x], q.F) is guess[x]:
                        closed[x] = (lambda x: lambda jt: add(Fclosed(jt), guess[x]))(x)
                    elif x not in closed:
                        # not a cursor after all
                        guess.pop(x) if False else None
                        raise Unsupported("counter %s is not the row cursor" % x)
                continue
            for x in names:
                if x in closed: continue
                t = q.env.get(x); me = sy[x]
                if not isinstance(t, T): raise Unsupported("loop variable %s" % x)
                f = self.close(t, me, v, init[x], cn())
                if f is not None: closed[x] = f; prog = True
            for h, nm in hsym.items():
                if h in hclosed: continue
                f = self.close_arr(q.heap[h], s.heap[h], nm, v, n, cn())
                if f is not None: hclosed[h] = f; prog = True
            if len(closed) == len(names) and len(hclosed) == len(hsym):
                if not prog: break
                continue
            if not prog and __import__("os").environ.get("PYKDBG"):
                for h, nm in hsym.items():
                    if h not in hclosed: ii = [fresh("i") for _ in q.heap[h].shape]; print("UNSUMMARISED", v, nm, show(q.heap[h].el(*ii))[:1500], ii)
            if not prog: raise Unsupported("loop not summarised: %s" % ([x for x in names if x not in closed] + [nm for h, nm in hsym.items() if h not in hclosed]))
        else: raise Unsupported("loop fixpoint")
        # verified: the last run used closed forms only.  Check that they are reproduced (induction step)
        for x in names:
            want = closed[x](add(v, const(1))); got = out.env[x]
            if not self.same(got, want, s.pc + rng): raise Unsupported("loop invariant for %s not inductive" % x)
        for h in hsym:
            ix = [fresh("i") for _ in s.heap[h].shape]
            if not self.same(out.heap[h].el(*ix), hclosed[h](add(v, const(1)), *ix), s.pc + rng + tuple(c for i, m in zip(ix, s.heap[h].shape) for c in (le(const(0), i), lt(i, m)))): raise Unsupported("loop invariant for an array not inductive")
        n1 = n if self.nonneg(n, s.pc) else tmax(const(0), n)
        log = out.log
        cnt = n1
        for x in names: s.env[x] = closed[x](cnt)
        for x in tn: s.env.pop(x, None)
        for x in list(s.env):
            if x not in names and x in out.env and out.env[x] is not s.env[x] and x not in tn: s.env[x] = None
        for x in out.env:
            if x not in s.env and x not in tn:
                # first bound inside the loop: its value after the loop is that of the last iteration
                t = out.env[x]
                if isinstance(t, T): s.env[x] = subst(t, {v.val: sub(cnt, const(1))})
        for h in hsym:
            a = s.heap[h]; s.heap[h] = HArr(a.shape, a.sort, (lambda f: lambda *ix: f(cnt, *ix))(hclosed[h]), a.dtype)
        # output buffers that grow in the loop (np.append)
        for h, f in lclosed.items():
            a = s.heap[h]; shape = [f(cnt)] + list(a.shape[1:])
            s.heap[h] = HArr(shape, a.sort, a.el, a.dtype, a.app)
            self.growth.append((h, v, cnt, ldelta[h], s.pc))
            for x, r in list(s.env.items()):
                if (isinstance(r, Ref) and r.hid == h) or (x in out.env and isinstance(out.env[x], Ref) and out.env[x].hid == h): s.env[x] = Ref(h, [("s", const(0), m) for m in shape])
        if log:
            s.log = s.log + (LoopLog(v, cnt, log),); s.cur = None
        s.F = Fclosed(cnt)

    def cursor_names(self, st, s):
        """names used as the leading index of an output buffer inside the loop"""
        out = set(); bufs = {x for x, r in s.env.items() if isinstance(r, Ref) and s.heap[r.hid].app is not None}
        for x in ast.walk(st):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in bufs:
                sl = x.slice.elts[0] if isinstance(x.slice, ast.Tuple) else x.slice
                for y in ast.walk(sl):
                    if isinstance(y, ast.Name): out.add(y.id)
        return out

    def sumto(self, v, jt, d):
        w = fresh("w"); return bind("sum", w, jt, subst(d, {v.val: w}))

    def nonneg(self, n, pc): return n.op == "v" or (n.op == "c" and n.val >= 0)

    def same(self, a, b, pc):
        if a is b: return True
        if a is None or b is None: return False
        if a.sort == "B" or b.sort == "B": return a is b
        from .solve import Ctx, prove_zero
        import time
        cx = Ctx(list(self.hyps) + list(pc), self.facts); cx.eqrules = {}; cx.small = getattr(self, "small", {}); cx.deadline = time.time() + 20
        return bool(prove_zero(sub(a, b), cx))
    hyps = (); facts = {}

    def close(self, t, me, v, init, names):
        """closed form (function of the iteration count) of a scalar carry"""
        if t is me: return lambda jt: init
        if not mentions(t, names):
            if v.val not in t.free and t is init: return lambda jt: init
            return lambda jt: ite(le(jt, const(0)), init, subst(t, {v.val: sub(jt, const(1))}))
        if t.sort == "B": return None
        d = sub(t, me)
        if mentions(d, names): d = split_delta(t, me, names)
        if d is not None: return lambda jt: add(init, self.sumto(v, jt, d))
        r = split_ratio(t, me, names)
        if r is not None:
            def f(jt):
                w = fresh("w"); return mul(init, bind("prod", w, jt, subst(r, {v.val: w})))
            return f
        return None

    def close_arr(self, a, a0, nm, v, n, names):
        ix = [fresh("i") for _ in a.shape]
        me = mk("f", ix, a.sort, nm)
        t = at_cell(a.el(*ix), me, ix)
        others = names - {nm}
        if t is me: return lambda jt, *i: a0.el(*i)
        # partitioned by one axis: the element at position p of that axis is only touched by iteration p
        for k, i in enumerate(ix):
            off = replace_conds(t, {eq(i, v).id: FALSE})
            if off is me or self.is_me(off, me, v, i):
                here = subst(t, {i.val: v})
                if mentions(here, others): continue
                own = subst(me, {i.val: v})
                if any(x.op == "f" and x.val == nm and x is not own for x in walk(here)): continue
                def f(jt, *jx, k=k, here=here, own=own):
                    p = jx[k]
                    val = replace_terms(here, {own.id: mk("f", ix[:k] + [v] + ix[k + 1:], a.sort, "own!")})
                    m = {v.val: p}; m.update({x.val: y for q, (x, y) in enumerate(zip(ix, jx)) if q != k})
                    val = subst(val, m)
                    own2 = mk("f", jx, a.sort, "own!")
                    val = replace_terms(val, {own2.id: a0.el(*jx)})
                    return ite(and_(le(const(0), p), lt(p, jt)), val, a0.el(*jx))
                return f
        if mentions(t, others): return None
        # accumulation
        d = sub(t, me)
        if mentions(d, names): d = split_delta(t, me, names)
        if d is not None:
            def f(jt, *jx):
                w = fresh("w"); return add(a0.el(*jx), bind("sum", w, jt, subst(d, dict([(x.val, y) for x, y in zip(ix, jx)] + [(v.val, w)]))))
            return f
        r = split_ratio(t, me, names)
        if r is not None:
            def f(jt, *jx):
                w = fresh("w"); return mul(a0.el(*jx), bind("prod", w, jt, subst(r, dict([(x.val, y) for x, y in zip(ix, jx)] + [(v.val, w)]))))
            return f
        return None

    def is_me(self, t, me, v, i):
        """t equals me unless i == v"""
        from .solve import Ctx, prove_zero
        import time
        cx = Ctx(list(self.hyps) + [not_(eq(i, v))], self.facts); cx.small = getattr(self, "small", {}); cx.deadline = time.time() + 5
        try: return bool(prove_zero(sub(t, me), cx))
        except Exception: return False


def at_cell(t, me, ix):
    """element of an array after one iteration: where the index equals the written one, the old value of that cell is the old value here"""
    if t.op != "ite": return t
    from .solve import solve_for
    c, x, y = t.args
    m = {}
    for g in (c.args if c.op == "and" else (c,)):
        if g.op != "eq": continue
        for i in ix:
            e = solve_for(g, i)
            if e is not None and i.val not in m: m[i.val] = e; break
    if m:
        cell = subst(me, m)
        if cell is not me: x = replace_terms(x, {cell.id: me})
    return ite(c, at_cell(x, me, ix), at_cell(y, me, ix))


def split_ratio(t, me, names, depth=0):
    r = div(t, me)
    if not mentions(r, names): return r
    if depth > 6: return None
    for x in walk(t):
        if x.op in ("eq", "le", "lt") and not mentions(x, names) and not any(z[0] == "b" and z[1:].isdigit() for z in x.free):
            a, b = (split_ratio(replace_conds(t, {x.id: u, not_(x).id: not_(u)}), me, names, depth + 1) for u in (TRUE, FALSE))
            return None if a is None or b is None else ite(x, a, b)
    return None


def join_sort(ss): return max((x if x != "B" else "I" for x in ss), key="BIRC".index)


def num(x):
    x = lift_(x)
    return coerce(x, "I") if x.sort == "B" else x


def pow_(x, y):
    y = num(y); x = num(x)
    if y.op == "c" and y.val.denominator == 1: return power(x, int(y.val))
    if isc(x, -1) and y.sort == "I": return ite(eq(mod(y, const(2)), const(0)), const(1), const(-1))
    raise Unsupported("power")


def shr(x, y):
    y = num(y)
    if y.op != "c": raise Unsupported("shift")
    return fdiv(num(x), const(2 ** int(y.val)))


def shl(x, y):
    y = num(y)
    if y.op != "c": raise Unsupported("shift")
    return mul(num(x), const(2 ** int(y.val)))


def _load(t):
    import copy
    t = copy.deepcopy(t); t.ctx = ast.Load()
    return t


# ---------------------------------------------------------------------------------------------- block sums
def total(log, f):
    """sum of f(emission) over a log"""
    out = const(0)
    for e in log:
        if isinstance(e, Emit): out = add(out, f(e))
        elif isinstance(e, LoopLog): out = add(out, bind("sum", e.v, e.n, total(e.log, f)))
        else: out = add(out, ite(e.c, total(e.a, f), total(e.b, f)))
    return out


def emissions(log, pc=()):
    """all emissions with their path conditions (loop variables left free, in range)"""
    for e in log:
        if isinstance(e, Emit): yield pc, e
        elif isinstance(e, LoopLog): yield from emissions(e.log, pc + (le(const(0), e.v), lt(e.v, e.n)))
        else:
            yield from emissions(e.a, pc + (e.c,)); yield from emissions(e.b, pc + (not_(e.c),))
