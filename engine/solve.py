"""Deciding obligations: contextual simplification, case splitting and index reasoning by z3; field identities by
expansion into Laurent polynomials over opaque atoms (exact rational arithmetic)."""
import sys, time
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from .terms import *
from . import flat
from . import terms as Tm

STATS = {"z3_queries": 0, "z3_s": 0.0, "unknown": 0, "nf": 0}
import os
DEEP = bool(os.environ.get('VERIF_DEEP'))
Z3_TIMEOUT = 8000


class Budget(Exception):
    pass


class Ctx:
    """hypotheses (boolean terms) + facts about input arrays, instantiated at every occurrence"""

    def __init__(self, hyps=(), facts=None, rewrites=None, deadline=None):
        self.hyps = []
        self.facts = facts or {}
        self.rw = dict(rewrites or {}); self.rwt = {}
        self.eqrules = {}; self.frules = {}; self.guarded = False; self.splitsmall = False
        self.small = {}            # input arrays with values in 0..k-1, k a small constant
        self.solver = None
        self.cache = {}
        self.deadline = deadline
        for h in hyps: self._add(h)

    def extend(self, *hs):
        c = Ctx.__new__(Ctx)
        c.hyps = list(self.hyps); c.facts = self.facts; c.eqrules = self.eqrules; c.frules = self.frules; c.small = self.small; c.guarded = self.guarded; c.splitsmall = self.splitsmall; c.rw = dict(self.rw); c.rwt = self.rwt; c.solver = None; c.cache = {}; c.deadline = self.deadline
        for h in hs: c._add(h)
        return c

    def _add(self, h):
        if h is TRUE: return
        if h.op == "and":
            for a in h.args: self._add(a)
            return
        self.hyps.append(h)
        if h.op == "le" and h.args[0].sort == "I":
            o = le(neg(h.args[0]), const(0))
            if any(x is o for x in self.hyps): self._orient(h.args[0])
        if h.op == "eq" and h.args[0].sort == "I": self._orient(h.args[0])
        if h.op == "eq" and h.args[0].sort in ("R", "C"): self._orient(h.args[0])
        if h.op == "not" and h.args[0].op == "eq" and self.small: self._last(h.args[0].args[0])
        if h.op == "not" and h.args[0].op == "eq":
            m, k = _eqconst(h.args[0].args[0])
            if m is not None and m.op == "mod" and isc(m.args[1], 2) and k in (0, 1): self._orient(sub(m, const(1 - int(k))))

    def _last(self, d):
        """values of a small-range input excluded one by one: the last one left is its value"""
        b, v = _eqconst(d)
        K = self.small.get(b.val) if b is not None and b.op == "f" else None
        if K is None: return
        out = set()
        for h in self.hyps:
            if h.op == "not" and h.args[0].op == "eq":
                b2, v2 = _eqconst(h.args[0].args[0])
                if b2 is b: out.add(v2)
        left = [k for k in range(K) if k not in out]
        if len(left) == 1: self._orient(sub(b, const(left[0])))

    def _orient(self, d):
        d = self.norm(d)
        if d.op == "c": return
        parts = d.args if d.op == "add" else (d,)
        best = None
        for p in parts:
            c, b = Tm._split(p)
            if b is None or (d.sort == "I" and abs(c) != 1): continue
            if b.op not in ("v", "f") and not (b.op == "mod" and all(q is p or q.op == "c" for q in parts)): continue
            rest = add(*[q for q in parts if q is not p]) if len(parts) > 1 else const(0, d.sort)
            if any(x is b for x in walk(rest)): continue
            # prefer replacing applications, then younger variables
            key = (0 if b.op == "f" else 1, -b.id)
            if best is None or key < best[0]: best = (key, b, mul(const(-1 / c if d.sort != "I" else -c, d.sort), rest))
        if best is not None:
            self.rw[best[1].id] = best[2]; self.rwt = dict(self.rwt); self.rwt[best[1].id] = best[1]
            for k, l in list(self.rwt.items()):
                if k != best[1].id and k in self.rw and l.op == "f" and any(x is best[1] for x in walk(l)):
                    # the rewritten left-hand side carries the same value
                    l2 = rebuild(l, [self.norm(a) for a in l.args])
                    if l2 is not l and l2.id not in self.rw and not any(x is l2 for x in walk(self.rw[k])): self.rw[l2.id] = self.norm(self.rw[k]); self.rwt[l2.id] = l2
            # keep the system solved
            for k in list(self.rw):
                if k != best[1].id: self.rw[k] = self.norm(self.rw[k])

    def norm(self, t):
        if not self.rw: return t
        memo = {}

        def go(t):
            r = memo.get(t.id)
            if r is not None: return r
            if t.id in self.rw:
                r = self.rw[t.id]
                if r is not t: r = go(r)
            elif not t.args: r = t
            elif t.op in BINDERS:
                n = go(t.args[0]); v = fresh(); b = self.norm(open_(t, v))
                r = bind(t.op, v, n, b)
            else:
                a = [go(x) for x in t.args]
                r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
                if r.id in self.rw: r = go(r)
            memo[t.id] = r
            return r
        return go(t)

    # ---------------------------------------------------------------- z3
    def _fact_terms(self, ts, seen):
        out, todo = [], list(ts)
        rounds = 0
        while todo and rounds < 4:
            nxt = []
            for t in todo:
                for x in iter_apps(t):
                    if x.id in seen: continue
                    seen.add(x.id)
                    f = self.facts.get(x.val)
                    if f is not None:
                        for h in f(*x.args):
                            if h is not TRUE: out.append(h); nxt.append(h)
            todo = nxt; rounds += 1
        return out

    def _base(self):
        """solver holding the hypotheses and the facts about the inputs they mention"""
        if self.solver is None or self.nbase != len(self.hyps):
            self.solver = z3.Solver(); self.solver.set("timeout", 2000); self.nbase = len(self.hyps)
            self.bseen = set(); self.bterms = list(self.hyps) + self._fact_terms(self.hyps, self.bseen)
            for t in self.bterms: self.solver.add(ENC.top(t))
            for t in self.bterms: 
                for x in ENC.axioms(t): self.solver.add(x)

    def check(self, *extra):
        """satisfiability of hyps + extra: 'sat' | 'unsat' | 'unknown'"""
        if self.deadline and time.time() > self.deadline: raise Budget()
        self._base()
        ts = list(extra); ts = ts + self._fact_terms(ts, set(self.bseen))
        s = self.solver; s.push()
        for t in ts:
            s.add(ENC.top(t))
            for x in ENC.axioms(t): s.add(x)
        t0 = time.time(); r = s.check(); STATS["z3_s"] += time.time() - t0; STATS["z3_queries"] += 1
        s.pop()
        if r == z3.unknown:
            s = z3.Solver(); s.set("timeout", Z3_TIMEOUT)
            for t in self.bterms + ts:
                s.add(ENC.top(t))
                for x in ENC.axioms(t): s.add(x)
            t0 = time.time(); r = s.check(); STATS["z3_s"] += time.time() - t0
            if r == z3.unknown: STATS["unknown"] += 1
        return str(r)

    def implies(self, c):
        if c is TRUE: return True
        if c is FALSE: return self.check() == "unsat"
        r = self.cache.get(c.id)
        if r is None:
            r = self.check(not_(c)) == "unsat"
            self.cache[c.id] = r
        return r

    def decide(self, c):
        """True / False / None"""
        if c is TRUE: return True
        if c is FALSE: return False
        k = ("d", c.id)
        if k in self.cache: return self.cache[k]
        for h in self.hyps:
            if h is c: self.cache[k] = True; return True
        n = not_(c)
        for h in self.hyps:
            if h is n: self.cache[k] = False; return False
        r = True if self.implies(c) else (False if self.implies(not_(c)) else None)
        self.cache[k] = r
        return r

    def inconsistent(self):
        if "inc" not in self.cache: self.cache["inc"] = self.check() == "unsat"
        return self.cache["inc"]


def _eqconst(d):
    """d == 0 as (term, value)"""
    parts = d.args if d.op == "add" else (d,)
    cs = [p for p in parts if p.op == "c"]; bs = [p for p in parts if p.op != "c"]
    if len(bs) != 1: return None, None
    c, b = Tm._split(bs[0])
    if b is None or abs(c) != 1: return None, None
    return b, -(cs[0].val if cs else 0) / c


def iter_apps(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "f": yield x
        if x.op in BINDERS: st.append(x.args[0]); continue
        st.extend(x.args)


class Enc:
    """terms to z3; memoised for the whole run (terms are hash-consed and never collected)"""
    def __init__(self):
        self.memo = {}; self.ax = {}; self.cur = []

    def top(self, t): return self.e(t)

    def axioms(self, t): return self.ax[t.id]

    def opaque(self, t, sort):
        k = "o%d" % t.id
        return z3.Int(k) if sort == "I" else (z3.Bool(k) if sort == "B" else z3.Real(k))

    def b(self, t): return self.e(t)

    def e(self, t):
        r = self.memo.get(t.id)
        if r is None:
            old, self.cur = self.cur, []
            r = self._e(t); self.memo[t.id] = r
            self.ax[t.id] = tuple(self.cur); self.cur = old
        if self.ax[t.id]: self.cur.extend(x for x in self.ax[t.id] if not any(x is y for y in self.cur))
        return r

    def num(self, t):
        x = self.e(t)
        return z3.ToReal(x) if z3.is_int(x) else x

    def _e(self, t):
        o = t.op; e = self.e
        if t.sort == "C" and o != "up": return self.opaque(t, "R")
        if o == "c": return z3.IntVal(int(t.val)) if t.sort == "I" else z3.RealVal(str(t.val))
        if o == "b": return z3.BoolVal(t.val)
        if o == "v": return z3.Int(t.val) if t.sort == "I" else (z3.Bool(t.val) if t.sort == "B" else z3.Real(t.val))
        if o == "f":
            if any(a.sort not in ("I", "B") for a in t.args): return self.opaque(t, t.sort)
            args = [e(a) if a.sort == "I" else z3.If(e(a), z3.IntVal(1), z3.IntVal(0)) for a in t.args]
            rs = {"I": z3.IntSort(), "B": z3.BoolSort()}.get(t.sort, z3.RealSort())
            if not args: return z3.Const(t.val, rs)
            return z3.Function(t.val, *([z3.IntSort()] * len(args) + [rs]))(*args)
        if o == "add":
            if t.sort == "I": return z3.Sum([e(a) for a in t.args])
            return z3.Sum([self.num(a) for a in t.args])
        if o == "mul":
            l = [e(a) if t.sort == "I" else self.num(a) for a in t.args]
            r = l[0]
            for x in l[1:]: r = r * x
            return r
        if o == "pow":
            b = e(t.args[0]) if t.sort == "I" else self.num(t.args[0])
            n = t.val; r = b
            for _ in range(abs(n) - 1): r = r * b
            return r if n > 0 else 1 / r
        if o in ("up", "down"): return self.num(t.args[0]) if t.args[0].sort != "C" else self.opaque(t, "R")
        if o == "eq":
            a = t.args[0]
            if a.sort == "C": return self.opaque(t, "B")
            return e(a) == 0
        if o in ("le", "lt"):
            a = t.args[0]
            return e(a) <= 0 if o == "le" else e(a) < 0
        if o == "and": return z3.And([e(a) for a in t.args])
        if o == "or": return z3.Or([e(a) for a in t.args])
        if o == "not": return z3.Not(e(t.args[0]))
        if o == "ite":
            if t.sort in ("I", "B"): return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
            return z3.If(e(t.args[0]), self.num(t.args[1]), self.num(t.args[2]))
        if o == "mod": return e(t.args[0]) % e(t.args[1])
        if o == "fdiv": return e(t.args[0]) / e(t.args[1])
        if o == "u":
            if t.val == "abs" and t.args[0].sort == "R":
                x = self.num(t.args[0]); return z3.If(x >= 0, x, -x)
            if t.val == "sign" and t.args[0].sort == "R":
                x = self.num(t.args[0]); return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
            r = self.opaque(t, "R")
            if t.val == "exp" and t.sort == "R": self.cur.append(r > 0)
            return r
        return self.opaque(t, t.sort)


ENC = Enc()


# ---------------------------------------------------------------- simplification under hypotheses
def simp(t, ctx, guard=False):
    """t under the hypotheses; guard: t is a summand (contextual simplification of guarded terms)"""
    t = ctx.norm(t)
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None: return r
        o = t.op
        if not t.args: r = t
        elif o == "ite":
            c = go(t.args[0])
            d = ctx.decide(c)
            if d is True: r = go(t.args[1])
            elif d is False: r = go(t.args[2])
            elif guard and (isc(t.args[1], 0) or isc(t.args[2], 0)):
                # a guarded summand: its body is simplified under the guard
                z = isc(t.args[2], 0); cx = ctx.extend(c if z else not_(c)); b = t.args[1 if z else 2]
                if cx.inconsistent(): r = const(0, t.sort)
                else:
                    b = simp(b, cx, True)
                    r = ite(c, b, const(0, b.sort)) if z else ite(c, const(0, b.sort), b)
            else:
                r = ite(c, under(go(t.args[1]), c, TRUE), under(go(t.args[2]), c, FALSE))
                if r.op == "ite" and ctx.small and r.sort in "IR": r = tabulate(r, ctx)
                if r.op == "ite" and r.args[0].op == "eq": r = absorb(r, ctx)
        elif o in ("eq", "le", "lt"):
            c = rebuild(t, [go(a) for a in t.args])
            if c.op == "eq" and ctx.eqrules: c = apply_eqrules(c, ctx)
            if c.op == "eq" and ctx.small: c = small_eq(c, ctx)
            if c.op == "le" and ctx.small: c = small_le(c, ctx)
            if c.op in ("not", "or", "and"): memo[t.id] = go(c); return memo[t.id]
            if c.op != "b" and c.args[0].sort == "R":
                x = c.args[0]
                if pos(x, ctx, o != "lt"): c = FALSE
                elif o != "eq" and pos(neg(x), ctx, o == "lt"): c = TRUE
            d = ctx.decide(c) if c.op != "b" and c.args[0].sort != "C" else None
            r = TRUE if d is True else FALSE if d is False else c
        elif o == "mod":
            a, n = go(t.args[0]), go(t.args[1])
            a, _ = multiples(a, n, ctx)
            r = mod(a, n)
            if r.op == "mod" and ctx.decide(and_(le(const(0), a), lt(a, n))): r = a
            if r.op == "mod" and ctx.small: r = tabulate(r, ctx)
        elif o == "fdiv":
            a, n = go(t.args[0]), go(t.args[1])
            a, k = multiples(a, n, ctx)
            r = fdiv(a, n)
            if r.op == "fdiv" and ctx.decide(and_(le(const(0), a), lt(a, n))): r = const(0)
            if r.op == "fdiv" and ctx.small: r = tabulate(r, ctx)
            if k is not None: r = add(r, k)
        elif o in BINDERS:
            n = go(t.args[0])
            v = fresh()
            cx = ctx.extend(le(const(0), v), lt(v, n))
            if o in ("sum", "prod", "any", "all") and cx.inconsistent():
                r = {"sum": const(0, t.sort), "prod": const(1, t.sort), "any": FALSE, "all": TRUE}[o]
            else:
                b = simp(open_(t, v), cx, ctx.guarded and o == "sum" and t.height > 1)
                r = rebind(o, v, n, b, ctx)
        else:
            r = rebuild(t, [go(a) for a in t.args])
            if r.id in ctx.rw: r = ctx.rw[r.id]
            if r.op == "f" and r.val in ctx.frules:
                q = ctx.frules[r.val](*r.args)           # (condition, value) known from the facts
                if q is not None and ctx.decide(q[0]): r = q[1]
            if r.op == "u" and r.val in ("sign", "abs") and r.args[0].sort == "R" and pos(r.args[0], ctx, r.val == "sign"): r = const(1, "R") if r.val == "sign" else r.args[0]
        memo[t.id] = r
        return r
    return go(t)


def multiples(a, n, ctx):
    """a = a' + k*n for a symbolic n > 0: (a', k)"""
    if n.op != "v" or a.op not in ("add", "mul", "v"): return a, None
    k = rest = None
    for u in (a.args if a.op == "add" else (a,)):
        c, b = Tm._split(u)
        if b is n and c.denominator == 1: k = const(int(c)); rest = u
    if k is None or not ctx.decide(lt(const(0), n)): return a, None
    return sub(a, rest), k


def under(t, c, val):
    """t where the condition c is known to have the truth value val"""
    if c.op in ("eq", "le", "lt") and t.args and any(x is c for x in walk_open(t)): return replace_conds(t, {c.id: val})
    return t


def absorb(r, ctx):
    """ite(v == e, f(e), f(v)) is f(v)"""
    d = r.args[0].args[0]
    if d.sort != "I": return r
    parts = d.args if d.op == "add" else (d,)
    for p in parts:
        k, b = Tm._split(p)
        if b is None or b.op != "v" or abs(k) != 1 or b.val not in r.args[2].free: continue
        e = mul(const(-k), sub(d, p))
        if b.val in e.free: continue
        f = subst(r.args[2], {b.val: e})
        if f is r.args[1] or ctx.norm(f) is r.args[1]: return r.args[2]
    return r


def small_eq(c, ctx):
    """x == k for an input with values 0..K-1: out of range is false, the last value is 'none of the others'"""
    d = c.args[0]
    parts = d.args if d.op == "add" else (d,)
    if len(parts) > 2: return c
    x = k = None
    for p in parts:
        q, b = Tm._split(p)
        if b is None: k = q
        elif x is None and b.op == "f" and b.val in ctx.small and q in (1, -1): x = b; sgn = q
        else: return c
    if x is None: return c
    k = -(k or 0) * sgn; K = ctx.small[x.val]
    if k < 0 or k >= K: return FALSE
    if k == K - 1: return and_(*[not_(eq(x, const(j))) for j in range(K - 1)])
    return c


def small_le(c, ctx):
    """k <= x or x <= k for a two-valued input"""
    d = c.args[0]
    parts = d.args if d.op == "add" else (d,)
    if len(parts) > 2 or d.sort != "I": return c
    x, k, q = None, 0, 0
    for p in parts:
        a, b = Tm._split(p)
        if b is None: k = a
        elif x is None and b.op == "f" and ctx.small.get(b.val) == 2: x, q = b, a
        else: return c
    if x is None: return c
    t0, t1 = k <= 0, q + k <= 0
    return TRUE if t0 and t1 else eq(x, const(0)) if t0 else not_(eq(x, const(0))) if t1 else FALSE


def tabulate(r, ctx):
    """an integer function of one small input value as a table"""
    apps = {x.id: x for x in walk(r) if x.op == "f" and x.sort == "I"}
    if len(apps) != 1 or r.free - next(iter(apps.values())).free: return r
    x = next(iter(apps.values()))
    if x.val not in ctx.small: return r
    K = ctx.small[x.val]
    v = fresh("t"); body = apply_canon(r, {x.id: v})
    vals = [subst(body, {v.val: const(j)}) for j in range(K)]
    if any(y.op != "c" for y in vals): return r
    out = vals[-1]
    for j in range(K - 2, -1, -1): out = ite(eq(x, const(j)), vals[j], out)
    return out


def pos(t, ctx, strict=True):
    """positive (non-negative) under the hypotheses"""
    if Tm.positive(t, strict): return True
    o = t.op
    if t.sort == "I":
        d = ctx.decide(lt(const(0), t) if strict else le(const(0), t))
        if d: return True
    if o == "up": return pos(t.args[0], ctx, strict)
    if t.sort == "C": return False
    if o == "mul": return all(pos(a, ctx, strict) for a in t.args)
    if o == "add": return all(pos(a, ctx, False) for a in t.args) and (not strict or any(pos(a, ctx, True) for a in t.args))
    if o == "pow": return pos(t.args[0], ctx, strict or t.val < 0) or (t.val % 2 == 0 and not strict)
    if o == "ite": return pos(t.args[1], ctx.extend(t.args[0]), strict) and pos(t.args[2], ctx.extend(not_(t.args[0])), strict)
    if o == "u" and t.val == "sqrt": return pos(t.args[0], ctx, strict)
    if o in ("prod", "sum"):
        v = fresh(); cx = ctx.extend(le(const(0), v), lt(v, t.args[0]))
        if not pos(open_(t, v), cx, strict): return False
        return o == "prod" or not strict or bool(ctx.decide(lt(const(0), t.args[0])))
    return False


def apply_eqrules(c, ctx):
    """f(args) == e replaced by an equivalent equation (declared inverse functions)"""
    d = c.args[0]
    parts = d.args if d.op == "add" else (d,)
    for p in parts:
        k, b = Tm._split(p)
        if b is not None and b.op == "f" and b.val in ctx.eqrules and k in (1, -1):
            rest = [q for q in parts if q is not p]
            e = mul(const(-k), add(*rest)) if rest else const(0)
            if any(x.op == "f" and x.val == b.val for x in walk(e)): continue
            g, r = ctx.eqrules[b.val](b.args, e)      # under the guard g; f never takes values outside it
            d = ctx.decide(g)
            if d is False: return FALSE
            if d and r is not c: return r
    return c


def rebind(o, v, n, b, ctx):
    """binder constructor with range restriction: sum over guarded bodies becomes a difference of prefix sums"""
    if o in ("sum", "prod") and b.op == "ite" and v.val in b.args[0].free:
        zero = 0 if o == "sum" else 1
        c, x, y = b.args
        if isc(x, zero) and not isc(y, zero): c, x, y = not_(c), y, x
        if isc(y, zero):
            lo, hi, rest = const(0), n, []
            ok = True
            for g in (c.args if c.op == "and" else (c,)):
                bd = bound(g, v)
                if bd is None: rest.append(g); continue
                k, e = bd
                if k == "ge":  # v >= e
                    if ctx.decide(le(e, lo)): pass
                    elif ctx.decide(le(lo, e)): lo = e
                    else: ok = False
                else:  # v < e
                    if ctx.decide(le(hi, e)): pass
                    elif ctx.decide(le(e, hi)): hi = e
                    else: ok = False
            if ok and (lo is not const(0) or hi is not n):
                body = ite(and_(*rest), x, y) if rest else x
                if ctx.decide(le(hi, lo)): return const(zero, b.sort)
                if ctx.decide(le(lo, hi)):
                    if lo.op == "c" and lo is not const(0):
                        return rebind(o, v, sub(hi, lo), simp(subst(body, {v.val: add(v, lo)}), ctx.extend(le(const(0), v), lt(v, sub(hi, lo)))), ctx)
                    if o == "sum":
                        r = rebind("sum", v, hi, body, ctx)
                        if lo is not const(0): r = sub(r, rebind("sum", v, lo, body, ctx))
                        return r
                    if lo is const(0): return rebind("prod", v, hi, body, ctx)
    # a single exceptional index of an integer sum: sum_v ite(v == e, p, q) = sum_v q + (p - q)(e)
    if o == "sum" and b.sort == "I":
        for y in walk_open(b):
            if y.op == "eq":
                e = solve_for(y, v)
                if e is not None and e.op == "v" and ctx.decide(and_(le(const(0), e), lt(e, n))):
                    b0 = replace_conds(b, {y.id: FALSE})
                    cx = ctx.extend(le(const(0), v), lt(v, n))
                    at = lambda q: simp(subst(q, {v.val: e}), ctx)
                    return add(rebind("sum", v, n, simp(b0, cx), ctx), sub(at(b), at(b0)))
    if o == "sum" and b.sort == "I":
        if ctx.small: b = counting(b, ctx)
        if n.op == "add" and len(n.args) == 2 and n.args[0].op == "c" and n.args[0].val == -1 and n.args[1].op == "f" and ctx.decide(le(const(0), n)):
            return sub(rebind("sum", v, n.args[1], b, ctx), simp(subst(b, {v.val: n}), ctx))
    # peel a constant offset off the upper limit: sum_{v<e+k} = sum_{v<e} + ...
    if o in ("sum", "prod") and n.op == "add" and n.args[0].op == "c" and 0 < n.args[0].val <= 4:
        k = int(n.args[0].val); base = sub(n, const(k))
        if ctx.decide(le(const(0), base)):
            r = rebind(o, v, base, b, ctx)
            for j in range(k):
                e = simp(subst(b, {v.val: add(base, const(j))}), ctx)
                r = add(r, e) if o == "sum" else mul(r, e)
            return r
    return bind(o, v, n, b)


def counting(b, ctx):
    """a 0/1 input summed up is written as a count"""
    if b.op in ("add", "mul"):
        if b.op == "mul" and not (len(b.args) == 2 and b.args[0].op == "c"): return b
        return rebuild(b, [counting(a, ctx) for a in b.args])
    if b.op == "f" and ctx.small.get(b.val) == 2: return ite(eq(b, const(0)), const(0), const(1))
    return b


def bound(g, v):
    """g as v >= e or v < e"""
    if g.op != "le" or g.args[0].sort != "I": return None
    d = g.args[0]  # d <= 0
    parts = d.args if d.op == "add" else (d,)
    coef = None; rest = []
    for p in parts:
        c, b = Tm._split(p)
        if b is not None and b.op == "v" and b.val == v.val: coef = c
        elif v.val in p.free: return None
        else: rest.append(p)
    if coef not in (1, -1): return None
    r = add(*rest) if rest else const(0)
    if coef == 1: return ("lt", sub(const(1), r))     # v <= -r  <=> v < 1 - r
    return ("ge", r)                                   # -v + r <= 0


# ---------------------------------------------------------------- polynomial normal form
class Frac:
    __slots__ = ("n", "d")

    def __init__(s, n, d=None): s.n, s.d = n, d or {(): 1}


MAXTERMS = 6000


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS * 4: raise Budget()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, s = mmul(m1, m2)
            c = c1 * c2 * s
            x = r.get(m, 0) + c
            if x: r[m] = x
            else: r.pop(m, None)
    if len(r) > MAXTERMS: raise Budget()
    return r


def mmul(m1, m2):
    if not m1: return m2, 1
    if not m2: return m1, 1
    d = dict(m1); s = 1
    for k, e in m2:
        x = d.get(k, 0) + e
        if x: d[k] = x
        else: d.pop(k, None)
    iu = IUNIT.id
    if iu in d:
        e = d[iu] % 4
        if e in (2, 3): s = -1
        if e in (1, 3): d[iu] = 1
        else: del d[iu]
    return tuple(sorted(d.items())), s


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + f * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r


ONE = {(): 1}
ATOMS = {}


class NF:
    def __init__(self, canon=None):
        self.memo = {}
        self.canon = canon or {}
        self.dens = []

    def atom(self, t):
        t = self.canon.get(t.id, t)
        ATOMS[t.id] = t
        return Frac({((t.id, 1),): 1})

    def go(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._go(t); self.memo[t.id] = r
        return r

    def _go(self, t):
        o = t.op
        if o == "c": return Frac({(): t.val} if t.val else {})
        if o == "iu": return Frac({((t.id, 1),): 1})
        if o in ("up", "down"): return self.go(t.args[0])
        if o == "add":
            n, d = {}, ONE
            for a in t.args:
                x = self.go(a)
                if x.d == d: n = padd(n, x.n)
                else:
                    n = padd(pmul(n, x.d), pmul(x.n, d)); d = pmul(d, x.d)
            return Frac(n, d)
        if o == "mul":
            n, d = ONE, ONE
            for a in t.args:
                x = self.go(a); n = pmul(n, x.n); d = d if x.d == ONE else pmul(d, x.d)
            return Frac(n, d)
        if o == "pow":
            x = self.go(t.args[0]); k = t.val
            if k < 0:
                if len(x.n) == 1 and x.d == ONE:
                    (m, c), = x.n.items()
                    x = Frac({tuple((a, -e) for a, e in m): 1 / Fraction(c)} if not any(a == IUNIT.id for a, e in m) else {tuple((a, -e if a != IUNIT.id else e) for a, e in m): -1 / Fraction(c)})
                else:
                    x = Frac(x.d, x.n)
                k = -k
            n, d = ONE, ONE
            for _ in range(k): n = pmul(n, x.n); d = d if x.d == ONE else pmul(d, x.d)
            return Frac(n, d)
        if o == "u" and t.val == "conj":
            return self.atom(t)
        return self.atom(t)


def is_zero(t, canon=None):
    STATS["nf"] += 1
    f = NF(canon).go(t)
    return not f.n, f


# ---------------------------------------------------------------- proving equalities
class Result:
    def __init__(self, ok, why="", residual=None, ctx=None): self.ok, self.why, self.residual, self.ctx = ok, why, residual, ctx
    def __bool__(self): return self.ok


def top_ite(t):
    seen = set(); st = [t]
    best = None
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "ite":
            c = atomic_cond(x.args[0])
            if c is not None and not any(is_bname(z) for z in c.free) and (best is None or c.height < best.height): best = c
        st.extend(x.args)
    return best


def atomic_cond(c):
    """a sub-condition to split on (free of unopened binder variables)"""
    if c.op in ("and", "or", "not"):
        for a in c.args:
            r = atomic_cond(a)
            if r is not None: return r
        return None
    if c.op == "ite": return atomic_cond(c.args[0])
    if c.op == "b": return None
    return c


def points_of(t):
    """{range term: set of points e} for tests v == e inside sum/prod bodies"""
    out = {}
    seen = set()
    guarded = {}

    def visit(x, outer):
        if x.id in seen: return
        seen.add(x.id)
        if x.op in ("sum", "prod", "lam", "any", "all", "max", "min"):
            visit(x.args[0], outer)
            v = fresh("p"); b = open_(x, v)
            if x.op in ("sum", "prod"):
                if not (x.op == "prod" and b.op == "ite" and isc(b.args[1], 1) and is_guard(b.args[0], v)):
                    for y in walk_open(b):
                        if y.op == "eq":
                            e = solve_for(y, v)
                            if e is not None and not any(z.startswith("p!") for z in e.free): out.setdefault((x.op, x.args[0]), {})[e.id] = e
                    if x.op == "prod": guarded.setdefault(x.args[0], {})[()] = ()
                else:
                    es = guard_points(b.args[0], v)
                    if not any(z.startswith("p!") for e in es for z in e.free): guarded.setdefault(x.args[0], {})[tuple(sorted(e.id for e in es))] = es
            visit(b, outer)
            return
        for a in x.args: visit(a, outer)
    visit(t, ())
    for n, sets in guarded.items():
        # products over one range with different excluded points are brought to the same excluded points
        if len(sets) > 1:
            for es in sets.values():
                for e in es: out.setdefault(("prod", n), {})[e.id] = e
    return out


def guard_points(c, v): return [solve_for(g, v) for g in (c.args if c.op == "or" else (c,))]


def is_guard(c, v):
    cs = c.args if c.op == "or" else (c,)
    return all(g.op == "eq" and solve_for(g, v) is not None for g in cs)


def walk_open(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        if x.op in BINDERS: continue
        st.extend(x.args)


def solve_for(g, v):
    d = g.args[0]
    if d.sort != "I": return None
    parts = d.args if d.op == "add" else (d,)
    coef, rest = None, []
    for p in parts:
        c, b = Tm._split(p)
        if b is not None and b.op == "v" and b.val == v.val: coef = c
        elif v.val in p.free: return None
        else: rest.append(p)
    if coef not in (1, -1): return None
    r = add(*rest) if rest else const(0)
    return mul(const(-coef), r)


def expand_points(t, kind, n, pts, ctx):
    """replace every `kind` binder over range n by explicit factors at pts and the rest"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            nn = go(x.args[0])
            v = fresh()
            b = open_(x, v)
            if x.op == kind and x.args[0] is n and not (kind == "prod" and b.op == "ite" and isc(b.args[1], 1) and is_guard(b.args[0], v) and {e.id for e in guard_points(b.args[0], v)} == {e.id for e in pts}):
                guards = {eq(v, e).id: e for e in pts}
                b0 = replace_conds(b, {g: FALSE for g in guards})
                if kind == "sum":
                    if b0 is b: r = bind("sum", v, nn, b)
                    else:
                        r = bind("sum", v, nn, b0)
                        for e in pts: r = add(r, sub(subst(b, {v.val: e}), subst(b0, {v.val: e})))
                else:
                    r = bind("prod", v, nn, ite(or_(*[eq(v, e) for e in pts]), const(1, b.sort), b0))
                    for e in pts: r = mul(r, subst(b, {v.val: e}))
            else:
                r = bind(x.op, v, nn, expand_points(b, kind, n, pts, ctx))
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


def replace_conds(t, m):
    memo = {}

    def go(x):
        if x.id in m: return m[x.id]
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh(); b = open_(x, v)
            r = bind(x.op, v, go(x.args[0]), replace_conds(b, m))
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


TRACE = bool(os.environ.get("VERIF_TRACE"))


def prove_zero(t, ctx, depth=0, maxdepth=40):
    """t == 0 under ctx"""
    if ctx.deadline and time.time() > ctx.deadline: return Result(False, "time budget", t, ctx)
    if TRACE: print("  " * depth, "goal", show(t)[:int(os.environ.get("VERIF_TL","200"))])
    try:
        t = simp(t, ctx)
        if isc(t, 0): return Result(True)
        c = top_ite(t)
        if c is not None:
            if depth > maxdepth: return Result(False, "split depth", t, ctx)
            if ctx.splitsmall:
                # a condition on several inputs with few values: look at those one by one
                sm = {x.id: x for x in walk(c) if x.op == "f" and ctx.small.get(x.val) == 2}
                if len(sm) > 1 or (len(sm) == 1 and any(y.op == "ite" for y in walk(c))):
                    for x in sorted(sm.values(), key=lambda x: x.id):
                        if ctx.decide(eq(x, const(0))) is None: c = eq(x, const(0)); break
            for h in (c, not_(c)):
                cx = ctx.extend(h)
                if cx.inconsistent(): continue
                r = prove_zero(t, cx, depth + 1, maxdepth)
                if not r: return r
            return Result(True)
        if ctx.guarded and depth <= maxdepth and one_range(t):
            r = merge_sums(t, ctx, depth)
            if r is not None and (r.ok or DEEP): return r
        # points
        pts = points_of(t)
        for (kind, n), es in pts.items():
            es = list(es.values())
            for e in es:
                inr = and_(le(const(0), e), lt(e, n))
                d = ctx.decide(inr)
                if d is None:
                    for h in (inr, not_(inr)):
                        cx = ctx.extend(h)
                        if cx.inconsistent(): continue
                        r = prove_zero(t, cx, depth + 1, maxdepth)
                        if not r: return r
                    return Result(True)
            es = [e for e in es if ctx.decide(and_(le(const(0), e), lt(e, n)))]
            reps = []
            for e in es:
                dup = False
                for f in reps:
                    q = eq(e, f); d = ctx.decide(q)
                    if d is None:
                        for h in (q, not_(q)):
                            cx = ctx.extend(h)
                            if cx.inconsistent(): continue
                            r = prove_zero(t, cx, depth + 1, maxdepth)
                            if not r: return r
                        return Result(True)
                    if d: dup = True; break
                if not dup: reps.append(e)
            if reps:
                t2 = expand_points(t, kind, n, reps, ctx)
                if t2 is not t: return prove_zero(t2, ctx, depth + 1, maxdepth)
        ok, f = is_zero(t)
        if ok: return Result(True)
        if flat.flat_zero(t) or flat.parts_zero(t): return Result(True)
        t2 = flat.radix(t)
        if t2 is not t and depth <= maxdepth: return prove_zero(t2, ctx, depth + 1, maxdepth)
        if depth <= maxdepth and one_range(t):
            r = merge_sums(t, ctx, depth)
            if r is not None and (r.ok or DEEP): return r
        t2 = peel_ranges(t, ctx)
        if t2 is not t and depth <= maxdepth: return prove_zero(t2, ctx, depth + 1, maxdepth)
        if depth <= maxdepth:
            t2, sp = cut_ranges(t, ctx)
            if sp is not None:
                for h in (sp, not_(sp)):
                    cx = ctx.extend(h)
                    if cx.inconsistent(): continue
                    r = prove_zero(t, cx, depth + 1, maxdepth)
                    if not r: return r
                return Result(True)
            if t2 is not t: return prove_zero(t2, ctx, depth + 1, maxdepth)
        if depth <= maxdepth:
            r = merge_sums(t, ctx, depth)
            if r is not None and (r.ok or DEEP): return r
        if depth <= maxdepth:
            r = merge_prods(t, ctx, depth)
            if r is not None and r.ok: return r
        # congruence by z3
        canon, splits = congruence(f, ctx)
        if canon:
            ok, f = is_zero(apply_canon(t, canon), None)
            if ok: return Result(True)
        if depth <= maxdepth:
            for q in splits[:6]:
                good = True
                for h in (q, not_(q)):
                    cx = ctx.extend(h)
                    if cx.inconsistent(): continue
                    r = prove_zero(t, cx, depth + 1, maxdepth)
                    if not r: good = False; break
                if good: return Result(True)
                return r
        if t.sort == "I" and ctx.implies(eq(t, const(0))): return Result(True)
        return Result(False, "normal forms differ", t, ctx)
    except Budget:
        return Result(False, "budget", t, ctx)


def merge_sums(t, ctx, depth):
    """sum_k c_k sum_{v<n} f_k(v) + n*r is zero if sum_k c_k f_k(v) + r is zero for every v"""
    t = distribute(t)
    if t.op != "add": return None
    done = set()
    for key in (lambda a: (signature(a), chain(a)), signature):
        parts = {}
        for a in t.args: parts.setdefault(key(a), []).append(a)
        if len(parts) < 2 or len(parts) in done: continue
        done.add(len(parts))
        # terms about differently modified configurations are compared separately first; what is left goes on together
        left = []
        for k, l in parts.items():
            q = prove_zero(add(*l), ctx, max(depth + 1, 20), 40)
            if not q:
                if not ctx.guarded: left = list(t.args); break
                left += l
        if not left: return Result(True)
        if DEEP == "2": return q
        t = add(*left)
        if t.op != "add": return Result(False, "normal forms differ", t, ctx)
    groups, rest = {}, []
    for a in t.args:
        fs = list(a.args) if a.op == "mul" else [a]
        k = [i for i, f in enumerate(fs) if f.op == "sum"]
        if len(k) == 1:
            b = fs.pop(k[0]); groups.setdefault(b.args[0], []).append((mul(*fs) if fs else const(1), b))
        else: rest.append(a)
    if not groups or (len(groups) == 1 and not rest and len(next(iter(groups.values()))) < 2): return None
    r = {n: const(0) for n in groups}; rest0 = []
    for a in rest:
        fs = list(a.args) if a.op == "mul" else [a]
        k, g = next(((i, n) for i, f in enumerate(fs) for n in groups if f is n or (f.op == "up" and f.args[0] is n)), (None, None))
        if k is None: rest0.append(a); continue
        fs.pop(k); r[g] = add(r[g], mul(*fs) if fs else const(1))
    if rest0:
        q = prove_zero(add(*rest0), ctx, max(depth + 1, 25), 40)
        if not q: return q
    for n, l in groups.items():
        if len(l) == 1 and isc(r[n], 0) and not rest0 and len(groups) == 1: return None
        v = fresh("q")
        body = add(r[n], *[mul(c, open_(b, v)) for c, b in l])
        # one binder fewer: the depth count starts again
        q = prove_zero(body, ctx.extend(le(const(0), v), lt(v, n)), 10 if ctx.guarded else max(depth + 1, 25), 40)
        if not q: return q
    return Result(True)


def distribute(t, limit=300):
    """products over sums of terms, if those contain binders"""
    out = []
    for a in (t.args if t.op == "add" else (t,)):
        todo = [a]
        while todo:
            x = todo.pop()
            if len(out) + len(todo) > limit: return t
            if x.op == "mul":
                k = next((i for i, f in enumerate(x.args) if (f.op == "add" or (f.op == "up" and f.args[0].op == "add")) and any(y.op == "sum" for y in walk_open(f))), None)
                if k is not None:
                    f = x.args[k]; parts = f.args if f.op == "add" else [retag(p, f.sort) for p in f.args[0].args]
                    todo += [mul(*(list(x.args[:k]) + [p] + list(x.args[k + 1:]))) for p in parts]; continue
            if x.op == "add": todo += list(x.args); continue
            out.append(x)
    return add(*out)


def one_range(t):
    """every summand is a sum over one and the same range"""
    t = distribute(t)
    if t.op != "add": return False
    ns = set()
    for a in t.args:
        fs = [f for f in (a.args if a.op == "mul" else (a,)) if f.op == "sum"]
        if len(fs) != 1: return False
        ns.add(fs[0].args[0].id)
    return len(ns) == 1


_sig = {}


def signature(t):
    """which opaque functions of whole configurations a term mentions: number of replaced sites and constants written"""
    r = _sig.get(t.id)
    if r is None:
        out = set()
        for x in walk(t):
            if x.op == "f":
                for a in x.args:
                    if a.op == "lam":
                        v = fresh("s"); b = open_(a, v)
                        out.add((x.val, len({y.id for y in walk_open(b) if y.op == "eq" and solve_for(y, v) is not None})))
        r = _sig[t.id] = frozenset(out)
    return r


def chain(t):
    """which inputs guard a nest of sums, outermost first"""
    out = []
    while True:
        if t.op == "mul":
            k = [f for f in t.args if f.op in ("sum", "ite")]
            if len(k) != 1: break
            t = k[0]; continue
        if t.op == "sum": t = t.args[1]; continue
        if t.op == "ite" and (isc(t.args[1], 0) or isc(t.args[2], 0)):
            n = frozenset(x.val for x in walk(t.args[0]) if x.op == "f")
            if n: out.append(n)
            t = t.args[2] if isc(t.args[1], 0) else t.args[1]; continue
        break
    return tuple(out)


def merge_prods(t, ctx, depth):
    """products over the same range inside one monomial are compared factor by factor: prod f == prod g if f(v) == g(v)"""
    if t.op != "add" or len(t.args) > 12: return None
    ns = {}
    for x in walk_open(t):
        if x.op == "prod": ns[x.args[0].id] = (x.height, x.args[0])
    order = [n for _, n in sorted(ns.values(), key=lambda p: -p[0])]
    if len(order) > 1: order.append(None)
    for only in order[:4]:
        r = _merge_prods(t, ctx, depth, only)
        if r is not None and r.ok: return r
    return None


def _merge_prods(t, ctx, depth, only):
    mon = []
    vs = {}
    for a in t.args:
        fs = list(a.args) if a.op == "mul" else [a]
        rest, ps = [], {}
        for f in fs:
            b, e = (f.args[0], f.val) if f.op == "pow" else (f, 1)
            if b.op == "up": b = b.args[0]
            if b.op == "prod" and (only is None or b.args[0] is only):
                n = b.args[0]; v = vs.setdefault(n, fresh("q"))
                ps[n] = mul(ps.get(n, const(1)), power(open_(b, v), e))
            else: rest.append(f)
        mon.append((rest, ps))
    if sum(bool(p) for _, p in mon) < 2: return None
    reps = {}
    out = []
    for rest, ps in mon:
        fs = list(rest)
        for n, body in ps.items():
            v = vs[n]; cx = None
            for k, (b2, at) in enumerate(reps.setdefault(n, [])):
                if b2 is body: fs.append(at); break
                if cx is None: cx = ctx.extend(le(const(0), v), lt(v, n))
                if prove_zero(sub(body, b2), cx, max(depth + 1, 25), 40): fs.append(at); break
            else:
                at = mk("f", (n, const(len(reps[n]))), body.sort, "prodatom!%d" % n.id); reps[n].append((body, at)); fs.append(at)
        out.append(mul(*fs) if fs else const(1))
    ok, f = is_zero(add(*out))
    return Result(True) if ok else None


def _base(n):
    c = n.args[0].val if n.op == "add" and n.args[0].op == "c" else 0
    return int(c), sub(n, const(int(c)))


def peel_ranges(t, ctx):
    """binders over n, n-1, ... are brought to the smallest of the ranges"""
    rs = {}
    for x in walk(t):
        if x.op in ("sum", "prod") and x.args[0].op != "c" and not any(is_bname(z) for z in x.args[0].free):
            c, b = _base(x.args[0]); rs.setdefault((x.op, b), set()).add(c)
    goal = {}
    for k, s in rs.items():
        if len(s) > 1 and max(s) - min(s) <= 4 and ctx.decide(le(const(0), add(k[1], const(min(s))))): goal[k] = min(s)
    if not goal: return t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh(); b = go(open_(x, v)); n = go(x.args[0])
            if x.op in ("sum", "prod") and n.op != "c":
                c, bs = _base(n); g = goal.get((x.op, bs))
                if g is not None and g < c:
                    lo = add(bs, const(g))
                    r = bind(x.op, v, lo, b)
                    for j in range(c - g):
                        e = subst(b, {v.val: add(lo, const(j))})
                        r = add(r, e) if x.op == "sum" else mul(r, e)
            if r is None: r = bind(x.op, v, n, b)
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


def is_bname(n): return n[0] == "b" and n[1:].isdigit()


def cut_ranges(t, ctx):
    """split sums/products at a point where a comparison inside a body changes; every binder over the same range is split"""
    need, cut = [], []
    seen = set()

    def find(x, ctx):
        if cut or x.id in seen: return
        seen.add(x.id)
        if x.op in BINDERS:
            v = fresh(); b = open_(x, v); n = x.args[0]
            if x.op in ("sum", "prod"):
                for g in walk(b):
                    if g.op != "le" or v.val not in g.free: continue
                    bd = bound(g, v)
                    if bd is None: continue
                    e = bd[1]
                    if any(is_bname(z) for z in e.free): continue
                    ins = and_(lt(const(0), e), lt(e, n))
                    d = ctx.decide(ins)
                    if d is None:
                        if not any(z.startswith("k!") for z in e.free): need.append(ins)
                        continue
                    if d: cut.append((x.op, n, e)); return
            find(b, ctx.extend(le(const(0), v), lt(v, n)))
            return
        for y in x.args: find(y, ctx)
    find(t, ctx)
    if not cut: return t, (need[0] if need else None)
    op, n0, e = cut[0]
    memo = {}

    def go(x, ctx):
        r = memo.get(x.id)
        if r is not None: return r
        if not x.args: r = x
        elif x.op in BINDERS:
            v = fresh(); n = go(x.args[0], ctx)
            cx = ctx.extend(le(const(0), v), lt(v, n))
            b = go(open_(x, v), cx)
            if x.op == op and n is n0:
                lo = bind(x.op, v, e, simp(b, ctx.extend(le(const(0), v), lt(v, e))))
                hi = bind(x.op, v, sub(n, e), simp(subst(b, {v.val: add(v, e)}), ctx.extend(le(const(0), v), lt(v, sub(n, e)))))
                r = add(lo, hi) if x.op == "sum" else mul(lo, hi)
            else: r = bind(x.op, v, n, b)
        else:
            a = [go(y, ctx) for y in x.args]
            r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x, a)
        memo[x.id] = r
        return r
    return go(t, ctx), None


def apply_canon(t, canon):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if x.id in canon: r = canon[x.id]
        elif not x.args or x.op in BINDERS: r = x
        else: r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


def congruence(f, ctx):
    ids = set()
    for p in (f.n, f.d):
        for m in p:
            for a, _ in m: ids.add(a)
    atoms = [ATOMS[i] for i in ids if i in ATOMS and i != IUNIT.id]
    # look below functions as well
    sub_atoms = {}
    for a in atoms:
        for x in walk_open(a):
            if x.op in ("f", "G", "sum", "prod"): sub_atoms[x.id] = x
    groups = {}
    for x in list(sub_atoms.values()) + atoms:
        groups.setdefault((x.op, x.val if x.op not in BINDERS else None, len(x.args)), {})[x.id] = x
    canon, splits = {}, []
    for g in groups.values():
        l = sorted(g.values(), key=lambda x: x.id)
        reps = []
        for x in l:
            if x.op not in ("f", "G", "sum", "prod", "u", "lam"): continue
            for r in reps:
                e = args_equal(x, r, ctx)
                if e is True: canon[x.id] = r; break
                if isinstance(e, T): splits.append(e)
            else: reps.append(x)
    return canon, splits


def args_equal(x, y, ctx):
    """True: provably equal; T: a condition to split on; None"""
    if x.op in ("sum", "prod"):
        if not ctx.decide(eq(x.args[0], y.args[0])): return None
        v = fresh("q"); cx = ctx.extend(le(const(0), v), lt(v, x.args[0]))
        r = prove_zero(sub(open_(x, v), open_(y, v)), cx, 30, 34)
        return True if r else None
    if x.op == "u":
        r = prove_zero(sub(x.args[0], y.args[0]), ctx, 30, 34)
        return True if r else None
    cond = []
    for a, b in zip(x.args, y.args):
        if a is b: continue
        if a.op == "lam" and b.op == "lam":
            if not ctx.decide(eq(a.args[0], b.args[0])): return None
            v = fresh("q"); cx = ctx.extend(le(const(0), v), lt(v, a.args[0]))
            bo, bb = open_(a, v), open_(b, v)
            while bo.op == "lam" and bb.op == "lam":
                if not cx.decide(eq(bo.args[0], bb.args[0])): return None
                w = fresh("q"); cx = cx.extend(le(const(0), w), lt(w, bo.args[0])); bo, bb = open_(bo, w), open_(bb, w)
            if bo.op == "lam" or bb.op == "lam": return None
            if bo.sort == "B" or bb.sort == "B":
                if not cx.decide(eq(bo, bb)): return None
                continue
            r = prove_zero(sub(bo, bb), cx, 30, 40)
            if not r: return None
            continue
        if a.sort == "I" and b.sort == "I":
            d = ctx.decide(eq(a, b))
            if d is False: return None
            if d is None: cond.append(eq(a, b))
            continue
        if a.sort == "B" and b.sort == "B":
            if ctx.decide(eq(a, b)) is not True: return None
            continue
        if a.sort in ("R", "C", "I") and b.sort in ("R", "C", "I"):
            r = prove_zero(sub(a, b), ctx, 30, 34)
            if not r: return None
            continue
        return None
    if not cond: return True
    return cond[0]


def has_nan(t): return any(x.op == "nan" for x in walk(t))


def prove_eq(a, b, ctx, depth=0):
    """a == b; an infinite (undefined) value must be matched by the same kind of value"""
    if not (has_nan(a) or has_nan(b)): return prove_zero(sub(a, b), ctx)
    if ctx.deadline and time.time() > ctx.deadline: return Result(False, "time budget", sub(a, b), ctx)
    p = peel_ranges(mk("pair", (simp(a, ctx), simp(b, ctx)), "B"), ctx)
    a, b = simp(p.args[0], ctx), simp(p.args[1], ctx)
    if a is b: return Result(True)
    if a.op == "nan" and b.op == "nan": return Result(a.val == b.val, "different special values", a, ctx)
    if not (has_nan(a) or has_nan(b)): return prove_zero(sub(a, b), ctx)
    for x in (a, b):
        if not has_nan(x): continue
        c = top_ite(x)
        if c is None or depth > 30: continue
        for h in (c, not_(c)):
            cx = ctx.extend(h)
            if cx.inconsistent(): continue
            r = prove_eq(a, b, cx, depth + 1)
            if not r: return r
        return Result(True)
    return Result(False, "special value", a if has_nan(a) else b, ctx)


def prove_bool(c, ctx):
    c = simp(c, ctx)
    if c is TRUE or ctx.decide(c) is True: return Result(True)
    if c.op == "and":
        for a in c.args:
            r = prove_bool(a, ctx)
            if not r: return r
        return Result(True)
    return Result(False, "not implied", c, ctx)
