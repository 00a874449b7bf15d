"""Concrete evaluation of terms (cross-check of the translation against the running code, and refutation)."""
import math, cmath
import numpy as np
from .terms import *


class Undef(Exception):
    pass


def evaluate(t, env, fun):
    """env: variable name -> value; fun: function symbol -> numpy array or callable"""
    memo = {}
    order = {}

    def go(t, loc):
        fv = t.free
        if fv:
            k = (t.id,) + tuple((n, loc[n]) for n in order.setdefault(t.id, tuple(sorted(fv))) if n in loc)
        else: k = t.id
        r = memo.get(k)
        if r is None:
            r = ev(t, loc); memo[k] = r
        return r

    def ev(t, loc):
        o = t.op
        if o == "c": return int(t.val) if t.val.denominator == 1 else float(t.val)
        if o == "b": return t.val
        if o == "iu": return 1j
        if o == "nan":
            if t.val == "-inf": return -math.inf
            if t.val == "inf": return math.inf
            return math.nan
        if o == "v":
            if t.val in loc: return loc[t.val]
            if t.val in env: return env[t.val]
            raise Undef("variable " + t.val)
        if o == "f":
            f = fun.get(t.val)
            if f is None: raise Undef("function " + t.val)
            args = [go(a, loc) for a in t.args]
            if callable(f): return f(*args)
            ii = tuple(int(a) for a in args)
            for i, n in zip(ii, f.shape):
                if i < 0 or i >= n: return math.nan if f.dtype.kind in "fc" else -999999937
            x = f[ii]
            return x.item() if hasattr(x, "item") else x
        if o == "add": return sum_(go(a, loc) for a in t.args)
        if o == "mul":
            r = 1
            for a in t.args: r = r * go(a, loc)
            return r
        if o == "pow":
            b = go(t.args[0], loc)
            try: return b ** t.val
            except ZeroDivisionError: return math.nan
        if o == "upow": return go(t.args[0], loc) ** go(t.args[1], loc)
        if o in ("up",): return go(t.args[0], loc)
        if o == "down":
            x = go(t.args[0], loc); return x.real if isinstance(x, complex) else x
        if o == "eq": return close0(go(t.args[0], loc))
        if o == "le": return go(t.args[0], loc) <= 0
        if o == "lt": return go(t.args[0], loc) < 0
        if o == "and": return all(go(a, loc) for a in t.args)
        if o == "or": return any(go(a, loc) for a in t.args)
        if o == "not": return not go(t.args[0], loc)
        if o == "ite": return go(t.args[1], loc) if go(t.args[0], loc) else go(t.args[2], loc)
        if o == "mod": return go(t.args[0], loc) % go(t.args[1], loc)
        if o == "fdiv": return go(t.args[0], loc) // go(t.args[1], loc)
        if o == "u": return unary(t.val, go(t.args[0], loc), t.sort)
        if o == "u2":
            a, b = go(t.args[0], loc), go(t.args[1], loc)
            if t.val == "band": return int(a) & int(b)
            if t.val == "tdiv": return int(math.trunc(a / b)) if b else 0
            if t.val == "trem": return int(math.fmod(a, b)) if b else 0
            if t.val == "pow": return a ** b
            if t.val == "atan2": return math.atan2(a, b)
            raise Undef(t.val)
        if o in ("sum", "prod", "any", "all", "max", "min", "lam"):
            n = int(go(t.args[0], loc)); body = t.args[1]; nm = t.val
            vals = []
            l2 = dict(loc)
            for i in range(n):
                l2[nm] = i
                vals.append(go(body, dict(l2)))
            if o == "sum": return sum_(vals)
            if o == "prod":
                r = 1
                for x in vals: r = r * x
                return r
            if o == "any": return any(vals)
            if o == "all": return all(vals)
            if o == "max": return max(vals) if vals else -math.inf
            if o == "min": return min(vals) if vals else math.inf
            return tuple(vals)
        raise Undef(o)
    return go(t, {})


def sum_(it):
    r = 0
    for x in it: r = r + x
    return r


def close0(x):
    if isinstance(x, (int, bool)): return x == 0
    return abs(x) < 1e-11


def unary(n, x, sort):
    try:
        c = isinstance(x, complex)
        if n == "conj": return x.conjugate() if c else x
        if n == "abs": return abs(x)
        if n == "exp": return cmath.exp(x) if c or sort == "C" else math.exp(x)
        if n == "log":
            if x == 0: return -math.inf
            return cmath.log(x) if c or sort == "C" else (math.log(x) if x > 0 else math.nan)
        if n == "sqrt": return cmath.sqrt(x) if c or sort == "C" else (math.sqrt(x) if x >= 0 else math.nan)
        if n == "trunc": return int(x)
        if n == "sign": return (x > 0) - (x < 0)
        if n == "floor": return math.floor(x)
        if n == "ceil": return math.ceil(x)
        return getattr(cmath if c or sort == "C" else math, n)(x)
    except OverflowError:
        return math.inf
