"""proof steps for sums of products: sufficient conditions only, each part is discharged by solve.prove_eq"""
import itertools, time
from .terms import *
from .solve import Ctx, Result, prove_eq, simp, prove_bool


def chain(t, inner, names):
    """t = sum over ranges, under conditions, of a product -> (ranges, conditions, factors); inner(x): x still holds the binders"""
    rng, conds, fac = [], [], []
    while True:
        if t.op == "mul":
            q = [a for a in t.args if inner(a)]
            if len(q) != 1: break
            fac += [a for a in t.args if a is not q[0]]; t = q[0]
        elif t.op == "sum" and inner(t):
            v = names[len(rng)]; rng.append((v, t.args[0])); t = open_(t, v)
        elif t.op == "ite" and (isc(t.args[1], 0) or isc(t.args[2], 0)) and not (isc(t.args[1], 0) and isc(t.args[2], 0)):
            c, a, b = t.args
            if isc(b, 0): conds.append(c); t = a
            else: conds.append(not_(c)); t = b
        else: break
    fac += list(t.args) if t.op == "mul" else [t]
    return rng, conds, fac


def product_sums(classes, inner):
    """a == b for nested guarded sums of products, term by term; classes: predicates that sort the factors into groups proved equal
    separately"""
    def tactic(a, b, cx):
        names = [fresh("s") for _ in range(8)]
        ra, ca, fa = chain(simp(a, cx), inner, names)
        rb, cb, fb = chain(simp(b, cx), inner, names)
        if len(ra) != len(rb) or not ra: return prove_eq(a, b, cx)
        hy = [h for v, n in ra for h in (le(const(0), v), lt(v, n))]
        c1 = cx.extend(*hy); c1.deadline = cx.deadline
        last = None
        for p in itertools.permutations(range(len(ra))):
            if any(ra[p[k]][1] is not rb[k][1] for k in range(len(rb))): continue
            m = {rb[k][0].val: ra[p[k]][0] for k in range(len(rb))}
            A, B = and_(*ca), and_(*[subst(x, m) for x in cb])
            if not equivalent(A, B, c1): continue
            c2 = c1.extend(*[x for x in ca]); c2.deadline = cx.deadline
            fb2 = [subst(x, m) for x in fb]
            last = leaf(fa, fb2, classes, c2)
            if last.ok: return last
            if cx.deadline and time.time() > cx.deadline: break
        if last is None: return Result(False, "the ranges of the sums differ", sub(a, b), cx)
        return last
    return tactic


def equivalent(A, B, cx):
    if A is B: return True
    return cx.implies(or_(not_(A), B)) and cx.implies(or_(not_(B), A))


def leaf(fa, fb, classes, cx):
    def split(fs):
        r = [[] for _ in range(len(classes) + 1)]
        for f in fs:
            k = next((i for i, p in enumerate(classes) if p(f)), len(classes)); r[k].append(f)
        return [mul(*x) if x else const(1) for x in r]
    # constants move to the last group
    for x, y in zip(split(fa), split(fb)):
        r = prove_eq(x, y, cx)
        if not r.ok: return r
    return Result(True)
