"""C09: hopping moves stay in the sector and are proposed symmetrically"""
from .util import *
from .c01 import configurations, number
import GPSKet.sampler.rules.fermionic_hopping as fh

HF = ["GPSKet/sampler/rules/fermionic_hopping.py:transition_function"]


def hopping(tp, updates):
    def make():
        c = Case("hopping rule%s%s" % (" with transition probabilities" if tp else "", " reporting sites" if updates else ""), HF, "b, L", dict(b=(1, 3), L=(1, 4)))
        x, cfg = configurations(c); c.splitsmall = True
        L = c.T("L")
        hp = c.input("hp", lambda d: (), float)()
        dr = [c.input("d%d" % k, lambda d: (d.b,), np.int64, 0, hi) for k, hi in enumerate((2, lambda d: d.L, 2, lambda d: d.L))]
        W = c.input("W", lambda d: (d.L, d.L), float) if tp else None

        def fn(d):
            def f(x, hp, d0, d1, d2, d3, *w):
                draws = [d0, d1, d2, d3]; ps = {}

                def split(key, num=2):
                    if isinstance(key, str): return jnp.arange(num)          # one key per chain
                    return key * 4 + jnp.arange(num)                          # four draws per chain

                def choice(key, a, shape=(), p=None, **kw):
                    # the draws are told apart by what is drawn, not by the order of the calls
                    site = isinstance(a, (int, jnp.integer)) or getattr(a, "ndim", 1) == 0 or not hasattr(a, "shape")
                    n = key // 4
                    if site: k = 1 if 1 not in ps else 3
                    else: k = 0 if 0 not in ps else 2
                    if k in ps: raise Unsupported("more draws than the contract knows")
                    q = jnp.asarray(p); ps[k] = q
                    i = draws[k][n]
                    return i if site else jnp.asarray(a)[i]

                def vmap(g, in_axes=0, out_axes=0):
                    def run(*args):
                        def h(*a): return g(*a), {k: v for k, v in ps.items()}
                        out, pp = REAL_VMAP(h, in_axes=in_axes, out_axes=(out_axes, 0))(*args)
                        ps.clear(); ps.update(pp); return out
                    return run
                with patched(jax.random, split=split, choice=choice), patched(jax, vmap=vmap):
                    r = fh.transition_function("key", x, hp, *w, return_updates=updates)
                if r[1] is not None: raise Unsupported("proposal correction")
                if set(ps) != {0, 1, 2, 3}: raise Unsupported("not the four draws the contract knows")
                return (r[0],) + ((r[2],) if updates else ()) + tuple(ps[k].astype(float) for k in range(4))
            return f
        o = c.run(fn, order=["x", "hp", "d0", "d1", "d2", "d3"] + (["W"] if tp else []))
        new, ps = o[0], o[-4:]
        X = lambda n: cfg(n)
        d0, d1, d2, d3 = dr
        up, dn = [lambda n, l, s=s: c.arr["x_" + s](n, l) for s in ("up", "dn")]
        hop = lambda n: eq(d0(n), const(0))
        single = lambda n, l: not_(eq(up(n, l) + dn(n, l), const(1))) if False else eq(up(n, l) + dn(n, l), const(1))
        # the distributions the draws are made from
        c.ensure("kind of move", ps[0], lambda n, k: ite(eq(k, const(0)), hp, 1 - hp))
        c.ensure("start site weight", ps[1], lambda n, l: retag(ite(hop(n), up(n, l) + dn(n, l), ite(single(n, l), const(1), const(0))), "R"))
        c.ensure("spin weight", ps[2], lambda n, k: retag(ite(eq(k, const(0)), up(n, d1(n)), dn(n, d1(n))), "R"))
        occ = lambda n, l: ite(eq(d2(n), const(0)), up(n, l), dn(n, l))
        c.ensure("target site weight", ps[3], (lambda n, l: W(d1(n), l)) if tp else
                 (lambda n, l: retag(ite(hop(n), 1 - occ(n, l), ite(and_(single(n, l), eq(occ(n, l), const(0))), const(1), const(0))), "R")))
        # what a draw does
        allowed = lambda n: and_(eq(occ(n, d1(n)), const(1)), eq(occ(n, d3(n)), const(0)), or_(hop(n), single(n, d3(n))))
        # an exchange starts from a site of positive weight, or all weights vanish (in which case the target has none either)
        pos_start = lambda n, *r: [or_(hop(n), single(n, d1(n)), not_(single(n, d3(n))))]
        def moved(n, l):
            s_up, s_dn = (lambda l: up(n, l)), (lambda l: dn(n, l))
            mv = lambda f, a, t: (lambda l: ite(eq(l, a), const(0), ite(eq(l, t), const(1), f(l))))
            isup = eq(d2(n), const(0)); a, t = d1(n), d3(n)
            # the chosen electron goes from a to t; in an exchange the electron of the other spin comes back
            u2 = ite(isup, mv(s_up, a, t)(l), ite(hop(n), s_up(l), mv(s_up, t, a)(l)))
            w2 = ite(isup, ite(hop(n), s_dn(l), mv(s_dn, t, a)(l)), mv(s_dn, a, t)(l))
            return u2 + 2 * w2
        c.ensure("one electron moves (or two exchange), or nothing changes", new, lambda n, l: ite(allowed(n), moved(n, l), cfg(n)(l)), idx_hyps=lambda n, l: pos_start(n))
        if updates: c.ensure("the reported sites", o[1], lambda n, k: ite(eq(k, const(0)), d1(n), ite(allowed(n), d3(n), d1(n))), idx_hyps=lambda n, k: pos_start(n))
        n = var("n"); h0 = [le(const(0), n), lt(n, c.T("b"))]
        for s, w in ((1, up), (2, dn)):
            c.lemma("the number of %s electrons is conserved" % ("up" if s == 1 else "down"), lambda s=s, w=w: (number(lambda l: new(n, l), s, L), Sum(L, lambda l: w(n, l))), hyps=h0 + pos_start(n))
        # the probability of proposing a move (products of the weights over their sums) depends on the conserved numbers only,
        # so a move and its reverse are proposed with the same probability
        tot = lambda p: Sum(p.shape[1], lambda l: p(n, l))
        w = lambda k, d: ps[k](n, d(n))
        R = lambda t: retag(t, "R")
        cnt = lambda f: R(Sum(L, lambda l: ite(f(l), const(1), const(0))))
        electrons = lambda: cnt(lambda l: not_(eq(up(n, l), const(0)))) + cnt(lambda l: not_(eq(dn(n, l), const(0))))
        if not tp:
            for k, nm in ((0, "up"), (1, "down")):
                o_ = up if k == 0 else dn
                c.lemma("hop of an %s electron: probability 1/(electrons * empty sites)" % nm, lambda o_=o_: (w(1, d1) * w(2, d2) * w(3, d3) * electrons() * cnt(lambda l: eq(o_(n, l), const(0))), tot(ps[1]) * tot(ps[2]) * tot(ps[3])),
                        hyps=h0 + [hop(n), allowed(n), eq(d2(n), const(k))])
                c.lemma("exchange of an %s electron: probability 1/(singly occupied sites * those of the other spin)" % nm, lambda o_=o_: (w(1, d1) * w(2, d2) * w(3, d3) * cnt(lambda l: single(n, l)) * cnt(lambda l: and_(single(n, l), eq(o_(n, l), const(0)))), tot(ps[1]) * tot(ps[2]) * tot(ps[3])),
                        hyps=h0 + [not_(hop(n)), allowed(n), single(n, d1(n)), eq(d2(n), const(k))])
        else:
            c.lemma("hop: start site and spin have probability 1/electrons", lambda: (w(1, d1) * w(2, d2) * electrons(), tot(ps[1]) * tot(ps[2])), hyps=h0 + [hop(n), allowed(n)])
        c.assumptions += ["jax.random.choice(p=w) draws an index with probability w_i / sum(w); draws from distinct keys are independent"]
        return c
    make.__name__ = "hopping_%d_%d" % (tp, updates)
    return make


REAL_VMAP = jax.vmap
CASES = [hopping(t, u) for t in (False, True) for u in (False, True)]


import GPSKet.hilbert.discrete_fermion as df
import GPSKet.hilbert.random.discrete_fermion as rdf

HC = "GPSKet/hilbert/discrete_fermion.py:FermionicSumConstraint."


def constraint():
    """membership: the prescribed number of electrons of each spin"""
    c = Case("FermionicSumConstraint", [HC + "__call__"], "b, L", dict(b=(1, 3), L=(1, 4)))
    x = c.input("x", lambda d: (d.b, d.L), np.uint8, 0, 4); L = c.T("L")
    ne = [c.input("n%d" % k, lambda d: (), np.int64, 0, lambda d: d.L + 1)() for k in (0, 1)]
    fn = df.FermionicSumConstraint.__call__
    fn = getattr(fn, "__wrapped__", fn)
    r = c.run(lambda d: (lambda x, a, b: jnp.where(fn(NS(size=d.L, n_elec=(a, b)), x), 1, 0)), order=["x", "n0", "n1"])
    cnt = lambda n, s: number(lambda l: x(n, l), s, L)
    c.ensure("a configuration is allowed exactly when it holds the prescribed numbers of electrons", r, lambda n: ite(and_(eq(cnt(n, 1), ne[0]), eq(cnt(n, 2), ne[1])), const(1), const(0)))
    return c


def random_state():
    """random configurations: electrons on the sites drawn, hence in the sector; jax.random.choice(replace=False) by its contract"""
    c = Case("random_state", ["GPSKet/hilbert/random/discrete_fermion.py:random_state"], "b, L, P, Q", dict(b=(1, 3), L=(3, 5), P=(1, 2), Q=(3, 3)), constraints=["P <= L", "Q <= L"])
    L = c.T("L")
    pos = {k: c.input("d" + k, lambda d, k=k: (d.b, d[k]), np.int64, 0, lambda d: d.L) for k in "PQ"}
    hit = {k: (lambda n, l, k=k: Sum(c.T(k), lambda j: ite(eq(pos[k](n, j), l), const(1), const(0)))) for k in "PQ"}
    c.sampler = lambda d, rs: {"d" + k: np.stack([rs.permutation(d.L)[:d[k]] for _ in range(d.b)]) for k in "PQ"}

    def run(d):
        def f(p, q):
            def split(key, num=2): return [key + 1] * num
            def choice(key, a, shape=(), replace=True, p=None, **kw):
                if replace or p is not None or not (a is d.L or a == d.L) or len(shape) != 1: raise Unsupported("draw of sites")
                if shape[0] is d.P or (shape[0] is not d.Q and shape[0] == d.P): t = P_
                else: t = Q_
                return t[key - 1]
            P_, Q_ = p, q
            scan = lambda g, init, xs=None, length=None, **kw: REAL_SCAN(g, init, jnp.arange(length) if xs is None else xs, **kw)
            with patched(jax.random, split=split, choice=choice), patched(jax.lax, scan=scan):
                h = df.FermionicDiscreteHilbert.__new__(df.FermionicDiscreteHilbert)
                h._n_elec = (d.P, d.Q)
                with patched(df.FermionicDiscreteHilbert, size=property(lambda s: d.L)):
                    return RANDOM(h, jnp.asarray(0, jnp.int64), d.b, dtype=jnp.int64)
        return f
    from netket.hilbert.random import random_state as disp
    RANDOM = next(m for m in disp.methods if m.implementation.__module__ == rdf.__name__).implementation
    c.invariants = [(lambda e, nk: nk == 1, lambda j: [([], lambda: j)])]
    r = c.run(run, order=["dP", "dQ"])
    c.ensure("up electrons on the first sites drawn, down electrons on the second", r, lambda n, l: hit["P"](n, l) + 2 * hit["Q"](n, l))
    n = var("n"); h0 = [le(const(0), n), lt(n, c.T("b"))]
    for s, k in ((1, "P"), (2, "Q")):
        c.lemma("the sites drawn hold %s electrons" % ("n_up" if s == 1 else "n_down"), lambda k=k: (Sum(c.T(k), lambda j: Sum(L, lambda l: ite(eq(pos[k](n, j), l), const(1), const(0)))), c.T(k)), hyps=h0)
    c.assumptions.append("jax.random.choice(replace=False) returns distinct sites, uniformly; so each site is hit at most once by either draw")
    return c


REAL_SCAN = jax.lax.scan
CASES += [constraint, random_state]
