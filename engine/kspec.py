"""Contracts on the numba kernels that return connected configurations (engine/pyk.py)"""
from .spec import *
from . import pyk
from .pyk import Kernel, Emit, LoopLog, IfLog, total, emissions, Ref, UNDEF
from .jx import mentions, concrete_arr


def Gfun(row):
    """an injective-looking stand-in for the arbitrary test function G of a configuration"""
    h = 0.37
    for k, v in enumerate(row): h = (h * 1.7 + (int(round(float(v))) + 1.3) * (0.61 + 0.17 * k)) % 7.3
    return complex(h - 3.1, (h * h) % 2.9 - 1.2)


def G(fn, n):
    """G applied to the configuration with sites fn(l), l < n"""
    v = fresh("g"); return mk("f", (bind("lam", v, n, fn(v)),), "C", "G")


class KPrims:
    prims = {}; loop_obl = ()


class KCase(Case):
    """a kernel (x, sections, ...) -> (x', mels) with append-only outputs"""

    def run_kernel(self, fn, order, call, batch, L, secpos=1):
        """call(d, vals) -> (x_prime, mels, sections) from the running code"""
        self.extra["G"] = Gfun
        k = Kernel(); k.hyps = tuple(self.hyps); k.facts = self.facts; k.small = self.small
        args = [self.arr[n] if isinstance(n, str) and self.arr[n].ndim else (self.arr[n]() if isinstance(n, str) else n) for n in order]
        st, ret = k.run(fn, args)
        self.k, self.st, self.ret = k, st, ret
        if not (isinstance(ret, tuple) and len(ret) == 2 and all(isinstance(r, Ref) for r in ret)): raise Unsupported("kernel does not return a pair of arrays")
        hx, hm = st.heap[ret[0].hid], st.heap[ret[1].hid]
        if hx.app is None or hm.app is None: raise Unsupported("outputs are not append-only")
        self.xb, self.mb = hx.app, hm.app
        log = st.log
        if len(log) != 1 or not isinstance(log[0], LoopLog): raise Unsupported("kernel is not one loop over the batch")
        lp = log[0]
        if lp.n is not dim(self.d[batch]): raise Unsupported("outer loop is not over the batch")
        self.lp = lp; self.L = L
        nb = lambda t, n: subst(t, {lp.v.val: lift(n)})
        def mel(e): 
            if self.mb not in e.bufs: raise Unsupported("a row without matrix element")
            return e.bufs[self.mb]()
        def row(e):
            if self.xb not in e.bufs: raise Unsupported("a row without configuration")
            return e.bufs[self.xb]
        blk = total(lp.log, lambda e: mul(mel(e), G(row(e), L)))
        cnt = total(lp.log, lambda e: const(1))
        self.block = Arr((lp.n,), "C", lambda n: retag(nb(blk, n), "C"))
        self.rows = Arr((lp.n,), "I", lambda n: nb(cnt, n))
        sec = st.heap[k.argrefs[secpos].hid].arr()
        self.sections = Arr(sec.shape, sec.sort, lambda n: sec(n))
        ln = [pyk.Kernel.shape(k, r)[0] for r in ret]
        self.lens = Arr((const(2),), "I", lambda i: ite(eq(i, const(0)), ln[0], ln[1]))
        self.out = [self.block, self.sections, self.lens]
        self.fn = True; self.ev = KPrims()
        self.callreal = call
        for e in list(emissions(lp.log)):
            vs = fresh("l")
            if mentions(row(e[1])(vs), {UNDEF}) or mentions(mel(e[1]), {UNDEF}): raise Unsupported("a row is only partly written")
        seen = set(); j = 0
        for what, pc, c in k.side:
            key = (what, tuple(p.id for p in pc), c.id)
            if c is TRUE or key in seen: continue
            seen.add(key); self.lemma("%s [%d]" % (what, j), (lambda c: lambda: c)(c), hyps=pc); j += 1
        for h, v, n, d, pc in k.growth:
            # a buffer enlarged inside the batch loop grows by exactly the rows written in that iteration
            if n is not lp.n: raise Unsupported("buffer grows in an inner loop")
            self.lemma("buffer %s grows by the rows of the block" % st.heap[h].app, (lambda d, v: lambda: (d, nb(cnt, v)))(d, v), hyps=(le(const(0), v), lt(v, n)))
        self.ensure("section offsets delimit the blocks", self.sections, lambda n: self.sumrows(n + 1))
        self.ensure("the outputs hold exactly the rows of all blocks", self.lens, lambda i: self.sumrows(dim(self.d[batch])))
        return lp

    def sumrows(self, n):
        v = fresh("m"); return bind("sum", v, lift(n), self.rows(v))

    def real(self, d, vals):
        xp, mels, sec = self.callreal(d, vals)
        lo = 0; out = []
        for s in sec:
            out.append(sum((complex(mels[i]) * Gfun(tuple(xp[i])) for i in range(lo, int(s))), 0j)); lo = int(s)
        return [np.array(out, dtype=complex), np.asarray(sec), np.array([len(xp), len(mels)])]

    def conserve(self, name, count, x):
        """count(row function) is the same for every connected configuration as for the input"""
        lp = self.lp
        for j, (pc, e) in enumerate(emissions(lp.log)):
            self.lemma("%s [row %d]" % (name, j), (lambda e: lambda: (count(e.bufs[self.xb]), count(lambda l: x(lp.v, l))))(e), hyps=tuple(self.hyps0(lp)) + tuple(pc))

    def hyps0(self, lp): return [le(const(0), lp.v), lt(lp.v, lp.n)]


class PCase(Case):
    """plain Python / numba functions evaluated by engine/pyk.py; outputs are ordinary arrays or scalars"""

    def start(self):
        self.k = Kernel(append_outputs=False); self.k.hyps = tuple(self.hyps); self.k.facts = self.facts; self.k.small = self.small
        return self.k

    def run_py(self, fn, args, realfn, outs=None, after=None):
        """args: input names, terms or Python objects.  outs(state, ret, argrefs) -> list of Arr; realfn(d, vals) -> list of arrays"""
        k = self.start()
        a = [self.arr[n] if isinstance(n, str) and self.arr[n].ndim else (self.arr[n]() if isinstance(n, str) else n) for n in args]
        st, ret = k.run(fn, a)
        self.st, self.ret = st, ret
        def toarr(r):
            if isinstance(r, (Ref, Arr)): return k.read(r, st)
            t = pyk.lift_(r); return Arr((), t.sort, lambda: t)
        self.out = outs(st, ret, k.argrefs) if outs else [toarr(r) for r in (ret if isinstance(ret, tuple) else (ret,))]
        self.toarr = toarr
        self.fn = True; self.ev = KPrims(); self.realfn = realfn
        self.side_obligations()
        return self.out

    def side_obligations(self):
        seen = set(); j = 0
        for what, pc, c in self.k.side:
            key = (what, tuple(p.id for p in pc), c.id)
            if c is TRUE or key in seen: continue
            seen.add(key); self.lemma("%s [%d]" % (what, j), (lambda c: lambda: c)(c), hyps=pc); j += 1

    def real(self, d, vals): return self.realfn(d, vals)
