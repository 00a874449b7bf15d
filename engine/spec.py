"""Contracts: a Case traces one real function on symbolic inputs under preconditions and states its postconditions."""
import sys, os, time, math, traceback, random
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
import numpy as np
import jax, jax.numpy as jnp
jax.config.update("jax_enable_x64", True)
from .terms import *
from . import terms as Tm
from .solve import Ctx, prove_zero, prove_eq, prove_bool, STATS, Budget, simp
from .jx import Arr, Ev, Unsupported, inp, dims as mkdims, trace, dim, S, sort_of, shp
from .ev import evaluate, Undef
PROOF_S = float(os.environ.get("VERIF_PROOF_S", "60"))
TRIES = int(os.environ.get("VERIF_REFUTE", "40"))


class Skip(Exception):
    pass


class Dims(dict):
    __getattr__ = dict.__getitem__


class Case:
    """make(d, inputs...) is called with symbolic dims for the proof and with concrete dims for cross-checks and replay"""

    def __init__(self, name, functions, dims="", rng=None, constraints=(), fixed=None):
        self.name, self.functions = name, list(functions)
        names = [x.strip() for x in dims.split(",") if x.strip()]
        self.dimnames = names
        self.rng = rng or {}
        self.d = Dims(fixed or {})
        if names:
            for n, v in zip(names, mkdims(dims, constraints)): self.d[n] = v
        self.fixed = fixed or {}
        self.der = {}
        self.dimdef = {}
        self.invariants = []
        self.eqrules = {}
        self.frules = {}
        self.small = {}
        self.inputs = {}          # name -> (shape fn, dtype, gen)
        self.arr = {}
        self.hyps = [le(const(self.rng.get(n, (1, 3))[0]), var(n)) for n in names]
        self.facts = {}
        self.obl = []
        self.assumptions = []
        self.extra = {}           # function symbols known to the evaluator
        self.sampler = None
        self.fn = None
        self.ok_den = []
        self.dens = []
        self.side = []
        self.crosschecks = 0
        self.rewrites = {}
        self.opaque_pjit = {}
        self.post_sample = None
        self.tol = 1e-8
        self.note = []

    def T(self, n): return dim(self.d[n])

    def derived(self, name, shape, dtype, el):
        """an input array whose contents the precondition fixes: el(*idx) -> term"""
        s = sort_of(dtype)
        ar = Arr(shp(shape(self.d)), s, el, dtype, tag=name)
        self.inputs[name] = (shape, dtype, None, None, None)
        self.arr[name] = ar
        self.der[name] = (shape, dtype, el)
        return ar

    def input(self, name, shape, dtype, lo=None, hi=None, gen=None, facts=None):
        """shape: fn(d) -> tuple.  lo/hi (terms or ints): every element e satisfies lo <= e < hi"""
        av, ar = inp(name, shape(self.d), dtype)
        self.inputs[name] = (shape, dtype, lo, hi, gen)
        self.arr[name] = ar
        fl = []
        if lo == 0 and isinstance(hi, int) and 1 < hi <= 4: self.small[name] = hi
        if lo is not None:
            def f(*idx):
                e = ar(*idx)
                return [le(lift(_val(lo, self.d)), e), lt(e, lift(_val(hi, self.d)))]
            fl.append(f)
        if facts is not None: fl.append(facts)
        if fl: self.facts[name] = lambda *idx: [h for f in fl for h in f(*idx)]
        return ar

    def assume(self, *h): self.hyps += [x for x in h if x is not TRUE]

    def run(self, fn, order=None):
        """fn(d) -> callable taking the inputs in order"""
        self.fn = fn; self.order = order or list(self.inputs)
        ev = Ev(side=self.side, opaque_pjit=self.opaque_pjit); ev.dens = self.dens; ev.invariants = self.invariants
        avs = [S(tuple(self.inputs[n][0](self.d)), self.inputs[n][1]) for n in self.order]
        out, cj = trace(fn(self.d), avs, [self.arr[n] for n in self.order], ev)
        self.out = out; self.ev = ev; self.cj = cj
        for o in jax.tree_util.tree_leaves(out, is_leaf=lambda x: isinstance(x, Arr)):
            if o.sort in "BIRC": o(*[var("i%d_x" % k) for k in range(o.ndim)])   # force loops to be met
        for nm, g, w, hy in ev.loop_obl: self.obl.append(dict(name=nm, got=g, spec=(lambda w: lambda *i: w(*i))(w), hyps=hy, idx_hyps=None, pick=None, kind="eq", internal=True))
        return out

    def ensure(self, name, got, spec, hyps=(), idx_hyps=None, pick=None, kind="eq"):
        """for every index of got: got[idx] == spec(*idx).  pick(real output) selects the same array from a real run"""
        self.obl.append(dict(name=name, got=got, spec=spec, hyps=list(hyps), idx_hyps=idx_hyps, pick=pick, kind=kind))

    def lemma(self, name, f, hyps=()):
        """f() -> boolean term or (lhs, rhs)"""
        self.obl.append(dict(name=name, lemma=f, hyps=list(hyps)))

    # ------------------------------------------------------------------ concrete instances
    def sample(self, rs, tries=400):
        for _ in range(tries):
            d = Dims(self.fixed)
            for n in self.dimnames:
                lo, hi = self.rng.get(n, (1, 3)); d[n] = int(rs.randint(lo, hi + 1))
            for n, f in self.dimdef.items(): d[n] = int(f(d))
            vals = {}
            if self.sampler is not None:
                vals = self.sampler(d, rs)
                if vals is None: continue
            for n, (shape, dtype, lo, hi, gen) in self.inputs.items():
                if n in vals or n in self.der: continue
                sh = tuple(int(x) for x in shape(d))
                if gen is not None: vals[n] = np.asarray(gen(d, rs, sh), dtype=dtype); continue
                k = np.dtype(dtype).kind
                if k == "c": vals[n] = np.asarray(rs.randn(*sh) + 1j * rs.randn(*sh), dtype=dtype)
                elif k == "f": vals[n] = np.asarray(rs.randn(*sh), dtype=dtype)
                elif k == "b": vals[n] = rs.rand(*sh) < 0.5
                else:
                    l = 0 if lo is None else _num(lo, d); h = 3 if hi is None else _num(hi, d)
                    if h <= l:
                        if int(np.prod(sh)): break
                        h = l + 1
                    vals[n] = np.asarray(rs.randint(l, h, size=sh), dtype=dtype)
            else:
                if self._holds(d, vals):
                    env, fun = self._env(d, vals)
                    for n, (shape, dtype, el) in self.der.items():
                        if n in vals: continue
                        sh = tuple(int(x) for x in shape(d)); a = np.zeros(sh, dtype=dtype)
                        for ix in np.ndindex(*sh): a[ix] = evaluate(lift(el(*[const(int(i)) for i in ix])), env, fun)
                        vals[n] = a
                    return d, vals
                continue
        return None

    def _env(self, d, vals):
        env = {n: int(d[n]) for n in self.dimnames}
        fun = dict(vals)
        for k, f in self.extra.items(): fun[k] = f(d, vals) if getattr(f, "needs_env", False) else f
        return env, fun

    def _holds(self, d, vals):
        env, fun = self._env(d, vals)
        for h in self.hyps:
            try:
                if not evaluate(h, env, fun): return False
            except Undef: pass
        for n, f in self.facts.items():
            if n not in vals: continue
            a = vals[n]
            for ix in np.ndindex(*a.shape):
                for h in f(*[const(int(i)) for i in ix]):
                    try:
                        if not evaluate(h, env, fun): return False
                    except Undef: pass
        return True

    def real(self, d, vals):
        r = self.fn(d)(*[jnp.asarray(vals[n]) for n in self.order])
        return r

    def compare(self, rs, o=None, what="spec", maxel=400):
        """one concrete instance: real code vs terms.  Returns None or a description of the disagreement"""
        s = self.sample(rs)
        if s is None: raise Skip("no instance satisfies the preconditions")
        d, vals = s
        env, fun = self._env(d, vals)
        real = self.real(d, vals)
        flat = jax.tree_util.tree_leaves(real)
        gotl = jax.tree_util.tree_leaves(self.out, is_leaf=lambda x: isinstance(x, Arr))
        for o_ in ([o] if o else [None]):
            if o_ is None:
                pairs = [(g, np.asarray(r), g) for g, r in zip(gotl, flat)]
            else:
                g = o_["got"]
                k = next((i for i, x in enumerate(gotl) if x is g), None)
                if o_["pick"] is not None: arr = np.asarray(o_["pick"](real))
                elif k is None: raise Skip("output not observable")
                else: arr = np.asarray(flat[k])
                pairs = [(g, arr, o_.get("replay_spec") or o_["spec"])]
            for g, r, spec in pairs:
                if g.sort == "K": continue
                idxs = list(np.ndindex(*r.shape))
                if len(idxs) > maxel: idxs = [idxs[i] for i in rs.choice(len(idxs), maxel, replace=False)]
                for ix in idxs:
                    ci = [const(int(i)) for i in ix]
                    if o_ is not None:
                        hs = list(o_["hyps"]) + (list(o_["idx_hyps"](*ci)) if o_["idx_hyps"] else [])
                        try:
                            if not all(evaluate(h, env, fun) for h in hs): continue
                        except Undef: pass
                    want = evaluate(lift(spec(*ci)), env, fun); have = r[ix].item()
                    if not same(have, want, self.tol):
                        return {"dims": {k: int(v) for k, v in d.items() if isinstance(v, (int, np.integer))}, "inputs": {k: show_np(v) for k, v in vals.items()}, "index": list(ix), "code": str(have), "contract" if o_ else "engine": str(want)}
        return None


def same(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
    try:
        if a == b: return True
        if isinstance(a, complex) and a.real == -math.inf and (b.real if isinstance(b, complex) else b) == -math.inf: return True
        if (a != a) and (b != b): return True
        d = abs(a - b)
        if d != d: return False
        return d <= tol * (1 + abs(a) + abs(b))
    except TypeError: return False


def show_np(v):
    v = np.asarray(v)
    return str(v.tolist())[:600]


def _val(x, d):
    if callable(x): x = x(d)
    return x if isinstance(x, T) else (dim(x) if not isinstance(x, (int, float)) else const(x))


def _num(x, d):
    if callable(x): x = x(d)
    if isinstance(x, T): return int(evaluate(x, {k: int(v) for k, v in d.items()}, {}))
    return int(x)


def prove_split(code, sp, cx, conds, res):
    """proof by cases over the given conditions, then as usual"""
    while conds:
        q = conds[0]; d = cx.decide(q)
        if d is not None:
            if d and q.op == "eq": dl = cx.deadline; cx = cx.extend(q); cx.deadline = dl     # implied equations are used for rewriting
            conds = conds[1:]; continue
        for h in (q, not_(q)):
            c2 = cx.extend(h); c2.deadline = cx.deadline
            if c2.inconsistent(): continue
            r = prove_split(code, sp, c2, conds[1:], res)
            if not r: return r
        return r if not r else type(r)(True)
    res["split_cases"] = res.get("split_cases", 0) + 1
    return prove_eq(code, sp, cx)


def run_case(make, seed=1, ncross=3):
    """-> dict with obligations"""
    t0 = time.time()
    res = {"functions": [], "obligations": [], "assumptions": [], "name": make.__name__, "cross": 0, "prims": {}}
    try:
        c = make()
    except Unsupported as e:
        res["obligations"].append({"name": make.__name__, "status": "unsupported", "detail": "Unsupported: %s" % e, "function": make.__name__}); res["wall"] = time.time() - t0; return res
    except Exception as e:
        res["obligations"].append({"name": make.__name__, "status": "unsupported", "detail": traceback.format_exc()[-600:], "function": make.__name__}); res["wall"] = time.time() - t0; return res
    res["functions"] = c.functions; res["assumptions"] = list(c.assumptions); res["case"] = c.name
    rs = np.random.RandomState(seed)
    bad = None
    if c.fn is not None:
        res["prims"] = dict(c.ev.prims)
        try:
            for k in range(ncross):
                m = c.compare(rs)
                if m is not None: bad = m; break
                res["cross"] += 1
        except Skip as e: bad = {"vacuous": str(e)}
        except Undef as e: res["cross_note"] = "not evaluable: %s" % e
        except Unsupported as e: bad = {"unsupported": str(e)}
        except Exception as e: bad = {"error": traceback.format_exc()[-800:]}
    ctx0 = Ctx(c.hyps, c.facts, c.rewrites); ctx0.eqrules = c.eqrules; ctx0.frules = c.frules; ctx0.small = c.small; ctx0.guarded = getattr(c, "guarded", False); ctx0.splitsmall = getattr(c, "splitsmall", False)
    for o in c.obl:
        name = c.name + ": " + o["name"]
        q = {"name": name, "function": ", ".join(c.functions), "backend": "z3 + exact polynomial normal form", "t": 0}
        t1 = time.time(); u0 = STATS["unknown"]
        try:
            if "lemma" in o:
                cx = ctx0.extend(*o["hyps"]); cx.deadline = time.time() + getattr(c, "proof_s", PROOF_S)
                r = o["lemma"]()
                pr = prove_bool(r, cx) if isinstance(r, T) else prove_zero(sub(lift(r[0]), lift(r[1])), cx)
                q["statement"] = show(r if isinstance(r, T) else eq(lift(r[0]), lift(r[1])))[:600]
                vac = cx
            else:
                g = o["got"]
                iv = [var("i%d_%s" % (k, "x")) for k in range(g.ndim)]
                hy = [h for v, n in zip(iv, g.shape) for h in (le(const(0), v), lt(v, n))] + list(o["hyps"])
                if o["idx_hyps"]: hy += list(o["idx_hyps"](*iv))
                cx = ctx0.extend(*hy); cx.deadline = time.time() + getattr(c, "proof_s", PROOF_S)
                code, sp = g(*iv), lift(o["spec"](*iv))
                q["statement"] = "for all %s: code == %s" % (",".join(v.val for v in iv), show(sp)[:400])
                if code.sort == "B" or sp.sort == "B": pr = prove_bool(eq(code, sp), cx)
                elif o.get("tactic"): pr = o["tactic"](code, sp, cx)
                elif getattr(c, "split", None): pr = prove_split(code, sp, cx, c.split(*iv), res)
                else: pr = prove_eq(code, sp, cx)
                vac = cx
            if vac.check() == "unsat": q["status"] = "unknown"; q["detail"] = "vacuous: preconditions are contradictory"
            elif bad is not None and "vacuous" in bad: q["status"] = "unknown"; q["detail"] = str(bad)
            elif bad is not None: q["status"] = "unsupported"; q["detail"] = "translation disagrees with the running code: %s" % bad
            elif pr.ok: q["status"] = "discharged"
            else:
                q["status"] = "unknown"; q["failed"] = "budget" not in pr.why and time.time() < cx.deadline and STATS["unknown"] == u0
                q["detail"] = pr.why + ": " + show(pr.residual)[:int(os.environ.get("VERIF_SHOW", "500"))]
                if os.environ.get("VERIF_HYPS") and pr.ctx is not None: q["detail"] += "\n  under " + "\n        ".join(show(h) for h in pr.ctx.hyps)
        except Unsupported as e: q["status"] = "unsupported"; q["detail"] = str(e)
        except Budget: q["status"] = "unknown"; q["detail"] = "budget"
        except Exception as e: q["status"] = "unsupported"; q["detail"] = traceback.format_exc()[-600:]
        if q["status"] != "discharged" and c.fn is not None and "lemma" not in o and not o.get("internal") and not (bad and "vacuous" in bad):
            # look for an input on which the running code breaks the contract
            try:
                for k in range(TRIES):
                    m = c.compare(rs, o)
                    if m is not None:
                        q["status"] = "refuted"; q["model"] = m; q["replayed"] = True; break
            except (Skip, Undef): pass
            except Exception as e: q["detail"] = str(q.get("detail")) + " | search: " + traceback.format_exc()[-400:]
        elif q["status"] == "discharged" and c.fn is not None and "lemma" not in o and not o.get("internal") and not o.get("noguard"):
            # guard against an unsound simplification: a discharged contract must hold on sampled runs of the real code
            try:
                for k in range(4):
                    m = c.compare(rs, o)
                    if m is not None: q["status"] = "refuted"; q["model"] = m; q["replayed"] = True; q["detail"] = "the proof went through but the running code disagrees"; break
                    res["guard"] = res.get("guard", 0) + 1
            except (Skip, Undef): pass
            except Exception as e: res["guard_note"] = traceback.format_exc()[-300:]
        q["t"] = round(time.time() - t1, 2)
        res["obligations"].append(q)
    # well-definedness: denominators
    dd = {}
    for y in c.dens: dd[y.id] = y
    if c.fn is not None:
        left = []
        for y in dd.values():
            if any(p(y) for p in c.ok_den): continue
            left.append(y)
        if left and c.ok_den is not None:
            res["den_assumed"] = sorted({show(y)[:120] for y in left})[:6]
    res["wall"] = round(time.time() - t0, 2)
    return res
