"""Driver for cached (fast-updated) evaluation along update histories vs. evaluation from scratch."""
import numpy as np, jax, jax.numpy as jnp


def amps_equal(h, what, got, want, tol=1e-6):
    got, want = np.asarray(got), np.asarray(want)
    h.evals += 1
    if got.shape != want.shape:
        from .common import Mismatch
        raise Mismatch("%s: shape %s vs %s" % (what, got.shape, want.shape))
    fin = np.isfinite(want.real)
    if not np.array_equal(fin, np.isfinite(got.real)):
        from .common import Mismatch
        raise Mismatch("%s: finite pattern differs got=%s want=%s" % (what, got, want))
    r = np.exp(np.where(fin, got - np.where(fin, want, 0), 0.0))
    if not np.all(np.abs(r - 1) < tol):
        from .common import Mismatch
        raise Mismatch("%s: amplitude ratio fast/scratch = %s\n fast log=%s\n scratch log=%s" % (what, r, got, want))
    h._note(what, want)


def history(h, rng, model, variables, x0, propose, steps, split=None, jit=True):
    """propose(rng, x) -> (update_sites (B,K), new values (B,K), x_new (B,L)) following the update protocol:
    the first occurrence of a site carries its new value; a repeated site carries the old value."""
    base = {k: v for k, v in variables.items() if k != "intermediates_cache"}
    mut = ["intermediates_cache"]
    full = lambda v, y: model.apply(v, y, mutable=mut)[0]
    fullc = lambda v, y: model.apply(v, y, mutable=mut, cache_intermediates=True)
    upd = lambda v, y, u: model.apply(v, y, mutable=mut, cache_intermediates=True, update_sites=u)
    updn = lambda v, y, u: model.apply(v, y, update_sites=u)
    if jit:
        full, fullc, upd, updn = map(jax.jit, (full, fullc, upd, updn))
    x = np.array(x0)
    val, st = fullc(base, jnp.asarray(x))
    amps_equal(h, "cached evaluation", val, full(base, jnp.asarray(x)))
    cache = dict(st)
    for s in range(steps):
        us, occ, xn = propose(rng, x)
        h.inputs(step=s, x=x, update_sites=us, new_values=occ)
        ref = full(base, jnp.asarray(xn))
        v = {**base, **cache}
        amps_equal(h, "fast update (no caching)", updn(v, jnp.asarray(occ), jnp.asarray(us)), ref)
        val, st = upd(v, jnp.asarray(occ), jnp.asarray(us))
        amps_equal(h, "fast update", val, ref)
        # accept a random subset of the batch, like a Metropolis sampler
        acc = rng.random(len(x)) < 0.6
        new = dict(st)
        cache = jax.tree_util.tree_map(lambda a, b: jnp.where(jnp.asarray(acc).reshape((-1,) + (1,) * (a.ndim - 1)), a, b), new, cache) if split is None else split(acc, new, cache)
        x = np.where(acc[:, None], xn, x)


def spin_proposal(K, vals=(-1.0, 1.0), dup=False, distinct=True, dtype=float):
    def f(rng, x):
        B, L = x.shape
        us = np.zeros((B, K), dtype=int); occ = np.zeros((B, K), dtype=x.dtype); xn = x.copy()
        for b in range(B):
            sites = rng.permutation(L)[:K] if distinct or K > L else rng.integers(0, L, K)
            if dup:
                sites = rng.integers(0, max(1, L // 2), K)
            seen = set()
            for k, s in enumerate(sites):
                us[b, k] = s
                if s in seen:
                    occ[b, k] = x[b, s]
                else:
                    seen.add(s)
                    v = rng.choice(vals)
                    occ[b, k] = v
                    xn[b, s] = v
        return us, occ, xn
    return f


def exchange_proposal(pairs=1, dup=False):
    """swap spins: stays in the zero-magnetisation sector"""
    def f(rng, x):
        B, L = x.shape
        K = 2 * pairs
        us = np.zeros((B, K), dtype=int); occ = np.zeros((B, K), dtype=x.dtype); xn = x.copy()
        for b in range(B):
            sites = rng.permutation(L)[:K]
            perm = np.arange(K)
            for p in range(pairs):
                if rng.random() < 0.8:
                    perm[2 * p], perm[2 * p + 1] = 2 * p + 1, 2 * p
            if dup:
                sites[-1] = sites[0]; perm = np.arange(K)
                perm[0], perm[1] = 1, 0
            seen = {}
            for k, s in enumerate(sites):
                us[b, k] = s
                if s in seen:
                    occ[b, k] = x[b, s]
                else:
                    seen[s] = 1
                    occ[b, k] = x[b, sites[perm[k]]]
                    xn[b, s] = occ[b, k]
        return us, occ, xn
    return f


def fermi_proposal(kind, n_hops=1):
    """electron moves; kind: hop | updown (possibly colliding sites, with dummy duplicates) | twosame | null | hop4"""
    def f(rng, x):
        B, L = x.shape
        K = {"hop": 2, "null": 2, "updown": 4, "twosame": 4, "pad": 3, "spinflip": 2}[kind]
        us = np.zeros((B, K), dtype=int); occ = np.zeros((B, K), dtype=x.dtype); xn = x.copy()
        for b in range(B):
            def pick(c, bit):
                o = [i for i in range(L) if c[i] & bit]; e = [i for i in range(L) if not c[i] & bit]
                return o, e
            c = x[b].copy().astype(int)
            if kind in ("hop", "pad", "null"):
                bits = [1, 2]; rng.shuffle(bits)
                done = False
                for bit in bits:
                    o, e = pick(c, bit)
                    if o and e and kind != "null":
                        i, a = int(rng.choice(o)), int(rng.choice(e))
                        c[i] -= bit; c[a] += bit
                        sites = [i, a]; done = True; break
                if not done:
                    sites = [int(v) for v in rng.integers(0, L, 2)]
                if kind == "pad":
                    sites = sites + [int(rng.integers(L))]
            elif kind == "updown":
                sites = []
                for bit in (1, 2):
                    o, e = pick(c, bit)
                    if o and e:
                        i, a = int(rng.choice(o)), int(rng.choice(e))
                        if rng.random() < 0.4 and sites:
                            i = sites[0] if (c[sites[0]] & bit) else i
                            a = sites[1] if not (c[sites[1]] & bit) else a
                        c[i] -= bit; c[a] += bit
                        sites += [i, a]
                    else:
                        sites += [int(v) for v in rng.integers(0, L, 2)]
            elif kind == "twosame":
                sites = []
                bit = int(rng.choice([1, 2]))
                o, e = pick(c, bit)
                if len(o) >= 2 and len(e) >= 2:
                    i, j = rng.permutation(o)[:2]; a, d = rng.permutation(e)[:2]
                    for s in (i, j): c[s] -= bit
                    for s in (a, d): c[s] += bit
                    sites = [int(i), int(a), int(j), int(d)]
                else:
                    sites = [int(v) for v in rng.integers(0, L, 4)]
            elif kind == "spinflip":
                # exchange an up and a down electron between two singly occupied sites
                u = [i for i in range(L) if c[i] == 1]; d = [i for i in range(L) if c[i] == 2]
                if u and d:
                    i, j = int(rng.choice(u)), int(rng.choice(d)); c[i], c[j] = 2, 1; sites = [i, j]
                else:
                    sites = [int(v) for v in rng.integers(0, L, 2)]
            seen = set()
            for k, s in enumerate(sites):
                us[b, k] = s
                occ[b, k] = x[b, s] if s in seen else c[s]
                seen.add(s)
            xn[b] = c
        return us, occ, xn
    return f
