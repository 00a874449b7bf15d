import numpy as np
RULE = ("autoregressive models (weight-shared, fully variational with uniform/per-site support dimension, plaquette, modulus/phase, PixelCNN) with random "
        "parameters on every configuration of small systems, constrained and unconstrained, spin and fermionic; oracle: normalisation, causality, "
        "product of conditionals, explicit amplitude formula, average over symmetry copies")


def fermi_hooks():
    import jax, jax.numpy as jnp

    def count(occ):
        z = jnp.zeros(occ.shape[0])
        return jnp.stack([z, occ & 1, (occ & 2) / 2, z], axis=-1).astype(jnp.int32)

    def ren(n, hilbert, index):
        left = hilbert.size - index
        du, dd = hilbert._n_elec[0] - n[:, 1], hilbert._n_elec[1] - n[:, 2]
        bad = []
        for v in range(4):
            ok = jnp.ones(n.shape[0], bool)
            for d, bit in ((du, 1), (dd, 2)):
                r = d - (1 if v & bit else 0)
                ok = ok & (r >= 0) & (r <= left - 1)
            bad.append(jnp.where(ok, 0.0, -jnp.inf))
        return jnp.stack(bad, -1)
    return dict(count_spins=count, renormalize_log_psi=ren)


def models():
    import numpy as np, jax.numpy as jnp, netket as nk
    from netket.utils import HashableArray
    from GPSKet.models import ARqGPS, ARqGPSFull, ARPlaquetteqGPS, ARqGPSModPhase, ARqGPSModPhaseFull
    from GPSKet.hilbert import FermionicDiscreteHilbert
    spin = lambda L, sz=None: nk.hilbert.Spin(0.5, N=L, total_sz=sz)
    H = lambda a: HashableArray(np.array(a))

    def plq(L):
        p = np.array([[(i - j) % L for j in range(L)] for i in range(L)])
        m = np.where(p >= np.arange(L)[:, None], 0, 1)
        return H(p), H(m)

    def tr(L):
        sy = np.array([[(i + s) % L for s in range(L)] for i in range(L)])
        return lambda x: jnp.take(x, jnp.asarray(sy), axis=-1)
    f = lambda L, n=None: FermionicDiscreteHilbert(L, n_elec=n)
    fh = fermi_hooks()
    id2 = lambda t: (t, None)
    L = [
        ("ar", lambda: ARqGPS(spin(5), 2)), ("ar-2site", lambda: ARqGPS(spin(2), 2)), ("ar-1site", lambda: ARqGPS(spin(1), 1)),
        ("ar-0", lambda: ARqGPS(spin(6, 0), 2)),
        ("ar-real-0", lambda: ARqGPS(spin(4, 0), 3, dtype=jnp.float64)), ("ar-pow1", lambda: ARqGPS(spin(4), 2, machine_pow=1)),
        ("ar-sym", lambda: ARqGPS(spin(4), 2, apply_symmetries=tr(4))), ("ar-sym-0", lambda: ARqGPS(spin(6, 0), 1, apply_symmetries=tr(6))),
        ("ar-fermi", lambda: ARqGPS(f(3, (2, 1)), 2, **fh)), ("ar-modphase", lambda: ARqGPSModPhase(spin(4), 2, dtype=jnp.float64)),
        ("ar-modphase-0", lambda: ARqGPSModPhase(spin(4, 0), 1, dtype=jnp.float64)),
        ("full", lambda: ARqGPSFull(spin(5), 2)), ("full-3site", lambda: ARqGPSFull(spin(3), 2)), ("full-0", lambda: ARqGPSFull(spin(6, 0), 2)),
        ("full-list", lambda: ARqGPSFull(spin(4), H([2, 1, 3, 2]))), ("full-list-0", lambda: ARqGPSFull(spin(4, 0), H([1, 2, 2, 3]))),
        ("full-fermi", lambda: ARqGPSFull(f(3, (1, 2)), 2, **fh)), ("full-pow1", lambda: ARqGPSFull(spin(4, 0), 2, machine_pow=1)),
        ("full-slow-sym-0", lambda: ARqGPSFull(spin(4, 0), 2, apply_symmetries=tr(4), apply_fast_update=False)),
        ("full-sym-0", lambda: ARqGPSFull(spin(4, 0), 2, apply_symmetries=__import__("bounded.models", fromlist=["x"]).graph_syms(4))),
        ("full-modphase", lambda: ARqGPSModPhaseFull(spin(4), 2, dtype=jnp.float64)),
        ("plaq", lambda: ARPlaquetteqGPS(spin(5), 2, *plq(5))), ("plaq-0", lambda: ARPlaquetteqGPS(spin(6, 0), 2, *plq(6))),
        ("plaq-2site", lambda: ARPlaquetteqGPS(spin(2), 1, *plq(2))),
        ("plaq-sym-0", lambda: ARPlaquetteqGPS(spin(4, 0), 2, *plq(4), apply_symmetries=tr(4))),
        ("plaq-fermi", lambda: ARPlaquetteqGPS(f(3, (1, 1)), 2, *plq(3), **fh)),
    ]
    return L


def full_space(hi):
    import itertools
    return np.array(list(itertools.product(np.asarray(hi.local_states), repeat=hi.size)))


def variables(model, rng, x, scale=0.5):
    from . import models as M
    import jax, jax.numpy as jnp
    v = dict(model.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(x)))
    v["params"] = M.perturb(v["params"], rng, scale)
    return {k: w for k, w in v.items() if k != "cache"}


def step_conditionals(model, params, x):
    """_conditional called successively with a fresh cache"""
    import jax, jax.numpy as jnp
    L = x.shape[1]
    plaq = hasattr(model, "plaquettes")
    v = dict(params)
    c = model.init(jax.random.PRNGKey(0), x, (-1, np.zeros(L), np.arange(L)) if plaq else -1, method=model._conditional)
    if "cache" in c:
        v["cache"] = c["cache"]
    out = []
    for i in range(L):
        a = (i, np.asarray(model.masks)[i], np.asarray(model.plaquettes)[i]) if plaq else i
        p, mut = model.apply(v, x, a, method=model._conditional, mutable=["cache"])
        if "cache" in mut:
            v["cache"] = mut["cache"]
        out.append(np.asarray(p))
    return np.stack(out, 1)


def run(h):
    from . import models as M
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet

    def full(model, v, x):
        mut = ["intermediates_cache", "cache"]
        return np.asarray(jax.jit(lambda v, y: model.apply(v, y, mutable=mut)[0])(v, jnp.asarray(x)))

    def formula(model, v, idx):
        """independent log conditionals (before constraint and normalisation) for index configurations idx (B, L): (B, L, D)"""
        name = type(model).__name__
        p = {k: np.asarray(w) for k, w in v["params"].items() if hasattr(w, "shape")}
        B, L = idx.shape
        out = None
        for b in range(B):
            for i in range(L):
                if "Plaquette" in name:
                    e = p["epsilon"]; pl = np.asarray(model.plaquettes)[i]; ma = np.asarray(model.masks)[i]
                    ctx = np.ones(e.shape[1], e.dtype)
                    for j in range(L):
                        if ma[j]:
                            ctx = ctx * e[idx[b, pl[j]], :, j]
                    row = (e[:, :, 0] * ctx).sum(-1)
                else:
                    if "Full" in name:
                        if "epsilon" in p:
                            o = i * (i + 1) // 2
                            e = p["epsilon"][:, :, o:o + i + 1]
                        else:
                            e = p["epsilon_%d" % i]
                    else:
                        e = p["epsilon"]
                    ctx = np.ones(e.shape[1], e.dtype)
                    for j in range(i):
                        ctx = ctx * e[idx[b, j], :, j]
                    row = (e[:, :, i] * ctx).sum(-1)
                if out is None:
                    out = np.zeros((B, L, len(row)), complex)
                out[b, i] = row
        return out

    def allowed(hi, idx):
        """allowed[b, i, d]: some completion of (idx[b,:i], d) lies in the space"""
        B, L = idx.shape
        D = hi.local_size
        if not hi.constrained:
            return np.ones((B, L, D), bool)
        good = set()
        loc = np.asarray(hi.local_states)
        for c in full_space(hi):
            inside = (c.sum() == 0) if D == 2 else (sum((int(q) & 1) for q in c) == hi._n_elec[0] and sum((int(q) >> 1) for q in c) == hi._n_elec[1])
            if inside:
                k = tuple(int(np.argmin(abs(loc - q))) for q in c)
                for i in range(L + 1):
                    good.add(k[:i])
        return np.array([[[tuple(idx[b, :i]) + (d,) in good for d in range(D)] for i in range(L)] for b in range(B)])

    def case(rng, h, mk):
        ma = mk()
        hi = ma.hilbert
        L, D, mp = hi.size, hi.local_size, ma.machine_pow
        X = full_space(hi)
        fermi = D == 4
        if fermi:
            X = X.astype(np.uint8)
        v = variables(ma, rng, X[:1])
        idx = np.asarray(hi.states_to_local_indices(jnp.asarray(X)))
        al = allowed(hi, idx)
        inside = np.array([all(al[b, i, idx[b, i]] for i in range(L)) for b in range(len(X))])
        h.inputs(model=type(ma).__name__, L=L, constrained=hi.constrained, machine_pow=mp)
        X, idx, al = X[inside], idx[inside], al[inside]
        p = np.asarray(ma.apply(v, jnp.asarray(X), method=ma.conditionals, mutable=["cache", "intermediates_cache"])[0])
        h.close("conditionals normalised", p.sum(-1), np.ones(p.shape[:2]), 1e-7, nontrivial=False)
        h.ok("conditionals non-negative", np.all(p >= 0), str(p.min()))
        h.ok("no probability outside the sector", np.all(p[~al] == 0), str(p[~al]))
        h.ok("every allowed value is reachable", np.all(p[al] > 0), str(p[al].min()))
        # causality: conditional i depends on sites < i only
        by = {}
        for b in range(len(X)):
            for i in range(L):
                k = (i,) + tuple(idx[b, :i])
                if k in by:
                    h.close("conditional %d independent of later sites" % i, p[b, i], by[k], 1e-10)
                else:
                    by[k] = p[b, i]
        h.close("site-by-site conditionals", step_conditionals(ma, v, jnp.asarray(X)), p, 1e-8)
        lp = full(ma, v, X)
        prod = np.array([np.prod([p[b, i, idx[b, i]] for i in range(L)]) for b in range(len(X))])
        sym = ma.apply_symmetries[0] if isinstance(ma.apply_symmetries, tuple) else ma.apply_symmetries
        T = np.asarray(sym(jnp.asarray(X)))
        pos = {tuple(c): b for b, c in enumerate(X)}
        cop = np.array([[pos[tuple(T[b, :, t])] for t in range(T.shape[-1])] for b in range(len(X))])
        h.close("|psi|^p is the symmetry-averaged product of conditionals", np.exp(mp * lp.real), prod[cop].mean(-1), 1e-7)
        h.close("norm", np.exp(mp * lp.real).sum(), np.array(1.0), 1e-7)
        # explicit formula
        lc = formula(ma, v, idx)
        w = np.where(al, np.exp(mp * lc.real), 0)
        h.close("conditionals formula", p, w / w.sum(-1, keepdims=True), 1e-7)
        if "ModPhase" not in type(ma).__name__:
            im = np.array([sum(lc[b, i, idx[b, i]].imag for i in range(L)) for b in range(len(X))])
            h.close("phase", np.exp(1j * lp.imag), np.exp(1j * np.angle(np.exp(1j * im[cop]).sum(-1))), 1e-7)
        else:
            e = np.asarray(v["params"]["_qgps"]["epsilon"])
            ph = np.array([np.prod([e[idx[b, i], :, i] for i in range(L)], axis=0).sum() for b in range(len(X))])
            h.close("phase model", np.exp(1j * lp.imag), np.exp(1j * ph), 1e-7)
        if X.shape[0] and "ModPhase" not in type(ma).__name__:
            one = full(ma, v, X[0])
            h.close("unbatched input", one.reshape(-1), lp[:1], 1e-10)

    for n, mk in models():
        h.case(n, case, mk, repeat=2 if h.thorough else 1)

    def unnorm(rng, h, mk):
        ma = mk()
        hi = ma.hilbert
        X = full_space(hi)
        v = variables(ma, rng, X[:1])
        idx = np.asarray(hi.states_to_local_indices(jnp.asarray(X)))
        lc = formula(ma, v, idx)
        want = np.array([sum(lc[b, i, idx[b, i]] for i in range(hi.size)) for b in range(len(X))])
        h.close("unnormalised log-amplitude", np.exp(full(ma, v, X)), np.exp(want), 1e-7)
    from GPSKet.models import ARqGPS, ARqGPSFull
    h.case("unnormalised-ar", unnorm, lambda: ARqGPS(nk.hilbert.Spin(0.5, 4), 2, normalize=False))
    h.case("unnormalised-full", unnorm, lambda: ARqGPSFull(nk.hilbert.Spin(0.5, 4), 2, normalize=False))

    def pix(rng, h, L2, ks, depth, gauge, dt):
        from GPSKet.models import PixelCNN
        hi = nk.hilbert.Spin(0.5, N=L2 * L2)
        kw = {}
        if gauge:
            # forbid the up value wherever the running sum of the previous sites exceeds a threshold
            kw = dict(gauge_fn=lambda x: jnp.cumsum(x, -1) - x, constraint_fn=lambda g: jnp.stack([jnp.zeros_like(g) > 1, g >= 2], -1))
        ma = PixelCNN(hi, depth=depth, n_channels=3, kernel_size=ks, param_dtype=dt, **kw)
        X = full_space(hi) if L2 * L2 <= 9 else np.array(rng.choice([-1.0, 1.0], size=(40, L2 * L2)))
        v = variables(ma, rng, X[:1], 0.4)
        h.inputs(L=L2, kernel=ks, depth=depth, gauge=gauge)
        p = np.asarray(ma.apply(v, jnp.asarray(X), method=ma.conditionals))
        h.close("conditionals normalised", p.sum(-1), np.ones(p.shape[:2]), 1e-5, nontrivial=False)
        idx = np.asarray(hi.states_to_local_indices(jnp.asarray(X)))
        for i in range(hi.size):
            Y = X.copy()
            Y[:, i:] *= rng.choice([-1, 1], size=Y[:, i:].shape)
            q = np.asarray(ma.apply(v, jnp.asarray(Y), method=ma.conditionals))
            h.close("conditional %d independent of sites >= %d" % (i, i), q[:, i], p[:, i], 1e-5)
        lp = np.asarray(ma.apply(v, jnp.asarray(X)))
        pr = np.prod(np.take_along_axis(p, idx[..., None], -1)[..., 0], -1)
        h.close("|psi|^2 = product of conditionals", np.exp(2 * lp.real), pr, 1e-5)
        if L2 <= 3:
            h.close("norm", np.exp(2 * lp.real).sum(), np.array(1.0), 1e-4)
        if gauge:
            br = np.asarray(kw["constraint_fn"](kw["gauge_fn"](jnp.asarray(X))))
            h.ok("broken gauge has probability zero", np.all(p[br] == 0))
    h.case("pixelcnn-2", pix, 2, 3, 2, False, jnp.float64)
    h.case("pixelcnn-3", pix, 3, 3, 2, False, jnp.float64)
    h.case("pixelcnn-4-k5", pix, 4, 5, 1, False, jnp.float64)
    h.case("pixelcnn-gauge", pix, 3, 3, 1, True, jnp.float64)
