import numpy as np
RULE = ("random states (real/complex parameters, positive/complex wavefunctions, full-sum, Monte Carlo and unique-sample states, several chains), random shifts, "
        "running averages and vectors; oracle: weighted covariance matrix of the log-derivatives computed with plain jax differentiation")


def run(h):
    from . import models as M, vmc as V
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS
    from GPSKet.vqs import MCStateUniqueSamples
    from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp, QGTJacobianDenseUniqueSamples
    from GPSKet.optimizer import pinv

    def state(rng, kind, dtype, out=None, n_chains=4, n=24):
        L = 5 if kind == "full" else 6
        hi = nk.hilbert.Spin(0.5, N=L)
        kw = dict(out_transformation=out) if out is not None else {}
        ma = qGPS(hi, 2, dtype=dtype, **kw)
        if kind == "full":
            vs = nk.vqs.FullSumState(hi, ma, seed=1)
        else:
            sa = nk.sampler.MetropolisLocal(hi, n_chains=n_chains)
            if kind == "unique":
                vs = MCStateUniqueSamples(sa, ma, n_samples=n, batch_size=16, seed=1, n_discard_per_chain=2)
            elif kind == "unique-pad":
                vs = MCStateUniqueSamples(sa, ma, n_samples=n, batch_size=16, max_sampling_steps=1, seed=1, n_discard_per_chain=2)
            else:
                vs = nk.vqs.MCState(sa, ma, n_samples=n, seed=1, n_discard_per_chain=2)
        vs.parameters = M.perturb(vs.parameters, rng, 0.3)
        return vs

    def data(vs, kind):
        if kind == "full":
            x = np.asarray(vs.hilbert.all_states())
            p = np.exp(2 * np.asarray(vs._apply_fun({"params": vs.parameters, **vs.model_state}, jnp.asarray(x))).real)
            return x, p / p.sum()
        if kind.startswith("unique"):
            x, w = vs.samples_with_counts
            return np.asarray(x), np.asarray(w)
        x = np.asarray(vs.samples).reshape(-1, vs.hilbert.size)
        return x, np.full(len(x), 1.0 / len(x))

    def ema_like(rng, params):
        def f(p):
            a = rng.uniform(0.1, 2.0, p.shape)
            return jnp.asarray(a + 1j * rng.uniform(0.1, 2.0, p.shape)) if np.iscomplexobj(p) else jnp.asarray(a)
        return jax.tree_util.tree_map(f, params)

    def vec_like(rng, params):
        return jax.tree_util.tree_map(lambda p: jnp.asarray(rng.normal(size=p.shape) + (1j * rng.normal(size=p.shape) if np.iscomplexobj(p) else 0), dtype=p.dtype), params)

    def dense(rng, h, kind, dtype, mode, out=None, chunk=None):
        vs = state(rng, kind, dtype, out)
        if chunk and kind != "full":
            vs.chunk_size = chunk
        lam, eps = float(rng.uniform(0.05, 0.9)), float(rng.uniform(1e-3, 0.3))
        ema = ema_like(rng, vs.parameters)
        x, w = data(vs, kind)
        Q = QGTJacobianDenseRMSProp(vs, ema, mode=mode, diag_shift=lam, eps=eps)
        O = V.weighted(V.logderivs(vs, x), w)
        if mode == "real":
            O = O.real
        S = (O.conj().T * w) @ O
        S = S.real
        D = np.diag(np.sqrt(V.split(V.flat(ema))) + eps)
        want = (1 - lam) * S + lam * D
        h.inputs(kind=kind, mode=mode, dtype=str(dtype.__name__), diag_shift=lam, eps=eps)
        h.close("dense matrix", Q.to_dense(), want, 1e-8)
        v = vec_like(rng, vs.parameters)
        h.close("product with a parameter vector", V.split(V.flat(Q @ v)), want @ V.split(V.flat(v)), 1e-8)
        sol, _ = Q.solve(lambda A, b, x0=None: (jnp.linalg.solve(A.to_dense(), b), None), v)
        h.close("solution of the linear system", V.split(V.flat(sol)), np.linalg.solve(want, V.split(V.flat(v))), 1e-6)
        sol, _ = Q.solve(lambda A, b, x0=None: jax.scipy.sparse.linalg.cg(A, b, tol=1e-12, maxiter=2000), v)
        h.close("solution by conjugate gradients", V.split(V.flat(sol)), np.linalg.solve(want, V.split(V.flat(v))), 1e-6)
        sol, _ = Q.solve(pinv, v)
        h.close("solution by pseudo-inverse", V.split(V.flat(sol)), np.linalg.solve(want, V.split(V.flat(v))), 1e-6)
    c128 = lambda a: jnp.sum(a, axis=(-2, -1)).astype(jnp.complex128)
    for kind in ("mc", "full", "unique", "unique-pad"):
        h.case("dense-%s-complex" % kind, dense, kind, jnp.complex128, "complex")
        h.case("dense-%s-real" % kind, dense, kind, jnp.float64, "real")
    h.case("dense-mc-rc", dense, "mc", jnp.float64, "complex", c128)
    h.case("dense-mc-chunk", dense, "mc", jnp.complex128, "complex", None, 8)
    h.case("dense-mc-default-mode", dense, "mc", jnp.complex128, None)

    def otf(rng, h, dtype, holo, out=None, chains=4):
        vs = state(rng, "mc", dtype, out, chains)
        lam, eps = float(rng.uniform(0.05, 0.9)), float(rng.uniform(1e-3, 0.3))
        ema = jax.tree_util.tree_map(lambda p: jnp.asarray(rng.uniform(0.1, 2.0, p.shape)), vs.parameters)
        x, w = data(vs, "mc")
        Q = QGTOnTheFlyRMSProp(vs, ema, diag_shift=lam, eps=eps, holomorphic=holo)
        cplx = np.iscomplexobj(V.flat(vs.parameters))
        O = V.weighted(V.logderivs(vs, x, None if cplx else False), w)
        S = (O.conj().T * w) @ O
        if not cplx:
            S = S.real
        want = (1 - lam) * S + lam * np.diag(np.sqrt(V.flat(ema)) + eps)
        h.inputs(dtype=dtype.__name__, diag_shift=lam, eps=eps)
        v = vec_like(rng, vs.parameters)
        h.close("product with a parameter vector", V.flat(Q @ v), want @ V.flat(v), 1e-8)
        h.close("product with a raveled vector", Q @ jnp.asarray(V.flat(v)), want @ V.flat(v), 1e-8)
        h.close("dense matrix", Q.to_dense(), want, 1e-8)
        sol, _ = Q.solve(lambda A, b, x0=None: jax.scipy.sparse.linalg.cg(A, b, x0=x0, tol=1e-12, maxiter=2000), v)
        h.close("solution", V.flat(sol), np.linalg.solve(want, V.flat(v)), 1e-6)
    h.case("otf-real", otf, jnp.float64, None)
    h.case("otf-real-complexout", otf, jnp.float64, None, c128)
    h.case("otf-holo", otf, jnp.complex128, True)
    h.case("otf-holo-1chain", otf, jnp.complex128, True, None, 1)

    def uniq(rng, h, kind, dtype, mode, partial_first, chunk=None):
        vs = state(rng, kind, dtype)
        if chunk:
            vs.chunk_size = chunk
        x, w = data(vs, kind)
        lam = float(rng.uniform(0.01, 0.3))
        if partial_first:
            Q = QGTJacobianDenseUniqueSamples(mode=mode, diag_shift=lam)(vs)
        else:
            Q = QGTJacobianDenseUniqueSamples(vs, mode=mode, diag_shift=lam)
        O = V.weighted(V.logderivs(vs, x, None if mode == "holomorphic" else False), w)
        S = (O.conj().T * w) @ O
        if mode != "holomorphic":
            S = S.real
        want = S + lam * np.eye(len(S))
        h.inputs(kind=kind, mode=mode, diag_shift=lam)
        h.close("dense matrix", Q.to_dense(), want, 1e-8)
        v = vec_like(rng, vs.parameters)
        f = V.flat if mode == "holomorphic" else (lambda t: V.split(V.flat(t)))
        h.close("product", f(Q @ v), want @ f(v), 1e-8)
    h.case("uniq-holo", uniq, "unique", jnp.complex128, "holomorphic", False)
    h.case("uniq-pad", uniq, "unique-pad", jnp.complex128, "complex", False)
    h.case("uniq-real", uniq, "unique", jnp.float64, "real", False)
    h.case("uniq-partial", uniq, "unique", jnp.complex128, "holomorphic", True)
    h.case("uniq-chunk", uniq, "unique", jnp.complex128, "holomorphic", False, 8)

    def shift_range(rng, h):
        vs = state(rng, "mc", jnp.float64)
        ema = ema_like(rng, vs.parameters)
        for Qc in (QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp):
            for lam in (-0.1, 1.1):
                try:
                    Qc(vs, ema, diag_shift=lam, eps=1e-8)
                except AssertionError:
                    continue
                h.ok("shift outside [0,1] is rejected", False, (Qc.__name__, lam))
        h.ok("shift outside [0,1] is rejected", True)
    h.case("shift-range", shift_range)
