import numpy as np
RULE = ("random states and Hamiltonians, real/complex parameters and modes, several chains, chunks and consecutive steps with schedules; oracle: dense normal equations "
        "with running averages recomputed from scratch, finite differences for the fitting loss")


def run(h):
    from . import models as M, vmc as V
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS, ARqGPS
    from GPSKet.vqs import MCStateUniqueSamples
    from GPSKet.optimizer import SRRMSProp, SRDense, pinv
    from GPSKet.optimizer.qgt import QGTOnTheFlyRMSProp
    from GPSKet.driver import VMC_SRRMSProp, minSRVMC, ARStateFitting

    c128 = lambda a: jnp.sum(a, axis=(-2, -1)).astype(jnp.complex128)

    def setup(rng, dtype, out=None, n_chains=4, n=24, L=6, uniq=False, pad=False):
        hi = nk.hilbert.Spin(0.5, N=L)
        g = nk.graph.Chain(L)
        ha = nk.operator.Ising(hi, g, h=float(rng.uniform(0.5, 1.5)), J=float(rng.uniform(-1, 1)))
        kw = dict(out_transformation=out) if out is not None else {}
        ma = qGPS(hi, 2, dtype=dtype, **kw)
        sa = nk.sampler.MetropolisLocal(hi, n_chains=n_chains)
        if uniq:
            vs = MCStateUniqueSamples(sa, ma, n_samples=n, batch_size=16, seed=1, n_discard_per_chain=2, max_sampling_steps=1 if pad else None)
        else:
            vs = nk.vqs.MCState(sa, ma, n_samples=n, seed=1, n_discard_per_chain=2)
        vs.parameters = M.perturb(vs.parameters, rng, 0.3)
        return vs, ha, ha.to_dense()

    def samples_weights(vs):
        if isinstance(vs, MCStateUniqueSamples):
            x, w = vs.samples_with_counts
            return np.asarray(x), np.asarray(w)
        x = np.asarray(vs.samples).reshape(-1, vs.hilbert.size)
        return x, np.full(len(x), 1 / len(x))

    def srrms(rng, h, dtype, mode, out=None, sched=False, steps=3, chains=4, init=0.0, eps=1e-8):
        vs, ha, H = setup(rng, dtype, out, chains)
        lam = (lambda t: 0.3 / (1 + t)) if sched else 0.17
        decay = float(rng.uniform(0.5, 0.95))
        dr = VMC_SRRMSProp(ha, nk.optimizer.Sgd(0.05), diag_shift=lam, decay=decay, eps=eps, initial_scale=init, variational_state=vs, jacobian_mode=mode,
                           linear_solver_fn=lambda A, b: jnp.linalg.solve(A, b))
        ema = None
        for t in range(steps):
            dp = dr._forward_and_backward()
            x, w = samples_weights(vs)
            N = len(x)
            e = V.local_energies(vs, H, x)
            h.close("energy estimate", dr.energy.mean, e.mean(), 1e-8)
            O = V.weighted(V.logderivs(vs, x), w)
            e = e - e.mean()
            if dr.jacobian_mode == "real":
                O, e = O.real, e.real
            # unnormalised sums, as the driver scales both the matrix and the gradient by N**2
            S = N ** 2 * ((O.conj().T * w) @ O).real
            G = N ** 2 * 2 * ((O.conj().T * w) @ e).real
            ema = (np.full(len(G), init) if ema is None else ema) * decay + (1 - decay) * G ** 2
            hat = ema / (1 - decay ** (t + 1))
            l = lam(t) if sched else lam
            want = np.linalg.solve(S + l * np.diag(np.sqrt(hat) + eps), G)
            h.inputs(mode=dr.jacobian_mode, decay=decay, step=t)
            h.close("parameter update of step %d" % t, V.split(V.flat(dp)), want, 1e-6)
            dr.update_parameters(dp)
            dr._step_count += 1
    h.case("vmc-srrms-complex", srrms, jnp.complex128, "complex")
    h.case("vmc-srrms-real", srrms, jnp.float64, "real")
    h.case("vmc-srrms-rc", srrms, jnp.float64, "complex", c128)
    h.case("vmc-srrms-sched", srrms, jnp.complex128, None, None, True)
    h.case("vmc-srrms-1chain", srrms, jnp.complex128, "complex", None, False, 2, 1)
    h.case("vmc-srrms-init", srrms, jnp.complex128, "complex", None, False, 2, 4, 40.0, 3.0)

    def vmc_run(rng, h):
        """run() applies exactly -lr * update at every step"""
        vs, ha, H = setup(rng, jnp.complex128)
        lr = 0.03
        dr = VMC_SRRMSProp(ha, nk.optimizer.Sgd(lr), diag_shift=0.2, variational_state=vs)
        for _ in range(2):
            p0 = V.flat(vs.parameters)
            dr.run(1, show_progress=False)
            h.close("parameters after a run step", V.flat(vs.parameters), p0 - lr * V.flat(dr._dp), 1e-9)
    h.case("vmc-run", vmc_run)

    def pre(rng, h, dtype, mode, qgt, steps=3, sched=False):
        vs, ha, H = setup(rng, dtype)
        lam = (lambda t: 0.3 / (1 + t)) if sched else 0.2
        decay, eps = 0.8, 1e-2
        kw = dict(mode=mode) if qgt is None else dict(qgt=qgt)
        pc = SRRMSProp(vs.parameters, diag_shift=lam, decay=decay, eps=eps, solver=lambda A, b, x0=None: (jnp.linalg.solve(A.to_dense(), b), None) if qgt is None
                       else jax.scipy.sparse.linalg.cg(A, b, x0=x0, tol=1e-13, maxiter=3000), **kw)
        ema = 0
        for t in range(steps):
            vs.reset()
            _, g = vs.expect_and_grad(ha)
            dp = pc(vs, g, t)
            x, w = samples_weights(vs)
            O = V.weighted(V.logderivs(vs, x), w)
            if mode == "real":
                O = O.real
            G = V.split(V.flat(g))
            ema = decay * ema + (1 - decay) * G ** 2
            hat = ema / (1 - decay ** (t + 1))
            l = lam(t) if sched else lam
            A = (1 - l) * ((O.conj().T * w) @ O).real + l * np.diag(np.sqrt(hat) + eps)
            h.inputs(step=t, mode=mode)
            h.close("preconditioned gradient of step %d" % t, V.split(V.flat(dp)), np.linalg.solve(A, G), 1e-6)
    h.case("srrms-complex", pre, jnp.complex128, "complex", None)
    h.case("srrms-real", pre, jnp.float64, "real", None)
    h.case("srrms-sched", pre, jnp.float64, "real", None, 2, True)
    h.case("srrms-otf", pre, jnp.float64, "real", QGTOnTheFlyRMSProp)

    def srdense(rng, h, holo, solver):
        vs, ha, H = setup(rng, jnp.complex128 if holo else jnp.float64, n=60)
        lam = 0.05
        _, g = vs.expect_and_grad(ha)
        q = nk.optimizer.qgt.QGTJacobianDense(holomorphic=True, diag_shift=lam) if holo else nk.optimizer.qgt.QGTJacobianDense(mode="real", diag_shift=lam)
        pc = SRDense(q) if solver is None else SRDense(q, solver=solver)
        dp = pc(vs, g)
        x, w = samples_weights(vs)
        O = V.weighted(V.logderivs(vs, x, None if holo else False), w)
        S = (O.conj().T * w) @ O
        S = S if holo else S.real
        h.close("preconditioned gradient", V.flat(dp), np.linalg.solve(S + lam * np.eye(len(S)), V.flat(g)), 1e-6)
    h.case("srdense-holo", srdense, True, None)
    h.case("srdense-real", srdense, False, None)
    h.case("srdense-cg", srdense, False, lambda A, b, x0=None: jax.scipy.sparse.linalg.cg(A, b, tol=1e-13, maxiter=2000))

    def pinv_case(rng, h, cplx, rank):
        n = 6
        B = rng.normal(size=(n, rank)) + (1j * rng.normal(size=(n, rank)) if cplx else 0)
        A = B @ B.conj().T

        class Op:
            def to_dense(self):
                return jnp.asarray(A)
        b = {"a": jnp.asarray(rng.normal(size=(2, 2))), "b": jnp.asarray(rng.normal(size=2))}
        if cplx:
            b = jax.tree_util.tree_map(lambda v: v + 1j * jnp.asarray(rng.normal(size=v.shape)), b)
        x, info = pinv(Op(), b, x0=b)
        h.inputs(rank=rank, complex=cplx)
        h.close("minimum-norm least-squares solution", V.flat(x), np.linalg.pinv(A, rcond=1e-10) @ V.flat(b), 1e-6)
    for c in (False, True):
        h.case("pinv-%d" % c, pinv_case, c, 6)
        h.case("pinv-rank-%d" % c, pinv_case, c, 3)

    def minsr(rng, h, dtype, mode, chains=4, n=16, chunk=None, uniq=False, pad=False):
        vs, ha, H = setup(rng, dtype, None, chains, n, uniq=uniq, pad=pad)
        if chunk:
            vs.chunk_size = chunk
        kw = dict(holomorphic=True) if mode == "holomorphic" else dict(mode=mode)
        dr = minSRVMC(ha, nk.optimizer.Sgd(0.1), variational_state=vs, **kw)
        dp = dr._forward_and_backward()
        x, w = samples_weights(vs)
        e = V.local_energies(vs, H, x)
        m = np.sum(w * e)
        h.inputs(mode=mode, chains=chains, n=n, chunk=chunk)
        h.close("energy estimate", dr.energy.mean, m, 1e-8)
        cplx = np.iscomplexobj(V.flat(vs.parameters))
        O = V.weighted(V.logderivs(vs, x, None if cplx else False), w) * np.sqrt(w)[:, None]
        if mode == "real":
            O = O.real
        eb = (e - m) * np.sqrt(w)
        want = O.conj().T @ (np.linalg.pinv(O @ O.conj().T, rcond=1e-11, hermitian=True) @ eb)
        h.close("parameter update", V.flat(dp), want if cplx else want.real, 2e-5)
    h.case("minsr-holo", minsr, jnp.complex128, "holomorphic")
    h.case("minsr-complex", minsr, jnp.complex128, "complex")
    h.case("minsr-real", minsr, jnp.float64, "real")
    h.case("minsr-1chain", minsr, jnp.complex128, "holomorphic", 1)
    h.case("minsr-chunk", minsr, jnp.complex128, "holomorphic", 4, 16, 4)
    h.case("minsr-unique", minsr, jnp.complex128, "holomorphic", 4, 16, None, True)
    h.case("minsr-unique-pad", minsr, jnp.complex128, "holomorphic", 4, 24, 8, True, True)

    def fitting(rng, h):
        L = 4
        hi = nk.hilbert.Spin(0.5, N=L)
        ha = nk.operator.Ising(hi, nk.graph.Chain(L), h=1.0)
        ma = ARqGPS(hi, 2)
        vs = nk.vqs.MCState(GPSKet.sampler.ARDirectSampler(hi), ma, n_samples=16, seed=2)
        vs.parameters = M.perturb(vs.parameters, rng, 0.3)
        A = np.asarray(hi.all_states()).astype(float)
        y = rng.normal(size=len(A)) + 1j * rng.normal(size=len(A)); y /= np.linalg.norm(y)
        B = 10
        dr = ARStateFitting((A, y), ha, nk.optimizer.Sgd(0.1), variational_state=vs, mini_batch_size=B, seed=5)
        key = dr._key
        g = dr._forward_and_backward()
        k, _ = jax.random.split(key)
        ids = np.asarray(jax.random.choice(k, np.arange(len(A)), (B,), p=np.abs(y) ** 2, replace=False))
        h.ok("mini-batch without repetition", len(set(ids.tolist())) == B)
        from jax.flatten_util import ravel_pytree
        p, un = ravel_pytree(vs.parameters)
        p = np.asarray(p)

        def loss(q):
            psi = np.exp(np.asarray(vs._apply_fun({"params": un(jnp.asarray(q)), **vs.model_state}, jnp.asarray(A[ids]))))
            return np.mean(np.abs(psi - y[ids]) ** 2)
        h.close("loss", dr.loss, loss(p), 1e-9)
        d = rng.normal(size=p.shape) + 1j * rng.normal(size=p.shape)
        ee = 1e-6
        fd = (loss(p + ee * d) - loss(p - ee * d)) / (2 * ee)
        h.close("directional derivative of the loss", np.sum(np.conj(V.flat(g)) * d).real, fd, 1e-5)
    h.case("ar-fitting", fitting)
