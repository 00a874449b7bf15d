import numpy as np
from functools import partial
RULE = ("random parameter tensors (including exact zeros and values below the division cut-off), configurations with and without symmetry axis, histories of reference-site changes, "
        "data-set changes and fits, real/complex/expanded parameters, bias, weights, prior mean; oracle: direct products and dense normal equations; "
        "imaginary time: dense (1 - tau H) psi")


def run(h):
    import GPSKet
    from GPSKet.supervised import supervised_qgps as S

    def logamp(eps, confs):
        c = confs if confs.ndim == 3 else confs[:, :, None]
        out = np.zeros(len(c), dtype=eps.dtype)
        for k in range(c.shape[2]):
            p = np.ones((len(c), eps.shape[1]), dtype=eps.dtype)
            for j in range(c.shape[1]):
                p = p * eps[c[:, j, k], :, j]
            out = out + p.sum(1)
        return out

    def kernel(eps, confs, ref):
        c = confs if confs.ndim == 3 else confs[:, :, None]
        d, M, L = eps.shape
        K = np.zeros((len(c), M, d), dtype=eps.dtype)
        for i in range(len(c)):
            for w in range(M):
                for k in range(c.shape[2]):
                    v = 1.0
                    for j in range(L):
                        if j != ref[w]:
                            v = v * eps[c[i, j, k], w, j]
                    K[i, w, c[i, ref[w], k]] += v
        return K.reshape(len(c), -1)

    def rand_eps(rng, d, M, L, cplx, zeros=False, scale=0.5):
        e = 1.0 + scale * rng.normal(size=(d, M, L))
        if cplx:
            e = e + 1j * scale * rng.normal(size=(d, M, L))
        if zeros:
            m = rng.random((d, M, L))
            e = np.where(m < 0.15, 0.0, np.where(m < 0.25, 1e-16, np.where(m < 0.3, -3e-15, e)))
        return e

    def rand_confs(rng, d, L, n, sym):
        return rng.integers(0, d, size=(n, L) if sym is None else (n, L, sym)).astype([np.int64, np.uint8, np.int32][int(rng.integers(3))])

    def refsites(rng, M, L):
        return int(rng.integers(L)) if rng.random() < 0.4 else rng.integers(0, L, size=M)

    def history(rng, h, cls, cplx, sym, zeros, expand=False, bias=False):
        d, M, L = int(rng.integers(2, 5)), int(rng.integers(1, 5)), int(rng.integers(2, 7))
        eps = rand_eps(rng, d, M, L, cplx, zeros)
        m = cls(eps.copy(), complex_expand=expand, include_bias=bias) if cls is not S.QGPSGenLinMod else cls(eps.copy(), include_bias=bias)
        confs = rand_confs(rng, d, L, int(rng.integers(1, 7)), sym)
        hist = []
        for step in range(10):
            r = rng.random()
            if r < 0.25:
                confs = rand_confs(rng, d, L, int(rng.integers(1, 7)), sym); hist.append("confs")
            elif r < 0.4:
                eps = rand_eps(rng, d, M, L, cplx, zeros); m.epsilon = eps.copy(); hist.append("epsilon")
            ref = refsites(rng, M, L)
            m.ref_sites = ref
            ra = np.full(M, ref) if np.isscalar(ref) else ref
            hist.append("ref=%s" % (ra.tolist(),))
            h.inputs(eps=eps, confs=confs, history=";".join(hist))
            K = np.array(m.set_kernel_mat(confs))
            if bias:
                h.ok("bias feature", np.all(K[:, -1] == 1)); K = K[:, :-1]
            h.close("kernel matrix", K, kernel(eps, confs, ra), 1e-8)
            w = eps[:, np.arange(M), ra].T.flatten()
            h.close("kernel times reference-site parameters is the log-amplitude", K @ w, logamp(eps, confs), 1e-8)
            if r > 0.6:
                b = (rng.normal() if bias else 0.0)
                if bias:
                    m.bias = np.array([b], dtype=eps.dtype)
                p = m.predict(confs)
                la = logamp(eps, confs) + b
                h.close("prediction", p, la if cls is S.QGPSLogSpaceFit else np.exp(la), 1e-8)
    for nm, cls in (("exp", S.QGPSLearningExp), ("log", S.QGPSLogSpaceFit), ("glm", S.QGPSGenLinMod)):
        for cplx in (False, True):
            h.case("history-%s-%s" % (nm, "c" if cplx else "r"), history, cls, cplx, None, False)
            h.case("history-sym-%s-%s" % (nm, "c" if cplx else "r"), history, cls, cplx, 3, False)
            h.case("history-zero-%s-%s" % (nm, "c" if cplx else "r"), history, cls, cplx, 2, True, repeat=3)
    h.case("history-expand-bias", history, S.QGPSLearningExp, True, 2, False, True, True, repeat=2)
    h.case("history-bias", history, S.QGPSLogSpaceFit, False, None, True, False, True, repeat=2)

    def direct(rng, h, cplx, zeros):
        d, M, L, n, T = int(rng.integers(2, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
        eps = rand_eps(rng, d, M, L, cplx, zeros)
        confs = rng.integers(0, d, size=(n, L, T))
        ref = rng.integers(0, L, size=M)
        sp = S.QGPSLearning.compute_site_prod_fast(eps, ref, confs, np.full((n, M, T), 7.0, dtype=eps.dtype))

        def want(ref):
            o = np.ones((n, M, T), dtype=eps.dtype)
            for w in range(M):
                for j in range(L):
                    if j != ref[w]:
                        o[:, w, :] *= eps[confs[:, j, :], w, j]
            return o
        h.inputs(eps=eps, confs=confs, ref=ref)
        h.close("site product", sp, want(ref), 1e-9)
        for _ in range(6):
            new = rng.integers(0, L, size=M)
            sp = S.QGPSLearning.update_site_prod_fast(eps, new, ref, confs, sp)
            ref = new
            h.close("updated site product", sp, want(ref), 1e-8)
    for cplx in (False, True):
        for z in (False, True):
            h.case("direct-%d%d" % (cplx, z), direct, cplx, z, repeat=6)

    def fit(rng, h, kind, cplx, expand=False, bias=False, weight=False, prior=0.0, zeros=False, steps=5, noise=None, missing=False):
        cls = S.QGPSLogSpaceFit if kind == "log" else S.QGPSLearningExp
        d, M, L = int(rng.integers(2, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 5))
        eps = rand_eps(rng, d, M, L, cplx, zeros, 0.3)
        n = 4 * d * M
        confs = rand_confs(rng, d, L, n, None)
        if missing:
            confs[:, 0] = 0
        y = rng.normal(size=n) * 0.5 + (1j * rng.normal(size=n) * 0.5 if cplx else 0.0)
        noise = float(rng.uniform(0.05, 0.5)) if noise is None else noise
        alpha = float(rng.uniform(0.1, 2.0))
        m = cls(eps.copy(), init_alpha=alpha, init_noise_tilde=noise, complex_expand=expand, include_bias=bias)
        wt = rng.uniform(0.3, 2.0, size=n) if weight else None
        for s in range(steps):
            ref = refsites(rng, M, L)
            if missing and s == 0:
                ref = 0
            ra = np.full(M, ref) if np.isscalar(ref) else ref
            before = np.array(m.epsilon)
            bias_before = np.array(m.bias)
            kw = dict(opt_alpha=False, opt_noise=False, weightings=None if wt is None else wt.copy(), prior_mean=prior)
            h.inputs(kind=kind, eps=before, confs=confs, ref=ra, noise=noise, alpha=alpha, prior=prior, weighted=weight, y=y, expand=expand, bias=bias)
            m.fit_step(confs, y.copy() if kind == "log" else np.exp(y), ref, **kw)
            K = kernel(before, confs, ra)
            data = y - prior * K.sum(1)
            if kind == "log":
                sd = (np.ones(n) if wt is None else wt) / noise
            else:
                sd = 1 / np.log1p(noise / np.abs(np.exp(y)) ** 2) * (np.ones(n) if wt is None else wt)
            Kb = np.concatenate([K, np.ones((n, 1))], 1) if bias else K
            unit = sd if kind != "log" else sd * noise
            valid = np.abs(np.sum(np.abs(Kb) ** 2 * unit[:, None], 0)) > 1e-10
            A = (Kb.conj().T * sd) @ Kb
            b = Kb.conj().T @ (sd * data)
            # a complex weight treated as two real ones has half the precision on each
            A = A + np.diag(np.full(len(A), alpha / (2 if (expand and cplx) else 1)))
            if expand and cplx:
                A = np.block([[A.real, -A.imag], [A.imag, A.real]]); b = np.concatenate([b.real, b.imag]); v = np.concatenate([valid, valid])
            else:
                v = valid
            w = np.zeros(len(b), dtype=b.dtype)
            w[v] = np.linalg.solve(A[np.ix_(v, v)], b[v])
            if expand and cplx:
                w = w[:len(w) // 2] + 1j * w[len(w) // 2:]
            ne = d * M
            new = before.copy()
            old = before[:, np.arange(M), ra].T.flatten()
            upd = np.where(valid[:ne], w[:ne] + prior, old)
            new[:, np.arange(M), ra] = upd.reshape(M, d).T
            h.close("fitted parameters (all others unchanged)", m.epsilon, new, 1e-6)
            if bias:
                h.close("fitted bias", m.bias, w[ne:], 1e-6)
            la = logamp(new, confs) + (w[ne] if bias else 0.0)
            h.close("prediction after the fit", m.predict(confs), la if kind == "log" else np.exp(la), 1e-6)
    for kind in ("log", "exp"):
        h.case("fit-%s-r" % kind, fit, kind, False)
        h.case("fit-%s-c" % kind, fit, kind, True)
        h.case("fit-%s-expand" % kind, fit, kind, True, True)
        h.case("fit-%s-bias" % kind, fit, kind, False, False, True)
        h.case("fit-%s-expand-bias" % kind, fit, kind, True, True, True)
        h.case("fit-%s-weight" % kind, fit, kind, False, False, False, True)
        h.case("fit-%s-prior" % kind, fit, kind, False, False, False, False, 1.0)
        h.case("fit-%s-all" % kind, fit, kind, True, True, False, True, 0.7)
        h.case("fit-%s-missing" % kind, partial(fit, missing=True), kind, False)
        h.case("fit-%s-zeros" % kind, partial(fit, zeros=True), kind, False)

    def marg(rng, h, kind, cplx, expand, weight):
        """the analytic derivative of the log marginal likelihood with respect to every precision"""
        cls = S.QGPSLogSpaceFit if kind == "log" else S.QGPSLearningExp
        d, M, L = 2, 2, 4
        eps = rand_eps(rng, d, M, L, cplx, False, 0.3)
        n = 14
        confs = rand_confs(rng, d, L, n, None)
        y = rng.normal(size=n) * 0.4 + (1j * rng.normal(size=n) * 0.4 if cplx else 0.0)
        m = cls(eps.copy(), init_alpha=0.7, init_noise_tilde=0.2, complex_expand=expand)
        if kind == "log":
            m.beta = 5.0
        tgt = y if kind == "log" else np.exp(y)

        def value(a):
            m.ref_sites = 1
            m.alpha_mat_ref_sites = a
            m.setup_fit(confs, tgt.copy(), 1)
            return m.log_marg_lik()
        nf = d * M * (2 if expand else 1)
        a0 = rng.uniform(0.3, 1.5, size=nf)
        value(a0)
        der = m.log_marg_lik_alpha_der()
        e = 1e-5
        fd = np.array([(value(a0 + e * np.eye(nf)[i]) - value(a0 - e * np.eye(nf)[i])) / (2 * e) for i in range(nf)])
        h.inputs(kind=kind, cplx=cplx, expand=expand, alpha=a0)
        h.close("derivative of the log marginal likelihood", der, fd, 1e-5)
    h.case("marg-exp-r", marg, "exp", False, False, False)
    h.case("marg-exp-c", marg, "exp", True, False, False)
    h.case("marg-log-r", marg, "log", False, False, False)

    def rvm(rng, h):
        d, M, L = 2, 3, 4
        eps = rand_eps(rng, d, M, L, False, False, 0.3)
        confs = np.array([[(i >> j) & 1 for j in range(L)] for i in range(16)])
        y = rng.normal(size=16) * 0.5
        m = S.QGPSLearningExp(eps.copy(), init_alpha=np.inf, init_noise_tilde=0.1)
        before = m.epsilon.copy()
        m.fit_step_growing_RVM(confs, np.exp(y), 1, 5)
        h.inputs(eps=eps, y=y)
        oth = [0, 2, 3]
        h.close("other sites unchanged", m.epsilon[:, :, oth], before[:, :, oth], 1e-12)
        a = m.alpha_mat_ref_sites
        act = a < 1e10
        h.ok("at least one feature is active", act.any(), str(a))
        K = kernel(before, confs, np.full(M, 1))
        sd = 1 / np.log1p(0.1 / np.exp(y) ** 2)
        A = (K.T * sd) @ K + np.diag(np.where(act, a, 0.0))
        w = np.zeros(d * M); w[act] = np.linalg.solve(A[np.ix_(act, act)], (K.T @ (sd * y))[act])
        h.close("active features solve the regularised normal equations", m.epsilon[:, :, 1].T.flatten(), w, 1e-6)
    h.case("growing-rvm", rvm, repeat=2)

    def glm(rng, h, bias, weight):
        d, M, L = 2, 2, 4
        eps = rand_eps(rng, d, M, L, False, False, 0.2)
        confs = np.array([[(i >> j) & 1 for j in range(L)] for i in range(16)])
        y = logamp(eps, confs) + 0.05 * rng.normal(size=16)
        amp = np.exp(y)
        wt = rng.uniform(0.5, 1.5, 16) if weight else np.ones(16)
        noise, alpha = 0.3, 0.4
        m = S.QGPSGenLinMod(eps.copy(), init_alpha=alpha, init_noise_tilde=noise, include_bias=bias)
        before = m.epsilon.copy()
        m.fit_step(confs, amp.copy(), 2, opt_alpha=False, opt_beta=False, weightings=wt.copy())
        K = kernel(before, confs, np.full(M, 2))
        w0 = before[:, :, 2].T.flatten()
        if bias:
            K = np.concatenate([K, np.ones((16, 1))], 1); w0 = np.append(w0, 0.0)
        pred = np.exp(K @ w0)
        g = -(K.T @ (wt * pred * (amp - pred))) / noise + alpha * w0
        H = (-(K.T * (wt * pred * (amp - pred))) @ K + (K.T * (wt * pred ** 2)) @ K) / noise + alpha * np.eye(len(w0))
        h.inputs(eps=eps, bias=bias)
        if np.linalg.eigvalsh(H).min() <= 1e-6:
            return
        w = w0 - np.linalg.solve(H, g)
        h.close("Newton step of the regularised least-squares problem", m.epsilon[:, :, 2].T.flatten(), w[:4], 1e-6)
        oth = [0, 1, 3]
        h.close("other sites unchanged", m.epsilon[:, :, oth], before[:, :, oth], 1e-12)
    h.case("glm", glm, False, False)
    h.case("glm-weight", glm, False, True)
    h.case("glm-bias", glm, True, False)

    def imag(rng, h, kind, chunk, nest=1, cls=False):
        from . import models as Mo, vmc as V
        import jax, jax.numpy as jnp, netket as nk
        from GPSKet.models import qGPS
        from GPSKet.supervised.imag_time_step import ImagTimeStep, get_imag_time_step_vstate
        from GPSKet.operator.hamiltonian.J1J2 import get_J1_J2_Hamiltonian
        from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly
        from GPSKet.hilbert import FermionicDiscreteHilbert
        if kind == "heis":
            ha = get_J1_J2_Hamiltonian(4, J1=1.0, J2=0.0, total_sz=0.0, on_the_fly_en=True, sign_rule=False)
            hi = ha.hilbert; H = ha.to_dense()
            sa = nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(4), n_chains=2)
        else:
            hi = FermionicDiscreteHilbert(3, n_elec=(2, 1))
            edges = np.array([(0, 1), (1, 2)])
            ha = FermiHubbardOnTheFly(hi, edges, U=2.0, t=0.7); H = FermiHubbard(hi, edges, U=2.0, t=0.7).to_dense()
            sa = GPSKet.sampler.MetropolisHopping(hi, n_chains=2)
        vs = nk.vqs.MCState(sa, qGPS(hi, 2), n_samples=8, seed=1)
        vs.parameters = Mo.perturb(vs.parameters, rng, 0.3)
        if chunk:
            vs.chunk_size = chunk
        A = np.asarray(hi.all_states())
        if chunk:
            A = np.concatenate([A, A[:(-len(A)) % chunk]])
        psi = np.exp(np.asarray(vs.log_value(jnp.asarray(A))))[:len(H)]
        tau = float(rng.uniform(0.02, 0.1))
        h.inputs(system=kind, tau=tau, chunk=chunk, nest=nest)
        want = psi
        if cls:
            it = ImagTimeStep(vs, ha)
            got = np.exp(np.asarray(it.log_imag_time_step(tau, jnp.asarray(A))))[:len(H)]
            h.close("(1 - tau H) psi", got, psi - tau * H @ psi, 1e-8)
            h.close("original state unchanged", np.exp(np.asarray(vs.log_value(jnp.asarray(A))))[:len(H)], psi, 1e-12)
            return
        nv = vs
        for k in range(nest):
            nv = get_imag_time_step_vstate(tau, ha, nv)
            want = want - tau * H @ want
        got = np.exp(np.asarray(nv._apply_fun(nv.variables, jnp.asarray(A))))[:len(H)]
        h.close("(1 - tau H) psi", got, want, 1e-8)
        h.close("original state unchanged", np.exp(np.asarray(vs.log_value(jnp.asarray(A))))[:len(H)], psi, 1e-12)
        e = nv.expect(ha)
        x = np.asarray(nv.samples).reshape(-1, hi.size)
        el = (H @ want)[np.asarray(hi.states_to_numbers(x))] / want[np.asarray(hi.states_to_numbers(x))]
        h.close("energy of the evolved state", e.mean, el.mean(), 1e-8)
    for k in ("heis", "hubbard"):
        h.case("imag-class-%s" % k, imag, k, None, 1, True)
        h.case("imag-%s" % k, imag, k, None)
    h.case("imag-class-chunk", imag, "heis", 4, 1, True)
    h.case("imag-chunk", imag, "heis", 4)
