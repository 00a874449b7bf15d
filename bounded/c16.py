import numpy as np
RULE = ("random states, Hamiltonians (explicit and on the fly), numbers of chains, chunk sizes, sampling limits and deterministic sets; "
        "oracle: weights recounted from the recorded raw samples, weighted sums of dense local energies, weighted covariance gradient")


def run(h):
    from . import models as M, vmc as V
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS
    from GPSKet.vqs import MCStateUniqueSamples, MCStateStratifiedSampling
    from GPSKet.operator.hamiltonian.J1J2 import HeisenbergOnTheFly, get_J1_J2_Hamiltonian
    from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.sampler import MetropolisHopping

    def system(rng, kind, L=6):
        if kind == "ising":
            hi = nk.hilbert.Spin(0.5, N=L)
            ha = nk.operator.Ising(hi, nk.graph.Chain(L), h=float(rng.uniform(0.5, 1.5)), J=float(rng.uniform(-1, 1)))
            return hi, ha, ha.to_dense()
        if kind == "ising-c":
            hi = nk.hilbert.Spin(0.5, N=L)
            ha = nk.operator.Ising(hi, nk.graph.Chain(L), h=float(rng.uniform(0.5, 1.5))) + 0.7 * nk.operator.spin.sigmay(hi, 1)
            return hi, ha, ha.to_dense()
        if kind == "heis":
            ha = get_J1_J2_Hamiltonian(L, J1=1.0, J2=0.0, total_sz=0.0, on_the_fly_en=True, sign_rule=False)
            hi = ha.hilbert
            return hi, ha, ha.to_dense()
        if kind == "hubbard":
            hi = FermionicDiscreteHilbert(4, n_elec=(2, 1))
            edges = np.array([(0, 1), (1, 2), (2, 3), (3, 0)])
            U, t = float(rng.uniform(1, 4)), float(rng.uniform(0.5, 1.5))
            return hi, FermiHubbardOnTheFly(hi, edges, U=U, t=t), FermiHubbard(hi, edges, U=U, t=t).to_dense()
        raise ValueError(kind)

    def sampler(hi, kind, chains):
        if kind == "hubbard":
            return MetropolisHopping(hi, n_chains=chains)
        if kind == "heis":
            return nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(hi.size, pbc=True), n_chains=chains, d_max=2)
        return nk.sampler.MetropolisLocal(hi, n_chains=chains)

    def grad_oracle(vs, x, w, e):
        cplx = np.iscomplexobj(V.flat(vs.parameters))
        O = V.weighted(V.logderivs(vs, x, None if cplx else False), w)
        m = np.sum(w * e)
        g = (O.conj().T * w) @ (e - m)
        return g if cplx else 2 * g.real

    def check_estimates(h, vs, ha, H, x, w, tol=1e-8, grad=True):
        e = V.local_energies(vs, H, x)
        m = np.sum(w * e)
        s = vs.expect(ha)
        h.close("expectation value", s.mean, m, tol)
        if w is not None and isinstance(vs, MCStateUniqueSamples):
            h.close("variance", s.variance, np.sum(w * np.abs(e - m) ** 2), tol)
        if grad:
            s2, g = vs.expect_and_grad(ha)
            h.close("expectation value with gradient", s2.mean, m, tol)
            h.close("gradient", V.flat(g), grad_oracle(vs, x, w, e), tol)

    def unique(rng, h, kind, dtype, n, batch, chains, chunk=None, steps=None, rounds=2):
        hi, ha, H = system(rng, kind)
        sa = sampler(hi, kind, chains)
        ma = qGPS(hi, 2, dtype=dtype)
        vs = MCStateUniqueSamples(sa, ma, n_samples=n, batch_size=batch, seed=int(rng.integers(1 << 20)), n_discard_per_chain=2, max_sampling_steps=steps)
        vs.parameters = M.perturb(vs.parameters, rng, 0.08)
        if chunk:
            vs.chunk_size = chunk
        raw = []
        orig = vs.sample
        vs.sample = lambda *a, **k: (raw.append(np.asarray(orig(*a, **k)).reshape(-1, hi.size)), jnp.asarray(raw[-1]))[1]
        for r in range(rounds):
            raw.clear()
            x, w = (np.asarray(a) for a in vs.samples_with_counts)
            h.inputs(system=kind, n=n, batch=batch, chains=chains, chunk=chunk, max_steps=steps, round=r)
            h.ok("number of rows", x.shape == (n, hi.size) and w.shape == (n,), str(x.shape))
            if steps is not None:
                h.ok("sampling limit respected", len(raw) <= steps, "%d batches" % len(raw))
            cnt = {}
            for s in np.concatenate(raw):
                cnt[tuple(s)] = cnt.get(tuple(s), 0) + 1
                if len(cnt) == n:
                    break
            tot = sum(cnt.values())
            h.close("weights sum to one", np.sum(w), 1.0, 1e-10)
            real = w > 0
            got = [tuple(s) for s in x[real]]
            h.ok("weighted samples are pairwise distinct", len(set(got)) == len(got), str(len(got)))
            h.ok("every sampled configuration is represented", set(got) == set(cnt), "%d vs %d" % (len(got), len(cnt)))
            h.close("weights are the relative sampling frequencies", w[real], np.array([cnt[k] / tot for k in got]), 1e-10)
            h.ok("padding rows are configurations of the space", np.all(np.asarray(hi.states_to_numbers(x)) >= 0))
            h.ok("samples property", np.array_equal(np.asarray(vs.samples), x))
            check_estimates(h, vs, ha, H, x, w)
            x2, w2 = vs.samples_with_counts
            h.ok("samples are stable until reset", np.array_equal(x2, x) and np.array_equal(w2, w))
            if steps is None:
                # new parameters: the cached samples must not survive
                vs.parameters = M.perturb(vs.parameters, rng, 0.05)
            else:
                vs.reset()
    for i, (k, d) in enumerate([("ising", jnp.complex128), ("ising", jnp.float64), ("ising-c", jnp.complex128), ("heis", jnp.complex128), ("hubbard", jnp.complex128)]):
        h.case("unique-%s-%s" % (k, "c" if d == jnp.complex128 else "r"), unique, k, d, 12, 16, 4)
    h.case("unique-chunk", unique, "ising", jnp.complex128, 12, 16, 4, 4)
    h.case("unique-chunk-r", unique, "ising", jnp.float64, 12, 12, 4, 4)
    h.case("unique-chunk-heis", unique, "heis", jnp.complex128, 8, 16, 4, 4)
    h.case("unique-pad", unique, "ising", jnp.complex128, 40, 16, 4, 8, 1)
    h.case("unique-pad2", unique, "heis", jnp.complex128, 24, 8, 8, None, 2)
    h.case("unique-many", unique, "heis", jnp.complex128, 24, 8192, 8, None, 1, 1)
    h.case("unique-small-batch", unique, "ising", jnp.complex128, 16, 4, 4, None, None)
    h.case("unique-limit", unique, "ising", jnp.complex128, 12, 8, 4, None, 3)

    def mcstate(rng, h, kind, dtype, chunk, chains=4, n=24):
        hi, ha, H = system(rng, kind)
        vs = nk.vqs.MCState(sampler(hi, kind, chains), qGPS(hi, 2, dtype=dtype), n_samples=n, seed=3, n_discard_per_chain=2)
        vs.parameters = M.perturb(vs.parameters, rng, 0.3)
        if chunk:
            vs.chunk_size = chunk
        h.inputs(system=kind, chunk=chunk, chains=chains, n=n)
        x = np.asarray(vs.samples).reshape(-1, hi.size)
        w = np.full(len(x), 1 / len(x))
        e = V.local_energies(vs, H, x)
        s = vs.expect(ha)
        h.close("expectation value", s.mean, e.mean(), 1e-8)
        h.close("variance", s.variance, np.mean(np.abs(e - e.mean()) ** 2), 1e-8)
    for k in ("ising", "heis", "hubbard"):
        for c in (None, 6):
            h.case("mcstate-%s-%s" % (k, c), mcstate, k, jnp.complex128, c)
    h.case("mcstate-real", mcstate, "heis", jnp.float64, 8)
    h.case("mcstate-1chain", mcstate, "heis", jnp.complex128, None, 1)

    def strat(rng, h, kind, dtype, rand_norm, renorm, chunk=None, flat=False, nrand=None, chains=2, n=16, rounds=2):
        hi, ha, H = system(rng, kind)
        A = np.asarray(hi.all_states())
        nd = int(rng.integers(3, len(A) // 2))
        det = A[rng.permutation(len(A))[:nd]]
        if chunk:
            nd -= nd % chunk; det = det[:max(nd, chunk)]; nd = len(det)
        ma = qGPS(hi, 2, dtype=dtype)
        sa = sampler(hi, kind, chains)
        kw = {}
        if nrand:
            kw["number_random_samples"] = nrand
        vs = MCStateStratifiedSampling(jnp.asarray(det, dtype=np.asarray(A).dtype if kind != "ising" else jnp.float64), len(A), sa, ma, n_samples=n, seed=4,
                                       n_discard_per_chain=2, rand_norm=rand_norm, renormalize=renorm, **kw)
        if flat:
            # constant amplitude: every estimate of the norm is exact
            vs.parameters = jax.tree_util.tree_map(lambda p: jnp.full_like(p, 0.3), vs.parameters)
        else:
            vs.parameters = M.perturb(vs.parameters, rng, 0.3)
        if chunk:
            vs.chunk_size = chunk
        dk = {tuple(d) for d in det}
        rnd = []
        for r in range(rounds):
            x, w = (np.asarray(a) for a in vs.samples_with_counts)
            h.inputs(system=kind, n=n, rand_norm=rand_norm, renormalize=renorm, chunk=chunk, n_det=nd, flat=flat, round=r)
            h.ok("deterministic set comes first and complete", np.array_equal(x[:nd], det))
            comp = x[nd:]
            h.ok("number of stochastic samples", len(comp) == n, str(len(comp)))
            h.ok("no stochastic sample lies in the deterministic set", not any(tuple(s) in dk for s in comp))
            lp = 2 * np.asarray(vs.log_value(jnp.asarray(A))).real
            p = np.exp(lp - (lp.max() if renorm else 0.0))
            num = lambda s: np.asarray(hi.states_to_numbers(np.asarray(s, A.dtype)))
            pd = p[num(det)]
            if renorm:
                h.close("weights sum to one", np.sum(w), 1.0, 1e-9)
                if flat:
                    norm = p.sum()
                elif not rand_norm:
                    norm = pd.sum() + (len(A) - nd) / np.mean(1 / p[num(comp)])
                else:
                    norm = None
            else:
                norm = 1.0
            h.close("deterministic weights are proportional to the probabilities", w[:nd] / w[0], pd / pd[0], 1e-8)
            h.ok("stochastic samples share one weight", np.allclose(w[nd:], w[nd]))
            h.ok("total weight of the two parts is one", abs(w[:nd].sum() + n * w[nd] - 1) < 1e-8)
            if norm is not None:
                h.close("deterministic weights", w[:nd], pd / norm, 1e-8)
                h.close("stochastic weights", w[nd:], np.full(n, (1 - pd.sum() / norm) / n), 1e-8)
            else:
                # a uniform sample of the complement estimates the norm: the implied mean lies between its extremes
                nrm = pd[0] / w[0]
                pc = np.delete(p, num(det))
                mean = (nrm - pd.sum()) / (len(A) - nd)
                h.ok("estimated norm within the range of the complement", pc.min() - 1e-9 <= mean <= pc.max() + 1e-9, "%g not in [%g,%g]" % (mean, pc.min(), pc.max()))
            check_estimates(h, vs, ha, H, x, w)
            vs.reset()
    h.case("strat-rand", strat, "ising", jnp.complex128, True, True, repeat=2)
    h.case("strat-imp", strat, "ising", jnp.complex128, False, True, repeat=2)
    h.case("strat-flat-rand", strat, "ising", jnp.complex128, True, True, None, True)
    h.case("strat-flat-imp", strat, "ising", jnp.complex128, False, True, None, True)
    h.case("strat-nrand", strat, "ising", jnp.float64, True, True, None, False, 7)
    h.case("strat-norenorm", strat, "ising", jnp.complex128, True, False)
    h.case("strat-chunk", strat, "ising", jnp.complex128, True, True, 4)
    h.case("strat-hubbard", strat, "hubbard", jnp.complex128, True, True)
