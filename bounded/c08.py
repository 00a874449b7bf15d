import numpy as np
RULE = ("direct sampling from autoregressive models (random parameters, constrained/unconstrained, spin/fermionic, with and without symmetries, uniform and "
        "per-site support dimension, plaquettes); oracle: exact |psi|^p distribution over all configurations, chi-square with false-alarm rate 1e-7; "
        "the categorical draw itself against its probabilities")


def chi2_tail(x, k):
    from scipy.stats import chi2
    return chi2.sf(x, k)


def run(h):
    from . import c07, models as M
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.sampler import ARDirectSampler
    try:
        from GPSKet.sampler.autoreg import batch_choice
    except ImportError:
        batch_choice = None

    def test_counts(h, what, counts, probs):
        n = counts.sum()
        h.ok(what + ": zero-probability outcomes never drawn", np.all(counts[probs <= 0] == 0), str(counts[probs <= 0]))
        e = n * probs
        big = e >= 8
        c = np.append(counts[big], counts[~big].sum()); ee = np.append(e[big], e[~big].sum())
        if ee[-1] < 8:
            c[-2 if len(c) > 1 else -1] += c[-1]; ee[-2 if len(ee) > 1 else -1] += ee[-1]
            if len(c) > 1:
                c, ee = c[:-1], ee[:-1]
        x = ((c - ee) ** 2 / ee).sum()
        pv = chi2_tail(x, max(1, len(c) - 1))
        h.ok(what + ": distribution", pv > 1e-7, "chi2=%.2f dof=%d p=%.2g counts=%s expected=%s" % (x, len(c) - 1, pv, c, ee.round(1)))

    def case(rng, h, mk, n, chains):
        ma = mk()
        hi = ma.hilbert
        mp = ma.machine_pow
        X = c07.full_space(hi)
        dt = np.uint8 if hi.local_size == 4 else np.float64
        X = X.astype(dt)
        v = c07.variables(ma, rng, X[:1])
        mut = ["intermediates_cache", "cache"]
        lp = np.asarray(ma.apply(v, jnp.asarray(X), mutable=mut)[0])
        pr = np.exp(mp * np.where(np.isfinite(lp.real), lp.real, -np.inf))
        pr = np.nan_to_num(pr)
        if hi.constrained:
            ok = np.array([(c.astype(int).sum() == 0) if hi.local_size == 2 else
                           (sum(int(q) & 1 for q in c) == hi._n_elec[0] and sum(int(q) >> 1 for q in c) == hi._n_elec[1]) for c in X])
            pr = np.where(ok, pr, 0)
        h.close("exact distribution is normalised", pr.sum(), np.array(1.0), 1e-6)
        sa = ARDirectSampler(hi, machine_pow=mp, dtype=dt)
        h.inputs(model=type(ma).__name__, L=hi.size, constrained=hi.constrained, n=n, chains=chains)
        st = sa.init_state(ma, v, seed=int(rng.integers(1 << 30)))
        st = sa.reset(ma, v, st)
        s1, st1 = sa.sample(ma, v, state=st, chain_length=n // chains)
        s1 = np.asarray(s1)
        h.ok("shape", s1.shape == (chains, n // chains, hi.size), str(s1.shape))
        h.ok("dtype", s1.dtype == dt, str(s1.dtype))
        s2, st2 = sa.sample(ma, v, state=st1, chain_length=n // chains)
        s2 = np.asarray(s2)
        h.ok("successive batches use fresh randomness", not np.array_equal(s1, s2))
        pos = {tuple(c): i for i, c in enumerate(X)}
        cnt = np.zeros(len(X))
        both = np.concatenate([s1.reshape(-1, hi.size), s2.reshape(-1, hi.size)])
        for c in both:
            k = pos.get(tuple(c))
            h.ok("sample is a configuration of the space", k is not None, str(c), nontrivial=False) if k is None else None
            cnt[k] += 1
        test_counts(h, "samples", cnt, pr)
        # correlation between consecutive samples of the flattened batch: consecutive pairs independent
        idx = np.array([pos[tuple(c)] for c in both])
        a = (idx[:-1] == idx[1:]).mean(); e = (pr ** 2).sum()
        sd = np.sqrt(e * (1 - e) / len(idx)) * 1.8 + 1e-9
        h.ok("consecutive samples independent", abs(a - e) < 6 * sd + 5.0 / len(idx), "coincidence rate %.4f expected %.4f" % (a, e))
        for ch in range(min(chains, 2)):
            c1 = np.zeros(len(X))
            for c in s1[ch]:
                c1[pos[tuple(c)]] += 1
            if s1.shape[1] > 400:
                test_counts(h, "chain %d" % ch, c1, pr)

    names = ("ar", "ar-0", "ar-pow1", "ar-sym", "ar-sym-0", "ar-fermi", "full", "full-0", "full-list", "full-list-0", "full-fermi", "plaq", "plaq-0",
             "plaq-sym-0", "plaq-fermi", "ar-2site", "full-slow-sym-0", "full-sym-0", "ar-modphase", "full-modphase")
    d = dict(c07.models())
    for i, nme in enumerate(names):
        h.case(nme, case, d[nme], 40000 if h.thorough else 4000, 1)

    def vstate(rng, h, mk):
        ma = mk()
        hi = ma.hilbert
        sa = ARDirectSampler(hi)
        vs = nk.vqs.MCState(sa, ma, n_samples=4096, seed=int(rng.integers(1000)))
        v = {"params": M.perturb(vs.variables["params"], rng, 0.5)}
        vs.parameters = v["params"]
        X = np.asarray(hi.all_states())
        s = np.asarray(vs.sample()).reshape(-1, hi.size)
        lp = np.asarray(vs.log_value(jnp.asarray(X)))
        pr = np.exp(2 * lp.real)
        pos = {tuple(c): i for i, c in enumerate(X)}
        cnt = np.zeros(len(X))
        for c in s:
            cnt[pos[tuple(c)]] += 1
        test_counts(h, "variational state samples", cnt, pr)
    h.case("vstate-ar", vstate, d["ar-0"])
    h.case("vstate-full", vstate, d["full-0"])

    def draw(rng, h, a, p):
        if batch_choice is None:
            return
        n = 20000
        a = np.asarray(a); p = np.asarray(p, float)
        h.inputs(a=a, p=p)
        out = np.asarray(batch_choice(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(a), jnp.tile(jnp.asarray(p), (n, 1))))
        h.ok("shape", out.shape == (n,), str(out.shape))
        cnt = np.array([(out == q).sum() for q in a])
        h.ok("values drawn from the given set", cnt.sum() == n)
        test_counts(h, "categorical draw", cnt, p / p.sum())
        P = rng.random((7, len(a))); P[np.arange(7), rng.integers(0, len(a), 7)] = 0
        cnt = np.zeros((7, len(a)))
        f = jax.jit(jax.vmap(lambda k: batch_choice(k, jnp.arange(len(a)), jnp.asarray(P))))
        o = np.asarray(f(jax.random.split(jax.random.PRNGKey(int(rng.integers(1 << 30))), 3000)))
        for b in range(7):
            test_counts(h, "row %d" % b, np.bincount(o[:, b], minlength=len(a)).astype(float), P[b] / P[b].sum())
    h.case("draw-2", draw, [-1.0, 1.0], [0.3, 0.7])
    h.case("draw-4", draw, [0, 1, 2, 3], [0.1, 0.0, 2.0, 0.4])
    h.case("draw-first-zero", draw, [0, 1, 2], [0.0, 1.0, 3.0])
    h.case("draw-last-zero", draw, [0, 1, 2], [1.0, 1.0, 0.0])
    h.case("draw-certain", draw, [5, 7], [0.0, 1.0])
