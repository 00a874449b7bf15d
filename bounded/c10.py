import numpy as np
from . import oracle as O
RULE = ("fast-updating Metropolis sampling of fast-updatable models (product states, autoregressive, Slater) with hopping, exchange and custom rules "
        "(with proposal corrections, repeated update sites); oracle: exact k-step Markov chain distribution from |psi|^p computed from scratch (chi-square, "
        "1e-7), plus acceptance bookkeeping")


def run(h):
    from . import models as M
    from .c08 import chi2_tail
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS, ARqGPSFull, PlaquetteqGPS
    from GPSKet.models.slater import Slater
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.sampler.metropolis_fast import MetropolisFastSampler
    from GPSKet.sampler import MetropolisFastHopping, MetropolisFastExchange
    from netket.sampler.metropolis import MetropolisRule

    class PairSwap(MetropolisRule):
        """my own rule: swap a uniformly chosen ordered pair of distinct sites, report sites with padding; optional asymmetric correction"""
        CORR = None

        def transition(rule, sampler, machine, parameters, state, key, x):
            L = x.shape[-1]
            pairs = jnp.array([(i, j) for i in range(L) for j in range(L) if i != j])
            c = jax.random.randint(key, (x.shape[0],), 0, len(pairs))
            p = pairs[c]

            def one(s, q):
                return s.at[q[0]].set(s[q[1]]).at[q[1]].set(s[q[0]])
            xp = jax.vmap(one)(x, p)
            return xp, (jnp.full((x.shape[0],), type(rule).CORR) if type(rule).CORR is not None else None), p

    def exact(X, logp, prop, steps, x0):
        """prop(x) -> list of (prob, x', corr); distribution after `steps` steps"""
        pos = {tuple(c): i for i, c in enumerate(X)}
        T = np.zeros((len(X), len(X)))
        for i, c in enumerate(X):
            for pr, y, cr in prop(c):
                j = pos[tuple(y)]
                a = min(1.0, np.exp(logp[j] - logp[i] + cr))
                T[i, j] += pr * a
                T[i, i] += pr * (1 - a)
        d = np.zeros(len(X)); d[pos[tuple(x0)]] = 1
        rate = 0.0
        e = d
        for _ in range(steps):
            e = e @ T
        return e, T

    def chi(h, what, cnt, p):
        h.ok(what + ": impossible states never reached", np.all(cnt[p < 1e-14] == 0), str(cnt[p < 1e-14]))
        n = cnt.sum(); e = n * p; big = e >= 6
        if big.sum() < 2:
            return
        x = ((cnt[big] - e[big]) ** 2 / e[big]).sum() + ((cnt[~big].sum() - e[~big].sum()) ** 2 / max(e[~big].sum(), 1.0))
        pv = chi2_tail(x, int(big.sum()))
        h.ok(what, pv > 1e-7, "p=%.2g counts=%s expected=%s" % (pv, cnt[big], e[big].round(1)))

    def swaps(c):
        L = len(c)
        out = []
        for i in range(L):
            for j in range(L):
                if i != j:
                    y = np.array(c); y[i], y[j] = c[j], c[i]
                    out.append((1.0 / (L * (L - 1)), tuple(y), 0.0))
        return out

    def chain(rng, h, mkmodel, mksampler, prop, X, dt, steps, mp, scale=0.5, corr=0.0, init="first"):
        ma, hi = mkmodel()
        N = 12000 if h.thorough else 3000
        x0 = X[int(rng.integers(len(X)))]
        v = dict(ma.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(X[:1].astype(dt))))
        v["params"] = M.perturb(v["params"], rng, scale)
        lp = np.asarray(ma.apply(v, jnp.asarray(X.astype(dt)), mutable=["intermediates_cache", "cache"])[0]).real * mp
        sa = mksampler(hi, n_chains=N, sweep_size=steps, machine_pow=mp)
        h.inputs(model=type(ma).__name__, steps=steps, machine_pow=mp, x0=x0, log_prob=lp)
        st = sa.init_state(ma, v, seed=int(rng.integers(1 << 30)))
        st = sa.reset(ma, v, st)
        st = st.replace(σ=jnp.tile(jnp.asarray(x0.astype(dt)), (N, 1)))
        s, st1 = sa.sample(ma, v, state=st, chain_length=1)
        s = np.asarray(s)[:, 0]
        h.ok("state carries the returned sample", np.array_equal(np.asarray(st1.σ), s))
        pos = {tuple(c): i for i, c in enumerate(X)}
        cnt = np.zeros(len(X))
        for c in s:
            k = pos.get(tuple(c))
            if k is None:
                h.ok("sample stays in the space", False, str(c))
            cnt[k] += 1
        e, T = exact(X, lp, lambda c: [(a, b, d + corr) for a, b, d in prop(c)], steps, x0)
        chi(h, "distribution after %d steps" % steps, cnt, e)
        h.close("number of steps", np.asarray(st1.n_steps), np.array(steps * N), 0)
        h.ok("accepted moves do not exceed steps", 0 <= int(st1.n_accepted) <= steps * N, str(st1.n_accepted))
        # expected number of accepted moves (including accepted null moves)
        acc = 0.0
        d = np.zeros(len(X)); d[pos[tuple(x0)]] = 1
        A = np.array([sum(a * min(1.0, np.exp(lp[pos[tuple(b)]] - lp[i] + cr + corr)) for a, b, cr in prop(c)) for i, c in enumerate(X)])
        for _ in range(steps):
            acc += float(d @ A); d = d @ T
        sd = np.sqrt(N * steps) * 0.75 + 1
        h.ok("acceptance count", abs(int(st1.n_accepted) - N * acc) < 6.5 * sd, "%d vs %.1f" % (int(st1.n_accepted), N * acc))
        s2, st2 = sa.sample(ma, v, state=st1, chain_length=2)
        h.ok("fresh randomness", not np.array_equal(np.asarray(st2.rng), np.asarray(st1.rng)))
        h.ok("chain shape", np.asarray(s2).shape == (N, 2, X.shape[1]))
        cnt = np.zeros(len(X))
        for c in np.asarray(s2)[:, 1]:
            cnt[pos[tuple(c)]] += 1
        e, _ = exact(X, lp, lambda c: [(a, b, d + corr) for a, b, d in prop(c)], 3 * steps, x0)
        chi(h, "distribution after %d steps" % (3 * steps), cnt, e)

    spin = lambda L, sz=None: nk.hilbert.Spin(0.5, N=L, total_sz=sz)
    Xs = np.asarray(spin(4, 0).all_states())
    Xf = np.asarray(O.fermi_configs(3, (1, 2)))
    own = lambda corr=None: (lambda hi, **k: MetropolisFastSampler(hi, mkrule(corr), **k))

    def mkrule(corr):
        class Rule(PairSwap):
            CORR = corr
        return Rule()

    def hops(P=None, hp=1.0):
        def f(c):
            L = len(c); out = []
            N = sum(bin(int(v)).count("1") for v in c)
            for s, bit in ((0, 1), (1, 2)):
                n = sum(1 for v in c if int(v) & bit)
                for q in range(L):
                    if int(c[q]) & bit:
                        for p in range(L):
                            if not int(c[p]) & bit:
                                y = np.array(c); y[q] -= bit; y[p] += bit
                                out.append((1.0 / N / (L - n), tuple(y), 0.0))
                        if n == L:
                            out.append((1.0 / N, tuple(c), 0.0))
            return out
        return f

    def edges(g):
        E = [(i, j) for i in range(4) for j in range(i + 1, 4) if np.asarray(g.distances())[i][j] <= 1]

        def f(c):
            out = []
            for i, j in E:
                y = np.array(c); y[i], y[j] = c[j], c[i]
                out.append((1.0 / len(E), tuple(y), 0.0))
            return out
        return f
    g = nk.graph.Chain(4)
    q = lambda: (qGPS(spin(4, 0), 2), spin(4, 0))
    T = [
        ("qgps-swap", q, own(), swaps, Xs, float, 1, 2), ("qgps-swap-3", q, own(), swaps, Xs, float, 3, 2), ("qgps-pow1", q, own(), swaps, Xs, float, 2, 1),
        ("qgps-exchange", q, lambda hi, **k: MetropolisFastExchange(hi, graph=g, **k), edges(g), Xs, float, 2, 2),
        ("qgps-sym", lambda: (qGPS(spin(4, 0), 2, syms=M.graph_syms(4)), spin(4, 0)), own(), swaps, Xs, float, 3, 2),
        ("ar", lambda: (ARqGPSFull(spin(4, 0), 2), spin(4, 0)), own(), swaps, Xs, float, 3, 2),
        ("qgps-hop", lambda: (qGPS(FermionicDiscreteHilbert(3, (1, 2)), 2), FermionicDiscreteHilbert(3, (1, 2))), MetropolisFastHopping, hops(), Xf, np.uint8, 1, 2),
        ("qgps-hop-4", lambda: (qGPS(FermionicDiscreteHilbert(3, (1, 2)), 1), FermionicDiscreteHilbert(3, (1, 2))), MetropolisFastHopping, hops(), Xf, np.uint8, 4, 2),
        ("slater-hop", lambda: (Slater(FermionicDiscreteHilbert(3, (1, 2))), FermionicDiscreteHilbert(3, (1, 2))), MetropolisFastHopping, hops(), Xf, np.uint8, 3, 2),
    ]
    for nme, mk, sm, pr, X, dt, st, mp in T:
        h.case(nme, chain, mk, sm, pr, X, dt, st, mp, repeat=2 if h.thorough else 1)
    h.case("correction", chain, q, own(0.4), swaps, Xs, float, 2, 2, 0.5, 0.4)
    h.case("correction-neg", chain, q, own(-0.7), swaps, Xs, float, 2, 2, 0.5, -0.7)

    def needs_fast(rng, h):
        hi = spin(4, 0)
        sa = MetropolisFastSampler(hi, PairSwap(), n_chains=2)
        ma = qGPS(hi, 1, apply_fast_update=False)
        v = ma.init(jax.random.PRNGKey(0), jnp.asarray(Xs[:1]))
        try:
            sa.sample(ma, v, state=sa.init_state(ma, v, seed=1), chain_length=1)
        except AssertionError:
            h.ok("models without fast update are rejected", True)
        else:
            h.ok("models without fast update are rejected", False)
    h.case("needs-fast", needs_fast)
