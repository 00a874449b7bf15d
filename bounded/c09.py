import numpy as np
from . import oracle as O
RULE = ("fermionic spaces of random size and electron numbers: membership against the definition on all configurations, random initial states, powers; "
        "hopping/exchange proposals from every kind of configuration (full, empty, doubly occupied) with and without transition matrices; oracle: electron "
        "numbers conserved, at most the reported sites change, empirical proposal probabilities symmetric (6.5 sigma)")


def run(h):
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.sampler import MetropolisHopping, MetropolisFastHopping

    def ne(x):
        x = np.asarray(x).astype(int)
        return np.stack([(x & 1).sum(-1), ((x >> 1) & 1).sum(-1)], -1)

    def space(rng, h, L, n):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        h.inputs(L=L, n_elec=n)
        allc = O.fermi_configs(L)
        want = O.fermi_configs(L, n)
        h.ok("size", hi.size == L and hi.local_size == 4)
        h.ok("constrained", hi.constrained == (n is not None))
        if n is not None:
            for dt in (np.uint8, np.float64, np.int64):
                got = np.asarray(hi.constraint(jnp.asarray(allc.astype(dt))))
                h.ok("membership %s" % np.dtype(dt), np.array_equal(got, np.all(ne(allc) == np.array(n), -1)), str(got))
            h.close("membership of a stacked batch", np.asarray(hi.constraint(jnp.asarray(allc.reshape(2, -1, L)))).reshape(-1), np.all(ne(allc) == np.array(n), -1))
        if len(want):
            h.ok("number of states", hi.n_states == len(want), "%d vs %d" % (hi.n_states, len(want)))
            got = np.asarray(hi.all_states())
            h.ok("all states", {tuple(int(v) for v in c) for c in got} == {tuple(int(v) for v in c) for c in want} and len(got) == len(want))
        idx = np.asarray(hi.states_to_local_indices(jnp.asarray(allc.astype(np.float64))))
        h.ok("local indices", np.array_equal(idx, allc) and np.issubdtype(idx.dtype, np.integer))
        h2 = FermionicDiscreteHilbert(L, n_elec=n)
        h.ok("equal spaces are equal and hash alike", hi == h2 and hash(hi) == hash(h2))
        h.ok("different spaces differ", hi != FermionicDiscreteHilbert(L + 1, n_elec=n))
        if n is not None and n[0] != n[1]:
            h.ok("different electron numbers differ", hi != FermionicDiscreteHilbert(L, n_elec=(n[1], n[0])))
            h.ok("constraints differ", hi.constraint != FermionicDiscreteHilbert(L, n_elec=(n[1], n[0])).constraint)
        p = hi ** 2
        h.ok("power: size", p.size == 2 * L)
        h.ok("power: electrons", p._n_elec == (None if n is None else (2 * n[0], 2 * n[1])), str(p._n_elec))
    for i, (L, n) in enumerate([(1, None), (3, None), (4, (2, 1)), (4, (0, 3)), (4, (4, 4)), (3, (0, 0)), (5, (2, 3)), (2, (1, 1)), (4, (1, 4))]):
        h.case("space-%d" % i, space, L, n)

    def rs(rng, h, L, n, dt, B):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        h.inputs(L=L, n_elec=n, dtype=str(dt), B=B)
        x = np.asarray(hi.random_state(jax.random.PRNGKey(int(rng.integers(1 << 30))), B, dtype=dt))
        h.ok("shape and dtype", x.shape == (B, L) and x.dtype == dt, "%s %s" % (x.shape, x.dtype))
        h.ok("values", np.all((x >= 0) & (x <= 3) & (x == np.round(x))))
        if n is not None:
            h.ok("electron numbers", np.all(ne(x) == np.array(n)), str(x[:4]))
            h.ok("inside the space", np.all(np.asarray(hi.constraint(jnp.asarray(x)))))
        if B >= 200 and 0 < L <= 3:
            c = O.fermi_configs(L, n)
            cnt = {tuple(int(v) for v in k): 0 for k in c}
            for r in x:
                cnt[tuple(int(v) for v in r)] += 1
            e = B / len(c)
            v = np.array(list(cnt.values()))
            h.ok("uniform", np.all(abs(v - e) < 7 * np.sqrt(e) + 1), str(cnt))
        if B == 1:
            h.ok("single state", np.asarray(hi.random_state(jax.random.PRNGKey(3))).shape == (L,))
    for i, a in enumerate([(3, (1, 2), np.uint8, 1500), (3, None, np.uint8, 3000), (2, (1, 1), np.float64, 800), (6, (3, 3), np.uint8, 50), (5, (0, 5), np.int32, 20),
                           (5, (5, 5), np.uint8, 20), (40, (20, 13), np.uint8, 30), (300, (280, 5), np.uint8, 3), (4, None, np.float64, 1), (4, (2, 0), np.uint8, 1)]):
        h.case("random-state-%d" % i, rs, *a)

    class S:  # the sampler argument is not used by the rule
        pass

    def propose(sa, fast, x, key):
        r = sa.rule.transition(sa, None, None, None, key, jnp.asarray(x))
        xp = np.asarray(r[0])
        corr = r[1]
        us = np.asarray(r[2]) if fast else None
        return xp, corr, us

    def transition(rng, h, L, n, hp, tp, fast, dt=np.uint8, rep=1):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        kw = dict(hop_probability=hp)
        if tp:
            P = rng.random((L, L)); P = P + P.T
            kw["transition_probs"] = jnp.asarray(P)
        sa = (MetropolisFastHopping if fast else MetropolisHopping)(hi, n_chains=2, **kw)
        x = O.random_fermi(rng, L, n, 60 * rep).astype(dt)
        h.inputs(L=L, n_elec=n, hop_probability=hp, transition_probs=tp, fast=fast)
        xp, corr, us = propose(sa, fast, x, jax.random.PRNGKey(int(rng.integers(1 << 30))))
        h.ok("dtype and shape", xp.shape == x.shape and xp.dtype == x.dtype, "%s %s" % (xp.shape, xp.dtype))
        h.ok("values are occupations", np.all((xp >= 0) & (xp <= 3)), str(xp.max()))
        h.ok("electron numbers conserved", np.array_equal(ne(xp), ne(x)), "%s" % str([(a, b) for a, b in zip(x, xp) if not np.array_equal(ne(a), ne(b))][:1]))
        h.ok("no proposal correction", corr is None or np.all(np.asarray(corr) == 0))
        h.ok("at most two sites change", np.all((xp != x).sum(-1) <= 2))
        if fast:
            y = x.copy()
            for b in range(len(x)):
                for s in us[b]:
                    y[b, s] = xp[b, s]
            h.ok("update sites in range", np.all((us >= 0) & (us < L)))
            h.ok("every changed site is reported", np.array_equal(y, xp))
    k = 0
    for L, n in ((5, (2, 2)), (4, (0, 2)), (4, (4, 1)), (6, (1, 5)), (3, (3, 3)), (3, (0, 0)), (1, (1, 0)), (7, None), (2, (1, 1))):
        for hp in (1.0, 0.5, 0.0):
            for tp in (False, True):
                if not h.thorough and (k % 2) and n != (2, 2):
                    k += 1
                    continue
                h.case("transition-%d" % k, transition, L, n, hp, tp, True)
                k += 1
    h.case("transition-slow", transition, 5, (3, 2), 0.6, False, False)
    h.case("transition-float", transition, 5, (3, 2), 0.6, False, True, np.float64)

    def symmetric(rng, h, L, n, hp, tp, fast):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        kw = dict(hop_probability=hp)
        if tp:
            P = rng.random((L, L)); P = P + P.T
            kw["transition_probs"] = jnp.asarray(P)
        sa = (MetropolisFastHopping if fast else MetropolisHopping)(hi, n_chains=2, **kw)
        C = O.fermi_configs(L, n)
        N = 20000 if h.thorough else 6000
        h.inputs(L=L, n_elec=n, hop_probability=hp, transition_probs=tp)
        f = jax.jit(lambda k, x: sa.rule.transition(sa, None, None, None, k, x)[0])
        pos = {tuple(int(v) for v in c): i for i, c in enumerate(C)}
        T = np.zeros((len(C), len(C)))
        w = 4 ** np.arange(L)
        code = {int((c.astype(int) * w).sum()): i for i, c in enumerate(C)}
        for i, c in enumerate(C):
            xp = np.asarray(f(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.tile(jnp.asarray(c), (N, 1))))
            u, m = np.unique((xp.astype(int) * w).sum(-1), return_counts=True)
            for q, r in zip(u, m):
                T[i, code[int(q)]] += r
        for i in range(len(C)):
            for j in range(i):
                a, b = T[i, j], T[j, i]
                h.ok("symmetric proposal probabilities", abs(a - b) <= 6.5 * np.sqrt(a + b) + 3, "%s <-> %s: %d vs %d of %d" % (C[i], C[j], a, b, N), nontrivial=a + b > 0)
        # connectivity: every single-electron hop is proposed when hopping is enabled
        if hp > 0 and not tp:
            for i, c in enumerate(C):
                for s in (0, 1):
                    for p in range(L):
                        for q in range(L):
                            if p != q:
                                sg, xp = O.hop(c, p, q, s)
                                if sg:
                                    h.ok("hop is reachable", T[i, pos[xp]] > 0, "%s -> %s" % (c, xp), nontrivial=False)
        if hp < 1:
            for i, c in enumerate(C):
                u = [a for a in range(L) if c[a] == 1]; d = [a for a in range(L) if c[a] == 2]
                for a in u:
                    for b in d:
                        y = c.copy(); y[a], y[b] = 2, 1
                        h.ok("exchange is reachable", tp or T[i, pos[tuple(int(v) for v in y)]] > 0, "%s -> %s" % (c, y), nontrivial=False)
    for i, a in enumerate([(3, (1, 2), 1.0, False, True), (3, (1, 1), 0.5, False, True), (3, (2, 1), 0.0, False, False), (3, (1, 1), 0.7, True, True), (4, (2, 1), 1.0, False, False), (4, (1, 2), 0.4, False, True)]):
        h.case("symmetric-%d" % i, symmetric, *a)

    def reject(rng, h):
        P = rng.random((4, 4))
        for mk in (MetropolisFastHopping, MetropolisHopping):
            try:
                mk(FermionicDiscreteHilbert(4, (1, 1)), transition_probs=P, n_chains=2)
            except AssertionError:
                h.ok("asymmetric transition probabilities are rejected", True)
            except ValueError:
                h.ok("asymmetric transition probabilities are rejected", True)
            else:
                h.ok("asymmetric transition probabilities are rejected", False)
    h.case("reject-asymmetric", reject)
