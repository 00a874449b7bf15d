import numpy as np
from . import oracle as O
RULE = ("random integrals (dense/sparse), configurations of random fillings, fast/plain wavefunctions, chunk sizes; oracle: independent "
        "second-quantised matrix elements times amplitude ratios; local RDMs contracted with the integrals")


def run(h):
    from . import models as M
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.hamiltonian import AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse
    from GPSKet.operator.hamiltonian import ab_initio
    from netket.vqs.mc import get_local_kernel, get_local_kernel_arguments

    def model(rng, hi, kind):
        if kind == "table":
            return M.TableModel(hi.size)
        if kind == "qgps":
            return qGPS(hi, int(rng.integers(1, 4)))
        if kind == "qgps-slow":
            return qGPS(hi, 2, apply_fast_update=False)
        if kind == "slater":
            from GPSKet.models.slater import Slater
            return Slater(hi)

    def explicit(logpsi, x, rows):
        out = np.zeros(len(x), dtype=complex)
        la = np.asarray(logpsi(jnp.asarray(x)))
        for b, r in enumerate(rows):
            ks = np.array(list(r.keys()), dtype=x.dtype).reshape(-1, x.shape[1])
            pad = np.concatenate([ks, np.repeat(x[b:b + 1], 64 - len(ks) % 64, 0)])
            l = np.asarray(logpsi(jnp.asarray(pad)))[: len(ks)]
            out[b] = np.sum(np.array(list(r.values())) * np.exp(l - la[b]))
        return out

    def case(rng, h, cls, L, n, kind, sparse, chunk, B, dt, rdm, scale=1.0, spread=0.0):
        hm, e = O.rand_integrals(rng, L, sparse)
        f = 10.0 ** (-spread * rng.uniform(size=L))                 # integrals of very different magnitude
        hm = scale * hm * np.einsum("p,q->pq", f, f); e = scale * e * np.einsum("p,q,r,s->pqrs", f, f, f, f)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        x = O.random_fermi(rng, L, n, B)
        h.inputs(cls=cls.__name__, L=L, n_elec=n, model=kind, sparse=sparse, chunk=chunk, x=x, rdm=rdm)
        ma = model(rng, hi, kind)
        v = M.init(ma, rng, x[:1])
        sa = nk.sampler.MetropolisLocal(hi, n_chains=2, dtype=np.uint8)
        vs = nk.vqs.MCState(sa, ma, variables=v, n_samples=4)
        op = cls(hi, hm, e)
        lp = jax.jit(lambda y: ma.apply(v, y))
        want = explicit(lp, x, [O.second_quantised_row(c, hm, e) for c in x])
        smp, args = get_local_kernel_arguments(vs, op)
        k = get_local_kernel(vs, op, chunk) if chunk is not None else get_local_kernel(vs, op)
        got = np.asarray(jax.jit(k, static_argnums=0)(vs._apply_fun, vs.variables, jnp.asarray(x.astype(dt)), args))
        h.close("local energies", got / scale, want / scale, 1e-7)
        if rdm:
            fast = bool(ma.apply_fast_update)
            f = jax.jit(lambda p, s, a: ab_initio.local_en_on_the_fly(n, ma.apply, p, s, a, use_fast_update=fast, chunk_size=chunk, return_local_RDMs=True))
            en, t1, t2 = f(vs.variables, jnp.asarray(x), args)
            h.close("local energies with RDMs", np.asarray(en), want, 1e-7)
            t_mat = hm - 0.5 * np.einsum("prrq->pq", e)
            h.close("contracted local RDMs", np.einsum("pq,bpq->b", t_mat, np.asarray(t1)) + np.einsum("pqrs,bpqrs->b", e, np.asarray(t2)), want, 1e-7)
            h.ok("RDM shapes", np.asarray(t1).shape == (B, L, L) and np.asarray(t2).shape == (B, L, L, L, L))
            # the RDMs do not depend on the integrals: contract with other ones
            h2, e2 = O.rand_integrals(rng, L, 0.0)
            w2 = explicit(lp, x, [O.second_quantised_row(c, h2, e2) for c in x])
            t_mat2 = h2 - 0.5 * np.einsum("prrq->pq", e2)
            h.close("RDMs predict other integrals", np.einsum("pq,bpq->b", t_mat2, np.asarray(t1)) + np.einsum("pqrs,bpqrs->b", e2, np.asarray(t2)), w2, 1e-7)

    D, S = AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse
    u8 = np.uint8
    cfg = [(D, 4, (2, 2), "qgps", 0.0, None, 4, u8, False), (D, 4, (2, 1), "table", 0.0, 2, 4, u8, True), (D, 5, (3, 2), "qgps-slow", 0.0, None, 2, u8, False),
           (D, 4, (2, 2), "qgps", 0.5, 2, 4, np.float64, True), (D, 4, (3, 1), "slater", 0.0, None, 3, u8, False), (D, 4, (1, 1), "qgps", 0.0, None, 3, u8, False),
           (D, 3, (3, 1), "qgps", 0.0, None, 2, u8, False), (D, 3, (0, 2), "table", 0.0, None, 2, u8, False), (D, 5, (2, 3), "table", 0.0, None, 2, u8, True),
           (S, 4, (2, 2), "qgps", 0.5, None, 4, u8, False), (S, 4, (2, 1), "table", 0.0, 2, 4, u8, False), (S, 5, (3, 2), "qgps-slow", 0.8, None, 3, u8, False),
           (S, 5, (2, 3), "qgps", 0.0, None, 3, np.float64, False), (S, 4, (3, 1), "slater", 0.3, None, 3, u8, False), (S, 4, (1, 1), "qgps", 0.0, None, 3, u8, False),
           (S, 3, (3, 1), "qgps", 0.0, None, 2, u8, False), (S, 3, (0, 2), "table", 0.0, None, 2, u8, False), (S, 4, (2, 2), "table", 0.97, None, 3, u8, False),
           (S, 4, (2, 1), "qgps", 0.0, None, 3, u8, False, 1e-8), (D, 4, (2, 1), "qgps", 0.0, None, 3, u8, False, 1e-8), (S, 5, (2, 2), "table", 0.0, None, 3, u8, False, 1.0, 1.5), (S, 4, (2, 2), "table", 0.3, None, 3, u8, False, 1e5)]
    if h.thorough:
        cfg += [(D, 6, (3, 3), "qgps", 0.0, None, 3, u8, True), (S, 6, (3, 3), "qgps", 0.6, None, 3, u8, False), (D, 6, (4, 2), "table", 0.0, None, 3, u8, True),
                (S, 6, (4, 2), "table", 0.0, None, 3, u8, False), (D, 4, (4, 4), "table", 0.0, None, 1, u8, False)]
    for i, c in enumerate(cfg):
        h.case("%s-%d" % (c[0].__name__ if min(c[2]) > 0 and max(c[2]) < c[1] and c[4] < 0.9 else "empty-channel", i), case, *c, repeat=2 if h.thorough else 1)
