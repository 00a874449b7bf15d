import numpy as np
from . import oracle as O
RULE = ("Hubbard / Heisenberg / J1-J2 operators on random graphs, parameters and samples; fast and plain wavefunctions; "
        "several chunk sizes and sample-array ranks; oracle: sum of independently computed matrix elements times amplitude ratios")


def run(h):
    from . import models as M
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS, ARqGPS
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly, get_J1_J2_Hamiltonian
    from GPSKet.operator.hamiltonian.J1J2 import HeisenbergOnTheFly
    from netket.vqs.mc import get_local_kernel, get_local_kernel_arguments

    def explicit(logpsi, x, rows):
        x = np.asarray(x)
        keys, seg = [], []
        for b, r in enumerate(rows):
            for k, v in r.items():
                keys.append(k); seg.append((b, v))
        la = np.asarray(logpsi(jnp.asarray(x)))
        out = np.zeros(len(x), dtype=complex)
        if keys:
            lk = np.asarray(logpsi(jnp.asarray(np.array(keys), dtype=x.dtype)))
            for (b, v), l in zip(seg, lk):
                out[b] += v * np.exp(l - la[b])
        return out

    def model(rng, hi, L, kind):
        if kind == "table":
            return M.TableModel(L)
        if kind == "qgps":
            return qGPS(hi, int(rng.integers(1, 4)))
        if kind == "qgps-slow":
            return qGPS(hi, 2, apply_fast_update=False)
        if kind == "qgps-sym":
            return qGPS(hi, 2, syms=M.graph_syms(L))
        if kind == "slater":
            from GPSKet.models.slater import Slater
            return Slater(hi)
        raise ValueError(kind)

    def evaluate(vs, op, samples, chunk):
        smp, args = get_local_kernel_arguments(vs, op)
        k = get_local_kernel(vs, op, chunk) if chunk is not None else get_local_kernel(vs, op)
        return np.asarray(jax.jit(k, static_argnums=0)(vs._apply_fun, vs.variables, jnp.asarray(samples), args))

    def mkstate(rng, hi, ma, x):
        v = M.init(ma, rng, x)
        sa = nk.sampler.MetropolisLocal(hi, n_chains=2, dtype=np.uint8 if hi.local_size == 4 else float)
        return nk.vqs.MCState(sa, ma, variables=v, n_samples=4), v

    def hub(rng, h, L, n, kind, ne, chunk, B, dt):
        edges = [tuple(int(v) for v in rng.permutation(L)[:2]) for _ in range(ne)]
        if edges and rng.random() < 0.4: edges[-1] = (edges[-1][0], edges[-1][0])
        t = [float(v) for v in rng.normal(size=len(edges))]
        U = float(rng.normal() * 3)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        x = O.random_fermi(rng, L, n, B)
        h.inputs(L=L, n_elec=n, model=kind, edges=edges, t=t, U=U, chunk=chunk, x=x, dtype=dt)
        ma = model(rng, hi, L, kind)
        vs, v = mkstate(rng, hi, ma, x[:1])
        op = FermiHubbardOnTheFly(hi, edges, U=U, t=t)
        got = evaluate(vs, op, x.astype(dt), chunk)
        want = explicit(lambda y: ma.apply(v, y), x, [O.hubbard_row(c, edges, t, U) for c in x])
        h.close("local energies", got, want, 1e-7)

    cfg = [(4, (2, 2), "qgps", 5, None, 6, np.uint8), (4, (2, 1), "qgps", 4, 2, 6, np.float64), (5, (3, 2), "table", 6, 1, 4, np.uint8),
           (5, (1, 4), "qgps-slow", 6, 3, 6, np.uint8), (6, (3, 3), "qgps-sym", 6, None, 4, np.uint8), (5, (0, 3), "qgps", 4, None, 3, np.uint8),
           (4, (4, 0), "qgps", 4, None, 2, np.uint8), (4, (2, 2), "slater", 5, None, 4, np.uint8), (4, (2, 2), "qgps", 0, None, 3, np.uint8),
           (4, None, "qgps", 5, None, 8, np.uint8), (40, (20, 22), "qgps", 15, None, 3, np.uint8)]
    for i, c in enumerate(cfg):
        h.case("hubbard-%d" % i, hub, *c, repeat=2 if (h.thorough or i < 3) else 1)
    if h.thorough:
        for i in range(20):
            h.case("hubbard-extra-%d" % i, hub, 4 + i % 3, (1 + i % 3, 2), ["qgps", "table", "slater"][i % 3], 6, [None, 2, 3][i % 3], 6, np.uint8, optional=True)

    def heis(rng, h, kw, kind, chunk, B, sz):
        hi0 = get_J1_J2_Hamiltonian(on_the_fly_en=False, total_sz=sz, **kw)
        op = get_J1_J2_Hamiltonian(on_the_fly_en=True, total_sz=sz, **kw)
        h.ok("on-the-fly operator type", isinstance(op, HeisenbergOnTheFly))
        hi = op.hilbert; L = hi.size
        x = np.array(hi.random_state(jax.random.PRNGKey(int(rng.integers(1 << 30))), B))
        h.inputs(kw=kw, model=kind, chunk=chunk, x=x)
        ma = model(rng, hi, L, kind)
        vs, v = mkstate(rng, hi, ma, x[:1])
        # independent matrix elements: J/4 (sz sz +/- 2 flip) on edges
        J1, J2 = kw.get("J1", 1.0), kw.get("J2", 0.0)
        sr = kw.get("sign_rule", True)
        if kw.get("Ly") is None:
            g = nk.graph.Chain(kw["Lx"], max_neighbor_order=2 if J2 else 1, pbc=kw.get("pbc", True))
        else:
            g = nk.graph.Grid([kw["Lx"], kw["Ly"]], max_neighbor_order=2 if J2 else 1, pbc=kw.get("pbc", True))
        rows = []
        for c in x:
            d = {}
            c = [int(q) for q in c]
            for (i, j), col in zip(g.edges(), g.edge_colors):
                J = (J1, J2)[col] if J2 else J1
                s = (sr[col] if isinstance(sr, (list, tuple)) else (sr if col == 0 else False))
                O.add(d, tuple(c), J / 4 * c[i] * c[j])
                if c[i] != c[j]:
                    y = np.array(c); y[i], y[j] = c[j], c[i]
                    O.add(d, tuple(y), J / 4 * 2 * (-1 if s else 1))
            rows.append(d)
        want = explicit(lambda y: ma.apply(v, y), x, rows)
        got = evaluate(vs, op, x, chunk)
        h.close("local energies", got, want, 1e-7)
        r0, _ = O.rows_from_conn(hi0, x.astype(np.float64))
        for b in range(B):
            m = O.same_rows(r0[b], {tuple(int(q) for q in k): v_ for k, v_ in rows[b].items()})
            h.ok("explicit operator", m is None, m or "")
    S = [(dict(Lx=4), "qgps", None, 4, 0.0), (dict(Lx=6, J1=0.7), "table", 2, 4, 0.0), (dict(Lx=4, Ly=2, J1=-1.3, sign_rule=False), "qgps", 3, 6, None),
         (dict(Lx=6, J1=1.0, J2=0.4, sign_rule=[True, False]), "qgps", None, 4, 0.0), (dict(Lx=5, pbc=False), "qgps-slow", None, 4, None),
         (dict(Lx=6), "qgps-sym", None, 3, 0.0), (dict(Lx=4, Ly=4, J1=1.0, J2=0.5, sign_rule=[True, False], pbc=False), "qgps", 1, 2, 0.0),
         (dict(Lx=8, J1=1.0, J2=0.4), "qgps", None, 3, 0.0)]
    for i, s in enumerate(S):
        h.case("heisenberg-%d" % i, heis, *s)

    def mixed_local(rng, h):
        """on-the-fly Heisenberg built with other couplings and a sum of bonds through the vstate API"""
        op = get_J1_J2_Hamiltonian(6, J1=1.3, on_the_fly_en=True)
        ex = get_J1_J2_Hamiltonian(6, J1=1.3, on_the_fly_en=False)
        hi = op.hilbert
        ma = qGPS(hi, 2)
        x = np.array(hi.all_states())
        v = M.init(ma, rng, x[:1])
        sa = nk.sampler.ExactSampler(hi)
        vs = nk.vqs.MCState(sa, ma, variables=v, n_samples=32)
        vs.sample()
        a = np.asarray(vs.local_estimators(op)); 
        lam = {}
        s = np.asarray(vs.samples).reshape(-1, 6)
        d = np.asarray(ex.to_dense()); idx = {tuple(c): k for k, c in enumerate(x)}
        psi = np.exp(np.asarray(ma.apply(v, x)))
        want = np.array([(d @ psi)[idx[tuple(c)]] / psi[idx[tuple(c)]] for c in s])
        h.close("local_estimators", a.reshape(-1), want.reshape(-1), 1e-7)
        e = vs.expect(op)
        h.close("expect mean", np.asarray(e.mean), want.mean(), 1e-7)
        vs.chunk_size = 8
        e = vs.expect(op)
        h.close("expect mean chunked", np.asarray(e.mean), want.mean(), 1e-7)
    h.case("vstate-api", mixed_local)
