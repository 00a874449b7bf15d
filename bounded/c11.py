import numpy as np
RULE = ("random qGPS / plaquette qGPS / segmented GPS models over spin and fermionic spaces, all symmetry options, exhaustive or random configurations, "
        "long chains; oracle: explicit loops over symmetries, support indices and sites; invariance under every symmetry; initialiser contracts")


def run(h):
    from . import models as M, oracle as O
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS, PlaquetteqGPS, SegGPS, get_sym_transformation_spin
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.nn import initializers as I
    from netket.utils import HashableArray

    spin = lambda L, sz=None: nk.hilbert.Spin(0.5, N=L, total_sz=sz)
    key = lambda r: jax.random.PRNGKey(int(r.integers(1 << 30)))

    def configs(rng, hi, B):
        if isinstance(hi, FermionicDiscreteHilbert):
            return O.random_fermi(rng, hi.size, hi._n_elec, B)
        return np.array(hi.random_state(key(rng), B, dtype=float))

    def autos(g):
        return np.asarray(g.automorphisms().to_array())  # (T, L)

    def images(idx, g, am, sf, flip=lambda v: 1 - v):
        out = [idx[p] for p in autos(g)] if am else [idx]
        return out + [flip(o) for o in out] if sf else out

    def local(hi, x):
        # spec of the local index: position of the local state in hilbert.local_states
        ls = [float(v) for v in hi.local_states]
        return np.array([[ls.index(float(v)) for v in row] for row in np.asarray(x)])

    def q_case(rng, h, mk, hi, g=None, am=False, sf=False, dtype=jnp.complex128, B=6, scale=0.3):
        L = hi.size
        ma = mk(hi)
        x = configs(rng, hi, B)
        v = M.init(ma, rng, x, scale)
        e = np.asarray(v["params"]["epsilon"])
        h.ok("parameter shape and dtype", e.shape == (hi.local_size, ma.M, L) and e.dtype == np.dtype(dtype), (e.shape, str(e.dtype)))
        idx = local(hi, x)
        want = np.zeros(B, complex)
        for b in range(B):
            for im in images(idx[b], g, am, sf):
                for m in range(ma.M):
                    p = 1.0
                    for i in range(L):
                        p = p * e[im[i], m, i]
                    want[b] += p
        h.inputs(L=L, M=ma.M, aut=am, flip=sf)
        h.close("log-amplitude", ma.apply(v, jnp.asarray(x)), want, 1e-10)
        if am or sf:
            ls = np.array([float(t) for t in hi.local_states])
            t = int(rng.integers(len(autos(g)))) if am else 0
            for b in range(2):
                ims = images(idx[b], g, am, sf)
                y = np.array([ls[i] for i in ims])
                h.close("invariance under every symmetry operation", ma.apply(v, jnp.asarray(y)), np.full(len(ims), want[b]), 1e-10)

    chain = lambda L: nk.graph.Chain(L, pbc=True)
    sq = nk.graph.Grid([2, 3], pbc=False)
    gs = lambda g, am, sf: get_sym_transformation_spin(g, automorphisms=am, spin_flip=sf)
    h.case("qgps", q_case, lambda hi: qGPS(hi, 3), spin(6))
    h.case("qgps-L1", q_case, lambda hi: qGPS(hi, 2), spin(1))
    h.case("qgps-fermi", q_case, lambda hi: qGPS(hi, 2), FermionicDiscreteHilbert(5, n_elec=(2, 3)))
    h.case("qgps-real", q_case, lambda hi: qGPS(hi, 2, dtype=jnp.float64), spin(6), None, False, False, jnp.float64)
    h.case("qgps-pydtype", q_case, lambda hi: qGPS(hi, 2, dtype=complex), spin(4), None, False, False, complex)
    h.case("qgps-spin1", q_case, lambda hi: qGPS(hi, 2), nk.hilbert.Spin(1, N=4))
    for nm, g in (("chain4", chain(4)), ("chain5", chain(5)), ("ladder", sq), ("open", nk.graph.Chain(4, pbc=False)),
                  ("complete", nk.graph.Graph(edges=[(0, 1), (1, 2), (2, 0), (2, 3)]))):
        for am, sf in ((True, False), (True, True)):
            h.case("qgps-%s-%d%d" % (nm, am, sf), q_case, lambda hi, g=g, am=am, sf=sf: qGPS(hi, 2, syms=gs(g, am, sf)), spin(g.n_nodes), g, am, sf)
    h.case("qgps-flip", q_case, lambda hi: qGPS(hi, 2, syms=gs(chain(5), False, True)), spin(5), chain(5), False, True)
    h.case("qgps-nosym", q_case, lambda hi: qGPS(hi, 2, syms=gs(chain(5), False, False)), spin(5), chain(5), False, False)
    h.case("qgps-callable-sym", q_case, lambda hi: qGPS(hi, 2, syms=gs(chain(4), True, True)[0], apply_fast_update=False), spin(4), chain(4), True, True)

    def inv_case(rng, h, g, am, sf):
        """second function of the symmetry pair: for each symmetry t and changed site s, the image of x under t has value occ at the returned site"""
        L = g.n_nodes
        f, b = gs(g, am, sf)
        x = rng.integers(0, 2, L)
        sites = rng.integers(0, L, 3)
        occ, st = b(jnp.asarray(x[sites]), jnp.asarray(sites))
        im = np.asarray(f(jnp.asarray(x)))  # (L, T)
        T = im.shape[-1]
        h.ok("shapes", occ.shape == (3, T) and st.shape == (3, T), (occ.shape, st.shape))
        want = np.array([[im[st[k, t], t] for t in range(T)] for k in range(3)])
        h.close("values at transformed sites", occ, want)
        y = x.copy(); s0 = sites[0]; y[s0] = 1 - y[s0]
        im2 = np.asarray(f(jnp.asarray(y)))
        for t in range(T):
            d = [i for i in range(L) if im2[i, t] != im[i, t]]
            h.ok("only the transformed site changes", d == [int(st[0, t])], d)
    for nm, g in (("chain", chain(5)), ("ladder", sq)):
        for am in (True, False):
            for sf in (True, False):
                h.case("syminv-%s-%d%d" % (nm, am, sf), inv_case, g, am, sf)

    def p_case(rng, h, hi, K, P, Mm, g=None, am=False, sf=False, dtype=jnp.complex128, B=5):
        L = hi.size
        pl = np.array([rng.permutation(L)[:K] for _ in range(P)])
        kw = dict(syms=gs(g, am, sf)) if g is not None else {}
        ma = PlaquetteqGPS(hi, Mm, HashableArray(pl), dtype=dtype, **kw)
        x = configs(rng, hi, B)
        v = M.init(ma, rng, x, 0.3)
        e = np.asarray(v["params"]["epsilon"])
        h.ok("parameter shape", e.shape == (hi.local_size, P, Mm, K), e.shape)
        idx = local(hi, x)
        want = np.zeros(B, complex)
        for b in range(B):
            for im in images(idx[b], g, am, sf) if g is not None else [idx[b]]:
                for p in range(P):
                    for m in range(Mm):
                        w = 1.0
                        for k in range(K):
                            w = w * e[im[pl[p, k]], p, m, k]
                        want[b] += w
        h.inputs(L=L, plaquettes=pl, M=Mm)
        h.close("log-amplitude", ma.apply(v, jnp.asarray(x)), want, 1e-10)
        if g is not None:
            ls = np.array([float(t) for t in hi.local_states])
            ims = images(idx[0], g, am, sf)
            h.close("invariance", ma.apply(v, jnp.asarray([ls[i] for i in ims])), np.full(len(ims), want[0]), 1e-10)
    h.case("plaq", p_case, spin(6), 3, 4, 2, repeat=2)
    h.case("plaq-sym", p_case, spin(5), 3, 2, 2, chain(5), True, True)
    h.case("plaq-sym2", p_case, spin(6), 4, 3, 1, sq, True, False)
    h.case("plaq-fermi", p_case, FermionicDiscreteHilbert(5, n_elec=(2, 2)), 2, 5, 2)
    h.case("plaq-real", p_case, spin(5), 5, 2, 2, None, False, False, jnp.float64)

    def s_case(rng, h, hi, Mm=2, B=4, scale=0.3):
        ma = SegGPS(hi, Mm)
        L = hi.size
        x = configs(rng, hi, B)
        v = M.init(ma, rng, x, scale)
        e = np.asarray(v["params"]["epsilon"])
        fermi = isinstance(hi, FermionicDiscreteHilbert)
        idx = local(hi, x)
        want = np.zeros(B, complex)
        for b in range(B):
            for m in range(Mm):
                u = d = 0
                w = 1.0
                for i in range(L):
                    w = w * e[idx[b, i], m, i, u, d]
                    if fermi:
                        u += int(idx[b, i]) & 1
                        d += (int(idx[b, i]) >> 1) & 1
                    else:
                        u += int(float(x[b, i]) > 0)
                        d += int(float(x[b, i]) < 0)
                want[b] += w
        h.inputs(L=L)
        h.close("log-amplitude", ma.apply(v, jnp.asarray(x)), want, 1e-9)
    for i, n in enumerate(((2, 2), (3, 1), (0, 2), (4, 4))):
        h.case("seg-fermi-%d" % i, s_case, FermionicDiscreteHilbert(4, n_elec=n))
    for i, (L, sz) in enumerate(((4, 0), (4, 1), (4, -2), (5, 0.5), (5, -1.5), (3, 1.5))):
        h.case("seg-spin-%d" % i, s_case, spin(L, sz))

    def long_count(rng, h):
        from GPSKet.models.segmented_qGPS import count_fermions, count_spins
        L = 700
        x = O.random_fermi(rng, L, (600, 300), 2)
        hi = FermionicDiscreteHilbert(L, n_elec=(600, 300))
        c = np.asarray(count_fermions(hi.states_to_local_indices(jnp.asarray(x))))
        want = np.stack([np.concatenate([[0], np.cumsum((r.astype(int) >> s) & 1)[:-1]]) for r in x for s in (0, 1)]).reshape(2, 2, L)
        h.close("electron counts before each site on a long chain", c, want)
        s = (rng.random((2, L)) < 0.8).astype(np.int32)
        want = np.stack([np.concatenate([[0], np.cumsum(r == v)[:-1]]) for r in s for v in (1, 0)]).reshape(2, 2, L)
        h.close("spin counts before each site on a long chain", count_spins(jnp.asarray(s)), want)
    h.case("seg-long", long_count)

    def init_case(rng, h, dt):
        sg = float(rng.uniform(0.05, 0.5))
        k = key(rng)
        cplx = np.issubdtype(np.dtype(dt), np.complexfloating)
        a = np.asarray(I.normal(sigma=sg, dtype=dt)(k, (40, 50)))
        b = np.asarray(I.normal(sigma=sg, dtype=dt)(k, (40, 50), dt))
        h.inputs(dtype=str(np.dtype(dt)), sigma=sg)
        h.ok("requested dtype", a.dtype == np.dtype(dt) == b.dtype, str(a.dtype))
        h.ok("requested shape", a.shape == (40, 50), a.shape)
        d = np.angle(a) if cplx else a - 1.0
        if cplx:
            h.close("unit modulus", np.abs(a), np.ones(a.shape), 1e-5)
        n = d.size
        h.ok("mean of the deviation", abs(d.mean()) < 6 * sg / np.sqrt(n), d.mean())
        h.ok("width of the deviation", abs(d.std() / sg - 1) < 6 / np.sqrt(2 * n), d.std())
    for dt in (jnp.complex128, jnp.float64, jnp.float32, jnp.complex64, complex, float, np.complex128):
        h.case("init-normal-%s" % getattr(dt, "__name__", dt), init_case, dt)

    def orth_case(rng, h, shape, dt, ax, scale):
        W = np.asarray(I.orthogonal(scale=scale, column_axis=ax, dtype=dt)(key(rng), shape))
        h.inputs(shape=shape, dtype=str(np.dtype(dt)))
        h.ok("shape and dtype", W.shape == tuple(shape) and W.dtype == np.dtype(dt), (W.shape, str(W.dtype)))
        for m in range(shape[0]):
            A = W[m]
            G = A.conj().T @ A if A.shape[0] >= A.shape[1] else A @ A.conj().T
            h.close("orthonormal columns", G, scale ** 2 * np.eye(G.shape[0]), 1e-5)
        if shape[0] > 1:
            h.ok("different matrices", not np.allclose(W[0], W[1]))
    h.case("orth", orth_case, (3, 6, 4), jnp.float64, -1, 1.0)
    h.case("orth-c", orth_case, (2, 5, 5), jnp.complex128, -1, 0.7)
    h.case("orth-wide", orth_case, (2, 3, 6), jnp.float64, -1, 1.0)

    def orth_bad(rng, h):
        for s in ((3, 3), (2, 3, 3, 3)):
            try:
                I.orthogonal()(key(rng), s)
            except ValueError:
                continue
            h.ok("orthogonal initializer rejects shapes that are not 3D", False, s)
        h.ok("orthogonal initializer rejects shapes that are not 3D", True)
    h.case("orth-bad", orth_bad)
