import numpy as np
from . import oracle as O
RULE = ("random lattices/edge lists (any order, duplicates, self loops excluded), signed hoppings, U, and configurations "
        "of every filling; all configurations of small spaces enumerated; non-trivial: distinct compared row")


def run(h):
    import GPSKet
    from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.fermion import apply_hopping

    def cmp(h, op, x, edges, t, U):
        rows, flat = O.rows_from_conn(op, x)
        for b in range(len(x)):
            h.inputs(config=x[b])
            m = O.same_rows(rows[b], O.hubbard_row(x[b], edges, t, U))
            h.ok("row of H", m is None, m or str(x[b]))
        return rows

    def case(rng, h, L, n_elec, ne, tkind, all_cfg):
        edges = [tuple(int(v) for v in rng.permutation(L)[:2]) for _ in range(ne)] if L > 1 else []
        if edges and rng.random() < 0.4: edges[-1] = (edges[-1][0], edges[-1][0])
        if tkind == "scalar":
            t = float(rng.normal()); tt = [t] * len(edges)
        elif tkind == "default":
            t = 1.0; tt = [1.0] * len(edges)
        else:
            t = [float(v) for v in rng.normal(size=len(edges))]; tt = t
        U = float(rng.normal() * 3)
        hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
        h.inputs(L=L, n_elec=n_elec, edges=edges, t=t, U=U)
        kw = {} if tkind == "default" else {"t": t}
        op = FermiHubbard(hi, edges, U=U, **kw)
        x = O.fermi_configs(L, n_elec) if all_cfg else O.random_fermi(rng, L, n_elec, 6)
        rows = cmp(h, op, x, edges, tt, U)
        # other input dtypes and the netket-level API
        for dt in (np.float64, np.int8, np.int64):
            r2, _ = O.rows_from_conn(op, x.astype(dt))
            h.ok("row independent of input dtype", all(O.same_rows(a, b) is None for a, b in zip(r2, rows)))
        xp, m = op.get_conn(x[0])
        d = {}
        for k in range(len(m)):
            O.add(d, tuple(int(v) for v in xp[k]), m[k])
        h.ok("get_conn", O.same_rows(O.clean(d), rows[0]) is None)
        xp, m = op.get_conn_padded(x)
        for b in range(len(x)):
            d = {}
            for k in range(m.shape[-1]):
                O.add(d, tuple(int(v) for v in xp[b, k]), m[b, k])
            mm = O.same_rows(O.clean(d), rows[b])
            h.ok("get_conn_padded", mm is None, mm or "")
        h.ok("hermitian flag", op.is_hermitian is True or op.is_hermitian == True)
        if all_cfg:
            idx = {tuple(int(v) for v in c): k for k, c in enumerate(x)}
            M = np.zeros((len(x), len(x)), dtype=complex)
            for k, r in enumerate(rows):
                for c, v in r.items():
                    h.ok("stays in space", c in idx, str(c), nontrivial=False)
                    M[k, idx[c]] += v
            h.close("hermitian matrix", M, M.conj().T, 1e-10)

    for i, (L, n, ne, tk) in enumerate([(2, (1, 1), 1, "scalar"), (3, (2, 1), 3, "list"), (4, (2, 2), 5, "list"), (4, None, 2, "scalar"),
                                        (3, (0, 2), 2, "list"), (3, (3, 3), 3, "list"), (4, (3, 1), 4, "default"), (4, (0, 0), 3, "list")]):
        h.case("enumerated-%d" % i, case, L, n, ne, tk, True)
    for i, (L, n, ne, tk) in enumerate([(9, (5, 4), 12, "list"), (13, (3, 10), 20, "scalar"), (70, (33, 20), 60, "list"), (300, (140, 160), 40, "list"),
                                        (33, None, 30, "list"), (1, (1, 0), 0, "scalar")]):
        h.case("random-%d" % i, case, L, n, ne, tk, False, repeat=3 if h.thorough else 1)

    def noedges(rng, h):
        hi = FermionicDiscreteHilbert(4, n_elec=(2, 2))
        op = FermiHubbard(hi, [], U=2.5)
        x = O.random_fermi(rng, 4, (2, 2), 3)
        h.inputs(edges=[], x=x)
        cmp(h, op, x, [], [], 2.5)
    h.case("no-edges", noedges)

    def array_edges(rng, h):
        L = 6
        e = np.array([[i, (i + 1) % L] for i in range(L)])
        t = rng.normal(size=L)
        hi = FermionicDiscreteHilbert(L, n_elec=(3, 2))
        x = O.random_fermi(rng, L, (3, 2), 8)
        h.inputs(edges=e, t=t, x=x)
        cmp(h, FermiHubbard(hi, e, U=-1.0, t=list(t)), x, e.tolist(), t, -1.0)
        cmp(h, FermiHubbardOnTheFly(hi, e, U=-1.0, t=list(t)), x, e.tolist(), t, -1.0)
        # batch independence
        r1, _ = O.rows_from_conn(FermiHubbard(hi, e, U=-1.0, t=list(t)), x[3:4])
        r2, _ = O.rows_from_conn(FermiHubbard(hi, e, U=-1.0, t=list(t)), x)
        h.ok("row independent of batch", O.same_rows(r1[0], r2[3]) is None)
    h.case("array-edges", array_edges, repeat=3)

    def hopping(rng, h, L):
        for _ in range(60):
            x = rng.integers(0, 4, L).astype(np.uint8)
            i, j = int(rng.integers(L)), int(rng.integers(L))
            s = int(rng.integers(2)); bit = 1 << s
            cc = np.cumsum((x & bit) > 0)
            for cum in (cc, None):
                y = x.copy()
                h.inputs(x=x, annihilate=i, create=j, spin=s, cumulative=cum is not None)
                m = apply_hopping(i, j, y, bit, cummulative_count=cum) if cum is not None else apply_hopping(i, j, y, bit)
                sg, xp = O.hop(x, j, i, s)
                if i == j:
                    sg, xp = (1, tuple(int(v) for v in x)) if x[i] & bit else (0, None)
                h.ok("hopping sign", int(m) == sg, "got %s want %s" % (m, sg))
                h.ok("hopping result", tuple(int(v) for v in y) == (xp if sg else tuple(int(v) for v in x)), "got %s" % y)
    h.case("apply-hopping", hopping, 7, repeat=2)
    h.case("apply-hopping-long", hopping, 40)
