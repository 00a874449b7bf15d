import numpy as np
from . import oracle as O
RULE = ("random real integrals with the eightfold symmetry (dense and sparse), every configuration of small spaces, "
        "all fillings incl. empty/full; non-trivial: distinct compared row")


def run(h):
    from GPSKet.operator.hamiltonian import AbInitioHamiltonian, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse
    from GPSKet.hilbert import FermionicDiscreteHilbert

    def case(rng, h, L, n, sparse, cls):
        hm, e = O.rand_integrals(rng, L, sparse)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        op = cls(hi, hm, e)
        x = O.fermi_configs(L, n)
        if len(x) > 40:
            x = x[rng.permutation(len(x))[:40]]
        h.inputs(L=L, n_elec=n, sparse=sparse, cls=cls.__name__)
        rows, _ = O.rows_from_conn(op, x)
        for b in range(len(x)):
            h.inputs(config=x[b])
            m = O.same_rows(rows[b], O.second_quantised_row(x[b], hm, e))
            h.ok("row of H", m is None, m or str(x[b]))
        r1, _ = O.rows_from_conn(op, x[-1:].astype(float))
        h.ok("row independent of batch and dtype", O.same_rows(r1[0], rows[-1]) is None)
        xp, m = op.get_conn_padded(x[:3])
        for b in range(min(3, len(x))):
            d = {}
            for k in range(m.shape[-1]):
                O.add(d, tuple(int(v) for v in xp[b, k]), m[b, k])
            h.ok("get_conn_padded", O.same_rows(O.clean(d), rows[b]) is None)
        h.ok("hermitian flag", bool(op.is_hermitian))

    specs = [(2, (1, 1)), (3, (1, 1)), (3, (2, 1)), (4, (2, 2)), (4, (3, 1)), (4, (1, 3)), (3, (3, 0)), (3, (0, 2)), (4, (4, 2)), (4, (2, 4)),
             (2, (2, 2)), (3, (0, 0)), (5, (3, 2)), (5, (2, 0)), (5, (0, 3)), (5, (4, 3))]
    if h.thorough:
        specs += [(6, (3, 3)), (6, (4, 2)), (6, (2, 5))]
    for i, (L, n) in enumerate(specs):
        h.case("dense-%d" % i, case, L, n, 0.0, AbInitioHamiltonian)
        h.case("dense-sparse-%d" % i, case, L, n, 0.8, AbInitioHamiltonian, optional=True)
    h.case("otf-class", case, 4, (2, 2), 0.0, AbInitioHamiltonianOnTheFly)
    h.case("sparse-class", case, 4, (2, 2), 0.7, AbInitioHamiltonianSparse)
    h.case("sparse-class-b", case, 4, (1, 2), 0.9, AbInitioHamiltonianSparse)

    def molecule(rng, h):
        # Coulomb-like positive-definite integrals built from real orbitals
        L = 4
        B = rng.normal(size=(7, L, L)); B = B + B.transpose(0, 2, 1)
        e = np.einsum("kpq,krs->pqrs", B, B)
        hm = rng.normal(size=(L, L)); hm = hm + hm.T
        hi = FermionicDiscreteHilbert(L, n_elec=(2, 3))
        op = AbInitioHamiltonian(hi, hm, e)
        x = O.fermi_configs(L, (2, 3))
        rows, _ = O.rows_from_conn(op, x)
        idx = {tuple(int(v) for v in c): k for k, c in enumerate(x)}
        M = np.zeros((len(x),) * 2, dtype=complex)
        for k, r in enumerate(rows):
            m = O.same_rows(r, O.second_quantised_row(x[k], hm, e))
            h.ok("row of H", m is None, m or str(x[k]))
            for c, v in r.items():
                M[k, idx[c]] += v
        h.close("hermitian matrix", M, M.T)
    h.case("factorised", molecule, repeat=2)
