"""Independent oracles in plain numpy (written from the definitions, not from /repo)."""
import itertools
import numpy as np


def fermi_configs(L, n_elec=None):
    out = []
    for c in itertools.product(range(4), repeat=L):
        c = np.array(c, dtype=np.uint8)
        if n_elec is None or (np.sum((c & 1) > 0) == n_elec[0] and np.sum((c & 2) > 0) == n_elec[1]):
            out.append(c)
    return np.array(out, dtype=np.uint8).reshape(-1, L)


def random_fermi(rng, L, n_elec=None, B=1):
    out = np.zeros((B, L), dtype=np.uint8)
    for b in range(B):
        if n_elec is None:
            out[b] = rng.integers(0, 4, L)
        else:
            out[b][rng.permutation(L)[: n_elec[0]]] += 1
            out[b][rng.permutation(L)[: n_elec[1]]] += 2
    return out


def hop(x, create, annihilate, spin):
    """c†_{create,spin} c_{annihilate,spin} |x>, same-spin Jordan-Wigner order: (sign, x') or (0, None)"""
    x = [int(v) for v in x]
    bit = 1 if spin == 0 else 2
    occ = [1 if v & bit else 0 for v in x]
    if not occ[annihilate]:
        return 0, None
    s = (-1) ** sum(occ[:annihilate])
    occ[annihilate] = 0
    if occ[create]:
        return 0, None
    s *= (-1) ** sum(occ[:create])
    occ[create] = 1
    return s, tuple((v & ~bit) | (bit if o else 0) for v, o in zip(x, occ))


def add(d, k, v):
    if v != 0:
        d[k] = d.get(k, 0.0) + v


def clean(d, tol=1e-13):
    return {k: v for k, v in d.items() if abs(v) > tol}


def hubbard_row(x, edges, t, U):
    """<x|H|x'> for all x' (H real symmetric) as a dict"""
    d = {}
    x = tuple(int(v) for v in x)
    add(d, x, U * sum(1 for v in x if v == 3))
    for (i, j), te in zip(edges, t):
        for s in (0, 1):
            for a, b in ((i, j), (j, i)):
                sg, xp = hop(x, b, a, s)
                if sg:
                    add(d, xp, -te * sg)
    return clean(d)


def second_quantised_row(x, h, eri):
    """H = Σ h_pq p†q + 1/2 Σ (pq|rs) p†_σ r†_τ s_τ q_σ  applied to |x>; row of the (hermitian) matrix"""
    L = len(x)
    d = {}
    x = tuple(int(v) for v in x)
    for p in range(L):
        for q in range(L):
            for s in (0, 1):
                sg, xp = hop(x, p, q, s)
                if sg and h[p, q] != 0:
                    add(d, xp, h[p, q] * sg)
    # p† r† s q = E_pq E_rs - δ_qr E_ps
    for s1 in (0, 1):
        for s2 in (0, 1):
            for r in range(L):
                for s in range(L):
                    sg1, x1 = hop(x, r, s, s2)
                    if not sg1:
                        continue
                    for p in range(L):
                        for q in range(L):
                            v = eri[p, q, r, s]
                            if v == 0:
                                continue
                            sg2, x2 = hop(x1, p, q, s1)
                            if sg2:
                                add(d, x2, 0.5 * v * sg1 * sg2)
        for p in range(L):
            for s in range(L):
                w = sum(eri[p, q, q, s] for q in range(L))
                sg, xp = hop(x, p, s, s1)
                if sg and w != 0:
                    add(d, xp, -0.5 * w * sg)
    return clean(d)


def rand_integrals(rng, L, sparse=0.0, symmetric=True):
    h = rng.normal(size=(L, L)); h = h + h.T
    e = rng.normal(size=(L,) * 4)
    if sparse:
        e = e * (rng.random((L,) * 4) > sparse)
        m = rng.random((L, L)) > sparse
        h = h * (m | m.T)
    if symmetric:
        e = e + e.transpose(1, 0, 2, 3); e = e + e.transpose(0, 1, 3, 2); e = e + e.transpose(2, 3, 0, 1)
    return h, e


def rows_from_conn(op, x, n_conn_check=True):
    """dict rows {x': Σ mel} via op.get_conn_flattened"""
    x = np.asarray(x)
    sections = np.full(x.shape[0], -7, dtype=np.int64)
    xp, mels = op.get_conn_flattened(x, sections)
    return rows_from_flat(x, xp, mels, sections), (xp, mels, sections)


def rows_from_flat(x, xp, mels, sections):
    rows = []
    lo = 0
    xp = np.asarray(xp); mels = np.asarray(mels)
    for b in range(x.shape[0]):
        hi = int(sections[b])
        d = {}
        if hi < lo or hi > len(mels):
            raise AssertionError("sections out of range: %s with %d connected" % (sections, len(mels)))
        for k in range(lo, hi):
            add(d, tuple(int(v) for v in xp[k]), complex(mels[k]))
        rows.append(clean(d))
        lo = hi
    if x.shape[0] and lo != len(mels):
        raise AssertionError("sections cover %d of %d returned connected elements" % (lo, len(mels)))
    return rows


def same_rows(a, b, tol=1e-9):
    for k in set(a) | set(b):
        if abs(a.get(k, 0) - b.get(k, 0)) > tol * (1 + abs(b.get(k, 0))):
            return "connected %s: got %s want %s" % (k, a.get(k, 0), b.get(k, 0))
    return None
