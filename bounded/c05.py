import numpy as np
from . import oracle as O
RULE = ("random models of the product-state family (support dimension, local dimension, symmetries, plaquettes, dtype), random update histories "
        "with 1-4 updated sites per step, null updates, repeated sites, per-sample acceptance; oracle: evaluation from scratch")


def run(h):
    from . import models as M, fast as F
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import qGPS, PlaquetteqGPS, ARqGPSFull, ARqGPSModPhaseFull, get_sym_transformation_spin
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from netket.utils import HashableArray

    spin = lambda L, sz=None: nk.hilbert.Spin(0.5, N=L, total_sz=sz)

    def syms(L, am, sf):
        return get_sym_transformation_spin(nk.graph.Chain(L, pbc=True), automorphisms=am, spin_flip=sf)

    def x0(rng, hi, B, L, fermi):
        if fermi:
            return rng.integers(0, 4, (B, L)).astype(np.uint8)
        return np.array(hi.random_state(jax.random.PRNGKey(int(rng.integers(1 << 30))), B, dtype=float))

    def case(rng, h, mk, L, hi, prop, fermi=False, B=4, steps=4, real=False):
        ma = mk(rng, hi, L)
        x = x0(rng, hi, B, L, fermi)
        v = M.init(ma, rng, x, 0.15)
        h.inputs(model=type(ma).__name__, L=L, B=B)
        F.history(h, rng, ma, v, x, prop, steps)

    S = lambda **k: F.spin_proposal(**k)
    f4 = (0, 1, 2, 3)
    T = [
        ("qgps", lambda r, hi, L: qGPS(hi, 3), 6, spin(6), S(K=2), False),
        ("qgps-1site", lambda r, hi, L: qGPS(hi, 1), 5, spin(5), S(K=1), False),
        ("qgps-dup", lambda r, hi, L: qGPS(hi, 2), 6, spin(6), S(K=4, dup=True), False),
        ("qgps-fermi", lambda r, hi, L: qGPS(hi, 2), 5, FermionicDiscreteHilbert(5), S(K=3, vals=f4), True),
        ("qgps-fermi-dup", lambda r, hi, L: qGPS(hi, 2), 5, FermionicDiscreteHilbert(5), S(K=4, vals=f4, dup=True), True),
        ("qgps-real", lambda r, hi, L: qGPS(hi, 2, dtype=jnp.float64), 6, spin(6), S(K=2), False),
        ("qgps-aut", lambda r, hi, L: qGPS(hi, 2, syms=syms(L, True, False)), 6, spin(6), S(K=2), False),
        ("qgps-aut-flip", lambda r, hi, L: qGPS(hi, 2, syms=syms(L, True, True)), 5, spin(5), S(K=3), False),
        ("qgps-flip", lambda r, hi, L: qGPS(hi, 2, syms=syms(L, False, True)), 5, spin(5), S(K=2), False),
        ("qgps-nosym", lambda r, hi, L: qGPS(hi, 2, syms=syms(L, False, False)), 5, spin(5), S(K=2, dup=True), False),
        ("qgps-logout", lambda r, hi, L: qGPS(hi, 2, out_transformation=lambda a: jnp.log(jnp.sum(a, axis=(-2, -1)) + 0j)), 6, spin(6), S(K=2), False),
    ]

    def plaq(r, L, k, n):
        return HashableArray(np.array([r.permutation(L)[:k] for _ in range(n)]))
    T += [
        ("plaq", lambda r, hi, L: PlaquetteqGPS(hi, 2, plaq(r, L, 3, 4), apply_fast_update=True), 6, spin(6), S(K=2), False),
        ("plaq-full", lambda r, hi, L: PlaquetteqGPS(hi, 2, plaq(r, L, L, 2), apply_fast_update=True), 5, spin(5), S(K=3), False),
        ("plaq-sym", lambda r, hi, L: PlaquetteqGPS(hi, 2, plaq(r, L, 3, 3), apply_fast_update=True, syms=syms(L, True, True)), 5, spin(5), S(K=2), False),
        ("plaq-fermi", lambda r, hi, L: PlaquetteqGPS(hi, 2, plaq(r, L, 2, 5), apply_fast_update=True), 5, FermionicDiscreteHilbert(5), S(K=2, vals=f4), True),
        ("plaq-dup", lambda r, hi, L: PlaquetteqGPS(hi, 2, plaq(r, L, 3, 4), apply_fast_update=True), 6, spin(6), S(K=4, dup=True), False),
    ]
    for n, mk, L, hi, p, fe in T:
        h.case(n, case, mk, L, hi, p, fe, repeat=2 if (h.thorough or n == "qgps") else 1)

    def arcase(rng, h, mk, L, hi, prop, B=3, steps=3, fermi=False):
        ma = mk(rng, hi, L)
        x = x0(rng, hi, B, L, fermi)
        v = M.init(ma, rng, x, 0.2)
        v = {k: w for k, w in v.items() if k != "intermediates_cache"}
        h.inputs(model="ARqGPSFull", L=L, B=B)
        base = dict(v)
        F.history(h, rng, ma, base, x, prop, steps)

    A = [
        ("ar-int", lambda r, hi, L: ARqGPSFull(hi, 2), 6, spin(6, 0), F.exchange_proposal(1)),
        ("ar-int-2", lambda r, hi, L: ARqGPSFull(hi, 1), 6, spin(6, 0), F.exchange_proposal(2)),
        ("ar-int-free", lambda r, hi, L: ARqGPSFull(hi, 2), 5, spin(5), S(K=2)),
        ("ar-int-dup", lambda r, hi, L: ARqGPSFull(hi, 2), 6, spin(6), S(K=3, dup=True)),
        ("ar-list", lambda r, hi, L: ARqGPSFull(hi, HashableArray(np.array([1, 2, 1, 3, 2, 2]))), 6, spin(6, 0), F.exchange_proposal(1)),
        ("ar-list-free", lambda r, hi, L: ARqGPSFull(hi, HashableArray(np.array([1, 2, 1, 3]))), 4, spin(4), S(K=2)),
        ("ar-modphase", lambda r, hi, L: ARqGPSModPhaseFull(hi, 2, dtype=jnp.float64), 6, spin(6, 0), F.exchange_proposal(1)),
        ("ar-unnorm", lambda r, hi, L: ARqGPSFull(hi, 2, normalize=False), 5, spin(5), S(K=2)),
        ("ar-sym", lambda r, hi, L: ARqGPSFull(hi, 2, apply_symmetries=spin_syms(L)), 4, spin(4, 0), F.exchange_proposal(1)),
    ]

    def spin_syms(L):
        # symmetries acting on +-1 spins: translations and global flip
        perms = jnp.array([[(i + s) % L for i in range(L)] for s in range(L)]).T  # (L, T)
        inv = jnp.array([[(i - s) % L for i in range(L)] for s in range(L)]).T

        def fwd(x):
            o = jnp.take(x, perms, axis=-1)
            return jnp.concatenate((o, -o), axis=-1)

        def bwd(occ, sites):
            s = inv[sites]
            o = jnp.tile(jnp.expand_dims(occ, -1), L)
            return jnp.concatenate((o, -o), -1), jnp.concatenate((s, s), -1)
        return (fwd, bwd)
    for n, mk, L, hi, p in A:
        h.case(n, arcase, mk, L, hi, p, repeat=2 if h.thorough else 1)

    def long_hist(rng, h):
        L = 8
        hi = spin(L)
        ma = qGPS(hi, 2, syms=syms(L, False, True))
        x = x0(rng, hi, 3, L, False)
        v = M.init(ma, rng, x, 0.15)
        F.history(h, rng, ma, v, x, S(K=2), 60 if h.thorough else 20)
    h.case("long-history", long_hist)
