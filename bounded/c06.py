import numpy as np
from . import oracle as O
RULE = ("random determinant/backflow models (several determinants, real/complex, restricted/unrestricted/generalised, symmetries, spin projection, both "
        "update modes), random electron-move histories incl. opposite-spin double moves on shared sites, null moves and padding; oracle: evaluation from scratch")


def run(h):
    from . import models as M, fast as F
    import jax, jax.numpy as jnp, netket as nk
    import GPSKet
    from GPSKet.models import Slater, CPDBackflow, SlaterqGPS, Backflow
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from netket.utils import HashableArray

    def site_syms(L):
        perms = jnp.array([[(i + s) % L for i in range(L)] for s in range(L)]).T  # (L, T)
        return lambda y: jax.vmap(lambda tau: jnp.take(tau, y), in_axes=-1, out_axes=-1)(perms)

    def case(rng, h, mk, L, n, kind, B=3, steps=3):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        ma = mk(hi)
        x = O.random_fermi(rng, L, n, B)
        v = M.init(ma, rng, x, 0.3)
        h.inputs(model=type(ma).__name__, L=L, n_elec=n, moves=kind)
        def split(acc, new, old):
            def w(a, b):
                if a is None:
                    return a
                return jnp.where(jnp.asarray(acc).reshape((-1,) + (1,) * (a.ndim - 1)), a, b)
            return jax.tree_util.tree_map(w, new, old, is_leaf=lambda z: z is None)
        F.history(h, rng, ma, v, x, F.fermi_proposal(kind), steps, split=split)

    th = HashableArray(np.array([0.3, 1.1])); ch = HashableArray(np.array([0.7, 0.4]))
    T = [
        ("slater", lambda hi: Slater(hi), 5, (3, 2), "hop"),
        ("slater-ct", lambda hi: Slater(hi, constant_time_updates=False), 5, (2, 3), "hop"),
        ("slater-updown", lambda hi: Slater(hi), 4, (2, 2), "updown"),
        ("slater-updown-ct", lambda hi: Slater(hi, constant_time_updates=False), 4, (2, 2), "updown"),
        ("slater-twosame", lambda hi: Slater(hi, n_determinants=2), 6, (3, 3), "twosame"),
        ("slater-twosame-ct", lambda hi: Slater(hi, constant_time_updates=False), 6, (3, 3), "twosame"),
        ("slater-null", lambda hi: Slater(hi), 4, (2, 1), "null"),
        ("slater-pad", lambda hi: Slater(hi), 5, (2, 2), "pad"),
        ("slater-exchange", lambda hi: Slater(hi), 6, (3, 3), "spinflip"),
        ("slater-real", lambda hi: Slater(hi, dtype=jnp.float64), 5, (3, 2), "hop"),
        ("slater-spinsym", lambda hi: Slater(hi, spin_symmetry_by_structure=True), 4, (2, 2), "updown"),
        ("slater-sym", lambda hi: Slater(hi, n_determinants=2, symmetries=site_syms(5)), 5, (2, 2), "hop"),
        ("slater-sym-ct", lambda hi: Slater(hi, symmetries=site_syms(4), constant_time_updates=False), 4, (2, 2), "updown"),
        ("slater-s2", lambda hi: Slater(hi, S2_projection=(th, ch)), 5, (2, 2), "hop"),
        ("slater-s2-ct", lambda hi: Slater(hi, S2_projection=(th, ch), constant_time_updates=False), 5, (2, 2), "updown"),
        ("slater-ghf", lambda hi: Slater(hi, fixed_magnetization=False), 5, (2, 2), "hop"),
        ("slater-ghf-ud", lambda hi: Slater(hi, fixed_magnetization=False, constant_time_updates=False), 5, (2, 2), "updown"),
        ("slater-ghf-ex", lambda hi: Slater(hi, fixed_magnetization=False), 5, (2, 2), "spinflip"),
        ("slater-1el", lambda hi: Slater(hi), 4, (1, 1), "updown"),
        ("slaterqgps", lambda hi: SlaterqGPS(hi, M=2), 5, (2, 2), "hop"),
        ("slaterqgps-ud", lambda hi: SlaterqGPS(hi, M=1), 4, (2, 2), "updown"),
        ("cpd", lambda hi: CPDBackflow(hi, 2), 4, (2, 2), "hop"),
        ("cpd-unres", lambda hi: CPDBackflow(hi, 2, restricted=False), 4, (2, 1), "hop"),
        ("cpd-twosame", lambda hi: CPDBackflow(hi, 1), 5, (2, 2), "twosame"),
        ("cpd-ghf", lambda hi: CPDBackflow(hi, 2, fixed_magnetization=False), 4, (2, 1), "hop"),
        ("cpd-updown", lambda hi: CPDBackflow(hi, 2), 4, (2, 2), "updown"),
        ("cpd-null", lambda hi: CPDBackflow(hi, 2), 4, (2, 2), "null"),
    ]
    for t in T:
        h.case(t[0], case, *t[1:], repeat=2 if h.thorough else 1)

    import flax.linen as nn
    from GPSKet.models import qGPS

    class Corr(nn.Module):
        hilbert: object
        n_orb: int
        apply_fast_update: bool = True

        @nn.compact
        def __call__(self, x, cache_intermediates=False, update_sites=None):
            L = self.hilbert.size
            out = lambda a: a.reshape(a.shape[0], L, self.n_orb, -1).sum(-1)[..., None]
            return qGPS(self.hilbert, L * self.n_orb, dtype=jnp.complex128, out_transformation=out)(x, cache_intermediates=cache_intermediates, update_sites=update_sites)

    def bf(L, n, spinsym, fixed, orbs, rng):
        N = n[0] if (spinsym and fixed) else sum(n)
        R = L if fixed else 2 * L
        o = HashableArray(rng.normal(size=(R, N))) if orbs else None
        return o, N, R

    def bcase(rng, h, L, n, spinsym, orbs, kind):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        o, N, R = bf(L, n, spinsym, True, orbs, rng)
        ma = Backflow(hi, Corr(hi, N), o, spin_symmetry_by_structure=spinsym)
        x = O.random_fermi(rng, L, n, 3)
        v = ma.init(jax.random.PRNGKey(1), jnp.asarray(x))
        v = dict(v); v["params"] = M.perturb(v["params"], rng, 0.3)
        F.history(h, rng, ma, v, x, F.fermi_proposal(kind), 3)
    h.case("backflow", bcase, 4, (2, 2), True, True, "hop")
    h.case("backflow-unres", bcase, 4, (2, 1), False, True, "updown")
    h.case("backflow-noorb", bcase, 4, (2, 2), False, False, "hop")
