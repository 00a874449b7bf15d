"""Small models of /repo used as wavefunctions by several bounded checks."""
import os
os.environ.setdefault("NETKET_SPIN_ORDERING_WARNING", "0")
import numpy as np
import jax, jax.numpy as jnp
import flax.linen as nn
import netket as nk


class TableModel(nn.Module):
    """log-amplitude read from a hash of the configuration: no structure at all, no fast update."""
    L: int
    apply_fast_update: bool = False

    @nn.compact
    def __call__(self, x):
        w = self.param("w", nn.initializers.normal(0.7), (self.L, 4), float)
        v = self.param("v", nn.initializers.normal(0.9), (self.L, self.L), float)
        xs = x.astype(float)
        q = jnp.einsum("bi,ij,bj->b", jnp.sin(1.7 * xs + 0.3), v, jnp.cos(2.3 * xs + 0.1))
        r = jnp.sum(w[None] * jnp.stack([xs, xs ** 2, xs ** 3, jnp.ones_like(xs)], -1), axis=(-1, -2))
        return 0.3 * q + 0.1j * r + 0.05 * r


def perturb(params, rng, scale=0.4):
    def f(p):
        z = rng.normal(size=p.shape) * scale
        if np.iscomplexobj(p):
            z = z + 1j * rng.normal(size=p.shape) * scale
        return jnp.asarray(p + z, dtype=p.dtype)
    return jax.tree_util.tree_map(f, params)


def init(model, rng, x, scale=0.4):
    v = model.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(x))
    v = dict(v)
    v["params"] = perturb(v["params"], rng, scale)
    return {k: v[k] for k in v if k == "params" or k not in ("cache", "intermediates_cache")} if "cache" not in v else v


def graph_syms(L):
    import GPSKet
    from GPSKet.models import get_sym_transformation_spin
    return get_sym_transformation_spin(nk.graph.Chain(L, pbc=True), automorphisms=True, spin_flip=False)
