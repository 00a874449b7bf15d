"""Reference quantities for variational states, by dense linear algebra (plain jax differentiation + numpy)."""
import numpy as np


def logderivs(vs, samples, real_params=False):
    """(N, P) complex matrix d log psi / d theta.  Complex parameters are split into (real parts, imaginary parts)
    unless real_params is None ("holomorphic")."""
    import jax, jax.numpy as jnp
    from jax.flatten_util import ravel_pytree
    p, un = ravel_pytree(vs.parameters)
    ms = vs.model_state
    f = lambda q, x: vs._apply_fun({"params": un(q), **ms}, x)
    x = jnp.asarray(samples)
    if np.iscomplexobj(p):
        g = lambda r, i: f(r + 1j * i, x)
        a, b = jnp.real(p), jnp.imag(p)
        re = jax.jacrev(lambda r, i: jnp.real(g(r, i)), argnums=(0, 1))(a, b)
        im = jax.jacrev(lambda r, i: jnp.imag(g(r, i)), argnums=(0, 1))(a, b)
        if real_params is None:
            return np.asarray(re[0] + 1j * im[0])
        return np.concatenate([np.asarray(re[0] + 1j * im[0]), np.asarray(re[1] + 1j * im[1])], axis=1)
    re = jax.jacrev(lambda r: jnp.real(f(r, x)))(p)
    im = jax.jacrev(lambda r: jnp.imag(f(r, x)))(p)
    return np.asarray(re) + 1j * np.asarray(im)


def local_energies(vs, H, samples):
    """E_loc(x) = sum_x' <x|H|x'> psi(x')/psi(x) from the dense Hamiltonian matrix"""
    import jax.numpy as jnp
    hi = vs.hilbert
    A = np.asarray(hi.all_states())
    psi = np.exp(np.asarray(vs._apply_fun({"params": vs.parameters, **vs.model_state}, jnp.asarray(A)), complex))
    Hp = H @ psi
    idx = np.asarray(hi.states_to_numbers(np.asarray(samples).astype(A.dtype) if A.dtype != object else samples))
    return Hp[idx] / psi[idx]


def flat(tree):
    from jax.flatten_util import ravel_pytree
    return np.asarray(ravel_pytree(tree)[0])


def split(v):
    v = np.asarray(v)
    return np.concatenate([v.real, v.imag]) if np.iscomplexobj(v) else v


def weighted(O, w):
    O = np.asarray(O)
    m = (w[:, None] * O).sum(0)
    return O - m
