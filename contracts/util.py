"""helpers shared by the contracts"""
import numpy as np
import netket as nk
import jax, jax.numpy as jnp
from engine.spec import *
from engine.jx import Arr, opaque_row


class Hilb:
    """a Hilbert space as the models see it: size sites, local_size states, configurations given as local indices"""
    constrained = False

    def __init__(self, size, local_size=2, n_elec=None):
        self.size, self.local_size, self._n_elec = size, local_size, n_elec
        self.local_states = [float(k) for k in range(local_size)] if isinstance(local_size, int) else None
        self._local_states = self.local_states
        self.n_elec = n_elec; self._local_size = local_size
    def states_to_local_indices(self, x): return jnp.asarray(x).astype(jnp.int32) if not jnp.issubdtype(jnp.asarray(x).dtype, jnp.integer) else x
    def __hash__(self): return hash(("Hilb", str(self.size), str(self.local_size)))
    def __eq__(self, o): return isinstance(o, Hilb) and str(self.size) == str(o.size) and str(self.local_size) == str(o.local_size)


def Sum(n, f, sort=None):
    v = fresh("k"); return bind("sum", v, lift(n), f(v))


def Prod(n, f):
    v = fresh("k"); return bind("prod", v, lift(n), f(v))


def All(n, f):
    v = fresh("k"); return bind("all", v, lift(n), f(v))


def Any(n, f):
    v = fresh("k"); return bind("any", v, lift(n), f(v))


def in_range(v, n): return and_(le(const(0), v), lt(v, n))


def tb(x):
    """nested python data with at most ... """
    return x


import contextlib


@contextlib.contextmanager
def patched(module, **kw):
    """callees replaced by their contract while the caller is traced (or replayed)"""
    old = {k: getattr(module, k) for k in kw if hasattr(module, k)}
    for k, v in kw.items(): setattr(module, k, v)
    try: yield
    finally:
        for k in kw: setattr(module, k, old[k]) if k in old else delattr(module, k)


class NS:
    """an object as a method sees it: just the attributes given"""
    def __init__(self, **kw): self.__dict__.update(kw)
