"""autoregressive models with a stub self: the methods and module functions of the repository run unchanged, only the
attributes that setup() would create are supplied (symbolic parameters)"""
from .util import *
from types import SimpleNamespace
import GPSKet.models.autoreg_qGPS as ar
import GPSKet.models.autoreg_qGPS_full as arf
import GPSKet.models.autoreg_plaquetteqGPS as arp
from GPSKet.models import ARqGPS, ARqGPSFull, ARPlaquetteqGPS


class Stub:
    def __init__(self, cls, **kw):
        self._cls = cls
        for k in ("machine_pow", "normalize"): setattr(self, k, cls.__dataclass_fields__[k].default)
        for k in ("count_spins", "renormalize_log_psi", "out_transformation", "apply_symmetries"):
            d = cls.__dataclass_fields__[k].default
            if isinstance(d, (staticmethod,)): d = d.__func__
            setattr(self, k, d)
        self.__dict__.update(kw)
        D = self.hilbert.local_size
        if D != 2: self.count_spins = lambda s: jnp.stack([s == k for k in range(D)], axis=-1).astype(jnp.int32)

    def has_variable(self, col, name): return self.__dict__.get("_has", {}).get((col, name), False)


def norm_lp(lp, D, p=2):
    """log psi_s - 1/p log sum_s' exp(p Re log psi_s')"""
    S = add(*[un("exp", const(p, "R") * real(lp(const(s)))) for s in range(D)])
    return lambda s: lp(s) - retag(const(Fraction(1, p), "R") * un("log", S), lp(s).sort)
