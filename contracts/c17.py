"""C17: supervised learning: cached site products, feature matrix; imaginary time step"""
from .util import *
from engine.kspec import *
from GPSKet.supervised.supervised_qgps import QGPSLearning as Q
import GPSKet.supervised.imag_time_step as its

A = "GPSKet/supervised/supervised_qgps.py:QGPSLearning."
RNG = dict(C=(1, 3), M=(1, 3), L=(1, 4), S=(1, 2), D=(1, 3))


def data(c, ref=True):
    eps = c.input("epsilon", lambda d: (d.D, d.M, d.L), float)
    confs = c.input("confs", lambda d: (d.C, d.L, d.S), np.int64, 0, lambda d: d.D)
    r = c.input("ref_sites", lambda d: (d.M,), np.int64, 0, lambda d: d.L) if ref else None
    return eps, confs, r


def sprod(eps, confs, r, L):
    """product of the parameters of all sites but the reference site"""
    return lambda i, w, k: Prod(L, lambda j: ite(eq(j, r(w)), const(1), eps(confs(i, j, k), w, j)))


def compute():
    c = PCase("site products from scratch", [A + "compute_site_prod_fast"], "C, M, L, S, D", RNG)
    eps, confs, r = data(c)
    c.input("site_product", lambda d: (d.C, d.M, d.S), float)
    out, = c.run_py(Q.compute_site_prod_fast, ["epsilon", "ref_sites", "confs", "site_product"], lambda d, v: [Q.compute_site_prod_fast(*[v[n].copy() for n in ("epsilon", "ref_sites", "confs", "site_product")])])
    c.ensure("product over the sites other than the reference site", out, sprod(eps, confs, r, c.T("L")))
    return c


def update():
    c = PCase("site products updated to new reference sites", [A + "update_site_prod_fast"], "C, M, L, S, D", RNG)
    eps, confs, r = data(c)
    c.inputs["epsilon"] = c.inputs["epsilon"][:4] + (lambda d, rs, sh: rs.choice([0.0, 1e-15, -0.7, 1.3, 0.4], size=sh),)
    ro = c.input("ref_sites_old", lambda d: (d.M,), np.int64, 0, lambda d: d.L)
    c.derived("site_product", lambda d: (d.C, d.M, d.S), float, sprod(eps, confs, ro, c.T("L")))
    names = ("epsilon", "ref_sites", "ref_sites_old", "confs", "site_product")
    out, = c.run_py(Q.update_site_prod_fast, list(names), lambda d, v: [Q.update_site_prod_fast(*[v[n].copy() for n in names])])
    c.ensure("product over the sites other than the new reference site, vanishing parameters included", out, sprod(eps, confs, r, c.T("L")))
    return c


def features():
    c = PCase("feature matrix", [A + "kernel_mat_inner"], "C, M, L, S, D", RNG)
    eps, confs, r = data(c)
    L, D, M = c.T("L"), c.T("D"), c.T("M")
    SP = c.derived("site_prod", lambda d: (d.C, d.M, d.S), float, sprod(eps, confs, r, L))
    c.input("K", lambda d: (d.C, d.M * d.D, d.S), float)
    names = ("site_prod", "confs", "K", "ref_sites")
    out, = c.run_py(Q.kernel_mat_inner, list(names), lambda d, v: [Q.kernel_mat_inner(*[v[n].copy() for n in names])])
    feat = lambda i, w, s, k: ite(eq(confs(i, r(w), k), s), SP(i, w, k), const(0))
    c.ensure("feature of local state s and support dimension w is the site product where the reference site has that state", out, lambda i, f, k: feat(i, fdiv(f, D), mod(f, D), k))
    i, k, w = fresh("i"), fresh("k"), fresh("w")
    c.lemma("features contracted with the reference-site parameters are the site products of the model (per support dimension)",
            lambda: (Sum(D, lambda s: feat(i, w, s, k) * eps(s, w, r(w))), Prod(L, lambda l: eps(confs(i, l, k), w, l))),
            hyps=[in_range(i, c.T("C")), in_range(k, c.T("S")), in_range(w, M)])
    return c


def imag_time():
    c = Case("imaginary time step amplitude", ["GPSKet/supervised/imag_time_step.py:get_imag_time_step_vstate"], "b, L", dict(b=(1, 3), L=(1, 3)))
    x = c.input("x", lambda d: (d.b, d.L), float)
    lp = c.input("logpsi", lambda d: (d.b,), complex)
    en = c.input("eloc", lambda d: (d.b,), complex)
    tau = c.input("tau", lambda d: (), float, gen=lambda d, rs, sh: 0.01 + rs.rand())
    c.assume(lt(const(0), tau()))

    def run(d):
        def f(x, lp, en, tau):
            class V:
                chunk_size = None; model_state = {}
                _apply_fun = staticmethod(lambda pars, s: lp)
                def __deepcopy__(self, memo): return V()
            with patched(its, get_local_kernel_arguments=lambda v, h: (None, ()), get_local_kernel=lambda *a: (lambda lm, pars, s, args: en), wrap_afun=lambda f: f, freeze=lambda p: Fz(p)):
                v = its.get_imag_time_step_vstate(tau, "H", V())
                return jnp.exp(v._apply_fun(dict(v.model_state), x))
        return f

    class Fz(dict):
        def pop(self, k): return {q: z for q, z in self.items() if q != k}, self[k]
    out = c.run(run)
    c.ensure("amplitude is (1 - tau E_loc) times the original amplitude", out, lambda n: un("exp", lp(n)) * (1 - tau() * en(n)))
    return c


CASES = [compute, update, features, imag_time]
