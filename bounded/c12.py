import numpy as np, itertools
RULE = ("random determinant, backflow, Jastrow, antisymmetric-GPS and Pfaffian models (several determinants, coefficients, symmetries, spin rotations, restricted / "
        "unrestricted / generalised orbitals, real/complex), random and exhaustive configurations; oracle: Leibniz determinants and recursive Pfaffians in numpy")


def det(A):
    A = np.asarray(A, complex)
    n = A.shape[0]
    if n <= 5:
        t = 0.0
        for p in itertools.permutations(range(n)):
            s = 1
            for i in range(n):
                for j in range(i):
                    if p[j] > p[i]:
                        s = -s
            w = s + 0j
            for i in range(n):
                w = w * A[i, p[i]]
            t += w
        return t
    return np.linalg.det(A)


def pf(A):
    n = A.shape[0]
    if n == 0:
        return 1.0 + 0j
    t = 0.0
    for j in range(1, n):
        k = [i for i in range(1, n) if i != j]
        t += (-1) ** (j - 1) * A[0, j] * pf(A[np.ix_(k, k)])
    return t


def elec(x):
    return [i for i, v in enumerate(x) if int(v) & 1], [i for i, v in enumerate(x) if int(v) & 2]


def run(h):
    from . import models as M, oracle as O
    import jax, jax.numpy as jnp, netket as nk
    import flax.linen as nn
    import GPSKet
    from GPSKet.models import (Slater, occupancies_to_electrons, Jastrow, SlaterJastrow, SlaterqGPS, ASymmqGPS, ASymmqGPSProd, Backflow,
                               BackflowJastrow, CPDBackflow, qGPS)
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from netket.utils import HashableArray

    def perms(L, T):
        return np.array([[(i + s) % L for s in range(T)] for i in range(L)])  # (L, T): site i goes to perms[i, t]

    def elec_syms(P):
        P = jnp.asarray(P)
        return lambda y: jax.vmap(lambda tau: jnp.take(tau, y), in_axes=-1, out_axes=-1)(P)

    def same(h, what, got, want, tol=1e-9):
        """log-amplitudes agree up to the branch of the logarithm"""
        h.close(what, np.exp(np.asarray(got, complex)), np.asarray(want, complex), tol)

    def terms(U, x, P):
        """(M, S, T) determinants; U: (M, 2L, N, S)"""
        L = len(x)
        u, d = elec(x)
        out = np.zeros((U.shape[0], U.shape[3], P.shape[1]), complex)
        for m in range(U.shape[0]):
            for s in range(U.shape[3]):
                for t in range(P.shape[1]):
                    rows = [P[i, t] for i in u] + [L + P[i, t] for i in d]
                    out[m, s, t] = det(U[m][rows][:, :, s])
        return out

    def full_U(p, L, n, spinsym, fixed, angles):
        if fixed:
            up = np.asarray(p["U_up"]); dn = up if spinsym else np.asarray(p["U_down"])
            Mm = up.shape[0]
            U = np.zeros((Mm, 2 * L, sum(n)), complex)
            U[:, :L, : n[0]] = up
            U[:, L:, n[0]:] = dn
        else:
            U = np.asarray(p["U"]).astype(complex)
        if angles is None:
            return U[..., None]
        out = []
        for a in angles:
            c, s = np.cos(a / 2), np.sin(a / 2)
            out.append(np.concatenate([c * U[:, :L] - s * U[:, L:], s * U[:, :L] + c * U[:, L:]], axis=1))
        return np.stack(out, -1)

    def slater(rng, h, L, n, nd=1, T=None, s2=None, spinsym=False, fixed=True, dtype=jnp.complex128, B=4):
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        kw = {}
        if T:
            kw["symmetries"] = elec_syms(P)
        if s2:
            kw["S2_projection"] = tuple(HashableArray(np.array(v)) for v in s2)
        ma = Slater(hi, nd, dtype=dtype, spin_symmetry_by_structure=spinsym, fixed_magnetization=fixed, **kw)
        x = O.random_fermi(rng, L, n, B)
        v = M.init(ma, rng, x, 0.3)
        p = v["params"]
        want = []
        for b in range(B):
            t = terms(full_U(p, L, n, spinsym, fixed, s2[0] if s2 else None), x[b], P)
            w = np.asarray(s2[1]) if s2 else np.ones(1)
            want.append(np.sum(t * w[None, :, None]))
        h.inputs(L=L, n_elec=n, dets=nd, T=T, s2=s2, x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want)
        same(h, "amplitude, floating point configurations", ma.apply(v, jnp.asarray(x, dtype=jnp.float64)), want)
    h.case("slater", slater, 5, (3, 2), repeat=2)
    h.case("slater-multi", slater, 5, (2, 2), 3)
    h.case("slater-sym", slater, 4, (2, 2), 2, 4)
    h.case("slater-s2", slater, 4, (2, 1), 2, None, ([0.0, 0.7, 1.9], [0.3, 1.2, 0.5]))
    h.case("slater-s2-sym", slater, 4, (2, 2), 1, 3, ([0.4, 2.1], [0.9, 0.2]))
    h.case("slater-spinsym", slater, 5, (2, 2), 2, None, None, True)
    h.case("slater-ghf", slater, 4, (2, 2), 2, None, None, False, False)
    h.case("slater-ghf-sym", slater, 4, (1, 2), 1, 4, None, False, False)
    h.case("slater-real", slater, 5, (2, 3), 1, None, None, False, True, jnp.float64)
    h.case("slater-1", slater, 3, (1, 1))
    h.case("slater-full", slater, 3, (3, 3))

    def exchange(rng, h):
        L, n = 5, (3, 2)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        x = O.random_fermi(rng, L, n, 6)
        y = np.asarray(occupancies_to_electrons(jnp.asarray(x), n))
        want = np.array([elec(r)[0] + elec(r)[1] for r in x])
        h.inputs(x=x)
        h.close("electron positions", y, want)
        for n2 in ((0, 2), (2, 0), (4, 4)):
            x = O.random_fermi(rng, 4, n2, 3)
            h.close("electron positions %s" % (n2,), occupancies_to_electrons(jnp.asarray(x), n2), np.array([elec(r)[0] + elec(r)[1] for r in x]))
    h.case("positions", exchange)

    def asymm(rng, h, nd, T, sym, coeffs, spinsym=False, B=4):
        L, n = 4, (2, 2)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        kw = dict(apply_symmetries=elec_syms(P)) if T else {}
        ma = ASymmqGPS(hi, nd, coeffs=HashableArray(np.array(coeffs)), symmetrization=sym, spin_symmetry_by_structure=spinsym, **kw)
        x = O.random_fermi(rng, L, n, B)
        v = M.init(ma, rng, x, 0.3)
        want = []
        for b in range(B):
            t = terms(full_U(v["params"]["Slater_0"], L, n, spinsym, True, None), x[b], P)
            k = np.einsum("m,mst->st", np.array(coeffs), t)
            want.append(np.sinh(k.sum()) if sym == "kernel" else np.sinh(k).sum())
        h.inputs(dets=nd, coeffs=coeffs, x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want)
        same(h, "single configuration", ma.apply(v, jnp.asarray(x[0])), want[:1])
    h.case("asymm-kernel", asymm, 1, None, "kernel", [1.0])
    h.case("asymm-proj", asymm, 1, 4, "projective", [0.6])
    h.case("asymm-kernel-multi", asymm, 3, 4, "kernel", [0.5, -1.3, 0.8])
    h.case("asymm-proj-multi", asymm, 3, 4, "projective", [0.5, -1.3, 0.8])
    h.case("asymm-multi-nosym", asymm, 2, None, "kernel", [1.0, 0.7], True)
    h.case("asymm-multi-Tdet", asymm, 4, 4, "projective", [1.0, 0.7, 0.2, -0.4])

    def asymm_prod(rng, h, nd, T, B=4):
        L, n = 4, (2, 2)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        kw = dict(apply_symmetries=elec_syms(P)) if T else {}
        ma = ASymmqGPSProd(hi, nd, **kw)
        x = O.random_fermi(rng, L, n, B)
        v = M.init(ma, rng, x, 0.3)
        want = [np.prod(np.sinh(terms(full_U(v["params"]["Slater_0"], L, n, False, True, None), r, P)), axis=0).sum() for r in x]
        h.inputs(dets=nd, x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want)
    h.case("asymm-prod", asymm_prod, 3, 4)
    h.case("asymm-prod1", asymm_prod, 1, None)

    def jast(K, x, P):
        """P (L,T): configuration images x_t[i] = x[P[i,t]]"""
        K = K + K.T
        return sum((1 - (np.array(x)[P[:, t]] & 1)) @ K @ (1 - ((np.array(x)[P[:, t]] >> 1) & 1)) for t in range(P.shape[1]))

    def conf_syms(P):
        P = jnp.asarray(P)
        return lambda x: jnp.take(x, P, axis=-1)

    def jastrow(rng, h, T, dtype=jnp.complex128):
        L, n = 5, (2, 3)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        kw = dict(apply_symmetries=conf_syms(P)) if T else {}
        ma = Jastrow(hi, dtype=dtype, **kw)
        x = O.random_fermi(rng, L, n, 5)
        v = M.init(ma, rng, x, 0.5)
        K = np.asarray(v["params"]["kernel"])
        h.inputs(T=T, x=x)
        h.close("log-amplitude", ma.apply(v, jnp.asarray(x)), np.array([jast(K, r.astype(int), P) for r in x]), 1e-9)
    h.case("jastrow", jastrow, None)
    h.case("jastrow-sym", jastrow, 5)
    h.case("jastrow-real", jastrow, 3, jnp.float64)

    def slater_x(rng, h, kind, T):
        L, n = 4, (2, 2)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        if kind == "jastrow":
            kw = dict(slater_apply_symmetries=elec_syms(P), jastrow_apply_symmetries=conf_syms(P)) if T else {}
            ma = SlaterJastrow(hi, n_determinants=2, spin_symmetry_by_structure=False, **kw)
        else:
            kw = dict(slater_apply_symmetries=elec_syms(P)) if T else {}
            ma = SlaterqGPS(hi, n_determinants=2, M=2, **kw)
        x = O.random_fermi(rng, L, n, 4)
        v = M.init(ma, rng, x, 0.3)
        p = v["params"]
        want = []
        for r in x:
            t = terms(full_U(p["Slater_0"], L, n, kind != "jastrow", True, None), r, P).sum()
            if kind == "jastrow":
                f = jast(np.asarray(p["Jastrow_0"]["kernel"]), r.astype(int), P)
            else:
                e = np.asarray(p["qGPS_0"]["epsilon"])
                f = sum(np.prod([e[r[i], m, i] for i in range(L)]) for m in range(2))
            want.append(t * np.exp(f))
        h.inputs(kind=kind, x=x)
        same(h, "amplitude is determinant sum times correlation factor", ma.apply(v, jnp.asarray(x)), want)
    h.case("slater-jastrow", slater_x, "jastrow", None)
    h.case("slater-jastrow-sym", slater_x, "jastrow", 4)
    h.case("slater-qgps", slater_x, "qgps", None)
    h.case("slater-qgps-sym", slater_x, "qgps", 3)

    class Corr(nn.Module):
        rows: int
        cols: int
        T: int = 1

        @nn.compact
        def __call__(self, x, cache_intermediates=False, update_sites=None):
            w = self.param("w", nn.initializers.normal(0.3), (x.shape[-1], self.rows * self.cols * self.T), complex)
            return jnp.tanh(jnp.asarray(x, float) @ w).reshape(x.shape[0], self.rows, self.cols, self.T)

    def corr(w, x, rows, cols, T):
        return np.tanh(np.asarray(x, float) @ np.asarray(w)).reshape(rows, cols, T)

    def bf_val(x, n, phi, cor, spinsym, fixed, P):
        L = len(x); u, d = elec(x)
        tot = 0
        for t in range(P.shape[1]):
            A = (phi if phi is not None else 0) + cor[:, :, t % cor.shape[2]]
            if fixed:
                Au, Ad = (A, A) if spinsym else (A[:, : n[0]], A[:, n[0]:])
                tot += det(Au[[P[i, t] for i in u]]) * det(Ad[[P[i, t] for i in d]])
            else:
                tot += det(A[[P[i, t] for i in u] + [L + P[i, t] for i in d]])
        return tot

    def backflow(rng, h, n, spinsym, fixed, orbs, T=None):
        L = 4
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        P = perms(L, T or 1)
        rows = L if fixed else 2 * L
        cols = n[0] if (spinsym and fixed) else sum(n)
        o = rng.normal(size=(rows, cols)) if orbs else None
        kw = dict(apply_symmetries=elec_syms(P)) if T else {}
        ma = Backflow(hi, Corr(rows, cols, T or 1), None if o is None else HashableArray(o), spin_symmetry_by_structure=spinsym, fixed_magnetization=fixed, **kw)
        x = O.random_fermi(rng, L, n, 4)
        v = dict(ma.init(jax.random.PRNGKey(3), jnp.asarray(x)))
        v["params"] = M.perturb(v["params"], rng, 0.3)
        w = v["params"]["correction_fun"]["w"]
        want = [bf_val(r, n, o, corr(w, r, rows, cols, T or 1), spinsym, fixed, P) for r in x]
        h.inputs(n_elec=n, spinsym=spinsym, fixed=fixed, x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want)
    h.case("backflow", backflow, (2, 2), True, True, True)
    h.case("backflow-unres", backflow, (2, 1), False, True, True)
    h.case("backflow-noorb", backflow, (2, 2), False, True, False)
    h.case("backflow-ghf", backflow, (2, 1), False, False, True)
    h.case("backflow-sym", backflow, (2, 2), True, True, True, 4)

    def backflow_j(rng, h):
        L, n = 4, (2, 2)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        os = [rng.normal(size=(L, 2)) for _ in range(2)]
        ma = BackflowJastrow(hi, tuple(HashableArray(o) for o in os), (Corr(L, 2), Corr(L, 2)))
        x = O.random_fermi(rng, L, n, 4)
        v = dict(ma.init(jax.random.PRNGKey(3), jnp.asarray(x)))
        v["params"] = M.perturb(v["params"], rng, 0.3)
        p = v["params"]
        ws = [q for q in (p.get("correction_fun_0"), p.get("correction_fun_1"))]
        K = np.asarray(p["Jastrow_0"]["kernel"])
        P = perms(L, 1)
        want = [sum(bf_val(r, n, os[k], corr(ws[k]["w"], r, L, 2, 1), True, True, P) for k in (0, 1)) * np.exp(jast(K, r.astype(int), P)) for r in x]
        h.inputs(x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want)
    h.case("backflow-jastrow", backflow_j)

    def cpd(rng, h, n, restricted, fixed, env):
        L, Mm = 4, 2
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        E = np.array([rng.permutation(L)[:3] for _ in range(L if fixed else 2 * L)]) if env else None
        ma = CPDBackflow(hi, Mm, environments=None if E is None else HashableArray(E), restricted=restricted, fixed_magnetization=fixed)
        x = O.random_fermi(rng, L, n, 4)
        v = dict(ma.init(jax.random.PRNGKey(5), jnp.asarray(x)))
        v["params"] = M.perturb(v["params"], rng, 0.3)
        e = np.asarray(v["params"]["epsilon"])  # (R, N, 4, M, K)
        want = []
        for r in x:
            R, N = e.shape[:2]
            A = np.zeros((R, N), complex)
            for a in range(R):
                sites = E[a] if env else range(L)
                for k in range(N):
                    A[a, k] = sum(np.prod([e[a, k, r[s], m, j] for j, s in enumerate(sites)]) for m in range(Mm))
            u, d = elec(r)
            if fixed:
                Au, Ad = (A, A) if restricted else (A[:, : n[0]], A[:, n[0]:])
                want.append(det(Au[u]) * det(Ad[d]))
            else:
                want.append(det(A[u + [L + i for i in d]]))
        h.inputs(n_elec=n, restricted=restricted, fixed=fixed, env=E, x=x)
        same(h, "amplitude", ma.apply(v, jnp.asarray(x)), want, 1e-8)
    h.case("cpd", cpd, (2, 2), True, True, False)
    h.case("cpd-unres", cpd, (2, 1), False, True, False)
    h.case("cpd-ghf", cpd, (2, 1), False, False, False)
    h.case("cpd-env", cpd, (2, 2), True, True, True)
    h.case("cpd-env-ghf", cpd, (1, 2), False, False, True)

    def pfaff(rng, h, n, kind):
        from GPSKet.models.pfaffian import log_pfaffian
        A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if kind == "complex" else 0)
        A = A - A.T
        if kind == "pivot":
            A[0, 1] = A[1, 0] = 0.0
        if kind == "singular":
            A[:, -1] = 0; A[-1, :] = 0
        if kind == "sparse":
            z = rng.random((n, n)) < 0.4
            z = z | z.T
            A[z] = 0
        h.inputs(A=A)
        w = pf(A.astype(complex))
        got = np.exp(np.asarray(log_pfaffian(jnp.asarray(A)), complex))
        got = 0.0 if (abs(w) < 1e-12 and not np.isfinite(got)) else got
        h.close("Pfaffian", got, w, 1e-9)
    for n in (2, 4, 6, 8):
        for k in ("real", "complex", "pivot"):
            if not (n == 2 and k == "pivot"):
                h.case("pfaffian-%d-%s" % (n, k), pfaff, n, k)
    h.case("pfaffian-sparse", pfaff, 6, "sparse", repeat=6)

    def pfaff_grad(rng, h):
        from GPSKet.models.pfaffian import log_pfaffian
        n = 4
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)); A = A - A.T
        D = rng.normal(size=(n, n)); D = D - D.T
        _, dv = jax.jvp(log_pfaffian, (jnp.asarray(A),), (jnp.asarray(D).astype(complex),))
        e = 1e-5
        fd = (np.log(pf(A + e * D) / pf(A)) - np.log(pf(A - e * D) / pf(A))) / (2 * e)
        h.close("derivative of the log-Pfaffian", dv, fd, 1e-6)
    h.case("pfaffian-grad", pfaff_grad, repeat=2)

    def pstate(rng, h, kind, T):
        from GPSKet.models.pfaffian import PfaffianState, ZeroMagnetizationPfaffian
        L = 3
        th, ch = np.array([0.0, 0.8, 2.0]), np.array([0.4, 1.0, 0.3])
        Pm = np.array([[(i + s) % L for s in range(T)] for i in range(L)])
        P2 = np.concatenate([Pm, Pm + L])
        kw = dict(symmetries=lambda y: jnp.moveaxis(jnp.take(jnp.asarray(P2), y, axis=0), -1, -1)) if T > 1 else {}
        y = np.array([list(rng.permutation(L)[:2]) + list(L + rng.permutation(L)[:2]) for _ in range(3)])
        if kind == "gen":
            ma = PfaffianState(L, **kw)
        else:
            ma = ZeroMagnetizationPfaffian(L, S2_projection=(HashableArray(th), HashableArray(ch)), **kw)
        v = dict(ma.init(jax.random.PRNGKey(2), jnp.asarray(y)))
        v["params"] = M.perturb(v["params"], rng, 0.8)
        want = []
        for r in y:
            tot = 0
            for t in range(T):
                z = P2[r, t]
                if kind == "gen":
                    F = np.asarray(v["params"]["F"])
                    G = F[np.ix_(z, z)]; tot += pf(G - G.T)
                else:
                    f = np.asarray(v["params"]["f"])
                    for a, w in zip(th, ch):
                        c, s = np.cos(a / 2), np.sin(a / 2)
                        # pair function f_ij rotated about y: c+_up -> c c+_up + s c+_dn, c+_dn -> -s c+_up + c c+_dn
                        F = np.kron(np.outer([c, s], [-s, c]), f)
                        G = F[np.ix_(z, z)]; tot += w * pf(G - G.T)
            want.append(tot)
        h.inputs(kind=kind, y=y, T=T)
        same(h, "amplitude", ma.apply(v, jnp.asarray(y)), want)
    h.case("pfaffian-state", pstate, "gen", 1)
    h.case("pfaffian-state-sym", pstate, "gen", 3)
    h.case("pfaffian-zero", pstate, "zero", 1)
    h.case("pfaffian-zero-sym", pstate, "zero", 3)

    def quad(rng, h):
        from GPSKet.models.pfaffian import get_gauss_leg_elements_Sy
        for n in (3, 6):
            a, w = get_gauss_leg_elements_Sy(n)
            a, w = np.asarray(a), np.asarray(w)
            for k in range(2 * n):  # exact for polynomials in cos(angle) of degree < 2n
                h.close("quadrature of cos^k(angle) sin(angle) over [0, pi]", np.sum(w * np.cos(a) ** k), (1 - (-1) ** (k + 1)) / (k + 1), 1e-10)
    h.case("quadrature", quad)
