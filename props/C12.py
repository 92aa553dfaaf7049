"""C12: linear density response."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip
from common import phys_grid, cached_grid, ref_mesh, nice, smooth_params, smooth, coul, ref_H, capacity, rng_field, run_solver_history, solver_history

PROPERTY = "C12"
QUICK_SCALE = 4
RULE = ("random meshes, charges, angular momentum, spin treatment and (fractional) electron number; the response "
        "matrix applied to a smooth or rough potential change against first-order perturbation theory over the full "
        "dense spectrum of an independent Hamiltonian; non-trivial = m > 0, several orbitals or fractional occupation")
ASSUMPTIONS = ["occupied levels are separated from all others",
               "the tight comparison removes multiples of the occupied orbital densities, which depend on the "
               "quadrature in which orbitals stay normalised; the full comparison accepts the block rule of C02 or the midpoint rule"]
seed = st.integers(0, 2 ** 31 - 1)


def run(case, rec):
    from CADMium import Pssolver
    g, m, pol = case["g"], case["m"], case["pol"]
    grid, r = cached_grid(g), ref_mesh(g)
    cap = capacity(m, pol)
    N = case["q"] * cap / 4
    if case["frac"] and N % cap == 0:
        N += case["eps"] * cap        # an orbital hardly occupied, or hardly short of full
    nmo = max(1, math.ceil(N / cap))
    frac = case["frac"]
    v = coul(r, case["Za"], case["Zb"])
    e0 = -1.5 * max(case["Za"], case["Zb"]) ** 2 - 1.5
    E, R = np.linalg.eig(ref_H(r, m) + np.diag(v))
    Linv = np.linalg.inv(R)
    near = np.argsort(np.abs(E - e0))
    occ_idx = near[:nmo]
    for j in occ_idx:
        d = np.abs(E - E[j])
        d[j] = 9
        if abs(E[j].imag) > 1e-9 or np.min(d) < 2e-3:
            raise Skip("levels not separated")
    if np.max(np.abs(E[near[:nmo]] - e0)) > np.abs(E[near[nmo]] - e0) - 1e-3:
        raise Skip("levels not separated")
    occ_idx = sorted(occ_idx, key=lambda j: E[j].real)
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[N] * pol] * (m + 1), {"fractional": frac})[m, pol - 1]
    s.hamiltonian()
    s.setveff(v)
    s.e0 = e0
    s.calc_orbitals()
    s.calc_response()
    dv = smooth(case["f"], r.Y, r.Z, r.a) if case["smooth"] else rng_field(case["seed"], r.n)
    chi = np.asarray(s.chi)
    want, mid, orbs, left = np.zeros(r.n), np.zeros(r.n), [], N
    for j in occ_idx:
        q = min(cap, left)
        left -= q
        if q < cap and not frac:
            q = 0
        if q == 0:
            continue
        phi = R[:, j].real
        c = (Linv @ (dv * R[:, j])) / (E[j] - E + (np.arange(r.n) == j))
        c[j] = 0
        dphi = (R @ c).real
        nrm = r.integrate(phi ** 2)
        pref = q * 2 * phi / nrm
        want += pref * (dphi - phi * r.integrate(phi * dphi) / nrm)
        mid += pref * (dphi - phi * np.sum(r.w * phi * dphi) / np.sum(r.w * phi ** 2))
        orbs.append(phi ** 2 / nrm)
    rec.nontrivial(m > 0 or len(orbs) > 1 or (frac and N % cap != 0))
    rec.label(f"m={m}", f"pol={pol}", f"orbitals={len(orbs)}", "partial" if frac and N % cap else "whole")
    if not orbs:
        rec.check("no occupied orbital, no response", np.all(chi == 0))
        return
    got = (chi @ dv).ravel()
    A = np.column_stack(orbs)
    # a reference scale that does not vanish when the response happens to: one orbital's density times the drive
    sc = max(np.max(np.abs(want)), 1e-3 * np.max(np.abs(A)) * np.max(np.abs(dv)))
    w = np.sqrt(r.w)
    Q = np.linalg.qr(A * w[:, None])[0]
    P = lambda x: x * w - Q @ (Q.T @ (x * w))
    rec.close("response, up to occupied densities", P(got), P(want), 1e-5, scale=sc * np.max(w))
    if np.max(np.abs(got - mid)) < np.max(np.abs(got - want)):
        want = mid
    rec.close("response", got, want, 1e-5, scale=sc)
    one = (chi @ np.ones(r.n)).ravel()
    rec.close("a constant potential changes nothing", one, 0 * one, 1e-6, scale=np.max(np.abs(A)))


SUBCHECKS = [
    Sub(name, lambda m=m: st.fixed_dictionaries(dict(g=phys_grid(max_elem=110), m=st.just(m) if m < 2 else st.integers(2, 3),
        pol=st.sampled_from([1, 2]), q=st.integers(0, 9), eps=st.sampled_from([0.02, 1e-3, 1e-5]), frac=st.booleans(), Za=nice(0.5, 4, 14), Zb=nice(0, 4, 16),
        f=smooth_params(2), smooth=st.booleans(), seed=seed)), run, 15, 100, shards=2)
    for name, m in (("sigma", 0), ("pi", 1), ("delta", 2))
] + [
    Sub("history", lambda: solver_history(True), lambda case, rec: run_solver_history(case, rec, True), 8, 80, shards=2),
]
