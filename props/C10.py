"""C10: occupation rules - densities, energies, frontier level, normalisation, kinetic energy density."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, phys_grid, cached_grid, ref_mesh, rng_field, nice, capacity, coul, occupations, run_solver_history, solver_history

PROPERTY = "C10"
QUICK_SCALE = 4
RULE = ("random angular momentum, spin treatment, electron number (integer, fractional, fewer or more than a shell), "
        "fractional option on/off and arbitrary orbitals and levels given to the real solver object, against an "
        "explicit occupation list; non-trivial = m > 0 or a fractionally occupied orbital")
ASSUMPTIONS = ["enough orbitals are present to hold the electrons",
               "the potential energy stays below the 1e5 guard in the energy routine"]
seed = st.integers(0, 2 ** 31 - 1)


def make(case, rec):
    from CADMium import Pssolver
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    m, pol = case["m"], case["pol"]
    cap = capacity(m, pol)
    N = max(0.0, case["q"] * cap / case["den"] + case["eps"])
    nmo = max(1, math.ceil(N / cap)) + case["extra"]
    rows = m + 1
    Nmo, Nel = [[nmo] * pol] * rows, [[N] * pol] * rows
    opt = {"fractional": True} if case["frac"] else ({} if case["dflt"] else {"fractional": False})
    s = Pssolver(grid, Nmo, Nel, opt)[m, pol - 1]
    rs = np.random.RandomState(case["seed"])
    s.phi = rs.uniform(-1, 1, (r.n, nmo)) + case["off"]
    s.eig = np.sort(rs.uniform(-5, 1, nmo))
    occ = occupations(m, pol, N, nmo, case["frac"])
    rec.label(f"m{'>0' if m else '=0'},pol={pol},{'frac' if case['frac'] else 'whole'}"
              f"{',partial' if N % cap else ''}")
    rec.nontrivial(N > 0 and (m > 0 or (case["frac"] and N % cap)))
    return grid, r, s, occ, N, cap


def run_density(case, rec):
    grid, r, s, occ, N, cap = make(case, rec)
    phi = s.phi.copy()
    s.calc_density()
    want = sum(q * phi[:, i] ** 2 / r.integrate(phi[:, i] ** 2) for i, q in enumerate(occ)) + np.zeros(r.n)
    n = np.asarray(s.n)
    rec.check("density layout", n.shape == (r.n, 1), str(n.shape))
    rec.close("density", n[:, 0], want, 1e-6, scale=max(np.max(np.abs(want)), 1e-9))
    rec.close("number of electrons", r.integrate(n[:, 0]), sum(occ), 1e-6, scale=max(1.0, N))
    rec.check("orbitals were changed", np.array_equal(phi, s.phi))


def run_energy(case, rec):
    grid, r, s, occ, N, cap = make(case, rec)
    v = rng_field(case["seed"] // 2, r.n)
    n = sum(q * s.phi[:, i] ** 2 / r.integrate(s.phi[:, i] ** 2) for i, q in enumerate(occ)) + np.zeros(r.n)
    big = np.max(np.abs(v * n)) > 0 and case["big"]
    if big:          # potential energies of up to 1e4 Hartree
        v = v * big / max(abs(r.integrate(n * v)), 0.01 * r.integrate(n * abs(v)))
    s.setveff(v)
    s.calc_energy()
    eks = sum(q * s.eig[i] for i, q in enumerate(occ))
    vs = r.integrate(n * v)
    sc = max(1.0, abs(eks), N, r.integrate(n * np.abs(v)))
    rec.close("sum of occupied levels", s.eks, eks, 1e-10, scale=sc)
    rec.close("potential energy", s.Vs, vs, 1e-6, scale=sc)
    rec.close("kinetic energy", s.Ts, eks - vs, 1e-6, scale=sc)
    rec.close("density after the energy call", np.asarray(s.n)[:, 0], n, 1e-6, scale=max(np.max(n), 1e-9))


def run_homo(case, rec):
    grid, r, s, occ, N, cap = make(case, rec)
    k = math.ceil(N / cap - 1e-12)
    got = s.get_homo()
    if k == 0:
        rec.check("no electrons: frontier level below everything", float(got) < -1e10 and float(s.homo) < -1e10, str(got))
    else:
        rec.close("frontier level", [float(got), float(s.homo)], [s.eig[k - 1]] * 2, 1e-13)


def run_normalize(case, rec):
    grid, r, s, occ, N, cap = make(case, rec)
    phi = s.phi.copy()
    s.normalize_orbitals()
    for i in range(phi.shape[1]):
        rec.close("norm is the capacity", r.integrate(s.phi[:, i] ** 2), cap, 1e-6)
        rec.close("direction unchanged", s.phi[:, i] * math.sqrt(r.integrate(phi[:, i] ** 2) / cap), phi[:, i], 1e-6)


def run_ked(case, rec):
    grid, r, s, occ, N, cap = make(case, rec)
    s.hamiltonian()
    s.calc_ked_WFI()
    m = case["m"]
    par = 1 if m % 2 == 0 else -1
    want = np.zeros(r.n)
    mag = np.zeros(r.n)
    row = (np.repeat(np.sinh(r.xr) / r.ha ** 2 + np.sinh(r.xr) / r.hr ** 2 + np.cosh(r.xr) / r.hr, r.Na) * r.a / r.w
           + m * m / r.Y ** 2)
    for i, q in enumerate(occ):
        f = s.phi[:, i]
        t = f * (-0.5 * r.lap(f, par) / r.w + m * m * f / (2 * r.Y ** 2)) / r.integrate(f ** 2)
        want += q * t
        mag += q * np.abs(f) * row / r.integrate(f ** 2)
    got = np.asarray(s.ked_WFI)
    rec.check("kinetic energy density layout", got.shape == (r.n, 1), str(got.shape))
    ok = mag > 0
    rec.close("kinetic energy density", got[ok, 0] / mag[ok], want[ok] / mag[ok], 1e-6, scale=1.0)
    if not ok.any():
        rec.check("no electrons, no kinetic energy", np.all(got == 0))


def run_real(case, rec):
    """with true orbitals the kinetic energy density integrates to the kinetic energy, and all routines agree"""
    from CADMium import Pssolver
    g, m, pol = case["g"], case["m"], case["pol"]
    grid, r = cached_grid(g), ref_mesh(g)
    cap = capacity(m, pol)
    N = case["q"] * cap / 4
    nmo = math.ceil(N / cap) + 1
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[N] * pol] * (m + 1), {"fractional": True})[m, pol - 1]
    s.hamiltonian()
    s.setveff(coul(r, case["Za"], case["Zb"]))
    s.e0 = -1.5 * max(case["Za"], case["Zb"]) ** 2 - 1
    s.calc_orbitals()
    s.calc_energy()
    s.calc_ked_WFI()
    s.get_homo()
    occ = occupations(m, pol, N, nmo, True)
    rec.nontrivial(N % cap != 0 or m > 0)
    sc = max(1.0, abs(s.eks))
    rec.close("electrons", r.integrate(s.n[:, 0]), N, 1e-6)
    rec.close("energy", s.eks, sum(q * e for q, e in zip(occ, s.eig)), 1e-9, scale=sc)
    rec.close("integral of the kinetic energy density", r.integrate(s.ked_WFI[:, 0]), s.Ts, 1e-6, scale=sc)
    rec.close("frontier level", s.homo, s.eig[math.ceil(N / cap) - 1], 1e-12)
    rec.close("linear in the last occupation", s.Ts + s.Vs, s.eks, 1e-9, scale=sc)


def run_fill(case, rec):
    """electron number -1 means: every orbital full at two (one per spin) electrons"""
    from CADMium import Pssolver
    grid = cached_grid(case["g"])
    m, pol, nmo = case["m"], case["pol"], case["nmo"]
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[-1] * pol] * (m + 1), {})
    rec.nontrivial(True)
    rec.check("solver array shape", s.shape == (m + 1, pol), str(s.shape))
    for i in range(m + 1):
        for j in range(pol):
            rec.check("angular momentum is the row", s[i, j].m == i)
            rec.close("fill", s[i, j].N, nmo * (2 if pol == 1 else 1), 1e-14)


case = lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=120, NPs=(2, 3, 4, 5, 6)), m=st.integers(0, 3), pol=st.sampled_from([1, 2]),
                                          q=st.integers(0, 12), den=st.sampled_from([1, 2, 4, 5, 10]),
                                          extra=st.integers(0, 2), frac=st.booleans(), dflt=st.booleans(), seed=seed,
                                          eps=st.sampled_from([0.0, 0.0, 0.0, 1e-2, -1e-2, 3e-3, -3e-3, 1e-4, -1e-4, 1e-6, -1e-6]),
                                          off=st.sampled_from([0.0, 0.6]), big=st.sampled_from([0, 0, 0, 50, 500, 5e3, 1e4])))
SUBCHECKS = [
    Sub("density", case, run_density, 150, 1500),
    Sub("energy", case, run_energy, 150, 1500),
    Sub("homo", case, run_homo, 150, 1500),
    Sub("normalize", case, run_normalize, 100, 600),
    Sub("ked", case, run_ked, 100, 1000),
    Sub("real", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=120), m=st.integers(0, 2), pol=st.sampled_from([1, 2]),
        q=st.integers(1, 10), Za=st.integers(1, 3), Zb=st.integers(1, 3))), run_real, 30, 300),
    Sub("fill", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=40), m=st.integers(0, 3), pol=st.sampled_from([1, 2]),
        nmo=st.integers(1, 6))), run_fill, 30, 100, tshards=1),
    Sub("history", lambda: solver_history(False), lambda case, rec: run_solver_history(case, rec, False), 15, 150, shards=2),
]
