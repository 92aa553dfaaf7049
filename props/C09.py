"""C09: one-electron Hamiltonian and its orbitals."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip
from common import (phys_grid, grid_params, cached_grid, ref_mesh, rng_field, nice, smooth_params, smooth, coul, ref_H,
                    dense_levels, parallel)

PROPERTY = "C09"
QUICK_SCALE = 4
RULE = ("random meshes, nuclear charges, smooth extra potentials, angular momenta 0..3 and level counts: the real solver "
        "against a dense eigen-decomposition of an independently built Hamiltonian, metamorphic relations, and exact "
        "one-electron atoms and H2+; non-trivial = several levels, m > 0, or an asymmetric potential")
ASSUMPTIONS = ["the search energy lies below the wanted levels (as every caller arranges)",
               "orbitals are compared when their level is separated from the others by more than 1e-4"]
seed = st.integers(0, 2 ** 31 - 1)


def potential(case, r):
    return coul(r, case["Za"], case["Zb"]) + (smooth(case["f"], r.Y, r.Z, r.a) if case["f"] else 0.0)


def solver(grid, m, nmo, v, e0, pol=1, **opt):
    from CADMium import Pssolver
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1), opt)
    s = s[m, pol - 1]
    s.hamiltonian()
    s.setveff(v)
    s.e0 = e0
    return s


def floor(case, r, v):
    """search energy below every level of interest"""
    z = max(case["Za"], case["Zb"])
    return -1.5 * (z ** 2 + 1) + min(0.0, float(np.min(v - coul(r, case["Za"], case["Zb"]))))


def run_hamiltonian(case, rec):
    g, m = case["g"], case["m"]
    grid, r = cached_grid(g), ref_mesh(g)
    s = solver(grid, m, 1, np.zeros(r.n), -1.0)
    f = rng_field(case["seed"], r.n)
    rec.nontrivial(m > 0 and r.Na != r.Nr)
    rec.label(f"m={m}")
    par = 1 if m % 2 == 0 else -1
    kin = -0.5 * r.lap(f, par)
    cen = m * m * r.w * f / (2 * r.Y ** 2)
    row = (np.repeat(np.sinh(r.xr) / r.ha ** 2 + np.sinh(r.xr) / r.hr ** 2 + np.cosh(r.xr) / r.hr, r.Na) * r.a
           + m * m * r.w / (2 * r.Y ** 2))
    rec.close("Hamiltonian without potential", (s.H0 @ f) / row, (kin + cen) / row, 1e-8, scale=1.0)


def run_dense(case, rec):
    g, m, nmo = case["g"], case["m"], case["nmo"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = potential(case, r)
    keep = v.copy()
    e0 = floor(case, r, v)
    e, P, clean, sep = dense_levels(r, m, v, e0, nmo)
    if not clean:
        raise Skip("level set not separated")
    s = solver(grid, m, nmo, v, e0, pol=case["pol"])
    out = {}
    if case["dict"]:
        s.calc_orbitals("key", out)
        eig, phi = np.asarray(out["key"][0]), np.asarray(out["key"][1])
    else:
        s.calc_orbitals()
        eig, phi = np.asarray(s.eig), np.asarray(s.phi)
    rec.check("the potential was changed", np.array_equal(keep, v))
    rec.nontrivial(nmo > 1 or m > 0)
    rec.label(f"m={m}", f"nmo={nmo}")
    sc = max(1.0, np.max(np.abs(e)))
    rec.close("levels", eig, e, 1e-8, scale=sc)
    rec.check("orbital array", phi.shape == (r.n, nmo), str(phi.shape))
    if sep:
        for i in range(nmo):
            rec.close("orbital direction", parallel(r, phi[:, i], P[:, i]), 0.0, 1e-8, scale=1.0)


def run_close(case, rec):
    """two distant, nearly equal nuclei: close levels belong to orbitals that are their own, whatever the distance of the levels"""
    g, m = case["g"], case["m"]
    grid, r = cached_grid(g), ref_mesh(g)
    Z = case["za"] * (m + 1) / g["a"]
    v = coul(r, Z, Z * (1 + case["d"]))
    e0 = -1.5 * Z ** 2
    E, P = np.linalg.eig(ref_H(r, m) + np.diag(v))
    nmo = case["nmo"]
    order = np.argsort(E.real)
    e = E[order[:nmo + 1]]
    gaps = np.diff(e.real)
    if np.max(np.abs(e.imag)) > 0 or np.any(gaps < 1e-7 * max(1, Z * Z)) or gaps[-1] < 1e-4 or np.abs(E - e0).min() < abs(e[0] - e0) - 1e-9:
        raise Skip("levels not distinct")
    s = solver(grid, m, nmo, v, e0)
    s.calc_orbitals()
    close = gaps[:-1].min()
    rec.nontrivial(close < 1e-2)
    rec.label(f"closest levels 1e{int(np.floor(np.log10(close)))}")
    rec.close("levels", s.eig, e.real[:-1], 1e-8, scale=max(1.0, Z * Z))
    coef = np.abs(np.linalg.solve(P, np.asarray(s.phi))[order])
    coef = coef / coef.max(axis=0)
    for i in range(nmo):
        rec.check("an orbital of its own level", np.argmax(coef[:, i]) == i)
        rec.close("part of other levels' orbitals", np.max(np.delete(coef[:, i], i)), 0.0, 0.05, scale=1.0)


def run_relations(case, rec):
    """constant shift, exchange of nuclei, uniform scaling, repeatability"""
    g, m, nmo, c, l = case["g"], case["m"], case["nmo"], case["c"], case["l"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = potential(case, r)
    e0 = floor(case, r, v)
    e, P, clean, sep = dense_levels(r, m, v, e0, nmo)
    if not (clean and sep):
        raise Skip("levels not separated")

    def solve(grid, v, e0):
        s = solver(grid, m, nmo, v, e0)
        s.calc_orbitals()
        return np.asarray(s.eig), np.asarray(s.phi)
    e1, p1 = solve(grid, v, e0)
    sc = max(1.0, np.max(np.abs(e1)))
    rec.nontrivial(case["Za"] != case["Zb"])

    def same(tag, p, q):
        for i in range(nmo):
            rec.close(f"{tag}: orbitals", parallel(r, p[:, i], q[:, i]), 0.0, 1e-8, scale=1.0)
    e2, p2 = solve(grid, v + c, e0 + c)
    rec.close("constant shift: levels", e2 - c, e1, 1e-8, scale=sc)
    same("constant shift", p2, p1)
    M = lambda x: np.asarray(x).reshape(r.Na, r.Nr, -1, order="F")[::-1].reshape(np.shape(x), order="F")
    e3, p3 = solve(grid, M(v), e0)
    rec.close("exchange of nuclei: levels", e3, e1, 1e-7, scale=sc)
    same("exchange of nuclei", M(p3), p1)
    e4, p4 = solve(cached_grid(dict(g, a=g["a"] / l)), v * l * l, e0 * l * l)
    rec.close("uniform scaling: levels", e4 / l ** 2, e1, 1e-7, scale=sc)
    same("uniform scaling", p4, p1)


def run_parity(case, rec):
    """with symmetrisation on, a homonuclear potential gives the same levels and orbitals of pure parity"""
    g, m, nmo = case["g"], case["m"], case["nmo"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, case["Za"], case["Za"])
    e0 = floor(dict(Za=case["Za"], Zb=case["Za"]), r, v)
    e, P, clean, sep = dense_levels(r, m, v, e0, nmo)
    if not (clean and sep):
        raise Skip("levels not separated")
    s = solver(grid, m, nmo, v, e0, sym=True)
    s.calc_orbitals()
    rec.nontrivial(nmo > 1)
    rec.close("levels with symmetrisation", s.eig, e, 1e-8, scale=max(1.0, np.max(np.abs(e))))
    M = lambda x: np.asarray(x).reshape(r.Na, r.Nr, order="F")[::-1].reshape(-1, order="F")
    for i in range(nmo):
        f = np.asarray(s.phi)[:, i]
        f = f / np.linalg.norm(f)
        par = 1 if np.dot(f, M(f)) > 0 else -1
        rec.label("even" if par > 0 else "odd")
        rec.close("pure parity", M(f), par * f, 1e-10, scale=1.0)
        rec.close("orbital direction with symmetrisation", parallel(r, f, P[:, i]), 0.0, 1e-8, scale=1.0)


def run_atom(case, rec):
    """hydrogen-like atom on either nucleus: lowest levels -Z^2 / (2 n^2), n > m"""
    m = case["m"]
    Z = case["za"] / case["g"]["a"]                  # Z a fixed: same resolution relative to the orbital
    n_ext = m + 1
    g = dict(case["g"], ratio=1 + 14.0 * n_ext ** 1.25 / case["za"])
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, Z, 0) if case["A"] else coul(r, 0, Z)
    s = solver(grid, m, 1, v, -0.75 * Z ** 2 / (m + 1) ** 2)
    s.calc_orbitals()
    rec.nontrivial(m > 0)
    rec.label(f"m={m}")
    rec.close("hydrogen-like level", float(s.eig[0]), -Z ** 2 / (2 * (m + 1) ** 2), 4e-3)


H2P = {0: -1.1026342, 1: -0.4287718}                # R = 2 bohr: 1 sigma_g, 1 pi_u


def run_h2p(case, rec):
    """H2+ at R = 2 scaled to any size: exact sigma_g, sigma_u and pi_u electronic energies"""
    Z = 1 / case["g"]["a"]
    g = dict(case["g"], ratio=case["edge"])
    grid, r = cached_grid(g), ref_mesh(g)
    m = case["m"]
    nmo = 2 if m == 0 else 1
    s = solver(grid, m, nmo, coul(r, Z, Z), -1.5 * Z ** 2)
    s.calc_orbitals()
    rec.nontrivial(True)
    rec.label(f"m={m}")
    want = [-1.1026342, -0.6675344] if m == 0 else [-0.4287718]
    rec.close("H2+ levels", np.asarray(s.eig), Z ** 2 * np.array(want), 3e-3)


def run_empty(case, rec):
    g = case["g"]
    grid = cached_grid(g)
    s = solver(grid, 0, 0, np.zeros(grid.Nelem), -1.0)
    s.calc_orbitals()
    rec.nontrivial(True)
    rec.check("a solver without orbitals reports a level below everything", np.ravel(s.eig).size == 1 and float(np.ravel(s.eig)[0]) < -1e10)


z = st.one_of(st.integers(0, 4), nice(0, 4, 32))
gen = lambda **kw: st.fixed_dictionaries(dict(g=phys_grid(), m=st.integers(0, 3), nmo=st.integers(1, 4), Za=z, Zb=z,
                                              f=st.one_of(st.just([]), smooth_params(2)), **kw))
fine = lambda lo, hi: st.fixed_dictionaries(dict(NP=st.sampled_from([3, 4, 5]), NMa=st.integers(5, 6), NMr=st.integers(lo, hi),
                                                 a=nice(0.4, 2.5), ratio=st.just(1.0), k=st.sampled_from([3, 4, 5])))
SUBCHECKS = [
    Sub("hamiltonian", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300), m=st.integers(0, 4), seed=seed)),
        run_hamiltonian, 100, 1000),
    Sub("dense", lambda: gen(dict=st.booleans(), pol=st.sampled_from([1, 2])), run_dense, 30, 250, shards=3),
    Sub("close", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130, a=(1, 4), ratio=(1.4, 3.0)), m=st.integers(0, 2), nmo=st.integers(2, 3),
        za=st.integers(8, 20).map(lambda i: i / 2), d=st.integers(-30, -9).map(lambda i: 10 ** (i / 4)))), run_close, 12, 120, shards=2),
    Sub("relations", lambda: gen(c=nice(-2, 2), l=nice(0.4, 2.5)), run_relations, 12, 100, shards=2),
    Sub("parity", lambda: gen(), run_parity, 20, 150),
    Sub("parity_many", lambda: gen().map(lambda c: dict(c, nmo=c["nmo"] + 3)), run_parity, 15, 150),
    Sub("atom", lambda: st.fixed_dictionaries(dict(g=fine(7, 9), za=nice(0.6, 2), m=st.integers(0, 2), A=st.booleans())),
        run_atom, 8, 60, shards=2),
    Sub("h2p", lambda: st.fixed_dictionaries(dict(g=fine(6, 9), edge=nice(12, 16), m=st.integers(0, 1))), run_h2p, 6, 50),
    Sub("empty", lambda: st.fixed_dictionaries(dict(g=phys_grid())), run_empty, 5, 20, tshards=1),
]
