"""C11: iterative orbital refinement reaches the directly computed orbitals."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip
from common import phys_grid, cached_grid, ref_mesh, nice, smooth_params, smooth, coul, dense_levels, ref_H, parallel, capacity

PROPERTY = "C11"
QUICK_SCALE = 4
RULE = ("orbitals solved for one potential, then a smooth perturbation is applied and the refinement step repeated; "
        "oracle is a dense eigen-decomposition at the new potential; non-trivial = the perturbation moves a level by "
        "more than 1e-4 and there is more than one orbital or m > 0")
ASSUMPTIONS = ["the perturbation is small against the level spacing, the documented use inside an SCF cycle"]


def run(case, rec):
    from CADMium import Pssolver
    g, m, pol, nmo = case["g"], case["m"], case["pol"], case["nmo"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, case["Za"], case["Zb"])
    e0 = -1.5 * max(case["Za"], case["Zb"]) ** 2 - 1.5
    dv = smooth(case["f"], r.Y, r.Z, r.a)
    e1, P1, clean1, sep1 = dense_levels(r, m, v, e0, nmo)
    if not (clean1 and sep1):
        raise Skip("levels not separated")
    gap = 0.03 * min(1.0, *(np.diff(np.concatenate([e1, [dense_levels(r, m, v, e0, nmo + 1)[0][-1]]]))))
    dv = dv * case["amp"] * abs(gap) / max(np.max(np.abs(dv)), 1e-12)
    v2 = v + dv
    e2, P2, clean2, sep2 = dense_levels(r, m, v2, e0, nmo)
    if not (clean2 and sep2):
        raise Skip("levels not separated")
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1), {"iter_lin_solver": case["krylov"]})[m, pol - 1]
    s.hamiltonian()
    s.setveff(v)
    s.e0 = e0
    s.calc_orbitals()
    s.setveff(v2)
    out = {}
    for i in range(6):
        if i == 5:
            s.iter_orbitals("k", out)
        else:
            s.iter_orbitals()
    sc = max(1.0, np.max(np.abs(e2)))
    rec.nontrivial(np.max(np.abs(e1 - e2)) > 1e-4 and (nmo > 1 or m > 0))
    rec.label(f"krylov={case['krylov']}", f"m={m}", f"nmo={nmo}")
    eig, phi = np.asarray(out["k"][0]), np.asarray(out["k"][1])
    rec.close("refined levels", eig, e2, 1e-7, scale=sc)
    for i in range(nmo):
        rec.close("refined orbitals", parallel(r, phi[:, i], P2[:, i]), 0.0, 1e-7, scale=1.0)
        rec.close("norm of the refined orbitals", r.integrate(phi[:, i] ** 2), capacity(m, pol), 1e-6)
    rec.close("levels kept on the solver", s.eig, eig, 1e-14)


def run_fixed(case, rec):
    """at an unchanged potential the refinement leaves converged orbitals where they are"""
    from CADMium import Pssolver
    g, m, pol, nmo = case["g"], case["m"], case["pol"], case["nmo"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, case["Za"], case["Zb"])
    e0 = -1.5 * max(case["Za"], case["Zb"]) ** 2 - 1.5
    e1, P1, clean, sep = dense_levels(r, m, v, e0, nmo)
    if not (clean and sep):
        raise Skip("levels not separated")
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1), {"iter_lin_solver": case["krylov"]})[m, pol - 1]
    s.hamiltonian()
    s.setveff(v)
    s.e0 = e0
    if case["prior"]:
        s.calc_orbitals()
    s.iter_orbitals()
    rec.nontrivial(nmo > 1)
    rec.label(f"prior={case['prior']}")
    rec.close("levels unchanged", s.eig, e1, 1e-8, scale=max(1.0, np.max(np.abs(e1))))
    for i in range(nmo):
        rec.close("orbitals unchanged", parallel(r, s.phi[:, i], P1[:, i]), 0.0, 1e-8, scale=1.0)


def run_crossing(case, rec):
    """a mirror-symmetric change large enough to reorder levels of different symmetry: the refinement
    returns eigenpairs of the new Hamiltonian, lowest level first"""
    from CADMium import Pssolver
    g, m, pol, nmo = case["g"], case["m"], case["pol"], case["nmo"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, case["Z"], case["Z"])
    e0 = -1.5 * case["Z"] ** 2 - 1.5
    e1, P1, clean, sep = dense_levels(r, m, v, e0, nmo)
    if not (clean and sep):
        raise Skip("levels not separated")
    s = Pssolver(grid, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1), {"iter_lin_solver": case["krylov"]})[m, pol - 1]
    s.hamiltonian()
    s.setveff(v)
    s.e0 = e0
    s.calc_orbitals()
    if case["how"] == "reverse":           # the same potential, orbitals handed over in another order
        s.eig, s.phi, v2 = s.eig[::-1].copy(), s.phi[:, ::-1].copy(), v
    else:
        y = np.exp(-case["al"] * ((r.Z / r.a) ** 2 + (r.Y / r.a) ** 2))
        v2 = v + case["c"] * np.min(np.diff(e1)) * y
    s.setveff(v2)
    # orbitals that were exact but in another order are in order at once
    for i in range(case["steps"] if case["how"] == "reverse" else 8):
        s.iter_orbitals()
    rec.label(case["how"], f"{case['how']} m={m}")
    eig, phi = np.asarray(s.eig), np.asarray(s.phi)
    rec.check("levels in ascending order", np.all(np.diff(eig) >= -1e-9), str(eig))
    for i in range(nmo):
        for j in range(i):
            rec.check("the same orbital twice", parallel(r, phi[:, i] * np.sqrt(r.w), phi[:, j] * np.sqrt(r.w)) > 0.3, f"levels {eig}")
    Hm = ref_H(r, m) + np.diag(v2)
    if case["how"] == "cross" and case["c"] > 6:
        for i in range(20):
            s.iter_orbitals()
        if np.max(np.abs(np.asarray(s.eig) - eig)) > 1e-9 * max(1.0, np.max(np.abs(eig))):
            raise Skip("a change too large to be followed in eight steps")
    for i in range(nmo):
        q = r.w * (Hm @ phi[:, i] - eig[i] * phi[:, i])
        rec.close("eigenpairs belong together", q / np.max(np.abs(phi[:, i])), 0 * q, 1e-6, scale=np.max(np.abs(r.w * np.diag(Hm))))
    odd = lambda p: np.sum(r.w * p * r.unsquare(r.square(p)[::-1])) < 0
    rec.nontrivial(case["how"] == "reverse" or [odd(P1[:, i]) for i in range(nmo)] != [odd(phi[:, i]) for i in range(nmo)])
    if case["how"] == "reverse":
        rec.close("levels", eig, e1, 1e-8, scale=max(1.0, np.max(np.abs(e1))))
        for i in range(nmo):
            rec.close("orbitals", parallel(r, phi[:, i], P1[:, i]), 0.0, 1e-8, scale=1.0)


base = dict(m=st.integers(0, 2), pol=st.sampled_from([1, 2]), nmo=st.integers(1, 3), Za=nice(1, 4, 12), Zb=nice(0, 4, 12),
            krylov=st.booleans())
SUBCHECKS = [
    Sub("refine", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130), f=smooth_params(2), amp=nice(0.2, 2), **base)),
        run, 12, 100, shards=3),
    Sub("fixed", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130), prior=st.booleans(), **base)), run_fixed, 15, 100),
    Sub("crossing", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130), m=st.integers(0, 2), pol=st.sampled_from([1, 2]),
        nmo=st.integers(2, 4), Z=nice(0.5, 3, 10), krylov=st.booleans(), how=st.sampled_from(["cross", "cross", "reverse"]), steps=st.sampled_from([1, 1, 2, 8]),
        c=nice(0.5, 15), al=nice(0.5, 4, 14))), run_crossing, 20, 150),
]
