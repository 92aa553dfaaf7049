"""C08: nuclear attraction potentials."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, nice, call_sequence, call_order

PROPERTY = "C08"
QUICK_SCALE = 4
RULE = ("random meshes x nuclear charges (0, integer, fractional; equal or different) through the potential "
        "routine, a molecule and a partitioned molecule; non-trivial = the charges differ")
ASSUMPTIONS = []
charge = st.one_of(st.integers(0, 12), nice(0, 12, 96), st.sampled_from([26, 79, 118, 1e-6, 1e5]))


def rel(rec, what, got, want, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    rec.check(what, got.shape == want.shape, f"shape {got.shape} != {want.shape}")
    s = np.abs(want) + (np.max(np.abs(want)) == 0)
    rec.close(what, got / np.where(s == 0, 1, s), want / np.where(s == 0, 1, s), tol, scale=1.0)


def run_formula(case, rec):
    from CADMium.common.coulomb import coulomb
    g, Za, Zb = case["g"], case["Za"], case["Zb"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(Za != Zb)
    v = np.asarray(coulomb(grid, Za, Zb))
    rel(rec, "-Za/rA - Zb/rB", v, -Za / r.rA - Zb / r.rB)
    # the nucleus charges in Cartesian terms: first nucleus at z=-a
    rel(rec, "Cartesian distances", v, -Za / np.hypot(np.asarray(grid.Z) + g["a"], np.asarray(grid.Y))
        - Zb / np.hypot(np.asarray(grid.Z) - g["a"], np.asarray(grid.Y)), 1e-8)
    M = lambda x: x.reshape(r.Na, r.Nr, order="F")[::-1].reshape(-1, order="F")
    rel(rec, "exchange of the nuclei", M(v), np.asarray(coulomb(grid, Zb, Za)), 1e-9)
    rel(rec, "superposition", v, np.asarray(coulomb(grid, Za, 0)) + np.asarray(coulomb(grid, 0, Zb)), 1e-9)


def run_molecule(case, rec):
    from CADMium import Kohnsham
    g, Za, Zb, pol = case["g"], case["Za"], case["Zb"], case["pol"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(Za != Zb)
    rec.label(f"pol={pol}", f"sym={case['sym']}")
    one = [[1] * pol]
    ks = Kohnsham(grid, Za, Zb, pol, one, one, {"interaction_type": case["it"], "sym": case["sym"]})
    v = -Za / r.rA - Zb / r.rB
    if case["sym"]:
        v = 0.5 * (v + (-Za / r.rB - Zb / r.rA))
    rel(rec, "molecular nuclear potential", ks.vnuc, np.repeat(v[:, None], pol, axis=1))


def run_fragments(case, rec):
    from CADMium import Partition
    g, Za, Zb, pol = case["g"], case["Za"], case["Zb"], case["pol"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(Za != Zb)
    n = [[1] * pol]
    nu = case["nu"]
    N = n if nu == 1 else [n, n]
    p = Partition(grid, Za, Zb, pol, N, N, nu, N, N, nu, {"interaction_type": case["it"]})
    A, B = -Za / r.rA, -Zb / r.rB
    rep = lambda v: np.repeat(v[:, None], pol, axis=1)
    rel(rec, "potential of nucleus A", p.va, A)
    rel(rec, "potential of nucleus B", p.vb, B)
    rel(rec, "potential of both nuclei", p.V.vext, rep(A + B))
    ks = [(p.KSa, A), (p.KSb, B)] + ([(p.KSA, A), (p.KSB, B)] if nu != 1 else [])
    for k, v in ks:
        rel(rec, "each fragment feels only its own nucleus", k.vnuc, rep(v))


def run_calls(case, rec):
    from CADMium.common.coulomb import coulomb
    grid = cached_grid(case["g"])
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    Z = [np.array([case["Za"], case["Zb"]], float), np.array([case["Zb"], case["Za"]], float),
         np.array([case["Za"], case["Za"]], float), np.array([case["Za"] + 1e-6, case["Zb"]], float)]
    call_sequence(rec, "coulomb", lambda z: coulomb(grid, float(z[0]), float(z[1])), Z, case["order"], tol=1e-13)


base = dict(Za=charge, Zb=charge)
SUBCHECKS = [
    Sub("formula", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=600), **base)), run_formula, 100, 1000),
    Sub("molecule", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=150), pol=st.sampled_from([1, 2]),
        sym=st.booleans(), it=st.sampled_from(["dft", "ni"]), **base)), run_molecule, 60, 600),
    Sub("fragments", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=150), pol=st.sampled_from([1, 2]),
        nu=st.sampled_from([1, 1.0, 0.5, 0.0, 0.3]), it=st.sampled_from(["dft", "ni"]), **base)), run_fragments, 60, 600),
    Sub("calls", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), order=call_order(), **base)), run_calls, 20, 200),
]
