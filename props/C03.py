"""C03: finite-difference coefficients and one-dimensional derivative operators."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, rng_field, fd_coeffs, call_sequence, call_order, large_grids

PROPERTY = "C03"
QUICK_SCALE = 4
RULE = ("random stencils (any distinct integer offsets, any derivative order) against exact rational Lagrange "
        "weights; random meshes x every derivative operator on rough fields and trigonometric modes; "
        "non-trivial = at least 5 stencil points / stencil half width >= 2")
ASSUMPTIONS = ["stencils of up to 11 points with offsets in -6..6; derivative order up to 4"]


def exact(xs, deriv):
    import math
    out = []
    for j, xj in enumerate(xs):
        poly, den = [Fraction(1)], Fraction(1)
        for m, xm in enumerate(xs):
            if m == j:
                continue
            poly = [Fraction(0)] + poly
            for i in range(len(poly) - 1):
                poly[i] -= xm * poly[i + 1]
            den *= xj - xm
        out.append(float(poly[deriv] * math.factorial(deriv) / den))
    return np.array(out)


def run_coeffs(case, rec):
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fdc
    xs, d = case["xs"], case["deriv"] % len(case["xs"])
    rec.nontrivial(len(xs) >= 5)
    rec.label(f"points={len(xs)}", f"deriv={d}")
    c = np.asarray(fdc(np.array(xs), d))
    want = exact(xs, d)
    rec.close("coefficients", c, want, 1e-6, scale=max(1.0, np.max(np.abs(want))))


def run_central(case, rec):
    """the central stencils every grid uses, to near machine precision"""
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fdc
    k, d = case["k"], case["deriv"]
    rec.nontrivial(k >= 2)
    c = np.asarray(fdc(np.array(range(-k, k + 1)), d))
    want = np.array([float(x) for x in fd_coeffs(k, d)])
    rec.close("central coefficients", c, want, 1e-9)


OPS = [("eDa1", "a", 1, 1), ("oDa1", "a", 1, -1), ("eDa2", "a", 2, 1), ("oDa2", "a", 2, -1),
       ("eDr1", "r", 1, 1), ("oDr1", "r", 1, -1), ("eDr2", "r", 2, 1), ("oDr2", "r", 2, -1)]


def run_operators(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(g["k"] >= 2 and r.Na != r.Nr)
    rec.label(f"k={g['k']}")
    for name, ax, d, par in OPS:
        n, h = (r.Na, r.ha) if ax == "a" else (r.Nr, r.hr)
        v = rng_field(case["seed"], n)
        M = r.D(ax, d, par)
        rec.close(f"{name} on a rough field", np.asarray(getattr(grid, name)) @ v, M @ v, 1e-9, scale=1 / h ** d)


def run_modes(case, rec):
    """angular operators on cos/sin(j x): exactly the dispersion relation of the stencil, j below Nyquist"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    j = 1 + case["j"] % (r.Na - 1)
    k = g["k"]
    rec.nontrivial(k >= 2 and j > 1)
    c1 = [float(x) for x in fd_coeffs(k, 1)]
    c2 = [float(x) for x in fd_coeffs(k, 2)]
    s1 = sum(c1[k + m] * np.sin(m * j * r.ha) for m in range(-k, k + 1)) / r.ha
    s2 = sum(c2[k + m] * np.cos(m * j * r.ha) for m in range(-k, k + 1)) / r.ha ** 2
    C, S = np.cos(j * r.xa), np.sin(j * r.xa)
    rec.close("d/dx of an even mode", np.asarray(grid.eDa1) @ C, -s1 * S, 1e-9, scale=1 / r.ha)
    rec.close("d/dx of an odd mode", np.asarray(grid.oDa1) @ S, s1 * C, 1e-9, scale=1 / r.ha)
    rec.close("d2/dx2 of an even mode", np.asarray(grid.eDa2) @ C, s2 * C, 1e-9, scale=1 / r.ha ** 2)
    rec.close("d2/dx2 of an odd mode", np.asarray(grid.oDa2) @ S, s2 * S, 1e-9, scale=1 / r.ha ** 2)
    one = np.ones(r.Na)
    rec.close("derivative of a constant", np.asarray(grid.eDa1) @ one, 0 * one, 1e-9, scale=1 / r.ha)
    rec.close("second derivative of a constant", np.asarray(grid.eDa2) @ one, 0 * one, 1e-9, scale=1 / r.ha ** 2)


def run_ghost(case, rec):
    """radial operator plus the outer-boundary correction = the same stencil on the extended line"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    k = g["k"]
    rec.nontrivial(k >= 2)
    full = rng_field(case["seed"], r.Nr + k)
    for d, bc in ((1, grid.bc1), (2, grid.bc2)):
        c = [float(x) for x in fd_coeffs(k, d)]
        for name, par in ((f"eDr{d}", 1), (f"oDr{d}", -1)):
            ext = np.concatenate([par * full[:k][::-1], full])
            want = np.array([sum(c[m] * ext[i + m] for m in range(2 * k + 1)) for i in range(r.Nr)]) / r.hr ** d
            got = np.asarray(getattr(grid, name)) @ full[:r.Nr]
            got[-k:] += np.asarray(bc) @ full[r.Nr:]
            rec.close(f"{name} with outer values", got, want, 1e-9, scale=1 / r.hr ** d)


def run_calls(case, rec):
    """the same coefficients whatever was asked before and whatever became of the arrays handed out"""
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fdc
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    k = case["k"]
    fields = [np.append(np.arange(-k, k + 1), 1), np.append(np.arange(-k, k + 1), 2),
              np.append(np.arange(0, 2 * k + 1), 1), np.append(np.arange(-k, k + 1)[::-1], 1)]
    call_sequence(rec, "coefficients", lambda x: fdc(x[:-1], int(x[-1])), fields, case["order"], tol=1e-12)


offsets = st.lists(st.integers(-6, 6), min_size=2, max_size=9, unique=True)
seed = st.integers(0, 2 ** 31 - 1)
gs = lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=400), seed=seed))


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_operators, run_ghost,):
        f(case, rec)


SUBCHECKS = [
    Sub("coefficients", lambda: st.fixed_dictionaries(dict(xs=offsets, deriv=st.integers(0, 4))), run_coeffs, 150, 3000),
    Sub("central", lambda: st.fixed_dictionaries(dict(k=st.integers(1, 5), deriv=st.integers(1, 2))), run_central, 10, 10, tshards=1),
    Sub("operators", gs, run_operators, 80, 800),
    Sub("modes", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=400), j=st.integers(0, 40))), run_modes, 80, 800),
    Sub("ghost", gs, run_ghost, 60, 600),
    Sub("calls", lambda: st.fixed_dictionaries(dict(k=st.integers(1, 5), order=call_order())), run_calls, 20, 200),
    Sub("large", lambda: st.fixed_dictionaries(dict(g=large_grids(), seed=seed)), run_large, 6, 60, shards=2),
]
