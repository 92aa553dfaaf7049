"""C04: Laplacian, gradient and divergence operators of the mesh."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, rng_field, nice, smooth_params, fd_coeffs, large_grids

PROPERTY = "C04"
QUICK_SCALE = 4
RULE = ("random meshes x rough fields against an independently assembled prolate-spheroidal stencil (including "
        "the outer-boundary correction), and random smooth functions of (y^2, z) against closed-form "
        "derivatives; non-trivial = stencil half-width >= 2 and angular != radial point count")
ASSUMPTIONS = ["fields passed to gradient are even about the bond axis (m even), vectors odd, as documented"]

seed = st.integers(0, 2 ** 31 - 1)


def run_gradient(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = rng_field(case["seed"], r.n)
    rec.nontrivial(g["k"] >= 2 and r.Na != r.Nr)
    ga, gr = r.grad(f)
    rec.close("h * angular gradient", r.h * (grid.grada @ f), r.h * ga, 1e-9, scale=1 / r.ha)
    rec.close("h * radial gradient", r.h * (grid.gradr @ f), r.h * gr, 1e-9, scale=1 / r.hr)
    one = np.ones(r.n)
    rec.close("angular gradient of a constant", r.h * (grid.grada @ one), 0 * one, 1e-9, scale=1 / r.ha)


def run_divergence(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    fa, fr = rng_field(case["seed"], r.n), rng_field(case["seed"] + 1, r.n)
    rec.nontrivial(g["k"] >= 2 and r.Na != r.Nr)
    s = np.max(r.h * r.h3)
    da, dr = r.div(fa, fr)
    rec.close("w * angular divergence", r.w * (grid.diva @ fa), r.w * da, 1e-9, scale=s / r.ha)
    rec.close("w * radial divergence", r.w * (grid.divr @ fr), r.w * dr, 1e-9, scale=s / r.hr)


def run_laplacian(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = rng_field(case["seed"], r.n)
    rec.nontrivial(g["k"] >= 2 and r.Na != r.Nr)
    s = g["a"] * g["ratio"] * (1 / r.ha ** 2 + 1 / r.hr ** 2)
    # rows near the inner end are orders of magnitude smaller: compare row by row as well
    row = np.repeat(np.sinh(r.xr) / r.ha ** 2 + np.sinh(r.xr) / r.hr ** 2 + np.cosh(r.xr) / r.hr, r.Na) * g["a"]
    for name, par in (("elap", 1), ("olap", -1)):
        got, want = getattr(grid, name) @ f, r.lap(f, par)
        rec.close(f"{name} on a rough field", got, want, 1e-9, scale=s)
        rec.close(f"{name} rows", got / row, want / row, 1e-8, scale=1.0)


def run_boundary(case, rec):
    """operator + outer-boundary block = stencil on the mesh extended beyond the box"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    k = g["k"]
    rec.nontrivial(k >= 2 and r.Na != r.Nr)
    F = rng_field(case["seed"], (r.Na, r.Nr + k))
    got = (grid.elap @ F[:, :r.Nr].reshape(-1, order="F")).reshape(r.Na, r.Nr, order="F").copy()
    got[:, -k:] += np.asarray(grid.blap @ F[:, r.Nr:].reshape(-1, order="F")).reshape(r.Na, k, order="F")
    c1 = [float(x) for x in fd_coeffs(k, 1)]
    c2 = [float(x) for x in fd_coeffs(k, 2)]
    ext = np.concatenate([F[:, :k][:, ::-1], F], axis=1)
    d1 = sum(c1[m] * ext[:, m:m + r.Nr] for m in range(2 * k + 1)) / r.hr
    d2 = sum(c2[m] * ext[:, m:m + r.Nr] for m in range(2 * k + 1)) / r.hr ** 2
    sa, ca = np.sin(r.xa)[:, None], np.cos(r.xa)[:, None]
    sr, cr = np.sinh(r.xr)[None], np.cosh(r.xr)[None]
    In = F[:, :r.Nr]
    want = g["a"] * (sr * (sa * (r.D("a", 2, 1) @ In) + ca * (r.D("a", 1, 1) @ In)) + sa * (sr * d2 + cr * d1))
    rec.close("Laplacian with values beyond the box", got, want, 1e-9,
              scale=g["a"] * g["ratio"] * (1 / r.ha ** 2 + 1 / r.hr ** 2))


def run_symmetry(case, rec):
    """exchange of the nuclei commutes with the operators (angular components change sign)"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = rng_field(case["seed"], r.n)
    M = lambda x: np.asarray(x).reshape(r.Na, r.Nr, order="F")[::-1].reshape(-1, order="F")
    rec.nontrivial(r.Na != r.Nr)
    s = g["a"] * g["ratio"] * (1 / r.ha ** 2 + 1 / r.hr ** 2)
    rec.close("Laplacian (even)", grid.elap @ M(f), M(grid.elap @ f), 1e-11, scale=s)
    rec.close("Laplacian (odd)", grid.olap @ M(f), M(grid.olap @ f), 1e-11, scale=s)
    rec.close("radial gradient", r.h * (grid.gradr @ M(f)), r.h * M(grid.gradr @ f), 1e-11, scale=1 / r.hr)
    rec.close("angular gradient", r.h * (grid.grada @ M(f)), -r.h * M(grid.grada @ f), 1e-11, scale=1 / r.ha)
    s = np.max(r.h * r.h3)
    rec.close("radial divergence", r.w * (grid.divr @ M(f)), r.w * M(grid.divr @ f), 1e-11, scale=s / r.hr)
    rec.close("angular divergence", r.w * (grid.diva @ M(f)), -r.w * M(grid.diva @ f), 1e-11, scale=s / r.ha)


def run_analytic(case, rec):
    """closed-form gradient, divergence of the gradient, and Laplacian for m = 0 and m = 1 functions"""
    g, a = case["g"], case["g"]["a"]
    grid, r = cached_grid(g), ref_mesh(g)
    y, z = r.Y / a, r.Z / a
    f = fy = fz = lap = 0.0
    o = olap = 0.0
    for t in case["f"]:
        q = (z - t["z0"]) ** 2 + y ** 2
        e = t["c"] * np.exp(-t["al"] * q)
        P = 1 + t["p"] * z
        f = f + P * e
        fy = fy - 2 * t["al"] * y * P * e
        fz = fz + (t["p"] - 2 * t["al"] * (z - t["z0"]) * P) * e
        lap = lap + (P * (4 * t["al"] ** 2 * q - 6 * t["al"]) - 4 * t["p"] * t["al"] * (z - t["z0"])) * e
        o = o + y * P * e
        olap = olap + y * (P * (4 * t["al"] ** 2 * q - 10 * t["al"]) - 4 * t["p"] * t["al"] * (z - t["z0"])) * e
    f, o = np.broadcast_to(f, r.n), np.broadcast_to(o, r.n)
    S, C, s, c = np.sinh(r.Xr), np.cosh(r.Xr), np.sin(r.Xa), np.cos(r.Xa)
    hh = r.h / a
    ga = (fy * S * c - fz * C * s) / hh / a
    gr = (fy * C * s + fz * S * c) / hh / a
    inner = np.arange(r.n) < r.n - 2 * g["k"] * r.Na
    sel = lambda v: np.asarray(v)[inner]
    scale = float(np.max(np.abs(lap))) or 1.0
    rec.nontrivial(np.max(np.abs(f)) > 1e-3 and r.Na != r.Nr)
    gs = max(np.max(np.abs(ga)), np.max(np.abs(gr)), 1e-12)
    tol = 2e-3 if g["k"] == 3 else 5e-4
    rec.close("angular gradient", sel(grid.grada @ f), sel(ga), tol, scale=gs)
    rec.close("radial gradient", sel(grid.gradr @ f), sel(gr), tol, scale=gs)
    # integrated against the volume element (w alone vanishes on the axis, so divide by h^2 only)
    wt = r.w / np.max(r.w)
    rec.close("Laplacian (m even)", sel(wt * (grid.elap @ f) / r.w), sel(wt * lap / a ** 2), tol * 4, scale=scale / a ** 2)
    rec.close("divergence of the gradient", sel(wt * (grid.diva @ ga + grid.divr @ gr)), sel(wt * lap / a ** 2),
              tol * 12, scale=scale / a ** 2)
    rec.close("Laplacian (m = 1)", sel(wt * ((grid.olap @ o) / r.w - 2 * grid.f * o)), sel(wt * olap / a ** 2), tol * 4,
              scale=(float(np.max(np.abs(olap))) or 1.0) / a ** 2)


gs = lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=500), seed=seed))


def st_analytic():
    return st.fixed_dictionaries(dict(
        g=st.fixed_dictionaries(dict(NP=st.sampled_from([4, 5]), NMa=st.integers(9, 12), NMr=st.integers(10, 14),
                                     a=nice(0.3, 5), ratio=nice(2.5, 5), k=st.sampled_from([3, 4, 5]))),
        f=smooth_params(2)))


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_gradient, run_divergence, run_laplacian, run_boundary, run_symmetry,):
        f(case, rec)


SUBCHECKS = [
    Sub("gradient", gs, run_gradient, 80, 800),
    Sub("divergence", gs, run_divergence, 80, 800),
    Sub("laplacian", gs, run_laplacian, 80, 800),
    Sub("boundary", gs, run_boundary, 60, 600),
    Sub("symmetry", gs, run_symmetry, 40, 400),
    Sub("analytic", st_analytic, run_analytic, 15, 150, shards=2),
    Sub("large", lambda: st.fixed_dictionaries(dict(g=large_grids(), seed=seed)), run_large, 6, 60, shards=2),
]
