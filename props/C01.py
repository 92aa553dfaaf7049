"""C01: mesh geometry and metric of the prolate-spheroidal grid."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, make_grid, ref_mesh, nice, large_grids

PROPERTY = "C01"
QUICK_SCALE = 4
RULE = ("Hypothesis draws block counts, points per block (2..9), stencil half-width (1..5), half bond "
        "length and box size and builds the real grid; non-trivial = angular and radial point counts differ")
ASSUMPTIONS = ["stencils are symmetric (-k..k), the only shape the operators are written for"]

TOL = 1e-9


def elementwise(rec, what, got, want, tol=TOL):
    """relative error of every element separately (metric factors span decades)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    rec.check(what, got.shape == want.shape, f"shape {got.shape} != {want.shape}")
    rec.close(what, got / want, np.ones_like(want), tol)


def run_geometry(g, rec):
    grid, r = make_grid(g), ref_mesh(g)
    rec.nontrivial(r.Na != r.Nr)
    rec.label(f"NP={g['NP']}", f"k={g['k']}")
    rec.check("point counts", (grid.Na, grid.Nr, grid.Nelem) == (r.Na, r.Nr, r.Na * r.Nr),
              f"{(grid.Na, grid.Nr, grid.Nelem)} != {(r.Na, r.Nr, r.Na * r.Nr)}")
    rec.close("angular spacing", grid.ha, r.ha, TOL)
    rec.close("radial spacing", grid.hr, r.hr, TOL)
    elementwise(rec, "angular cell midpoints", grid.xa, r.xa)
    elementwise(rec, "radial cell midpoints", grid.xr, r.xr)
    elementwise(rec, "flattened angular coordinate", grid.Xa, r.Xa)
    elementwise(rec, "flattened radial coordinate", grid.Xr, r.Xr)
    rec.close("Z", grid.Z, r.Z, TOL, scale=g["a"])
    elementwise(rec, "Y", grid.Y, r.Y)
    # distances to the two foci, straight from the Cartesian coordinates
    rec.close("distance to focus at -a", np.hypot(grid.Z + g["a"], grid.Y), r.rA, TOL)
    rec.close("distance to focus at +a", np.hypot(grid.Z - g["a"], grid.Y), r.rB, TOL)
    # on shell of constant Xr the sum of the distances is constant: 2 a cosh(Xr)
    rec.check("all points inside the box",
              np.all(np.hypot(grid.Z + g["a"], grid.Y) + np.hypot(grid.Z - g["a"], grid.Y)
                     < 2 * g["a"] * g["ratio"] * (1 + 1e-12)), "")


def run_metric(g, rec):
    grid, r = make_grid(g), ref_mesh(g)
    rec.nontrivial(r.Na != r.Nr)
    for name, h in (("h1", grid.h1), ("h2", grid.h2)):
        elementwise(rec, f"scale factor {name}", h, r.h)
    elementwise(rec, "scale factor h3", grid.h3, r.h3)
    elementwise(rec, "volume element", grid.w, r.w)
    # 1/(2 Y^2): the potential m^2/(2 Y^2) of orbital angular momentum about the bond axis
    elementwise(rec, "angular momentum potential", grid.f, 0.5 / r.Y ** 2, 1e-8)
    # every metric factor is symmetric under exchange of the nuclei, exactly
    for name in ("w", "f", "h1", "h2", "h3", "Y"):
        v = np.asarray(getattr(grid, name)).reshape(r.Na, r.Nr, order="F")
        rec.close(f"mirror symmetry of {name}", v[::-1], v, 1e-13)
    v = grid.Z.reshape(r.Na, r.Nr, order="F")
    rec.close("mirror antisymmetry of Z", -v[::-1], v, 1e-13)


def run_boundary(g, rec):
    grid, r = make_grid(g), ref_mesh(g)
    rec.nontrivial(g["k"] >= 2)
    rec.check("ghost shells", grid.bcN == g["k"], f"{grid.bcN} shells, stencil reaches {g['k']}")
    bxr = (r.Nr + np.arange(g["k"]) + 0.5) * r.hr
    elementwise(rec, "ghost radial coordinate", grid.bXr, np.repeat(bxr, r.Na))
    elementwise(rec, "ghost angular coordinate", grid.bXa, np.tile(r.xa, g["k"]))


NAMES = ("xa", "xr", "Xa", "Xr", "Y", "Z", "w", "wi", "f", "h1", "h2", "h3", "bXa", "bXr")


def against_oracle(rec, tag, grid, g):
    r = ref_mesh(g)
    rec.check(f"{tag}: point counts", (grid.Na, grid.Nr, grid.Nelem) == (r.Na, r.Nr, r.n),
              f"{(grid.Na, grid.Nr, grid.Nelem)} != {(r.Na, r.Nr, r.n)}")
    for n, want in (("xa", r.xa), ("xr", r.xr), ("Xa", r.Xa), ("Xr", r.Xr), ("Y", r.Y), ("h1", r.h), ("h2", r.h),
                    ("h3", r.h3), ("w", r.w), ("f", 0.5 / r.Y ** 2)):
        elementwise(rec, f"{tag}: {n}", getattr(grid, n), want, 1e-8)
    rec.close(f"{tag}: Z", grid.Z, r.Z, TOL, scale=g["a"])
    rec.close(f"{tag}: integration weights", np.asarray(grid.wi).ravel(), r.weights(), 1e-6)
    rec.close(f"{tag}: spacings", [grid.ha, grid.hr], [r.ha, r.hr], TOL)


def run_reinit(case, rec):
    """initialising twice, and a second grid that shares part of the parameters, give the right mesh."""
    g, g2 = case["g"], sibling(case["g"], case["how"], case["g2"])
    one = make_grid(g)
    saved = {n: np.array(getattr(one, n)) for n in NAMES}
    two = make_grid(g2)
    rec.nontrivial(g != g2)
    rec.label(case["how"])
    against_oracle(rec, "second grid", two, g2)     # nothing left over from the first
    for n in NAMES:                                 # and the first is not disturbed
        rec.close(f"{n} after another grid was built", getattr(one, n), saved[n], 1e-15)
    one.initialize()
    for n in NAMES:
        rec.close(f"{n} after initialising again", getattr(one, n), saved[n], 1e-13)


def sibling(g, how, other):
    """a second parameter set that shares what a careless cache could be keyed on"""
    if how == "other":
        return other
    if how == "swap":
        return dict(g, NMa=g["NMr"], NMr=g["NMa"])
    if how in ("a", "ratio", "k"):
        v = other[how]
        if how == "k":                              # keep at least 2k points per direction
            v = min(v, ((g["NP"] - 1) * min(g["NMa"], g["NMr"]) + 1) // 2)
        return dict(g, **{how: max(v, 1)})
    if how == "blocks":                             # same point counts from other block sizes
        na, nr = (g["NP"] - 1) * g["NMa"], (g["NP"] - 1) * g["NMr"]
        c = [p for p in range(2, 10) if p != g["NP"] and na % (p - 1) == 0 and nr % (p - 1) == 0]
        return dict(g, NP=c[-1], NMa=na // (c[-1] - 1), NMr=nr // (c[-1] - 1)) if c else other
    if how == "NP":                                 # same block counts, other block size
        return dict(g, NP=other["NP"]) if ((other["NP"] - 1) * min(g["NMa"], g["NMr"]) + 1) >= 2 * g["k"] else other
    raise AssertionError(how)


def run_scale(case, rec):
    """lengths are proportional to the half bond length."""
    g, s = case["g"], case["s"]
    a, b = make_grid(g), make_grid(dict(g, a=g["a"] * s))
    rec.nontrivial(abs(s - 1) > 0.05)
    for n, p in (("Z", 1), ("Y", 1), ("h1", 1), ("h2", 1), ("h3", 1), ("w", 3), ("f", -2),
                 ("Xa", 0), ("Xr", 0), ("wi", 0)):
        rec.close(f"{n} scales as a^{p}", getattr(b, n), getattr(a, n) * s ** p, 1e-10)


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_geometry, run_metric, run_boundary,):
        f(case, rec)


def wide(**kw):
    """boxes from just beyond the nuclei to thousands of bond lengths"""
    return st.tuples(grid_params(**kw), st.sampled_from([None] * 4 + [1.05, 1.2, 40.0, 400.0, 3000.0])).map(lambda t: dict(t[0], ratio=t[1] or t[0]["ratio"]))


SUBCHECKS = [
    Sub("geometry", lambda: wide(max_elem=700), run_geometry, 60, 600, shards=2),
    Sub("metric", lambda: wide(max_elem=700), run_metric, 60, 600),
    Sub("boundary", lambda: wide(max_elem=700), run_boundary, 50, 500),
    Sub("reinit", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300), g2=grid_params(max_elem=300),
                                                     how=st.sampled_from(["blocks", "other", "swap", "a", "ratio", "k", "NP"]))),
        run_reinit, 40, 300),
    Sub("scale", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300), s=nice(0.25, 4))),
        run_scale, 25, 200),
    Sub("large", lambda: large_grids(), run_large, 2, 30, shards=2),
]
