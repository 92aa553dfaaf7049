"""C06: data layout - exchange of nuclei, spin flip, 2-D view, plotting arrays."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, rng_field, nice, call_sequence, call_order, call_fields, smooth_params, smooth, large_grids

PROPERTY = "C06"
QUICK_SCALE = 4
RULE = ("random meshes x fields with layout (n,), (n,1), (n,2), (n,3); non-trivial = more than one column or "
        "a mesh with different angular and radial counts")
ASSUMPTIONS = ["plotting arrays are defined for single-column fields (what every caller passes)"]
seed = st.integers(0, 2 ** 31 - 1)


def field(case, r):
    c = case["cols"]
    return rng_field(case["seed"], (r.n, c) if c else (r.n,))


def run_mirror(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = field(case, r)
    keep = f.copy()
    rec.nontrivial(r.Na != r.Nr and case["cols"] >= 1)
    rec.label(f"cols={case['cols']}")
    m = np.asarray(grid.mirror(f))
    rec.check("mirror changed its argument", np.array_equal(keep, f))
    rec.check("mirror keeps the layout", m.shape == f.shape, str(m.shape))
    # element (ia, ir) of the result is element (Na-1-ia, ir) of the input, every column alike
    i = np.arange(r.n)
    ia, ir = i % r.Na, i // r.Na
    rec.check("mirror image, point by point", np.array_equal(m, f[(r.Na - 1 - ia) + r.Na * ir]))
    rec.check("mirror is an involution", np.array_equal(np.asarray(grid.mirror(m)), f))


def run_mirror_space(case, rec):
    """mirror of F(y, z) is F(y, -z)"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    F = lambda z: smooth(case["f"], r.Y, z, g["a"]) + 0.3 * z / g["a"]
    cols = np.column_stack([F(r.Z), F(r.Z) ** 2])
    rec.nontrivial(True)
    rec.close("mirror in space", np.asarray(grid.mirror(cols)), np.column_stack([F(-r.Z), F(-r.Z) ** 2]), 1e-9,
              scale=max(1.0, np.max(np.abs(cols))))


def run_square(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = field(case, r)
    cols = max(case["cols"], 1)
    s = np.asarray(grid.square(f))
    rec.nontrivial(r.Na != r.Nr and cols > 1)
    rec.check("2-D view shape", s.shape == (r.Na, r.Nr, cols), str(s.shape))
    flat = f.reshape(r.n, cols)
    want = np.empty((r.Na, r.Nr, cols))
    for c in range(cols):
        for ir in range(r.Nr):
            want[:, ir, c] = flat[ir * r.Na:(ir + 1) * r.Na, c]
    rec.check("2-D view values", np.array_equal(s, want))


def run_spinflip(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = field(case, r)
    keep = f.copy()
    out = np.asarray(grid.spinflip(f))
    rec.nontrivial(case["cols"] == 2)
    rec.check("spin flip keeps the layout", out.shape == f.shape, str(out.shape))
    want = keep if f.ndim == 1 else keep[:, ::-1]
    rec.check("spin flip reverses the columns and nothing else", np.array_equal(out, want))
    rec.check("spin flip twice is the identity", np.array_equal(np.asarray(grid.spinflip(out)), keep))
    rec.check("spin flip changed its argument", np.array_equal(f, keep))
    rec.check("spin flip commutes with exchange of nuclei",
              np.array_equal(np.asarray(grid.mirror(np.asarray(grid.spinflip(f)))),
                             np.asarray(grid.spinflip(np.asarray(grid.mirror(f))))))


def run_plotter(case, rec):
    """full-plane arrays: the value at (X, Z) is the field at (|X|, Z), times the parity for X < 0"""
    g, par = case["g"], case["par"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = rng_field(case["seed"], r.n)
    if case["col"]:
        f = f[:, None]
    full, Zf, Xf = (np.asarray(v) for v in (grid.plotter(f) if par == 1 and case["dflt"] else grid.plotter(f, 1, par)))
    rec.nontrivial(par == -1 or r.Na != r.Nr)
    shape = (r.Na + 2, 2 * r.Nr)
    rec.check("plot arrays have one shape", full.shape == Zf.shape == Xf.shape == shape,
              f"{full.shape} {Zf.shape} {Xf.shape}, expected {shape}")
    f = f.ravel()
    # independent lookup: nearest mesh point in (|X|, Z)
    P = np.round(np.column_stack([r.Y, r.Z]) / g["a"], 9)
    idx = {}
    for i, p in enumerate(P):
        idx[(float(p[0]) + 0.0, float(p[1]) + 0.0)] = i
    tree = None
    from scipy.spatial import cKDTree
    tree = cKDTree(np.column_stack([r.Y, r.Z]))
    d, i = tree.query(np.column_stack([np.abs(Xf).ravel(), Zf.ravel()]))
    rec.close("plotted points are mesh points", d, 0 * d, 1e-9, scale=g["a"])
    want = f[i].reshape(shape) * np.where(Xf < 0, par, 1)
    rec.check("plotted values sit at their coordinates", np.array_equal(full, want),
              f"{int(np.sum(full != want))} of {full.size} differ")
    rec.check("both half planes are covered", set(np.unique(i)) == set(range(r.n))
              and np.sum(Xf > 0) >= r.n and np.sum(Xf < 0) >= r.n)


def run_axis(case, rec):
    """values along the bond axis: ascending positions, each with the field value of that mesh point"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    f = rng_field(case["seed"], r.n)
    xs, ys = (np.asarray(v) for v in grid.axis_plot(f))
    rec.nontrivial(r.Na != r.Nr)
    rec.check("positions ascend", xs.shape == ys.shape and np.all(np.diff(xs) >= 0))
    pos = {float(z): set() for z in grid.Z}
    for i, z in enumerate(grid.Z):
        pos[float(z)].add(float(f[i]))
    bad = [x for x, y in zip(xs, ys) if float(y) not in pos.get(float(x), ())]
    rec.check("every value belongs to a mesh point at that position", not bad, str(bad[:3]))
    have = set(zip(xs.tolist(), ys.tolist()))
    first = set(zip(np.asarray(grid.Z)[:r.Na].tolist(), f[:r.Na].tolist()))
    rec.check("the whole shell between the nuclei is present", first <= have)
    ends = {(float(grid.Z[j * r.Na]), float(f[j * r.Na])) for j in range(r.Nr)}
    rec.check("the axis end of every shell is present", ends <= have, str(sorted(ends - have)[:3]))


def run_calls(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    rec.label(f"{case['f']} cols={case['cols']}")
    f = getattr(grid, case["f"])
    if case["f"] == "plotter":
        f = lambda x: grid.plotter(x, 1, case["par"])
    call_sequence(rec, case["f"], f, call_fields(case["seed"], r.n, 0 if case["f"] == "plotter" else case["cols"]), case["order"], views=True)


gs = lambda n=300: st.fixed_dictionaries(dict(g=grid_params(max_elem=n), seed=seed, cols=st.sampled_from([0, 1, 2, 3])))


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_mirror, run_square, run_spinflip):
        f(case, rec)


SUBCHECKS = [
    Sub("mirror", gs, run_mirror, 80, 800),
    Sub("mirror-space", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300), f=smooth_params(2))),
        run_mirror_space, 40, 400),
    Sub("square", gs, run_square, 60, 600),
    Sub("spinflip", gs, run_spinflip, 60, 600),
    Sub("plotter", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), seed=seed, par=st.sampled_from([1, -1]),
                                                      col=st.booleans(), dflt=st.booleans())), run_plotter, 60, 600),
    Sub("axis", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200, min_n=3), seed=seed)), run_axis, 40, 400),
    Sub("calls", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), seed=st.integers(0, 2 ** 31 - 2), cols=st.sampled_from([0, 1, 2, 3]),
        par=st.sampled_from([1, -1]), f=st.sampled_from(["mirror", "square", "spinflip", "plotter"]), order=call_order())), run_calls, 30, 300),
    Sub("large", lambda: st.fixed_dictionaries(dict(g=large_grids(), seed=seed, cols=st.sampled_from([0, 1, 2, 3]))), run_large, 8, 80, shards=2),
]
