"""C07: Hartree potential (Poisson equation) and the factorised Laplacian."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, rng_field, nice, call_sequence, call_order, call_fields, smooth_params, smooth, large_grids

PROPERTY = "C07"
QUICK_SCALE = 4
RULE = ("random meshes x rough signed densities (residual of the discrete Poisson equation with an independently "
        "computed multipole boundary term), linear combinations, and closed-form potentials of exponential "
        "charge clouds; non-trivial = the boundary term and the source are both non-negligible / two spins")
ASSUMPTIONS = ["the boundary values are the multipole expansion through order 7, as coded"]
seed = st.integers(0, 2 ** 31 - 1)


def H(grid):
    from CADMium.hartree.hartree import Hartree
    return Hartree(grid)


def legendre(l, x):
    return np.polynomial.legendre.legval(x, [0] * l + [1])


def run_factor(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    x = rng_field(case["seed"], r.n)
    rec.nontrivial(r.Na != r.Nr)
    s = g["a"] * g["ratio"] * (1 / r.ha ** 2 + 1 / r.hr ** 2)
    rec.close("L U x = Laplacian x", grid.L_lap @ (grid.U_lap @ x), r.lap(x), 1e-8, scale=s)


def boundary_rhs(r, g, n):
    """w-weighted source including what the ghost shells contribute, reference version"""
    k = g["k"]
    a = r.a
    bxr = (r.Nr + np.arange(k) + .5) * r.hr
    bXr, bXa = np.repeat(bxr, r.Na), np.tile(r.xa, k)
    bz, by = a * np.cosh(bXr) * np.cos(bXa), a * np.sinh(bXr) * np.sin(bXa)
    R, bR = np.hypot(r.Y, r.Z), np.hypot(by, bz)
    V = np.zeros(len(bR))
    for l in range(8):
        Q = r.integrate(R ** l * legendre(l, r.Z / R) * n)
        V += Q * legendre(l, bz / bR) / bR ** (l + 1)
    from common import fd_coeffs
    c1 = [float(x) for x in fd_coeffs(k, 1)]
    c2 = [float(x) for x in fd_coeffs(k, 2)]
    ext = np.zeros((r.Na, r.Nr + 2 * k))
    ext[:, r.Nr + k:] = V.reshape(r.Na, k, order="F")
    d1 = sum(c1[m] * ext[:, m:m + r.Nr] for m in range(2 * k + 1)) / r.hr
    d2 = sum(c2[m] * ext[:, m:m + r.Nr] for m in range(2 * k + 1)) / r.hr ** 2
    B = a * np.sin(r.xa)[:, None] * (np.sinh(r.xr)[None] * d2 + np.cosh(r.xr)[None] * d1)
    return -4 * math.pi * r.w * n, B.reshape(-1, order="F")


def run_poisson(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = rng_field(case["seed"], (r.n, 2)) + case["bias"]
    cols = case["cols"]
    arg = n if cols == 2 else n[:, :1] if cols == 1 else n[:, 0]
    keep = arg.copy()
    vh = np.asarray(H(grid).v_hartree(arg))
    rec.check("the density was changed", np.array_equal(keep, arg))
    tot = n.sum(axis=1) if cols == 2 else n[:, 0]
    rec.check("potential has one column per spin", vh.shape == (r.n, max(cols, 1)), str(vh.shape))
    if cols == 2:
        rec.check("both spins feel the same potential", np.array_equal(vh[:, 0], vh[:, 1]))
    src, B = boundary_rhs(r, g, tot)
    rec.label(f"cols={cols}")
    rec.nontrivial(np.max(np.abs(B)) > 1e-3 * np.max(np.abs(src)) and r.Na != r.Nr)
    scale = max(np.max(np.abs(src)), np.max(np.abs(B)),
                np.max(np.abs(vh)) * g["a"] * g["ratio"] * (1 / r.ha ** 2 + 1 / r.hr ** 2) * 1e-3)
    rec.close("discrete Poisson equation", r.lap(vh[:, 0]), src - B, 1e-6, scale=scale)
    # away from the boundary shells the residual is local: compare row by row there
    inner = np.arange(r.n) < r.n - g["k"] * r.Na
    if inner.any():
        rec.close("Poisson equation inside", r.lap(vh[:, 0])[inner], src[inner], 1e-8, scale=scale)


def run_laws(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    h = H(grid)
    n1 = np.abs(rng_field(case["s1"], (r.n, 2)))
    n2 = np.abs(rng_field(case["s2"], (r.n, 2)))
    c = case["c"]
    v1, v2 = (np.asarray(h.v_hartree(x)) for x in (n1, n2))
    s = np.max(np.abs(v1)) + np.max(np.abs(v2))
    rec.nontrivial(True)
    rec.close("linearity", h.v_hartree(n1 + c * n2), v1 + c * v2, 1e-8, scale=s)
    rec.close("spin blindness", h.v_hartree(n1[:, ::-1]), v1, 1e-8, scale=s)
    rec.close("only the total density matters", np.asarray(h.v_hartree(n1.sum(axis=1)))[:, 0], v1[:, 0], 1e-8, scale=s)
    M = lambda x: np.asarray(x).reshape(r.Na, r.Nr, -1, order="F")[::-1].reshape(np.shape(x), order="F")
    rec.close("exchange of nuclei", h.v_hartree(M(n1)), M(v1), 1e-7, scale=s)
    e = np.asarray(h.e_hartree(n1))
    rec.close("energy per particle is half the potential", e[:, 0], 0.5 * v1[:, 0], 1e-8, scale=s)
    small = cached_grid(dict(g, a=g["a"] / case["l"]))
    l = case["l"]
    rec.close("uniform scaling", H(small).v_hartree(n1 * l ** 3), l * v1, 1e-7, scale=l * s)
    # repeating a call on the same object gives the same answer
    rec.close("repeatable", h.v_hartree(n1), v1, 1e-12, scale=s)


def run_analytic(case, rec):
    """exponential charge clouds on either nucleus: V = q (1 - e^(-2 z r)(1 + z r)) / r; E_H = 5/16 q^2 z"""
    g, a = case["g"], case["g"]["a"]
    g = dict(g, ratio=1 + 24.0 / (2 * min(case["zA"], case["zB"])))
    grid, r = cached_grid(g), ref_mesh(g)
    zA, zB = case["zA"] / a, case["zB"] / a
    qA, qB = case["qA"], case["qB"]
    rho = lambda q, z, d: q * z ** 3 / math.pi * np.exp(-2 * z * d)
    V = lambda q, z, d: q * (1 - np.exp(-2 * z * d) * (1 + z * d)) / d
    n = np.column_stack([rho(qA, zA, r.rA), rho(qB, zB, r.rB)])
    want = V(qA, zA, r.rA) + V(qB, zB, r.rB)
    vh = np.asarray(H(grid).v_hartree(n))
    rec.nontrivial(qA * qB != 0)
    sc = max(abs(qA * zA), abs(qB * zB), 1e-6)
    rec.close("closed-form potential", vh[:, 0], want, 4e-3, scale=sc)
    far = np.arange(r.n) >= r.n - 2 * r.Na
    rec.close("potential at the box edge", vh[far, 0], want[far], 1e-3,
              scale=(abs(qA) + abs(qB) + 1e-6) / (a * g["ratio"]))
    if qB == 0:
        e = np.asarray(H(grid).e_hartree(n))[:, 0]
        rec.close("closed-form energy", r.integrate(e * n.sum(axis=1)), 5 / 16 * qA ** 2 * zA, 4e-3,
                  scale=max(5 / 16 * qA ** 2 * zA, 1e-9))


def st_analytic():
    return st.fixed_dictionaries(dict(
        g=st.fixed_dictionaries(dict(NP=st.sampled_from([4, 5, 6, 7]), NMa=st.integers(7, 9), NMr=st.integers(12, 16),
                                     a=nice(0.3, 4), ratio=st.just(1.0), k=st.sampled_from([3, 4, 5]))),
        zA=nice(0.8, 2.0), zB=nice(0.8, 2.0), qA=nice(0.5, 6, 22), qB=st.one_of(st.just(0.0), nice(0.5, 6, 22))))


def run_calls(case, rec):
    """one object asked again and again: potentials and energies, one or two columns, other objects on other meshes in between"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    h, other = H(grid), H(cached_grid(dict(g, a=g["a"] * 1.25)))
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    rec.label(f"cols={case['cols']}")
    fields = call_fields(case["seed"], r.n, case["cols"])
    names = ["v_hartree"] if case["cols"] == 0 else ["v_hartree", "e_hartree"]
    for name in names:
        def f(n, name=name):
            if case["between"]:
                other.v_hartree(fields[0] * 0.5)
                if case["cols"] == 2:
                    h.v_hartree(np.array(n[:, 0]))
            return getattr(h, name)(n)
        call_sequence(rec, name, f, fields, case["order"], tol=1e-10)


gs = lambda **kw: st.fixed_dictionaries(dict(g=grid_params(max_elem=300, min_n=3), **kw))


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_factor, run_poisson):
        f(case, rec)


SUBCHECKS = [
    Sub("factor", lambda: gs(seed=seed), run_factor, 40, 400),
    Sub("poisson", lambda: gs(seed=seed, cols=st.sampled_from([0, 1, 2]), bias=st.sampled_from([0.0, 0.7])),
        run_poisson, 60, 600, shards=2),
    Sub("laws", lambda: gs(s1=seed, s2=seed, c=nice(-2, 3), l=nice(0.4, 2.5)), run_laws, 30, 300),
    Sub("analytic", st_analytic, run_analytic, 6, 60, shards=2),
    Sub("calls", lambda: gs(seed=st.integers(0, 2 ** 31 - 2), cols=st.integers(0, 2), between=st.booleans(), order=call_order(6)), run_calls, 15, 150),
    Sub("large", lambda: st.fixed_dictionaries(dict(g=large_grids(), seed=seed, cols=st.sampled_from([0, 1, 2]), bias=st.sampled_from([0.0, 0.7]))), run_large, 3, 30, shards=2),
]
