"""C05: gradient contractions and reduced density gradient, per spin."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Violation
from common import gradient_bound, grid_params, cached_grid, ref_mesh, rng_field, nice, call_sequence, call_order, call_fields, smooth_params, smooth, large_grids

PROPERTY = "C05"
QUICK_SCALE = 4
RULE = ("random meshes x rough positive or smooth densities with 1 or 2 spin columns; non-trivial = two "
        "different spin columns with a non-negligible cross term")
ASSUMPTIONS = ["reduced gradient is compared where the density is positive (the code leaves 0/0 undefined)"]

seed = st.integers(0, 2 ** 31 - 1)


def dens(case, r, cols):
    """rough positive columns, in the regimes a density can be in"""
    n = np.abs(rng_field(case["seed"], (r.n, cols))) + 0.05
    mode, e = case["mode"], 10.0 ** -case["p"]
    if cols > 1 and mode == "nearly closed":        # spins equal up to a small, rough or uniform difference
        n[:, 1] = n[:, 0] * (1 + e * (n[:, 1] if case["seed"] % 2 else 1))
    elif cols > 1 and mode == "one spin":           # a nearly or completely empty second column
        n[:, 1] *= 0 if case["p"] > 3.5 else e ** 2
    elif mode == "tails":                           # decays by up to 40 orders of magnitude
        n = n * np.exp(-case["p"] * 8 * (r.Xr / r.L))[:, None] * np.array([1.0, 0.3])[:cols]
    elif mode == "dilute":
        n = n * e ** 3
    elif mode == "dense":
        n = n / e ** 2
    return n


def pointwise(rec, what, got, want, tol, scale):
    """agreement at every point relative to that point's own scale"""
    got, want = np.asarray(got), np.asarray(want)
    rec.check(what, got.shape == want.shape, f"shape {got.shape} != {want.shape}")
    rec.check(what, np.all(np.isfinite(got)), "not finite")
    scale = np.maximum(scale, 1e-280)
    rec.close(what, got / scale, want / scale, tol, scale=1.0)


def run_sigma(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = dens(case, r, 2)
    G = [r.grad(n[:, s]) for s in range(2)]
    dot = lambda s, t: G[s][0] * G[t][0] + G[s][1] * G[t][1]
    unit = r.h ** 2
    B = [gradient_bound(r, n[:, s]) for s in range(2)]
    keep = n.copy()
    got = np.asarray(grid.sigma(n))
    rec.check("sigma changed its argument", np.array_equal(keep, n))
    rec.nontrivial(np.max(np.abs(unit * dot(0, 1)) / np.maximum(B[0] * B[1], 1e-280)) > 1e-3)
    rec.label(case["mode"])
    rec.check("sigma layout for two spins", got.shape == (r.n, 3), str(got.shape))
    for col, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
        pointwise(rec, f"contraction of spins {s}{t}", unit * got[:, col], unit * dot(s, t), 1e-9, B[s] * B[t])
    one = np.asarray(grid.sigma(n[:, :1]))
    rec.check("sigma layout for one spin", one.shape == (r.n, 1), str(one.shape))
    pointwise(rec, "squared gradient (one column)", unit * one[:, 0], unit * dot(0, 0), 1e-9, B[0] ** 2)


def run_laws(case, rec):
    g, c = case["g"], case["c"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = dens(dict(case, mode="rough" if case["mode"] not in ("nearly closed", "one spin") else case["mode"]), r, 2)
    S = lambda x: np.asarray(grid.sigma(x))
    u = (r.h ** 2)[:, None]
    sc = 1 / r.ha ** 2 + 1 / r.hr ** 2
    s = S(n)
    rec.nontrivial(True)
    tot = S(n.sum(axis=1, keepdims=True))
    rec.close("sum over spins", u * (s[:, :1] + 2 * s[:, 1:2] + s[:, 2:]), u * tot, 1e-10, scale=sc)
    rec.close("spin flip", u * S(n[:, ::-1]), u * s[:, ::-1], 1e-12, scale=sc)
    M = lambda x: x.reshape(r.Na, r.Nr, -1, order="F")[::-1].reshape(x.shape, order="F")
    rec.close("exchange of the nuclei", u * S(M(n)), u * M(s), 1e-10, scale=sc)
    rec.close("homogeneity", u * S(c * n), u * c * c * s, 1e-10, scale=sc * max(1, c * c))
    rec.check("diagonal contractions are not negative", np.all(s[:, [0, 2]] >= 0))
    rec.check("Cauchy-Schwarz", np.all(s[:, 1] ** 2 <= s[:, 0] * s[:, 2] * (1 + 1e-9) + 1e-300))
    same = S(np.column_stack([n[:, 0], n[:, 0]]))
    rec.close("equal spins", u * same, u * np.repeat(S(n[:, :1]), 3, axis=1), 1e-10, scale=sc)


def sgrad(r, m):
    """reduced gradient of a total density m"""
    ga, gr = r.grad(m)
    return np.sqrt(ga ** 2 + gr ** 2) / (2 * (3 * np.pi ** 2) ** (1 / 3) * m ** (4 / 3))


def run_reduced(case, rec):
    g, c = case["g"], case["c"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = dens(case, r, 2)
    if not np.all(n > 0):
        n[:, 1] = n[:, 0] * 1e-9
    n *= c
    u = r.h[:, None]
    got = np.asarray(grid.reduced_grad(n))
    rec.nontrivial(True)
    rec.label(case["mode"])
    # error each point can have, from the size of the gradient before cancellation
    b = np.column_stack([gradient_bound(r, n[:, s]) * n[:, s] ** (-4 / 3) for s in range(2)])
    rec.check("layout", got.shape == (r.n, 2), str(got.shape))
    want = np.column_stack([sgrad(r, 2 * n[:, 0]), sgrad(r, 2 * n[:, 1])])
    pointwise(rec, "reduced gradient of each spin", u * got, u * want, 1e-7, b)
    one = np.asarray(grid.reduced_grad(n[:, :1]))
    rec.check("layout (one column)", one.shape == (r.n, 1), str(one.shape))
    pointwise(rec, "reduced gradient", u[:, 0] * one[:, 0], u[:, 0] * sgrad(r, n[:, 0]), 1e-7, b[:, 0])
    # unpolarised limit: equal halves give twice the value of the total density
    tot = n[:, :1]
    half = np.asarray(grid.reduced_grad(np.repeat(tot / 2, 2, axis=1)))
    pointwise(rec, "equal spins reproduce the unpolarised value", u * half, u * np.repeat(one, 2, axis=1), 1e-7, b[:, :1])
    # s of n(l r) l^3 is s(n)(l r): through the mesh this is a -> a/l at unchanged coordinates
    l = case["l"]
    small = cached_grid(dict(g, a=g["a"] / l))
    pointwise(rec, "invariant under uniform scaling of the density", u * np.asarray(small.reduced_grad(n * l ** 3)), u * got,
              1e-7, b)


def run_exponential(case, rec):
    """n = N exp(-2 z r_A): s = z / ((3 pi^2)^(1/3) n^(1/3)) in closed form"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    z = case["z"] / g["a"]
    rr = r.rA if case["A"] else r.rB
    n = case["N"] * np.exp(-2 * z * rr)[:, None]
    inner = (np.arange(r.n) < r.n - 2 * g["k"] * r.Na)
    want = (z / ((3 * np.pi ** 2) ** (1 / 3) * n ** (1 / 3)))[inner]
    rec.nontrivial(r.Na != r.Nr)
    rec.close("reduced gradient of an exponential / closed form", np.asarray(grid.reduced_grad(n))[inner] / want,
              np.ones_like(want), 2e-2)
    sg = np.asarray(grid.sigma(n))[inner]
    rec.close("squared gradient of an exponential / closed form", sg / (2 * z * n[inner]) ** 2, np.ones_like(want), 2e-2)


def run_reject(case, rec):
    """three density columns are refused, not silently truncated"""
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(True)
    try:
        grid.sigma(np.ones((r.n, case["cols"])))
    except ValueError:
        return
    raise Violation(f"{case['cols']} density columns were accepted")


def st_exp():
    return st.fixed_dictionaries(dict(
        g=st.fixed_dictionaries(dict(NP=st.sampled_from([4, 5]), NMa=st.integers(9, 12), NMr=st.integers(10, 14),
                                     a=nice(0.3, 5), ratio=nice(2.5, 5), k=st.sampled_from([3, 4, 5]))),
        z=nice(0.3, 1.2), N=nice(0.1, 5), A=st.booleans()))


def run_calls(case, rec):
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    rec.label(f"{case['f']} cols={case['cols']}")
    call_sequence(rec, case["f"], getattr(grid, case["f"]), call_fields(case["seed"], r.n, case["cols"], positive=True), case["order"])


gs = lambda n=400: st.fixed_dictionaries(dict(g=grid_params(max_elem=n), seed=seed, c=nice(0.1, 4), l=nice(0.3, 3),
                                          mode=st.sampled_from(MODES), p=nice(0.5, 5, 18)))
MODES = ["rough", "nearly closed", "one spin", "tails", "dilute", "dense"]


def run_large(case, rec):
    """the same relations on meshes of production size"""
    for f in (run_sigma, run_laws, run_reduced):
        f(case, rec)


SUBCHECKS = [
    Sub("sigma", gs, run_sigma, 80, 800),
    Sub("laws", gs, run_laws, 60, 600),
    Sub("reduced", gs, run_reduced, 60, 600),
    Sub("exponential", st_exp, run_exponential, 20, 200),
    Sub("reject", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=60), seed=seed, cols=st.integers(3, 5))),
        run_reject, 10, 30, tshards=1),
    Sub("calls", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), seed=st.integers(0, 2 ** 31 - 2), cols=st.integers(1, 2),
        f=st.sampled_from(["sigma", "reduced_grad"]), order=call_order())), run_calls, 25, 250),
    Sub("large", lambda: st.fixed_dictionaries(dict(g=large_grids(), seed=seed, c=nice(0.1, 4), l=nice(0.3, 3), mode=st.sampled_from(MODES), p=nice(0.5, 5, 18))), run_large, 5, 60, shards=2),
]
