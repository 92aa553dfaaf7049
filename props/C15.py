"""C15: a Kohn-Sham solution does not depend on labels, history or starting point."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import phys_grid, cached_grid, ref_mesh, nice, smooth_params, smooth, systems, kohnsham, inline_processes
from props.C14 import reference

PROPERTY = "C15"
RULE = ("random systems solved twice in two equivalent ways (nuclei exchanged, spins exchanged, spin-restricted and "
        "unrestricted, symmetry option, continued, restarted, started from another density, shifted or rescaled "
        "potential); non-trivial = the two runs are not identical computations by construction")
ASSUMPTIONS = ["an independent self-consistent iteration converges for the system and is stable against small changes of the "
               "starting density (other cases are skipped and counted)"]
OPT = {"disp": False, "e_tol": 1e-9, "maxiter": 400}


def solve(grid, s, scf={}, prep=None, **opt):
    ks = kohnsham(grid, s, **opt)
    if prep:
        prep(ks)
    ks.scf(dict(OPT, **scf))
    return ks


class Different(Violation):
    """two calculations ended at different densities"""


def same(rec, what, r, a, b, n_map=lambda n: n, tol=3e-5, shift=0.0):
    na, nb = np.asarray(a.n), n_map(np.asarray(b.n))
    N = max(r.integrate(na.sum(axis=1)), 1e-3)
    if na.shape == nb.shape and not r.integrate(np.abs(na - nb).sum(axis=1)) < tol * N:
        e = Different(f"{what}: densities differ by {r.integrate(np.abs(na - nb).sum(axis=1)) / N:.2e}")
        e.pair = na, nb
        e.runs = (a, b)
        raise e
    rec.close(f"{what}: density", r.integrate(np.abs(na - nb).sum(axis=1)), 0.0, tol, scale=N)
    sc = sum(abs(float(getattr(a.E, k))) for k in ("Ts", "Enuc"))
    for k in ("E", "Ts", "Enuc") + (("Eh", "Ex", "Ec") if hasattr(a.E, "Eh") else ()):
        rec.close(f"{what}: energy {k}", float(getattr(b.E, k)), float(getattr(a.E, k)), tol, scale=sc)
    rec.close(f"{what}: chemical potential", float(b.u) - shift, float(a.u), tol, scale=1 + abs(float(a.u)))


def mirror(r):
    return lambda n: np.column_stack([r.unsquare(r.square(n[:, j])[::-1]) for j in range(n.shape[1])])


def flip(n):
    return n[:, ::-1]


def staggered(case, r):
    """a field acting on one spin as its mirror image acts on the other"""
    if not case.get("field"):
        return 0.0
    f = case["field"] * np.tanh(r.Z / r.a) * np.exp(-r.Y / r.a)
    return np.column_stack([f, -f])


def guarded(body):
    """the two solutions may only differ where the self-consistent problem itself is ambiguous"""
    def run(case, rec):
        ref_case = dict(case, alpha=0.5)
        r = ref_mesh(case["g"])
        vext = staggered(case, r)
        grid, r, ref = reference(ref_case, rec, vext=vext, ni=case.get("ni", False))
        rec.nontrivial()
        rec.label(f"pol={case['s']['pol']} rows={len(case['s']['N'])}")
        with inline_processes():
            try:
                body(case, rec, grid, r)
            except Different as e:
                if all(np.all(np.isfinite(n)) and ref.stationary(n, vext) for n in e.pair):
                    raise Skip("several self-consistent solutions")
                if not case.get("ni") and ref.unstable(vext, 0.5):
                    raise Skip("several self-consistent solutions")
                for ks in e.runs:           # a limit cycle of the mixing: one more step still moves the density
                    if hasattr(ks, "scf"):
                        n = np.asarray(ks.n).copy()
                        ks.scf(dict(OPT, continuing=True, maxiter=2, iterative=case["it"]))
                        if not r.integrate(np.abs(np.asarray(ks.n) - n).sum(axis=1)) < 1e-6 * r.integrate(n.sum(axis=1)) \
                                and case["it"]:
                            raise Skip("the mixing does not converge")
                raise
            except Violation:
                if not case.get("ni") and ref.unstable(vext, 0.5):
                    raise Skip("several self-consistent solutions")
                raise
    return run


def exchange_nuclei(case, rec, grid, r):
    s = case["s"]
    a = solve(grid, s, {"iterative": case["it"]})
    b = solve(grid, dict(s, Za=s["Zb"], Zb=s["Za"]), {"iterative": case["it"]})
    same(rec, "nuclei exchanged", r, a, b, mirror(r))


def exchange_spins(case, rec, grid, r):
    s = case["s"]
    a = solve(grid, s, {"iterative": case["it"]})
    b = solve(grid, dict(s, N=[x[::-1] for x in s["N"]], Nmo=[x[::-1] for x in s["Nmo"]]), {"iterative": case["it"]})
    same(rec, "spins exchanged", r, a, b, flip)


def unrestricted(case, rec, grid, r):
    """a spin-restricted calculation equals the unrestricted one with equal spins"""
    s = case["s"]
    a = solve(grid, s, {"iterative": case["it"]})
    b = solve(grid, dict(s, pol=2, N=[[x[0] / 2] * 2 for x in s["N"]], Nmo=[[x[0]] * 2 for x in s["Nmo"]]), {"iterative": case["it"]})
    same(rec, "unrestricted", r, a, b, lambda n: n.sum(axis=1)[:, None])
    rec.close("equal spin densities", np.asarray(b.n)[:, 0], np.asarray(b.n)[:, 1], 1e-4, scale=np.max(b.n))


def history(case, rec, grid, r):
    """continuing, restarting and other starting densities end at the same place"""
    s = case["s"]
    it, how = case["it"], case["how"]
    a = solve(grid, s, {"iterative": it})
    n0, E0 = np.asarray(a.n).copy(), float(a.E.E)

    class Kept:
        pass
    k, k.E = Kept(), Kept()
    k.n, k.u = n0, float(a.u)
    for x in ("E", "Ts", "Enuc", "Eh", "Ex", "Ec"):
        setattr(k.E, x, float(getattr(a.E, x)))
    if how == "continue":
        a.scf(dict(OPT, continuing=True, iterative=it))
        same(rec, "continued", r, k, a)
    elif how == "restart":
        a.scf(dict(OPT, iterative=it))
        same(rec, "restarted", r, k, a)
    elif how == "perturbed":
        shape = smooth(case["f"], r.Y, r.Z, r.a)
        shape = 0.02 * shape / max(np.max(np.abs(shape)), 1e-9)
        a.n = n0 * (1 + shape[:, None])
        a.scf(dict(OPT, continuing=True, iterative=it))
        same(rec, "continued from a changed density", r, k, a)
    elif how == "fresh":
        b = kohnsham(grid, s)
        b.n = n0.copy()
        b.scf(dict(OPT, continuing=True, iterative=it))
        same(rec, "new object continued from a density", r, k, b)
    else:                              # loose run first, then tightened
        b = kohnsham(grid, s)
        b.scf(dict(OPT, e_tol=1e-3, iterative=it))
        b.scf(dict(OPT, continuing=True, iterative=it))
        same(rec, "converged in two stages", r, k, b)
    rec.label(how)


def shifted(case, rec, grid, r):
    """a constant added to the potential moves levels only"""
    s, c = case["s"], case["c"]
    a = solve(grid, s, {"iterative": case["it"]})

    def prep(ks):
        ks.vext = np.full((r.n, s["pol"]), c)
    b = solve(grid, s, {"iterative": case["it"]}, prep=prep)
    same(rec, "shifted", r, a, b, shift=c)


def symmetric(case, rec, grid, r):
    """the symmetry option reproduces the plain calculation of a homonuclear system and is exactly symmetric"""
    s = case["s"]
    a = solve(grid, s, {"iterative": case["it"]})
    b = solve(grid, s, {"iterative": case["it"]}, sym=True)
    same(rec, "symmetry option", r, a, b)
    n = np.asarray(b.n)
    rec.close("exact mirror symmetry", mirror(r)(n), n, 1e-12, scale=np.max(n))
    rec.close("mirror symmetry of the potential", mirror(r)(np.asarray(b.vhxc)), np.asarray(b.vhxc), 1e-12,
              scale=np.max(np.abs(b.vhxc)))


def spinflip(case, rec, grid, r):
    """with the spin-flip mirror option the two spin densities are mirror images"""
    s = case["s"]
    vext = staggered(case, r)

    def prep(ks):
        if case["field"]:
            ks.vext = vext.copy()
    b = solve(grid, s, {"iterative": case["it"], "spinflipsym": True}, prep=prep)
    n = np.asarray(b.n)
    rec.label("broken spin symmetry" if np.max(np.abs(n[:, 0] - n[:, 1])) > 1e-3 * np.max(n) else "equal spins")
    rec.close("spin densities are mirror images", mirror(r)(n)[:, ::-1], n, 1e-12, scale=np.max(n))
    a = solve(grid, s, {"iterative": case["it"]}, prep=prep)
    same(rec, "spin-flip symmetry", r, a, b)


def scaled(case, rec, grid, r):
    """independent electrons: lengths/lambda, charges*lambda gives energies*lambda^2"""
    s, lam, g = case["s"], case["lam"], case["g"]
    a = solve(grid, s, interaction_type="ni")
    g2 = dict(g, a=g["a"] / lam)
    r2 = ref_mesh(g2)
    b = solve(cached_grid(g2), dict(s, Za=s["Za"] * lam, Zb=s["Zb"] * lam), interaction_type="ni")
    sc = abs(float(a.E.Ts)) + abs(float(a.E.Enuc))
    for k in ("Et", "Ts", "Enuc"):
        rec.close(f"scaled energy {k}", float(getattr(b.E, k)) / lam ** 2, float(getattr(a.E, k)), 1e-7, scale=sc)
    rec.close("scaled density", np.asarray(b.n) / lam ** 3, np.asarray(a.n), 1e-6, scale=np.max(a.n))
    rec.close("scaled chemical potential", float(b.u) / lam ** 2, float(a.u), 1e-7, scale=1 + abs(float(a.u)))


def homonuclear(**kw):
    return systems(**kw).map(lambda s: dict(s, Zb=max(s["Za"], s["Zb"]), Za=max(s["Za"], s["Zb"])))


def equal_spins(s):
    return dict(s, pol=2, N=[[x[0]] * 2 for x in s["N"]], Nmo=[[x[0]] * 2 for x in s["Nmo"]])


def S(name, body, systems_, quick, thorough, shards=1, ni=False, **extra):
    return Sub(name, lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=110, ratio=(3, 7)), s=systems_(),
               it=st.booleans(), ni=st.just(ni), **extra)), guarded(body), quick, thorough, shards=shards, tshards=8)


SUBCHECKS = [
    S("nuclei", exchange_nuclei, lambda: systems(), 8, 40),
    S("spins", exchange_spins, lambda: systems(pols=(2,)), 8, 40),
    S("unrestricted", unrestricted, lambda: systems(pols=(1,)), 8, 40),
    S("history", history, lambda: systems(), 10, 50, shards=2, how=st.sampled_from(["continue", "restart", "perturbed", "fresh", "stages"]),
      f=smooth_params(2)),
    S("shifted", shifted, lambda: systems(), 8, 40, c=nice(0.05, 0.4, 7)),
    S("symmetric", symmetric, lambda: homonuclear(), 8, 40),
    S("spinflip", spinflip, lambda: homonuclear(pols=(2,)).map(equal_spins), 10, 40,
      field=st.sampled_from([0.3, 0.1, -0.2, -0.5, 0.0])),
    S("scaled", scaled, lambda: systems(nmax=10), 15, 80, ni=True, lam=nice(0.4, 2.5, 21).filter(lambda x: abs(x - 1) > 0.05)),
]
