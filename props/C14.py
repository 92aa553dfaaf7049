"""C14: self-consistent Kohn-Sham solution and its energy decomposition."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import (phys_grid, cached_grid, ref_mesh, nice, smooth_params, smooth, coul, RefKS, ref_H, systems, kohnsham,
                    inline_processes, occupations, LDA, GGA)

PROPERTY = "C14"
RULE = ("random meshes, charges, electron counts, spin treatments, angular momenta, functionals and SCF settings; the "
        "converged state is compared with an independent self-consistent calculation by dense linear algebra; "
        "non-trivial = more than one orbital block or a fractional occupation, and the reference converges")
ASSUMPTIONS = ["the reference fixed-point iteration converges and its levels are separated (other cases are skipped and counted)",
               "mixing 0.3 to 0.7"]


def reference(case, rec, vext=0.0, ni=False):
    g, s = case["g"], case["s"]
    grid, r = cached_grid(g), ref_mesh(g)
    ref = RefKS(r, grid, coul(r, s["Za"], s["Zb"]), s["Nmo"], s["N"], s["pol"], s["frac"], s["xf"], s["cf"], ni=ni)
    if not ref.scf(vext, alpha=case.get("alpha", 0.5), maxit=70, tol=1e-9):
        raise Skip("reference iteration does not converge")
    if ref.gap < (5e-3 if case.get("iterative", case.get("it")) else 1e-3) or not ref.ok:
        raise Skip("levels not separated")
    nearest(s, r, ref, ni)
    return grid, r, ref


def nearest(s, r, ref, ni):
    """the levels are those an eigensolver that looks around a hydrogenic energy finds"""
    for (m, j), lv in ref.levels.items():
        z = max(s["Za"], s["Zb"])
        e0 = -(1.5 if ni else 1.0) * z ** 2 / (m + 1) ** 2
        nmo = len(lv)
        E, P = np.linalg.eig(ref_H(r, m) + np.diag(ref.v[:, j]))
        d = np.sort(np.abs(E - e0))
        if nmo < len(d) and np.max(np.abs(lv - e0)) > d[nmo] - 1e-3:
            raise Skip("other levels lie nearer the starting guess of the eigensolver")


def compare(ks, r, ref, s, rec, tol, ltol):
    N = sum(map(sum, s["N"])) if s["frac"] else r.integrate(ref.n.sum(axis=1))
    ntot = max(N, 1e-3)
    n = np.asarray(ks.n)
    rec.close("density layout", np.array(n.shape), np.array([r.n, s["pol"]]), 1e-300)
    rec.close("number of electrons", r.integrate(n.sum(axis=1)), N, 1e-6, scale=ntot)
    rec.close("density", r.integrate(np.abs(n - ref.n).sum(axis=1)), 0.0, tol, scale=ntot)
    E = ref.energies()
    sc = sum(abs(x) for x in E.values())
    for k, v in E.items():
        rec.close(f"energy component {k}", float(getattr(ks.E, k)), v, tol, scale=sc)
    rec.close("nuclear repulsion", ks.E.Vnn, s["Za"] * s["Zb"] / (2 * r.a), 1e-12, scale=sc)
    rec.close("total energy", ks.E.E, E["Et"] + s["Za"] * s["Zb"] / (2 * r.a), tol, scale=sc)
    esc = max([1.0] + [np.max(np.abs(x)) for x in ref.levels.values()])
    if ref.u is not None:
        rec.close("chemical potential", ks.u, ref.u, tol, scale=esc)
    for (m, j), lv in ref.levels.items():
        rec.close("levels", ks.solver[m, j].eig, lv, ltol, scale=esc)
    rec.close("all levels listed", np.sort(ks.E.evals[ks.E.evals > -1e10]),
              np.sort(np.concatenate([lv for lv in ref.levels.values()])), ltol, scale=esc)
    rec.close("sum of occupied levels", np.sum(ks.E.Eks), ref.eks, tol, scale=sc)
    rec.close("energy in the effective potential", np.sum(ks.E.Vks), sum(r.integrate(ref.n[:, j] * ref.v[:, j])
              for j in range(s["pol"])), tol, scale=sc)


def run_dft(case, rec):
    s = case["s"]
    grid, r, ref = reference(case, rec)
    rec.nontrivial(len(s["N"]) > 1 or s["pol"] == 2 or s["frac"])
    rec.label(f"pol={s['pol']} rows={len(s['N'])}", "fractional" if s["frac"] else "whole")
    with inline_processes(not case["real"]):
        ks = kohnsham(grid, s)
        ks.scf({"disp": False, "e_tol": 1e-9, "maxiter": 400, "alpha": case["alpha"], "iterative": case["iterative"],
                "auto_tol": case["auto"]})
    gga = s["xf"] in GGA
    try:
        try:
            compare(ks, r, ref, s, rec, 3e-5, 1e-3 if gga else 3e-5)
        except Violation:
            # without spin the measure of convergence counts every mesh point alike (known finding column-integral)
            # and can be small while the outer region still moves
            n = np.array(ks.n)
            if s["pol"] == 2 or r.integrate(np.abs(n - ref.n).sum(axis=1)) > 1e-3 or ref.stationary(n, tol=1e-7):
                raise
            with inline_processes():
                ks.scf({"disp": False, "e_tol": 1e-12, "maxiter": 400, "alpha": case["alpha"], "continuing": True})
            rec.label("converged late")
            compare(ks, r, ref, s, rec, 3e-5, 1e-3 if gga else 3e-5)
    except Violation:
        other = r.integrate(np.abs(np.asarray(ks.n) - ref.n).sum(axis=1)) > 1e-4
        if other and ref.stationary(np.asarray(ks.n)) or ref.unstable(0.0, case["alpha"]):
            raise Skip("several self-consistent solutions")
        raise
    # weighted with the density: gradient functionals are singular where it vanishes
    wt = lambda v: r.integrate((np.asarray(ks.n) * np.abs(v)).sum(axis=1))
    own = ref.hxc(np.asarray(ks.n))
    rec.close("potential parts", wt(ks.vhxc - own), 0.0, 1e-4, scale=wt(own))
    rec.close("effective potential", ks.veff, ref.vnuc + np.asarray(ks.vhxc), 1e-9, scale=np.max(np.abs(ks.veff)))
    h = np.asarray(ks.V.vh) + np.asarray(ks.V.vx) + np.asarray(ks.V.vc)
    rec.close("sum of the interaction potentials", wt(h - own), 0.0, 1e-8, scale=wt(own))
    rec.close("Hartree energy density", r.integrate(np.asarray(ks.V.eh) * np.asarray(ks.n).sum(axis=1)), ks.E.Eh, 1e-9,
              scale=1 + abs(ks.E.Eh))


def run_ni(case, rec):
    """electrons that do not interact: energy is the sum of occupied levels"""
    s = case["s"]
    g = case["g"]
    r = ref_mesh(g)
    vext = 0.0
    if case["ext"]:
        vext = 0.3 * smooth(case["f"], r.Y, r.Z, r.a)[:, None] + np.zeros((1, s["pol"]))
    grid, r, ref = reference(case, rec, vext=vext, ni=True)
    rec.nontrivial(len(s["N"]) > 1 or s["pol"] == 2 or s["frac"] or case["ext"])
    rec.label(f"pol={s['pol']} rows={len(s['N'])}", "external" if case["ext"] else "bare")
    with inline_processes():
        ks = kohnsham(grid, s, interaction_type="ni")
        if case["ext"]:
            ks.vext = vext.copy()
        ks.scf({"disp": False, "e_tol": 1e-10, "maxiter": 200, "iterative": case["iterative"]})
    compare(ks, r, ref, s, rec, 1e-6, 1e-6)
    rec.close("external energy", ks.E.Vext, r.integrate((ref.n * vext).sum(axis=1)), 1e-6, scale=1 + abs(ref.eks))


def run_given(case, rec):
    """a potential handed over from outside reaches every orbital block of its own spin"""
    s, g = case["s"], case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    v = coul(r, s["Za"], s["Zb"])[:, None] + 0.4 * np.column_stack([smooth(f, r.Y, r.Z, r.a) for f in case["f"][:s["pol"]]])
    ref = RefKS(r, grid, v[:, 0], s["Nmo"], s["N"], s["pol"], s["frac"], 1, 12, ni=True)
    want = ref.solve(v)
    if ref.gap < 1e-3 or not ref.ok:
        raise Skip("levels not separated")
    z = max(s["Za"], s["Zb"])
    for (m, j), lv in ref.levels.items():
        E, P = np.linalg.eig(ref_H(r, m) + np.diag(v[:, j]))
        d = np.sort(np.abs(E + z ** 2 / (m + 1) ** 2))
        if len(lv) < len(d) and np.max(np.abs(lv + z ** 2 / (m + 1) ** 2)) > d[len(lv)] - 1e-3:
            raise Skip("other levels lie nearer the starting guess of the eigensolver")
    rec.nontrivial(len(s["N"]) > 1 or s["pol"] == 2)
    rec.label(f"pol={s['pol']} rows={len(s['N'])}")
    with inline_processes():
        ks = kohnsham(grid, s)
        ks.set_veff_external(v.copy())
        n = np.asarray(ks.calc_density())
    ntot = max(r.integrate(want.sum(axis=1)), 1e-3)
    rec.close("density in a given potential", r.integrate(np.abs(n - want).sum(axis=1)), 0.0, 1e-6, scale=ntot)
    for (m, j), lv in ref.levels.items():
        rec.close("levels in a given potential", ks.solver[m, j].eig, lv, 1e-6, scale=1 + np.max(np.abs(lv)))


def run_early(case, rec):
    """also when stopped before convergence, the energies belong to the density that is there"""
    g, s = case["g"], case["s"]
    grid, r = cached_grid(g), ref_mesh(g)
    ref = RefKS(r, grid, coul(r, s["Za"], s["Zb"]), s["Nmo"], s["N"], s["pol"], s["frac"], s["xf"], s["cf"], ni=case["ni"])
    with inline_processes():
        ks = kohnsham(grid, s, interaction_type="ni" if case["ni"] else "dft")
        for i, (mx, al) in enumerate(case["runs"]):
            ks.scf({"disp": False, "e_tol": case["e_tol"], "maxiter": mx, "alpha": al, "iterative": case["iterative"], "continuing": i > 0})
    n = np.asarray(ks.n)
    if not np.all(np.isfinite(n)) or np.min(n) < 0 or not np.isfinite(ks.E.E):
        raise Skip("no solution")
    rec.nontrivial()
    rec.label(f"pol={s['pol']} rows={len(s['N'])}", f"runs={len(case['runs'])}", "ni" if case["ni"] else "dft")
    ref.n, ref.Ts = n, float(np.sum(ks.E.Eks) - np.sum(ks.E.Vks))
    E = ref.energies()
    sc = sum(abs(x) for x in E.values()) + np.sum(np.abs(ks.E.Eks))
    for k, v in E.items():
        rec.close(f"energy component {k} of the current density", float(getattr(ks.E, k)), v, 1e-7, scale=sc)
    rec.close("total energy of the current density", ks.E.E, E["Et"] + s["Za"] * s["Zb"] / (2 * r.a), 1e-7, scale=sc)
    q = [occupations(m, s["pol"], s["N"][m][j], s["Nmo"][m][j], s["frac"]) for m in range(len(s["N"])) for j in range(s["pol"])
         if s["Nmo"][m][j]]
    lev = [np.sort(np.ravel(ks.solver[m, j].eig)) for m in range(len(s["N"])) for j in range(s["pol"]) if s["Nmo"][m][j]]
    rec.close("sum of the occupied levels", np.sum(ks.E.Eks), sum(float(np.dot(a, b)) for a, b in zip(q, lev)), 1e-9, scale=sc)
    if not case["ni"]:
        own = ref.hxc(n)
        wt = lambda v: r.integrate((n * np.abs(v)).sum(axis=1))
        h = np.asarray(ks.V.vh) + np.asarray(ks.V.vx) + np.asarray(ks.V.vc)
        rec.close("interaction potential of the current density", wt(h - own), 0.0, 1e-8, scale=wt(own))
        rec.close("Hartree energy density", r.integrate(np.asarray(ks.V.eh) * n.sum(axis=1)), ks.E.Eh, 1e-9, scale=sc)
        for e, v in ((ks.V.ex, "Ex"), (ks.V.ec, "Ec")):
            rec.close(f"energy per particle of {v}", r.integrate(np.asarray(e).reshape(r.n, -1)[:, 0] * n.sum(axis=1)), E[v], 1e-7, scale=sc)


def run_step(case, rec):
    """one more cycle from the density that is there mixes in the orbitals of its own effective potential"""
    g, s = case["g"], dict(case["s"])
    sym = case["sym"]
    grid, r = cached_grid(g), ref_mesh(g)
    back = lambda f: np.column_stack([r.unsquare(r.square(c)[::-1]) for c in f.T])
    if sym:
        s["Za"] = s["Zb"] = max(s["Za"], s["Zb"])
    if sym == "spinflip":
        s.update(N=[[x[0]] * s["pol"] for x in s["N"]], Nmo=[[x[0]] * s["pol"] for x in s["Nmo"]])
    image = {"mirror": back, "spinflip": lambda f: back(f)[:, ::-1]}.get(sym, lambda f: f)
    vext = np.zeros((r.n, s["pol"]))
    if case["ext"]:
        vext = 0.3 * np.column_stack([smooth(f, r.Y, r.Z, r.a) for f in case["f"][:s["pol"]]])
        vext = (vext + image(vext)) / 2
    if case["whole"]:
        s["frac"] = False          # charges stay as they are: a part of an electron then finds no orbital
    o = {"disp": False, "e_tol": 1e-12, "alpha": case["alpha"], "iterative": False, "spinflipsym": sym == "spinflip"}
    with inline_processes():
        ks = kohnsham(grid, s, interaction_type="ni" if case["ni"] else "dft", **({"sym": True} if sym == "mirror" else {}))
        if case["ext"]:
            ks.vext = vext.copy()
        ks.scf(dict(o, maxiter=case["first"]))
        n0 = np.array(ks.n)
        if not np.all(np.isfinite(n0)) or np.min(n0) < 0:
            raise Skip("no solution")
        if case["bend"]:
            n0 = n0 * (1 + 0.2 * np.cos(2 * r.Z / r.a + 1)[:, None] * np.array([[1, 0.5]])[:, :s["pol"]])
            n0 = (n0 + image(n0)) / 2
            ks.n = n0.copy()
        ks.scf(dict(o, maxiter=2, continuing=True, alpha=case["mix"]))
    ref = RefKS(r, grid, coul(r, s["Za"], s["Zb"]), s["Nmo"], s["N"], s["pol"], s["frac"], s["xf"], s["cf"], ni=case["ni"])
    ref.v = ref.vnuc + vext + ref.hxc(n0)
    if not np.all(np.isfinite(ref.v)):
        raise Skip("no solution")
    new = ref.solve(ref.v)
    if ref.gap < 5e-3 or not ref.ok:
        raise Skip("levels not separated")
    nearest(s, r, ref, case["ni"])
    rec.nontrivial()
    rec.label(f"pol={s['pol']} rows={len(s['N'])}", sym or "no symmetry", "fractional" if s["frac"] else "whole",
              *(k for k in ("ext", "bend", "ni", "whole") if case[k]))
    x = (1 - case["mix"]) * n0 + case["mix"] * new
    rec.close("density after one cycle", r.integrate(np.abs(np.asarray(ks.n) - x).sum(axis=1)), 0.0, 1e-6, scale=max(r.integrate(x.sum(axis=1)), 1e-3))
    esc = 1 + max(np.max(np.abs(lv)) for lv in ref.levels.values())
    for (m, j), lv in ref.levels.items():
        rec.close("levels after one cycle", np.sort(np.ravel(ks.solver[m, j].eig)), np.sort(lv), 1e-6, scale=esc)
    if ref.u is not None:
        rec.close("chemical potential after one cycle", float(ks.u), ref.u, 1e-6, scale=esc)
    rec.close("kinetic energy after one cycle", float(ks.E.Ts), ref.Ts, 1e-6, scale=1 + abs(ref.Ts) + abs(ref.eks))
    rec.close("energy in the external potential", float(ks.E.Vext), r.integrate((np.asarray(ks.n) * vext).sum(axis=1)), 1e-9, scale=1 + abs(ref.Ts))


common_opts = dict(alpha=nice(0.3, 0.7, 8), iterative=st.booleans(), auto=st.booleans(), real=st.just(False))


def dft(**kw):
    real = kw.pop("real", False)
    return lambda: st.fixed_dictionaries(dict(common_opts, g=phys_grid(max_elem=110, ratio=(3, 7)), s=systems(**kw),
                                              real=st.just(real)))


SUBCHECKS = [
    Sub("closed", dft(pols=(1,)), run_dft, 8, 60, shards=3, tshards=8),
    Sub("spin", dft(pols=(2,)), run_dft, 8, 60, shards=4, tshards=8),
    Sub("gga", dft(xcs=[(101, 130)], filled=True), run_dft, 5, 40, shards=2, tshards=8),
    Sub("processes", dft(real=True), run_dft, 2, 12, shards=2, tshards=4),
    Sub("given", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130, ratio=(3, 7)), s=systems(nmax=10, rows=(1, 2, 3)),
        f=st.lists(smooth_params(2), min_size=2, max_size=2))), run_given, 12, 100, shards=2, tshards=8),
    Sub("independent", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=130, ratio=(3, 7)), s=systems(nmax=10),
        ext=st.booleans(), f=smooth_params(2), iterative=st.booleans())), run_ni, 15, 120, shards=2, tshards=8),
    Sub("step", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=110, ratio=(3, 7)), s=systems(rows=(1, 2, 3)), ni=st.sampled_from([False, False, False, True]),
        sym=st.sampled_from(["", "", "mirror", "mirror", "spinflip"]), ext=st.booleans(), whole=st.sampled_from([False, False, True]), f=st.lists(smooth_params(2), min_size=2, max_size=2),
        first=st.integers(2, 5), bend=st.booleans(), alpha=nice(0.1, 0.9, 8), mix=nice(0.05, 1, 20))), run_step, 25, 200, shards=2, tshards=8),
    Sub("early", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=90, ratio=(3, 7)), s=systems(rows=(1, 2, 3)),
        ni=st.sampled_from([False, False, False, True]), e_tol=st.sampled_from([1e-1, 1e-3, 1e-9]), iterative=st.booleans(),
        runs=st.lists(st.tuples(st.integers(2, 5), nice(0.1, 0.9, 8)), min_size=1, max_size=2))), run_early, 25, 200, shards=2, tshards=8),
]
