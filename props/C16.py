"""C16: options are validated, case-insensitive, private to an object, and effective."""
import copy
import io
import contextlib
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import phys_grid, grid_params, cached_grid, ref_mesh, nice, coul, RefKS, ref_H, systems, kohnsham, inline_processes
from parts import frags

PROPERTY = "C16"
QUICK_SCALE = 3
RULE = ("random subsets of the documented options of the four constructors and the two SCF drivers, with random valid values "
        "and letter case, plus unknown names and invalid values; non-trivial = at least one option differs from its default "
        "or the call has to be rejected")
ASSUMPTIONS = ["the option names, defaults and allowed values are those in the documentation strings and option classes at the "
               "pinned commit"]
B = [False, True]
KS = dict(interaction_type=(["dft", "ni"], "dft"), sym=(B, False), fractional=(B, False), xfunc_id=([1, 12, 9001], 1),
          cfunc_id=([12, 7, 1], 12), xc_family=(["lda"], "lda"))
PART = dict(KS, vp_calc_type=(["component", "potential_inversion"], "component"),
            hxc_part_type=(["exact", "overlap_hxc_2", "overlap_hxc", "overlap_xc", "surprisal", "hartree"], "exact"),
            kinetic_part_type=(["vonweiz", "inversion", "none", "twoorbital", "fixed", "libxcke"], "vonweiz"),
            k_family=(["lda", "gga"], "gga"), ke_func_id=([50, 52, 500], None), disp=([False], False), ab_sym=(B, False),
            ens_spin_sym=(B, False), isolated=(B, False), fixed_q=(B, False))
SOLVER = dict(fractional=(B, False), sym=(B, False), iter_lin_solver=(B, True), disp=(B, True), tol_orbital=([1e-15, 1e-12], 1e-15),
              tol_lin_solver=([1e-4, 1e-8], 1e-4))
INV = dict(ab_sym=(B, False), ens_spin_sym=(B, False), use_iterative=(B, False), disp=(B, False), avoid_loop=(B, False),
           invert_type=(["wuyang", "simple", "orbitalinvert", "qinvert", "eigensolveinvert", "test"], "wuyang"),
           k_val=([-1e-12, -1e-6], -1e-12), tol_lin_solver=([1e-2, 1e-5], 1e-2), tol_invert=([1e-12, 1e-8], 1e-12),
           max_iter_lin_solver=([2000, 17], 2000), max_iter_invert=([20, 33], 20), res_factor=([1.0, 0.5], 1.0))
TABLE = dict(kohnsham=KS, partition=PART, pssolver=SOLVER, inverter=INV)
ENUM = dict(kohnsham=["interaction_type"], partition=["interaction_type", "vp_calc_type", "hxc_part_type", "kinetic_part_type"],
            pssolver=[], inverter=["invert_type"])
BADTYPE = dict(kohnsham=["sym", "fractional", "xfunc_id", "cfunc_id"], partition=["ab_sym", "isolated", "xfunc_id", "ens_spin_sym"],
               pssolver=["fractional", "tol_orbital", "tol_lin_solver", "iter_lin_solver"],
               inverter=["k_val", "max_iter_invert", "tol_invert", "ab_sym"])


def build(which, grid, opt, Za=2, Zb=2, pol=1, ens=False):
    from CADMium import Kohnsham, Partition, Pssolver, Inverter
    one = [[1] * pol]
    if which == "kohnsham":
        return Kohnsham(grid, Za, Zb, pol, one, one, *opt)
    if which == "pssolver":
        return Pssolver(grid, [[1] * pol, [1] * pol], [[1] * pol, [1] * pol], *opt)
    if which == "inverter":
        return Inverter(grid, Pssolver(grid, one, one), *opt)
    N = [one, one] if ens else one
    return Partition(grid, Za, Zb, pol, N, N, 0.5 if ens else 1, N, N, 0.5 if ens else 1, *opt)


def options_of(which, obj):
    if which == "kohnsham":
        return [obj.optKS]
    if which == "partition":
        return [obj.optPartition]
    if which == "inverter":
        return [obj.optInv]
    return [s.optSolver for s in np.asarray(obj).ravel()]


def case_of(name, rs):
    return "".join(c.upper() if rs.randint(2) else c for c in name)


def draw_options(which, rs, pure=False):
    """a random subset with random valid values: (as passed, as meant)"""
    T = TABLE[which]
    meant = {k: v[0][rs.randint(len(v[0]))] for k, v in T.items() if rs.randint(2)}
    if "k_family" in T:       # a consistent kinetic functional
        meant["ke_func_id"] = [50, 52, 500][rs.randint(3)]
        meant["k_family"] = "lda" if meant["ke_func_id"] == 50 else "gga"
    keys = list(meant)
    rs.shuffle(keys)
    return {case_of(k, rs): meant[k] for k in keys}, meant


def expected(which, meant):
    return {k: meant.get(k, v[1]) for k, v in TABLE[which].items()}


def compare(rec, which, obj, want, what):
    for o in options_of(which, obj):
        for k, v in want.items():
            if v is not None:
                got = getattr(o, k)
                rec.check(f"{what}: {k}", got == v and isinstance(got, type(v)) or got == v, f"{got!r}, expected {v!r}")


def run_construct(case, rec):
    grid = cached_grid(case["g"])
    which, rs = case["which"], np.random.RandomState(case["seed"])
    passed, meant = draw_options(which, rs)
    passed2, meant2 = draw_options(which, rs)
    ens = bool(rs.randint(2))
    pol = case["pol"]
    rec.nontrivial(any(v != TABLE[which][k][1] for k, v in meant.items()))
    rec.label(which)
    copy_ = copy.deepcopy(passed)
    a = build(which, grid, [passed], pol=pol, ens=ens)
    rec.check("options passed by the caller were changed", passed == copy_ and list(passed) == list(copy_))
    compare(rec, which, a, expected(which, meant), "option taken")
    d = build(which, grid, [], pol=pol, ens=ens)
    compare(rec, which, d, expected(which, {}), "default")
    b = build(which, grid, [passed2], pol=pol, ens=ens)
    compare(rec, which, b, expected(which, meant2), "option of a second object")
    compare(rec, which, a, expected(which, meant), "option after another object was made")
    compare(rec, which, d, expected(which, {}), "default after other objects were made")
    for obj, m in ((a, meant), (b, meant2), (d, {})):
        w = expected(which, m)
        if which == "kohnsham":
            inner(rec, obj, w)
        if which == "partition":
            rec.check("fragments", len(frags(obj)) == (4 if ens else 2))
            for _, k in frags(obj):
                for x in KS:
                    rec.check(f"fragment option {x}", getattr(k.optKS, x) == w[x], f"{getattr(k.optKS, x)!r}, expected {w[x]!r}")
                inner(rec, k, w)
            if w["kinetic_part_type"] == "libxcke":
                n = np.exp(-cachedY(grid))[:, None] * np.ones((1, pol))
                from CADMium.libxc.libxc import Libxc
                ref = Libxc(grid, w["k_family"], w["ke_func_id"])
                rec.check("kinetic functional", np.array_equal(obj.kinetic.get_xc(n)[0], ref.get_xc(n)[0]))


def cachedY(grid):
    return np.asarray(grid.Y) ** 2 + np.asarray(grid.Z) ** 2


def inner(rec, ks, w):
    """the options act on what the object is made of"""
    for s in np.asarray(ks.solver).ravel():
        rec.check("fractional occupation reaches the solvers", s.optSolver.fractional == w["fractional"])
        rec.check("symmetry reaches the solvers", s.optSolver.sym == w["sym"])
    if w["interaction_type"] == "dft":
        n = np.exp(-cachedY(ks.grid))[:, None] * np.ones((1, ks.pol))
        from CADMium.libxc.libxc import Libxc
        for obj, fid in ((ks.exchange, w["xfunc_id"]), (ks.correlation, w["cfunc_id"])):
            ref = Libxc(ks.grid, "lda", fid)
            rec.check("functional in use", np.array_equal(np.asarray(obj.get_xc(n)[1]), np.asarray(ref.get_xc(n)[1])))


def rejected(f):
    try:
        f()
    except (ValueError, AssertionError, TypeError, KeyError):
        return True
    return False


def run_reject(case, rec):
    grid = cached_grid(case["g"])
    which, rs = case["which"], np.random.RandomState(case["seed"])
    passed, meant = draw_options(which, rs)
    how = case["how"]
    T = TABLE[which]
    if how == "unknown":
        name = ["", "x", "fractionals", "alpha", "tolerance", "xc", "e_tol", "_", "grid"][rs.randint(9)]
        k = list(T)[rs.randint(len(T))]
        name = [name, k + "s", k[:-1], "_" + k, k + " "][rs.randint(5)]
        if name.lower() in T:
            raise Skip("a real option")
        passed[name] = [True, 1, "lda", 0.5, None][rs.randint(5)]
    elif how == "value":
        if not ENUM[which]:
            raise Skip("no enumerated option")
        k = ENUM[which][rs.randint(len(ENUM[which]))]
        v = T[k][0][rs.randint(len(T[k][0]))]
        passed = {a: b for a, b in passed.items() if a.lower() != k}
        bad = [v + "x", v[:-1], "", "none_", "all", v.upper()][rs.randint(6)]
        if bad in T[k][0] or bad == "none":
            raise Skip("a real value")
        passed[case_of(k, rs)] = bad
    elif how == "type":
        k = BADTYPE[which][rs.randint(4)]
        passed = {a: b for a, b in passed.items() if a.lower() != k}
        passed[case_of(k, rs)] = ["abc", [1, 2], {"a": 1}][rs.randint(3)]
    else:
        if which == "partition":
            passed = dict(ab_sym=True, **{a: b for a, b in passed.items() if a.lower() != "ab_sym"})
            rec.nontrivial()
            rec.label("unequal charges")
            rec.check("symmetry of unequal nuclei accepted", rejected(lambda: build(which, grid, [passed], Za=2, Zb=1.5)))
            return
        if which != "kohnsham":
            raise Skip("does not apply")
        from CADMium import Kohnsham
        rec.nontrivial()
        rec.label("counts disagree")
        rec.check("orbital and electron counts of different shapes accepted",
                  rejected(lambda: Kohnsham(grid, 2, 2, 1, [[1]], [[1], [1]], {})))
        return
    rec.nontrivial()
    rec.label(how)
    rec.check(f"{how} accepted", rejected(lambda: build(which, grid, [passed])), repr(passed))
    compare(rec, which, build(which, grid, []), expected(which, {}), "default after a rejected call")


KSCF = ["disp", "continuing", "iterative", "spinflipsym", "auto_tol", "maxiter", "auto_tol_iter", "e_tol", "alpha"]
PSCF = ["e_tol", "max_iter", "alpha", "beta", "calc_type", "disp", "continuing", "from_target_density", "iterative", "isolated",
        "auto_tol", "auto_tol_iter", "freeze_a", "freeze_b"]


def run_scf_reject(case, rec):
    grid = cached_grid(case["g"])
    rs = np.random.RandomState(case["seed"])
    which = case["which"]
    obj = build(which, grid, [{"interaction_type": "ni"}])
    ks = obj if which == "kohnsham" else obj.KSa
    names = KSCF if which == "kohnsham" else PSCF
    rec.nontrivial()
    how = case["how"]
    rec.label(which, how)
    k = names[rs.randint(len(names))]
    if how == "unknown":
        bad = [k + "s", "_" + k, "tol", "mixing", "max_iter" if which == "kohnsham" else "maxiter", "itmax"][rs.randint(6)]
        opt = {bad: [1, True, 0.5][rs.randint(3)]}
    elif how == "type":
        bad = ["maxiter", "e_tol", "iterative", "auto_tol_iter"][rs.randint(4)]
        if which == "partition" and bad == "maxiter":
            bad = "max_iter"
        opt = {case_of(bad, rs): "abc"}
    elif which == "partition":
        opt = [{"calc_type": "PDFT"}, {"calc_type": "dft"}, {"alpha": [0.1, 0.2, 0.3]}, {"alpha": []}][rs.randint(4)]
    else:
        opt = {"alpha": "abc"}
    if rs.randint(2):
        opt[case_of("e_tol", rs) if not any(x.lower() == "e_tol" for x in opt) else "disp"] = 1e-3 if "disp" not in opt else False
    before = copy.copy(opt)
    with inline_processes():
        rec.check(f"{how} accepted", rejected(lambda: obj.scf(opt)), repr(opt))
    rec.check("options passed by the caller were changed", opt == before)
    rec.check("a rejected call calculated something", ks.n is None)


def measures(r, d, n):
    """largest and smallest reading of the relative change: the worst spin, by volume or (the known finding on
    single-column integrals makes unpolarised runs use this one) by plain sums over the mesh"""
    use = [j for j in range(n.shape[1]) if np.any(n[:, j])]
    vol = max(r.integrate(np.abs(d[:, j])) / r.integrate(np.abs(n[:, j])) for j in use)
    if n.shape[1] == 2:
        return vol, vol
    plain = np.sum(np.abs(d)) / np.sum(np.abs(n))
    return max(vol, plain), min(vol, plain)


def run_scf_effect(case, rec):
    """cycles run = at most maxiter, stopping once the change per cycle is below e_tol; each mixes with weight alpha"""
    g, s = case["g"], case["s"]
    grid, r = cached_grid(g), ref_mesh(g)
    rs = np.random.RandomState(case["seed"])
    ref = RefKS(r, grid, coul(r, s["Za"], s["Zb"]), s["Nmo"], s["N"], s["pol"], s["frac"], s["xf"], s["cf"])
    al, mx, tol = case["alpha"], case["maxiter"], case["e_tol"]
    ref.v = ref.vnuc + np.zeros((r.n, s["pol"]))
    hist = [ref.solve(ref.vnuc)]
    gap, near = ref.gap, True
    e0 = -max(s["Za"], s["Zb"]) ** 2
    for i in range(mx + 1):
        n = hist[-1]
        ref.v = ref.vnuc + ref.hxc(n)
        new = ref.solve(ref.v)
        gap = min(gap, ref.gap)
        for (m, j), lv in ref.levels.items():
            E = np.sort(np.abs(np.linalg.eigvals(ref_H(r, m) + np.diag(ref.v[:, j])) - e0))
            near = near and (len(lv) == len(E) or np.max(np.abs(lv - e0)) < E[len(lv)] - 1e-3)
        hist.append((1 - al) * n + al * new)
    if gap < 1e-2 or not ref.ok or not all(np.all(np.isfinite(h)) for h in hist):
        raise Skip("levels not separated")
    kicked = hist[0] * (1 + 1e-8 * np.tanh(r.Z / r.a))[:, None]
    for i in range(mx + 1):
        kicked = (1 - al) * kicked + al * ref.solve(ref.vnuc + ref.hxc(kicked))
    if not r.integrate(np.abs(kicked - hist[-1]).sum(axis=1)) < 1e-6 * r.integrate(np.abs(kicked).sum(axis=1)):
        raise Skip("the mixing amplifies rounding")
    if not near:
        raise Skip("other levels lie nearer the starting guess of the eigensolver")
    opt = dict(disp=case["disp"], iterative=False, alpha=al, maxiter=mx, e_tol=tol)
    passed = {case_of(k, rs): v for k, v in opt.items()}
    keep = copy.copy(passed)
    with inline_processes():
        ks = kohnsham(grid, s)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ks.scf(passed)
    rec.check("options passed by the caller were changed", passed == keep)
    rec.check("silent unless asked", case["disp"] or out.getvalue() == "", out.getvalue()[:60])
    rec.check("reports when asked", not case["disp"] or out.getvalue() != "")
    n = np.asarray(ks.n)
    N = max(r.integrate(hist[0].sum(axis=1)), 1e-3)
    d = [r.integrate(np.abs(h - n).sum(axis=1)) / N for h in hist]
    step = [np.inf] + [measures(r, hist[i] - hist[i - 1], hist[i])[0] for i in range(1, len(hist))]
    low = [np.inf] + [measures(r, hist[i] - hist[i - 1], hist[i])[1] for i in range(1, len(hist))]
    J = int(np.argmin(d))
    if min(step[1:]) < 1e-5:
        rec.label("converged")
    rec.nontrivial()
    rec.label(f"cycles={min(J, 9)}")
    rec.check("density is that of a number of mixing cycles", d[J] <= 1e-4, f"nearest after {J} cycles: {d[J]:.2e} of {d[:6]}")
    if min(abs(step[J] - x) for i, x in enumerate(step) if i != J) > 1e-9 and all(x > 1e-3 for i, x in enumerate(d) if i != J):
        rec.label("identified")
        rec.check("at most the requested number of cycles", J <= mx, f"{J} of {mx}")
        rec.check("stops early only below the tolerance", J >= mx - 1 or low[J] <= 1.1 * tol, f"{J} cycles, change {low[J]:.2e}")
        # the change is measured on density and energy; the density alone bounds where it has to stop
        jmin = next((i for i in range(2, len(step)) if step[i] <= 0.01 * tol), None)
        parts = sum(abs(float(getattr(ks.E, x, 0.0))) for x in ("Ts", "Enuc", "Eh", "Ex", "Ec", "Vnn"))
        if abs(ks.E.E) > 0.1 * parts:
            rec.check("does not go on long after convergence", jmin is None or J <= jmin + 2,
                      f"{J} cycles, expected about {jmin}")


SCF_DEFAULT = dict(kohnsham=dict(disp=True, continuing=False, iterative=True, spinflipsym=False, auto_tol=False, maxiter=100,
                                 auto_tol_iter=3, e_tol=1e-5, alpha=0.5),
                   partition=dict(e_tol=1e-7, max_iter=50, alpha=[0.82], beta=[0.82], calc_type="pdft", disp=False, continuing=False,
                                  from_target_density=False, iterative=True, isolated=False, auto_tol=False, auto_tol_iter=3,
                                  freeze_a=False, freeze_b=False))
SCF_DRAW = dict(kohnsham=dict(disp=B, iterative=B, spinflipsym=B, auto_tol=B, maxiter=[2, 3, 5, 9], auto_tol_iter=[1, 4],
                              e_tol=[0.3, 1e-2, 1e-3, 1e-9], alpha=[0.1, 0.25, 0.4, 0.7]),
                partition=dict(e_tol=[0.3, 1e-2, 1e-3, 1e-9], max_iter=[1, 2, 4, 7], alpha=[[0.1], [0.3, 0.6], [0.5], [0.7, 0.2]],
                               beta=[[0.3]], calc_type=["pdft", "sdft"], disp=B, iterative=B, isolated=B, auto_tol=B,
                               auto_tol_iter=[1, 4], freeze_a=B, freeze_b=B))


def run_history(case, rec):
    """what a run does depends on the options it is given, not on the runs before it"""
    from props import C20
    which, rs, s = case["which"], np.random.RandomState(case["seed"]), case["s"] if case["which"] == "kohnsham" else case["p"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    T = SCF_DRAW[which]
    drop = ("spinflipsym",) if which == "kohnsham" and s["pol"] == 1 else ()

    def draw(p):
        return {case_of(k, rs): v[rs.randint(len(v))] for k, v in T.items() if rs.rand() < p and k not in drop}

    def make(kick=0.0):
        obj = kohnsham(grid, s) if which == "kohnsham" else C20.partition(grid, s)
        for k in [obj] if which == "kohnsham" else C20.parts_of(obj):
            k.vnuc = k.vnuc * (1 + kick * np.tanh(r.Z / r.a))[:, None]
        return obj

    def run(obj, opt):
        out = io.StringIO()
        keep = copy.deepcopy(opt)
        with inline_processes(), contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.scf(opt)
        rec.check("options passed by the caller were changed", opt == keep)
        ks = [obj] if which == "kohnsham" else C20.parts_of(obj)
        n = np.hstack([np.asarray(k.n) for k in ks])
        if not np.all(np.isfinite(n)):
            raise Skip("no solution")
        return n, float(obj.E.E), len(out.getvalue().splitlines())

    o1, o2 = draw(0.6), draw(0.4)
    cap = "maxiter" if which == "kohnsham" else "max_iter"
    if not any(k.lower() == cap for k in o2) and rs.randint(2):
        o2[case_of(cap, rs)] = T[cap][rs.randint(4)]
    full = dict(SCF_DEFAULT[which], **{k.lower(): v for k, v in o2.items()})
    base = run(make(), o2)
    N = max(r.integrate(np.abs(base[0]).sum(axis=1)), 1e-3)
    dist = lambda x: r.integrate(np.abs(x[0] - base[0]).sum(axis=1)) / N
    if not dist(run(make(1e-9), o2)) < 1e-7:
        raise Skip("the iteration amplifies rounding")
    rec.nontrivial()
    rec.label(which)

    def same(x, what):
        rec.close(f"density, {what}", dist(x), 0.0, 1e-5, scale=1.0)
        rec.close(f"energy, {what}", x[1], base[1], 1e-5, scale=max(1.0, abs(base[1])))
        rec.check(f"lines written, {what}", x[2] == base[2], f"{x[2]}, expected {base[2]}")
    a = make()
    for i in range(case["runs"]):
        run(a, dict(o1, continuing=True) if i and rs.randint(2) else o1)
        o1 = draw(0.6)
    same(run(make(), o2), "another object")
    same(run(a, o2), "after other runs of the object")
    same(run(make(), full), "defaults spelled out")


def run_cycles(case, rec):
    """a partition (or molecule) runs at most max_iter cycles and stops with the first whose change is below e_tol"""
    from props import C20
    which, s = case["which"], case["s"] if case["which"] == "kohnsham" else case["p"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    tol, mx, K = case["e_tol"], case["maxiter"], 9
    off = 1 if which == "kohnsham" else 0          # the molecule's driver runs one cycle less than asked for

    def make():
        return kohnsham(grid, s) if which == "kohnsham" else C20.partition(grid, s, isolated=case["isolated"])

    def run(obj, k, e_tol, go_on=False):
        opt = {"alpha": case["alpha"][0] if which == "kohnsham" else list(case["alpha"]), "e_tol": e_tol, "iterative": False, "disp": False, "continuing": go_on,
               "maxiter" if which == "kohnsham" else "max_iter": k}
        with inline_processes(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.scf(opt)
        n = np.asarray(obj.n if which == "kohnsham" else obj.nf)
        if not np.all(np.isfinite(n)):
            raise Skip("no solution")
        return n.copy(), float(getattr(obj.E, "E", 0.0) or 0.0)

    obj = make()
    hist = [run(obj, (k > 0) + off, 0.0, k > 0) for k in range(K + 1)]
    n, E = run(make(), mx, tol)
    N = max(r.integrate(n.sum(axis=1)), 1e-3)
    d = [r.integrate(np.abs(h[0] - n).sum(axis=1)) / N + (abs(h[1] - E) if i else 0.0) for i, h in enumerate(hist)]
    J = int(np.argmin(d))
    last = mx - off
    rec.check("the result is that of some number of cycles", d[J] < 1e-7 or last > K, f"nearest after {J}: {d[J]:.2e}")
    if d[J] > 1e-7 or min([x for i, x in enumerate(d) if i != J]) < 1e-5:
        raise Skip("cycles cannot be told apart")
    rec.nontrivial()
    low, high = [np.inf], [np.inf]
    for i in range(1, K + 1):
        hi, lo = measures(r, hist[i][0] - hist[i - 1][0], hist[i][0])
        dE = abs((hist[i][1] - (hist[i - 1][1] if i > 1 else 0.0)) / hist[i][1])
        low.append(max(lo, dE))
        high.append(max(hi, dE))
    rec.label(which, f"pol={s['pol']}", "stopped early" if J < last else "all cycles", f"cycles={J}")
    rec.check("no more cycles than asked for", J <= last, f"{J} of {last}")
    rec.check("stops early only below the tolerance", J == last or low[J] <= 1.05 * tol, f"{J} cycles, change {low[J]:.2e}, e_tol {tol}")
    first = next((i for i in range(1, J) if high[i] <= 0.95 * tol), None)
    rec.check("stops at the first cycle below the tolerance", first is None, f"{J} cycles, change below e_tol after {first}")


def run_auto(case, rec):
    """with auto_tol it goes on until the change has not reached a new minimum for the given number of cycles in a row"""
    from props import C20
    which, s, q, tol = case["which"], case["s"] if case["which"] == "kohnsham" else case["p"], case["auto"], case["e_tol"]
    grid = cached_grid(case["g"])
    obj = kohnsham(grid, s) if which == "kohnsham" else C20.partition(grid, s, isolated=case["isolated"])
    mx = case["maxiter"]
    opt = {"alpha": case["alpha"][0] if which == "kohnsham" else list(case["alpha"]), "e_tol": tol, "disp": True, "auto_tol": True, "auto_tol_iter": q,
           "iterative": case["iterative"], "maxiter" if which == "kohnsham" else "max_iter": mx}
    out = io.StringIO()
    with inline_processes(), contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj.scf(opt)
    d = []
    for line in out.getvalue().splitlines():
        w = line.split()
        if len(w) > 2 and w[0] == str(len(d) + 1):
            d.append(float(w[-1]))
    if not d or not np.all(np.isfinite(d)):
        raise Skip("no change reported")
    last = mx - 1 if which == "kohnsham" else mx      # the molecule's driver runs one cycle less than asked for
    ends, again = [], False
    for tie in (False, True):        # the report is rounded, so equal numbers may be in either order
        best, worse = 10.0, 0
        for end, x in enumerate(d, 1):
            if x < best or tie and x == best:
                again = again or worse > 0
                best, worse = x, 0
            else:
                worse += 1
            if end >= last or x <= tol and worse >= q:
                break
        else:
            end += 1
        ends.append(end)
    if ends[0] != ends[1]:
        raise Skip("equal changes")
    rec.nontrivial(len(d) > 2)
    rec.label(which, "improves again" if again else "", f"stopped by {'the limit' if len(d) >= last else 'the rule'}")
    rec.check("no more cycles than asked for", len(d) <= mx)
    if any(abs(x / tol - 1) < 1e-3 for x in d):
        raise Skip("change equals e_tol")
    rec.check("goes on until the change stops improving", len(d) == ends[0], f"{len(d)} cycles, expected {ends[0]} {'or more' * (ends[0] > len(d))}; "
              f"last changes {d[-8:]}")


seed = st.integers(0, 2 ** 31 - 1)
g = lambda: grid_params(max_elem=60, a=(0.4, 2), ratio=(2, 6))
def small_pairs():
    from props.C20 import pairs
    return pairs(kins=("none", "vonweiz", "libxcke"))


W = st.sampled_from(["kohnsham", "partition", "pssolver", "inverter"])
SUBCHECKS = [
    Sub("construct", lambda: st.fixed_dictionaries(dict(g=g(), which=W, seed=seed, pol=st.sampled_from([1, 2]))), run_construct, 120, 1000),
    Sub("reject", lambda: st.fixed_dictionaries(dict(g=g(), which=W, seed=seed, how=st.sampled_from(["unknown", "value", "type", "system"]))),
        run_reject, 120, 1000),
    Sub("scf_reject", lambda: st.fixed_dictionaries(dict(g=g(), which=st.sampled_from(["kohnsham", "partition"]), seed=seed,
        how=st.sampled_from(["unknown", "type", "value"]))), run_scf_reject, 60, 400),
    Sub("scf_effect", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=80, ratio=(3, 6)), s=systems(rows=(1,)), seed=seed,
        alpha=nice(0.1, 0.9, 8), maxiter=st.integers(1, 14), e_tol=st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1e-9]),
        disp=st.booleans())), run_scf_effect, 25, 150, shards=3),
    Sub("cycles", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=80, ratio=(3, 6)), s=systems(rows=(1,)), p=small_pairs(),
        which=st.sampled_from(["kohnsham", "partition", "partition"]), isolated=st.sampled_from([False, False, True]), maxiter=st.integers(2, 12),
        e_tol=st.sampled_from([0.5, 0.2, 0.1, 0.05, 0.02, 0.01, 3e-3]),
        alpha=st.lists(st.sampled_from([0.2, 0.4, 0.6, 0.9]), min_size=1, max_size=2))), run_cycles, 10, 100, shards=2, tshards=8),
    Sub("auto_tol", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=80, ratio=(3, 6)), s=systems(rows=(1,)), p=small_pairs(),
        which=st.sampled_from(["kohnsham", "partition"]), isolated=st.booleans(), iterative=st.booleans(), maxiter=st.sampled_from([6, 40, 60, 90]),
        auto=st.integers(1, 6), e_tol=st.sampled_from([0.1, 1e-2, 1e-3, 1e-5, 1e-8]),
        alpha=st.lists(st.sampled_from([0.3, 0.5, 0.7, 0.9]), min_size=1, max_size=2))), run_auto, 9, 60, shards=2, tshards=8),
    Sub("auto_long", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=70, ratio=(3, 6)), s=systems(rows=(1,)), p=st.just(None), isolated=st.just(False),
        which=st.just("kohnsham"), iterative=st.booleans(), maxiter=st.just(160), auto=st.integers(3, 6), e_tol=st.sampled_from([1e-3, 1e-5, 1e-8]),
        alpha=st.lists(st.sampled_from([0.6, 0.7, 0.8]), min_size=1, max_size=1))), run_auto, 9, 60, shards=2, tshards=8),
    Sub("history", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=80, ratio=(3, 6)), s=systems(rows=(1, 2)), p=small_pairs(),
        seed=seed, which=st.sampled_from(["kohnsham", "partition"]), runs=st.integers(1, 2))), run_history, 4, 60, shards=4, tshards=8),
]
