"""C20: self-consistent partition calculations."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import (phys_grid, cached_grid, ref_mesh, nice, coul, RefKS, capacity, fam, inline_processes)
from parts import refresh, mirror

PROPERTY = "C20"
RULE = ("random fragment pairs (charges, electron numbers, spin, ensembles, symmetry options, partition functionals, SCF settings) "
        "solved by the package and by an independent loop over dense eigen-decompositions; non-trivial = the fragments interact "
        "or form an ensemble, and the reference loop converges")
ASSUMPTIONS = ["the independent loop converges, is stable and its levels are separated (other cases are skipped and counted)",
               "partition potentials and energies for given densities are those of the package (checked by C18 and C19)"]


@st.composite
def electrons(draw, pol, frac, rows=1):
    N, Nmo = [], []
    for m in range(rows):
        n = []
        for j in range(pol):
            cap = capacity(m, pol)
            lo = 1 if m == 0 and j == 0 else 0
            k = draw(st.integers(lo, 2 if (m == 0 and pol == 1) or j else max(lo, 2 - m)))
            q = k * cap
            if frac and q:
                q -= draw(st.integers(0, 3)) / 4
            if frac and pol == 1 and m == 0 and draw(st.booleans()):
                q = draw(st.sampled_from([1, 0.5, 1.5]))
            n.append(q)
        N.append(n)
        Nmo.append([max(1, int(np.ceil(x / capacity(m, pol)))) for x in n])
    return N, Nmo


@st.composite
def pairs(draw, pols=(1, 2), ens=(False, False, True), ab_sym=(False, False, True), spin_sym=(False, False, True), rows=(1, 1, 1, 2), kins=None,
          hxcs=("exact", "hartree"), its=("dft", "dft", "dft", "ni"), **kw):
    pol = draw(st.sampled_from(pols))
    e, ab = draw(st.sampled_from(ens)), draw(st.sampled_from(ab_sym))
    ss = pol == 2 and draw(st.sampled_from(spin_sym))
    frac = draw(st.booleans())
    nr = [draw(st.sampled_from(rows)) for _ in range(2)]        # the fragments need not have the same angular momenta
    Za = draw(st.integers(2, 8)) / 2
    Zb = Za if ab else draw(st.integers(2, 8)) / 2
    fr = []
    for i in range(4 if e else 2):
        fr.append(fr[-1] if ab and i % 2 else dict(zip(("N", "Nmo"), draw(electrons(pol, frac, nr[i % 2])))))
        if i < 2 and e and not (ab and i % 2) and draw(st.sampled_from([False, False, True])):
            fr[-1] = dict(N=[[0] * pol], Nmo=[[1] * pol])          # a component without electrons
    nu_a = draw(st.sampled_from([8, 8, 8] + list(range(16)))) / 16 if e else 1
    nu_b = nu_a if ab or draw(st.sampled_from([True, False, False, False])) else (draw(st.integers(0, 16)) / 16 if e else 1)
    it = draw(st.sampled_from(its))
    xf, cf = draw(st.sampled_from(kw.get("xcs", [(1, 12), (1, 7), (9001, 12)])))
    if fam(xf) == "gga" and any(sum(x[j] for x in f["N"]) <= 0 for f in fr for j in range(pol)):
        xf, cf = 1, 12          # gradient potentials are singular where a spin has no density
    kin = draw(st.sampled_from(kins or ("vonweiz", "none", "none")))
    hxc = "exact" if it == "ni" else draw(st.sampled_from(hxcs))
    return dict(pol=pol, ens=e, ab_sym=ab, spin_sym=ss, frac=frac, Za=Za, Zb=Zb, fr=fr, nu_a=nu_a, nu_b=nu_b,
                it=it, xf=xf, cf=cf, kin=kin, hxc=hxc)


def partition(grid, s, **opt):
    from CADMium import Partition
    f = s["fr"]
    if s["ens"]:
        na, ma = [f[0]["N"], f[2]["N"]], [f[0]["Nmo"], f[2]["Nmo"]]
        nb, mb = [f[1]["N"], f[3]["N"]], [f[1]["Nmo"], f[3]["Nmo"]]
    else:
        na, ma, nb, mb = f[0]["N"], f[0]["Nmo"], f[1]["N"], f[1]["Nmo"]
    o = dict(interaction_type=s["it"], fractional=s["frac"], ens_spin_sym=s["spin_sym"], ab_sym=s["ab_sym"], xfunc_id=s["xf"],
             xc_family=fam(s["xf"]), cfunc_id=s["cf"], hxc_part_type=s["hxc"], kinetic_part_type=s["kin"])
    if s["kin"] == "libxcke":
        o.update(k_family="lda", ke_func_id=50)
    o.update(opt)
    return Partition(grid, s["Za"], s["Zb"], s["pol"], ma, na, s["nu_a"], mb, nb, s["nu_b"], o)


def parts_of(p):
    return [p.KSa, p.KSb] + ([p.KSA, p.KSB] if p.ens else [])


class Ref:
    """the partition calculation as an explicit loop"""

    def __init__(self, grid, r, s, isolated=False, sdft=False, frozen=(False, False)):
        self.grid, self.r, self.s = grid, r, s
        self.isolated, self.sdft, self.frozen, self.target = isolated, sdft, frozen, None
        self.p = partition(grid, s, ab_sym=False)
        self.K = []
        for i, f in enumerate(s["fr"]):
            va = coul(r, s["Za"], 0) if i % 2 == 0 else coul(r, 0, s["Zb"])
            self.K.append(RefKS(r, grid, va, f["Nmo"], f["N"], s["pol"], s["frac"], s["xf"], s["cf"], ni=s["it"] == "ni"))
        self.sc = self.weights(s)

    @staticmethod
    def weights(s):
        return [1 - s["nu_a"], 1 - s["nu_b"], s["nu_a"], s["nu_b"]] if s["ens"] else [1, 1]

    def vext(self, dens):
        z = [np.zeros_like(dens[0]) for _ in dens]
        if self.isolated:
            return z
        p = self.p
        for ks, n in zip(parts_of(p), dens):
            ks.n = n.copy()
            refresh(p, ks, self.s)
        p.calc_protomolecule()
        if self.target is not None:
            p.nf = self.target.copy()
        p.calc_Q()
        vp = p.partition_potential()
        own = [np.array(ks.V.vp) if self.sdft else np.array(vp) for ks in parts_of(p)]
        return [z[0] if self.frozen[i % 2] else o for i, o in enumerate(own)]

    def step(self, dens):
        ve = self.vext(dens)
        new = []
        for K, n, v in zip(self.K, dens, ve):
            K.v = K.vnuc + v + K.hxc(n)
            new.append(K.solve(K.v))
        return new

    def distance(self, a, b):
        r = self.r
        # a component of weight zero does not enter the total density, by which the calculation judges its convergence
        return max(r.integrate(np.abs(x - y).sum(axis=1)) / max(r.integrate(np.abs(y).sum(axis=1)), 1e-3)
                   for x, y, c in zip(a, b, self.sc) if c)

    def converge(self, alpha, maxit, tol, start=None):
        n = start or [K.solve(K.vnuc) for K in self.K]
        for it in range(maxit):
            new = self.step(n)
            d = self.distance(new, n)
            n = [(1 - alpha[i % 2]) * a + alpha[i % 2] * b for i, (a, b) in enumerate(zip(n, new))]
            if not np.isfinite(d) or not all(K.ok for K in self.K):
                return None
            if d < tol:
                return n
        return None


def solve_ref(case, rec, ref, alpha):
    if sum(c * np.sum(np.abs(f["N"])) for c, f in zip(ref.sc, case["s"]["fr"])) == 0:
        raise Skip("no electrons in the whole molecule: the relative change of the density means nothing")
    n = ref.converge(alpha, 70, 1e-8)
    if n is None:
        raise Skip(f"reference loop does not converge ({case['s']['it']} {case['s']['kin']} {case['s']['hxc']})")
    reachable(ref, case["s"])
    return n


def reachable(ref, s):
    """the last levels are separated and are the ones an eigensolver that looks around a hydrogenic energy finds"""
    from common import ref_H
    if min(K.gap for K in ref.K) < 5e-3:
        raise Skip("levels not separated")
    for i, K in enumerate(ref.K):
        z = s["Zb"] if i % 2 else s["Za"]
        for (m, j), lv in K.levels.items():
            # the eigensolver looks around the hydrogenic energy of the fragment's own nucleus
            e0 = -(1.5 if s["it"] == "ni" else 1.0) * z ** 2 / (m + 1) ** 2
            d = np.sort(np.abs(np.linalg.eigvals(ref_H(ref.r, m) + np.diag(K.v[:, j])) - e0))
            if len(lv) < len(d) and np.max(np.abs(lv - e0)) > d[len(lv)] - 1e-3:
                raise Skip("other levels lie nearer the starting guess of the eigensolver")


def unstable(ref, n, alpha):
    kick = [x * (1 + 1e-3 * np.cos(3 * ref.r.Z / ref.r.a + 1)[:, None] * np.array([[1, 0.4]])[:, :x.shape[1]]) for x in n]
    m = ref.converge([0.9 * x for x in alpha], 80, 1e-8, kick)
    return m is None or ref.distance(m, n) > 1e-6


def mixing(case):
    """damping of the A and of the B fragments"""
    return [case["alpha"], case["alpha"] if case["one"] else case["alpha2"]]


def settings(case):
    o = dict(e_tol=1e-9, max_iter=150, alpha=mixing(case)[:1] if case["one"] else mixing(case),
             iterative=case.get("iterative", False))
    for k in ("calc_type", "freeze_a", "freeze_b"):
        if k in case:
            o[k] = case[k]
    return o


def run_scf(p, o):
    with inline_processes(), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p.scf(o)
    return not any("Max number of Iterations" in str(x.message) for x in w)


def judge(rec, case, r, p, ref, n, tol=1e-5, final=True):
    s = case["s"]
    ks = parts_of(p)
    tot = 0.0
    sc = [x / 2 for x in ref.sc] if s["spin_sym"] else ref.sc
    for i, (k, K, x) in enumerate(zip(ks, ref.K, n)):
        if final and not ref.sc[i]:
            continue
        N = max(r.integrate(x.sum(axis=1)), 1e-3)
        rec.close("fragment density", r.integrate(np.abs(np.asarray(k.n) - x).sum(axis=1)), 0.0, tol, scale=N)
        lv = np.concatenate([K.levels[m, j] for m in range(len(K.Nmo)) for j in range(s["pol"]) if K.Nmo[m][j]])
        ev = np.concatenate([np.sort(np.ravel(k.solver[m, j].eig)) for m in range(len(K.Nmo)) for j in range(s["pol"]) if K.Nmo[m][j]]) \
            if not (s["ab_sym"] and i % 2) else lv
        rec.close("fragment levels", ev, lv, tol * 3, scale=1 + np.max(np.abs(lv)))
        if K.u is not None:
            rec.close("fragment chemical potential", float(k.u), K.u, tol * 3, scale=1 + np.max(np.abs(lv)))
    nf = [sum(sc[i] * n[i] for i in range(c, len(n), 2)) for c in (0, 1)]
    nf = sum(x + x[:, ::-1] if s["spin_sym"] else x for x in nf)
    rec.close("total density", r.integrate(np.abs(np.asarray(p.nf) - nf).sum(axis=1)), 0.0, tol, scale=r.integrate(nf.sum(axis=1)))
    # energies
    E, T = [], []
    for K, x in zip(ref.K, n):
        K.n = x
        e = K.energies()
        E.append(e["Et"])
        T.append(e)
    big = sum(abs(e["Ts"]) + abs(e["Enuc"]) for e in T)
    side = [sum(ref.sc[i] * E[i] for i in range(c, len(n), 2)) for c in (0, 1)]
    rec.close("fragment energy A", float(p.E.Ea), side[0], tol, scale=big)
    rec.close("fragment energy B", float(p.E.Eb), side[1], tol, scale=big)
    for name, key in (("Tsf", "Ts"), ("Enucf", "Enuc")) + ((("Ehf", "Eh"), ("Exf", "Ex"), ("Ecf", "Ec")) if s["it"] == "dft" else ()):
        rec.close(f"fragment sum {name}", float(getattr(p.E, name)), sum(c * e[key] for c, e in zip(ref.sc, T)), tol, scale=big)
    vnn = s["Za"] * s["Zb"] / (2 * r.a)
    if ref.isolated:
        ep = 0.0
    else:
        q = ref.p
        for k, x, e in zip(parts_of(q), n, T):
            k.n = x.copy()
            refresh(q, k, s)
            k.E.Ts, k.E.Enuc, k.E.E = e["Ts"], e["Enuc"], e["Et"]
        q.calc_protomolecule()
        q.calc_Q()
        q.vp_nuclear(), q.vp_kinetic(), q.vp_hxc()
        q.energy()
        ep = float(q.E.Ep)
        for x in ("Ep_pot", "Ep_kin") + (("Ep_h",) if s["it"] == "dft" else ()):
            rec.close(f"partition energy component {x}", float(getattr(p.E, x)), float(getattr(q.E, x)), tol * 3, scale=big)
        if not final and s["it"] == "dft":
            # exchange and correlation of the total density are those that entered the potential, one cycle ago
            ep = float(p.E.Ep)
            rec.close("sum of the partition energies", ep, float(p.E.Ep_pot + p.E.Ep_kin + p.E.Ep_hxc), 1e-12, scale=big)
    rec.close("partition energy", float(p.E.Ep), ep, tol * 3, scale=big)
    rec.close("total energy", float(p.E.E), sum(side) + ep + vnn, tol * 3, scale=big)
    rec.close("electronic energy", float(p.E.Et), sum(side) + ep, tol * 3, scale=big)
    rec.close("nuclear repulsion", float(p.E.Vnn), vnn, 1e-12)


def run(case, rec):
    s = case["s"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    iso = case.get("isolated", False)
    ref = Ref(grid, r, s, iso, case.get("calc_type") == "sdft", (case.get("freeze_a", False), case.get("freeze_b", False)))
    n = solve_ref(case, rec, ref, mixing(case))
    p = partition(grid, s, isolated=iso)
    ok = run_scf(p, settings(case))
    rec.nontrivial(not iso or s["ens"])
    rec.label(f"{s['it']} {fam(s['xf'])} {s['kin']} {s['hxc']} pol={s['pol']}", *(k for k in ("ens", "ab_sym", "spin_sym", "frac") if s[k]),
              *(k for k in ("freeze_a", "freeze_b", "iterative") if case.get(k)), case.get("calc_type", "pdft"))
    x = [np.array(k.n) for k in parts_of(p)]
    if ok and all(np.all(np.isfinite(y)) and np.min(y) >= 0 for y in x) and ref.distance(x, n) > 1e-4:
        y = ref.step(x)
        if ref.distance(y, x) < 1e-6:
            rec.label("another solution of the same equations")
            n = ref.converge(mixing(case), 70, 1e-8, x) or n
        ref.step(n)
    try:
        if not ok and s["hxc"].startswith("overlap"):
            raise Skip("the driver, whose overlap energies lag one cycle behind, does not converge")
        if not ok:
            raise Violation("no convergence where an independent loop converges")
        try:
            judge(rec, case, r, p, ref, n)
        except Violation:
            # without spin the measure of convergence counts every mesh point alike (known finding column-integral)
            # and can be small while the outer region still moves
            # (with spin too, the total density can be at rest while the fragments still exchange density)
            x = [np.array(k.n) for k in parts_of(p)]
            if ref.distance(x, n) > 1e-3 or ref.distance(ref.step(x), x) < 1e-7:
                raise
            run_scf(p, dict(settings(case), continuing=True, e_tol=1e-12))
            rec.label("converged late")
            ref.step(n)
            judge(rec, case, r, p, ref, n)
        if case.get("again"):
            run_scf(p, dict(settings(case), continuing=True))
            rec.label("continued")
            judge(rec, case, r, p, ref, n)
    except Violation:
        x = [np.array(k.n) for k in parts_of(p)]
        if all(np.all(np.isfinite(y)) for y in x) and ref.distance(x, n) > 1e-4:
            # where the calculation went, the eigensolver may see other levels than the lowest
            ref.step(x)
            reachable(ref, s)
        if unstable(ref, n, mixing(case)):
            raise Skip("the solution is not stable")
        raise


def run_early(case, rec):
    """stopped before convergence, total density and energies still belong to the fragments that are there"""
    s = case["s"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    iso = case["isolated"]
    ref = Ref(grid, r, s, iso)
    p = partition(grid, s, isolated=iso)
    runs = case["runs"]
    for i, (mx, al) in enumerate(runs):
        o = dict(settings(case), max_iter=mx, alpha=list(al), continuing=i > 0, e_tol=case["e_tol"])
        run_scf(p, o)
    ks = parts_of(p)
    n = [np.asarray(k.n) for k in ks]
    if not all(np.all(np.isfinite(x)) and np.min(x) >= 0 for x in n) or not np.isfinite(float(p.E.E)):
        raise Skip("no solution")
    rec.nontrivial(not iso or s["ens"])
    rec.label(f"{s['it']} {fam(s['xf'])} {s['kin']} {s['hxc']} pol={s['pol']}", *(k for k in ("ens", "ab_sym", "spin_sym", "frac") if s[k]), f"runs={len(runs)}")
    for i, (k, K) in enumerate(zip(ks, ref.K)):
        if s["ab_sym"] and i % 2:
            rec.close("mirrored fragment", n[i], mirror(r)(n[i - 1]), 1e-12, scale=np.max(n[i]))
            K.Ts, K.u, K.levels = ref.K[i - 1].Ts, ref.K[i - 1].u, ref.K[i - 1].levels
            continue
        K.Ts = float(np.sum(k.E.Eks) - np.sum(k.E.Vks))
        K.levels = {(m, j): np.sort(np.ravel(k.solver[m, j].eig)) for m in range(len(K.Nmo)) for j in range(s["pol"]) if K.Nmo[m][j]}
        K.u = max(lv[int(np.ceil(K.N[m][j] / capacity(m, s["pol"]) - 1e-12)) - 1] for (m, j), lv in K.levels.items() if K.N[m][j]) \
            if np.any([x for row in K.N for x in row]) else None
    judge(rec, case, r, p, ref, n, 1e-7, final=False)


def run_step(case, rec):
    """one more cycle from the densities reached so far: every fragment mixes in the orbitals of its own effective potential"""
    s = case["s"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    iso, fz = case["isolated"], (case["freeze_a"], case["freeze_a" if s["ab_sym"] else "freeze_b"])     # the symmetric fragment follows
    p = partition(grid, s, isolated=iso)
    o = dict(settings(case), max_iter=case["first"], alpha=[0.5])
    run_scf(p, o)
    n0 = [np.array(k.n) for k in parts_of(p)]
    if not all(np.all(np.isfinite(x)) and np.min(x) >= 0 for x in n0):
        raise Skip("no solution")
    if case["bend"]:
        n0 = [n * (1 + 0.2 * np.cos(2 * r.Z / r.a + i)[:, None] * np.array([[1, 0.5]])[:, :s["pol"]]) for i, n in enumerate(n0)]
        if s["ab_sym"]:
            n0 = [n0[i] if i % 2 == 0 else mirror(r)(n0[i - 1]) for i in range(len(n0))]
        for k, n in zip(parts_of(p), n0):
            k.n = n.copy()
    alpha = [case["mix"][0]] * 2 if len(case["mix"]) == 1 or s["ab_sym"] else case["mix"]
    ref = Ref(grid, r, s, iso, case["calc_type"] == "sdft", fz)
    if case["target"]:              # a total density given from outside instead of that of the fragments
        p.calc_protomolecule()
        ref.target = np.array(p.nf) * (1 + 0.3 * np.cos(2 * r.Z / r.a) * np.exp(-r.Y ** 2))[:, None]
        p.nf = ref.target.copy()
    run_scf(p, dict(o, max_iter=1, alpha=case["mix"], continuing=True, iterative=False, from_target_density=case["target"]))
    if case["target"]:
        rec.close("target density stays", np.asarray(p.nf), ref.target, 1e-15, scale=np.max(ref.target))
    new = ref.step(n0)
    if not all(np.all(np.isfinite(K.v)) and K.ok for K in ref.K):
        raise Skip("no solution")
    reachable(ref, s)
    rec.nontrivial(not iso or s["ens"])
    rec.label(f"{s['it']} {s['kin']} {s['hxc']} pol={s['pol']}", case["calc_type"], *(k for k in ("ens", "ab_sym", "spin_sym", "frac") if s[k]),
              *(k for k in ("freeze_a", "freeze_b", "bend", "isolated", "target") if case[k]))
    for i, (k, a, b, K) in enumerate(zip(parts_of(p), n0, new, ref.K)):
        x = (1 - alpha[i % 2]) * a + alpha[i % 2] * b
        rec.close(f"density of fragment {'abAB'[i]} after one cycle", r.integrate(np.abs(np.asarray(k.n) - x).sum(axis=1)), 0.0, 1e-6,
                  scale=max(r.integrate(x.sum(axis=1)), 1e-3))
        if K.u is not None:
            rec.close("fragment chemical potential", float(k.u), K.u, 1e-6, scale=1 + abs(K.u))
        rec.close("fragment kinetic energy", float(k.E.Ts), K.Ts, 1e-6, scale=1 + abs(K.Ts))


def molecule(case, s, grid, r, Nmo, N):
    ref = RefKS(r, grid, coul(r, s["Za"], s["Zb"]), Nmo, N, s["pol"], True, s["xf"], s["cf"], ni=s["it"] == "ni")
    if not ref.scf(0.0, 0.4, 150, 1e-9) or ref.gap < 1e-2 or not ref.ok:
        raise Skip("the molecule does not converge")
    return ref


def as_molecule(rec, case, s, r, p, ref, tol, vs=None):
    """partitioned and unpartitioned calculation agree"""
    N = r.integrate(ref.n.sum(axis=1))
    d = r.integrate(np.abs(np.asarray(p.nf) - ref.n).sum(axis=1)) / N
    if d > tol and ref.stationary(np.asarray(p.nf), tol=tol / 3):
        raise Skip("another solution of the molecule")
    if d > tol and ref.unstable(0.0, 0.4):
        raise Skip("the molecule has several solutions")
    rec.close("molecular density", d, 0.0, tol, scale=1.0)
    e = ref.energies()
    rec.close("molecular energy", float(p.E.E), e["Et"] + s["Za"] * s["Zb"] / (2 * r.a), tol * 10, scale=abs(e["Ts"]) + abs(e["Enuc"]))
    rec.close("kinetic energy of the molecule", float(p.E.Tsf + p.E.Ep_kin), e["Ts"], tol * 10, scale=abs(e["Ts"]) + abs(e["Enuc"]))
    rec.close("nuclear attraction of the molecule", float(p.E.Enucf + p.E.Ep_pot), e["Enuc"], tol * 3, scale=abs(e["Enuc"]))


def run_exact(case, rec):
    """with one orbital per spin the von Weizsaecker functional is exact, so is the partition"""
    s = dict(case["s"], kin="vonweiz", hxc="exact")
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    pol = s["pol"]
    sc = Ref.weights(s)
    tot = [sum(c * f["N"][0][j] for c, f in zip(sc, s["fr"])) for j in range(pol)]
    if s["spin_sym"]:
        tot = [sum(tot) / 2] * 2
    ref = molecule(case, s, grid, r, [[1] * pol], [tot])
    p = partition(grid, s)
    ok = run_scf(p, dict(settings(case), max_iter=300))
    rec.nontrivial()
    rec.label(f"{s['it']} pol={pol}", *(k for k in ("ens", "ab_sym", "spin_sym") if s[k]))
    if not ok or not np.isfinite(float(p.E.E)):
        loop = Ref(grid, r, s)
        n = loop.converge(mixing(case), 100, 1e-8)
        if n is not None and not unstable(loop, n, mixing(case)):
            raise Violation("no convergence where an independent loop converges")
        raise Skip("the partition does not converge")
    as_molecule(rec, case, s, r, p, ref, 1e-5)


def run_inversion(case, rec):
    """with the kinetic energy found by density inversion the partition is exact"""
    from CADMium import Pssolver, Inverter
    s = dict(case["s"], kin="inversion", hxc="exact")
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    Ntot = [[int(round(sum(c * f["N"][m][0] for c, f in zip(Ref.weights(s), s["fr"]) if m < len(f["N"]))))] for m in range(max(len(f["N"]) for f in s["fr"]))]
    Nmo = [[int(np.ceil(Ntot[m][0] / (4 if m else 2)))] for m in range(len(Ntot))]
    ref = molecule(case, s, grid, r, Nmo, Ntot)
    p = partition(grid, s)
    p.inverter = Inverter(grid, Pssolver(grid, Nmo, Ntot), dict(invert_type=case["inv"], ab_sym=s["ab_sym"], tol_invert=1e-10 if case["inv"] != "wuyang" else 1e-7, max_iter_invert=40))
    from props.C21 import limited, TooMany
    for x in p.inverter.solver[:, 0]:
        limited(x, 400)
    rec.label(case["inv"], f"{Ntot} electrons", *(k for k in ("ab_sym", "ens") if s[k]))
    try:
        ok = run_scf(p, dict(settings(case), max_iter=35, e_tol=1e-6, alpha=[0.6]))
    except (SystemExit, TooMany, np.linalg.LinAlgError) as e:
        raise Skip("inversions fail" + (" (cut off)" if isinstance(e, TooMany) else ""))
    if not ok or not np.isfinite(float(p.E.E)):
        raise Skip("the partition does not converge")
    rec.nontrivial()
    as_molecule(rec, case, s, r, p, ref, 1e-4)
    T = ref.energies()["Ts"]
    rec.close("kinetic energy of the inversion", float(p.inverter.get_Ts()), T, 3e-4)
    rec.close("chemical potential of the inversion", float(np.ravel(p.inverter.us)[0]),
              max(float(x.eig[x.Nmo - 1]) for x in p.inverter.solver[:, 0]), 1e-9, scale=1.0)
    rec.check("one kinetic energy per particle at each point", np.size(p.V.ep_kin) == r.n, str(np.shape(p.V.ep_kin)))
    if s["ab_sym"]:
        d = p.nf[:, 0] * np.ravel(p.V.ep_kin)
        rec.close("symmetric kinetic energy per particle", r.integrate(np.abs(mirror(r)(d[:, None])[:, 0] - d)), 0.0, 1e-5, scale=T)
    rec.close("partition kinetic energy from its energy per particle", r.integrate(np.ravel(p.V.ep_kin) * p.nf[:, 0]), float(p.E.Ep_kin),
              1e-6, scale=T)


@st.composite
def single_orbitals(draw):
    # equal fragments: only then do their chemical potentials agree, which the weighted potential presupposes
    s = draw(pairs(rows=(1,), kins=("vonweiz",), hxcs=("exact",), ens=(False,), spin_sym=(False,)))
    pol = s["pol"]
    s["Zb"] = s["Za"]
    q = lambda: draw(st.integers(1, 8)) / 8
    f = []
    for i in range(len(s["fr"])):
        if i % 2:
            f.append(f[-1])
        else:
            f.append(dict(N=[[q() * (1 if pol == 1 else 0.5) for _ in range(pol)]], Nmo=[[1] * pol]))
    if pol == 2 and draw(st.booleans()):                  # spin up half of the time, spin down the other half
        x = q()
        s["spin_sym"], f = True, [dict(N=[[x, 0]], Nmo=[[1, 1]])] * 2
    if draw(st.sampled_from([False, False, True])):       # the same with every electron there part of the time only
        nu = draw(st.sampled_from([0.5, 0.5, 0.25, 0.75, 1 / 3]))
        return dict(s, fr=[dict(N=[[0] * pol], Nmo=[[1] * pol])] * 2 + f, frac=True, ens=True, nu_a=nu, nu_b=nu)
    return dict(s, fr=f, frac=True)


@st.composite
def closed_shells(draw, pi=False, ens=False):
    s = draw(pairs(pols=(1,), rows=(1,), ens=(False,), kins=("inversion",), hxcs=("exact",)))
    f = [dict(N=[[2]], Nmo=[[1]])] * 2
    s["Za"] = draw(st.integers(6, 10)) / 4
    s["Zb"] = s["Za"] if s["ab_sym"] else draw(st.integers(max(6, int(4 * s["Za"]) - 2), min(10, int(4 * s["Za"]) + 2))) / 4
    if not s["ab_sym"] and draw(st.sampled_from([False] * 9 + [True])):
        f = [dict(N=[[4]], Nmo=[[2]]), f[1]]
        s["Za"] += 1.5
    if ens:       # two or four electrons shared equally, each fragment between two whole numbers
        lo, hi = draw(st.sampled_from([(0, 2), (0, 2), (1, 3)]))
        s["Za"] = draw(st.integers(5, 8)) / 4 + (lo == 1)
        s["Zb"] = s["Za"] if s["ab_sym"] else s["Za"] + draw(st.integers(-1, 1)) / 4
        f = [dict(N=[[n]], Nmo=[[(n + 1) // 2 or 1]]) for n in (lo, lo, hi, hi)]
        return dict(s, fr=f, frac=True, ens=True, nu_a=0.5, nu_b=0.5)
    if pi:        # four electrons with angular momentum on one or both of the fragments
        s["Za"] += 2
        if s["ab_sym"]:
            s["Zb"] += 2
        f = [dict(N=[[2], [4]], Nmo=[[1], [1]]), dict(N=[[2]], Nmo=[[1]])]
        if s["ab_sym"] or draw(st.booleans()):
            f[1] = f[0] if s["ab_sym"] else dict(N=[[2], [0]], Nmo=[[1], [1]])
    return dict(s, fr=f, frac=False)


def G(n=81):
    return phys_grid(max_elem=n, ratio=(3, 7))


base = dict(alpha=st.sampled_from([0.25, 0.35, 0.45]), alpha2=st.sampled_from([0.25, 0.35, 0.45]), one=st.booleans(), again=st.booleans())
frozen = dict(freeze_a=st.booleans(), freeze_b=st.booleans())
FD = st.fixed_dictionaries
XCS = [(1, 12), (1, 7), (9001, 12), (101, 130)]
SUBCHECKS = [
    Sub("exact", lambda: FD(dict(base, g=G(), s=single_orbitals())), run_exact, 10, 60, shards=2, tshards=8),
    Sub("inversion", lambda: FD(dict(base, g=phys_grid(max_elem=90, ratio=(3.5, 5), a=(0.8, 1.5), lo_a=8, lo_r=8), s=closed_shells(), inv=st.sampled_from(["wuyang", "wuyang", "orbitalinvert", "wuyang"]))), run_inversion, 4, 12, shards=3, tshards=8),
    Sub("inversion-pi", lambda: FD(dict(base, g=phys_grid(max_elem=90, ratio=(2, 3), a=(0.8, 1.5), lo_a=8, lo_r=8), s=closed_shells(True), inv=st.just("wuyang"))), run_inversion, 2, 10, shards=4, tshards=8),
    Sub("inversion-ensemble", lambda: FD(dict(base, g=phys_grid(max_elem=90, ratio=(3, 5), a=(0.8, 1.5), lo_a=8, lo_r=8), s=closed_shells(ens=True),
        inv=st.sampled_from(["wuyang", "wuyang", "orbitalinvert"]))), run_inversion, 3, 12, shards=3, tshards=8),
    Sub("isolated", lambda: FD(dict(base, g=G(), s=pairs(xcs=XCS), isolated=st.just(True), iterative=st.sampled_from([False, False, True]))), run, 10, 60, shards=2, tshards=8),
    Sub("pdft", lambda: FD(dict(base, g=G(), s=pairs(), calc_type=st.sampled_from(["pdft", "pdft", "sdft"]))), run, 10, 60, shards=3, tshards=8),
    Sub("gga", lambda: FD(dict(base, g=G(), s=pairs(kins=("none", "vonweiz", "libxcke"), its=("dft",), xcs=[(101, 130)]),
        calc_type=st.sampled_from(["pdft", "pdft", "sdft"]))), run, 8, 40, shards=2, tshards=6),
    Sub("frozen", lambda: FD(dict(base, g=G(), s=pairs(ab_sym=(False,), ens=(False, True)), **frozen)), run, 8, 40, shards=2, tshards=6),
    Sub("functionals", lambda: FD(dict(base, g=G(), s=pairs(kins=("libxcke", "none"), hxcs=("overlap_hxc", "overlap_xc", "exact"), its=("dft",)))), run, 8, 50, shards=2, tshards=8),
    Sub("step", lambda: FD(dict(base, g=G(), s=pairs(kins=("none", "vonweiz", "libxcke"), ens=(False, True), xcs=XCS), target=st.just(False), isolated=st.sampled_from([False, False, False, True]),
        calc_type=st.sampled_from(["pdft", "pdft", "sdft"]), first=st.integers(1, 4), bend=st.booleans(), mix=st.lists(st.integers(1, 20).map(lambda i: i / 20),
        min_size=1, max_size=2), **frozen)), run_step, 25, 150, shards=2, tshards=8),
    Sub("target", lambda: FD(dict(base, g=G(), s=pairs(kins=("none", "vonweiz", "libxcke"), ens=(False, True), xcs=XCS), isolated=st.just(False), target=st.just(True),
        calc_type=st.sampled_from(["pdft", "pdft", "sdft"]), first=st.integers(1, 4), bend=st.booleans(), mix=st.lists(st.integers(1, 20).map(lambda i: i / 20),
        min_size=1, max_size=2), freeze_a=st.just(False), freeze_b=st.just(False))), run_step, 8, 60, shards=2, tshards=8),
    Sub("early", lambda: FD(dict(base, g=G(), s=pairs(kins=("none", "vonweiz")), isolated=st.sampled_from([False, False, True]),
        calc_type=st.sampled_from(["pdft", "pdft", "sdft"]), freeze_a=st.booleans(), freeze_b=st.booleans(), iterative=st.booleans(),
        e_tol=st.sampled_from([1e-1, 1e-3, 1e-9]), runs=st.lists(st.tuples(st.integers(1, 4), st.lists(st.sampled_from([0.1, 0.3, 0.6, 0.9]),
        min_size=1, max_size=2)), min_size=1, max_size=2))), run_early, 25, 150, shards=2, tshards=8),
]
