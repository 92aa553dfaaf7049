"""C19: the fragments' partition potentials are the functional derivatives of the partition energy."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import phys_grid, cached_grid, ref_mesh, nice, smooth, smooth_params, raw_xc, reference_xc, fam
from parts import setups, make, frags, densities, scales, load, refresh, mirror
from props.C17 import proto

PROPERTY = "C19"
QUICK_SCALE = 3
RULE = ("random partitions with prescribed fragment densities; one fragment and spin is varied along a random smooth direction "
        "and the finite-difference change of each part of the partition energy is compared with the integral of that "
        "fragment's potential; non-trivial = the predicted change exceeds a hundredth of its largest possible size")
ASSUMPTIONS = ["the discrete kinetic and Poisson operators are not exactly adjoint to the quadrature; the boundary and quadrature "
               "defect of each quadratic form is computed separately (reference operators) and added to the prediction"]


def evaluate(p):
    p.calc_protomolecule()
    p.calc_Q()
    p.vp_nuclear()
    p.vp_kinetic()
    p.vp_hxc()
    p.energy()
    return dict(pot=p.E.Ep_pot, kin=p.E.Ep_kin, hxc=p.E.Ep_hxc)


def quad_defect(p, r):
    """what the discrete Hartree energy changes beyond the integral of its potential (boundary terms)"""
    def D(m, dm):
        M, dM = m.sum(axis=1), dm.sum(axis=1)
        vh = lambda x: np.asarray(p.hartree.v_hartree(x)).ravel()
        return 0.5 * (r.integrate(M * vh(dM)) - r.integrate(dM * vh(M)))
    return D


def orbital_defect(r, q, dq):
    T = lambda x: -0.5 * r.lap(x) / r.w
    return r.integrate(q * T(dq)) - r.integrate(dq * T(q))


def weizsaecker_defect(r):
    def D(m, dm):
        q = np.sqrt(m[:, 0])
        return orbital_defect(r, q, dm[:, 0] / (2 * q))
    return D


def functional_defect(r, fid):
    """the same for a density functional: exact directional derivative of the discrete energy minus that of the potential"""
    def D(m, dm):
        if fam(fid) == "lda":
            return 0.0
        G = [r.grad(m[:, i]) for i in range(m.shape[1])]
        H = [r.grad(dm[:, i]) for i in range(m.shape[1])]
        dot = lambda A, B: A[0] * B[0] + A[1] * B[1]
        if len(G) == 1:
            sig, ds = dot(G[0], G[0])[:, None], 2 * dot(G[0], H[0])[:, None]
        else:
            sig = np.column_stack([dot(G[0], G[0]), dot(G[0], G[1]), dot(G[1], G[1])])
            ds = np.column_stack([2 * dot(G[0], H[0]), dot(G[0], H[1]) + dot(H[0], G[1]), 2 * dot(G[1], H[1])])
        o = raw_xc(m, sig, fid)
        exact = r.integrate((o["vrho"] * dm).sum(axis=1) + (o["vsigma"] * ds).sum(axis=1))
        return exact - r.integrate((reference_xc(r, m, fid, True)[2] * dm).sum(axis=1))
    return D


def two_orbitals(r, dens):
    q1, q2 = np.sqrt(dens[0][:, 0]), np.sqrt(dens[1][:, 0])
    C = r.integrate((q1 - q2) ** 2)
    if C < 1e-3:
        raise Skip("nearly identical fragment densities")
    phi1 = np.sqrt(2) * (q1 - q2) / np.sqrt(C)
    rest = q1 ** 2 + q2 ** 2 - phi1 ** 2
    if np.any(rest <= 0.03 * (q1 ** 2 + q2 ** 2)):
        raise Skip("second orbital nearly vanishes somewhere")
    return phi1, np.sqrt(rest)


def pointwise(rec, p, r, s, dens, kin, kid, hxc):
    """where the density of a fragment is too small to change any energy, its potential still is that of the formula"""
    nA, nB = proto(s, dens)
    nf = nA + nB
    L = abs(p.grid.elap)
    T = lambda x: -0.5 * r.lap(x) / r.w / x
    size = lambda x: 0.5 * (L @ x) / r.w / x

    def near(what, x, y, sc, n):
        ok = (n > 1e-200) & np.isfinite(sc)
        d = ((x - y) / sc)[ok]
        if d.size:
            rec.close(what, d, 0 * d, 1e-9, scale=1.0)
    for (_, k), n in zip(frags(p), dens):
        for j in range(s["pol"]):
            a, b = nf[:, j], n[:, j]
            if not np.any(b):
                continue
            q, f = np.sqrt(a), np.sqrt(b)
            if kin == "vonweiz":
                near("kinetic potential at every point", np.asarray(k.V.vp_kin)[:, j], T(q) - T(f), size(q) + size(f), b)
        if kin == "libxcke" and fam(kid) == "lda":
            x, y = (reference_xc(r, m, kid, False)[2] for m in (nf, n))
            near("kinetic potential at every point", np.asarray(k.V.vp_kin), x - y, np.abs(x) + np.abs(y) + 1e-300, n)
        if hxc != "hartree" and fam(s["xf"]) == "lda" and np.any(n):
            for c, fid in (("vp_x", s["xf"]), ("vp_c", s["cf"])):
                x, y = (reference_xc(r, m, fid, False)[2] for m in (nf, n))
                near("exchange-correlation potential at every point", np.asarray(getattr(k.V, c)), x - y, np.abs(x) + np.abs(y) + 1e-300, n)


def evaluate_at(p, F, dens, s):
    for k, n in zip(F, dens):
        k.n = n.copy()
        refresh(p, k, s)
    return evaluate(p)


ROUND = 1e-11      # rounding errors of energies of order 10, over the step of the finite differences


def run(case, rec):
    s, kin, hxc = case["s"], case["kin"], case["hxc"]
    opt = dict(kinetic_part_type=kin, hxc_part_type=hxc)
    if kin == "libxcke":
        opt.update(k_family=fam(case["kid"]), ke_func_id=case["kid"])
    grid, r, p = make(case["g"], s, **opt)
    dens = densities(s, r)
    F = [k for _, k in frags(p)]
    if kin == "twoorbital":
        dens = [n * 2 / r.integrate(n[:, 0]) for n in dens]
        if case["alike"] and not s["ab_sym"]:        # fragments that nearly coincide
            x = np.tanh(2 * r.Z / r.a)[:, None]
            dens[1] = dens[0] * (1 + case["alike"] * x)
            dens = [n * 2 / r.integrate(n[:, 0]) for n in dens]
        two_orbitals(r, dens)
    load(p, s, dens)
    evaluate(p)
    v = [{c: np.array(getattr(k.V, "vp_" + c)) for c in ("pot", "kin", "hxc")} for k in F]
    pointwise(rec, p, r, s, dens, kin, case["kid"], hxc)
    i, j = case["i"] % len(F), case["j"] % s["pol"]
    if s["ab_sym"]:
        i = 2 * (i // 2)
    if i < 2 and s.get("empty", (0, 0))[i]:      # vary a density that is there
        i += 2
    d = np.zeros_like(dens[i])
    shape = smooth(case["f"], r.Y, r.Z, r.a)
    shape = shape / max(np.max(np.abs(shape)), 1e-9)
    if kin == "twoorbital":
        w = dens[i][:, j]
        shape = shape - r.integrate(w * shape) / r.integrate(w)
    d[:, j] = dens[i][:, j] * shape
    vary = {i: d}
    if s["ab_sym"]:
        vary[i + 1] = mirror(r)(d)
    h = 1e-3 * (case["alike"] or 1)
    out = []
    for sign in (1, -1):
        for k, dd in vary.items():
            F[k].n = dens[k] + sign * h * dd
            refresh(p, F[k], s)
        out.append(evaluate(p))
    rec.label(f"{kin}/{hxc}", *(x for x in ("ens", "spin_sym", "ab_sym") if s[x]), f"pol={s['pol']}", "fragment " + "ab"[i % 2])
    factor = 2 if s["spin_sym"] else 1
    sc = [factor * x for x in scales(s)]
    zero = np.zeros_like(d)
    dn = [vary.get(k, zero) for k in range(len(F))]
    nA, nB = proto(s, dens)
    dA, dB = proto(s, dn)
    whole = lambda D: D(nA + nB, dA + dB) - sum(sc[k] * D(dens[k], dn[k]) for k in vary)
    defect = dict(pot=0.0, kin=0.0, hxc=0.0)
    defect["hxc"] = whole(quad_defect(p, r))
    if hxc != "hartree" and fam(s["xf"]) == "gga":
        grad = whole(functional_defect(r, s["xf"])) + whole(functional_defect(r, s["cf"]))
        if hxc == "overlap_xc":
            evaluate_at(p, F, dens, s)
            grad *= p.E.F
        defect["hxc"] += grad
        rec.label("gradient functional")
    if hxc == "overlap_hxc":
        evaluate_at(p, F, dens, s)
        defect["hxc"] *= p.E.F
        if s["ens"] or s["spin_sym"]:
            vh = lambda n: np.asarray(p.hartree.v_hartree(n.sum(axis=1))).ravel()
            for k in vary:
                o, x = dens[len(F) - 1 - k], vary[k]
                defect["hxc"] += (1 - p.E.F) * sc[k] * 0.5 * (r.integrate(o.sum(axis=1) * vh(x)) - r.integrate(x.sum(axis=1) * vh(o)))
    if kin == "libxcke":
        defect["kin"] = whole(functional_defect(r, case["kid"]))
    elif kin == "vonweiz":
        defect["kin"] = whole(weizsaecker_defect(r))
    elif kin == "twoorbital":
        up = two_orbitals(r, [n + h * x for n, x in zip(dens, dn)])
        dw = two_orbitals(r, [n - h * x for n, x in zip(dens, dn)])
        vw = weizsaecker_defect(r)
        defect["kin"] = sum(orbital_defect(r, f, (a - b) / (2 * h)) for f, a, b in zip(two_orbitals(r, dens), up, dw)) \
            - sum(vw(dens[k], dn[k]) for k in vary)
    tol = dict(pot=1e-9, kin=case["tk"], hxc=case["th"])
    for c in ("pot", "kin", "hxc"):
        fd = (out[0][c] - out[1][c]) / (2 * h)
        terms = [sc[k] * r.integrate((v[k][c] * dd).sum(axis=1)) for k, dd in vary.items()]
        size = sum(sc[k] * r.integrate((np.abs(v[k][c] * dd)).sum(axis=1)) for k, dd in vary.items())
        if c == "pot" and size > 0:
            rec.nontrivial(abs(sum(terms)) > 0.01 * size)
        rec.close(f"derivative of {c}", fd, sum(terms) + defect[c], tol[c], scale=size + abs(defect[c]) + 1e-3 * sum(sc[k] for k in vary) + ROUND / tol[c])


def mesh():
    return phys_grid(max_elem=260)


base = dict(alike=st.just(0), i=st.integers(0, 3), j=st.integers(0, 1), f=smooth_params(2))


def S(name, setup, kins, hxcs, kids, tk, th, quick, thorough, shards=1, **more):
    return Sub(name, lambda: st.fixed_dictionaries(dict({**base, **more}, g=mesh(), s=setup(), kin=st.sampled_from(kins),
               hxc=st.sampled_from(hxcs), kid=st.sampled_from(kids), tk=st.just(tk), th=st.just(th))), run, quick, thorough, shards=shards)


SUBCHECKS = [
    S("local", lambda: setups(), ["none", "libxcke"], ["exact", "hartree"], [50], 1e-5, 1e-5, 20, 150, 2),
    S("weizsaecker", lambda: setups(pols=(1,)), ["vonweiz"], ["hartree"], [50], 1e-4, 1e-5, 20, 150),
    S("gradient", lambda: setups(), ["libxcke"], ["hartree"], [500, 52], 1e-4, 1e-5, 15, 120),
    S("gga", lambda: setups(ens=(False,), xcs=((101, 130),)), ["none"], ["exact", "overlap_xc", "overlap_hxc"], [50], 1e-5, 1e-4, 15, 120),
    S("gga_ens", lambda: setups(ens=(True,), xcs=((101, 130),)), ["none"], ["exact"], [50], 1e-5, 1e-4, 15, 120),
    S("overlap", lambda: setups(ens=(False,)), ["none"], ["overlap_xc", "overlap_hxc"], [50], 1e-5, 1e-5, 20, 150),
    S("overlap_ens", lambda: setups(ens=(True,), nu_sum_one=True, ab_sym=(False,)), ["none"], ["overlap_xc", "overlap_hxc"], [50], 1e-5, 1e-5, 20, 150),
    S("overlap_sym", lambda: setups(ens=(True,), ab_sym=(True,)).map(lambda s: dict(s, nu_a=0.5, nu_b=0.5)), ["none"],
      ["overlap_xc", "overlap_hxc"], [50], 1e-5, 1e-5, 15, 120),
    S("twoorbital", lambda: setups(pols=(1,), ens=(False,)), ["twoorbital"], ["hartree"], [50], 1e-4, 1e-5, 15, 120),
    S("alike", lambda: setups(pols=(1,), ens=(False,), ab_sym=(False,)), ["twoorbital"], ["hartree"], [50], 1e-4, 1e-5, 10, 80, alike=nice(0.1, 0.6, 10)),
]
