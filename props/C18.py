"""C18: partition energy and its assembly into the total energy."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import phys_grid, cached_grid, ref_mesh, reference_xc, nice, fam
from parts import setups, make, frags, densities, scales, load, mirror
from props.C17 import proto

PROPERTY = "C18"
QUICK_SCALE = 3
RULE = ("random partitions with prescribed fragment densities; every component of the partition energy and every fragment sum "
        "against the defining difference of functionals evaluated separately; non-trivial = an ensemble, spin-symmetrised, "
        "symmetric or spin-polarised partition")
ASSUMPTIONS = ["Hartree energies come from the package's own Poisson solver (checked by C07)"]
NAMES = ("E", "Ts", "Eks", "Enuc", "Vhxc")


def prepare(case, **opt):
    s, g = case["s"], case["g"]
    grid, r, p = make(g, s, **opt)
    dens = densities(s, r)
    load(p, s, dens)
    rs = np.random.RandomState(case["seed"])
    F = [k for _, k in frags(p)]
    for i, k in enumerate(F):
        for x in NAMES:
            setattr(k.E, x, float(rs.uniform(-2, 2)))
        k.E.evals = rs.uniform(-2, 0, 2)
    if s["ab_sym"]:
        for a, b in zip(F[0::2], F[1::2]):
            b.E = __import__("copy").copy(a.E)
    return grid, r, p, s, dens, F


def labels(rec, s, extra):
    rec.nontrivial(s["ens"] or s["spin_sym"] or s["ab_sym"] or s["pol"] == 2)
    rec.label(extra, f"pol={s['pol']}", *(k for k in ("ens", "spin_sym", "ab_sym") if s[k]))


def evaluate(p):
    p.calc_protomolecule()
    p.calc_Q()
    p.vp_nuclear()
    p.vp_kinetic()
    p.vp_hxc()
    p.energy()


def mix(s, vals):
    """ensemble sum over fragments of one value each"""
    f = 2 if s["spin_sym"] else 1
    return f * sum(x * v for x, v in zip(scales(s), vals))


def eh(p, n, r):
    tot = n.sum(axis=1)
    return 0.5 * r.integrate(tot * np.asarray(p.hartree.v_hartree(tot)).ravel())


def tvw(n, r):
    q = np.sqrt(n.sum(axis=1))
    return r.integrate(q * (-0.5 * r.lap(q)) / r.w)


def run_assembly(case, rec):
    grid, r, p, s, dens, F = prepare(case, kinetic_part_type="none", hxc_part_type="exact")
    labels(rec, s, "assembly")
    p.optPartition.isolated = case["isolated"]
    if case["isolated"]:
        p.calc_protomolecule()
        p.calc_Q()
        p.energy()
    else:
        evaluate(p)
    a, b = range(0, len(F), 2), range(1, len(F), 2)
    sc, f = scales(s), 2 if s["spin_sym"] else 1
    part = lambda idx, x: f * sum(sc[i] * getattr(F[i].E, x) for i in idx)
    rec.close("energy of fragment A", p.E.Ea, part(a, "E"), 1e-10, scale=10)
    rec.close("energy of fragment B", p.E.Eb, part(b, "E"), 1e-10, scale=10)
    rec.close("sum of fragment energies", p.E.Ef, mix(s, [k.E.E for k in F]), 1e-10, scale=10)
    for name, x in (("Tsf", "Ts"), ("Eksf", "Eks"), ("Enucf", "Enuc"), ("Exf", "Ex"), ("Ecf", "Ec"), ("Ehf", "Eh"), ("Vhxcf", "Vhxc")):
        if s["it"] == "ni" and name in ("Exf", "Ecf", "Ehf", "Vhxcf"):
            continue
        v = mix(s, [float(getattr(k.E, x)) for k in F])
        rec.close(f"fragment sum {name}", float(getattr(p.E, name)), v, 1e-10, scale=10 + abs(v))
    ep = p.E.Ep_pot + p.E.Ep_kin + p.E.Ep_hxc
    rec.close("partition energy is the sum of its parts", p.E.Ep, 0.0 if case["isolated"] else ep, 1e-12, scale=10 + abs(ep))
    if case["isolated"]:
        rec.check("isolated fragments have no partition energy", (p.E.Ep, p.E.Ep_pot, p.E.Ep_kin, p.E.Ep_hxc) == (0, 0, 0, 0))
    vnn = s["Za"] * s["Zb"] / (2 * r.a)
    rec.close("nuclear repulsion", p.E.Vnn, vnn, 1e-12, scale=1 + vnn)
    rec.close("electronic energy", p.E.Et, p.E.Ef + p.E.Ep, 1e-12, scale=10 + abs(ep))
    rec.close("total energy", p.E.E, p.E.Et + vnn, 1e-12, scale=10 + abs(ep) + vnn)
    rec.close("levels of A", p.E.evals_a, np.concatenate([F[i].E.evals for i in a]), 1e-14)
    rec.close("levels of B", p.E.evals_b, np.concatenate([F[i].E.evals for i in b]), 1e-14)


def run_components(case, rec):
    kin, hxc = case["kin"], case["hxc"]
    opt = dict(kinetic_part_type=kin, hxc_part_type=hxc)
    if kin == "libxcke":
        opt.update(k_family=fam(case["kid"]), ke_func_id=case["kid"])
    grid, r, p, s, dens, F = prepare(case, **opt)
    labels(rec, s, f"{kin}/{hxc}/{fam(s['xf'])}")
    evaluate(p)
    nA, nB = proto(s, dens)
    nf = nA + nB
    va, vb = -s["Za"] / r.rA, -s["Zb"] / r.rB
    pot = r.integrate(nA.sum(axis=1) * vb) + r.integrate(nB.sum(axis=1) * va)
    rec.close("nuclear part", p.E.Ep_pot, pot, 1e-9, scale=abs(pot))
    # kinetic part
    if kin == "none":
        T, Tf = 0.0, [0.0]
    elif kin == "vonweiz":
        T, Tf = tvw(nf, r), [tvw(n, r) for n in dens]
    else:
        ek = lambda n: r.integrate(reference_xc(r, n, case["kid"], fam(case["kid"]) == "gga")[0])
        T, Tf = ek(nf), [ek(n) for n in dens]
    kinE = T - mix(s, Tf)
    rec.close(f"kinetic part ({kin})", p.E.Ep_kin, kinE, 1e-7, scale=abs(T) + 1e-6 + max(map(abs, Tf)))
    ep = p.E.Ep_pot + p.E.Ep_kin + p.E.Ep_hxc
    rec.close("partition energy is the sum of its parts", p.E.Ep, ep, 1e-12, scale=10 + abs(ep) + abs(T))
    local = s["pol"] == 1 and not s["spin_sym"]
    if local:
        per = np.ravel(p.V.ep_kin)
        rec.close("kinetic part from its energy per particle", r.integrate(nf[:, 0] * per), kinE, 1e-7,
                  scale=abs(T) + 1e-6 + max(map(abs, Tf)))
        if s["ab_sym"]:
            rec.close("symmetric kinetic energy per particle", mirror(r)(per[:, None])[:, 0], per, 1e-9, scale=np.max(np.abs(per)) + 1e-9)
    # interaction parts
    if s["it"] == "ni":
        rec.close("no interaction part", p.E.Ep_hxc, 0.0, 1e-14, scale=1.0)
        return
    ex = lambda n, i: r.integrate(reference_xc(r, n, i, fam(i) == "gga")[0])
    H, X, C = eh(p, nf, r), ex(nf, s["xf"]), ex(nf, s["cf"])
    h = H - mix(s, [eh(p, n, r) for n in dens])
    x = X - mix(s, [ex(n, s["xf"]) for n in dens])
    c = C - mix(s, [ex(n, s["cf"]) for n in dens])
    sc = abs(H) + abs(X) + abs(C)
    rec.close("Hartree part", p.E.Ep_h, h, 1e-8, scale=sc)
    rec.close("exchange part", p.E.Ep_x, x, 1e-8, scale=sc)
    rec.close("correlation part", p.E.Ep_c, c, 1e-8, scale=sc)
    if local:
        for name, v in (("ep_h", h), ("ep_x", x), ("ep_c", c)):
            per = np.ravel(getattr(p.V, name))
            rec.close(f"{name}: energy from the energy per particle", r.integrate(nf[:, 0] * per), v, 1e-8, scale=sc)
            if s["ab_sym"]:
                rec.close(f"symmetric {name}", mirror(r)(per[:, None])[:, 0], per, 1e-9, scale=np.max(np.abs(per)) + 1e-9)
    if hxc == "exact":
        want = h + x + c
    elif hxc == "hartree":
        want = h
    else:
        S = r.integrate(np.sqrt(nA.sum(axis=1) * nB.sum(axis=1)))
        f = math.erf(2 * S)
        rec.close("overlap", p.E.S, S, 1e-9, scale=1 + S)
        rec.close("overlap weight", p.E.F, f, 1e-9, scale=1.0)
        if hxc == "overlap_xc":
            want = h + f * (x + c)
        else:
            vh = [np.asarray(p.hartree.v_hartree(n.sum(axis=1))).ravel() for n in dens]
            I = lambda i, j: 0.5 * r.integrate(dens[i].sum(axis=1) * vh[j])
            if not s["ens"] and not s["spin_sym"]:
                cor = 0.0
            elif not s["ens"]:
                cor = scales(s)[0] * 2 * I(0, 1) + scales(s)[1] * 2 * I(1, 0)
            else:      # a pairs with B, A with b
                cor = mix(s, [I(i, 3 - i) for i in range(4)])
            rec.close("correlated Hartree energy", p.E.Ehcor, cor, 1e-8, scale=sc)
            want = f * (h + x + c) + (1 - f) * cor
    rec.close(f"interaction part ({hxc})", p.E.Ep_hxc, want, 1e-8, scale=sc)
    if hxc == "exact":
        whole = p.E.Exf + p.E.Ecf + p.E.Ehf + p.E.Ep_hxc
        rec.close("fragments plus partition energy give the whole interaction energy", whole, H + X + C, 1e-8, scale=sc)


def run_twoorbital(case, rec):
    """two doubly occupied orbitals built from the two fragment densities"""
    case["s"].update(pol=1, ens=False, spin_sym=False)
    grid, r, p, s, dens, F = prepare(case, kinetic_part_type="twoorbital", hxc_part_type="exact")
    rec.nontrivial()
    rec.label("symmetric" if s["ab_sym"] else "unsymmetric")
    dens = [n * 2 / r.integrate(n[:, 0]) for n in dens]          # two electrons on each fragment
    load(p, s, dens)
    evaluate(p)
    q1, q2 = np.sqrt(dens[0][:, 0]), np.sqrt(dens[1][:, 0])
    C = r.integrate((q1 - q2) ** 2)
    if C < 1e-3:
        from harness import Skip
        raise Skip("identical fragment densities")
    phi1 = math.sqrt(2) * (q1 - q2) / math.sqrt(C)
    rest = q1 ** 2 + q2 ** 2 - phi1 ** 2
    if np.min(rest) <= 1e-12 * np.max(rest):
        from harness import Skip
        raise Skip("second orbital vanishes somewhere")
    phi2 = np.sqrt(rest)
    T = sum(r.integrate(f * (-0.5 * r.lap(f)) / r.w) for f in (phi1, phi2))
    Tf = sum(tvw(n, r) for n in dens)
    rec.close("two-orbital kinetic part", p.E.Ep_kin, T - Tf, 1e-7, scale=abs(T) + abs(Tf))
    per, nf = np.ravel(p.V.ep_kin), dens[0][:, 0] + dens[1][:, 0]
    rec.close("two-orbital kinetic part from its energy per particle", r.integrate(nf * per), T - Tf, 1e-7, scale=abs(T) + abs(Tf))


seed = st.integers(0, 2 ** 31 - 1)
XCS = ((1, 12), (1, 7), (9001, 12), (12, 1), (101, 130), (101, 130))
g = lambda: phys_grid(max_elem=200)
SUBCHECKS = [
    Sub("assembly", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(its=("dft", "dft", "ni")), seed=seed,
        isolated=st.booleans())), run_assembly, 40, 400),
    Sub("components", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(xcs=XCS), seed=seed, kid=st.sampled_from([50, 500, 101, 52]),
        kin=st.sampled_from(["none", "vonweiz", "libxcke"]), hxc=st.sampled_from(["exact", "hartree"]))), run_components, 50, 500, shards=2),
    Sub("overlap", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(xcs=XCS), seed=seed, kid=st.just(50),
        kin=st.sampled_from(["none", "vonweiz"]), hxc=st.sampled_from(["overlap_xc", "overlap_hxc"]))), run_components, 50, 500),
    Sub("halves", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(pols=(2,), ens=(True,), spin_sym=(True, True, False), nus=[0.5, 0.25, 0.0]), seed=seed,
        kid=st.just(50), kin=st.just("none"), hxc=st.sampled_from(["overlap_xc", "overlap_hxc", "overlap_hxc"]))), run_components, 30, 300),
    Sub("independent", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(its=("ni",)), seed=seed, kid=st.sampled_from([50, 500]),
        kin=st.sampled_from(["none", "vonweiz", "libxcke"]), hxc=st.just("exact"))), run_components, 20, 200),
    Sub("twoorbital", lambda: st.fixed_dictionaries(dict(g=g(), s=setups(pols=(1,), ens=(False,)), seed=seed)),
        run_twoorbital, 30, 200),
]
