"""C17: fragments, ensembles and protomolecule."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, phys_grid, cached_grid, ref_mesh, rng_field, nice
from parts import setups, make, frags, densities, scales, load, mirror

PROPERTY = "C17"
QUICK_SCALE = 3
RULE = ("random partitions (spin treatment, ensembles with any mixing, spin-symmetrised, nuclear symmetry) with arbitrary "
        "fragment densities, potentials and energies given to the real objects, against explicit sums; non-trivial = an "
        "ensemble, a spin-symmetrised or a symmetric partition")
ASSUMPTIONS = []
seed = st.integers(0, 2 ** 31 - 1)


def mixing(rec, s):
    rec.nontrivial(s["ens"] or s["spin_sym"] or s["ab_sym"])
    rec.label(f"pol={s['pol']}", *(k for k in ("ens", "spin_sym", "ab_sym") if s[k]))


def proto(s, dens):
    """fragment sums nA, nB and total"""
    sc = scales(s)
    nA = sum(sc[i] * dens[i] for i in range(0, len(dens), 2))
    nB = sum(sc[i] * dens[i] for i in range(1, len(dens), 2))
    if s["spin_sym"]:
        nA, nB = nA + nA[:, ::-1], nB + nB[:, ::-1]
    return nA, nB


def run_sums(case, rec):
    s = case["s"]
    grid, r, p = make(case["g"], s)
    mixing(rec, s)
    sc = scales(s)
    for (side, ks), x in zip(frags(p), sc):
        rec.close("scale factors", ks.scale, x, 1e-14, scale=1.0)
    rec.check("fragments in play", p.ens == s["ens"], str(p.ens))
    dens = densities(s, r)
    if case["holes"]:
        for d in dens:
            d[: case["holes"]] = 0.0
    for (side, ks), n in zip(frags(p), dens):
        ks.n = n.copy()
    p.calc_protomolecule()
    nA, nB = proto(s, dens)
    m = np.max(nA + nB) + 1e-12
    rec.close("fragment A", p.na_frac, nA, 1e-12, scale=m)
    rec.close("fragment B", p.nb_frac, nB, 1e-12, scale=m)
    rec.close("protomolecule", p.nf, nA + nB, 1e-12, scale=m)
    for (side, ks), n in zip(frags(p), dens):
        rec.check("a fragment density was changed", np.array_equal(ks.n, n))
    want = sum(x * r.integrate(n.sum(axis=1)) for x, n in zip(sc, dens)) * (2 if s["spin_sym"] else 1)
    rec.close("number of electrons", r.integrate(np.asarray(p.nf).sum(axis=1)), want, 1e-9, scale=want)
    p.calc_Q()
    tot = 0
    for (side, ks), x, n in zip(frags(p), sc, dens):
        Q = np.asarray(ks.Q)
        rec.close("Q times the protomolecule", Q * (nA + nB), x * n, 1e-12, scale=m)
        rec.check("Q within 0..1", np.all(Q >= 0) and np.all(Q <= 1 + 1e-12))
        tot = tot + Q
    if s["spin_sym"]:
        tot = tot + tot[:, ::-1]
    rec.close("Q functions sum to one", tot, (nA + nB > 0).astype(float), 1e-12, scale=1.0)


def run_numbers(case, rec):
    """electron and orbital counts reach the fragments they are meant for"""
    from CADMium import Partition
    grid = cached_grid(case["g"])
    pol = case["pol"]
    rs = np.random.RandomState(case["seed"])
    new = lambda: [[int(x) for x in rs.randint(0, 3, pol)] for _ in range(case["rows"])]
    N = [new() for _ in range(8)]
    ens = case["nu"] != 1
    rec.nontrivial(ens)
    if ens:
        p = Partition(grid, 2, 1, pol, [N[0], N[1]], [N[2], N[3]], case["nu"], [N[4], N[5]], [N[6], N[7]], case["nu"], {})
        want = [(p.KSa, N[0], N[2]), (p.KSA, N[1], N[3]), (p.KSb, N[4], N[6]), (p.KSB, N[5], N[7])]
    else:
        p = Partition(grid, 2, 1, pol, N[0], N[2], case["nu"], N[4], N[6], case["nu"], {})
        want = [(p.KSa, N[0], N[2]), (p.KSb, N[4], N[6])]
    for ks, nmo, n in want:
        rec.check("orbitals of a fragment", np.array_equal(ks.Nmo, nmo), f"{ks.Nmo} {nmo}")
        rec.check("electrons of a fragment", np.array_equal(ks.N, n), f"{ks.N} {n}")
        for i in range(case["rows"]):
            for j in range(pol):
                rec.check("electrons of an orbital solver", ks.solver[i, j].N == n[i][j] and ks.solver[i, j].Nmo == nmo[i][j])
    rec.check("charges", (p.KSa.Za, p.KSa.Zb, p.KSb.Za, p.KSb.Zb) == (2, 0, 0, 1))


def run_mirror(case, rec):
    """copying fragment A to B reflects fields and transfers energies"""
    s = dict(case["s"])
    grid, r, p = make(case["g"], s)
    mixing(rec, s)
    pol, rs = s["pol"], np.random.RandomState(case["seed"])
    f = lambda: rs.uniform(-1, 1, (r.n, pol))
    names = ("vx", "vc", "vh", "vp", "ex", "ec")
    A = [k for side, k in frags(p) if side == "a"]
    B = [k for side, k in frags(p) if side == "b"]
    keep = []
    for k in A + B:
        k.n, k.Q, k.veff, k.vext = f(), f(), f(), f()
        for x in names:
            setattr(k.V, x, f())
        k.V.eh = rs.uniform(-1, 1, r.n)
        k.u = float(rs.uniform(-1, 0))
        for x in ("E", "Ts", "Eks", "Enuc", "Ex", "Ec", "Eh", "Vhxc"):
            setattr(k.E, x, float(rs.uniform(-1, 1)))
    for k in A:
        keep.append([np.array(getattr(k, x)) for x in ("n", "Q", "veff", "vext")] + [np.array(getattr(k.V, x)) for x in names + ("eh",)])
    p.mirrorAB()
    M = mirror(r)
    for a, b, old in zip(A, B, keep):
        now = [getattr(a, x) for x in ("n", "Q", "veff", "vext")] + [getattr(a.V, x) for x in names + ("eh",)]
        rec.check("fragment A was changed", all(np.array_equal(x, y) for x, y in zip(now, old)))
        for x in ("n", "Q", "veff", "vext"):
            rec.check(f"{x} of B is the mirror image of A's", np.array_equal(getattr(b, x), M(getattr(a, x))))
        for x in names:
            rec.check(f"{x} of B is the mirror image of A's", np.array_equal(getattr(b.V, x), M(getattr(a.V, x))))
        rec.check("eh of B is the mirror image of A's", np.array_equal(np.ravel(b.V.eh), r.unsquare(r.square(a.V.eh)[::-1])))
        rec.check("chemical potential is transferred", b.u == a.u)
        for x in ("E", "Ts", "Eks", "Enuc", "Ex", "Ec", "Eh", "Vhxc"):
            rec.check(f"energy {x} is transferred", getattr(b.E, x) == getattr(a.E, x))
        b.E.Ts = 99.0
        b.n[:] = 5
        rec.check("A and B share storage", a.E.Ts != 99.0 and np.array_equal(a.n, old[0]))


def run_weighted(case, rec):
    """partition potential = Q-weighted sum of the fragment potentials, symmetrised as requested"""
    s = case["s"]
    grid, r, p = make(case["g"], s, kinetic_part_type=case["kin"], k_family="gga", ke_func_id=500, hxc_part_type=case["hxc"])
    mixing(rec, s)
    dens = densities(s, r)
    load(p, s, dens)
    p.calc_protomolecule()
    p.calc_Q()
    vp = np.asarray(p.partition_potential())
    M = mirror(r)
    nA, nB = proto(s, dens)
    sc = scales(s)
    Q = [x * n / (nA + nB) for x, n in zip(sc, dens)]

    def build(name):
        v = sum(np.asarray(getattr(k.V, name)) * q for (side, k), q in zip(frags(p), Q))
        if s["spin_sym"]:
            v = v + v[:, ::-1]
        return 0.5 * (v + M(v)) if s["ab_sym"] else v
    for name in ("vp", "vp_pot", "vp_kin", "vp_hxc", "vp_h", "vp_x", "vp_c"):
        w = build(name)
        rec.close(f"weighted {name}", np.asarray(getattr(p.V, name)), w, 1e-10, scale=np.max(np.abs(w)) + 1e-9)
    rec.close("returned potential", vp, np.asarray(p.V.vp), 1e-14, scale=np.max(np.abs(vp)) + 1e-9)
    parts = p.V.vp_pot + p.V.vp_kin + p.V.vp_hxc
    rec.close("sum of the parts", vp, parts, 1e-10, scale=np.max(np.abs(vp)) + 1e-9)
    for side, k in frags(p):
        rec.close("fragment potential", k.V.vp, k.V.vp_pot + k.V.vp_kin + k.V.vp_hxc, 1e-10, scale=np.max(np.abs(k.V.vp)) + 1e-9)


SUBCHECKS = [
    Sub("sums", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200, a=(0.4, 3), ratio=(2, 8)), s=setups(),
        holes=st.sampled_from([0, 0, 1, 5]))), run_sums, 60, 600),
    Sub("numbers", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=60), pol=st.sampled_from([1, 2]), rows=st.integers(1, 3),
        nu=st.sampled_from([1, 1.0, 0, 0.5, 0.25]), seed=seed)), run_numbers, 30, 200),
    Sub("mirror", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), s=setups(ab_sym=(True,)), seed=seed)), run_mirror, 40, 400),
    Sub("weighted", lambda: st.fixed_dictionaries(dict(g=phys_grid(max_elem=150), s=setups(), kin=st.sampled_from(["none", "vonweiz", "libxcke"]),
        hxc=st.sampled_from(["exact", "hartree"]))), run_weighted, 40, 400),
]
