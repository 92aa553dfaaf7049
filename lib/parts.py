"""Partitioned systems with prescribed fragment densities."""
import numpy as np
from hypothesis import strategies as st
from common import fam, nice, cached_grid, ref_mesh, rng_field


def col():
    """one positive density column around a nucleus: contracted exponentials with a tilt"""
    return st.fixed_dictionaries(dict(c=nice(0.2, 2, 18), z=nice(0.5, 1.6, 22), t=nice(-0.4, 0.4, 8), c2=nice(0, 0.6, 6),
                                      z2=nice(0.4, 1.0, 12)))


def cols(pol, nfrag):
    return st.lists(st.lists(col(), min_size=pol, max_size=pol), min_size=nfrag, max_size=nfrag)


def column(p, r, side):
    d, o = (r.rA, r.rB) if side == "a" else (r.rB, r.rA)
    x = (o - d) / (2 * r.a)            # -1..1, towards the own nucleus
    return p["c"] * p["z"] ** 3 / np.pi * np.exp(-2 * p["z"] * d) * (1 + p["t"] * x) \
        + p["c2"] * p["z2"] ** 3 / np.pi * np.exp(-2 * p["z2"] * d)


NU = [i / 16 for i in range(16)] + [0.5, 0.5, 0.5, 1 / 3, 0.70710678, 1.25e-3]


@st.composite
def setups(draw, pols=(1, 2), ens=(False, True), spin_sym=(False, True), ab_sym=(False, True), its=("dft",), nu_sum_one=False, nus=NU,
           xcs=((1, 12), (1, 7), (9001, 12), (12, 1))):
    pol = draw(st.sampled_from(pols))
    e = draw(st.sampled_from(ens))
    ss = pol == 2 and draw(st.sampled_from(spin_sym))
    ab = draw(st.sampled_from(ab_sym))
    nu_a = draw(st.sampled_from(nus)) if e else 1
    nu_b = nu_a if ab else (draw(st.sampled_from(nus + [1.0])) if e else 1)
    if e and not ab and not nu_sum_one and nu_b != 1 and draw(st.sampled_from([True] + [False] * 9)):
        nu_a = 1.0
    if nu_sum_one:
        nu_b = 1 - nu_a
    Za = draw(st.integers(1, 8)) / 2
    Zb = Za if ab else draw(st.integers(1, 8)) / 2
    xf, cf = draw(st.sampled_from(xcs))
    empty = [e and nu > 0 and draw(st.sampled_from([False, False, True])) for nu in (nu_a, nu_b)]    # components without electrons
    if ab:
        empty[1] = empty[0]
    return dict(empty=empty, pol=pol, ens=e, spin_sym=ss, ab_sym=ab, nu_a=nu_a, nu_b=nu_b, Za=Za, Zb=Zb, it=draw(st.sampled_from(its)),
                xf=xf, cf=cf, n=draw(cols(pol, 4 if e else 2)))


def frags(p):
    """(side, object) in the order a, b, A, B"""
    out = [("a", p.KSa), ("b", p.KSb)]
    if hasattr(p, "KSA"):
        out += [("a", p.KSA), ("b", p.KSB)]
    return out


def make(g, s, **opt):
    from CADMium import Partition
    grid, r = cached_grid(g), ref_mesh(g)
    one = [[1] * s["pol"]]
    N = [one, one] if s["ens"] else one
    o = dict(interaction_type=s["it"], ens_spin_sym=s["spin_sym"], ab_sym=s["ab_sym"], xfunc_id=s["xf"], cfunc_id=s["cf"], xc_family=fam(s["xf"]))
    o.update(opt)
    p = Partition(grid, s["Za"], s["Zb"], s["pol"], N, N, s["nu_a"], N, N, s["nu_b"], o)
    return grid, r, p


def densities(s, r):
    """list over a, b(, A, B); with A<->B symmetry the b fragments are mirror images"""
    out = []
    for i, c in enumerate(s["n"]):
        side = "ab"[i % 2]
        if s["ab_sym"] and side == "b":
            c = s["n"][i - 1]
        out.append(np.column_stack([column(x, r, side) for x in c]) * (0.0 if i < 2 and s.get("empty", (0, 0))[i] else 1.0))
    return out


def scales(s):
    if s["ens"]:
        v = [1 - s["nu_a"], 1 - s["nu_b"], s["nu_a"], s["nu_b"]]
    else:
        v = [1, 1]
    return [x / 2 for x in v] if s["spin_sym"] else v


def load(p, s, dens, dft=True):
    """give the fragments densities and everything the energy routines read from them"""
    for (side, ks), n in zip(frags(p), dens):
        ks.n = n.copy()
        refresh(p, ks, s)


def refresh(p, ks, s):
    grid = p.grid
    if s["it"] == "dft":
        ks.V.vh = ks.hartree.v_hartree(ks.n)
        ks.V.eh = 0.5 * ks.V.vh[:, 0]
        ks.E.Eh = grid.integrate(np.sum(ks.n, axis=1) * ks.V.eh)
        ks.E.Ex, ks.V.ex, ks.V.vx = ks.exchange.get_xc(ks.n, return_epsilon=True)
        ks.E.Ec, ks.V.ec, ks.V.vc = ks.correlation.get_xc(ks.n, return_epsilon=True)
    for k in ("E", "Ts", "Eks", "Enuc", "Vhxc"):
        if not hasattr(ks.E, k) or isinstance(getattr(ks.E, k), np.ndarray):
            setattr(ks.E, k, 0.0)
    ks.E.evals = np.zeros(1)


def mirror(r):
    return lambda f: np.column_stack([r.unsquare(r.square(f[:, j])[::-1]) for j in range(f.shape[1])])
