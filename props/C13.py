"""C13: density functionals evaluated through the libxc coupling."""
import numpy as np
from hypothesis import strategies as st
from harness import Sub
from common import grid_params, cached_grid, ref_mesh, nice, smooth_params, smooth, LDA, GGA, fam, reference_xc_points as reference, call_sequence, call_order, call_fields

PROPERTY = "C13"
QUICK_SCALE = 4
RULE = ("random meshes and positive densities (one or two spin columns); energies and potentials of real and synthetic "
        "functionals against an independently assembled expression on the reference mesh, finite differences of the "
        "energy, spin and nuclear exchange; non-trivial = two unequal spin columns or a gradient functional")
ASSUMPTIONS = ["libxc itself is replaced by a stand-in whose derivatives are exact; its values are not under test"]


def positive(nterms=2):
    t = st.fixed_dictionaries(dict(c=nice(0.1, 2, 32), al=nice(0.1, 1.2, 32), z0=nice(-1.5, 1.5, 32)))
    return st.lists(t, min_size=1, max_size=nterms)


MODES = ["plain", "nearly closed", "one spin", "tails", "dilute", "dense"]


def dens(cols, r, mode="plain", p=2.0):
    out = []
    for q in cols:
        f = np.zeros(r.n)
        for t in q:
            f = f + t["c"] * np.exp(-t["al"] * ((r.Z / r.a - t["z0"]) ** 2 + (r.Y / r.a) ** 2))
        out.append(f + 1e-6)
    n = np.column_stack(out)
    e = 10.0 ** -p
    if mode == "nearly closed" and n.shape[1] == 2:
        n[:, 1] = n[:, 0] * (1 + e * (n[:, 1] / np.max(n[:, 1]) if p > 2.5 else 1))
    elif mode == "one spin" and n.shape[1] == 2:
        n[:, 1] *= e ** 1.5
    elif mode == "tails":                     # falls off by up to 17 orders of magnitude
        n = n * np.exp(-8 * p * r.Xr / r.L)[:, None]
    elif mode == "dilute":
        n = n * e ** 2
    elif mode == "dense":
        n = n / e ** 1.5
    return np.maximum(n, 1e-19 * np.array([1.0, 0.7])[:n.shape[1]])


def run_values(case, rec):
    from CADMium.libxc.libxc import Libxc
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = dens(case["n"], r, case["mode"], case["p"])
    fid, pol = case["fid"], n.shape[1]
    gga = fam(fid) == "gga"
    rec.label(case["mode"])
    keep = n.copy()
    x = Libxc(grid, fam(fid), fid)
    e, v = x.get_xc(n)
    rec.close("density left alone", n, keep, 0.0 + 1e-300)
    e2, eps, v2 = x.get_xc(n, return_epsilon=True)
    dens_e, zk, vref, psc = reference(r, n, fid, gga)
    sc = np.max(psc)
    rec.nontrivial(gga or (pol == 2 and case["n"][0] != case["n"][-1]))
    rec.label(f"{fam(fid)} pol={pol}", f"id {fid}")
    Esc = r.integrate(np.abs(dens_e)) + 1e-12
    rec.close("energy", float(e), r.integrate(dens_e), 1e-7, scale=Esc)
    rec.close("energy with epsilon", float(e2), float(e), 1e-13, scale=Esc)
    if fid == 130:                            # logarithms of tiny arguments: rounding dominates in the tails
        psc = np.full_like(psc, np.max(psc))
        zsc = np.full_like(zk, np.max(np.abs(zk)))
    else:
        zsc = np.maximum(np.abs(zk), 1e-6 * np.mean(np.abs(zk)) if gga else 1e-280)
    rec.close("energy per particle", np.asarray(eps) / zsc, zk / zsc, 1e-7 if gga else 1e-9, scale=1.0)
    # at every point, relative to the size of that point's own terms
    rec.close("potential", np.asarray(v) / psc, vref / psc, 1e-7 if gga else 1e-9, scale=1.0)
    rec.close("potential with epsilon", np.asarray(v2) / psc, np.asarray(v) / psc, 1e-13, scale=1.0)
    if pol == 2:
        es, vs_ = x.get_xc(n[:, ::-1].copy())
        rec.close("spin exchange energy", float(es), float(e), 1e-7, scale=Esc)
        rec.close("spin exchange potential", vs_[:, ::-1], v, 1e-8, scale=sc)
    else:
        es, vs_ = x.get_xc(np.column_stack([n[:, 0] / 2, n[:, 0] / 2]))
        rec.close("closed shell energy", float(es), float(e), 1e-7, scale=Esc)
        rec.close("closed shell potential", vs_, np.column_stack([v, v]), 1e-7, scale=sc)
    em, vm = x.get_xc(np.column_stack([r.unsquare(r.square(n[:, i])[::-1]) for i in range(pol)]))
    rec.close("mirrored energy", float(em), float(e), 1e-7, scale=Esc)
    rec.close("mirrored potential", np.column_stack([r.unsquare(r.square(vm[:, i])[::-1]) for i in range(pol)]), v, 1e-7, scale=sc)


def run_fd(case, rec):
    """potential = derivative of energy; the direction is smooth and vanishes at the box edge"""
    from CADMium.libxc.libxc import Libxc
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    n = dens(case["n"], r)
    fid, pol = case["fid"], n.shape[1]
    gga = fam(fid) == "gga"
    x = Libxc(grid, fam(fid), fid)
    col = case["col"] % pol
    shape = 0.2 + np.abs(smooth(case["f"], r.Y, r.Z, r.a))
    shape /= np.max(shape)
    dn = 0 * n
    dn[:, col] = n[:, col] * shape
    h = 1e-3
    ev = lambda t: float(x.get_xc(n + t * dn)[0])
    fd = (8 * (ev(h) - ev(-h)) - (ev(2 * h) - ev(-2 * h))) / (12 * h)
    e, v = x.get_xc(n)
    want = r.integrate(v[:, col] * dn[:, col])
    rec.nontrivial(pol == 2 or gga)
    rec.label(f"{fam(fid)} pol={pol}")
    sc = abs(e) + r.integrate(np.abs(v[:, col] * dn[:, col]))
    rec.close("potential is the derivative of the energy (" + fam(fid) + ")", want, fd, 0.05 if gga else 1e-7, scale=sc)


def run_unknown(case, rec):
    from CADMium.libxc.libxc import Libxc
    r = ref_mesh(case["g"])
    n = dens(case["n"], r)
    rec.nontrivial()
    try:
        Libxc(cached_grid(case["g"]), case["family"], 1).get_xc(n)
    except ValueError:
        return
    rec.check("unknown family raises ValueError", False, case["family"])


def cols():
    return st.integers(1, 2).flatmap(lambda p: st.lists(positive(), min_size=p, max_size=p))


def run_calls(case, rec):
    """one functional object evaluated again and again"""
    from CADMium.libxc.libxc import Libxc
    g = case["g"]
    grid, r = cached_grid(g), ref_mesh(g)
    rec.nontrivial(len({i % 4 for i, _ in case["order"]}) > 1)
    rec.label(f"{fam(case['fid'])} pol={case['pol']}")
    x = Libxc(grid, fam(case["fid"]), case["fid"])
    fields = call_fields(case["seed"], r.n, case["pol"], positive=True)
    call_sequence(rec, "get_xc", lambda n: x.get_xc(n, return_epsilon=case["eps"]), fields, case["order"])


SUBCHECKS = [
    Sub("lda", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300, a=(0.4, 3.0), ratio=(2.0, 8.0)), n=cols(),
        fid=st.sampled_from(LDA), mode=st.sampled_from(MODES), p=nice(0.5, 5, 18))), run_values, 60, 600),
    Sub("gga", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300, a=(0.4, 3.0), ratio=(2.0, 8.0)), n=cols(),
        fid=st.sampled_from(GGA), mode=st.sampled_from(MODES), p=nice(0.5, 5, 18))), run_values, 60, 600, shards=2),
    Sub("fd-lda", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=300, a=(0.4, 3.0), ratio=(2.0, 8.0)), n=cols(),
        fid=st.sampled_from(LDA), col=st.integers(0, 1), f=smooth_params(2))), run_fd, 40, 400),
    Sub("unknown", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=60), n=cols(),
        family=st.sampled_from(["mgga", "", "LDA ", "hybrid", "pbe", "none"]))), run_unknown, 10, 40),
    Sub("calls", lambda: st.fixed_dictionaries(dict(g=grid_params(max_elem=200), seed=st.integers(0, 2 ** 31 - 2), pol=st.integers(1, 2),
        fid=st.sampled_from(LDA + GGA), eps=st.booleans(), order=call_order())), run_calls, 25, 250),
]
