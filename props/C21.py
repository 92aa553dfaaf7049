"""C21: density inversion recovers the potential, the orbitals' density and the kinetic energy."""
import numpy as np
from scipy.sparse.linalg import ArpackNoConvergence
from hypothesis import strategies as st
from harness import Sub, Skip, Violation
from common import phys_grid, cached_grid, ref_mesh, nice, coul, smooth, smooth_params, lowest_levels, capacity, ref_H

PROPERTY = "C21"
RULE = ("a random bound potential is filled with electrons, the resulting density is handed to the inverter together with a "
        "different starting potential and the recovered potential, density, levels and kinetic energy are compared with the "
        "known ones; non-trivial = the starting potential differs from the solution")
ASSUMPTIONS = ["closed blocks with levels separated by 0.02 hartree; the optimiser reports convergence (others are counted)"]


class Filled(int):
    """a number of orbitals with the number of electrons in them (all full unless given)"""
    N = None


def filling(s, columns=None):
    """orbitals per block and spin with their electrons"""
    out = []
    for m, row in enumerate(s["Nmo"]):
        out.append([])
        for j, k in enumerate(row):
            k = Filled(k)
            if "missing" in s:
                k.N = max(k * capacity(m, s["pol"]) - s["missing"][m][j] * capacity(m, s["pol"]), 0)
            out[-1].append(k)
    return out


def occ(m, pol, nmo, i):
    """electrons in orbital i"""
    N = getattr(nmo, "N", None)
    return capacity(m, pol) * (1 if N is None else min(max(N / capacity(m, pol) - i, 0), 1))


def top(m, pol, nmo, levels):
    """highest occupied level"""
    full = [e for i, e in enumerate(levels) if occ(m, pol, nmo, i) > 0]
    return max(full) if full else -np.inf


def solve(r, v, Nmo, pol, bound=True):
    """density per spin, kinetic energy, kinetic energy density, levels"""
    n = np.zeros((r.n, pol))
    ked = np.zeros((r.n, pol))
    Ts, lev = 0.0, {}
    for m in range(len(Nmo)):
        for j in range(pol):
            if Nmo[m][j] == 0:
                continue
            E, P = lowest_levels(r, m, v[:, j], Nmo[m][j])
            if np.max(np.abs(E.imag)) > 1e-9 or np.min(np.diff(E.real)) < (0.02 if bound else 1e-4) or (bound and E.real[Nmo[m][j] - 1] > -0.05):
                raise Skip("levels not separated" if np.min(np.diff(E.real)) < 0.02 else "levels not bound")
            if E.real[0] < -15:
                raise Skip("level below the energies searched")
            lev[m, j] = E.real[:Nmo[m][j]]
            for i in range(Nmo[m][j]):
                q = occ(m, pol, Nmo[m][j], i)
                norm = r.integrate(P[:, i] ** 2)
                n[:, j] += q * P[:, i] ** 2 / norm
                Ts += q * (E.real[i] - r.integrate(P[:, i] ** 2 * v[:, j]) / norm)
                ked[:, j] += q * P[:, i] * (E.real[i] - v[:, j]) * P[:, i] / norm
    return n, Ts, ked, lev


def potentials(case, r, pol):
    s = case["s"]
    v0 = coul(r, s["Za"], s["Zb"])
    f = smooth(case["f"], r.Y, r.Z, r.a)
    f = f / max(np.max(np.abs(f)), 1e-9)
    g = smooth(case["h"], r.Y, r.Z, r.a)
    g = g / max(np.max(np.abs(g)), 1e-9)
    v = np.column_stack([v0 + case["amp"] * f + (0.3 * case["amp"] * g if j else 0) for j in range(pol)])
    if case.get("sym"):
        v = 0.5 * (v + r_mirror(r, v))
    return v0, v


def r_mirror(r, f):
    return np.column_stack([r.unsquare(r.square(f[:, j])[::-1]) for j in range(f.shape[1])])


def offset(r, w, d):
    """spread of d around its mean, weighted with the density"""
    W = r.integrate(w)
    d0 = r.integrate(w * d) / W
    return d0, np.sqrt(abs(r.integrate(w * (d - d0) ** 2)) / W)


def conditioning(r, v, Nmo, pol, j):
    """how far the recovered potential may move (density-weighted spread) per unit density residual"""
    W = 2 * np.pi * r.ha * r.hr * r.weights() * r.w
    J = np.zeros((r.n + 1, r.n))
    n = np.zeros(r.n)
    for m in range(len(Nmo)):
        if not Nmo[m][j]:
            continue
        E, P = np.linalg.eig(ref_H(r, m) + np.diag(v[:, j]))
        L = np.linalg.inv(P)
        for i, k in enumerate(np.argsort(E.real)[:Nmo[m][j]]):
            d = E[k] - E
            d[k] = np.inf
            phi = (P[:, k] / np.sqrt(W @ P[:, k] ** 2)).real
            X = ((P / d) @ L).real * phi[None, :]
            chi = 2 * phi[:, None] * X - np.outer(phi ** 2, 2 * (W * phi) @ X)
            J[:-1] += occ(m, pol, Nmo[m][j], i) * W[:, None] * chi
            n += occ(m, pol, Nmo[m][j], i) * phi ** 2
    J[-1, -1] = 1
    R = np.linalg.pinv(J, rcond=1e-15)[:, :-1]
    w = W * n / (W @ n)
    R = R - np.outer(np.ones(r.n), w @ R)
    return np.linalg.norm(np.sqrt(np.abs(w))[:, None] * R, 2)


def straightforward(r, n, v0, Nmo, pol, sym, tol=1e-15, nfev=25):
    """an independent inversion of the same kind from the same start succeeds without any setback"""
    from scipy.optimize import least_squares
    W = 2 * np.pi * r.ha * r.hr * r.weights() * r.w
    for j in range(min(n.shape[1], v0.shape[1])):
        keep, costs = {}, []

        def fun(v):
            vv = r_mirror(r, v[:, None])[:, 0] * 0.5 + 0.5 * v if sym else v
            got, J = np.zeros(r.n), np.zeros((r.n + 1, r.n))
            for m in range(len(Nmo)):
                if not Nmo[m][j]:
                    continue
                E, P = np.linalg.eig(ref_H(r, m) + np.diag(vv))
                L = np.linalg.inv(P)
                for i, k in enumerate(np.argsort(E.real)[:Nmo[m][j]]):
                    d = E[k] - E
                    d[k] = np.inf
                    phi = (P[:, k] / np.sqrt(W @ P[:, k] ** 2)).real
                    X = ((P / d) @ L).real * phi[None, :]
                    J[:-1] += occ(m, pol, Nmo[m][j], i) * (2 * phi[:, None] * X - np.outer(phi ** 2, 2 * (W * phi) @ X)) / n[:, j][:, None]
                    got += occ(m, pol, Nmo[m][j], i) * phi ** 2
            if sym:
                got = 0.5 * (got + r_mirror(r, got[:, None])[:, 0])
            J[-1, -1] = 1
            keep[v.tobytes()] = J
            costs.append(0.5 * np.sum((got / n[:, j] - 1) ** 2))
            return np.append(got / n[:, j] - 1, 0.0)
        try:
            out = least_squares(fun, v0[:, j], jac=lambda v: keep[v.tobytes()], method="trf", xtol=tol, gtol=tol, max_nfev=nfev)
        except (ValueError, np.linalg.LinAlgError):
            return False
        if not out.cost < 1e-15 * r.n or out.nfev >= nfev:
            return False
        if any(b > a and b > 1e-15 * r.n for a, b in zip(costs, costs[1:])):
            return False
    return True


def solvers(grid, Nmo, pol):
    from CADMium import Pssolver
    N = [[sum(occ(m, pol, Nmo[m][j], i) for i in range(Nmo[m][j])) for j in range(pol)] for m in range(len(Nmo))]
    partly = any(N[m][j] % capacity(m, pol) for m in range(len(Nmo)) for j in range(pol))
    S = Pssolver(grid, Nmo, N, {"fractional": True} if partly else {})
    for s in S.ravel():
        limited(s)
    return S


class TooMany(Exception):
    pass


def limited(s, limit=120):
    """bounds a search that does not get anywhere"""
    inner, count = s.calc_orbitals, [0]

    def calc_orbitals(*args, **kw):
        count[0] += 1
        if count[0] > limit:
            raise TooMany(s)
        return inner(*args, **kw)
    s.calc_orbitals = calc_orbitals


def invert(case, grid, r, rec, S, n, v0, pol, inv=None):
    from CADMium import Inverter
    if inv is None:
        inv = Inverter(grid, S, {"invert_type": "wuyang", "ab_sym": bool(case.get("sym")), "ens_spin_sym": "columns" in case})
    start = case["start"]
    n = n[:, :case.get("columns", pol)]
    vstart = np.repeat(v0[:, None], n.shape[1], axis=1)
    if start == "none":
        vstart = np.column_stack([0.5 * r.lap(np.sqrt(n[:, j])) / (np.sqrt(n[:, j]) * r.w) for j in range(n.shape[1])])
        vstart = vstart - vstart[-1]
    try:
        if start == "solver":
            for s in S.ravel():
                s.setveff(v0.copy())
            flag, out = inv.invert(n, None)
        elif start == "given":
            flag, out = inv.invert(n, vstart.copy())
        else:
            flag, out = inv.invert(n, None)
    except TooMany as e:
        wandering(rec, r, n, vstart, S, n.shape[1], case, e)
    except ArpackNoConvergence as e:
        wandering(rec, r, n, vstart, S, n.shape[1], case, None, "no eigenvalues for a potential tried")
    if "columns" in case and n.shape[1] < pol:
        vstart = np.hstack([vstart, vstart])
    return inv, flag, out, vstart


def resolved(n):
    """orbitals are known to about 1e-15 of their maximum"""
    if np.any(np.min(n, axis=0) < 1e-22 * np.max(n, axis=0)):
        raise Skip("density below the rounding errors of the orbitals")


def wandering(rec, r, n, vstart, S, pol, case, e, why="too many evaluations"):
    """a search cut off: excused when it has arrived and is only shuffling rounding errors"""
    Nmo = [[Filled(s.Nmo) for s in row] for row in S]
    for a, b in zip(Nmo, S):
        for k, s in zip(a, b):
            k.N = s.N
    for j in range(n.shape[1]):
        if e is not None and any(e.args[0] is row[j] for row in S):
            got = sum(row[j].n[:, 0] for row in S if row[j].n is not None)
            if r.integrate(np.abs(got - n[:, j])) < 1e-4 * r.integrate(n[:, j]):
                raise Skip("too many evaluations at the rounding errors of the density tail")
    hard(rec, r, n, vstart, Nmo, S.shape[1], case, why)


def hard(rec, r, n, vstart, Nmo, pol, case, why):
    """a search that fails is excused only where an independent one has trouble as well"""
    if straightforward(r, n, vstart, Nmo, pol, bool(case.get("sym"))):
        raise Violation(f"{why} although the inversion is straightforward")
    raise Skip(why)


def judge(rec, r, inv, out, flag, S, n, v, Ts, ked, lev, Nmo, pol, case, vstart):
    N = r.integrate(n.sum(axis=1))
    cost = [o.cost for o in out.ravel() if o is not None]
    if not max(cost) < 1e-12 * r.n:
        # residuals are relative: where the density is far below its maximum rounding errors of the orbitals dominate
        floor = sum(1e-26 * np.sum(np.max(n[:, j]) / n[:, j]) for j in range(pol))
        err = r.integrate(sum(np.abs(n[:, j] - sum(S[m, j].n[:, 0] for m in range(len(Nmo)) if Nmo[m][j])) for j in range(pol)))
        if max(cost) < floor and err < 1e-5 * N:
            raise Skip("the optimiser stopped at the rounding errors of the density tail")
        hard(rec, r, n, vstart, Nmo, pol, case, f"the optimiser stopped early")
    rec.check("convergence reported", all(f is None or f > 0 for f in flag.ravel()), str(flag))
    got = np.zeros_like(n)
    for m in range(len(Nmo)):
        for j in range(pol):
            if Nmo[m][j]:
                got[:, j] += S[m, j].n[:, 0]
    rec.close("density of the recovered potential", r.integrate(np.abs(got - n).sum(axis=1)), 0.0, 5e-6, scale=N)
    vs = np.asarray(inv.vs)
    rec.check("one potential per spin", vs.shape == (r.n, pol), str(vs.shape))
    vt = np.asarray(inv.get_vt())
    rec.close("kinetic potential is us - vs", vt, np.asarray(inv.us) - vs, 1e-12, scale=np.max(np.abs(vs)) + 1)
    # what the recovered potential gives by itself
    n1, Ts1, ked1, lev1 = solve(r, vs, Nmo, pol, bound=False)
    consistent(rec, "its own", r, inv, S, Nmo, pol, n1, Ts1, ked1, lev1, np.zeros(pol))
    rec.close("density of the recovered potential, solved independently", r.integrate(np.abs(n1 - n).sum(axis=1)), 0.0, 5e-6, scale=N)
    # the potential itself, where the density determines it
    W = 2 * np.pi * r.ha * r.hr * r.weights() * r.w
    d0 = np.zeros(pol)
    for j in range(pol):
        unsure = conditioning(r, v, Nmo, pol, j) * (np.linalg.norm(W * (got - n)[:, j]) + 1e-14 * N)
        rec.label("potential determined by the density" if unsure < 1e-5 else "potential not determined by the density")
        if unsure > 1e-5:
            return
        d0[j], sp = offset(r, n[:, j], vs[:, j] - v[:, j])
        if sp > 1e-4:
            # the discrete problem can have several solutions; this one reproduces the density (checked above)
            rec.label("another potential with the same density")
            return
    rec.label("original potential recovered")
    consistent(rec, "the original", r, inv, S, Nmo, pol, n, Ts, ked, lev, d0)


def consistent(rec, which, r, inv, S, Nmo, pol, n, Ts, ked, lev, d0):
    ts = np.asarray(inv.get_ts_WFI())
    rec.close(f"kinetic energy, {which}", inv.get_Ts(), Ts, 1e-6, scale=abs(Ts))
    for j in range(pol):
        tops = [top(m, pol, Nmo[m][j], lev[m, j]) for m in range(len(Nmo)) if Nmo[m][j]]
        if tops:
            rec.close(f"chemical potential, {which}", inv.us[0, j], max(tops) + d0[j], 1e-4, scale=1.0)
        for m in range(len(Nmo)):
            if Nmo[m][j]:
                rec.close(f"levels, {which}", np.sort(S[m, j].eig), lev[m, j] + d0[j], 1e-4, scale=1.0)
        rec.close(f"kinetic energy density, {which}", r.integrate(np.abs(ts[:, j] - ked[:, j])), 0.0, 1e-4, scale=abs(Ts))
        rec.close(f"kinetic energy density integrates to the kinetic energy, {which}", r.integrate(ts[:, j]),
                  r.integrate(ked[:, j]), 1e-6, scale=abs(Ts))


def run_wuyang(case, rec):
    s, pol = case["s"], case["s"]["pol"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    Nmo = filling(s)
    if "missing" in s:
        rec.label("fractional last orbital", *(["empty orbital"] if any(x >= 1 for row in s["missing"] for x in row) else []))
    v0, v = potentials(case, r, pol)
    n, Ts, ked, lev = solve(r, v, Nmo, pol)
    solve(r, np.repeat(v0[:, None], pol, axis=1), Nmo, pol)      # the start is bound as well
    resolved(n)
    S = solvers(grid, Nmo, pol)
    inv, flag, out, vstart = invert(case, grid, r, rec, S, n.copy(), v0, pol)
    rec.nontrivial()
    rec.label(f"pol={pol} rows={len(Nmo)}", "start " + case["start"])
    judge(rec, r, inv, out, flag, S, n, v, Ts, ked, lev, Nmo, pol, case, vstart)
    if case.get("sym"):
        for j in range(pol):
            rec.close("symmetric density", r_mirror(r, S[0, j].n)[:, 0], S[0, j].n[:, 0], 1e-6, scale=np.max(n))
    if case["again"]:
        # a second density with the same inverter, starting from where the first ended
        v2 = v + 0.1 * (np.exp(-0.5 * (r.Y ** 2 + r.Z ** 2) / r.a ** 2))[:, None]
        n2, Ts2, ked2, lev2 = solve(r, v2, Nmo, pol)
        vstart = np.asarray(inv.vs).copy()
        try:
            flag, out = inv.invert(n2.copy(), None)
        except TooMany as e:
            wandering(rec, r, n2, vstart, S, pol, case, e)
        rec.label("second inversion")
        judge(rec, r, inv, out, flag, S, n2, v2, Ts2, ked2, lev2, Nmo, pol, case, vstart)


def run_spin(case, rec):
    """one spin is inverted and stands for both"""
    s, pol = case["s"], 2
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    s = dict(s, pol=2, Nmo=[[row[0]] * 2 for row in s["Nmo"]])
    if "missing" in s:
        s["missing"] = [[row[0]] * 2 for row in s["missing"]]
        rec.label("fractional last orbital")
    Nmo = filling(s)
    v0, v = potentials(dict(case, s=s), r, 1)
    v = np.repeat(v, 2, axis=1)
    n, Ts, ked, lev = solve(r, v, Nmo, 2)
    solve(r, np.repeat(v0[:, None], 2, axis=1), Nmo, 2)
    resolved(n)
    S = solvers(grid, Nmo, 2)
    both = S[:, [0, 0]]
    inv, flag, out, vstart = invert(case, grid, r, rec, S, n.copy(), v0, 2)
    rec.nontrivial()
    rec.label(f"{case['columns']} columns given, rows={len(Nmo)}", "start " + case["start"])
    judge(rec, r, inv, out, flag, both, n, v, Ts, ked, lev, Nmo, 2, case, vstart)
    check_both(rec, inv, S)
    if case["again"]:
        v2 = v + 0.1 * (np.exp(-0.5 * (r.Y ** 2 + r.Z ** 2) / r.a ** 2))[:, None]
        n2, Ts2, ked2, lev2 = solve(r, v2, Nmo, 2)
        vstart = np.asarray(inv.vs).copy()
        try:
            flag, out = inv.invert(n2[:, :case["columns"]].copy(), None)
        except TooMany as e:
            wandering(rec, r, n2, vstart, S, case["columns"], case, e)
        rec.label("second inversion")
        judge(rec, r, inv, out, flag, both, n2, v2, Ts2, ked2, lev2, Nmo, 2, case, vstart)
        check_both(rec, inv, S)


def check_both(rec, inv, S):
    rec.check("the other spin has the same potential", np.array_equal(inv.vs[:, 0], inv.vs[:, 1]) and
              np.array_equal(np.ravel(S[0, 1].veff), inv.vs[:, 0]))
    rec.check("the other spin has the same chemical potential", inv.us.shape == (1, 2) and inv.us[0, 0] == inv.us[0, 1], str(inv.us))


def run_orbital(case, rec):
    """simultaneous solution for orbitals and potential; unpolarised, no angular momentum"""
    from CADMium import Inverter
    s = case["s"]
    grid, r = cached_grid(case["g"]), ref_mesh(case["g"])
    Nmo = filling(s)[:1]
    nmo = Nmo[0][0]
    if "missing" in s:
        rec.label("fractional last orbital")
    v0, v = potentials(case, r, 1)
    n, Ts, ked, lev = solve(r, v, Nmo, 1)
    resolved(n)
    E0, P0 = lowest_levels(r, 0, v0, nmo)
    if np.max(np.abs(E0.imag)) > 1e-9:
        raise Skip("complex levels")
    S = solvers(grid, Nmo, 1)
    P = P0[:, :nmo] / np.sqrt([r.integrate(P0[:, i] ** 2) for i in range(nmo)])
    inv = Inverter(grid, S, {"invert_type": "orbitalinvert", "tol_invert": 1e-10, "max_iter_invert": 60, "ab_sym": bool(case.get("sym"))})
    try:
        flag, out = inv.invert(n[:, 0].copy(), v0[:, None].copy(), P.flatten("F")[:, None], E0.real[:nmo], 0)
    except np.linalg.LinAlgError:
        raise Skip("the iteration does not converge")
    rec.nontrivial()
    rec.label(f"orbitals={nmo}")
    judge_orbital(rec, r, inv, out, S, n, v, lev, Ts, ked, Nmo, case)
    if case["again"]:
        # a second density, starting from where the first ended
        v2 = v + 0.1 * (np.exp(-0.5 * (r.Y ** 2 + r.Z ** 2) / r.a ** 2))[:, None]
        n2, Ts2, ked2, lev2 = solve(r, v2, Nmo, 1)
        try:
            flag, out = inv.invert(n2[:, 0].copy(), v0[:, None].copy(), P.flatten("F")[:, None], E0.real[:nmo], 0)
        except np.linalg.LinAlgError:
            raise Skip("the second iteration does not converge")
        rec.label("second inversion")
        judge_orbital(rec, r, inv, out, S, n2, v2, lev2, Ts2, ked2, Nmo, case)


def judge_orbital(rec, r, inv, out, S, n, v, lev, Ts, ked, Nmo, case):
    o = out.ravel()[0]
    if not (o.optimality < 1e-9):
        raise Skip("the iteration does not converge")
    got = S[0, 0].n[:, 0]
    N = r.integrate(n[:, 0])
    rec.close("density", r.integrate(np.abs(got - n[:, 0])), 0.0, 1e-5, scale=N)
    vs = np.asarray(inv.vs)[:, :1]
    n1, Ts1, ked1, lev1 = solve(r, vs, Nmo, 1, bound=False)
    rec.close("density of the recovered potential, solved independently", r.integrate(np.abs(n1 - n)[:, 0]), 0.0, 1e-5, scale=N)
    rec.close("levels of the recovered potential", np.sort(S[0, 0].eig.ravel().real), lev1[0, 0], 1e-4, scale=1.0)
    rec.close("potential counted from the highest level", lev1[0, 0][-1], 0.0, 1e-4, scale=1.0)
    if case.get("sym"):
        rec.close("symmetric potential", r_mirror(r, vs), vs, 1e-8, scale=np.max(np.abs(vs)))
    ts = np.asarray(inv.get_ts_WFI())[:, 0]
    rec.close("kinetic energy", inv.get_Ts(), Ts1, 1e-5, scale=abs(Ts1))
    rec.close("kinetic energy density", r.integrate(np.abs(ts - ked1[:, 0])), 0.0, 1e-4, scale=abs(Ts1))
    d0, sp = offset(r, n[:, 0], vs[:, 0] - v[:, 0])
    if sp > 1e-4:
        rec.label("another potential with the same density")
        return
    rec.label("original potential recovered")
    rec.close("constant of the potential", d0, -lev[0, 0][-1], 1e-4, scale=1.0)
    rec.close("levels", np.sort(S[0, 0].eig.ravel().real), lev[0, 0] - lev[0, 0][-1], 1e-4, scale=1.0)


@st.composite
def blocks(draw, pols=(1, 2), rows=(1, 1, 2, 2, 3), same=False, partly=False, empty=True):
    pol = draw(st.sampled_from(pols))
    Za = draw(st.integers(3, 10)) / 2
    Zb = Za if same else draw(st.integers(0, 8)) / 2
    if draw(st.booleans()):
        Za, Zb = Zb, Za
    nr = draw(st.sampled_from(rows))
    if nr == 3:       # enough attraction to hold an electron with two units of angular momentum
        Za = draw(st.integers(4, 7)) / 2
        Zb = Za if same else draw(st.integers(4, 7)) / 2
    Nmo = [[draw(st.sampled_from([1, 2, 1, 2, 3])) for _ in range(pol)]]
    for m in range(1, nr):
        Nmo.append([draw(st.sampled_from([1, 1, 1, 2] if m == 1 else [1])) for _ in range(pol)])
    if partly and draw(st.booleans()):
        missing = [[draw(st.sampled_from([0, 0.25, 0.5, 0.75, 0.4] + [1] * empty)) for _ in row] for row in Nmo]
        for j in range(pol):           # an electron is left in every spin
            if missing[0][j] >= Nmo[0][j]:
                missing[0][j] = 0.5
        return dict(pol=pol, Za=Za, Zb=Zb, Nmo=Nmo, missing=missing)
    return dict(pol=pol, Za=Za, Zb=Zb, Nmo=Nmo)


base = dict(f=smooth_params(2), h=smooth_params(1), amp=nice(0.05, 0.6, 11), again=st.booleans())


def G(n=110):
    return phys_grid(max_elem=n, ratio=(3, 7))


SUBCHECKS = [
    Sub("wuyang", lambda: st.fixed_dictionaries(dict(base, g=G(), s=blocks(partly=True), start=st.sampled_from(["given", "solver", "none"]))),
        run_wuyang, 12, 100, shards=3, tshards=8),
    Sub("delta", lambda: st.fixed_dictionaries(dict(base, g=G(), s=blocks(rows=(3,)), start=st.sampled_from(["given", "solver"]))),
        run_wuyang, 5, 50, shards=2, tshards=8),
    Sub("symmetric", lambda: st.fixed_dictionaries(dict(base, g=G(), s=blocks(same=True, partly=True), sym=st.just(True),
        start=st.sampled_from(["given", "solver", "none"]))), run_wuyang, 10, 80, shards=3, tshards=8),
    Sub("spin_sym", lambda: st.fixed_dictionaries(dict(base, g=G(), s=blocks(pols=(1,), partly=True), columns=st.sampled_from([1, 2]),
        start=st.sampled_from(["given", "solver", "none"]))), run_spin, 8, 60, shards=2, tshards=8),
    Sub("orbital", lambda: st.fixed_dictionaries(dict(base, g=G(130), s=blocks(pols=(1,), rows=(1,), partly=True, empty=False))), run_orbital, 20, 80, shards=2, tshards=8),
    Sub("orbital-sym", lambda: st.fixed_dictionaries(dict(base, g=G(130), s=blocks(pols=(1,), rows=(1,), same=True, partly=True, empty=False),
        sym=st.just(True))), run_orbital, 16, 60, shards=2, tshards=8),
]
