"""Shared generators, builders and an independent reference model of the mesh."""
from fractions import Fraction
from functools import lru_cache
import math
import numpy as np
from hypothesis import strategies as st

# ----------------------------------------------------------------- generators

def nice(lo, hi, q=64):
    """Floats on a lattice of (hi-lo)/q: shrink well and are exact in JSON."""
    return st.integers(0, q).map(lambda i: lo + (hi - lo) * i / q)


@st.composite
def grid_params(draw, max_elem=420, min_elem=1, ks=(1, 2, 3, 4, 5), NPs=(2, 3, 4, 5, 6, 7, 8, 9),
                a=(0.3, 6.0), ratio=(1.5, 16.0), square=None, min_n=1):
    """NP, NMa, NMr, a, Rmax (box edge on the axis), k (stencil half width).
    Constructed so that every dimension holds at least 2k points and the mesh
    stays below max_elem; non-square block counts dominate."""
    k = draw(st.sampled_from(ks))
    NP = draw(st.sampled_from(NPs))
    lo = max(1, -(-(max(2 * k, min_n) - 1) // (NP - 1)))
    n_lo = (NP - 1) * lo + 1
    hi_a = max(lo, (max_elem // n_lo - 1) // (NP - 1))
    NMa = draw(st.integers(lo, min(hi_a, lo + 12)))
    na = (NP - 1) * NMa + 1
    hi_r = max(lo, (max_elem // na - 1) // (NP - 1))
    NMr = NMa if square and NMa <= hi_r else draw(st.integers(lo, min(hi_r, lo + 12)))
    aa = draw(nice(*a))
    rr = draw(nice(*ratio))
    return dict(NP=NP, NMa=NMa, NMr=NMr, a=aa, ratio=rr, k=k)


@st.composite
def large_grids(draw, max_elem=5000, ks=(1, 2, 3, 4, 5), NPs=(2, 3, 4, 5, 6, 7, 8, 9), long=True):
    """meshes of the size used in production, and long thin ones"""
    k = draw(st.sampled_from(ks))
    NP = draw(st.sampled_from(NPs))
    lo = max(2 * k, NP)
    thin = long and draw(st.booleans())
    n1 = draw(st.integers(lo, 2 * lo)) if thin else draw(st.integers(25, 80))
    L1 = -(-(n1 - 1) // (NP - 1))
    n1 = L1 * (NP - 1) + 1
    rad = draw(st.booleans())                    # which of the two comes second
    hi = min(max_elem // n1, 350 if rad else 120)
    n2 = draw(st.integers(hi // 2, hi))
    L2 = max((n2 - 1) // (NP - 1), -(-(2 * k - 1) // (NP - 1)))
    if not rad:
        L1, L2 = L2, L1
    return dict(NP=NP, NMa=L1, NMr=L2, a=draw(nice(0.3, 6)), ratio=draw(nice(1.5, 16)), k=k)


def smooth_params(nterms=2, neg=True):
    """Parameters of a smooth function of (y^2, z): sum of Gaussians x polynomials."""
    t = st.fixed_dictionaries(dict(c=nice(-2 if neg else 0.1, 2, 32), al=nice(0.1, 2.0, 32),
                                   z0=nice(-1.5, 1.5, 32), p=nice(-1, 1, 16)))
    return st.lists(t, min_size=1, max_size=nterms)


def smooth(params, Y, Z, a=1.0):
    """Evaluate smooth_params in units of the half bond length."""
    y, z = Y / a, Z / a
    out = np.zeros_like(y)
    for t in params:
        out = out + t["c"] * (1 + t["p"] * z) * np.exp(-t["al"] * ((z - t["z0"]) ** 2 + y ** 2))
    return out


# -------------------------------------------------------------------- builders

def make_grid(g):
    from CADMium import Psgrid
    grid = Psgrid(g["NP"], [g["NMa"], g["NMr"]], g["a"], float(np.arccosh(g["ratio"])),
                  np.array(range(-g["k"], g["k"] + 1)))
    grid.initialize()
    return grid


_cache = {}


def cached_grid(g):
    key = tuple(sorted(g.items()))
    if key not in _cache:
        if len(_cache) > 24:
            _cache.clear()
        _cache[key] = make_grid(g)
    return _cache[key]


def rng_field(seed, shape):
    """Deterministic rough field within [-1, 1]: the seed is part of the case. A third of the seeds give special
    structure: empty, equal, opposite or proportional columns, mostly zeros, a single point, one sign, a constant."""
    rs = np.random.RandomState(seed)
    f = rs.uniform(-1, 1, shape)
    kind, two = seed % 24, len(np.shape(f)) == 2 and shape[1] == 2
    if kind in (1, 2) and two:
        f[:, kind - 1] = 0
    elif kind == 3 and two:
        f[:, 1] = f[:, 0]
    elif kind == 4 and two:
        f[:, 1] = -f[:, 0]
    elif kind == 5 and two:
        f[:, 1] = rs.uniform(-1, 1) * f[:, 0]
    elif kind == 6:
        f[rs.uniform(size=f.shape) < 0.9] = 0
    elif kind == 7:
        keep = np.zeros(f.shape, bool)
        keep.flat[rs.randint(f.size)] = True
        f[~keep] = 0
    elif kind in (8, 9):
        f = np.abs(f) if kind == 8 else -np.abs(f)
    elif kind == 10:
        f[...] = f.flat[0]
    elif kind == 11:
        f = f * 10.0 ** -rs.randint(1, 14)
    elif kind == 12 and two:
        f[:, 1] = f[:, 0] * (1 + 10.0 ** -rs.randint(2, 9) * rs.uniform(-1, 1, f.shape[0]))
        f = f / 1.1
    return f


# ------------------------------------------------------------- reference model

@lru_cache(None)
def fd_coeffs(k, deriv):
    """Exact central differences on -k..k (Lagrange interpolation, rationals)."""
    xs = list(range(-k, k + 1))
    out = []
    for j in xs:
        poly = [Fraction(1)]
        den = Fraction(1)
        for m in xs:
            if m == j:
                continue
            poly = [Fraction(0)] + poly
            for i in range(len(poly) - 1):
                poly[i] -= m * poly[i + 1]
            den *= j - m
        out.append(poly[deriv] * math.factorial(deriv) / den)
    return tuple(out)


@lru_cache(None)
def nc_closed(N):
    """Exact closed Newton-Cotes weights on 0..N-1."""
    return _moment_weights([Fraction(i) for i in range(N)], Fraction(0), Fraction(N - 1))


def _moment_weights(xs, lo, hi):
    n = len(xs)
    A = [[x ** p for x in xs] + [(hi ** (p + 1) - lo ** (p + 1)) / Fraction(p + 1)] for p in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return tuple(A[i][n] for i in range(n))


@lru_cache(None)
def nc_weights(N, Nm):
    """Composite weights with half-cell corrections at both ends (f=0 on the boundary)."""
    w = nc_closed(N)
    edge = _moment_weights([Fraction(0)] + [Fraction(2 * i - 1, 2) for i in range(1, N)],
                           Fraction(0), Fraction(1, 2))[1:]
    n = (N - 1) * Nm + 1
    out = [Fraction(0)] * n
    for b in range(Nm):
        for i in range(N):
            out[b * (N - 1) + i] += w[i]
    for i in range(N - 1):
        out[i] += edge[i]
        out[n - 1 - i] += edge[i]
    return np.array([float(x) for x in out])


def deriv_matrix(n, k, deriv, parity, outer):
    """Dense n x n central-difference matrix on cell midpoints of unit spacing.
    Values beyond the inner end are mirror images times `parity`; beyond the
    outer end they are mirror images times `outer` (outer=0: zero)."""
    c = [float(x) for x in fd_coeffs(k, deriv)]
    M = np.zeros((n, n))
    for i in range(n):
        for o in range(-k, k + 1):
            j, s = i + o, 1.0
            if j < 0:
                j, s = -1 - j, parity
            elif j >= n:
                j, s = 2 * n - 1 - j, outer
            if s:
                M[i, j] += s * c[o + k]
    return M


class RefMesh:
    """Independent reconstruction of the prolate-spheroidal mesh."""

    def __init__(self, g):
        self.g = g
        self.NP, self.NMa, self.NMr, self.k, self.a = g["NP"], g["NMa"], g["NMr"], g["k"], g["a"]
        self.L = float(np.arccosh(g["ratio"]))
        self.Na = (self.NP - 1) * self.NMa + 1
        self.Nr = (self.NP - 1) * self.NMr + 1
        self.n = self.Na * self.Nr
        self.ha = math.pi / self.Na
        self.hr = self.L / self.Nr
        self.xa = (np.arange(self.Na) + 0.5) * self.ha
        self.xr = (np.arange(self.Nr) + 0.5) * self.hr
        self.Xa = np.tile(self.xa, self.Nr)
        self.Xr = np.repeat(self.xr, self.Na)
        self.Z = self.a * np.cosh(self.Xr) * np.cos(self.Xa)
        self.Y = self.a * np.sinh(self.Xr) * np.sin(self.Xa)
        self.rA = 2 * self.a * (np.sinh(self.Xr / 2) ** 2 + np.cos(self.Xa / 2) ** 2)   # distance to z=-a
        self.rB = 2 * self.a * (np.sinh(self.Xr / 2) ** 2 + np.sin(self.Xa / 2) ** 2)   # distance to z=+a
        q = np.sinh(self.Xr) ** 2 + np.sin(self.Xa) ** 2
        self.h = self.a * np.sqrt(q)
        self.h3 = self.Y
        self.w = self.h * self.h * self.h3

    def square(self, f):
        return f.reshape(self.Na, self.Nr, order="F")

    def unsquare(self, F):
        return F.reshape(-1, order="F")

    def D(self, which, deriv, parity):
        if which == "a":
            return deriv_matrix(self.Na, self.k, deriv, parity, parity) / self.ha ** deriv
        return deriv_matrix(self.Nr, self.k, deriv, parity, 0) / self.hr ** deriv

    def grad(self, f):
        """(d/da, d/dr) components of the gradient of an even (m even) function."""
        F = self.square(f)
        ga = self.D("a", 1, 1) @ F
        gr = F @ self.D("r", 1, 1).T
        return self.unsquare(ga) / self.h, self.unsquare(gr) / self.h

    def div(self, fa, fr):
        """angular and radial parts of the divergence of a vector with odd angular/radial components."""
        A = self.square(self.h * self.h3 * fa)
        R = self.square(self.h * self.h3 * fr)
        da = self.D("a", 1, -1) @ A
        dr = R @ self.D("r", 1, -1).T
        return self.unsquare(da) / self.w, self.unsquare(dr) / self.w

    def lap(self, f, parity=1):
        """w * Laplacian (without the m^2 term) of a function of that parity."""
        F = self.square(f)
        sa, ca = np.sin(self.xa)[:, None], np.cos(self.xa)[:, None]
        sr, cr = np.sinh(self.xr)[None, :], np.cosh(self.xr)[None, :]
        A = sa * (self.D("a", 2, parity) @ F) + ca * (self.D("a", 1, parity) @ F)
        R = sr * (F @ self.D("r", 2, parity).T) + cr * (F @ self.D("r", 1, parity).T)
        return self.a * self.unsquare(sr * A + sa * R)

    def weights(self):
        return np.outer(nc_weights(self.NP, self.NMa), nc_weights(self.NP, self.NMr)).reshape(-1, order="F")

    def integrate(self, f):
        return 2 * math.pi * self.ha * self.hr * float(np.sum(self.weights() * self.w * f))


_rcache = {}


def ref_mesh(g):
    key = tuple(sorted(g.items()))
    if key not in _rcache:
        if len(_rcache) > 24:
            _rcache.clear()
        _rcache[key] = RefMesh(g)
    return _rcache[key]


# ------------------------------------------------------------ single particles

def phys_grid(max_elem=170, ks=(1, 2, 3, 4), a=(0.4, 2.5), ratio=(2.5, 8.0), lo_a=6, lo_r=6):
    """meshes that resolve an atom or diatomic crudely; a is the half bond length"""
    @st.composite
    def make(draw):
        k = draw(st.sampled_from(ks))
        NP = draw(st.sampled_from([2, 3, 4, 5]))
        la = max(1, -(-(max(2 * k, lo_a) - 1) // (NP - 1)))
        na_min = (NP - 1) * la + 1
        lr = max(1, -(-(max(2 * k, lo_r) - 1) // (NP - 1)))
        nr_min = (NP - 1) * lr + 1
        ha = max(la, min(la + 4, (max_elem // nr_min - 1) // (NP - 1)))
        NMa = draw(st.integers(la, ha))
        na = (NP - 1) * NMa + 1
        hr = max(lr, min(lr + 6, (max_elem // na - 1) // (NP - 1)))
        NMr = draw(st.integers(lr, hr))
        return dict(NP=NP, NMa=NMa, NMr=NMr, a=draw(nice(*a)), ratio=draw(nice(*ratio)), k=k)
    return make()


def coul(r, Za, Zb):
    return -Za / r.rA - Zb / r.rB


def ref_H(r, m):
    """dense w^-1 (-1/2 lap) + m^2/(2 Y^2) in column-major layout"""
    par = 1 if m % 2 == 0 else -1
    sa, ca = np.sin(r.xa), np.cos(r.xa)
    sr, cr = np.sinh(r.xr), np.cosh(r.xr)
    La = sa[:, None] * r.D("a", 2, par) + ca[:, None] * r.D("a", 1, par)
    Lr = sr[:, None] * r.D("r", 2, par) + cr[:, None] * r.D("r", 1, par)
    L = r.a * (np.kron(np.diag(sr), La) + np.kron(Lr, np.diag(sa)))
    return -0.5 * L / r.w[:, None] + np.diag(m * m / (2 * r.Y ** 2))


def dense_levels(r, m, v, e0, nmo):
    """the nmo eigenpairs of the reference Hamiltonian nearest e0, ascending; second value says
    whether they are real, separated from each other and from the rest by more than 1e-4"""
    E, P = np.linalg.eig(ref_H(r, m) + np.diag(v))
    order = np.argsort(np.abs(E - e0))
    d = np.abs(E - e0)[order]
    sel = order[:nmo]
    clean = len(order) == nmo or d[nmo] - d[nmo - 1] > 1e-4 * max(1, d[nmo])
    e = E[sel]
    clean = clean and np.max(np.abs(e.imag)) < 1e-9
    i = np.argsort(e.real)
    e, P = e.real[i], P[:, sel][:, i].real
    gaps = np.min(np.diff(e)) if nmo > 1 else 1.0
    return e, P, bool(clean), bool(gaps > 1e-4 * max(1.0, np.max(np.abs(e))))


def capacity(m, pol):
    return (2 if pol == 1 else 1) * (2 if m > 0 else 1)


def parallel(r, a, b):
    """1 - |cos| between two fields"""
    return 1 - abs(float(np.dot(a, b))) / float(np.linalg.norm(a) * np.linalg.norm(b))


def occupations(m, pol, N, nmo, fractional):
    """electrons in each orbital, bottom up; a partial last one only when fractional"""
    cap = capacity(m, pol)
    occ, left = [], N
    for i in range(nmo):
        q = min(cap, left)
        if q < cap and not fractional:
            q = 0
        occ.append(q)
        left -= min(cap, left)
    return occ


# ------------------------------------------------------------- functionals

LDA = [1, 7, 12, 50, 9001]
GGA = [52, 101, 130, 500, 9101, 9102]


def raw_xc(n, sig, fid):
    import pylibxc
    d = {"rho": n.copy()}
    if sig is not None:
        d["sigma"] = sig
    return pylibxc.LibXCFunctional(fid, n.shape[1]).compute(d)


def reference_xc(r, n, fid, gga):
    """energy per volume, per particle, potential and a scale for the potential"""
    e, zk, v, sc = reference_xc_points(r, n, fid, gga)
    return e, zk, v, np.max(sc)


def reference_xc_points(r, n, fid, gga):
    """same, with the scale of the potential (its size before cancellation) at every point"""
    pol = n.shape[1]
    if not gga:
        o = raw_xc(n, None, fid)
        return (o["zk"] * n).sum(axis=1), o["zk"], o["vrho"].copy(), np.abs(o["vrho"])
    G = [r.grad(n[:, i]) for i in range(pol)]
    dot = lambda i, j: G[i][0] * G[j][0] + G[i][1] * G[j][1]
    sig = dot(0, 0)[:, None] if pol == 1 else np.column_stack([dot(0, 0), dot(0, 1), dot(1, 1)])
    o = raw_xc(n, sig, fid)
    v, vs, sc = o["vrho"].copy(), o["vsigma"], np.abs(o["vrho"])
    Da, Dr = np.abs(r.D("a", 1, -1)), np.abs(r.D("r", 1, -1))
    B = [gradient_bound(r, n[:, i]) for i in range(pol)]

    def D(f, i):
        a, b = r.div(f * G[i][0], f * G[i][1])
        size = np.abs(f) * r.h3 * B[i]
        return a + b, r.unsquare(Da @ r.square(size) + r.square(size) @ Dr.T) / r.w
    if pol == 1:
        terms = [[(2, D(vs[:, 0], 0))]]
    else:
        terms = [[(2, D(vs[:, 0], 0)), (1, D(vs[:, 1], 1))], [(2, D(vs[:, 2], 1)), (1, D(vs[:, 1], 0))]]
    for i, ts in enumerate(terms):
        for c, (t, size) in ts:
            v[:, i] -= c * t
            sc[:, i] += c * size
    return (o["zk"] * n).sum(axis=1), o["zk"], v, sc


def gradient_bound(r, f):
    """pointwise size of h * |gradient| before cancellation"""
    F = np.abs(r.square(f))
    return r.unsquare(np.abs(r.D("a", 1, 1)) @ F) + r.unsquare(F @ np.abs(r.D("r", 1, 1)).T)


def fam(fid):
    return "gga" if fid in GGA else "lda"


# ------------------------------------------------------------ Kohn-Sham model

class _Proc:
    """Inline stand-in for a worker process: runs on a shallow copy, so results come back only
    through the shared dictionary, as they do from a real process."""

    def __init__(self, target, args=(), **kw):
        import copy
        import types
        self.t = types.MethodType(target.__func__, copy.copy(target.__self__)) if hasattr(target, "__self__") else target
        self.a = args

    def start(self):
        self.t(*self.a)

    def join(self, *a):
        pass


class _Man:
    def dict(self):
        return {}

    def shutdown(self):
        pass


class inline_processes:
    """avoid a fork per orbital solver where the code forks; a no-op if it is organised differently"""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        import CADMium.kohnsham.kohnsham as K
        self.saved = {}
        if self.on:
            for k, v in (("Process", _Proc), ("Manager", _Man)):
                if hasattr(K, k):
                    self.saved[k] = getattr(K, k)
                    setattr(K, k, v)

    def __exit__(self, *a):
        import CADMium.kohnsham.kohnsham as K
        for k, v in self.saved.items():
            setattr(K, k, v)


def lowest_levels(r, m, v, nmo):
    E, P = np.linalg.eig(ref_H(r, m) + np.diag(v))
    i = np.argsort(E.real)[:nmo + 1]
    return E[i], P[:, i].real


class RefKS:
    """Self-consistent Kohn-Sham calculation by dense linear algebra on the reference mesh.
    Hartree potentials come from the package (checked on their own by C07)."""

    def __init__(self, r, grid, va, Nmo, N, pol, frac, xf, cf, ni=False):
        from CADMium.hartree.hartree import Hartree
        self.r, self.pol, self.frac = r, pol, frac
        self.vnuc = np.repeat(va[:, None], pol, axis=1)
        self.Nmo, self.N = Nmo, N
        self.xf, self.cf, self.ni = xf, cf, ni
        self.hart = Hartree(grid)
        self.ok = True

    def hxc(self, n):
        if self.ni:
            return 0 * n
        v = np.asarray(self.hart.v_hartree(n))
        for f in (self.xf, self.cf):
            v = v + reference_xc(self.r, n, f, fam(f) == "gga")[2]
        return v

    def solve(self, veff):
        """density, eigenvalue sum, kinetic energy, levels [m][spin], homo"""
        r = self.r
        n = np.zeros((r.n, self.pol))
        self.eks = self.Ts = 0.0
        self.levels, homo = {}, []
        self.gap = 9.0
        for m in range(len(self.Nmo)):
            for j in range(self.pol):
                nmo = self.Nmo[m][j]
                if nmo == 0:
                    continue
                E, P = lowest_levels(r, m, veff[:, j], nmo)
                if np.max(np.abs(E[:nmo].imag)) > 1e-9:
                    self.ok = False
                E = E.real
                self.levels[m, j] = E[:nmo]
                self.gap = min(self.gap, np.min(np.diff(E)))
                self.e_next = E
                cap = capacity(m, self.pol)
                for i, q in enumerate(occupations(m, self.pol, self.N[m][j], nmo, self.frac)):
                    if q:
                        n[:, j] += q * P[:, i] ** 2 / r.integrate(P[:, i] ** 2)
                        self.eks += q * E[i]
                nocc = math.ceil(self.N[m][j] / cap - 1e-12)
                if nocc:
                    homo.append(E[nocc - 1])
        self.u = max(homo) if homo else None
        self.Ts = self.eks - sum(r.integrate(n[:, j] * veff[:, j]) for j in range(self.pol))
        return n

    def scf(self, vext=0.0, alpha=0.5, maxit=150, tol=1e-10, kick=None):
        r = self.r
        n = self.solve(self.vnuc + vext)
        if kick is not None:
            n = n * (1 + kick)
        if self.ni:
            self.n = n
            self.v = self.vnuc + vext
            return True
        for it in range(maxit):
            self.v = self.vnuc + vext + self.hxc(n)
            new = self.solve(self.v)
            d = r.integrate(np.abs(new - n).sum(axis=1)) / max(r.integrate(n.sum(axis=1)), 1e-9)
            n = (1 - alpha) * n + alpha * new
            if not np.isfinite(d) or not self.ok:
                return False
            if d < tol:
                self.n = n
                self.iters = it
                return True
        return False

    def stationary(self, n, vext=0.0, tol=1e-5):
        """is this density itself a self-consistent one?"""
        keep = self.n.copy(), self.v.copy()
        new = self.solve(self.vnuc + vext + self.hxc(n))
        out = self.r.integrate(np.abs(new - n).sum(axis=1)) <= tol * self.r.integrate(np.abs(n).sum(axis=1))
        self.solve(keep[1])
        self.n, self.v = keep
        return out

    def unstable(self, vext, alpha):
        """does a slightly different route lead to another solution, or to none?"""
        n0, keep = self.n.copy(), self.v.copy()
        kick = 1e-3 * rng_field(7, (self.r.n, 1)) + 0.02 * np.tanh(self.r.Z / self.r.a)[:, None] * np.array([[1, 0.3]])[:, :self.pol]
        ok = self.scf(vext, alpha * 0.9, 250, 1e-9, kick)
        out = not ok or self.r.integrate(np.abs(self.n - n0).sum(axis=1)) > 1e-6 * self.r.integrate(n0.sum(axis=1))
        self.solve(keep)
        self.n, self.v = n0, keep
        return out

    def energies(self):
        r, n = self.r, self.n
        E = dict(Ts=self.Ts, Enuc=sum(r.integrate(n[:, j] * self.vnuc[:, j]) for j in range(self.pol)))
        if not self.ni:
            vh = np.asarray(self.hart.v_hartree(n))[:, 0]
            E["Eh"] = 0.5 * r.integrate(n.sum(axis=1) * vh)
            E["Ex"] = r.integrate(reference_xc(r, n, self.xf, fam(self.xf) == "gga")[0])
            E["Ec"] = r.integrate(reference_xc(r, n, self.cf, fam(self.cf) == "gga")[0])
        E["Et"] = sum(E.values())
        return E


@st.composite
def systems(draw, pols=(1, 2), rows=(1, 2), zmax=3.0, nmax=6, frac=None, both=None, xcs=None, filled=False):
    """charges, electron counts per angular momentum and spin, orbitals per block"""
    pol = draw(st.sampled_from(pols))
    Za = draw(st.integers(1, int(2 * zmax))) / 2
    Zb = draw(st.integers(0 if not both else 1, int(2 * zmax))) / 2
    if draw(st.booleans()):
        Za, Zb = (Za, Zb) if both else (Zb, Za)
    fr = draw(st.booleans()) if frac is None else frac
    rows_ = draw(st.sampled_from(rows))
    unit = 4 if fr else 1
    N, Nmo = [], []
    left = min(nmax, math.ceil(Za + Zb))
    for m in range(rows_):
        nr, mr = [], []
        for j in range(pol):
            cap = capacity(m, pol)
            hi = max(0, int(left * (1.0 if pol == 1 else 0.5 + 0.5 * (j == 0))))
            lo = 1 if m == 0 and (j == 0 or filled) else 0
            step = cap if not fr else 1
            q = draw(st.integers(lo, max(lo, (hi if fr else hi // step)))) * step
            if fr and q:
                q -= draw(st.integers(0, unit - 1)) / unit
            extra = draw(st.integers(0, 1))
            nr.append(q)
            mr.append(math.ceil(q / cap) + extra)
            left = max(0, left - q)
        N.append(nr)
        Nmo.append(mr)
    if xcs is None:
        xcs = [(1, 12), (1, 7), (1, 12), (12, 1), (9001, 1)]
    xf, cf = draw(st.sampled_from(xcs))
    return dict(pol=pol, Za=Za, Zb=Zb, frac=fr, N=N, Nmo=Nmo, xf=xf, cf=cf)


def kohnsham(grid, s, **opt):
    from CADMium import Kohnsham
    o = {"fractional": s["frac"], "xfunc_id": s["xf"], "cfunc_id": s["cf"],
         "xc_family": "gga" if fam(s["xf"]) == "gga" else "lda"}
    o.update(opt)
    return Kohnsham(grid, s["Za"], s["Zb"], s["pol"], s["Nmo"], s["N"], o)


# ------------------------------------------------------------ calls in sequence

def flat_arrays(o):
    """the arrays of a result, tuples and dictionaries opened"""
    if isinstance(o, dict):
        o = [o[k] for k in sorted(o)]
    if isinstance(o, (tuple, list)):
        return [a for x in o for a in flat_arrays(x)]
    return [o if isinstance(o, np.ndarray) else np.asarray(o)]


def call_sequence(rec, what, f, fields, order, views=False, tol=1e-11):
    """f is a function of the values it is given alone: not of earlier calls, not of which array carried the values,
    not of what became of earlier results. `order` picks fields for the calls, by a new array, by one whose contents
    change in place, or by the previous result overwritten in between. Results handed out earlier stay what they were."""
    copies = lambda o: [np.array(a, copy=True) for a in flat_arrays(o)]
    want = [copies(f(np.array(x, order="K", copy=True))) for x in fields]
    scale = [[np.max(np.abs(a)) if a.size else 0 for a in w] for w in want]
    buf, out = np.array(fields[0], copy=True), None
    for i, how in order:
        i %= len(fields)
        if how == "overwrite" and out is not None and not views:
            for a in flat_arrays(out):
                if a.flags.writeable and a.ndim:
                    a[...] = -3 * a + 1
        if how == "same array" and buf.shape == fields[i].shape:
            arg = buf
            arg[...] = fields[i]
        else:
            arg = np.array(fields[i], copy=True)
        keep, before = (out, copies(out)) if out is not None and not (views and arg is buf) else (None, None)
        out = f(arg)
        rec.check(f"{what} changed its argument", np.array_equal(arg, fields[i]))
        got = flat_arrays(out)
        rec.check(f"{what}: number of results", len(got) == len(want[i]))
        for a, b, s in zip(got, want[i], scale[i]):
            rec.close(f"{what} after other calls", a, b, tol, scale=s if s > 0 else 1.0)
        if keep is not None:
            rec.check(f"{what}: an earlier result changed", all(np.array_equal(a, b, equal_nan=True) for a, b in zip(flat_arrays(keep), before)))


def call_order(max_size=8):
    return st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["new array", "same array", "overwrite"])).map(list), min_size=3, max_size=max_size)


def call_fields(seed, n, cols, positive=False):
    """four fields: two different ones, one that shares its first column and its sum with another, one that is nearly equal"""
    shape = (n, cols) if cols else (n,)
    a, b = rng_field(seed, shape), rng_field(seed + 1, shape)
    if positive:
        a, b = np.abs(a) + 0.05, np.abs(b) + 0.05
    c = a[::-1].copy()
    if cols == 2:
        c = a.copy()
        c[:, 1] = b[:, 1]
    d = a * (1 + 1e-6 * np.abs(b))
    return [a, b, c, d]


def run_solver_history(case, rec, response):
    """one array of orbital solvers used for several potentials, in any order: each time the results are
    those of a new solver given that potential"""
    from CADMium import Pssolver
    g, pol, rows = case["g"], case["pol"], case["rows"]
    grid, r = cached_grid(g), ref_mesh(g)
    base = coul(r, case["Za"], case["Zb"])
    f = [smooth(p, r.Y, r.Z, r.a) for p in case["f"]]
    f = [x / max(np.max(np.abs(x)), 1e-9) for x in f]
    V = [base, base + 0.3 * f[0], base + 0.3 * f[1], base + 1e-4 * f[1]]
    e0 = -1.5 * (max(case["Za"], case["Zb"]) ** 2 + 1) - 0.3
    N, Nmo = [], []
    for m in range(rows):
        N.append([case["q"][m][j] * capacity(m, pol) / 4 for j in range(pol)])
        Nmo.append([max(1, math.ceil(N[m][j] / capacity(m, pol))) + case["extra"] for j in range(pol)])

    def make():
        S = Pssolver(grid, Nmo, N, {"fractional": case["frac"]})
        for s in S.ravel():
            s.e0 = e0
        return S
    fresh = {}

    def alone(i, j, which):
        if (i, j, which) not in fresh:
            s = make()[i, j]
            s.hamiltonian()
            s.setveff(V[which].copy())
            s.calc_orbitals()
            s.calc_density()
            s.calc_energy()
            s.calc_ked_WFI()
            s.get_homo()
            if response:
                s.calc_response()
            fresh[i, j, which] = results(s, ["density", "energy", "ked", "homo"] + ["response"] * response)
        return fresh[i, j, which]

    def results(s, ops):
        out = {"levels": np.array(s.eig)}
        order = np.sqrt([r.integrate(s.phi[:, i] ** 2) for i in range(s.phi.shape[1])])
        out["orbital densities"] = (s.phi / order) ** 2
        if "density" in ops or "energy" in ops:
            out["density"] = np.array(s.n)
        if "energy" in ops:
            out["energies"] = np.array([s.eks, s.Ts, s.Vs], float)
        if "ked" in ops:
            out["kinetic energy density"] = np.array(s.ked_WFI)
        if "homo" in ops:
            out["frontier level"] = np.array(s.homo)
        if "response" in ops:
            chi = s.chi.toarray() if hasattr(s.chi, "toarray") else np.asarray(s.chi)
            out["response"] = np.array(chi)
        return out
    S, bufs = make(), {}
    seen = set()
    for i, j, which, how, ops in case["steps"]:
        i, j = i % rows, j % pol
        s = S[i, j]
        if how == "no setup" and s.H0 is None:
            rec.label("Hamiltonian built on demand")
        elif s.H0 is None or how == "set up again":
            s.hamiltonian()
        if how == "same array" and (i, j) in bufs:
            bufs[i, j][...] = V[which]
        else:
            bufs[i, j] = V[which].copy()
        s.setveff(bufs[i, j])
        s.calc_orbitals()
        for op in ops:
            if op == "energy":
                s.calc_energy()
            elif op == "density":
                s.calc_density()
            elif op == "ked":
                s.calc_ked_WFI()
            elif op == "homo":
                s.get_homo()
            elif op == "response" and response:
                s.calc_response()
        if response and "response" not in ops:
            s.calc_response()
            ops = ops + ["response"]
        if (i, j) in seen:
            rec.nontrivial()
        seen.add((i, j))
        want, got = alone(i, j, which), results(s, ops)
        rec.check("the potential was changed", np.array_equal(bufs[i, j], V[which]))
        for k in got:
            rec.close(f"solver used before: {k}", got[k], want[k], 1e-7, scale=max(np.max(np.abs(want[k])), 1e-9))
        if "overwrite" in ops:
            for a in (s.n, s.ked_WFI, s.phi, s.eig):
                if isinstance(a, np.ndarray):
                    a *= -2
                    a += 1


def solver_history(response):
    ops = ["density", "energy", "ked", "homo", "overwrite"] + ["response"] * response
    step = st.tuples(st.integers(0, 2), st.integers(0, 1), st.integers(0, 3),
                     st.sampled_from(["new array", "same array", "set up again", "no setup"]),
                     st.lists(st.sampled_from(ops), max_size=5)).map(list)
    return st.fixed_dictionaries(dict(g=phys_grid(max_elem=90), pol=st.sampled_from([1, 2]), rows=st.integers(1, 3), Za=nice(0.5, 4, 14),
        Zb=nice(0, 4, 16), q=st.lists(st.lists(st.integers(0, 9), min_size=2, max_size=2), min_size=3, max_size=3), extra=st.integers(0, 1),
        frac=st.booleans(), f=st.lists(smooth_params(2), min_size=2, max_size=2), steps=st.lists(step, min_size=2, max_size=6)))
