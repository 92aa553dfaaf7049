"""Stand-in for the external C library binding `pylibxc` (libxc), which is not installable here.

Only the part of its interface that pyCADMium uses is provided:
``LibXCFunctional(id_or_name, spin).compute({"rho":..., "sigma":...}) -> {"zk","vrho"[,"vsigma"]}``
with libxc's array layout: rho (N, spin), sigma (N, 1) or (N, 3) = (aa, ab, bb),
zk (N, 1) = energy *per particle*, vrho (N, spin), vsigma (N, 1|3).

Every functional is written once, as an energy density e(n_a, n_b, s_aa, s_ab, s_bb) of complex
arguments, and every derivative is taken by complex step, so vrho/vsigma are the derivatives of
n*zk to machine precision by construction.

Functionals: libxc's own ids for the ones the project uses
  1 LDA_X, 7 LDA_C_VWN, 12 LDA_C_PW, 50 LDA_K_TF, 52 GGA_K_TFVW, 101 GGA_X_PBE,
  130 GGA_C_PBE, 500 GGA_K_VW
and synthetic ids (not libxc's) used to probe the coupling code with generic smooth functionals:
  9001  LDA, generic in (n_a, n_b)
  9101  GGA, e = n^{4/3} and every sigma component with a different coefficient
  9102  GGA, polynomial: e depends on s_ab only
"""
import numpy as np

__version__ = "stand-in"

_THR = 1e-24


def _slater(na, nb):
    cx = -0.75 * (3.0 / np.pi) ** (1.0 / 3.0)
    # spin scaling: Ex[na,nb] = (Ex[2na]+Ex[2nb])/2
    return 0.5 * cx * ((2 * na) ** (4.0 / 3.0) + (2 * nb) ** (4.0 / 3.0))


def _pw92_G(A, a1, b1, b2, b3, b4, rs):
    s = rs ** 0.5
    q1 = 2 * A * (b1 * s + b2 * rs + b3 * rs * s + b4 * rs * rs)
    return -2 * A * (1 + a1 * rs) * np.log(1 + 1.0 / q1)


def _fz(z):
    return ((1 + z) ** (4.0 / 3.0) + (1 - z) ** (4.0 / 3.0) - 2.0) / (2.0 ** (4.0 / 3.0) - 2.0)


def _pw92_eps(na, nb):
    n = na + nb
    rs = (3.0 / (4 * np.pi * n)) ** (1.0 / 3.0)
    z = (na - nb) / n
    e0 = _pw92_G(0.031091, 0.21370, 7.5957, 3.5876, 1.6382, 0.49294, rs)
    e1 = _pw92_G(0.015545, 0.20548, 14.1189, 6.1977, 3.3662, 0.62517, rs)
    ac = -_pw92_G(0.016887, 0.11125, 10.357, 3.6231, 0.88026, 0.49671, rs)
    f = _fz(z)
    return e0 + ac * f / 1.709921 * (1 - z ** 4) + (e1 - e0) * f * z ** 4


def _vwn5_one(A, x0, b, c, rs):
    x = rs ** 0.5
    X = lambda y: y * y + b * y + c
    Q = (4 * c - b * b) ** 0.5
    at = np.arctan(Q / (2 * x + b))
    return A * (
        np.log(x * x / X(x)) + 2 * b / Q * at
        - b * x0 / X(x0) * (np.log((x - x0) ** 2 / X(x)) + 2 * (b + 2 * x0) / Q * at)
    )


def _vwn5_eps(na, nb):
    n = na + nb
    rs = (3.0 / (4 * np.pi * n)) ** (1.0 / 3.0)
    z = (na - nb) / n
    ep = _vwn5_one(0.0310907, -0.10498, 3.72744, 12.9352, rs)
    ef = _vwn5_one(0.01554535, -0.32500, 7.06042, 18.0578, rs)
    al = _vwn5_one(-1.0 / (6 * np.pi ** 2), -0.0047584, 1.13107, 13.0045, rs)
    f = _fz(z)
    f2 = 4.0 / (9.0 * (2.0 ** (1.0 / 3.0) - 1.0))
    return ep + al * f / f2 * (1 - z ** 4) + (ef - ep) * f * z ** 4


def _e_lda_x(na, nb, *s):
    return _slater(na, nb)


def _e_pw(na, nb, *s):
    return (na + nb) * _pw92_eps(na, nb)


def _e_vwn(na, nb, *s):
    return (na + nb) * _vwn5_eps(na, nb)


_CTF = 0.3 * (3 * np.pi ** 2) ** (2.0 / 3.0)


def _e_tf(na, nb, *s):
    return 0.5 * _CTF * ((2 * na) ** (5.0 / 3.0) + (2 * nb) ** (5.0 / 3.0))


def _e_vw(na, nb, saa, sab, sbb):
    return saa / (8 * na) + sbb / (8 * nb)


def _e_tfvw(na, nb, saa, sab, sbb):
    return _e_tf(na, nb) + _e_vw(na, nb, saa, sab, sbb)


def _pbe_x1(n, s2):
    kf = (3 * np.pi ** 2 * n) ** (1.0 / 3.0)
    ex = -3.0 * kf / (4 * np.pi)
    s = s2 / (4 * kf * kf * n * n)
    k, mu = 0.804, 0.2195149727645171
    return n * ex * (1 + k - k / (1 + mu * s / k))


def _e_pbe_x(na, nb, saa, sab, sbb):
    return 0.5 * (_pbe_x1(2 * na, 4 * saa) + _pbe_x1(2 * nb, 4 * sbb))


def _e_pbe_c(na, nb, saa, sab, sbb):
    n = na + nb
    z = (na - nb) / n
    g2 = saa + 2 * sab + sbb
    eps = _pw92_eps(na, nb)
    phi = 0.5 * ((1 + z) ** (2.0 / 3.0) + (1 - z) ** (2.0 / 3.0))
    kf = (3 * np.pi ** 2 * n) ** (1.0 / 3.0)
    ks2 = 4 * kf / np.pi
    t2 = g2 / (4 * phi ** 2 * ks2 * n * n)
    ga, be = 0.031090690869654895, 0.06672455060314922
    A = be / ga / (np.exp(-eps / (ga * phi ** 3)) - 1)
    H = ga * phi ** 3 * np.log(1 + be / ga * t2 * (1 + A * t2) / (1 + A * t2 + A * A * t2 * t2))
    return n * (eps + H)


def _e_syn_lda(na, nb, *s):
    n = na + nb
    return -0.8 * n ** (4.0 / 3.0) + 0.3 * na * nb - 0.2 * (na ** 2 + nb ** 2) + 0.05 * na ** 2 * nb ** 2


def _e_syn_gga(na, nb, saa, sab, sbb):
    n = na + nb
    return -0.7 * n ** (4.0 / 3.0) + 0.11 * (saa + sbb) / (1 + n) + 0.07 * sab / (1 + na * nb)


def _e_syn_ab(na, nb, saa, sab, sbb):
    return 0.13 * sab * (1 + 0.2 * (na + nb))


_TABLE = {
    1: ("lda", _e_lda_x), 7: ("lda", _e_vwn), 12: ("lda", _e_pw), 50: ("lda", _e_tf),
    52: ("gga", _e_tfvw), 101: ("gga", _e_pbe_x), 130: ("gga", _e_pbe_c), 500: ("gga", _e_vw),
    9001: ("lda", _e_syn_lda), 9101: ("gga", _e_syn_gga), 9102: ("gga", _e_syn_ab),
}
_NAMES = {"lda_x": 1, "lda_c_vwn": 7, "lda_c_pw": 12, "lda_k_tf": 50, "gga_k_tfvw": 52,
          "gga_x_pbe": 101, "gga_c_pbe": 130, "gga_k_vw": 500}

CALLS = []          # (id, spin, input copies) of recent compute() calls, for tests that want them
RECORD = False


class LibXCFunctional:
    def __init__(self, func_name, spin):
        if isinstance(func_name, str):
            func_name = _NAMES[func_name.lower()]
        if func_name not in _TABLE:
            raise KeyError(f"LibXCFunctional: functional id {func_name} is not in the stand-in")
        if spin in ("polarized", 2):
            self._spin = 2
        elif spin in ("unpolarized", 1):
            self._spin = 1
        else:
            raise KeyError("LibXCFunctional: spin must be 'polarized'/'unpolarized' or 2/1")
        self._id = int(func_name)
        self._family, self._e = _TABLE[self._id]

    def compute(self, inp, output=None, do_exc=True, do_vxc=True, **kw):
        rho = np.asarray(inp["rho"], dtype=float)
        if rho.size % self._spin:
            raise ValueError("rho size")
        npts = rho.size // self._spin
        rho = np.ascontiguousarray(rho).reshape(npts, self._spin)
        sig = None
        if self._family == "gga":
            if "sigma" not in inp:
                raise KeyError("sigma required for GGA functional")
            ns = 1 if self._spin == 1 else 3
            sig = np.ascontiguousarray(np.asarray(inp["sigma"], dtype=float))
            if sig.size != ns * npts:
                raise ValueError("sigma size does not match rho")
            sig = sig.reshape(npts, ns)
        if RECORD:
            CALLS.append((self._id, self._spin, rho.copy(), None if sig is None else sig.copy()))
        if self._spin == 1:
            full = [rho[:, 0] / 2, rho[:, 0] / 2] + ([sig[:, 0] / 4] * 3 if sig is not None else [])
        else:
            full = [rho[:, 0], rho[:, 1]] + ([sig[:, 0], sig[:, 1], sig[:, 2]] if sig is not None else [])
        ntot = full[0] + full[1]
        live = ntot > _THR
        args = [np.array(f, dtype=float) for f in full]
        for k in (0, 1):
            args[k] = np.maximum(args[k], _THR)
        if sig is not None:          # libxc clips sigma_aa, sigma_bb from below as well
            for k in (2, 4):
                args[k] = np.maximum(args[k], 0.0)
        h = 1e-30
        with np.errstate(all="ignore"):
            e = np.asarray(self._e(*args))
            d = []
            for k in range(len(args)):
                a = [x.astype(complex) for x in args]
                step = h * np.maximum(np.abs(args[k]), 1e-10)
                a[k] = a[k] + 1j * step
                d.append(np.imag(self._e(*a)) / step)
        zk = np.where(live, e / np.maximum(args[0] + args[1], 2 * _THR), 0.0)
        d = [np.where(live, np.nan_to_num(x, nan=0.0, posinf=0.0, neginf=0.0), 0.0) for x in d]
        zk = np.nan_to_num(zk, nan=0.0, posinf=0.0, neginf=0.0)
        out = {"zk": zk[:, None]}
        if self._spin == 1:
            out["vrho"] = (0.5 * (d[0] + d[1]))[:, None]
            if sig is not None:
                out["vsigma"] = (0.25 * (d[2] + d[3] + d[4]))[:, None]
        else:
            out["vrho"] = np.stack([d[0], d[1]], axis=1)
            if sig is not None:
                out["vsigma"] = np.stack([d[2], d[3], d[4]], axis=1)
        return out
