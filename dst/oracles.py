"""Independent reference models (numpy / scipy / VBMicrolensing only; no microjax code).

Frame conventions are those the library documents: public routines take source
positions in the frame whose origin is the centre of mass of the first two
lenses, lens 1 (the heavy one, mass 1/(1+q[+q3])) left, lens 2 (mass q) right.
"""
import math
import numpy as np
from scipy import special as sp

try:
    import VBMicrolensing as _vbm
except Exception:            # pragma: no cover
    _vbm = None


# ---------------------------------------------------------------- point lenses
def lens_setup(nl, p):
    """-> (positions, mass fractions, x_cm) in the mid-point frame."""
    if nl == 1:
        return np.array([0j]), np.array([1.0]), 0.0
    s, q = float(p["s"]), float(p["q"])
    a = 0.5 * s
    xcm = a * (1 - q) / (1 + q)
    if nl == 2:
        return np.array([a + 0j, -a + 0j]), np.array([q / (1 + q), 1 / (1 + q)]), xcm
    q3 = float(p["q3"])
    tot = 1 + q + q3
    z3 = float(p["r3"]) * np.exp(1j * float(p["psi"]))
    return (np.array([a + 0j, -a + 0j, z3]),
            np.array([q, 1.0, q3]) / tot, xcm)


def lens_map(z, zl, e):
    z = np.asarray(z, complex)
    zb = np.conj(z)
    return z - sum(ei / (zb - np.conj(zi)) for ei, zi in zip(e, zl))


def det_jac(z, zl, e):
    zb = np.conj(np.asarray(z, complex))
    k = sum(ei / (zb - np.conj(zi)) ** 2 for ei, zi in zip(e, zl))
    return 1.0 - np.abs(k) ** 2


def _poly(w, zl, e):
    n = len(zl)
    Q = np.array([1.0 + 0j])
    for zi in zl:
        Q = np.polymul(Q, [1.0, -zi])
    P = np.conj(w) * Q
    for i in range(n):
        t = np.array([e[i] + 0j])
        for j in range(n):
            if j != i:
                t = np.polymul(t, [1.0, -zl[j]])
        P = np.polyadd(P, t)
    D = [np.polysub(P, np.conj(zi) * Q) for zi in zl]
    full = np.array([1.0 + 0j])
    for d in D:
        full = np.polymul(full, d)
    poly = np.polymul([1.0, -w], full)
    for i in range(n):
        t = e[i] * Q
        for j in range(n):
            if j != i:
                t = np.polymul(t, D[j])
        poly = np.polysub(poly, t)
    return poly


def _polish(z, w, zl, e, it=60):
    for _ in range(it):
        f = lens_map(z, zl, e) - w
        zb = np.conj(z)
        k = sum(ei / (zb - np.conj(zi)) ** 2 for ei, zi in zip(e, zl))   # d f / d zbar
        d = 1.0 - abs(k) ** 2
        if d == 0:
            break
        dz = -(f - k * np.conj(f)) / d
        if abs(dz) > 0.1:
            dz *= 0.1 / abs(dz)
        z = z + dz
        if abs(dz) < 1e-15 * (1 + abs(z)):
            break
    return z


def images(w, nl, p, shifted=False):
    """True images of a point source at w (public frame unless `shifted`), mid-point frame."""
    zl, e, xcm = lens_setup(nl, p)
    w = complex(w) - (0.0 if shifted else xcm)
    if nl == 1:
        r = abs(w)
        f = math.sqrt(1 + 4 / r ** 2)
        return np.array([0.5 * w * (1 + f), 0.5 * w * (1 - f)]), zl, e
    roots = np.roots(_poly(w, zl, e))
    out = []
    for r in roots:
        if not np.isfinite(r):
            continue
        z = _polish(r, w, zl, e)
        if abs(lens_map(z, zl, e) - w) < 1e-11 * (1 + abs(z)) and abs(z - r) < 0.05 * (1 + abs(r)):
            if all(abs(z - o) > 1e-7 for o in out):
                out.append(z)
    return np.array(out), zl, e


def mag_ps(w, nl, p):
    """Reference point-source magnification, plus a condition number (1/min|det J|)."""
    z, zl, e = images(w, nl, p)
    if len(z) == 0:
        return float("nan"), float("inf")
    d = np.abs(det_jac(z, zl, e))
    return float(np.sum(1 / d)), float(1 / d.min())


def mag_ps_fast(w, nl, p):
    if nl == 1:
        u2 = abs(w) ** 2
        return (u2 + 2) / math.sqrt(u2 * (u2 + 4))
    if nl == 2 and _vbm is not None:
        return _V().BinaryMag0(float(p["s"]), float(p["q"]), float(w.real), float(w.imag))
    return mag_ps(w, nl, p)[0]


_VV = []


def _V():
    if not _VV:
        v = _vbm.VBMicrolensing()
        v.Tol = 1e-5
        v.RelTol = 1e-5
        v.a1 = 0.0
        _VV.append(v)
    return _VV[0]


def have_vbm():
    return _vbm is not None


def caustic_points(nl, p, n=120):
    """Points on the caustics (public frame): numpy roots of the critical polynomial."""
    zl, e, xcm = lens_setup(nl, p)
    if nl == 1:
        return np.array([0j])
    out = []
    for ph in np.linspace(-np.pi, np.pi, n, endpoint=False):
        out.append(critical_roots(ph, zl, e))
    z = np.concatenate(out)
    return lens_map(z, zl, e) + xcm


def critical_roots(ph, zl, e):
    n = len(zl)
    full = np.array([1.0 + 0j])
    for zi in zl:
        full = np.polymul(full, np.polymul([1, -zi], [1, -zi]))
    poly = np.exp(-1j * ph) * full
    for i in range(n):
        t = np.array([e[i] + 0j])
        for j in range(n):
            if j != i:
                t = np.polymul(t, np.polymul([1, -zl[j]], [1, -zl[j]]))
        poly = np.polysub(poly, t)
    return np.roots(poly)


# ------------------------------------------------------------- finite sources
def mag_fs_binary(w, rho, s, q, u1=0.0, tol=1e-4):
    v = _V()
    if u1 == 0.0:
        return v.BinaryMag2(float(s), float(q), float(w.real), float(w.imag), float(rho))
    v.a1 = float(u1)
    try:
        return v.BinaryMagDark(float(s), float(q), float(w.real), float(w.imag), float(rho), tol)
    finally:
        v.a1 = 0.0


def mag_fs_triple(w, rho, p, tol=1e-3):
    zl, e, xcm = lens_setup(3, p)
    v = _V()
    par = []
    for zi, ei in zip(zl, e):
        par += [float(zi.real), float(zi.imag), float(ei)]
    v.SetLensGeometry(par)
    w = complex(w) - xcm
    return v.MultiMag2(float(w.real), float(w.imag), float(rho))


_G8 = np.polynomial.legendre.leggauss(8)


def mag_fs_triple_dark(w, rho, p, u1):
    """linear limb darkening from uniform disks of smaller radii (integration by parts)"""
    if not u1:
        return mag_fs_triple(w, rho, p)
    x, wx = _G8
    t = 0.25 * np.pi * (x + 1)
    F = np.array([math.sin(v) ** 2 * mag_fs_triple(w, rho * math.sin(v), p) for v in t])
    tot = (1 - u1) * mag_fs_triple(w, rho, p) + u1 * float(np.sum(0.25 * np.pi * wx * np.sin(t) * F))
    return tot / (1 - u1 / 3)


_GL = np.polynomial.legendre.leggauss(6)


def mag_fs_average(w, rho, nl, p, u1=0.0, nth=16):
    """Finite-source magnification far from caustics: quadrature of the point-source value."""
    x, wx = _GL
    y = 0.5 * (x + 1)
    wy = 0.5 * wx
    r = np.sqrt(y)                         # uniform in area
    prof = 1 - u1 * (1 - np.sqrt(1 - r ** 2))
    th = 2 * np.pi * np.arange(nth) / nth
    num = 0.0
    for ri, wi, pi in zip(r, wy, prof):
        m = np.mean([mag_ps_fast(w + rho * ri * np.exp(1j * t), nl, p) for t in th])
        num += wi * pi * m
    return num / (1 - u1 / 3)


_GX, _GW = np.polynomial.legendre.leggauss(120)


def mag_fs_single(u, rho, prof):
    """Single-lens extended source, arbitrary radial profile prof(m in [0,1])."""
    u = abs(float(u))
    x, wx = _GX, _GW

    def ring(r):
        if u == 0:
            return 2 * np.pi * prof(np.minimum(r / rho, 1.0))
        c = (r * r + u * u - rho * rho) / (2 * r * u)
        if c >= 1:
            return 0.0
        tm = np.pi if c <= -1 else math.acos(c)
        y = 0.25 * np.pi * (x + 1)
        t = tm * np.sin(y)
        d2 = r * r + u * u - 2 * r * u * np.cos(t)
        m = np.sqrt(np.clip(d2, 0, rho ** 2)) / rho
        return 2 * np.sum(0.25 * np.pi * wx * tm * np.cos(y) * prof(m))

    def seg(a, b):
        y = 0.25 * np.pi * (x + 1)
        r = a + (b - a) * np.sin(y) ** 2
        wr = 0.25 * np.pi * wx * (b - a) * 2 * np.sin(y) * np.cos(y)
        return sum(wi * ring(ri) * (ri * ri + 2) / math.sqrt(ri * ri + 4) for wi, ri in zip(wr, r))

    if u < rho:
        br = [0.0, rho - u, u + rho]
    else:
        br = [u - rho, u + rho]
    br = sorted(set(br))
    tot = sum(seg(a, b) for a, b in zip(br, br[1:]) if b - a > 0)
    y = 0.25 * np.pi * (x + 1)
    m = np.sin(y)
    norm = 2 * np.pi * rho ** 2 * np.sum(0.25 * np.pi * wx * np.cos(y) * m * prof(m))
    return tot / norm


PROFILES = {
    "disk": lambda m: np.ones_like(np.asarray(m, float)),
    "limb1": lambda m: np.sqrt(np.clip(1 - np.asarray(m) ** 2, 0, 1)),
    "limb2": lambda m: np.clip(1 - np.asarray(m) ** 2, 0, 1),
}


# ------------------------------------------------------------------- parallax
PERIS = [1546.70833, 1913.87500, 2277.08333, 2643.70833, 3009.25000, 3372.54167,
         3740.16667, 4104.33333, 4468.50000, 4836.12500, 5199.50000, 5565.29167,
         5931.54167, 6294.70833, 6662.00000, 7026.79167, 7390.45833, 7758.08333,
         8121.75000, 8486.70833, 8853.83333]
VERNS = [1623.81597, 1989.06319, 2354.30278, 2719.54167, 3084.78403, 3450.02292,
         3815.26806, 4180.50486, 4545.74167, 4910.98889, 5276.23056, 5641.47292,
         6006.71806, 6371.95972, 6737.20625, 7102.44792, 7467.68750, 7832.93611,
         8198.17708, 8563.41528, 8928.65903]


def kepler(M, ecc):
    M = np.asarray(M, float)
    k = 2 * np.pi * np.round(M / (2 * np.pi))
    m = M - k
    E = m.copy()
    lo, hi = m - ecc - 1e-9, m + ecc + 1e-9
    for _ in range(200):                       # bisection then Newton: no shared code path
        mid = 0.5 * (lo + hi)
        f = mid - ecc * np.sin(mid) - m
        lo = np.where(f < 0, mid, lo)
        hi = np.where(f < 0, hi, mid)
    E = 0.5 * (lo + hi)
    return E + k


def earth(t, tperi, tvernal, RA, Dec, obl, ecc, period):
    t = np.atleast_1d(np.asarray(t, float))

    def pos(tt):
        E = kepler(2 * np.pi * (tt - tperi) / period, ecc)
        return np.stack([np.cos(E) - ecc, np.sqrt(1 - ecc ** 2) * np.sin(E), 0 * E])

    v = pos(np.array([tvernal]))[:, 0]
    th = math.atan2(v[1], v[0])               # rotate so that the vernal direction is +x
    c, s = math.cos(-th), math.sin(-th)
    o = math.radians(obl)
    x, y, _ = pos(t)
    X, Y = c * x - s * y, s * x + c * y
    eq = np.stack([X, math.cos(o) * Y, math.sin(o) * Y])
    a, d = math.radians(RA), math.radians(Dec)
    east = np.array([-math.sin(a), math.cos(a), 0.0])
    north = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
    return np.stack([north @ eq, east @ eq])


def parallax(t, piEN, piEE, tref, tperi, tvernal, RA, Dec, obl=23.44, ecc=0.0167,
             period=365.25636, dt=0.1):
    if tperi * tvernal == 0:
        i = int(np.argmin(np.abs(np.array(PERIS) - tref)))
        tperi, tvernal = PERIS[i], VERNS[i]
    f = lambda tt: earth(tt, tperi, tvernal, RA, Dec, obl, ecc, period)
    q0 = f(tref)
    v0 = (f(tref + dt) - f(tref - dt)) / (2 * dt)
    t = np.atleast_1d(np.asarray(t, float))
    d = f(t) - (q0 + v0 * (t - tref)[None, :])
    return np.stack([piEN * d[0] + piEE * d[1], piEN * d[1] - piEE * d[0]])


# ----------------------------------------------------------------- likelihood
def nll_gauss(flux, M, C, mu, Lam):
    """0.5 * (r' S^-1 r + log|S|), S = C + M Lam M' (the marginal covariance)."""
    S = C + M @ Lam @ M.T
    S = 0.5 * (S + S.T)
    r = flux - M @ mu
    L = np.linalg.cholesky(S)
    y = np.linalg.solve(L, r)
    return 0.5 * float(y @ y) + float(np.sum(np.log(np.diag(L))))


def linfit(x, y, err):
    err = np.broadcast_to(np.asarray(err, float), np.shape(x))
    w = np.where(err > 0, 1 / np.where(err > 0, err, 1) ** 2, 1.0)
    A = np.stack([np.ones_like(x), x], 1)
    N = A.T @ (A * w[:, None])
    cov = np.linalg.inv(N)
    sol = cov @ (A.T @ (w * y))
    r = y - A @ sol
    return np.array([sol[1], math.sqrt(cov[1, 1]), sol[0], math.sqrt(cov[0, 0]), float(np.sum(w * r * r))])
