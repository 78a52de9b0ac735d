"""Catalogue of public operations: argument generator, call, independent reference.

Arguments are plain JSON.  ``op.call(R, args)`` calls the library through replica R;
``op.expect(args)`` returns the independent reference (or None); ``op.mutate`` changes
exactly one argument (a near-collision partner)."""
import math, copy
import base
from base import cplx, tolist
import oracles as O


SHARE = None        # dict while callers share their input arrays


class Refill(dict):
    """SHARE of a client that fills the same few scratch buffers anew for every call"""
    def __init__(self, bufs):
        dict.__init__(self)
        self.bufs, self.n = bufs, 0

    def __setitem__(self, k, v):
        l, x = v
        self.n += 1
        b = self.bufs.setdefault((self.n, x.shape, x.dtype.str), base.np.empty_like(x))
        b[...] = x
        dict.__setitem__(self, k, (l, b))


def arr(l):
    """numpy array of a list; one single array per list object while SHARE is active"""
    if SHARE is None:
        return base.np.array(l)
    k = id(l)
    if k not in SHARE:
        SHARE[k] = (l, base.np.array(l))
    return SHARE[k][1]


def J(l):
    """what a caller passes: a JAX array, or (SHARE active) its own writable numpy array"""
    if SHARE is None:
        return base.jnp.asarray(cplx(l) if l and isinstance(l[0], list) else base.np.array(l))
    k = id(l)
    if k not in SHARE:
        SHARE[k] = (l, cplx(l) if l and isinstance(l[0], list) else base.np.array(l))
    return SHARE[k][1]


def own(f, *l):
    """derived input array (e.g. a covariance matrix), also the caller's own while SHARE is active"""
    if SHARE is None:
        return base.jnp.asarray(f())
    k = tuple(id(x) for x in l)
    if k not in SHARE:
        SHARE[k] = (l, base.np.array(f()))      # () arrays included
    return SHARE[k][1]


class Op:
    name = ""
    rtol, atol = 1e-6, 1e-9
    cost = 1            # 1 cheap eager, 2 moderate, 3 compile-heavy
    eager = True        # affordable with jax.disable_jit()
    statics = ()
    selftol = 1e-9      # same request twice

    def gen(self, r):
        raise NotImplementedError

    def call(self, R, a):
        raise NotImplementedError

    def expect(self, a):
        return None

    def available(self, R):
        return True

    def objkey(self, a):
        """identity of the long-lived object (calculator, state) this request uses, or None"""
        return None

    def new(self, R, a):
        """that object"""

    def near(self, r, v):
        """a value close to v but clearly different in its effect"""
        if isinstance(v, float):
            d = r.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.2])
            x = v * (1 + d * r.choice([-1, 1]))
            return x if x != v else v + d
        return v

    keys = ()

    def mutate(self, r, a):
        b = copy.deepcopy(a)
        for _ in range(6):
            k = r.choice(list(self.keys))
            self.mutate_key(r, b, k)
            if b != a:
                return b, k
        return b, "none"

    def mutate_key(self, r, b, k):
        v = b[k]
        if isinstance(v, list) and v:
            i = r.randrange(len(v))
            if isinstance(v[i], list):
                j = r.randrange(len(v[i]))
                v[i][j] = self.near(r, v[i][j]) if v[i][j] else 0.01
            else:
                v[i] = self.near(r, v[i]) if v[i] else 0.01
        else:
            b[k] = self.near(r, v)

    def check(self, a, val, tol_scale=1.0):
        """None or a message: the value against the independent reference."""
        e = self.expect(a)
        if e is None:
            return None
        return base.differ(val, e, self.rtol * tol_scale, self.atol)


# ------------------------------------------------------------- lens geometry
def lens(r, nl, qmin=-3.0):
    if nl == 1:
        return {}
    d = {"s": 10 ** r.uniform(-0.35, 0.35), "q": 10 ** r.uniform(qmin, 0.0)}
    while nl == 3:
        d.update(q3=10 ** r.uniform(-2.5, -0.2), r3=10 ** r.uniform(-0.3, 0.3),
                 psi=r.uniform(-math.pi, math.pi))
        z3 = d["r3"] * complex(math.cos(d["psi"]), math.sin(d["psi"]))
        if min(abs(z3 - d["s"] / 2), abs(z3 + d["s"] / 2)) > 0.2:      # three separate lenses
            break
    return d


def sources(r, nl, p, n, near=0.5, maxmag=150.0, spread=1.2):
    """n source positions, about half of them close to caustics, none too close."""
    np = base.np
    ca = O.caustic_points(nl, p, 40)
    out = []
    tries = 0
    while len(out) < n:
        tries += 1
        if r.random() < near and tries < 50 * n:
            c = ca[r.randrange(len(ca))]
            w = c + 10 ** r.uniform(-1.8, -0.3) * complex(r.gauss(0, 1), r.gauss(0, 1))
        else:
            w = complex(r.uniform(-spread, spread), r.uniform(-spread, spread))
        if abs(w) < 0.02 or abs(w.imag) < 1e-4:
            continue
        try:
            m = O.mag_ps_fast(w, nl, p)
            m2 = O.mag_ps_fast(w + 1e-4, nl, p)
            m3 = O.mag_ps_fast(w - 1e-4j, nl, p)
        except Exception:
            continue
        if not (1 <= m < maxmag) or abs(m2 - m) > 0.02 * m or abs(m3 - m) > 0.02 * m:
            continue
        out.append([float(w.real), float(w.imag)])
    return out


class PointSource(Op):
    def __init__(self, nl):
        self.nl = nl
        self.name = "mag_point_source%d" % nl
        self.rtol = {1: 1e-9, 2: 1e-5, 3: 1e-4}[nl]
        self.selftol = {1: 1e-10, 2: 1e-6, 3: 1e-5}[nl]
        self.keys = ("w",) + tuple(lens(__import__("random").Random(0), nl))
        self.cost = 2 if nl == 3 else 1

    def gen(self, r, n=None):
        p = lens(r, self.nl)
        n = n or r.choice([1, 3, 3, 5])
        return dict(p, w=sources(r, self.nl, p, n))

    def params(self, a):
        return {k: v for k, v in a.items() if k not in ("w", "scalar")}

    def call(self, R, a):
        f = R.get("point_source", "mag_point_source")
        return f(J(a["w"]), nlenses=self.nl, **self.params(a))

    def expect(self, a):
        p = self.params(a)
        return [base.np.array([O.mag_ps_fast(w, self.nl, p) for w in cplx(a["w"])])]


class PointSourceGrad(Op):
    """forward derivative with respect to each lens parameter"""
    name = "grad_point_source2"
    rtol, atol, selftol, cost = 2e-3, 2e-3, 1e-6, 2
    keys = ("w", "s", "q")
    eager = False

    def gen(self, r, n=None):
        p = lens(r, 2)
        return dict(p, w=sources(r, 2, p, n or 2, near=0.2, maxmag=20))

    def call(self, R, a):
        f = R.get("point_source", "mag_point_source")
        w = J(a["w"])
        g = base.jax.jacfwd(lambda x: f(w, nlenses=2, s=x[0], q=x[1]))
        return g(base.jnp.array([a["s"], a["q"]]))

    def expect(self, a):
        np = base.np
        out = []
        for w in cplx(a["w"]):
            row = []
            for k in ("s", "q"):
                h = 1e-5 * a[k]
                f = lambda d: O.mag_ps_fast(w, 2, dict(s=a["s"] + d * (k == "s"), q=a["q"] + d * (k == "q")))
                row.append((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h))
            out.append(row)
        return [np.array(out)]

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        e = self.expect(a)[0]
        v = np.asarray(val[0])
        if v.shape != e.shape:
            return "shape %s != %s" % (v.shape, e.shape)
        sc = 2e-3 * np.max(np.abs(e)) + 2e-3
        if not np.all(np.isfinite(v)) or np.any(np.abs(v - e) > sc):
            return "derivative %s vs expected %s" % (base.short(v), base.short(e))


class LensMap(Op):
    cost = 1
    rtol, atol = 1e-10, 1e-10

    def __init__(self, nl):
        self.nl = nl
        self.name = "lens_eq%d" % nl
        self.keys = ("z",) + tuple(lens(__import__("random").Random(0), nl))

    def gen(self, r, n=None):
        z = [[r.uniform(-2, 2), r.uniform(0.2, 2) * r.choice([-1, 1])] for _ in range(n or 3)]
        return dict(lens(r, self.nl), z=z)

    def mid(self, a):
        if self.nl == 1:
            return {}
        d = dict(a=0.5 * a["s"])
        if self.nl == 2:
            d.update(e1=a["q"] / (1 + a["q"]))
        else:
            t = 1 + a["q"] + a["q3"]
            d.update(e1=a["q"] / t, e2=1 / t, r3=a["r3"], psi=a["psi"])
        return d

    def call(self, R, a):
        z = J(a["z"])
        d = self.mid(a)
        return (R.get("point_source", "lens_eq")(z, nlenses=self.nl, **d),
                R.get("point_source", "lens_eq_det_jac")(z, nlenses=self.nl, **d))

    def expect(self, a):
        zl, e, _ = O.lens_setup(self.nl, a)
        z = cplx(a["z"])
        return [O.lens_map(z, zl, e), O.det_jac(z, zl, e)]


class Critical(Op):
    cost = 2

    def __init__(self, nl):
        self.nl = nl
        self.name = "critical_curves%d" % nl
        self.keys = tuple(lens(__import__("random").Random(0), nl)) + ("npts",)
        self.selftol = 1e-6

    def gen(self, r, n=None):
        return dict(lens(r, self.nl, -2.0), npts=r.choice([8, 12, 20]))

    def mutate_key(self, r, b, k):
        if k == "npts":
            b[k] = r.choice([8, 12, 20])
        else:
            Op.mutate_key(self, r, b, k)

    def call(self, R, a):
        p = {k: v for k, v in a.items() if k != "npts"}
        return R.get("point_source", "critical_and_caustic_curves")(npts=a["npts"], nlenses=self.nl, **p)

    def check(self, a, val, tol_scale=1.0):
        return check_critical(self.nl, a, val, a["npts"])


def check_critical(nl, p, val, npts):
    """Every phase: the set of critical points is complete and maps to the caustics."""
    np = base.np
    if len(val) != 2:
        return "expected critical curves and caustics"
    zc, wc = np.asarray(val[0]), np.asarray(val[1])
    m = 2 * nl
    if zc.shape != (m, npts) or wc.shape != (m, npts):
        return "shape %s / %s, expected %s" % (zc.shape, wc.shape, (m, npts))
    if not (np.all(np.isfinite(zc)) and np.all(np.isfinite(wc))):
        return "non-finite critical curve"
    zl, e, xcm = O.lens_setup(nl, p)
    z = zc - xcm
    if np.max(np.abs(O.lens_map(z, zl, e) + xcm - wc)) > 1e-6 * (1 + np.max(np.abs(wc))):
        return "caustic is not the image of the critical curve"
    # each phase: all 2n solutions of  sum e_i/(z-z_i)^2 = exp(i*phi) for one common phi
    k = sum(ei / (z - zi) ** 2 for ei, zi in zip(e, zl))
    d = np.abs(O.det_jac(z, zl, e))
    if np.max(d) > 1e-4:
        return "point off the critical curve: |det J| = %.3g" % np.max(d)
    ph = np.angle(k)
    dphi = np.abs(np.exp(1j * ph) - np.exp(1j * ph[0])[None, :])
    if np.max(dphi) > 1e-4:
        return "branches of one column belong to different phases (%.3g)" % np.max(dphi)
    step = np.angle(np.exp(1j * (ph[0, 1:] - ph[0, :-1])))
    ex = 2 * np.pi / (npts - 1)
    if np.max(np.abs(np.abs(step) - ex)) > 1e-4:
        return "phases are not the full uniform circle"
    for j in range(npts):
        ref = O.critical_roots(-ph[0, j], zl, e)
        dd = np.abs(z[:, j][:, None] - ref[None, :])
        sep = np.abs(ref[:, None] - ref[None, :]) + 9 * np.eye(m)
        if np.min(sep) < 1e-3:
            continue
        if set(np.argmin(dd, 1)) != set(range(m)):
            return "phase %d: critical points lost or duplicated" % j
    return None


class Track(Op):
    """image tracking of a binary, reduced to the magnification of the tracked images"""
    name = "image_tracking2"
    cost, rtol, atol, selftol = 2, 1e-5, 1e-8, 1e-6
    keys = ("w", "s", "q")

    def gen(self, r, n=None):
        p = lens(r, 2)
        return dict(p, w=sources(r, 2, p, n or r.choice([3, 4])))

    def available(self, R):
        return R.get("point_source", "_images_point_source_sequential") is not None

    def call(self, R, a):
        zl, e, xcm = O.lens_setup(2, a)
        f = R.get("point_source", "_images_point_source_sequential")
        z, m = f(own(lambda: cplx(a["w"]) - xcm, a["w"], "track"), nlenses=2, a=0.5 * a["s"], e1=a["q"] / (1 + a["q"]))
        z, m = base.np.asarray(z), base.np.asarray(m)
        return base.np.sum(m / base.np.abs(O.det_jac(z, zl, e)), axis=0)

    def expect(self, a):
        return [base.np.array([O.mag_ps_fast(w, 2, a) for w in cplx(a["w"])])]


# ---------------------------------------------------------- extended sources
LCFG = dict(r_resolution=120, th_resolution=120, Nlimb=150)


class LightCurve(Op):
    cost, eager, selftol = 3, False, 1e-7

    def __init__(self, nl):
        self.nl = nl
        self.name = "light_curve%d" % nl
        self.mod = ("inverse_ray.lightcurve", "mag_binary" if nl == 2 else "mag_triple")
        self.keys = ("w", "rho", "u1", "cfg", "s", "q") + (("q3", "r3", "psi") if nl == 3 else ())

    def gen(self, r, n=None, N=None, chunk=None):
        n = n or 6
        p = lens(r, self.nl, -1.7)
        rho = 10 ** r.uniform(-2.3, -1.0)
        u1 = r.choice([0.0, 0.0, 0.4, 0.7])
        return dict(p, w=sources(r, self.nl, p, n, near=0.6, maxmag=60), rho=rho, u1=u1,
                    N=n if N is None else N, chunk=chunk or r.choice([2, 4]), cfg={})

    def near(self, r, v):
        return Op.near(self, r, v)

    def mutate_key(self, r, b, k):
        if k == "u1":
            b[k] = r.choice([0.0, 0.4, 0.7]) if r.random() < 0.3 else (b[k] or r.choice([1e-3, 0.02])) + r.choice([1e-4, -7e-4, 2e-3, 0.01])
        elif k == "cfg":
            b[k] = r.choice([{"r_resolution": 90}, {"th_resolution": 90}, {"Nlimb": 200}])
        else:
            Op.mutate_key(self, r, b, k)

    def call(self, R, a):
        p = {k: v for k, v in a.items() if k not in ("w", "rho", "u1", "N", "chunk", "cfg")}
        return R.get(*self.mod)(J(a["w"]), a["rho"], u1=a["u1"],
                                MAX_FULL_CALLS=a["N"], chunk_size=a["chunk"],
                                **dict(LCFG, **a.get("cfg", {})), **p)

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        v = np.asarray(val[0])
        if v.shape != (len(a["w"]),) or np.iscomplexobj(v):
            return "shape %s" % (v.shape,)
        if not np.all(np.isfinite(v)):
            return "non-finite magnification %s" % base.short(v)
        if a["N"] < len(a["w"]):
            return None
        e = fs_reference(self.nl, a)
        if e is None:
            return None
        err = np.sort(np.abs(v / e - 1))
        med = err[(len(err) - 1) // 2]
        if len(err) >= 4 and med > 0.03:
            return "median error %.3g of %s against the true extended-source values %s" % (
                med, base.short(v), base.short(e))
        return None


def fs_reference(nl, a):
    """True extended-source magnification (VBMicrolensing) or None."""
    np = base.np
    if not O.have_vbm():
        return None
    out = []
    u1 = a.get("u1", 0.0)
    for w in cplx(a["w"]):
        if nl == 2:
            out.append(O.mag_fs_binary(w, a["rho"], a["s"], a["q"], u1))
        elif nl == 3:
            out.append(O.mag_fs_triple_dark(w, a["rho"], a, u1))
        else:
            prof = lambda m: 1 - u1 * (1 - np.sqrt(np.clip(1 - np.asarray(m) ** 2, 0, 1)))
            out.append(O.mag_fs_single(abs(w), a["rho"], prof))
    return np.array(out)


class InverseRay(Op):
    """one full inverse-ray evaluation (not jitted by the library)"""
    cost, eager, selftol = 2, False, 1e-8

    def __init__(self, nl, ld):
        self.nl, self.ld = nl, ld
        self.name = "inverse_ray%d%s" % (nl, "_ld" if ld else "")
        self.keys = ("w", "rho", "s", "q") + (("u1",) if ld else ()) + (("q3", "r3", "psi") if nl == 3 else ())
        self.fn = ("inverse_ray.extended_source", "mag_limb_dark" if ld else "mag_uniform")

    def gen(self, r, n=None):
        p = lens(r, self.nl, -1.5)
        d = dict(p, w=sources(r, self.nl, p, 1, near=0.6, maxmag=60), rho=10 ** r.uniform(-2.0, -1.0))
        if self.ld:
            d["u1"] = r.uniform(0.1, 0.8)
        return d

    def call(self, R, a):
        p = {k: v for k, v in a.items() if k not in ("w", "rho")}
        return R.get(*self.fn)(own(lambda: cplx(a["w"])[0], a["w"], "first"), a["rho"], nlenses=self.nl,
                               **LCFG, **p)


class Contour(Op):
    cost, eager, selftol = 3, False, 1e-6
    rtol = 0.01

    def __init__(self, nl, ld=False):
        self.nl, self.ld = nl, ld
        self.name = "contour%d%s" % (nl, "_ld" if ld else "")
        self.keys = ("w", "rho") + (("u1", "u1") if ld else ()) + tuple(lens(__import__("random").Random(0), nl))

    def gen(self, r, n=None):
        n = n or 3
        p = lens(r, self.nl, -1.7)
        w = sources(r, self.nl, p, n, near=0.6, maxmag=60)
        return dict(p, w=w, rho=10 ** r.uniform(-2.0, -1.0), npts=200, u1=r.uniform(0.2, 0.8) if self.ld else 0.0)

    def call(self, R, a):
        p = {k: v for k, v in a.items() if k not in ("w", "rho", "npts", "u1")}
        if self.ld:
            p.update(limb_darkening=True, u1=a["u1"], npts_ld=60)
        return R.get("caustics.lightcurve", "magnifications")(
            J(a["w"]), a["rho"], nlenses=self.nl, npts_limb=a["npts"], **p)

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        v = np.asarray(val[0])
        if v.shape != (len(a["w"]),):
            return "shape %s" % (v.shape,)
        e = fs_reference(self.nl, a)
        if e is None:
            return None
        err = np.abs(np.real(v) / e - 1)
        if self.nl > 1:         # claimed only away from the caustics
            ca = O.caustic_points(self.nl, a, 1200)
            far = np.array([np.abs(ca - w).min() > 2 * a["rho"] for w in cplx(a["w"])])
            err = np.where(far, err, 0.0)
        if not np.all(np.isfinite(v)) or np.max(err) > 0.03:
            return "%s vs true extended-source magnification %s" % (base.short(v), base.short(e))


# -------------------------------------------------- single-lens calculators
FFT_CFGS = [{}, {"N_fft": 512}, {"rho_switch": 1e-2}, {"u_switch": 5}, {"N_fft": 2048}, {"fft_logumax": 2.5}]


class Fast(Op):
    cost, rtol, atol, selftol = 1, 8e-3, 0.0, 1e-10
    keys = ("u", "rho", "cfg")

    def __init__(self, lib, kind):
        self.lib, self.kind = lib, kind
        self.name = "fast_%s_%s" % (lib, kind)
        self.cost = 1 if lib == "np" else 2

    def objkey(self, a):
        return str(sorted(a["cfg"].items()))

    def new(self, R, a):
        return self.make(R, dict(a["cfg"]))

    def make(self, R, cfg):
        if self.lib == "np":
            if self.kind == "disk":
                return R.get("fastlens.mag_fft", "magnification_disk")(**cfg)
            return R.get("fastlens.mag_fft", "magnification_limb")(int(self.kind[-1]), **cfg)
        cls = {"disk": "magnification_disk", "limb1": "magnification_limb1",
               "limb2": "magnification_limb2", "mdisk": "mag_disk"}[self.kind]
        return R.get("fastlens.mag_fft_jax", cls)(**cfg)

    def gen(self, r, n=None):
        if self.kind == "mdisk":
            return dict(gen_fast(r, n, -3), cfg={})
        return dict(gen_fast(r, n), cfg=r.choice(FFT_CFGS))

    def mutate_key(self, r, b, k):
        if k == "cfg":
            if self.kind != "mdisk":
                b["cfg"] = r.choice(FFT_CFGS)
        else:
            Op.mutate_key(self, r, b, k)

    def call(self, R, a, obj=None):
        obj = obj if obj is not None else self.make(R, a["cfg"])
        return obj.A(arr(a["u"]) if self.lib == "np" else J(a["u"]), a["rho"])

    def check(self, a, val, tol_scale=1.0):
        # the documented small-source approximation carries an absolute error of about one
        small = self.kind != "mdisk" and a["rho"] < a["cfg"].get("rho_switch", 1e-4)
        # the JAX tables lose up to 1.5 % close to their small-source switch
        rtol = 0.03 if self.lib == "jax" and a["rho"] < 2e-3 else self.rtol
        return base.differ(val, self.expect(a), rtol, 1.2 if small else 0.0)

    def expect(self, a):
        prof = O.PROFILES["disk" if self.kind == "mdisk" else self.kind]
        return [base.np.array([O.mag_fs_single(x, a["rho"], prof) for x in a["u"]])]


def gen_fast(r, n=None, lo=-5):
    rho = 10 ** r.uniform(lo, 0) if r.random() < 0.5 else 10 ** r.uniform(-2.5, -0.2)
    n = n or r.choice([1, 2, 5, 9])
    u = []
    for _ in range(n):
        k = r.random()
        x = rho * 10 ** r.uniform(-1.5, 1.5) if k < 0.6 else 10 ** r.uniform(-3, 1)
        if k > 0.97:
            x = 0.0
        u.append(x * (1 if r.random() < 0.85 else -1))
    return dict(rho=rho, u=u)


# ------------------------------------------------------------ parallax
class Parallax(Op):
    name = "parallax"
    cost, rtol, atol, selftol = 1, 1e-7, 1e-9, 1e-10
    keys = ("t", "piEN", "piEE", "tref", "RA", "Dec", "tperi", "tvernal", "rotaxis_deg", "ecc", "period", "dt")

    def gen(self, r, n=None):
        return gen_parallax(r, n)

    def near(self, r, v):
        return v * (1 + r.choice([1e-6, 1e-4, 1e-3, 3e-2]) * r.choice([-1, 1]))

    def mutate_key(self, r, b, k):
        if k in ("tperi", "tvernal"):
            if b["tperi"]:
                b[k] += r.uniform(5, 60)
            else:
                b["tref"] += r.choice([1.0, 180.0, 365.0])
        elif k == "t":
            i = r.randrange(len(b["t"]))
            b["t"][i] += r.uniform(1, 30)
        elif k == "tref":
            b["tref"] += r.choice([0.5, 5, 50, 366])
        elif k in ("RA", "Dec"):
            b[k] += r.uniform(1, 10) * (-1 if b[k] > 0 else 1)
        elif k == "ecc":
            b[k] = r.choice([0.0, 0.0167, 0.02, 0.05])
        elif k == "dt":
            b[k] = r.choice([0.05, 0.1, 1.0, 5.0])
        else:
            b[k] = self.near(r, b[k])

    def objkey(self, a):
        return str([a[k] for k in ("tref", "RA", "Dec", "tperi", "tvernal", "rotaxis_deg", "ecc", "period", "dt")])

    def new(self, R, a):
        return self.state(R, a)

    def state(self, R, a):
        kw = {k: a[k] for k in ("rotaxis_deg", "ecc", "period", "dt") if k in a}
        return R.get("trajectory.parallax", "set_parallax")(
            a["tref"], a["tperi"], a["tvernal"], a["RA"], a["Dec"], **kw)

    def call(self, R, a, state=None):
        st = state if state is not None else self.state(R, a)
        return R.get("trajectory.parallax", "compute_parallax")(
            J(a["t"]), a["piEN"], a["piEE"], st)

    def expect(self, a):
        kw = {"obl": a["rotaxis_deg"], "ecc": a["ecc"], "period": a["period"], "dt": a["dt"]}
        v = O.parallax(a["t"], a["piEN"], a["piEE"], a["tref"], a["tperi"], a["tvernal"], a["RA"], a["Dec"], **kw)
        return [v[0], v[1]]


def gen_parallax(r, n=None):
    tref = r.uniform(1500, 8900)
    auto = r.random() < 0.5
    i = min(range(len(O.PERIS)), key=lambda j: abs(O.PERIS[j] - tref))
    d = dict(tref=tref, RA=r.uniform(0, 360), Dec=r.uniform(-85, 85),
             tperi=0.0 if auto else O.PERIS[i] + r.uniform(-20, 20),
             tvernal=0.0 if auto else O.VERNS[i] + r.uniform(-20, 20),
             piEN=r.gauss(0, 0.5), piEE=r.gauss(0, 0.5),
             rotaxis_deg=23.44, ecc=0.0167, period=365.25636, dt=0.1)
    if r.random() < 0.4:
        d.update(ecc=r.uniform(0, 0.3), rotaxis_deg=r.uniform(-30, 60), dt=r.choice([0.05, 0.5, 2.0]),
                 period=r.uniform(200, 900))
    d["t"] = [tref + r.choice([r.uniform(-3, 3), r.uniform(-300, 300), r.uniform(-3000, 3000)])
              for _ in range(n or r.choice([1, 4, 9]))]
    return d


# ------------------------------------------------------------ likelihoods
def gen_data(r, n):
    m = [1 + 10 ** r.uniform(-1, 1) for _ in range(n)]
    fs, fb = r.uniform(0.5, 5), r.uniform(-1, 3)
    sig = [10 ** r.uniform(-2, 0) for _ in range(n)]
    fl = [fs * a + fb + s * r.gauss(0, 1) for a, s in zip(m, sig)]
    return dict(flux=fl, m=m, s2=[s * s for s in sig])


class Nll(Op):
    name = "nll_diag"
    cost, rtol, atol, selftol = 1, 1e-5, 1e-4, 1e-7
    keys = ("flux", "m", "s2", "vfs", "vfb")

    def gen(self, r, n=None):
        return dict(gen_data(r, n or r.choice([1, 2, 5, 20])), vfs=10 ** r.uniform(-1, 2), vfb=10 ** r.uniform(-1, 2))

    def call(self, R, a):
        M = own(lambda: base.np.stack([a["m"], base.np.ones(len(a["m"]))], 1), a["m"], "M")
        return R.get("likelihood", "nll_ulens")(J(a["flux"]), M, J(a["s2"]), a["vfs"], a["vfb"])

    def expect(self, a):
        np = base.np
        M = np.stack([a["m"], np.ones(len(a["m"]))], 1)
        return [np.array(O.nll_gauss(np.array(a["flux"]), M, np.diag(a["s2"]), np.zeros(2), np.diag([a["vfs"], a["vfb"]])))]


class NllGeneral(Op):
    name = "nll_general"
    cost, rtol, atol, selftol = 1, 1e-7, 1e-6, 1e-10
    keys = ("flux", "m", "s2", "corr", "mu", "L")

    def gen(self, r, n=None):
        return dict(gen_data(r, n or r.choice([1, 2, 5, 12])), corr=r.uniform(0, 0.6),
                    mu=[r.gauss(0, 3), r.gauss(0, 3)], L=[10 ** r.uniform(-1, 2), r.uniform(-0.9, 0.9), 10 ** r.uniform(-1, 2)])

    def mutate_key(self, r, b, k):
        Op.mutate_key(self, r, b, k)
        b["L"][1] = max(-0.95, min(0.95, b["L"][1]))
        b["corr"] = min(b["corr"], 0.9)

    def cov(self, a):
        np = base.np
        s = np.sqrt(np.array(a["s2"]))
        i = np.arange(len(s))
        C = np.outer(s, s) * np.array(a["corr"]) ** np.abs(i[:, None] - i[None, :])
        l = a["L"]
        Lam = np.array([[l[0], l[1] * math.sqrt(l[0] * l[2])], [l[1] * math.sqrt(l[0] * l[2]), l[2]]])
        return C, Lam

    def call(self, R, a):
        C = own(lambda: self.cov(a)[0], a["s2"], "C")
        Lam = own(lambda: self.cov(a)[1], a["L"], "Lam")
        M = own(lambda: base.np.stack([a["m"], base.np.ones(len(a["m"]))], 1), a["m"], "M")
        return R.get("likelihood", "nll_ulens_general")(J(a["flux"]), M, C, J(a["mu"]), Lam)

    def expect(self, a):
        np = base.np
        C, Lam = self.cov(a)
        M = np.stack([a["m"], np.ones(len(a["m"]))], 1)
        return [np.array(O.nll_gauss(np.array(a["flux"]), M, C, np.array(a["mu"]), Lam))]


class LinFit(Op):
    name = "linear_fit"
    cost, rtol, atol, selftol = 1, 1e-7, 1e-8, 1e-10
    keys = ("x", "y", "err")

    def gen(self, r, n=None):
        n = n or r.choice([3, 5, 20])
        x = [r.uniform(-5, 5) for _ in range(n)]
        y = [1.5 * a - 2 + r.gauss(0, 0.5) for a in x]
        e = [r.choice([0.0, 10 ** r.uniform(-1.5, 0.5)]) for _ in range(n)]
        return dict(x=x, y=y, err=e)

    def call(self, R, a):
        return R.get("likelihood", "linear_chi2")(J(a["x"]), J(a["y"]), J(a["err"]))

    def expect(self, a):
        np = base.np
        return [np.array(v) for v in O.linfit(np.array(a["x"]), np.array(a["y"]), np.array(a["err"]))]


class Special(Op):
    name = "special_functions"
    cost, rtol, atol, selftol = 1, 1e-5, 1e-6, 1e-10
    keys = ("x",)
    FN = ("gamma", "j0", "j1", "j2", "j1p5", "ellipk", "ellipe")

    def gen(self, r, n=None):
        return dict(x=[10 ** r.uniform(-2, 1.2) for _ in range(n or r.choice([2, 4]))])

    def call(self, R, a):
        x = J(a["x"])
        out = []
        for f in self.FN:
            g = R.get("fastlens.special", f)
            if f.startswith("ellip"):
                out.append(base.jnp.stack([g(-v) for v in x]))
            else:
                out.append(g(x))
        return out

    def expect(self, a):
        from scipy import special as sp
        x = base.np.array(a["x"])
        return [sp.gamma(x), sp.j0(x), sp.j1(x), sp.jv(2, x), sp.jv(1.5, x), sp.ellipk(-x), sp.ellipe(-x)]


class Roots(Op):
    """polynomial roots of a random well-separated polynomial"""
    name = "poly_roots"
    cost, selftol = 1, 1e-7
    keys = ("z",)

    def gen(self, r, n=None):
        while True:
            d = r.choice([3, 5, 6])
            z = [complex(r.uniform(-2, 2), r.uniform(-2, 2)) for _ in range(d)]
            if min(abs(a - b) for i, a in enumerate(z) for b in z[:i]) > 0.3:
                return dict(z=tolist(z), lead=r.uniform(0.3, 3))

    def call(self, R, a):
        np = base.np
        c = own(lambda: (a["lead"] * np.poly(cplx(a["z"])))[None, :], a["z"], "coeffs")
        z = np.asarray(R.get("poly_solver", "poly_roots")(c))[0]
        return np.sort_complex(np.round(z, 7))

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        v, z = np.asarray(val[0]), cplx(a["z"])
        if v.shape != z.shape or not np.all(np.isfinite(v)):
            return "roots %s" % base.short(v)
        d = np.abs(v[:, None] - z[None, :])
        sep = min(abs(x - y) for i, x in enumerate(z) for y in z[:i])
        if sep < 0.05:
            return None
        if max(np.max(np.min(d, 0)), np.max(np.min(d, 1))) > 1e-5:
            return "roots %s, expected the set %s" % (base.short(v), base.short(z))


class Hexadecapole(Op):
    """multipole approximation on the images of the library's own point-source solver"""
    cost, selftol = 2, 1e-6

    def __init__(self, nl):
        self.nl = nl
        self.name = "hexadecapole%d" % nl
        self.keys = ("w", "rho", "u1") + tuple(lens(__import__("random").Random(0), nl))

    def gen(self, r, n=None):
        p = lens(r, self.nl, -2.0)
        return dict(p, w=sources(r, self.nl, p, n or 3, near=0.0, maxmag=20), rho=10 ** r.uniform(-2.5, -1.2), u1=r.choice([0.0, 0.3, 0.6]))

    def available(self, R):
        return R.get("point_source", "_images_point_source") is not None

    def call(self, R, a):
        p = dict(a, z=[])
        d = LensMap(self.nl).mid(p)
        zl, e, xcm = O.lens_setup(self.nl, a) if self.nl > 1 else (0, 0, 0)
        w = own(lambda: cplx(a["w"]) - xcm, a["w"], "hex")
        z, m = R.get("point_source", "_images_point_source")(w, nlenses=self.nl, **d)
        return R.get("multipole", "mag_hexadecapole")(z, m, a["rho"], u1=a["u1"], nlenses=self.nl, **d)

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        if len(val) != 2:
            return "expected magnification and residual"
        v, res = np.asarray(val[0]), np.asarray(val[1])
        if v.shape != (len(a["w"]),) or not np.all(np.isfinite(v)):
            return "multipole magnification %s" % base.short(v)
        e = fs_reference(self.nl, a)
        if e is None:
            return None
        ca = O.caustic_points(self.nl, a, 900) if self.nl > 1 else np.array([0j])
        far = np.array([np.abs(ca - w).min() > 6 * a["rho"] for w in cplx(a["w"])])
        if np.any(far & (np.abs(v - e) > 0.3 * np.abs(res) + 0.004 * e)):
            return "multipole values %s (residuals %s), true extended-source values %s" % (base.short(v), base.short(res), base.short(e))


class FFTLog(Op):
    """transform object of an exponentially cut power law, with closed-form transforms"""
    cost, eager, selftol = 1, True, 1e-10
    keys = ("b", "nu", "pad", "req")
    REQ = {"j0": ("fftlog", 0), "j1": ("fftlog", 1), "dj0": ("fftlog_dj", 0), "ddj0": ("fftlog_ddj", 0), "jsqr0": ("fftlog_jsqr", 0)}
    NAMES = ["j0", "j1", "hankel0", "hankel1", "dj0", "ddj0", "jsqr0"]

    def __init__(self, lib):
        self.lib = lib
        self.name = "fftlog_%s" % lib

    def gen(self, r, n=None):
        return dict(b=r.uniform(0.5, 3), pad=r.choice([0, 100, 400]), nu=r.uniform(0.9, 1.15), cfg={},
                    req=[r.choice(self.NAMES) for _ in range(n or r.choice([1, 2, 3]))])

    def mutate_key(self, r, b, k):
        if k == "pad":
            b["pad"] = r.choice([0, 100, 400])
        elif k == "nu":
            b["nu"] = r.uniform(0.9, 1.15)
        elif k == "req":
            b["req"] = [r.choice(self.NAMES) for _ in b["req"]]
        else:
            Op.mutate_key(self, r, b, k)

    def objkey(self, a):
        return str([a["b"], a["nu"], a["pad"]])

    def new(self, R, a):
        return self.make(R, a)

    def make(self, R, a):
        np = base.np
        mod = "fastlens.fftlog" if self.lib == "np" else "fastlens.fftlog_jax"
        x = own(lambda: np.logspace(-5, 4, 2048), a["req"], "x")
        fx = own(lambda: np.logspace(-5, 4, 2048) ** 2 * np.exp(-a["b"] * np.logspace(-5, 4, 2048)), a["req"], "fx")
        gx = own(lambda: np.logspace(-5, 4, 2048) ** 2 * np.exp(-a["b"] * np.logspace(-5, 4, 2048)), a["req"], "gx")
        if self.lib == "np" and SHARE is None:
            x, fx, gx = np.array(x), np.array(fx), np.array(gx)
        return (R.get(mod, "fftlog")(x, fx, nu=a["nu"], N_pad=a["pad"]),
                R.get(mod, "hankel")(x, gx, a["nu"], N_pad=a["pad"]))

    def call(self, R, a, obj=None):
        f, h = obj if obj is not None else self.make(R, a)
        out = []
        for k in a["req"]:
            y, F = getattr(f, self.REQ[k][0])(self.REQ[k][1]) if k in self.REQ else h.hankel(int(k[-1]))
            out += [y, F]
        return out

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        if len(val) != 2 * len(a["req"]):
            return "expected %d arrays" % (2 * len(a["req"]))
        b = a["b"]
        for i, k in enumerate(a["req"]):
            y, F = np.asarray(val[2 * i]), np.asarray(val[2 * i + 1])
            if y.shape != F.shape or y.size != 2048:
                return "%s: shapes %s %s" % (k, y.shape, F.shape)
            if k == "j0":
                e = 1 / (b * b + y * y)
            elif k in ("dj0", "ddj0", "jsqr0"):
                if not np.all(np.isfinite(F)):
                    return "%s of b=%.4f is not finite" % (k, b)
                if k != "dj0":
                    continue
                e = -(np.arctan(y / b) - b * y / (b * b + y * y)) / (y * y)
            elif k == "j1":
                e = (np.arctan(y / b) - b * y / (b * b + y * y)) / (y * y)
            elif k == "hankel0":
                e = b / (b * b + y * y) ** 1.5
            else:
                e = y / (b * b + y * y) ** 1.5
            s = (y > 0.05) & (y < 20)
            if not np.all(np.isfinite(F[s])) or np.max(np.abs(F[s] - e[s]) / np.max(np.abs(e[s]))) > (0.06 if k == "hankel0" else 0.01):
                j = int(np.argmax(np.abs(F[s] - e[s])))
                return "%s of b=%.4f at y=%.4g: %.8g, exact %.8g" % (k, b, y[s][j], F[s][j], e[s][j])


class ExtendedSource(Op):
    """one contour evaluation (the routine behind the light curves)"""
    cost, eager, selftol = 3, False, 1e-6

    def __init__(self, nl, ld):
        self.nl, self.ld = nl, ld
        self.name = "extended_source%d%s" % (nl, "_ld" if ld else "")
        self.keys = ("w", "rho") + (("u1",) if ld else ()) + tuple(lens(__import__("random").Random(0), nl))

    def gen(self, r, n=None):
        p = lens(r, self.nl, -1.7)
        return dict(p, w=sources(r, self.nl, p, 1, near=0.5, maxmag=40), rho=10 ** r.uniform(-2.0, -1.0), u1=r.uniform(0.2, 0.8) if self.ld else 0.0)

    def call(self, R, a):
        p = {k: v for k, v in a.items() if k not in ("w", "rho", "u1")}
        kw = dict(limb_darkening=True, u1=a["u1"]) if self.ld else {}
        return R.get("caustics.extended_source", "mag_extended_source")(
            own(lambda: cplx(a["w"])[0], a["w"], "first"), a["rho"], nlenses=self.nl, npts_limb=200, **kw, **p)

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        v = np.asarray(val[0])
        if v.shape not in ((), (1,)) or not np.all(np.isfinite(v)):
            return "magnification %s" % base.short(v)
        e = fs_reference(self.nl, a)
        ca = O.caustic_points(self.nl, a, 1200) if self.nl > 1 else np.array([0j])
        d = np.abs(ca - cplx(a["w"])[0]).min() / a["rho"]
        if e is not None and (d > 2) and abs(float(np.real(v).reshape(-1)[0]) / e[0] - 1) > 0.03:
            return "%s vs true extended-source magnification %s" % (base.short(v), base.short(e))


class Ephemeris(Op):
    """perihelion and equinox nearest to an epoch, and Kepler's equation"""
    name = "ephemeris"
    cost, rtol, atol, selftol = 1, 1e-9, 1e-8, 1e-12
    keys = ("tref", "phi", "ecc")

    def gen(self, r, n=None):
        return dict(tref=r.uniform(1400, 9000) + r.choice([0, 2450000]), phi=[r.uniform(-7, 7) for _ in range(n or r.choice([1, 4]))],
                    ecc=r.uniform(0, 0.3))

    def mutate_key(self, r, b, k):
        if k == "tref":
            b[k] += r.choice([200.0, 366.0, -300.0])
        else:
            Op.mutate_key(self, r, b, k)

    def call(self, R, a):
        return [R.get("trajectory.parallax", "peri_vernal")(a["tref"]), R.get("trajectory.parallax", "getpsi")(J(a["phi"]), a["ecc"])]

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        t = a["tref"] - (2450000 if a["tref"] > 2450000 else 0)
        i = int(np.argmin(np.abs(np.array(O.PERIS) - t)))
        if abs(float(val[0]) - O.PERIS[i]) > 1e-6 or abs(float(val[1]) - O.VERNS[i]) > 1e-6:
            return "perihelion and equinox near %.2f: %s" % (t, base.short([float(val[0]), float(val[1])]))
        psi, phi = np.asarray(val[2]), np.array(a["phi"])
        if psi.shape != phi.shape or not np.all(np.abs(psi - a["ecc"] * np.sin(psi) - phi) < 1e-7):
            return "eccentric anomalies %s" % base.short(psi)


class Utilities(Op):
    """the array helpers"""
    name = "utilities"
    cost, rtol, atol, selftol = 1, 1e-9, 1e-9, 1e-12
    keys = ("x", "y")

    def gen(self, r, n=None):
        n = n or r.choice([4, 9])
        x = [r.gauss(0, 1) if r.random() < 0.7 else 0.0 for _ in range(n)]
        if not any(x):
            x[1] = 1.5
        return dict(x=x, y=[r.gauss(0, 1) for _ in x])

    def call(self, R, a):
        g = lambda k: R.get("utils", k)
        x, y = J(a["x"]), J(a["y"])
        t = max(i for i, v in enumerate(a["x"]) if v)
        return [g("first_nonzero")(x), g("last_nonzero")(x), g("first_zero")(x), g("min_zero_avoiding")(x), g("max_zero_avoiding")(x),
                g("mean_zero_avoiding")(x), g("sparse_argsort")(x)[:sum(1 for v in a["x"] if v)], g("trapz_zero_avoiding")(base.jnp.asarray(x), base.jnp.asarray(y), t), g("match_points")(y, y[::-1])]

    def expect(self, a):
        np = base.np
        x, y = np.array(a["x"]), np.array(a["y"])
        nz = np.where(x != 0)[0]
        zs = np.where(x == 0)[0]
        v = x[nz]
        t = nz[-1]
        order = nz[np.argsort(v, kind="stable")]
        I = np.sum(0.5 * (x[1:] + x[:-1]) * np.diff(y)) if t == len(x) - 1 else np.sum(0.5 * (x[1:] + x[:-1]) * np.diff(y)) - 0.5 * (x[t] + x[t + 1]) * (y[t + 1] - y[t])
        lo = min(v) if min(x) == 0 else min(x)
        hi = max(x) if max(x) != 0 else -min(abs(v))
        return [np.array(z) for z in (nz[0], t, zs[0] if len(zs) else 0, lo, hi, v.mean(), order, I, np.arange(len(y))[::-1])]


class RootsInit(Roots):
    """polynomial roots from given starting guesses"""
    name = "poly_roots_init"
    keys = ("z", "off")

    def gen(self, r, n=None):
        d = Roots.gen(self, r, n)
        return dict(d, off=[[0.2 * r.gauss(0, 1), 0.2 * r.gauss(0, 1)] for _ in d["z"]])

    def call(self, R, a):
        np = base.np
        c = own(lambda: (a["lead"] * np.poly(cplx(a["z"])))[None, :], a["z"], "coeffs")
        g = own(lambda: (cplx(a["z"]) + cplx(a["off"]))[None, :], a["z"], a["off"], "guess")
        z = np.asarray(R.get("poly_solver", "poly_roots")(c, custom_init=True, roots_init=g))[0]
        return np.sort_complex(np.round(z, 7))


class ParallaxGrad(Parallax):
    """offsets per unit of each parallax component, by forward differentiation"""
    name = "grad_parallax"
    cost = 2
    keys = ("t", "tref", "RA", "Dec")

    def call(self, R, a, state=None):
        st = state if state is not None else self.state(R, a)
        f = R.get("trajectory.parallax", "compute_parallax")
        t = J(a["t"])
        return base.jax.jacfwd(lambda x: base.jnp.stack(f(t, x[0], x[1], st)))(base.jnp.array([a["piEN"], a["piEE"]]))

    def expect(self, a):
        np = base.np
        one = Parallax.expect(self, dict(a, piEN=1.0, piEE=0.0))
        two = Parallax.expect(self, dict(a, piEN=0.0, piEE=1.0))
        return [np.stack([np.stack([one[k], two[k]], -1) for k in (0, 1)])]


class NllGrad(NllGeneral):
    """derivative of the marginal likelihood with respect to the model magnifications"""
    name = "grad_nll"
    cost, rtol, atol, selftol = 2, 1e-4, 1e-4, 1e-9

    def call(self, R, a):
        C, Lam = self.cov(a)
        one = base.jnp.ones(len(a["m"]))
        f = R.get("likelihood", "nll_ulens_general")
        fl, mu = J(a["flux"]), J(a["mu"])
        return base.jax.grad(lambda m: f(fl, base.jnp.stack([m, one], 1), C, mu, Lam))(base.jnp.asarray(a["m"]))

    def check(self, a, val, tol_scale=1.0):
        np = base.np
        C, Lam = self.cov(a)
        m = np.array(a["m"])
        f = lambda x: O.nll_gauss(np.array(a["flux"]), np.stack([x, np.ones(len(x))], 1), C, np.array(a["mu"]), Lam)
        e = []
        for i in range(len(m)):
            h = 1e-4 * m[i]
            d = np.zeros(len(m))
            d[i] = h
            e.append((8 * (f(m + d) - f(m - d)) - (f(m + 2 * d) - f(m - 2 * d))) / (12 * h))
        v = np.asarray(val[0])
        if v.shape != m.shape or not np.all(np.abs(v - e) < 1e-4 * (1 + np.max(np.abs(e)))):
            return "gradient %s, expected %s" % (base.short(v), base.short(e))


ALL = [PointSource(1), PointSource(2), PointSource(3), PointSourceGrad(), LensMap(1), LensMap(2), LensMap(3),
       Critical(2), Critical(3), Track(), LightCurve(2), LightCurve(3), InverseRay(2, False), InverseRay(2, True),
       InverseRay(3, False), InverseRay(3, True), Contour(1), Contour(2), Contour(3), Contour(1, True), Contour(2, True),
       Fast("np", "disk"), Fast("np", "limb1"), Fast("np", "limb2"),
       Fast("jax", "disk"), Fast("jax", "limb1"), Fast("jax", "limb2"), Fast("jax", "mdisk"),
       Hexadecapole(1), Hexadecapole(2), Hexadecapole(3), FFTLog("np"), FFTLog("jax"),
       ExtendedSource(2, False), ExtendedSource(2, True),
       Parallax(), Nll(), NllGeneral(), LinFit(), Special(), Roots(), Ephemeris(), Utilities(), RootsInit(), ParallaxGrad(), NllGrad()]
OPS = {o.name: o for o in ALL}
