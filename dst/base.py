"""Environment, replicas and bookkeeping shared by every simulator in /verif/dst.

A *replica* is one loaded copy of microjax: dropping every ``microjax*`` module and
importing again is the simulator's "crash and restart of the process" (all module
state and every jit cache keyed on the library's functions is gone; only what a
property calls durable is carried over by the harness)."""
import os, sys, json, hashlib, random, importlib, time, traceback
from collections import Counter

REPO = os.environ.get("MJ_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

jax = jnp = np = None


def boot():
    """Import jax exactly once, single-threaded XLA, 64-bit."""
    global jax, jnp, np
    if jax is not None:
        return
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as _np
    import jax as _jax
    _jax.config.update("jax_enable_x64", True)
    import jax.numpy as _jnp
    jax, jnp, np = _jax, _jnp, _np


MODS = ("point_source", "multipole", "likelihood", "poly_solver", "utils", "coeffs",
        "inverse_ray.lightcurve", "inverse_ray.extended_source",
        "caustics.lightcurve", "caustics.extended_source",
        "trajectory.parallax", "fastlens.mag_fft", "fastlens.mag_fft_jax",
        "fastlens.special", "fastlens.fftlog", "fastlens.fftlog_jax")

_CODE = {}


class _Finder:
    """Caches compiled code of microjax sources so that restarts are cheap."""
    @staticmethod
    def install():
        import importlib.machinery as m
        orig = m.SourceFileLoader.get_code
        if getattr(orig, "_dst", False):
            return

        def get_code(self, fullname):
            if not fullname.startswith("microjax"):
                return orig(self, fullname)
            if fullname not in _CODE:
                _CODE[fullname] = orig(self, fullname)
            return _CODE[fullname]
        get_code._dst = True
        m.SourceFileLoader.get_code = get_code


def trim(limit=500):
    """Give freed heap pages back to the system (no effect on what is computed)."""
    import ctypes
    if int(open("/proc/self/statm").read().split()[1]) * 4 // 1024 > limit:
        try:
            ctypes.CDLL(None).malloc_trim(0)
        except Exception:
            pass


class Replica:
    serial = 0

    def __init__(self):
        boot()
        _Finder.install()
        for k in [k for k in sys.modules if k == "microjax" or k.startswith("microjax.")]:
            del sys.modules[k]
        Replica.serial += 1
        if Replica.serial % 12 == 0:        # jax keeps programs of dead replicas alive
            jax.clear_caches()
            import gc
            gc.collect()
        trim()
        self.m = {}
        for name in MODS:
            try:
                self.m[name] = importlib.import_module("microjax." + name)
            except ModuleNotFoundError:
                self.m[name] = None
        self.all = {k: m for k, m in sys.modules.items() if k == "microjax" or k.startswith("microjax.")}
        f = self.m["point_source"].__file__
        if not os.path.realpath(f).startswith(os.path.realpath(SRC)):
            raise RuntimeError("microjax was imported from %s, not from %s" % (f, SRC))

    def current(self):
        """make this copy the one that ``import microjax`` finds"""
        for k in [k for k in sys.modules if k == "microjax" or k.startswith("microjax.")]:
            del sys.modules[k]
        sys.modules.update(self.all)

    def get(self, mod, name):
        m = self.m.get(mod)
        return getattr(m, name, None) if m is not None else None


class Ctx:
    """What one worker accumulates."""
    def __init__(self):
        self.c = Counter()      # counters (fault kinds fired, calls, probes...)
        self.states = set()     # distinct states / interleavings reached
        self.log = hashlib.sha256()
        self.nlog = 0
        self.trace = None       # module-specific trace kept for the replay file
        self.notes = {}

    def event(self, *a):
        self.nlog += 1
        self.log.update(repr(a).encode())

    def state(self, *a):
        self.states.add(hashlib.md5(repr(a).encode()).hexdigest()[:12])


class Bad(Exception):
    """A property violation found while a run proceeds."""
    def __init__(self, kind, detail, **extra):
        Exception.__init__(self, kind + ": " + detail)
        self.kind, self.detail, self.extra = kind, detail, extra


def rng_for(prop, seed, n):
    return random.Random("%s|%d|%d" % (prop, seed, n))


def tolist(w):
    w = np.atleast_1d(np.asarray(w))
    if np.iscomplexobj(w):
        return [[float(x.real), float(x.imag)] for x in w]
    return [float(x) for x in w]


def cplx(l):
    return np.array([complex(a, b) for a, b in l])


def norm(v):
    """Result of a library call -> list of numpy arrays (independent copies)."""
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            out += norm(x)
        return out
    return [np.array(v)]


def differ(a, b, rtol=1e-9, atol=1e-12):
    """None if equal within tolerance, else a short description."""
    if len(a) != len(b):
        return "number of results %d != %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return "result %d: shape %s != %s" % (i, x.shape, y.shape)
        if x.dtype.kind not in "biufc" or y.dtype.kind not in "biufc":
            return "result %d: dtype %s / %s" % (i, x.dtype, y.dtype)
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return "result %d: finite pattern differs: %s vs %s" % (i, short(x), short(y))
        d = np.abs(x[fx].astype(complex) - y[fy].astype(complex))
        lim = atol + rtol * np.abs(y[fy])
        if d.size and np.any(d > lim):
            j = int(np.argmax(d - lim))
            return "result %d: %s vs expected %s (|diff| %.3g at flat index %d)" % (
                i, short(x), short(y), d[j], j)
    return None


def short(x, n=6):
    x = np.asarray(x).reshape(-1)
    s = ", ".join("%.8g" % v if not np.iscomplexobj(x) else "%.7g%+.7gj" % (v.real, v.imag)
                  for v in x[:n])
    return "[" + s + (", ..." if x.size > n else "") + "]"


def call(fn):
    """-> ('ok', [arrays]) or ('exc', 'Type: message').  Library exceptions only."""
    try:
        v = norm(fn())
        return "ok", v
    except (KeyboardInterrupt, SystemExit, Exception) as e:
        return "exc", "%s: %s" % (type(e).__name__, str(e)[:300])


def callraw(fn):
    try:
        return "ok", fn()
    except (KeyboardInterrupt, SystemExit, Exception) as e:
        return "exc", "%s: %s" % (type(e).__name__, str(e)[:300])


def dig(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]
