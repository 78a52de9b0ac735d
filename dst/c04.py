"""C04: calls leave the caller's data and the process's settings untouched.

An adversarial client owns every array it passes (plain, strided views into larger
buffers, read-only, Fortran-ordered) and every array it gets back.  Before and after each
call the simulator compares the client's memory and all process-wide settings; between
calls the client overwrites what it received and what it passed, then asks again.  Some
calls are cut short or fail.  The answers must not move."""
import copy, os, sys, io, signal, threading, logging, gc, locale, random, warnings, pickle
import base, sched
from base import Bad
import ops

PROP = "C04"
TIERS = {"quick": 90, "thorough": 720}
EVAL = "calls"
RULE = ("one run = a seeded program of 6-20 requests over 2-5 routines and long-lived objects under seeded process "
        "settings, with client memory scribbled between the calls; non-trivial = a call (completed, failed or cut short) "
        "around which the client's memory and all settings were compared; distinct = distinct (operation, memory layout, "
        "form, outcome, scribbling before it)")
MEASURE = "distinct (operation, memory layout of the inputs, call form, outcome, scribbled inputs/outputs before)"
REAL = ["all of microjax", "JAX tracing and compilation", "NumPy/SciPy"]
STUB = ["client program and its memory", "process restart (all microjax modules reloaded)"]
ASSUME = ["settings changed by importing the library itself are not part of a call"]

LIGHT = ["ephemeris", "utilities", "poly_roots_init", "fast_np_disk", "fast_np_limb1", "fast_np_limb2", "parallax", "nll_diag", "nll_general", "linear_fit", "fftlog_np",
         "lens_eq1", "lens_eq2", "lens_eq3", "poly_roots", "mag_point_source1"]
MID = ["mag_point_source2", "mag_point_source3", "critical_curves2", "critical_curves3", "image_tracking2", "fast_jax_disk",
       "fast_jax_limb1", "fast_jax_limb2", "fast_jax_mdisk", "grad_point_source2", "grad_parallax", "grad_nll", "hexadecapole1", "hexadecapole2", "hexadecapole3", "fftlog_jax",
       "special_functions"]
HEAVY = ["inverse_ray2", "inverse_ray2_ld", "inverse_ray3", "inverse_ray3_ld", "light_curve2", "contour1", "contour1_ld", "contour2_ld", "light_curve3", "extended_source2_ld",
         "contour2"]
LAYOUT = ["plain", "plain", "strided", "reversed", "readonly", "offset"]


# the client's own numerical modes: (jax setting, value)
MODES = {"single precision": ("jax_enable_x64", False), "precision": ("jax_default_matmul_precision", "float32"),
         "nan checks": ("jax_debug_nans", True), "rank checks": ("jax_numpy_rank_promotion", "warn"),
         "inf checks": ("jax_debug_infs", True), "weak seeds": ("jax_enable_custom_prng", True)}


def simtime(c):
    return "%d calls with the adversary around them" % c.get("calls", 0)


def gen(r, tier, n):
    k = r.random()
    if k < 0.5:
        names = [r.choice(LIGHT) for _ in range(r.choice([2, 3, 4]))]
    elif k < 0.9:
        names = [r.choice(MID), r.choice(LIGHT)]
    else:
        names = [r.choice(HEAVY)]
    pool = []
    for nm in names:
        op = ops.OPS[nm]
        pool.append([nm, op.gen(r)])
        if r.random() < 0.4:
            pool.append([nm, op.mutate(r, pool[-1][1])[0]])
    heavy = k >= 0.9
    ev = []
    for _ in range(r.choice([2, 3]) if heavy else r.choice([5, 9, 14])):
        t = r.random()
        i = r.randrange(len(pool))
        if t < 0.75:
            ev.append(["call", i, r.choice(["new", "object", "object"]), r.choice(LAYOUT), r.random() < 0.6, r.random() < 0.6])
        elif t < 0.85:
            ev.append(["cut", i, r.random() ** 2, r.choice(["KeyboardInterrupt", "MemoryError"])])
        elif t < 0.91 and not heavy:
            ev.append(["mode", i, r.choice(sorted(MODES))])
        elif t < 0.95:
            ev.append(["bad", i, r.choice(sorted(pool[i][1]))])
        else:
            ev.append(["restart"])
    ev += [["call", i, r.choice(["new", "object"]), r.choice(LAYOUT), True, True] for i in r.sample(range(len(pool)), len(pool))]
    return dict(pool=pool, events=ev, settings=r.randrange(10 ** 6))


class Mine(dict):
    """SHARE of a client that knows every byte it handed out"""
    def __init__(self, layout, r):
        dict.__init__(self)
        self.layout, self.r, self.bufs = layout, r, []

    def __setitem__(self, k, v):
        np = base.np
        l, x = v
        x = np.asarray(x)
        y = self.layout
        fill = 777.25
        if y == "strided" and x.ndim:
            b = np.full((2 * x.shape[0] + 1,) + x.shape[1:], fill, x.dtype)
            a = b[1::2][:x.shape[0]]
        elif y == "reversed" and x.ndim:
            b = np.full(x.shape, fill, x.dtype)
            a = b[::-1]
        elif y == "offset":
            b = np.full((x.size + 7,), fill, x.dtype)
            a = b[3:3 + x.size].reshape(x.shape)
        else:
            b = np.full(x.shape, fill, x.dtype)
            a = b
        a[...] = x
        if y == "readonly":
            a.flags.writeable = False
        self.bufs.append((b, a, b.tobytes(), a.dtype, a.shape))
        dict.__setitem__(self, k, (l, a))

    def touched(self):
        for b, a, s, dt, sh in self.bufs:
            if b.tobytes() != s or a.dtype != dt or a.shape != sh:
                return "input array %s became %s" % (base.short(base.np.frombuffer(s, b.dtype)), base.short(b))

    def scribble(self):
        for n, (b, a, s, dt, sh) in enumerate(self.bufs):
            b.flags.writeable = True
            b[...] = 1e3 * (n + 1)


def settings():
    """every process-wide setting the property names"""
    np, jax = base.np, base.jax
    import scipy.special
    g = np.random.get_state()
    d = {
        "numpy random state": (g[0], g[1].tobytes(), g[2:]),
        "python random state": hash(random.getstate()),
        "numpy error handling": (tuple(sorted(np.geterr().items())), np.geterrcall(), np.getbufsize()),
        "scipy error handling": tuple(sorted(scipy.special.geterr().items())),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": repr(warnings.filters),
        "warning display": (warnings.showwarning, warnings.formatwarning),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "standard streams": (sys.stdout, sys.stderr, sys.stdin, sys.__stdout__, sys.__stderr__),
        "exception hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook),
        "signal handlers": tuple((s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM, signal.SIGUSR1)),
        "interval timer": signal.getitimer(signal.ITIMER_REAL)[1],
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "import path": tuple(sys.path),
        "logging": (logging.root.level, tuple(logging.root.handlers), logging.raiseExceptions, logging.root.manager.disable,
                    logging.getLogger("jax").level),
        "integer digits limit": sys.get_int_max_str_digits(),
        "trace/profile hooks": (sys.gettrace(), sys.getprofile()),
        "threads": threading.active_count(),
        "file creation mask": mask(),
        "functions of numpy, jax, scipy and the standard library": foreign(),
    }
    for k in list(jax.config.values):
        d["jax " + k] = repr(getattr(jax.config, k, jax.config.values[k]))
    return d


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


FOREIGN = ["numpy", "numpy.linalg", "numpy.random", "numpy.fft", "jax", "jax.numpy", "jax.lax", "jax.random", "jax.numpy.linalg",
           "jax.scipy.special", "scipy.special", "scipy.integrate", "scipy.interpolate", "math", "cmath", "builtins", "time", "random"]


class foreign(dict):
    """functions of other packages, by identity: nobody may exchange them"""
    def __init__(self):
        for n in FOREIGN:
            m = sys.modules.get(n)
            if m is not None:
                for k, v in list(vars(m).items()):
                    if callable(v):
                        self[n, k] = v

    def __ne__(self, o):
        return any(k in o and o[k] is not v for k, v in self.items())

    def __eq__(self, o):
        return not self != o

    __hash__ = None

    def __str__(self):
        return "functions of other packages"


def changed(a, b):
    ks = [k for k in a if k not in b or a[k] != b[k]] + [k for k in b if k not in a and not k.startswith("jax ")]
    if ks:
        k = ks[0]
        return "%s changed: %s -> %s" % (k, str(a.get(k))[-120:], str(b.get(k))[-120:])


def world(seed):
    """the client's own unusual settings; returns what undoes them"""
    np = base.np
    r = random.Random(seed)
    saved = (np.geterr(), np.get_printoptions(), warnings.filters[:], random.getstate(), np.random.get_state(), sys.getrecursionlimit(), os.getcwd())
    np.seterr(all=r.choice(["ignore", "warn"]), under=r.choice(["ignore", "warn"]))
    np.set_printoptions(precision=r.randrange(2, 12), suppress=r.random() < 0.5)
    warnings.filters[:] = []
    warnings.simplefilter("ignore")
    for _ in range(r.randrange(3)):
        warnings.filterwarnings("ignore", message="m%d" % r.randrange(99))
    random.seed(r.random())
    np.random.seed(r.randrange(2 ** 31))
    sys.setrecursionlimit(3000 + r.randrange(2000))
    os.environ["DST_MARK"] = str(seed)

    def undo():
        np.seterr(**saved[0])
        np.set_printoptions(**saved[1])
        warnings.filters[:] = saved[2]
        random.setstate(saved[3])
        np.random.set_state(saved[4])
        sys.setrecursionlimit(saved[5])
        os.chdir(saved[6])
    return undo


def spoil(v, depth=0):
    """the client overwrites what it was given; -> number of arrays overwritten"""
    np = base.np
    n = 0
    if depth > 4:
        return 0
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "fciub":
            v[...] = 5 if v.dtype.kind != "b" else False
            n += 1
    elif isinstance(v, list):
        for x in v:
            n += spoil(x, depth + 1)
        del v[:]
    elif isinstance(v, tuple):
        for x in v:
            n += spoil(x, depth + 1)
    elif isinstance(v, dict):
        for x in list(v.values()):
            n += spoil(x, depth + 1)
        v.clear()
    return n


def run(sc, ctx):
    undo = world(sc["settings"])
    try:
        program(sc, ctx)
    finally:
        ops.SHARE = None
        undo()


def program(sc, ctx):
    np = base.np
    pool = sc["pool"]
    R = base.Replica()
    live = [ops.OPS[nm].available(R) for nm, _ in pool]
    objs, first = {}, {}
    r = random.Random(sc["settings"])
    before = "clean"
    base.callraw(lambda: R.get("point_source", "mag_point_source")(base.jnp.array([0.3 + 0.1j]), nlenses=1))
    for step, e in enumerate(sc["events"]):
        if e[0] == "restart":
            R = base.Replica()
            objs.clear()
            ctx.c["fault:restart"] += 1
            continue
        i = e[1]
        if not live[i]:
            continue
        nm, a = pool[i]
        op = ops.OPS[nm]
        who = "step %d: %s %s" % (step, nm, str(a)[:400])
        layout = e[3] if e[0] == "call" else "plain"
        ops.SHARE = M = Mine(layout, r)
        A = copy.deepcopy(a)
        if e[0] == "mode":
            key, val = MODES[e[2]]
            was = getattr(base.jax.config, key)
            base.jax.config.update(key, val)
        s0 = settings()
        if e[0] == "mode":
            # only what the call leaves behind is looked at: it may fail or lose digits
            ctx.c["fault:client_mode"] += 1
            st, v = base.callraw(lambda: op.call(R, A))
        elif e[0] == "cut":
            sched.instrument(base.SRC)
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[e[3]]("injected")
            with sched.Injector(1 + int(e[2] * 60), exc) as inj:
                st, v = base.callraw(lambda: op.call(R, A))
            ctx.c["fault:cut_short" if inj.where else "cut_not_reached"] += 1
        elif e[0] == "bad":
            st, v = base.callraw(lambda: op.call(R, dict(A, **{e[2]: "x"})))
            ctx.c["fault:failing_request"] += 1
        else:
            ok = op.objkey(a)
            o = None
            if ok and e[2] == "object":
                if (nm, ok) not in objs:
                    st, objs[nm, ok] = base.callraw(lambda: op.new(R, A))
                    if st != "ok":
                        raise Bad("exception", "%s: %s" % (who, objs[nm, ok]))
                    if nm == "parallax":        # a client that keeps its states in plain arrays
                        objs[nm, ok] = tuple(np.array(x) for x in objs[nm, ok])
                o = objs[nm, ok]
            so = pickle.dumps(o) if nm == "parallax" and o is not None else None
            st, v = base.callraw((lambda: op.call(R, A, o)) if o is not None else (lambda: op.call(R, A)))
            if st != "ok":
                raise Bad("exception", "%s with %s inputs: %s" % (who, layout, v))
            if so is not None and pickle.dumps(o) != so:
                raise Bad("state", "%s: the call changed the reference state it was given" % who)
        s1 = settings()
        if e[0] == "mode":
            base.jax.config.update(key, was)
        c = changed(s0, s1)
        if c:
            raise Bad("settings", "%s (%s, %s): %s" % (who, e[0], st, c))
        c = M.touched()
        if c:
            raise Bad("input", "%s (%s, %s inputs): %s" % (who, e[0], layout, c))
        if {k: x for k, x in A.items()} != a:
            raise Bad("input", "%s: the call changed the containers it was given" % who)
        ctx.c["calls"] += 1
        ctx.state(nm, layout, e[2] if e[0] == "call" else e[0], st, before)
        ops.SHARE = None
        if e[0] != "call":
            ctx.event(step, st)
            continue
        w = base.norm(v)
        ctx.event(step, w[0].tobytes())
        if i in first:
            d = base.differ(w, first[i][0], max(op.selftol, 1e-9) * 2, 1e-11)
            if d:
                raise Bad("answer", "%s (%s, %s inputs): after the client overwrote its own arrays: %s" % (who, e[2], layout, d))
        else:
            m = op.check(a, w)
            if m:
                raise Bad("value", "%s (%s, %s inputs): %s" % (who, e[2], layout, m))
            first[i] = (w, step)
        before = "clean"
        if e[4]:
            n = spoil(v)
            ctx.c["fault:output_overwritten"] += n
            c = M.touched()
            if c:
                raise Bad("alias", "%s: overwriting the result changed the caller's input: %s" % (who, c))
            before = "outputs"
        if e[5]:
            M.scribble()
            ctx.c["fault:input_overwritten"] += len(M.bufs)
            before = "both" if e[4] else "inputs"


def shrink(sc):
    ev = sc["events"]
    k = len(ev) // 2
    while k >= 1:
        for i in range(0, len(ev), k):
            if len(ev) > k:
                yield dict(sc, events=ev[:i] + ev[i + k:])
        k //= 2
    for j, e in enumerate(ev):
        if e[0] == "call" and (e[2] != "new" or e[3] != "plain"):
            yield dict(sc, events=ev[:j] + [["call", e[1], "new", "plain", e[4], e[5]]] + ev[j + 1:])
