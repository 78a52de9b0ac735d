"""C12: how a program executes a call does not change its answer.

The simulator owns the executor: a seeded plan decides, for every request, which of its
arguments are constants and which are traced, and through which nesting of compilation,
vectorisation, loops, scans, conditionals, checkpoints and differentiation the routine runs;
which lane of a vectorised call (or iteration of a loop) is the request, and what the other
lanes hold - other requests, or corrupted ones.  Some executions fail while the routine is
being traced and are retried.  Every execution must give what the direct call gives."""
import math
import base, sched, ops
from base import Bad, cplx
import oracles as O

PROP = "C12"
TIERS = {"quick": 100, "thorough": 760}
EVAL = "executions"
RULE = ("one run = one routine with 2-6 seeded execution plans; an execution is non-trivial when its answer is compared with "
        "the direct call's; distinct = distinct (routine, nesting, traced arguments, kind of the other lanes)")
MEASURE = "distinct (routine, nesting of executors, set of traced/mapped arguments, fault kinds)"
REAL = ["all JAX routines of microjax", "JAX tracing, compilation, vectorisation and differentiation"]
STUB = ["the user's program around the call (generated)", "allocator/interrupts while tracing (injected)"]
ASSUME = ["inverse-ray values may differ by the change of single grid cells (0.3 %)",
          "inverse-ray primal values inside derivatives use the documented smooth source edge and are not compared"]


def simtime(c):
    return "%d executions of generated programs" % c.get("executions", 0)


# ------------------------------------------------------------------ routines
def cx(l):
    return base.np.array([complex(a, b) for a, b in l])


class K:
    """one routine: args() gives the traceable arguments, fn(R) the function of them by name"""
    tol, grad, heavy, cond = 1e-9, (), False, True
    ftol = 2e-4

    def __init__(self, name, op, fn, args, tol=1e-9, grad=(), heavy=False, ftol=2e-4, post=None, atol=1e-10, weight=3, smooth=True, limit=True):
        self.name, self.op, self.fn, self.args, self.tol = name, op, fn, args, tol
        self.grad, self.heavy, self.ftol, self.post, self.atol, self.weight = grad, heavy, ftol, post, atol, weight
        self.smooth = smooth


def lensargs(nl):
    return {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}[nl]


def pick(a, ks):
    return {k: float(a[k]) for k in ks}


def kernels():
    KS = []

    def add(*a, **k):
        KS.append(K(*a, **k))
    for nl in (1, 2, 3):
        ps = lensargs(nl)

        def f(R, a, nl=nl):
            g = R.get("point_source", "mag_point_source")
            return lambda w, dx, dy, **p: (g(w + dx + 1j * dy, nlenses=nl, **p),)
        add("point_source%d" % nl, "mag_point_source%d" % nl, f, lambda a, ps=ps: dict(pick(a, ps), w=cx(a["w"]), dx=0.0, dy=0.0),
            tol={1: 1e-9, 2: 1e-6, 3: 1e-5}[nl], grad=ps + ("dx", "dy"), ftol=2e-3)

        def f(R, a, nl=nl):
            g, h = R.get("point_source", "lens_eq"), R.get("point_source", "lens_eq_det_jac")
            return lambda z, **d: (g(z, nlenses=nl, **d), h(z, nlenses=nl, **d))
        add("lens_eq%d" % nl, "lens_eq%d" % nl, f,
            lambda a, nl=nl: dict({k: float(v) for k, v in ops.OPS["lens_eq%d" % nl].mid(a).items()}, z=cx(a["z"])), weight=1)
    for nl in (2, 3):
        ps = lensargs(nl)

        def f(R, a, nl=nl):
            g = R.get("point_source", "critical_and_caustic_curves")
            n = a["npts"]
            return lambda **p: g(npts=n, nlenses=nl, **p)
        add("critical_curves%d" % nl, "critical_curves%d" % nl, f, lambda a, ps=ps: pick(a, ps), tol=1e-6, post=power_sums)
        op = ops.OPS["hexadecapole%d" % nl]

        def f(R, a, nl=nl):
            h, im = R.get("multipole", "mag_hexadecapole"), R.get("point_source", "_images_point_source")

            def g(w, rho, u1, **p):
                s, q = p["s"], p["q"]
                d = dict(a=0.5 * s, e1=q / (1 + q)) if nl == 2 else dict(
                    a=0.5 * s, e1=q / (1 + q + p["q3"]), e2=1 / (1 + q + p["q3"]), r3=p["r3"], psi=p["psi"])
                z, m = im(w - 0.5 * s * (1 - q) / (1 + q), nlenses=nl, **d)
                return (h(z, m, rho, u1=u1, nlenses=nl, **d)[0],)
            return g
        add("hexadecapole%d" % nl, "mag_point_source%d" % nl, f, lambda a, ps=ps: dict(pick(a, ps), w=cx(a["w"]), rho=0.01, u1=0.4),
            tol=1e-5, grad=("rho", "u1") + ps, ftol=5e-3)

    def f(R, a):
        g = R.get("point_source", "_images_point_source_sequential")
        if g is None:
            return None

        def h(w, s, q):
            z, m = g(w - 0.5 * s * (1 - q) / (1 + q), nlenses=2, a=0.5 * s, e1=q / (1 + q))
            m = m.astype(float)
            return tuple((m * z ** k).sum(0) for k in (0, 1, 2, 3))
        return h
    add("image_tracking2", "image_tracking2", f, lambda a: dict(pick(a, ("s", "q")), w=cx(a["w"])), tol=1e-5, atol=1e-6)

    for nl, ld in ((2, False), (2, True), (3, False), (3, True)):
        ps = lensargs(nl)

        def f(R, a, nl=nl, ld=ld):
            g = R.get("inverse_ray.extended_source", "mag_limb_dark" if ld else "mag_uniform")
            cfg = dict(ops.LCFG, r_resolution=80, th_resolution=80, Nlimb=100)
            return lambda w, rho, **p: (g(w, rho, nlenses=nl, **cfg, **p),)
        add("inverse_ray%d%s" % (nl, "_ld" if ld else ""), "inverse_ray%d%s" % (nl, "_ld" if ld else ""), f,
            lambda a, ps=ps, ld=ld: dict(pick(a, ps + ("rho",) + (("u1",) if ld else ())), w=cx(a["w"])[0]),
            tol=3e-3 if nl == 2 else 1e-2, heavy=True, weight=1 if nl == 2 else 0.5, smooth=False, grad=ps + ("rho",) + (("u1",) if ld else ()))

    def f(R, a):
        g = R.get("inverse_ray.lightcurve", "mag_binary")
        cfg = dict(ops.LCFG, r_resolution=80, th_resolution=80, Nlimb=100)
        return lambda w, rho, s, q: (g(w, rho, u1=a["u1"], MAX_FULL_CALLS=len(a["w"]), chunk_size=a["chunk"], s=s, q=q, **cfg),)
    add("light_curve2", "light_curve2", f, lambda a: dict(pick(a, ("s", "q", "rho")), w=cx(a["w"])[:4]), tol=5e-3, heavy=True, smooth=False, grad=("s", "q", "rho"))
    for nl in (1, 2):
        ps = lensargs(nl)

        def f(R, a, nl=nl):
            g = R.get("caustics.lightcurve", "magnifications")
            return lambda w, rho, **p: (g(w, rho, nlenses=nl, npts_limb=120, **p),)
        add("contour%d" % nl, "contour%d" % nl, f, lambda a, ps=ps: dict(pick(a, ps + ("rho",)), w=cx(a["w"])[:2]),
            tol=1e-4, heavy=True, smooth=False, weight=1)

    PK = ("tref", "RA", "Dec", "tperi", "tvernal", "rotaxis_deg", "ecc", "period", "dt")

    def f(R, a):
        s, c = R.get("trajectory.parallax", "set_parallax"), R.get("trajectory.parallax", "compute_parallax")
        if not a["tperi"]:          # automatic epochs: given tref stays a constant
            kw = {k: a[k] for k in ("rotaxis_deg", "ecc", "period", "dt")}
            st = s(a["tref"], a["tperi"], a["tvernal"], a["RA"], a["Dec"], **kw)
            return lambda t, piEN, piEE: tuple(c(t, piEN, piEE, st))

        def g(t, piEN, piEE, RA, Dec, tref):
            st = s(tref, a["tperi"], a["tvernal"], RA, Dec, rotaxis_deg=a["rotaxis_deg"], ecc=a["ecc"], period=a["period"], dt=a["dt"])
            return tuple(c(t, piEN, piEE, st))
        return g
    add("parallax", "parallax", f, lambda a: dict(pick(a, ("piEN", "piEE") + (("RA", "Dec", "tref") if a["tperi"] else ())), t=base.np.array(a["t"])),
        tol=1e-8, atol=1e-9, grad=("piEN", "piEE", "RA", "Dec"), weight=5)

    def f(R, a):
        g = R.get("likelihood", "nll_ulens")
        return lambda flux, m, s2, vfs, vfb: (g(flux, base.jnp.stack([m, base.jnp.ones_like(m)], 1), s2, vfs, vfb),)
    add("nll", "nll_diag", f, lambda a: dict(pick(a, ("vfs", "vfb")), flux=base.np.array(a["flux"]), m=base.np.array(a["m"]), s2=base.np.array(a["s2"])),
        tol=1e-8, atol=1e-6, grad=("vfs", "vfb", "m", "s2", "flux"), weight=4)

    def f(R, a):
        g = R.get("likelihood", "nll_ulens_general")
        return lambda flux, m, C, mu, Lam: (g(flux, base.jnp.stack([m, base.jnp.ones_like(m)], 1), C, mu, Lam),)

        # C and Lam come as matrices
    def ar(a):
        C, L = ops.OPS["nll_general"].cov(a)
        return dict(flux=base.np.array(a["flux"]), m=base.np.array(a["m"]), C=C, mu=base.np.array(a["mu"]), Lam=L)
    add("nll_general", "nll_general", f, ar, tol=1e-8, atol=1e-6, grad=("flux", "m", "mu"), weight=4)

    def f(R, a):
        g = R.get("likelihood", "linear_chi2")
        return lambda x, y, e: tuple(g(x, y, e))
    add("linear_fit", "linear_fit", f, lambda a: dict(x=base.np.array(a["x"]), y=base.np.array(a["y"]), e=errs(a)), tol=1e-8, atol=1e-8, grad=("y",), weight=2)

    for kind in ("disk", "limb1", "limb2", "mdisk"):
        def f(R, a, kind=kind):
            o = ops.OPS["fast_jax_" + kind].make(R, dict(a["cfg"]))
            return lambda u, rho: (o.A(u, rho),)
        add("fast_" + kind, "fast_jax_" + kind, f, lambda a: dict(rho=float(a["rho"]), u=base.np.array(a["u"])), tol=1e-8, atol=1e-9, weight=0.7, grad=("rho", "u"), ftol=1e-2)

    def f(R, a):
        g = lambda k: R.get("fastlens.special", k)
        el = lambda k, x: base.jnp.stack([g(k)(-x[i]) for i in range(x.shape[0])])
        return lambda x: tuple(g(k)(x) for k in ("j0", "j1", "j2", "j1p5", "gamma")) + (el("ellipk", x), el("ellipe", x))
    add("special", "special_functions", f, lambda a: dict(x=base.np.array(a["x"])), tol=1e-9, atol=1e-11, grad=("x",), ftol=5e-4, weight=2)

    def f(R, a):
        g = R.get("poly_solver", "poly_roots")

        def h(c, cr):
            z = g(c + cr * (0.3 - 0.2j))
            return tuple((z ** k).sum(-1) for k in (1, 2, 3))
        return h
    add("poly_roots", "poly_roots", f, lambda a: dict(c=(a["lead"] * base.np.poly(cx(a["z"])))[None, :], cr=0.0), tol=1e-7, atol=1e-8, weight=2, grad=("cr",))

    def f(R, a):
        g, b = R.get("trajectory.parallax", "getpsi"), R.get("trajectory.parallax", "prepare_projection_basis")
        return lambda phi, ecc, RA, Dec, rot, off: (g(phi, ecc),) + tuple(b(rot, off, RA, Dec))
    add("ephemeris", "parallax", f, lambda a: dict(phi=base.np.array([0.01 * t for t in a["t"]]), ecc=min(0.3, a["ecc"]), RA=float(a["RA"]), Dec=float(a["Dec"]),
                                                    rot=float(a["rotaxis_deg"]), off=0.3), tol=1e-9, atol=1e-9, grad=("ecc", "RA", "Dec"), weight=2)
    return KS


def errs(a):
    return base.np.array(a["err"], float)


def power_sums(vs):
    """invariant under the order of the branches"""
    np = base.np
    out = []
    for v in vs:
        v = np.asarray(v)
        out += [sum(v[i] ** k for i in range(v.shape[0])) for k in (1, 2, 3)]
    return out


_KS = []


def KERN():
    if not _KS:
        _KS.extend(kernels())
    return {k.name: k for k in _KS}


# --------------------------------------------------------------------- plans
WRAP = ["jit", "jit", "vmap", "vmap", "scan", "map", "cond", "fori", "while", "remat", "jvp", "vjp", "aot", "switch"]
FAULT = ["nan", "inf", "huge", "zero", "tiny"]


def gen(r, tier, n):
    ks = KERN()
    names = sorted(ks)
    light = [k for k in names if not ks[k].heavy]
    heavy = [k for k in names if ks[k].heavy]
    hv = r.random() < 0.07
    pool = heavy if hv else light
    name = r.choices(pool, [ks[k].weight for k in pool])[0]
    k = ks[name]
    op = ops.OPS[k.op]
    a = op.gen(r)
    others = [op.mutate(r, a)[0] for _ in range(3)] if not hv else [op.mutate(r, a)[0]]
    ev = []
    for _ in range(1 if hv else r.choice([2, 3, 4, 6])):
        depth = r.choice([1, 1, 2, 2, 3]) if not hv else r.choice([1, 1, 2])
        ev.append(dict(traced=r.random(), form=r.choice(["float", "numpy", "jax"]), seed=r.randrange(10 ** 6),
                       nest=[r.choice(WRAP) for _ in range(depth)], lanes=r.choice([1, 2, 3, 4]) if not hv else r.choice([1, 2]),
                       fault=r.choice([None, None] + FAULT), cut=r.randint(1, 80) if r.random() < 0.15 else 0))
    bulky = hv or name[-1] == "3"       # derivatives take minutes to compile
    if bulky and (tier != "thorough" or r.random() < 0.8):
        for e in ev:
            e["nest"] = ["jit" if w in ("jvp", "vjp") else w for w in e["nest"]]
    if k.grad and r.random() < ((0.1 if tier == "thorough" else 0.0) if bulky else 0.6):
        ev.append(dict(grad=r.choice(k.grad), seed=r.randrange(10 ** 6), nest=[r.choice(["jit", "vmap", "scan", "remat", "none"])], lanes=r.choice([1, 2, 3]), fault=r.choice([None, None, "nan", "huge"]), form="jax"))
    return dict(k=name, a=a, others=others, ev=ev)


def spoil(kind, x, rr):
    np = base.np
    x = np.array(x)
    v = dict(nan=np.nan, inf=np.inf, huge=1e250, zero=0.0, tiny=1e-300)[kind]
    if x.ndim:
        x.reshape(-1)[rr.randrange(x.size)] = v
        return x
    return np.asarray(v, x.dtype)


def lanes_of(args, names, others, e, rr):
    """stacked values of the mapped arguments, and the position of the request"""
    np = base.np
    L = e["lanes"]
    pos = rr.randrange(L)
    rows = []
    for j in range(L):
        if j == pos:
            rows.append({k: args[k] for k in names})
            continue
        o = others[rr.randrange(len(others))]
        row = {k: (o[k] if np.shape(o[k]) == np.shape(args[k]) else args[k]) for k in names}
        if e["fault"]:
            k = names[rr.randrange(len(names))]
            row[k] = spoil(e["fault"], row[k], rr)
        rows.append(row)
    return {k: np.stack([np.asarray(x[k]) for x in rows]) for k in names}, pos


def wrap(F, w, args, others, e, rr, ctx):
    """one more layer around F: dict -> tuple of arrays, taking the same dict"""
    jax, jnp, np = base.jax, base.jnp, base.np
    if w == "jit":
        return jax.jit(F)
    if w == "remat":
        return jax.checkpoint(F)
    if w == "aot":
        def g(d):
            if any(isinstance(x, jax.core.Tracer) for x in d.values()):
                return jax.jit(F)(d)
            return jax.jit(F).lower(d).compile()(d)
        return g
    if w == "cond":
        return lambda d: jax.lax.cond(jnp.sum(jnp.stack([jnp.sum(jnp.real(x)) * 0 for x in d.values()])) == 0, F, lambda d: jax.tree_util.tree_map(
            lambda s: jnp.zeros(s.shape, s.dtype), jax.eval_shape(F, d)), d)
    if w == "switch":
        i = rr.randrange(2)
        z = lambda d: jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), jax.eval_shape(F, d))
        br = [z, z]
        br[i] = F
        return lambda d: jax.lax.switch(jnp.asarray(i), br, d)
    if w in ("fori", "while"):
        n = rr.randrange(1, 3)

        def g(d):
            z = jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), jax.eval_shape(F, d))
            if w == "fori":
                return jax.lax.fori_loop(0, n, lambda i, c: F(d), z)
            return jax.lax.while_loop(lambda c: c[0] < n, lambda c: (c[0] + 1, F(d)), (0, z))[1]
        return g
    names = sorted(k for k in args)
    sub = [k for k in names if rr.random() < 0.6] or [rr.choice(names)]
    if w in ("vmap", "scan", "map"):
        st, pos = lanes_of(args, sub, others, e, rr)
        if e["fault"]:
            ctx.c["fault:corrupted_lane_" + e["fault"]] += e["lanes"] - 1

        def g(d):
            # the request's own lane is what the surrounding program passes in
            xs = {k: jnp.asarray(st[k]).astype(jnp.asarray(d[k]).dtype).at[pos].set(d[k]) for k in sub}
            if w == "vmap":
                out = jax.vmap(lambda x: F(dict(d, **x)))(xs)
            elif w == "map":
                out = jax.lax.map(lambda x: F(dict(d, **x)), xs)
            else:
                out = jax.lax.scan(lambda c, x: (c + 1, F(dict(d, **x))), 0, xs)[1]
            return jax.tree_util.tree_map(lambda o: o[pos], out)
        return g
    if w in ("jvp", "vjp"):
        fl = [k for k in names if not np.iscomplexobj(args[k])]
        fl = [k for k in fl if rr.random() < 0.6] or fl[:1]
        if not fl:
            return jax.jit(F)

        def g(d):
            h = lambda x: F(dict(d, **x))
            x = {k: jnp.asarray(d[k]) for k in fl}
            if w == "jvp":
                return jax.jvp(h, (x,), ({k: jnp.ones_like(v) for k, v in x.items()},))[0]
            return jax.vjp(h, x)[0]
        return g
    raise ValueError(w)


def execute(k, f, args, others, e, rr, ctx):
    jnp, np = base.jnp, base.np
    names = sorted(args)
    tr = [n for n in names if rr.random() < e["traced"]] or [rr.choice(names)]
    form = {"float": lambda v: v, "numpy": np.asarray, "jax": jnp.asarray}[e["form"]]
    const = {n: form(args[n]) for n in names if n not in tr}
    F = lambda d: tuple(f(**const, **d))
    sub = {n: args[n] for n in tr}
    for w in e["nest"]:
        if w in ("jvp", "vjp") and not k.smooth:
            w = "jit"
        F = wrap(F, w, sub, others, e, rr, ctx)
    d = {n: jnp.asarray(args[n]) for n in tr}
    return (lambda: F(d)), tr


def run(sc, ctx):
    import random
    np, jax, jnp = base.np, base.jax, base.jnp
    k = KERN()[sc["k"]]
    R = base.Replica()
    gone = []

    class Seen:                 # routines that are not there (renamed helpers) are not judged
        @staticmethod
        def get(m, n):
            g = R.get(m, n)
            if g is None:
                gone.append(n)
            return g
    f = None
    try:
        f = k.fn(Seen, sc["a"])
    except (TypeError, AttributeError):
        if not gone:
            raise
    if gone:
        f = None
    if f is None:
        ctx.c["not_available"] += 1
        return
    args = k.args(sc["a"])
    others = [k.args(o) for o in sc["others"]]
    others = [o for o in others if set(o) == set(args)] or [args]
    post = k.post or (lambda v: v)
    if k.heavy:         # the routine as a program calls it: compiled
        direct = lambda: jax.jit(lambda d: f(**d))({n: jnp.asarray(v) for n, v in args.items()})
    else:
        direct = lambda: f(**args)
    st, want = base.call(direct)
    if st != "ok":
        raise Bad("exception", "%s %s called directly: %s" % (k.name, brief(args), want))
    want = post(want)
    ctx.event(*[w.tobytes() for w in want])
    for i, e in enumerate(sc["ev"]):
        rr = random.Random(e["seed"])
        if "grad" in e:
            derivative(k, f, args, others, e, rr, ctx)
            continue
        who = "%s %s, execution %s with constants as %s" % (k.name, brief(args), "(".join(reversed(e["nest"])), e["form"])
        go, tr = execute(k, f, args, others, e, rr, ctx)
        who += ", traced %s, %d lanes%s" % (tr, e["lanes"], " (others %s)" % e["fault"] if e["fault"] else "")
        if e["cut"]:
            sched.instrument(base.SRC)
            with sched.Injector(e["cut"], MemoryError("injected")) as inj:
                st, v = base.callraw(go)
            if inj.where:
                ctx.c["fault:cut_while_traced"] += 1
                who += ", after it was cut short at %s" % inj.where
        st, v = base.call(go)
        ctx.c["executions"] += 1
        if st != "ok":
            raise Bad("exception", "%s: %s" % (who, v))
        v = post(v)
        ctx.event(*[x.tobytes() for x in v])
        compare(k, who, v, want)
        ctx.state(k.name, e["nest"], sorted(tr), e["form"], e["lanes"] > 1 and e["fault"], bool(e["cut"]))


def compare(k, who, v, want):
    np = base.np
    if len(v) != len(want):
        raise Bad("mode", "%s: %d results, directly %d" % (who, len(v), len(want)))
    for j, (x, y) in enumerate(zip(v, want)):
        if x.shape != y.shape:
            raise Bad("mode", "%s: result %d has shape %s, directly %s" % (who, j, x.shape, y.shape))
        fin = np.isfinite(y)
        sc = np.max(np.abs(y[fin])) if np.any(fin) else 1.0
        lim = k.atol * (1 + sc) + k.tol * (np.abs(y) + (1e-3 * sc if k.tol < 1e-3 else 0))
        bad = np.isfinite(x) != fin
        with np.errstate(all="ignore"):
            bad |= fin & ~(np.abs(x - y) <= lim)
        if np.any(bad):
            raise Bad("mode", "%s: result %d is %s, directly %s" % (who, j, base.short(x), base.short(y)))


def derivative(k, f, args, others, e, rr, ctx):
    """forward = reverse = the differences of the function itself, executed as planned"""
    import random
    np, jax, jnp = base.np, base.jax, base.jnp
    n = e["grad"]
    if n not in args:
        return
    x0 = np.asarray(args[n], float)
    if k.name.startswith("fast") and not np.all(args["u"]):
        return                  # the separation is a modulus: no derivative at zero
    t = np.array([rr.choice([-1.0, 1.0]) * rr.uniform(0.5, 1.0) for _ in range(max(1, x0.size))]).reshape(x0.shape) * (np.abs(x0) if k.name != "nll_general" else 1.0)
    if not np.any(t):
        t = np.ones_like(x0)
    rest = {m: v for m, v in args.items() if m != n}
    F = lambda d: tuple(f(**rest, **d))
    G = F
    for w in e["nest"]:
        if w != "none":
            G = wrap(G, w, {n: args[n]}, others, e, rr, ctx)
    who = "derivative of %s %s with respect to %s under %s (others %s)" % (k.name, brief(args), n, e["nest"], e["fault"])
    st, r0 = base.callraw(lambda: jax.jvp(lambda x: F({n: x}), (jnp.asarray(x0),), (jnp.asarray(t),)))
    if st != "ok":
        raise Bad("exception", "%s: directly: %s" % (who, r0))
    st, r1 = base.callraw(lambda: jax.jvp(lambda x: G({n: x}), (jnp.asarray(x0),), (jnp.asarray(t),)))
    if st != "ok":
        raise Bad("exception", "%s: %s" % (who, r1))
    ctx.c["executions"] += 1
    ctx.c["derivatives"] += 1
    y0, d0 = [base.norm(v) for v in r0]
    y1, d1 = [base.norm(v) for v in r1]
    compare(k, who + " (value)", y1, y0)
    sc = max(float(np.max(np.abs(d[np.isfinite(d)]), initial=0.0)) for d in d0)
    top = max(float(np.max(np.abs(y), initial=0.0)) for y in y0)
    if k.name.startswith("nll"):        # large terms that cancel
        s2 = args.get("s2", np.diag(args["C"]) if "C" in args else None)
        top += 1e-2 * float(np.sum(np.asarray(args["flux"]) ** 2 / s2))
    lim = 1e-5 * sc + 1e-8 * top + 1e-12
    for a, b in zip(d1, d0):
        if a.shape != b.shape or not np.all(np.abs(a - b) <= lim):
            raise Bad("derivative", "%s: forward derivative %s, directly %s" % (who, base.short(a), base.short(b)))
    # reverse
    cot = [np.array([rr.uniform(-1, 1) for _ in range(y.size)]).reshape(y.shape) for y in y0]
    real = all(not np.iscomplexobj(y) for y in y0)
    if real and e["nest"][0] != "while":
        st, vj = base.callraw(lambda: jax.vjp(lambda x: G({n: x}), jnp.asarray(x0))[1](tuple(jnp.asarray(c) for c in cot))[0])
        if st != "ok":
            raise Bad("exception", "%s: reverse mode: %s" % (who, vj))
        a, b = float(np.sum(np.asarray(vj) * t)), float(sum(np.sum(c * d) for c, d in zip(cot, d0)))
        if not abs(a - b) <= 1e-5 * (abs(b) + sc * sum(c.size for c in cot)) + 1e-8 * top:
            raise Bad("derivative", "%s: reverse mode gives %.9g, forward mode %.9g along the same direction" % (who, a, b))
    if not k.smooth:
        ctx.state(k.name, "grad", n, e["nest"], e["fault"])
        return
    # differences
    h = 1e-4
    vals = {}
    for m in (-2, -1, 1, 2):
        st, v = base.call(lambda: F({n: jnp.asarray(x0 + m * h * t)}))
        if st != "ok":
            return
        vals[m] = v
    for j, d in enumerate(d0):
        with np.errstate(all="ignore"):
            fd = (8 * (vals[1][j] - vals[-1][j]) - (vals[2][j] - vals[-2][j])) / (12 * h)
            lo = (vals[1][j] - vals[-1][j]) / (2 * h)
        good = np.isfinite(fd) & (np.abs(fd - lo) <= 1e-2 * np.abs(fd) + 1e-4 * sc)       # smooth enough for differences
        if np.any(good & ~(np.abs(d - fd) <= k.ftol * (np.abs(fd) + sc) + 1e-6 * top + 1e-7)):
            raise Bad("derivative", "%s: result %d: derivative %s, differences of the function %s" % (who, j, base.short(d), base.short(fd)))
    ctx.state(k.name, "grad", n, e["nest"], e["fault"])


def brief(a):
    return str({k: base.np.asarray(v).tolist() for k, v in a.items()})[:500]


def shrink(sc):
    for i in range(len(sc["ev"])):
        if len(sc["ev"]) > 1:
            yield dict(sc, ev=[sc["ev"][i]])
    for i, e in enumerate(sc["ev"]):
        def put(**kw):
            return dict(sc, ev=sc["ev"][:i] + [dict(e, **kw)] + sc["ev"][i + 1:])
        if "grad" not in e:
            if e["cut"]:
                yield put(cut=0)
            if len(e["nest"]) > 1:
                for j in range(len(e["nest"])):
                    yield put(nest=e["nest"][:j] + e["nest"][j + 1:])
            if e["nest"] != ["jit"]:
                yield put(nest=["jit"])
        if e["fault"]:
            yield put(fault=None)
        if e["lanes"] > 1:
            yield put(lanes=e["lanes"] - 1)
