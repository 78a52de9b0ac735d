"""C07: contour magnification does not depend on its internal random jitter.

The library draws tiny perturbations from jax.random.  Here the generator is a seam: every
draw is delivered by the simulator through a host callback, so the same compiled program
can be run under any outcome of the draws - ordinary pseudo-random ones from many seeds,
and adversarial ones (all zero, all at one end of the range, alternating ends, one repeated
value, spikes).  Oracle: VBMicrolensing / quadrature, and agreement between outcomes."""
import copy, math, random, zlib
import base
from base import Bad, cplx, tolist
import oracles as O
import ops

PROP = "C07"
TIERS = {"quick": 110, "thorough": 800}
EVAL = "magnifications"
RULE = ("one run = one lens system, source size and profile, a few source positions (near caustics, on the lens axis, "
        "far away, symmetric) evaluated under 4-6 outcomes of the internal draws; non-trivial = a magnification compared "
        "with the true value and with the other outcomes; distinct = distinct (lenses, profile, kind of draws, "
        "caustic-distance class, radius class)")
MEASURE = "distinct (lenses, profile, draw kind, distance-to-caustic class, radius class)"
REAL = ["microjax.caustics (lightcurve, extended_source, integrate)", "microjax.point_source", "microjax.multipole", "JAX/XLA"]
STUB = ["jax.random.uniform / normal (host callback owned by the simulator)"]
ASSUME = ["npts_limb = 200, rho 0.006-0.1: accuracy 1 % uniform, 2 % limb-darkened",
          "triple lenses only two radii and more away from caustics (the contour code loses segments closer in)"]

CONF = [(2, 0), (3, 0), (2, 1), (1, 0), (2, 0), (3, 1), (2, 1), (1, 1)]
DRAWS = ["seed", "seed", "seed", "zero", "low", "high", "alternate", "repeat", "spike", "half"]
PLAN = {"kind": "seed", "x": 0}
HITS = {"n": 0}
_cache = {}


def simtime(c):
    return "%d magnifications under %d outcomes of the draws" % (c.get("magnifications", 0), c.get("outcomes", 0))


def unit(kind, x, key, shape):
    """values in [0, 1) for one request of the library"""
    np = base.np
    n = int(np.prod(shape)) if len(shape) else 1
    k = zlib.crc32(np.asarray(key).tobytes()) if kind == "seed" else 0
    if kind == "seed":
        v = np.random.default_rng([x, k, n]).random(n)
    elif kind == "zero":
        v = np.full(n, 0.5)              # the middle: no perturbation at all
    elif kind == "low":
        v = np.zeros(n)
    elif kind == "high":
        v = np.full(n, 1 - 2.0 ** -53)
    elif kind == "alternate":
        v = (np.arange(n) + x) % 2 * (1 - 2.0 ** -53)
    elif kind == "repeat":
        v = np.full(n, random.Random(x).random())
    elif kind == "spike":
        v = np.full(n, 0.5)
        v[random.Random(x).randrange(n)] = 1 - 2.0 ** -53
    else:
        v = np.where(np.arange(n) < n // 2, 0.0, 1 - 2.0 ** -53)
    return v.reshape(shape)


def install():
    import jax
    if getattr(jax.random.uniform, "_dst", False):
        return
    jax.config.update("jax_cpu_enable_async_dispatch", False)
    np, jnp = base.np, base.jnp
    real = jax.random.uniform

    def host(shape):
        def f(key):
            HITS["n"] += 1
            return unit(PLAN["kind"], PLAN["x"], key, shape).astype("float64")
        return f

    def draw(key, shape):
        shape = tuple(int(s) for s in shape)
        try:
            kd = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
        except Exception:
            kd = key
        return jax.pure_callback(host(shape), jax.ShapeDtypeStruct(shape, "float64"), kd, vmap_method="sequential")

    def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **k):
        u = draw(key, shape)
        return jnp.asarray(minval + (maxval - minval) * u, dtype=dtype)

    def normal(key, shape=(), dtype=float, **k):
        u = jnp.clip(draw(key, shape), 1e-6, 1 - 1e-6)
        return jnp.asarray(jax.scipy.special.ndtri(u), dtype=dtype)
    uniform._dst = True
    jax.random.uniform, jax.random.normal = uniform, normal


def gen(r, tier, n):
    nl, ld = CONF[n % 8]
    return dict(nl=nl, ld=ld, systems=[gen_system(r, nl, ld) for _ in range(3)],
                draws=[[k, r.randrange(10 ** 6)] for k in ["seed"] + r.sample(DRAWS, 3 if nl > 1 else 4)])


def gen_system(r, nl, ld):
    N = 4
    p = ops.lens(r, nl, -2.0)
    rho = 10 ** r.uniform(-2.2, -1.0)
    near = {1: 0.5, 2: 0.8, 3: 0.3}[nl]
    w = []
    while len(w) < N:
        k = r.random()
        if nl < 3 and k < 0.35:                  # close to or across a caustic
            ca = O.caustic_points(nl, p, 60) if nl > 1 else [0j]
            c = ca[r.randrange(len(ca))]
            d = rho * r.uniform(0.0, 2.5) * complex(math.cos(r.uniform(0, 6.3)), math.sin(r.uniform(0, 6.3)))
            w.append([c.real + d.real, c.imag + d.imag])
        elif nl == 2 and k < 0.45:               # symmetric positions
            w.append([r.uniform(-1, 1), 0.0])
        else:
            w.append(ops.sources(r, nl, p, 1, near=near, maxmag=60)[0])
    return dict(p=p, rho=rho, u1=r.uniform(0.1, 0.8) if ld else 0.0, w=w)


def run(sc, ctx):
    np = base.np
    install()
    if "R" not in _cache:
        _cache["R"] = base.Replica()
    f = _cache["R"].get("caustics.lightcurve", "magnifications")
    nl, ld = sc["nl"], sc["ld"]
    ctx.c["probe:lenses_%d%s" % (nl, "_dark" if ld else "")] += 1
    near = []
    for sy in sc["systems"]:
        near += system(f, nl, ld, sy, sc["draws"], ctx)
    off = [x for x in near if not x[0] < 0.03]
    if len(near) >= 8 and len(off) > max(3, 0.35 * len(near)):
        raise Bad("near_caustic", "%d of %d positions within two radii of a caustic miss the true magnification by more than 3 %%, e.g. %s" % (
            len(off), len(near), off[0][1]))


def system(f, nl, ld, sy, draws, ctx):
    np, jnp = base.np, base.jnp
    w = cplx(sy["w"])
    kw = dict(limb_darkening=True, u1=sy["u1"]) if ld else {}
    what = "%d-lens %s source, rho=%.5g %s" % (nl, "limb-darkened (u1=%.3f)" % sy["u1"] if ld else "uniform", sy["rho"], sy["p"])
    ca = O.caustic_points(nl, sy["p"], 900) if nl > 1 else np.array([0j])
    dist = np.array([np.abs(ca - x).min() for x in w]) / sy["rho"]
    far = dist > 2
    claim = far if nl == 3 else np.ones(len(w), bool)
    ref = ops.fs_reference(nl, dict(sy["p"], w=sy["w"], rho=sy["rho"], u1=sy["u1"])) if np.any(claim) else None
    first = None
    near = []
    for kind, x in draws:
        PLAN.update(kind=kind, x=x)
        h = HITS["n"]
        st, v = base.call(lambda: f(jnp.asarray(w), sy["rho"], nlenses=nl, npts_limb=200, **kw, **sy["p"]))
        ctx.c["outcomes"] += 1
        ctx.c["draw_requests"] += HITS["n"] - h
        ctx.c["fault:" + kind] += 1
        if st != "ok":
            raise Bad("exception", "%s under draws %s/%d: %s" % (what, kind, x, v))
        if len(v) != 1 or v[0].shape != w.shape:
            raise Bad("shape", "%s: shape %s for %d positions" % (what, v[0].shape, len(w)))
        v = np.real(v[0])
        ctx.event(kind, x, np.round(v, 9).tobytes())
        for i in range(len(w)):
            if not claim[i]:
                ctx.c["outside_claim"] += 1
                continue
            ctx.c["magnifications"] += 1
            ctx.state(nl, ld, kind, int(min(dist[i], 5)), int(math.log10(sy["rho"]) * 4))
            where = "%s at %s (%.2f radii from a caustic), draws %s/%d" % (what, sy["w"][i], dist[i], kind, x)
            if not np.isfinite(v[i]):
                raise Bad("nonfinite", "%s: %s" % (where, v[i]))
            strict = far[i] or nl == 1 and abs(dist[i] - 1) > 0.1     # limb not over the lens itself
            if ref is not None:
                e = abs(v[i] / ref[i] - 1)
                if strict and e > (0.02 if ld else 0.01):
                    raise Bad("value", "%s: %.8g, true %.8g" % (where, v[i], ref[i]))
                if not strict and first is None:
                    near.append((e, "%s: %.8g, true %.8g" % (where, v[i], ref[i])))
            if first is not None and abs(v[i] / first[i] - 1) > (0.003 if strict else 0.012):
                raise Bad("jitter", "%s: %.9g, under draws %s/%d %.9g" % (where, v[i], draws[0][0], draws[0][1], first[i]))
        if first is None:
            first = v
    return near


def shrink(sc):
    d = sc["draws"]
    if len(sc["systems"]) > 1:
        for sy in sc["systems"]:
            yield dict(sc, systems=[sy])
    if len(d) > 1:
        for k in range(len(d)):
            yield dict(sc, draws=d[:k] + d[k + 1:])
    # the number of positions is part of the compiled program: keep it, repeat one instead
    for j, sy in enumerate(sc["systems"]):
        w = sy["w"]
        if any(x != w[0] for x in w):
            for x in w:
                yield dict(sc, systems=sc["systems"][:j] + [dict(sy, w=[x] * len(w))] + sc["systems"][j + 1:])
    for i in range(len(d)):
        if d[i][0] != "zero":
            yield dict(sc, draws=d[:i] + [["zero", 0]] + d[i + 1:])
