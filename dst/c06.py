"""C06: image tracking finds every image, whatever the path or starting guess.

The simulated system is the root tracker, a state machine whose state is the set of
carried roots.  The simulator owns the path (jumps, reversals, repeats, caustic
crossings, axis motion) and the fault injection on the carried state: stale, reordered,
perturbed, partly corrupted guesses, and crash/resume in the middle of a path.
"""
import math
import base
from base import Bad, cplx, tolist
import oracles as O
import ops

PROP = "C06"
TIERS = {"quick": 75, "thorough": 780}
EVAL = "epochs"
RULE = ("one run = one lens, one seeded adversarial source path (or critical-curve sweep) and one sequence of "
        "faults on the carried roots; non-trivial = an epoch whose image set was compared with the complete set "
        "of an independent solver; distinct = distinct (move kind, fault kind, number of true images before and "
        "after, side of the axis) transitions")
MEASURE = "distinct (move, fault, images before, images after, axis relation, lens class) transitions"
REAL = ["microjax.point_source image solver, sequential tracker, critical/caustic curves", "microjax.poly_solver",
        "microjax.coeffs", "microjax.utils.match_points", "caustics.extended_source.limb limb tracker", "JAX/XLA"]
STUB = ["process crash/restart (module reload)", "carried root state (owned by the simulator between epochs)"]
ASSUME = ["the reference solver (numpy companion-matrix roots, Newton-polished on the lens equation) is complete",
          "epochs with an image at |det J| < 2e-3 (on a caustic) are not compared"]


def simtime(c):
    return "%d tracked epochs" % c.get("epochs", 0)


MOVES = ["step", "step", "jump", "repeat", "reverse", "axis", "axis", "cross", "near", "lensaxis", "conj", "far", "tiny", "onlens"]
FAULTS = ["stale", "permute", "perturb", "corrupt_one", "corrupt_two", "far", "other_lens", "conj", "axis_all", "reset"]


def gen_path(r, nl, p, n):
    w = [complex(r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2))]
    kinds = ["start"]
    ca = O.caustic_points(nl, p, 36)
    if r.random() < 0.3:
        w[0] = complex(w[0].real, 0.0)
    while len(w) < n:
        k = r.choice(MOVES)
        c = w[-1]
        if k == "step":
            x = c + 10 ** r.uniform(-3, -0.7) * complex(r.gauss(0, 1), r.gauss(0, 1))
        elif k == "jump":
            x = complex(r.uniform(-2, 2), r.uniform(-2, 2))
        elif k == "repeat":
            x = c
        elif k == "reverse":
            x = w[max(0, len(w) - r.choice([2, 3]))]
        elif k == "axis":
            x = complex(r.uniform(-1.5, 1.5) if r.random() < 0.5 else c.real + r.gauss(0, 0.1), 0.0)
        elif k == "cross":
            q = ca[r.randrange(len(ca))]
            x = q + (q - c) / max(abs(q - c), 1e-9) * 10 ** r.uniform(-2.5, -0.7)
        elif k == "near":
            x = ca[r.randrange(len(ca))] + 10 ** r.uniform(-2.7, -1) * complex(r.gauss(0, 1), r.gauss(0, 1))
        elif k == "lensaxis":
            x = complex(c.real, r.choice([0.0, 1e-12, -1e-9, 1e-6, -1e-4]))
        elif k == "conj":
            x = c.conjugate()
        elif k == "onlens":
            zl, _, xcm = O.lens_setup(nl, p)
            x = complex(zl[r.randrange(len(zl))] + xcm)
        elif k == "far":
            x = complex(r.uniform(-1, 1), r.uniform(-1, 1)) * r.choice([5, 30])
        else:
            x = c + 10 ** r.uniform(-9, -4) * complex(r.gauss(0, 1), r.gauss(0, 1))
        w.append(x)
        kinds.append(k)
    return [[float(x.real), float(x.imag)] for x in w], kinds


def gen(r, tier, n):
    mode = r.choices(["track", "guess", "limb", "critical", "mag"], [5, 5, 1, 3, 2])[0]
    nl = 2 if mode in ("guess", "limb") else r.choice([2, 2, 3])
    if mode == "track" and r.random() < 0.1:
        nl = 1
    cases = []
    for _ in range({"track": 24, "guess": 24, "limb": 4, "critical": 5, "mag": 20}[mode]):
        p = ops.lens(r, nl, -4.0 if nl == 2 and mode != "critical" else -2.0)
        if r.random() < 0.15 and nl > 1:
            p["s"] = 1.0
        if r.random() < 0.15 and nl > 1:
            p["q"] = 1.0
        c = dict(p=p)
        if mode in ("track", "mag"):
            c["w"], c["moves"] = gen_path(r, nl, p, 12)
        elif mode == "guess":
            c["w"], c["moves"] = gen_path(r, nl, p, 8)
            c["faults"] = [[r.choice(FAULTS), r.randrange(10 ** 6)] for _ in c["w"]]
        elif mode == "limb":
            c["w"] = ops.sources(r, 2, p, 1, near=0.8, maxmag=300)
            if r.random() < 0.4:
                c["w"][0][1] = 0.0
            c["rho"] = 10 ** r.uniform(-3, -1)
        else:
            c["npts"] = 24
        cases.append(c)
    return dict(mode=mode, nl=nl, cases=cases, crash=r.random() < 0.3)


def mid(nl, p):
    if nl == 1:
        return {}
    d = dict(a=0.5 * p["s"])
    if nl == 2:
        d.update(e1=p["q"] / (1 + p["q"]))
    else:
        t = 1 + p["q"] + p["q3"]
        d.update(e1=p["q"] / t, e2=1 / t, r3=p["r3"], psi=p["psi"])
    return d


def compare(nl, p, w, z, mask, ctx, where):
    """images z[mask] of source w (public frame) against the complete reference set"""
    np = base.np
    zl, e, xcm = O.lens_setup(nl, p)
    if min(abs(w - xcm - zi) for zi in zl) < 1e-6:
        ctx.c["probe:source_on_lens"] += 1      # degenerate polynomial: only the epochs around it count
        return None
    ref, _, _ = O.images(w, nl, p)
    if nl > 1 and len(ref) not in ({2: (3, 5), 3: (4, 6, 8, 10)}[nl]):
        ctx.c["skipped_reference"] += 1
        return None
    d = np.abs(O.det_jac(ref, zl, e))
    lim = {1: 1e-9, 2: 2e-3, 3: 2e-2}[nl]
    mag = 1 / d
    if d.min() < lim or near_fold(w, nl, p, len(ref)):
        ctx.c["skipped_on_caustic"] += 1
        return None
    if nl > 1 and min(abs(x - y) for i, x in enumerate(ref) for y in ref[:i]) < 1e-4:
        ctx.c["skipped_close"] += 1
        return None
    got = z[mask]
    # an image of negligible magnification on top of a lens may or may not be resolved
    faint = 1 / d < {1: 1e-14, 2: 1e-7, 3: 1e-4}[nl]
    if faint.any():
        ctx.c["probe:image_on_lens"] += 1
        got = np.array([x for x in got if not (np.isfinite(x) and
                        min(abs(x - y) for y in ref[faint]) < (1e-4 if nl == 2 else 3e-3))])
        ref = ref[~faint]
    tol = {1: 1e-9, 2: 1e-5, 3: 3e-3}[nl]
    ctx.c["epochs"] += 1
    if not np.all(np.isfinite(got)):
        raise Bad("image", "%s: non-finite image %s" % (where, base.short(got)))
    if len(got) != len(ref):
        raise Bad("image", "%s: %d images reported, %d exist: %s vs %s" % (
            where, len(got), len(ref), base.short(got, 10), base.short(ref, 10)))
    D = np.abs(got[:, None] - ref[None, :])
    j = D.argmin(1)
    if len(set(j.tolist())) != len(ref) or D.min(1).max() > tol * (1 + np.abs(ref).max()):
        raise Bad("image", "%s: images %s, true set %s (distance %.2g)" % (
            where, base.short(got, 10), base.short(ref, 10), D.min(1).max()))
    return len(ref)


def near_fold(w, nl, p, k):
    if nl == 1:
        return False
    h = 2e-4 if nl == 2 else 3e-3
    for d in (h, -h, h * 1j, -h * 1j):
        if len(O.images(w + d, nl, p)[0]) != k:
            return True
    return False


def run(sc, ctx):
    np, jnp = base.np, base.jnp
    R = base.Replica()
    nl = sc["nl"]
    mode = sc["mode"]
    ctx.c["probe:mode_" + mode] += 1
    for ci, c in enumerate(sc["cases"]):
        p = c["p"]
        if sc["crash"] and ci == len(sc["cases"]) // 2:
            R = base.Replica()
            ctx.c["fault:restart"] += 1
        zl, e, xcm = O.lens_setup(nl, p)
        if mode == "critical":
            st, v = base.call(lambda: R.get("point_source", "critical_and_caustic_curves")(npts=c["npts"], nlenses=nl, **p))
            if st != "ok":
                raise Bad("exception", "critical_and_caustic_curves(%s): %s" % (p, v))
            m = ops.check_critical(nl, p, v, c["npts"])
            ctx.event(m, [x.tobytes() for x in v])
            ctx.c["epochs"] += c["npts"]
            ctx.state("crit", nl, round(math.log10(p["q"])), round(p["s"], 1))
            if m:
                raise Bad("critical", "critical_and_caustic_curves(%s): %s" % (p, m))
            continue
        w = cplx(c["w"])
        if mode == "limb":
            run_limb(R, c, p, w[0], ctx)
            continue
        if mode == "mag":
            # the public magnification along the path: every epoch complete
            st, v = base.call(lambda: R.get("point_source", "mag_point_source")(jnp.asarray(w), nlenses=nl, **p))
            if st != "ok":
                raise Bad("exception", "mag_point_source(%s): %s" % (p, v))
            v = v[0]
            for i in range(len(w)):
                if min(abs(w[i] - xcm - zi) for zi in zl) < 1e-6:
                    continue
                ref, _, _ = O.images(w[i], nl, p)
                if nl > 1 and len(ref) not in {2: (3, 5), 3: (4, 6, 8, 10)}[nl]:
                    continue
                d = np.abs(O.det_jac(ref, zl, e))
                if d.min() < {1: 0, 2: 2e-3, 3: 2e-2}[nl] or near_fold(w[i], nl, p, len(ref)):
                    continue
                if nl > 1 and min(abs(x - y) for k, x in enumerate(ref) for y in ref[:k]) < 1e-4:
                    continue
                t = float(np.sum(1 / d))
                ctx.c["epochs"] += 1
                ctx.state("mag", nl, c["moves"][i], len(ref), w[i].imag == 0)
                if not abs(v[i] - t) <= {1: 1e-9, 2: 1e-5, 3: 1e-3}[nl] * t + 1e-7:
                    raise Bad("magnification", "mag_point_source epoch %d of %s, w=%s: %.9g, the complete image set gives %.9g" % (
                        i, p, w[i], v[i], t))
            ctx.event(v.tobytes())
            continue
        f = R.get("point_source", "_images_point_source_sequential")
        g = R.get("point_source", "_images_point_source")
        if f is None or g is None:
            ctx.c["skipped_no_tracker"] += 1
            continue
        ws = w - xcm
        if mode == "track":
            st, v = base.call(lambda: f(jnp.asarray(ws), nlenses=nl, **mid(nl, p)))
            if st != "ok":
                raise Bad("exception", "tracking %s: %s" % (p, v))
            z, mk = v[0], v[1].astype(bool)
            if z.shape != mk.shape or z.shape[1] != len(w):
                raise Bad("shape", "tracking %d epochs returned %s / %s" % (len(w), z.shape, mk.shape))
            ctx.event(z.tobytes(), mk.tobytes())
            prev = 0
            for i in range(len(w)):
                k = compare(nl, p, w[i], z[:, i], mk[:, i], ctx,
                            "epoch %d (%s) of a path through lens %s, w=%s" % (i, c["moves"][i], p, w[i]))
                if k:
                    ctx.state("track", nl, c["moves"][i], prev, k, w[i].imag == 0, w[i - 1].imag == 0 if i else None)
                    if prev and k != prev:
                        ctx.c["probe:caustic_crossing"] += 1
                    if w[i].imag == 0:
                        ctx.c["probe:on_axis"] += 1
                    prev = k
                ctx.c["fault:path_" + c["moves"][i]] += 1
            continue
        # guess: the simulator keeps the carried roots and damages them before each use
        import random
        hist = []
        for i in range(len(w)):
            kind, sd = c["faults"][i]
            rr = random.Random(sd)
            if not hist:
                st, v = base.call(lambda: g(jnp.asarray(ws[i:i + 1]), nlenses=2, **mid(nl, p)))
                kind = "first"
            else:
                z0 = np.array(hist[-1])
                if kind == "stale":
                    z0 = np.array(hist[rr.randrange(len(hist))])
                elif kind == "permute":
                    o = list(range(len(z0)))
                    rr.shuffle(o)
                    z0 = z0[o]
                elif kind == "perturb":
                    s = 10 ** rr.uniform(-8, 0)
                    z0 = z0 + s * np.array([complex(rr.gauss(0, 1), rr.gauss(0, 1)) for _ in z0])
                elif kind in ("corrupt_one", "corrupt_two"):
                    for j in rr.sample(range(len(z0)), 1 if kind == "corrupt_one" else 2):
                        z0[j] = complex(rr.uniform(-3, 3), rr.uniform(-3, 3)) * rr.choice([0.1, 1, 3])
                elif kind == "far":
                    z0 = z0 * rr.choice([2, 5, 0.2])
                elif kind == "conj":
                    z0 = np.conj(z0)
                elif kind == "other_lens":
                    z0 = np.array([complex(rr.uniform(-2, 2), rr.uniform(-2, 2)) for _ in z0])
                elif kind == "axis_all":
                    z0 = z0 + 1e-3j * np.exp(1j * np.arange(len(z0)))
                elif kind == "reset":
                    z0 = 1.5 * np.exp(2j * np.pi * (np.arange(len(z0)) + rr.random()) / len(z0))
                # guesses must be mutually distinct and not all on the axis (see properties.jsonl)
                mins = min(abs(x - y) for a, x in enumerate(z0) for y in z0[:a])
                if mins < 1e-6 or np.max(np.abs(z0.imag)) < 1e-6 or abs(w[i].imag) < 1e-7:
                    z0 = z0 + 1e-3j * np.exp(1j * np.arange(len(z0)))
                st, v = base.call(lambda: g(jnp.asarray(ws[i:i + 1]), nlenses=2, custom_init=True,
                                            z_init=jnp.asarray(z0)[None, :], **mid(nl, p)))
                ctx.c["fault:guess_" + kind] += 1
            if st != "ok":
                raise Bad("exception", "images from guess (%s): %s" % (kind, v))
            z, mk = v[0][:, 0], v[1][:, 0].astype(bool)
            ctx.event(kind, z.tobytes())
            k = compare(nl, p, w[i], z, mk, ctx, "epoch %d, guess fault %s, lens %s, w=%s" % (i, kind, p, w[i]))
            if k:
                ctx.state("guess", kind, c["moves"][i], k, w[i].imag == 0)
            if np.all(np.isfinite(z)):
                hist.append(z)


def run_limb(R, c, p, w0, ctx):
    """images carried round a source limb: every sampled point complete"""
    np, jnp = base.np, base.jnp
    f = R.get("point_source", "_images_point_source_sequential")
    if f is None:
        ctx.c["skipped_no_tracker"] += 1
        return
    zl, e, xcm = O.lens_setup(2, p)
    th = np.linspace(-np.pi, np.pi, 40)
    w = w0 + c["rho"] * np.exp(1j * th)
    st, v = base.call(lambda: f(jnp.asarray(w - xcm), nlenses=2, **mid(2, p)))
    if st != "ok":
        raise Bad("exception", "limb tracking %s: %s" % (p, v))
    z, mk = v[0], v[1].astype(bool)
    ctx.event(z.tobytes())
    for i in range(len(w)):
        k = compare(2, p, w[i], z[:, i], mk[:, i], ctx, "limb angle %.3f, rho=%.4g, centre %s, lens %s" % (th[i], c["rho"], w0, p))
        if k:
            ctx.state("limb", k, int(i / 5), round(math.log10(c["rho"])))


def shrink(sc):
    cs = sc["cases"]
    n = len(cs)
    if n > 1:
        for i in range(n):
            yield dict(sc, cases=[cs[i]])
    if sc["crash"]:
        yield dict(sc, crash=False)
    if n == 1:
        c = cs[0]
        if "w" in c and len(c["w"]) > 1:
            m = len(c["w"])
            for a, b in [(m // 2, m), (0, m // 2)] + [(i, i + 1) for i in range(m)]:
                d = dict(c)
                for k in ("w", "moves", "faults"):
                    if k in d:
                        d[k] = d[k][:a] + d[k][b:]
                if d["w"]:
                    yield dict(sc, cases=[d])
        if c.get("npts", 0) > 8:
            yield dict(sc, cases=[dict(c, npts=8)])
        for k in c["p"]:
            for dg in (1, 2, 3):
                v = round(c["p"][k], dg)
                if v and v != c["p"][k]:
                    yield dict(sc, cases=[dict(c, p=dict(c["p"], **{k: v}))])
                    break
        if "w" in c:
            w = [[round(x, 3), round(y, 3)] for x, y in c["w"]]
            if w != c["w"]:
                yield dict(sc, cases=[dict(c, w=w)])
