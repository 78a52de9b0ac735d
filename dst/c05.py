"""C05: refinement budget and batch size never change which value a point gets.

A fitting program runs the adaptive light-curve routines with whatever budget and batch
size its accelerator allows, and retries with smaller batches when an allocation fails.
The simulator chooses trajectories, budgets, batch sizes, allocation failures (injected
while the routine is being traced) and the way the routine is called.  Oracles: the pure
multipole and the pure finite-source evaluation of every point by itself, and the true
extended-source magnification (VBMicrolensing)."""
import copy, math, zlib
import base, sched
from base import Bad, cplx
import oracles as O
import ops

PROP = "C05"
TIERS = {"quick": 110, "thorough": 800}
EVAL = "points"
RULE = ("one run = one lens order, profile and solver configuration, 3-5 (budget, batch size) choices and 6-16 lens "
        "systems with trajectories mixing near- and far-caustic, repeated and planetary-caustic positions; a value is "
        "non-trivial when it is compared with the value its position must carry; distinct = distinct (lenses, profile, "
        "points, budget, batch, number of failing points) combinations")
MEASURE = "distinct (lenses, profile, n, budget class, chunk class, k failing, call form)"
REAL = ["microjax.inverse_ray (lightcurve, extended_source, merge_area, boundary, cond_extended, limb_darkening)",
        "microjax.multipole", "microjax.point_source", "JAX/XLA CPU"]
STUB = ["memory allocator (MemoryError at a seeded library line during tracing)"]
ASSUME = ["VBMicrolensing gives the true value to 0.3 %",
          "single refined positions may carry the integrator's own error (resolution 120): accuracy is judged over a run"]


def simtime(c):
    return "%d light-curve calls" % c.get("calls", 0)


def gen(r, tier, n):
    # compile-heavy: lens order and profile follow the run number so that every worker meets all of them
    m = n // 8 + n % 8
    nl = 3 if m % 3 == 2 else 2
    u1 = [0.0, 0.5][(m // 3) % 2] if r.random() < 0.9 else r.choice([0.2, 0.9])
    N = r.choice([5, 7, 8, 11, 13]) if nl == 2 else r.choice([4, 5, 7])
    conf = []
    for _ in range(3 if nl == 2 else 2):
        B = r.choice([1, 2, 3, N - 1, N, N + 4, 500]) if r.random() < 0.8 else r.randint(1, N)
        chunk = r.choice([1, 2, 3, 4, N - 1, N, N + 3])
        conf.append(dict(B=B, chunk=chunk, oom=r.randint(1, 160) if r.random() < 0.35 else 0,
                         form=r.choice(["jax", "jax", "numpy", "outer_jit", "kw32"]) if nl == 2 else r.choice(["jax", "numpy"])))
    conf.append(dict(B=N, chunk=r.choice([1, 2, 3, N]), oom=0, form="jax"))
    st = {}
    if r.random() < 0.4:
        st = dict(r.choice([{"bins_r": 35}, {"bins_th": 80}, {"margin_r": 1.6}, {"margin_th": 2.5}, {"Nlimb": 230},
                            {"r_resolution": 90}, {"th_resolution": 90}, {"delta_c": 0.05} if u1 else {"Nlimb": 110},
                            {"delta_c": 0.1} if u1 else {"th_resolution": 150}]))
    cases = []
    for _ in range(14 if nl == 2 else 5):
        p = ops.lens(r, nl, r.choice([-4, -2, -1.5]))
        rho = 10 ** r.uniform(-2.5, -0.8)
        w = ops.sources(r, nl, p, N, near=r.choice([0.0, 0.3, 0.6, 0.9, 1.0]), maxmag=100, spread=r.choice([0.7, 2.0, 5.0]))
        if r.random() < 0.2 and N > 2:
            w[r.randrange(N)] = list(w[r.randrange(N)])
        cases.append(dict(p=p, rho=rho, w=w))
    return dict(nl=nl, u1=u1, N=N, conf=conf, st=st, cases=cases)


def kind(sc):
    return "%d lenses, u1=%s, %s" % (sc["nl"], sc["u1"], sc["st"] or "default solver settings")


def run(sc, ctx):
    np, jnp, jax = base.np, base.jnp, base.jax
    nl, u1, N = sc["nl"], sc["u1"], sc["N"]
    R = base.Replica()
    f = R.get("inverse_ray.lightcurve", "mag_binary" if nl == 2 else "mag_triple")
    g = R.get("inverse_ray.extended_source", "mag_uniform" if u1 == 0 else "mag_limb_dark")
    kw = dict(ops.LCFG, u1=u1, **{k: v for k, v in sc["st"].items() if k not in ops.LCFG})
    kw.update({k: v for k, v in sc["st"].items() if k in ops.LCFG})
    gk = dict(margin_r=1.0, margin_th=1.0)
    gk.update(kw)
    if u1 == 0:
        gk.pop("u1")
        gk.pop("delta_c", None)
    ctx.c["probe:lenses_%d" % nl] += 1
    if u1:
        ctx.c["probe:limb_darkened"] += 1
    each = jax.jit(lambda w, rho, p: jax.lax.map(lambda x: g(x, rho, nlenses=nl, **gk, **p), w))
    multi = None
    hexa, imf = R.get("multipole", "mag_hexadecapole"), R.get("point_source", "_images_point_source")
    if hexa is not None and imf is not None:
        def mp(w, rho, p):
            a = 0.5 * p["s"]
            d = dict(a=a, e1=p["q"] / (1 + p["q"])) if nl == 2 else dict(
                a=a, e1=p["q"] / (1 + p["q"] + p["q3"]), e2=1 / (1 + p["q"] + p["q3"]), r3=p["r3"], psi=p["psi"])
            z, m = imf(w - a * (1 - p["q"]) / (1 + p["q"]), nlenses=nl, **d)
            return hexa(z, m, rho, u1=u1, nlenses=nl, **d)[0]
        multi = jax.jit(mp)

    def go(c, B, chunk, form="jax", what=""):
        w = cplx(c["w"])
        p = c["p"]
        if form == "outer_jit":
            h = jax.jit(lambda w, rho, p: f(w, rho, MAX_FULL_CALLS=B, chunk_size=chunk, **kw, **p))
            fn = lambda: h(jnp.asarray(w), c["rho"], p)
        elif form == "numpy":
            fn = lambda: f(w, c["rho"], MAX_FULL_CALLS=B, chunk_size=chunk, **kw, **p)
        elif form == "kw32":
            fn = lambda: f(w_points=jnp.asarray(w), rho=jnp.asarray(c["rho"]), MAX_FULL_CALLS=B, chunk_size=chunk, **kw,
                           **{k: jnp.asarray(v) for k, v in p.items()})
        else:
            fn = lambda: f(jnp.asarray(w), c["rho"], MAX_FULL_CALLS=B, chunk_size=chunk, **kw, **p)
        st, v = base.call(fn)
        ctx.c["calls"] += 1
        if st != "ok":
            raise Bad("exception", "%s, budget %d, batch %d, %d points%s: %s" % (kind(sc), B, chunk, N, what, v))
        if len(v) != 1 or v[0].shape != (len(w),):
            raise Bad("shape", "%s, budget %d, batch %d: shape %s for %d points" % (kind(sc), B, chunk, [x.shape for x in v], len(w)))
        return v[0].real

    def same(v, e, want, c, B, chunk, k, note=""):
        """every point within the grid-flip tolerance of the value it must carry"""
        d = np.abs(v - e) / np.abs(e)
        d[~np.isfinite(v)] = np.inf
        ctx.c["points"] += len(e)
        tiny = 1e-6 if nl == 2 else 1e-4
        loose[0] += int(np.sum(d > tiny))
        loose[1] += len(e)
        for i in np.where((d > (1e-3 if nl == 2 else 4e-3)) & (d < 0.3))[0]:
            if want[i] == "full" and near_tie(v[i], c, int(i)):
                d[i] = 0.0
        if np.any(d > (1e-3 if nl == 2 else 4e-3)):
            i = int(np.argmax(d))
            raise Bad("assignment", "%s; budget %s, batch %s, %d points, failing points %s%s: point %d must carry its %s value %.9g, has %.9g; %s" % (
                kind(sc), B, chunk, len(e), k, note, i, want[i], e[i], v[i], brief(c)))

    def near_tie(v, c, i):
        """the polar regions of a position can hang on the last digit (regions that just touch, images
        listed in another order): v is then one of the values found at a distance of 1e-14..1e-10"""
        w = cplx(c["w"])
        rr = np.random.default_rng(zlib.crc32(repr(c["w"][i]).encode()))
        nb = []
        while len(nb) < 64:
            x = w[i] + 10.0 ** rr.uniform(-14, -10, len(w)) * np.exp(2j * np.pi * rr.uniform(size=len(w)))
            st, d = base.call(lambda: each(jnp.asarray(x), c["rho"], c["p"]))
            if st != "ok":
                return False
            nb += list(d[0].real)
        nb = np.array(nb)
        if not np.all(np.isfinite(nb)):
            return False
        lo, hi = nb.min(), nb.max()
        m = 0.25 * (hi - lo) + 1e-6 * abs(v)
        ctx.c["probe:regions_at_a_tie"] += 1
        return lo - m <= v <= hi + m

    loose = [0, 0]
    known = []                   # per case: (multipole, full, failing)
    acc = []
    for c in sc["cases"]:
        m0 = go(c, 0, 2)
        w = jnp.asarray(cplx(c["w"]))
        st, d = base.call(lambda: each(w, c["rho"], c["p"]))
        if st != "ok":
            raise Bad("exception", "%s, direct evaluation: %s" % (kind(sc), d))
        d = d[0].real
        full = go(c, len(c["w"]), 2)
        fail = np.ones(len(m0), bool) if nl == 3 else np.abs(full - m0) > 1e-9 * np.abs(m0)
        ctx.event(m0.tobytes(), full.tobytes())
        ctx.c["failing_points"] += int(fail.sum())
        ctx.c["accepted_points"] += int((~fail).sum())
        idx = [int(i) for i in np.where(fail)[0]]
        want = ["full" if x else "multipole" for x in fail]
        same(full, np.where(fail, d, m0), want, c, len(c["w"]), 2, idx, " (against direct evaluation)")
        if multi is not None:
            st, mm = base.call(lambda: multi(w, c["rho"], c["p"]))
            if st == "ok":
                same(m0, mm[0].real, ["multipole"] * len(m0), c, 0, 2, idx, " (against direct evaluation)")
        known.append((m0, full, idx, want))
        if not sc["st"]:
            tr = ops.fs_reference(nl, dict(c["p"], w=c["w"], rho=c["rho"], u1=u1))
            if tr is not None:
                err = np.abs(full / tr - 1)
                acc += [(float(e), bool(x)) for e, x in zip(err, fail)]
                for i in range(len(err)):
                    if not fail[i] and not err[i] < 0.06:
                        raise Bad("accuracy", "%s: point %d %s is left at its multipole value %.6g, true %.6g; %s" % (
                            kind(sc), i, c["w"][i], full[i], tr[i], brief(c)))
    bad = [e for e, x in acc if not e < 0.08]
    if len(acc) >= 20 and len(bad) > 3 + 0.08 * len(acc):
        raise Bad("accuracy", "%s: %d of %d points with full budget miss the true extended-source value by more than 8 %% (e.g. %s)" % (
            kind(sc), len(bad), len(acc), ["%.3g" % e for e in bad[:5]]))
    for q in sc["conf"]:
        B, chunk = q["B"], max(1, q["chunk"])
        note = ""
        if q["oom"]:
            sched.instrument(base.SRC)
            c = sc["cases"][0]
            with sched.Injector(q["oom"], MemoryError("simulated allocation failure")) as I:
                st, v = base.call(lambda: f(jnp.asarray(cplx(c["w"])), c["rho"], MAX_FULL_CALLS=B, chunk_size=chunk, **kw, **c["p"]))
            if I.where:
                ctx.c["fault:allocation_failure"] += 1
                note = " after an allocation failure at %s" % I.where
                if st == "exc" and not v.startswith("MemoryError") and "simulated" not in v:
                    ctx.c["masked_errors"] += 1
                chunk2 = max(1, chunk // 2)
            else:
                chunk2 = chunk
        else:
            chunk2 = chunk
        for c, (m0, full, idx, want) in zip(sc["cases"], known):
            if len(m0) != len(c["w"]):
                continue
            v = go(c, B, chunk2, q["form"], note)
            ctx.event(v.tobytes())
            e = m0.copy()
            e[idx[:B]] = full[idx[:B]]
            wt = ["full" if i in idx[:B] else "multipole" for i in range(len(e))]
            same(v, e, wt, c, B, chunk2, idx, note)
            ctx.state(nl, u1, len(e), B if B <= len(e) else "over", chunk2 if chunk2 <= len(e) else "over", len(idx), q["form"], bool(note))
            if B < len(idx):
                ctx.c["probe:budget_exhausted"] += 1
            if chunk2 > min(B, len(e)) or min(B, len(e)) % chunk2:
                ctx.c["probe:batch_padded"] += 1
    if loose[0] > 3 + 0.25 * loose[1]:
        raise Bad("assignment", "%s: %d of %d values differ from the value their position must carry beyond rounding" % (
            kind(sc), loose[0], loose[1]))


def brief(c):
    return str(c)[:600]


def shrink(sc):
    if sc["conf"]:
        yield dict(sc, conf=[])
    if len(sc["conf"]) > 1:
        for q in sc["conf"]:
            yield dict(sc, conf=[q])
    cs = sc["cases"]
    if len(cs) > 1:
        for c in cs:
            yield dict(sc, cases=[c])
        yield dict(sc, cases=cs[:len(cs) // 2])
        yield dict(sc, cases=cs[len(cs) // 2:])
    for i, q in enumerate(sc["conf"]):
        if q["oom"]:
            yield dict(sc, conf=sc["conf"][:i] + [dict(q, oom=0)] + sc["conf"][i + 1:])
        if q["form"] != "jax":
            yield dict(sc, conf=sc["conf"][:i] + [dict(q, form="jax")] + sc["conf"][i + 1:])
    if sc["N"] > 2:
        for i in range(sc["N"]):
            yield dict(sc, N=sc["N"] - 1, cases=[dict(c, w=c["w"][:i] + c["w"][i + 1:]) for c in cs])
