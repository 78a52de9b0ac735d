"""C11: one bad epoch never contaminates the others, and batching is irrelevant.

A pipeline hands batches of epochs to the library.  The simulator corrupts a seeded subset
of the epochs (NaN, infinities, overflow, singular positions), and reorders, duplicates
and splits the batch; the epochs that were not touched must keep their values."""
import copy, math
import base
from base import Bad, cplx, tolist
import oracles as O
import ops

PROP = "C11"
TIERS = {"quick": 100, "thorough": 800}
EVAL = "epochs_compared"
RULE = ("one run = one routine with one lens/profile and a seeded sequence of deliveries of the same epochs: clean, "
        "with corrupted epochs, permuted, duplicated, reversed, split; non-trivial = an untouched epoch compared with "
        "its value in the clean batch; distinct = distinct (routine, corruption kinds, positions class, delivery form)")
MEASURE = "distinct (routine, corruption kind, corrupted position class, delivery form, refined/not) combinations"
REAL = ["all batch routines: point_source, poly_solver, multipole, inverse_ray.lightcurve, caustics.lightcurve, "
        "fastlens calculators, trajectory.parallax", "JAX/XLA"]
STUB = ["telemetry feed (corruption, reordering, duplication, splitting)"]
ASSUME = ["epochs are chosen where the value is well conditioned (change < 2 % within 1e-4)"]

POISON = ["nan", "inf", "-inf", "nanr", "nani", "huge", "1e300", "lens1", "lens2", "lens3", "zero", "tiny", "caustic"]
ROUT = ["mag_point_source1", "mag_point_source2", "mag_point_source3", "light_curve2", "light_curve3", "contour2", "contour1",
        "fast_np_disk", "fast_np_limb1", "fast_jax_disk", "fast_jax_limb2", "parallax", "poly", "hexadecapole", "lens_eq2", "lens_eq3",
        "image_tracking2"]
WEIGHT = [3, 5, 4, 5, 4, 2, 1.5, 3, 3, 2, 2, 3, 3, 3, 1, 1, 1.5]


def simtime(c):
    return "%d deliveries" % c.get("deliveries", 0)


def gen(r, tier, n):
    # static rotation of the compile-heavy routines over the workers, the rest weighted
    name = r.choices(ROUT, WEIGHT)[0]
    heavy = name in ("light_curve2", "light_curve3", "contour2", "contour1", "contour3")
    N = 8 if heavy else r.choice([4, 6, 9, 13])
    cases = []
    for _ in range({True: 3, False: 6}[heavy]):
        c = {}
        if name.startswith(("mag_point", "lens_eq", "image_tr")):
            nl = int(name[-1])
            p = ops.lens(r, nl)
            c = dict(p=p, w=ops.sources(r, nl, p, N) if not name.startswith("lens_eq") else
                     [[r.uniform(-2, 2), r.uniform(0.2, 2) * r.choice([-1, 1])] for _ in range(N)])
        elif name.startswith("light_curve"):
            nl = int(name[-1])
            a = ops.OPS[name].gen(r, N)
            p = {k: a[k] for k in a if k in ("s", "q", "q3", "r3", "psi")}
            c = dict(p=p, w=a["w"], rho=a["rho"], u1=a["u1"], chunk=r.choice([3, 4]))
        elif name.startswith("contour"):
            nl = int(name[-1])
            a = ops.OPS[name].gen(r, N)
            c = dict(p={k: a[k] for k in a if k in ("s", "q", "q3", "r3", "psi")}, w=a["w"], rho=a["rho"])
        elif name.startswith("fast"):
            c = ops.gen_fast(r, N)
            c["u"] = [x if x else 0.01 for x in c["u"]]
        elif name == "parallax":
            c = ops.gen_parallax(r, N)
        elif name == "poly":
            o = ops.OPS["poly_roots"]
            deg = None
            z = []
            while len(z) < N:
                a = o.gen(r)
                if deg in (None, len(a["z"])):
                    deg = len(a["z"])
                    z.append(a["z"])
            c = dict(z=z)
        elif name == "hexadecapole":
            nl = r.choice([2, 3])
            p = ops.lens(r, nl)
            c = dict(nl=nl, p=p, w=ops.sources(r, nl, p, N, near=0.3), rho=10 ** r.uniform(-3, -1.5), u1=r.choice([0.0, 0.5]))
        cases.append(dict(c, ev=gen_events(r, N, heavy)))
    return dict(name=name, N=N, cases=cases, x32=False)


def gen_events(r, N, heavy):
    ev = []
    for _ in range(3 if heavy else 5):
        k = r.choice(["poison", "poison", "poison", "poison", "perm", "dup", "rev", "split", "tail"])
        if k == "poison":
            m = r.choice([1, 1, 2, N // 2, N - 1])
            idx = sorted(r.sample(range(N), m))
            if r.random() < 0.3:
                idx = [0] if r.random() < 0.5 else [N - 1]
            one = r.choice(POISON)
            ev.append([k, idx, [one if r.random() < 0.6 else r.choice(POISON) for _ in idx]])
        elif k == "perm":
            o = list(range(N))
            r.shuffle(o)
            ev.append(["order", o])
        elif k == "dup":
            ev.append(["order", [r.randrange(N) for _ in range(N)]])
        elif k == "rev":
            ev.append(["order", list(range(N))[::-1]])
        elif k == "split":
            ev.append(["split", (N + 1) // 2 if heavy or r.random() < 0.5 else 1])
        else:
            ev.append(["order", list(range(N))[1:] + [0]])
    return ev


def poison_c(kind, p, nl, w, ca):
    nan, inf = float("nan"), float("inf")
    zl = O.lens_setup(nl, p)[0] + O.lens_setup(nl, p)[2] if nl > 1 else [0j]
    return {"nan": complex(nan, nan), "inf": complex(inf, 0), "-inf": complex(-inf, inf), "nanr": complex(nan, 0.1),
            "nani": complex(0.1, nan), "huge": 1e8 + 1e8j, "1e300": 1e300 - 1e300j, "lens1": complex(zl[0]),
            "lens2": complex(zl[-1]), "lens3": complex(zl[len(zl) // 2]), "zero": 0j, "tiny": 1e-300 + 0j,
            "caustic": complex(ca[len(ca) // 3])}[kind]


def poison_r(kind, x):
    nan, inf = float("nan"), float("inf")
    return {"nan": nan, "inf": inf, "-inf": -inf, "nanr": nan, "nani": nan, "huge": 1e8, "1e300": 1e300, "lens1": 0.0,
            "lens2": -x, "lens3": 0.0, "zero": 0.0, "tiny": 1e-300, "caustic": 1e-12}[kind]


class Routine:
    """epochs -> values with the epoch on the last axis"""
    def __init__(self, name, c, R):
        self.name, self.c, self.R = name, c, R
        self.tol = {"mag_point_source2": 1e-6, "mag_point_source3": 1e-4, "light_curve2": 1e-6, "light_curve3": 1e-6,
                    "contour2": 1e-5, "contour1": 1e-6, "poly": 1e-6, "hexadecapole": 1e-5, "image_tracking2": 1e-6}.get(name, 1e-8)
        self.atol = {"poly": 1e-6, "parallax": 1e-9}.get(name, 1e-9)
        if name.startswith("fast"):
            lib, kind = name.split("_")[1:]
            self.obj = ops.OPS[name].make(R, {})
            self.lib = lib
        if name == "parallax":
            self.state = ops.OPS["parallax"].state(R, c)

    def epochs(self):
        c = self.c
        if "w" in c:
            return cplx(c["w"])
        if "u" in c:
            return base.np.array(c["u"])
        if "t" in c:
            return base.np.array(c["t"])
        return [cplx(z) for z in c["z"]]

    def __call__(self, x):
        np, jnp, R, c = base.np, base.jnp, self.R, self.c
        n = self.name
        if n.startswith("mag_point"):
            return R.get("point_source", "mag_point_source")(jnp.asarray(x), nlenses=int(n[-1]), **c["p"])
        if n.startswith("lens_eq"):
            op = ops.OPS[n]
            d = op.mid(c["p"])
            z = jnp.asarray(x)
            return [R.get("point_source", "lens_eq")(z, nlenses=op.nl, **d), R.get("point_source", "lens_eq_det_jac")(z, nlenses=op.nl, **d)]
        if n == "image_tracking2":
            f = R.get("point_source", "_images_point_source_sequential")
            zl, e, xcm = O.lens_setup(2, c["p"])
            z, m = f(jnp.asarray(x) - xcm, nlenses=2, a=0.5 * c["p"]["s"], e1=c["p"]["q"] / (1 + c["p"]["q"]))
            z, m = np.asarray(z), np.asarray(m)
            with np.errstate(all="ignore"):
                return np.sum(np.where(m, 1 / np.abs(O.det_jac(z, zl, e)), 0), axis=0)
        if n.startswith("light_curve"):
            f = R.get("inverse_ray.lightcurve", "mag_binary" if n[-1] == "2" else "mag_triple")
            return f(jnp.asarray(x), c["rho"], u1=c["u1"], MAX_FULL_CALLS=len(x), chunk_size=c["chunk"], **ops.LCFG, **c["p"])
        if n.startswith("contour"):
            return R.get("caustics.lightcurve", "magnifications")(jnp.asarray(x), c["rho"], nlenses=int(n[-1]), npts_limb=200, **c["p"])
        if n.startswith("fast"):
            return self.obj.A(x if self.lib == "np" else jnp.asarray(x), c["rho"])
        if n == "parallax":
            return R.get("trajectory.parallax", "compute_parallax")(jnp.asarray(x), c["piEN"], c["piEE"], self.state)
        if n == "poly":
            co = np.stack([np.poly(z) if z is not None and np.all(np.isfinite(z)) else np.full(len(c["z"][0]) + 1, np.nan + 0j) for z in x])
            z = np.asarray(R.get("poly_solver", "poly_roots")(jnp.asarray(co)))
            with np.errstate(all="ignore"):
                return np.sort_complex(np.round(z, 7)).T
        if n == "hexadecapole":
            nl = c["nl"]
            zl, e, xcm = O.lens_setup(nl, c["p"])
            import c06
            d = c06.mid(nl, c["p"])
            ws = jnp.asarray(x) - xcm
            z, m = R.get("point_source", "_images_point_source")(ws, nlenses=nl, **d)
            return R.get("multipole", "mag_hexadecapole")(z, m, c["rho"], u1=c["u1"], nlenses=nl, **d)
        raise KeyError(n)

    def good_reference(self):
        """independent value per clean epoch, or None"""
        np, c, n = base.np, self.c, self.name
        if n.startswith("mag_point") or n == "image_tracking2":
            return [np.array([O.mag_ps_fast(w, int(n[-1]), c["p"]) for w in cplx(c["w"])])], {"1": 1e-8, "2": 1e-5, "3": 1e-3}[n[-1]]
        if n.startswith("fast"):
            prof = O.PROFILES[n.split("_")[2]]
            return None
        if n == "parallax":
            return ops.OPS["parallax"].expect(c), 1e-7
        return None


def finite_same(x, y):
    return None


def run(sc, ctx):
    np = base.np
    R = base.Replica()
    name = sc["name"]
    ctx.c["probe:routine_" + name] += 1
    for c in sc["cases"]:
        if name == "image_tracking2" and R.get("point_source", "_images_point_source_sequential") is None:
            continue
        if name == "hexadecapole" and (R.get("point_source", "_images_point_source") is None):
            continue
        st, f = base.callraw(lambda: Routine(name, c, R))
        if st != "ok":
            raise Bad("exception", "%s: setting up %s: %s" % (name, brief(c), f))
        x = f.epochs()
        N = len(x)

        def go(y, what):
            st, v = base.call(lambda: f(y))
            ctx.c["deliveries"] += 1
            if st != "ok":
                raise Bad("exception", "%s of %s epochs (%s): %s; %s" % (name, len(y), what, v, brief(c)))
            for k in v:
                if k.ndim == 0 or k.shape[-1] != len(y):
                    raise Bad("shape", "%s (%s): %d epochs in, shape %s out; %s" % (name, what, len(y), k.shape, brief(c)))
            return v
        clean = go(x, "clean")
        ctx.event([k.tobytes() for k in clean])
        ref = f.good_reference()
        if ref is not None:
            d = base.differ(clean, ref[0], ref[1], 1e-7)
            if d:
                raise Bad("value", "%s, clean batch: %s; %s" % (name, d, brief(c)))
        for e in c["ev"]:
            if e[0] == "poison":
                y = list(x) if name == "poly" else np.array(x)
                bad = [(i, k) for i, k in zip(e[1], e[2]) if i < N]
                if not bad or len(bad) == N:
                    continue
                for i, k in bad:
                    if name == "poly":
                        y[i] = None if k in ("nan", "inf", "-inf", "nanr", "nani") else np.zeros_like(x[i]) if k in ("zero", "lens1") else x[i] * {"huge": 1e8, "1e300": 1e40, "tiny": 1e-30}.get(k, 3.0)
                    elif "p" in c and "w" in c:
                        nl = c.get("nl", int(name[-1]) if name[-1].isdigit() else 2)
                        y[i] = poison_c(k, c["p"], nl, x[i], O.caustic_points(nl, c["p"], 12))
                    else:
                        y[i] = poison_r(k, x[i])
                    ctx.c["fault:" + k] += 1
                if name == "image_tracking2" and any(abs(v) > 1e9 and np.isfinite(v) for v in y):
                    # carried roots overflow only beyond any physical separation
                    continue
                if name == "poly" and all(v is None for v in y):
                    continue
                v = go(y, "epochs %s replaced by %s" % ([b[0] for b in bad], [b[1] for b in bad]))
                keep = [i for i in range(N) if i not in e[1]]
                ex = clean
                src = keep
                what = "epochs %s replaced by %s" % ([b[0] for b in bad], [b[1] for b in bad])
                got = [k[..., keep] for k in v]
                ctx.state(name, "poison", tuple(sorted(set(b[1] for b in bad))), min(bad)[0] == 0, max(bad)[0] == N - 1, len(bad) > 1)
            elif e[0] == "order":
                o = [i for i in e[1] if i < N]
                if not o:
                    continue
                y = [x[i] for i in o] if name == "poly" else np.array(x)[o]
                got = go(y, "reordered")
                src = o
                what = "delivered in order %s" % o
                ctx.c["fault:reordered"] += 1
                if len(set(o)) < len(o):
                    ctx.c["fault:duplicated"] += 1
                ctx.state(name, "order", len(set(o)) < len(o), o == list(range(N))[::-1])
            else:
                k = e[1]
                parts = []
                for i in range(0, N, k):
                    parts.append(go(x[i:i + k], "part"))
                got = [np.concatenate([p[j] for p in parts], axis=-1) for j in range(len(clean))]
                src = list(range(N))
                what = "delivered in parts of %d" % k
                ctx.c["fault:split"] += 1
                ctx.state(name, "split", k)
            ctx.event([k.tobytes() for k in got])
            ctx.c["epochs_compared"] += len(src)
            # a part is another compiled program: grid cells may flip at rounding level
            tol = 1e-2 if e[0] == "split" and name.startswith("light_curve") else f.tol
            d = base.differ(got, [k[..., src] for k in clean], tol, f.atol)
            if d:
                raise Bad("contamination", "%s: epochs kept %s; %s: %s; %s" % (name, src, what, d, brief(c)))


def brief(c):
    return str({k: v for k, v in c.items() if k != "ev"})[:700]


def shrink(sc):
    cs = sc["cases"]
    if len(cs) > 1:
        for c in cs:
            yield dict(sc, cases=[c])
        return
    c = cs[0]
    if len(c["ev"]) > 1:
        for e in c["ev"]:
            yield dict(sc, cases=[dict(c, ev=[e])])
        return
    for key in ("w", "u", "t", "z"):
        if key in c:
            m = len(c[key])
            for i in range(m):
                if m < 2:
                    break
                rest = c[key][:i] + c[key][i + 1:]
                ev = []
                for e in c["ev"]:
                    if e[0] == "poison":
                        pr = [(j if j < i else j - 1, k) for j, k in zip(e[1], e[2]) if j != i]
                        ev.append(["poison", [a for a, _ in pr], [b for _, b in pr]])
                    elif e[0] == "order":
                        ev.append(["order", [j if j < i else j - 1 for j in e[1] if j != i]])
                    else:
                        ev.append(e)
                yield dict(sc, cases=[dict(c, ev=ev, **{key: rest})])
