"""C09: a parallax reference state is a complete, durable snapshot.

A survey server holds reference states for several targets and answers batches of epochs
that arrive split, reordered and duplicated.  Only saved states and acknowledged answers
survive a crash.  Oracle: an independent model of the orbit (numpy, bisection Kepler)."""
import json, copy, pickle
import base
from base import Bad
import oracles as O
import ops

PROP = "C09"
TIERS = {"quick": 70, "thorough": 720}
EVAL = "epochs"
RULE = ("one run = a seeded survey of 2-5 targets whose epochs are requested in batches (split, reordered, "
        "duplicated, scalar, compiled) while states are saved, restored, recreated and lost in crashes; non-trivial = "
        "an epoch answered and compared with the independent orbit model; distinct = distinct (call form, state "
        "provenance, batch-size class, element class, automatic/explicit anniversaries) combinations")
MEASURE = "distinct (form, provenance of the state, batch size class, orbital-element class) combinations"
REAL = ["microjax.trajectory.parallax", "JAX/XLA"]
STUB = ["durable store (in-memory, survives simulated crashes)", "request network (simulated queue)", "simulated clock"]
ASSUME = ["the velocity of the reference frame is the symmetric difference over the documented dt"]
OP = ops.OPS["parallax"]
ST = ("tref", "tperi", "tvernal", "RA", "Dec")
KW = ("rotaxis_deg", "ecc", "period", "dt")


def simtime(c):
    return "%.0f days of observation epochs" % c.get("days", 0)


def gen(r, tier, n):
    tg = []
    for i in range(r.choice([2, 3, 4, 5])):
        a = ops.gen_parallax(r, r.choice([3, 6, 10, 16]))
        if tg and r.random() < 0.5:         # a near twin of an earlier target
            b = copy.deepcopy(r.choice(tg))
            OP.mutate_key(r, b, r.choice([k for k in OP.keys if k != "t"]))
            b["t"] = a["t"] if r.random() < 0.3 else b["t"]
            a = b
        if r.random() < 0.2:
            a["tvernal" if r.random() < 0.5 else "tperi"] = 0.0     # one missing anniversary
        a["t"] = [float(x) for x in a["t"]]
        tg.append(a)
    ev = []
    for _ in range(r.choice([8, 14, 24])):
        i = r.randrange(len(tg))
        k = r.choice(["get", "get", "get", "get", "new", "save", "restore", "crash", "evict"])
        if k == "get":
            m = len(tg[i]["t"])
            idx = [r.randrange(m) for _ in range(r.choice([1, 2, m, m, 2 * m]))]
            ev.append(["get", i, idx, r.choice(["eager", "eager", "numpy", "jit", "jitstate", "scalar", "vmap", "list"])])
        else:
            ev.append([k, i])
    for i, a in enumerate(tg):
        ev.append(["get", i, list(range(len(a["t"]))), "eager"])
    return dict(targets=tg, events=ev)


def _np_state(st):
    return tuple(base.np.array(x) for x in st)


def run(sc, ctx):
    np, jnp, jax = base.np, base.jnp, base.jax
    R = base.Replica()
    tg = sc["targets"]
    mem, disk = {}, {}
    prov = {}
    want = []
    for a in tg:
        want.append(OP.expect(a))
    answers = {}

    def make(i):
        a = tg[i]
        st, v = base.callraw(lambda: OP.state(R, a))
        if st != "ok":
            raise Bad("exception", "set_parallax(%s): %s" % (a, v))
        mem[i] = v
        prov[i] = "made"

    for e in sc["events"]:
        k, i = e[0], e[1]
        if i >= len(tg):
            continue
        a = tg[i]
        if k == "crash":
            mem.clear()
            R = base.Replica()
            ctx.c["fault:crash_restart"] += 1
        elif k == "evict":
            mem.pop(i, None)
            ctx.c["fault:state_evicted"] += 1
        elif k == "new":
            make(i)
            ctx.c["states_made"] += 1
        elif k == "save":
            if i not in mem:
                make(i)
            try:
                disk[i] = pickle.dumps(_np_state(mem[i]))
            except Exception as x:
                raise Bad("exception", "saving the state: %s: %s" % (type(x).__name__, x))
            ctx.c["states_saved"] += 1
        elif k == "restore":
            if i in disk:
                mem[i] = pickle.loads(disk[i])
                prov[i] = "restored"
                ctx.c["fault:restored_from_disk"] += 1
        elif k == "get":
            if i not in mem:
                if i in disk:
                    mem[i] = pickle.loads(disk[i])
                    prov[i] = "restored"
                    ctx.c["fault:restored_from_disk"] += 1
                else:
                    make(i)
            idx, form = e[2], e[3]
            t = np.array(a["t"])[idx]
            f = R.get("trajectory.parallax", "compute_parallax")
            pn, pe = a["piEN"], a["piEE"]
            st = mem[i]
            if form == "eager":
                fn = lambda: f(jnp.asarray(t), pn, pe, st)
            elif form == "numpy":
                fn = lambda: f(t, pn, pe, st)
            elif form == "list":
                fn = lambda: [jnp.concatenate([jnp.atleast_1d(f(jnp.asarray(t[j:j + 1]), pn, pe, st)[c]) for j in range(len(t))]) for c in (0, 1)]
            elif form == "jit":
                fn = lambda: jax.jit(lambda tt: f(tt, pn, pe, st))(jnp.asarray(t))
            elif form == "jitstate":
                fn = lambda: jax.jit(lambda tt, a1, a2, s: f(tt, a1, a2, s))(jnp.asarray(t), pn, pe, st)
            elif form == "scalar":
                t = t[:3]
                idx = idx[:3]
                fn = lambda: [jnp.concatenate([jnp.atleast_1d(f(float(x), pn, pe, st)[c]).reshape(-1) for x in t]) for c in (0, 1)]
            else:
                fn = lambda: [x.reshape(-1) for x in jax.vmap(lambda x: f(x, pn, pe, st))(jnp.asarray(t))]
            s, v = base.call(fn)
            ctx.c["probe:form_" + form] += 1
            if s != "ok":
                raise Bad("exception", "compute_parallax (%s, %s state) of %s: %s" % (form, prov[i], a, v))
            ctx.event(i, form, [x.tobytes() for x in v])
            ctx.c["epochs"] += len(t)
            ctx.c["days"] += float(np.max(t) - np.min(t)) if len(t) else 0
            el = "default" if (a["ecc"], a["rotaxis_deg"], a["period"], a["dt"]) == (0.0167, 23.44, 365.25636, 0.1) else "other"
            ctx.state(form, prov[i], min(len(t), 12) // 3, el, a["tperi"] == 0, a["tvernal"] == 0)
            d = base.differ(v, [w[idx] for w in want[i]], 1e-7, 1e-8)
            if d:
                raise Bad("offset", "target %d (%s call, %s state, epochs %s): %s; target %s" % (
                    i, form, prov[i], [round(float(x), 3) for x in t[:6]], d, a))
            for j, n_, m_ in zip(idx, v[0], v[1]):
                o = answers.setdefault((i, j), (n_, m_))
                if abs(o[0] - n_) > 1e-8 * (1 + abs(n_)) or abs(o[1] - m_) > 1e-8 * (1 + abs(m_)):
                    raise Bad("offset", "target %d epoch %d answered differently at different times: %s then %s" % (i, j, o, (n_, m_)))
    # automatic anniversaries do not depend on the date convention
    f = R.get("trajectory.parallax", "peri_vernal")
    if f is not None:
        for a in tg[:2]:
            for off in (0.0, 2450000.0):
                s, v = base.call(lambda: f(a["tref"] + off))
                j = int(np.argmin(np.abs(np.array(O.PERIS) - a["tref"])))
                if s != "ok" or base.differ(v, [np.array(O.PERIS[j]), np.array(O.VERNS[j])], 1e-9, 1e-6):
                    raise Bad("anniversary", "peri_vernal(%r): %s, expected %s, %s" % (a["tref"] + off, v, O.PERIS[j], O.VERNS[j]))


def shrink(sc):
    ev = sc["events"]
    n = len(ev)
    for k in (n // 2, n // 4, 1):
        if k < 1:
            continue
        for i in range(0, n, k):
            e2 = ev[:i] + ev[i + k:]
            if e2:
                yield dict(sc, events=e2)
    for j, e in enumerate(ev):
        if e[0] == "get" and len(e[2]) > 1:
            yield dict(sc, events=ev[:j] + [["get", e[1], e[2][:1], e[3]]] + ev[j + 1:])
            yield dict(sc, events=ev[:j] + [["get", e[1], e[2][-1:], e[3]]] + ev[j + 1:])
        if e[0] == "get" and e[3] != "eager":
            yield dict(sc, events=ev[:j] + [["get", e[1], e[2], "eager"]] + ev[j + 1:])
    for i, a in enumerate(sc["targets"]):
        for k in a:
            if k != "t" and round(a[k], 1) != a[k]:
                t2 = copy.deepcopy(sc["targets"])
                t2[i][k] = round(a[k], 1)
                if t2[i][k]:
                    yield dict(sc, targets=t2)
