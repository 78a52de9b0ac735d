"""C01: overlapping callers do not disturb each other.

Several client threads of one process use the library at the same time, on cold and warm
compilation caches, with shared calculators, shared reference states and shared input
arrays.  The simulator parks every thread and releases one at a time: at every library
source line the seeded scheduler decides who runs next (dst/sched.py).  Afterwards every
answer is compared with the answer of the same call made alone and with an independent
reference."""
import copy, contextlib
import base, sched
from base import Bad
import oracles as O
import ops

PROP = "C01"
TIERS = {"quick": 110, "thorough": 800}
EVAL = "calls"
RULE = ("one run = 1-6 rounds on one replica (cold, then warm); one round = 2-3 client threads with 1-4 requests each, drawn "
        "from a small pool of requests (equal, nearly equal and different arguments) and executed under a seeded schedule of library source lines; non-trivial = an answer "
        "of a thread that was preempted or overlapped with another inside the library; distinct = distinct (source "
        "line, thread switched to) pairs and distinct request mixes")
MEASURE = "distinct preemption points (function, source line, next thread) and request mixes"
REAL = ["all of microjax's Python code, on real threads", "JAX tracing and compilation", "NumPy/SciPy"]
STUB = ["thread scheduler (sys.monitoring yield points, one running thread)", "client programs"]
ASSUME = ["preemption happens at library source lines; switches inside C code of JAX/NumPy/XLA are not explored"]

LIGHT = ["ephemeris", "utilities", "poly_roots_init", "fast_np_disk", "fast_np_limb1", "fast_np_limb2", "parallax", "nll_diag", "nll_general", "linear_fit", "special_functions",
         "lens_eq1", "lens_eq2", "lens_eq3", "poly_roots", "fftlog_np"]
MID = ["mag_point_source1", "mag_point_source2", "mag_point_source3", "critical_curves2", "critical_curves3", "image_tracking2",
       "fast_jax_disk", "fast_jax_limb1", "fast_jax_limb2", "fast_jax_mdisk", "grad_point_source2", "grad_parallax", "grad_nll", "hexadecapole1", "hexadecapole2", "hexadecapole3", "fftlog_jax"]
HEAVY = ["inverse_ray2", "inverse_ray2_ld", "inverse_ray3", "light_curve2", "contour2", "contour1", "contour1_ld", "contour2_ld", "light_curve3", "extended_source2_ld"]
PREC = ["float32", "highest", "high", "default"]


def simtime(c):
    return "%d scheduler steps" % c.get("yield_points", 0)


def gen(r, tier, n):
    k = r.random()
    T = r.choice([2, 2, 2, 3])
    if k < 0.62:
        names = [r.choice(LIGHT) for _ in range(r.choice([1, 1, 2]))]
        nround = r.choice([2, 4, 6])
    elif k < 0.95:
        names = [r.choice(MID if r.random() < 0.7 else LIGHT) for _ in range(r.choice([1, 1, 2]))]
        nround = r.choice([1, 2, 4])
    else:
        names = [r.choice(HEAVY)]
        T, nround = 2, r.choice([1, 2])
    pool = []
    for nm in names:
        op = ops.OPS[nm]
        a = op.gen(r)
        pool.append([nm, a])
        if r.random() < 0.8:
            b, key = op.mutate(r, a)
            if op.cost == 3 and key in ("u1", "npts"):
                b = a
            pool.append([nm, b])
    heavy = k >= 0.95
    shared = r.random() < 0.6
    rounds = []
    for _ in range(nround):
        def job():
            m = 1 if heavy else r.choice([1, 2, 2, 4]) if k < 0.62 else r.choice([1, 1, 2])
            # a request may use the shared calculator / state, or make its own while others run
            return [[r.randrange(len(pool)), int(shared and r.random() < 0.6)] for _ in range(m)]
        j = job()
        jobs = [j if r.random() < 0.5 else job() for _ in range(T)]
        rounds.append(dict(jobs=jobs, before=[r.randrange(len(pool))] if r.random() < 0.5 and not heavy else [],
                           sched=dict(seed=r.randrange(10 ** 9), p=r.choice([0.01, 0.05, 0.2, 0.5, 0.8]), burst=r.choice([0, 0, 12]))))
    return dict(pool=pool, rounds=rounds, shared=shared, arrays=r.random() < 0.5, ctx=r.random() < 0.8,
                warm=r.random() < 0.15)


def run(sc, ctx):
    R = base.Replica()
    pool = sc["pool"]
    live = [ops.OPS[nm].available(R) for nm, _ in pool]
    shared = {}
    if sc["shared"]:
        for i, (nm, a) in enumerate(pool):
            op = ops.OPS[nm]
            key = op.objkey(a) and (nm, op.objkey(a))
            if key and key not in shared:
                st, shared[key] = base.callraw(lambda: op.new(R, a))
                if st != "ok":
                    raise Bad("exception", "%s: setting up a shared object: %s" % (nm, shared[key]))

    def do(i, use_shared=True):
        nm, a = pool[i]
        op = ops.OPS[nm]
        key = op.objkey(a) and (nm, op.objkey(a))
        if use_shared and key in shared:
            return base.call(lambda: op.call(R, a, shared[key]))
        return base.call(lambda: op.call(R, a))

    if sc.get("warm"):
        for i in range(len(pool)):
            if live[i]:
                do(i)
    ops.SHARE = {} if sc.get("arrays") else None
    if ops.SHARE is not None:           # every input array exists before the threads start
        for nm, a in pool:
            for v in a.values():
                if isinstance(v, list) and v and not isinstance(v[0], str):
                    ops.J(v)
    sched.instrument(base.SRC)
    jax = base.jax
    mix = [pool[i][0] for rd in sc["rounds"] for js in rd["jobs"] for i, _ in js]
    ctx.state("mix", tuple(sorted(set(mix))), len(sc["rounds"]), sc["shared"], sc["ctx"])
    alone = {}

    def client(t, js):
        def go():
            cm = jax.default_matmul_precision(PREC[t]) if sc["ctx"] else contextlib.nullcontext()
            with cm:
                return [do(i, bool(sh)) if live[i] else None for i, sh in js]
        return go

    plans = []

    def overlap(rd):
        for i in rd["before"]:
            if live[i]:
                do(i, False)
        s = rd["sched"]
        S = sched.Scheduler(s["seed"], s["p"], plan=s.get("plan"), burst=s["burst"])
        try:
            res = S.run([client(t, js) for t, js in enumerate(rd["jobs"])])
        except sched.Deadlock as d:
            raise Bad("deadlock", "%s; requests %s" % (d, [[pool[i][0] for i, _ in js] for js in rd["jobs"]]))
        finally:
            plans.append(S.switches[:4000])
        ctx.c["yield_points"] += S.n
        ctx.c["rounds"] += 1
        ctx.c["fault:preemption"] += len(S.switches)
        ctx.c["lock_handovers"] += S.stalls
        for sw in S.cover:
            ctx.state("sw", *sw)
        ctx.event(S.switches)
        return res

    def judge(rd, res):
        for t, (js, r) in enumerate(zip(rd["jobs"], res)):
            if r[0] != "ok":
                raise Bad("exception", "thread %d: %s" % (t, r[1]))
            for (i, sh), v in zip(js, r[1]):
                if v is None:
                    continue
                nm, a = pool[i]
                op = ops.OPS[nm]
                ctx.c["calls"] += 1
                if i not in alone:
                    alone[i] = do(i, False)
                who = "%s %s in thread %d of %d%s" % (nm, str(a)[:400], t, len(rd["jobs"]), ", shared objects" if sh else "")
                if v[0] != alone[i][0]:
                    raise Bad("outcome", "%s: %s %s; alone: %s" % (who, v[0], v[1] if v[0] == "exc" else "", alone[i][1] if alone[i][0] == "exc" else "ok"))
                if v[0] == "exc":
                    raise Bad("exception", "%s: %s" % (who, v[1]))
                ctx.event(v[1][0].tobytes())
                m = op.check(a, v[1])
                if m:
                    raise Bad("value", "%s: %s" % (who, m))
                d = base.differ(v[1], alone[i][1], max(op.selftol, 1e-8) * 10, 1e-9)
                if d:
                    raise Bad("value", "%s: differs from the same call made alone: %s" % (who, d))

    try:
        for rd in sc["rounds"]:
            arrays = ops.SHARE
            res = overlap(rd)
            ops.SHARE = None
            judge(rd, res)
            ops.SHARE = arrays
        ops.SHARE = None
        # what the concurrent phase left behind: a few calls on a fresh replica must agree
        todo = [i for i in alone if pool[i][0].startswith(("inverse_ray", "light_curve", "contour", "extended"))]
        if todo:
            R = base.Replica()
            for i in todo:
                nm, a = pool[i]
                op = ops.OPS[nm]
                w = base.call(lambda: op.call(R, a))
                d = base.differ(alone[i][1], w[1], 1e-6, 1e-9) if w[0] == "ok" else w[1]
                if d:
                    raise Bad("value", "%s %s after overlapping calls differs from a fresh process: %s" % (nm, str(a)[:300], d))
    except Bad as b:
        b.extra["plan"] = plans
        raise
    finally:
        ops.SHARE = None


def with_plan(sc, plans):
    rs = [dict(rd, sched=dict(rd["sched"], plan=p)) for rd, p in zip(sc["rounds"], plans)]
    return dict(sc, rounds=rs + sc["rounds"][len(rs):])


def shrink(sc):
    rs = sc["rounds"]

    def put(k, rd):
        return dict(sc, rounds=rs[:k] + [rd] + rs[k + 1:])
    if len(rs) > 1:
        yield dict(sc, rounds=rs[-1:])
        yield dict(sc, rounds=rs[:1])
        for k in range(len(rs)):
            yield dict(sc, rounds=rs[:k] + rs[k + 1:])
    for k, rd in enumerate(rs):
        js = rd["jobs"]
        if rd["before"]:
            yield put(k, dict(rd, before=[]))
        for t in range(len(js)):
            if len(js) > 2:
                yield put(k, dict(rd, jobs=js[:t] + js[t + 1:]))
            for m in range(len(js[t])):
                if len(js[t]) > 1:
                    yield put(k, dict(rd, jobs=js[:t] + [js[t][:m] + js[t][m + 1:]] + js[t + 1:]))
    for k in ("arrays", "ctx", "shared", "warm"):
        if sc.get(k):
            yield dict(sc, **{k: False})
    for k, rd in enumerate(rs):
        if rd["sched"].get("plan"):
            for c in sched.shrink_plan(rd, "sched"):
                yield put(k, c)
        else:
            for p in (0.01, 0.05):
                if rd["sched"]["p"] > p:
                    yield put(k, dict(rd, sched=dict(rd["sched"], p=p)))
    for i, (nm, a) in enumerate(sc["pool"]):
        for k, v in a.items():
            if isinstance(v, list) and len(v) > 1 and not nm.startswith(("nll", "linear", "poly", "light")):
                yield dict(sc, pool=sc["pool"][:i] + [[nm, dict(a, **{k: v[:1]})]] + sc["pool"][i + 1:])
