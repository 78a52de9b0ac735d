"""C08: finite-source calculators serve any mix of requests and instances.

Several clients send requests to a pool of calculator instances.  The simulator owns the
order of requests, the lifetime of the instances (created, copied, saved/restored,
discarded, whole process restarted) and, in threaded runs, every switch between client
threads.  Oracle: Gauss quadrature of the uniform / limb-darkened disk."""
import copy, pickle, math
import base, sched
from base import Bad
import oracles as O
import ops

PROP = "C08"
TIERS = {"quick": 80, "thorough": 780}
EVAL = "values"
RULE = ("one run = a seeded pool of calculators (library, profile, configuration) and a seeded sequence of requests "
        "(sizes 1-60, repeated/negative/zero separations, radii on both sides of the small-source switch) mixed with "
        "creation, copying, saving, discarding and restarts, or 2-3 client threads on shared instances under the "
        "deterministic scheduler; non-trivial = a magnification compared with the quadrature oracle; distinct = "
        "distinct (instance kind, config, provenance, request-size class, radius regime, predecessor request kind)")
MEASURE = "distinct (library, profile, config, provenance, size class, radius regime, previous instance kind) + thread interleavings"
REAL = ["microjax.fastlens (mag_fft, mag_fft_jax, fftlog, fftlog_jax, special)", "numpy/scipy FFT", "JAX/XLA"]
STUB = ["client threads parked and released one at a time (sys.monitoring yield points)", "request queue", "saved-instance store"]
ASSUME = ["accuracy 0.8 % (NumPy), 3 % for JAX below rho = 2e-3, absolute error ~1 inside the documented small-source approximation"]


def simtime(c):
    return "%d requests" % c.get("requests", 0)


def gen_req(r, rho_lo=-5):
    if r.random() < 0.1:
        a = ops.gen_fast(r, 60, rho_lo)
        a["u"] = a["u"][:12] * 5
    else:
        a = ops.gen_fast(r, None, rho_lo)
    if r.random() < 0.15 and len(a["u"]) > 1:
        a["u"][-1] = a["u"][0]
    if r.random() < 0.1:
        a["u"][0] = 0.0
    if r.random() < 0.2:
        a["rho"] = 1e-4 * r.choice([0.5, 0.999, 1.0, 1.001, 2.0]) if rho_lo < -3 else a["rho"]
    return a


def gen(r, tier, n):
    thr = r.random() < 0.3
    inst = []
    for _ in range(r.choice([2, 3, 4])):
        lib = "np" if thr or r.random() < 0.6 else "jax"
        kind = r.choice(["disk", "limb1", "limb2"] + (["mdisk"] if lib == "jax" else []))
        inst.append([lib, kind, r.choice(ops.FFT_CFGS + [{"rho_switch": 1e-3, "u_switch": 20}]) if kind != "mdisk" else {}])
    ev = []
    for _ in range(r.choice([6, 10, 16])):
        i = r.randrange(len(inst))
        k = r.choices(["req", "fresh", "copy", "save", "drop", "restart", "twin"], [12, 1, 1, 1, 1, 0.5, 1])[0]
        if k == "req":
            ev.append(["req", i, gen_req(r, -3 if inst[i][1] == "mdisk" else -5), r.choice(["array", "array", "scalar", "list", "jit"])])
        else:
            ev.append([k, i])
    ev.append(["req", 0, gen_req(r, -3 if inst[0][1] == "mdisk" else -5), "array"])
    sc = dict(inst=inst, events=ev)
    if thr:
        sc["threads"] = r.choice([2, 2, 3])
        sc["sched"] = dict(seed=r.randrange(10 ** 9), p=r.choice([0.02, 0.1, 0.3, 0.6]), burst=r.choice([0, 12]))
        sc["events"] = [e for e in ev if e[0] == "req"] or [ev[-1]]
    return sc


def ask(R, obj, spec, a, form):
    lib, kind, cfg = spec
    u = base.np.array(a["u"])
    rho = a["rho"]
    if form == "scalar":
        return [base.np.concatenate([base.np.atleast_1d(base.np.asarray(obj.A(float(x) if lib == "np" else base.jnp.asarray([x]), rho))) for x in u[:4]])]
    if form == "list" and lib == "np":
        return [base.np.asarray(obj.A(u[::-1], rho))[::-1]]
    if form == "jit" and lib == "jax":
        return [base.np.asarray(base.jax.jit(lambda x: obj.A(x, rho))(base.jnp.asarray(u)))]
    return [base.np.asarray(obj.A(u if lib == "np" else base.jnp.asarray(u), rho))]


def judge(spec, a, v, form, what, ctx):
    np = base.np
    op = ops.OPS["fast_%s_%s" % (spec[0], spec[1])]
    b = dict(a, cfg=spec[2])
    if form == "scalar":
        b["u"] = b["u"][:4]
    uniq = sorted(set(b["u"]))
    ref = dict(zip(uniq, op.expect(dict(b, u=uniq))[0]))
    e = [np.array([ref[x] for x in b["u"]])]
    op2 = op.__class__(spec[0], spec[1])
    op2.expect = lambda _: e
    m = op2.check(b, v)
    ctx.c["values"] += len(b["u"])
    ctx.c["requests"] += 1
    if a["rho"] < spec[2].get("rho_switch", 1e-4):
        ctx.c["probe:small_source_branch"] += 1
    if 0.0 in b["u"]:
        ctx.c["probe:zero_separation"] += 1
    if m:
        raise Bad("magnification", "%s calculator %s%s, %s, rho=%.6g u=%s: %s" % (
            spec[0], spec[1], spec[2], what, a["rho"], ["%.5g" % x for x in b["u"][:8]], m))


def run(sc, ctx):
    R = base.Replica()
    inst = sc["inst"]
    if sc.get("threads"):
        return run_threads(sc, ctx, R)
    pool, saved, prov = {}, {}, {}
    prev = "-"

    def make(i):
        lib, kind, cfg = inst[i]
        st, o = base.callraw(lambda: ops.OPS["fast_%s_%s" % (lib, kind)].make(R, dict(cfg)))
        if st != "ok":
            raise Bad("exception", "creating %s: %s" % (inst[i], o))
        return o

    for e in sc["events"]:
        k, i = e[0], e[1]
        if i >= len(inst):
            continue
        if k == "restart":
            R = base.Replica()
            pool.clear()
            prov.clear()
            ctx.c["fault:restart"] += 1
            continue
        if k == "drop":
            pool.pop(i, None)
            ctx.c["fault:instance_discarded"] += 1
            continue
        if i not in pool:
            if i in saved:
                pool[i] = copy.deepcopy(saved[i]) if not isinstance(saved[i], bytes) else pickle.loads(saved[i])
                prov[i] = "restored"
                ctx.c["fault:restored"] += 1
            else:
                pool[i] = make(i)
                prov[i] = "made"
        if k == "fresh":
            pool[i] = make(i)
            prov[i] = "made"
        elif k == "twin":
            make(i)                      # another instance of the same kind comes and goes
            ctx.c["fault:twin_created"] += 1
        elif k == "copy":
            try:
                pool[i] = copy.deepcopy(pool[i])
                prov[i] = "copied"
                ctx.c["fault:copied"] += 1
            except Exception as x:
                ctx.c["copy_refused"] += 1
        elif k == "save":
            try:
                saved[i] = pickle.dumps(pool[i])
                ctx.c["pickled"] += 1
            except Exception:
                try:
                    saved[i] = copy.deepcopy(pool[i])
                    ctx.c["saved_by_copy"] += 1
                except Exception:
                    pass
        elif k == "req":
            a, form = e[2], e[3]
            st, v = base.call(lambda: ask(R, pool[i], inst[i], a, form))
            if st != "ok":
                raise Bad("exception", "%s request %s (%s): %s" % (inst[i], a, form, v))
            ctx.event(i, v[0].tobytes())
            ctx.state(inst[i][0], inst[i][1], str(inst[i][2]), prov[i], min(len(a["u"]), 9), int(math.log10(a["rho"])), form, prev)
            prev = inst[i][0] + inst[i][1]
            judge(inst[i], a, v, form, "%s instance, %s request" % (prov[i], form), ctx)


def run_threads(sc, ctx, R):
    inst = sc["inst"]
    objs = []
    for lib, kind, cfg in inst:
        st, o = base.callraw(lambda: ops.OPS["fast_%s_%s" % (lib, kind)].make(R, dict(cfg)))
        if st != "ok":
            raise Bad("exception", "creating %s: %s" % ((lib, kind, cfg), o))
        objs.append(o)
    T = sc["threads"]
    jobs = [[e for j, e in enumerate(sc["events"]) if j % T == t and e[1] < len(inst)] for t in range(T)]
    sched.instrument(base.SRC)

    def client(js):
        def go():
            return [ask(R, objs[e[1]], inst[e[1]], e[2], "array") for e in js]
        return go
    s = sc["sched"]
    S = sched.Scheduler(s["seed"], s["p"], plan=s.get("plan"), burst=s["burst"])
    try:
        res = S.run([client(j) for j in jobs])
    except sched.Deadlock as d:
        raise Bad("deadlock", str(d))
    ctx.c["threaded_runs"] += 1
    ctx.c["yield_points"] += S.n
    ctx.c["fault:preemption"] += len(S.switches)
    for sw in S.cover:
        ctx.state("sw", *sw)
    ctx.event(S.switches)
    try:
        for js, r in zip(jobs, res):
            if r[0] != "ok":
                raise Bad("exception", "client thread: %s" % r[1])
            for e, v in zip(js, r[1]):
                ctx.event(v[0].tobytes())
                judge(inst[e[1]], e[2], v, "array", "shared by %d threads" % T, ctx)
    except Bad as b:
        b.extra["plan"] = S.switches[:4000]
        raise


def with_plan(sc, plan):
    return dict(sc, sched=dict(sc["sched"], plan=plan))


def shrink(sc):
    ev = sc["events"]
    n = len(ev)
    if n > 1:
        for k in (n // 2, n // 4, 1):
            if k >= 1:
                for i in range(0, n, k):
                    if ev[:i] + ev[i + k:]:
                        yield dict(sc, events=ev[:i] + ev[i + k:])
    if sc.get("threads") and sc["sched"].get("plan"):
        yield from sched.shrink_plan(sc, "sched")
    elif sc.get("threads"):
        if sc["threads"] > 2:
            yield dict(sc, threads=2)
        s = sc["sched"]
        for p in (0.02, 0.1):
            if s["p"] > p:
                yield dict(sc, sched=dict(s, p=p))
    for j, e in enumerate(ev):
        if e[0] == "req":
            if len(e[2]["u"]) > 1:
                for u in (e[2]["u"][:1], e[2]["u"][-1:], e[2]["u"][:len(e[2]["u"]) // 2]):
                    yield dict(sc, events=ev[:j] + [["req", e[1], dict(e[2], u=u), e[3]]] + ev[j + 1:])
            if e[3] != "array":
                yield dict(sc, events=ev[:j] + [["req", e[1], e[2], "array"]] + ev[j + 1:])
    used = set(e[1] for e in ev)
    for i, s in enumerate(sc["inst"]):
        if i in used and s[2]:
            yield dict(sc, inst=sc["inst"][:i] + [[s[0], s[1], {}]] + sc["inst"][i + 1:])
