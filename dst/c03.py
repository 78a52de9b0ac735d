"""C03: a result depends only on the arguments of its own call.

A long-lived process serves a seeded history of requests: equal, nearly equal (one
argument moved a little) and differently batched ones, on fresh and on long-lived
calculators, through input buffers that are refilled in place, interleaved with cleared
compilation caches, other precision and debugging modes, and restarts.  Every answer is
compared with the answer of a copy of the library that serves that request only, and with
an independent reference."""
import copy, contextlib
import base
from base import Bad
import ops

PROP = "C03"
TIERS = {"quick": 110, "thorough": 800}
EVAL = "answers"
RULE = ("one run = a seeded history of 6-30 requests over a pool of equal, nearly equal and differently sized requests to "
        "1-3 routines; non-trivial = an answer given after at least one different request and compared with a copy of "
        "the library that served nothing else; distinct = distinct (operation, argument that differs from the previous "
        "request, call form, events since the previous request)")
MEASURE = "distinct (operation, argument changed against the previous request, call form, mode events in between)"
REAL = ["all of microjax", "JAX tracing, compilation and caches", "NumPy/SciPy"]
STUB = ["client program", "process restart (all microjax modules reloaded)"]
ASSUME = ["copies of the library in one process stand for fresh processes; JAX's own caches are shared unless cleared"]

LIGHT = ["ephemeris", "utilities", "poly_roots_init", "fast_np_disk", "fast_np_limb1", "fast_np_limb2", "parallax", "nll_diag", "nll_general", "linear_fit",
         "lens_eq1", "lens_eq2", "lens_eq3", "poly_roots", "fftlog_np", "mag_point_source1"]
MID = ["mag_point_source2", "mag_point_source3", "critical_curves2", "critical_curves3", "image_tracking2", "fast_jax_disk",
       "fast_jax_limb1", "fast_jax_limb2", "fast_jax_mdisk", "grad_point_source2", "grad_parallax", "grad_nll", "hexadecapole1", "hexadecapole2", "hexadecapole3", "fftlog_jax", "special_functions"]
HEAVY = ["inverse_ray2", "inverse_ray2_ld", "inverse_ray3", "inverse_ray3_ld", "light_curve2", "contour1", "contour1_ld", "contour2_ld", "light_curve3", "extended_source2_ld",
         "contour2", "contour3"]
MODES = ["x64_off", "no_jit", "debug_nans", "clear", "float32_inputs"]


def simtime(c):
    return "%d requests in histories" % c.get("requests", 0)


def resize(r, a):
    """the same request with another batch size"""
    b = copy.deepcopy(a)
    ls = [k for k, v in b.items() if isinstance(v, list) and len(v) > 1 and k not in ("L", "mu", "z", "off", "req")]
    if not ls:
        return b, "none"
    n = min(len(b[k]) for k in ls)
    m = r.randrange(1, n + 1)
    if r.random() < 0.3 and set(b) != {"x", "y"}:       # ties have no unique order
        for k in ls:
            b[k] = b[k] + b[k][:m]
    else:
        for k in ls:
            b[k] = b[k][:m]
    if "x" in b and not any(b["x"]):
        return copy.deepcopy(a), "none"
    return b, "size"


def gen(r, tier, n):
    k = r.random()
    if k < 0.55:
        names = [r.choice(LIGHT) for _ in range(r.choice([1, 2, 3]))]
    elif k < 0.9:
        names = [r.choice(MID)] + ([r.choice(LIGHT)] if r.random() < 0.4 else [])
    else:
        names = [r.choice(HEAVY)]
    heavy = k >= 0.9
    pool = []
    for nm in names:
        op = ops.OPS[nm]
        first = len(pool)
        pool.append([nm, op.gen(r), "first"])
        for _ in range(r.choice([1, 2]) if heavy else r.choice([1, 2, 3])):
            a = pool[r.randrange(first, len(pool))][1]
            if r.random() < 0.2 and not heavy:
                b, key = resize(r, a)
                if nm == "linear_fit" and len(b["x"]) < 3:
                    b, key = op.mutate(r, a)
            else:
                b, key = op.mutate(r, a)
            pool.append([nm, b, key])
    ev = []
    for _ in range(r.choice([2, 4]) if heavy else r.choice([4, 8, 16])):
        t = r.random()
        i = r.randrange(len(pool))
        if t < 0.72:
            ev.append(["call", i, r.choice(["new", "new", "object", "buffer", "buffer_object"])])
        elif t < 0.8:
            ev.append(["restart"])
        elif t < 0.86:
            ev.append(["junk", i])
        else:
            ev.append(["mode", r.choice(MODES), i])
    ev += [["call", i, r.choice(["new", "object", "buffer"])] for i in r.sample(range(len(pool)), len(pool))]
    return dict(pool=pool, events=ev)


def run(sc, ctx):
    np, jax = base.np, base.jax
    pool = sc["pool"]
    R = base.Replica()
    live = [ops.OPS[nm].available(R) for nm, _, _ in pool]
    objs, bufs, seen = {}, {}, []
    first = {}
    since, last = [], None
    for step, e in enumerate(sc["events"]):
        if e[0] == "restart":
            R = base.Replica()
            objs.clear()
            ctx.c["fault:restart"] += 1
            since.append("restart")
            continue
        i = e[-1] if e[0] != "call" else e[1]
        if not live[i]:
            continue
        nm, a, key = pool[i]
        op = ops.OPS[nm]
        if e[0] == "mode":
            ctx.c["fault:mode_" + e[1]] += 1
            since.append(e[1])
            mode(e[1], R, op, a, ctx)
            continue
        if e[0] == "junk":                  # a request that fails must not show through either
            ctx.c["fault:failing_request"] += 1
            since.append("junk")
            k = sorted(a)[step % len(a)]
            base.callraw(lambda: op.call(R, dict(a, **{k: "x"})))
            continue
        form = e[2]
        o = None
        ok = op.objkey(a)
        who = "step %d: %s %s (%s, after %s)" % (step, nm, str(a)[:400], form, [x[0] for x in sc["events"][max(0, step - 4):step]])
        if ok and "object" in form:
            if (nm, ok) not in objs:
                st, objs[nm, ok] = base.callraw(lambda: op.new(R, a))
                if st != "ok":
                    raise Bad("exception", "%s: %s" % (who, objs[nm, ok]))
            o = objs[nm, ok]
        if "buffer" in form:
            ops.SHARE = ops.Refill(bufs)
            ctx.c["fault:buffer_refilled"] += 1
        try:
            st, v = base.call((lambda: op.call(R, a, o)) if o is not None else (lambda: op.call(R, a)))
        finally:
            ops.SHARE = None
        ctx.c["requests"] += 1
        if st != "ok":
            raise Bad("exception", "%s: %s" % (who, v))
        if last is not None and last != i:
            ctx.c["answers"] += 1
            ctx.state(nm, key if pool[last][0] == nm else "other", form, tuple(sorted(set(since))))
        since, last = [], i
        ctx.event(step, v[0].tobytes())
        if i in first:
            d = base.differ(v, first[i][0], max(op.selftol, 1e-9) * 2, 1e-11)
            if d:
                raise Bad("history", "%s: not the answer the same request got at step %d: %s" % (who, first[i][1], d))
        else:
            first[i] = (v, step)
            m = op.check(a, v)
            if m:
                raise Bad("value", "%s: %s" % (who, m))
    # two requests that differ in one physical parameter cannot have the very same answer
    for i in first:
        for j in first:
            (nm, a, _), (nj, b, _) = pool[i], pool[j]
            if i < j and nm == nj and nm.startswith(("inverse_ray", "light_curve", "contour", "extended", "hexadecapole")) and set(a) == set(b):
                ks = [k for k in a if a[k] != b[k]]
                if len(ks) == 1 and ks[0] in ("u1", "rho", "s", "q", "q3", "r3", "psi") and abs(a[ks[0]] - b[ks[0]]) > 5e-5 * abs(a[ks[0]]):
                    ctx.c["sensitivity_comparisons"] += 1
                    if all(np.array_equal(x, y) for x, y in zip(first[i][0], first[j][0])):
                        raise Bad("ignored", "%s: %s=%.9g and %s=%.9g got the same answer %s; %s" % (
                            nm, ks[0], a[ks[0]], ks[0], b[ks[0]], base.short(first[i][0][0]), str(a)[:400]))
    # one copy serves the same requests in the opposite order, another serves one request only
    order = sorted(first, key=lambda i: -first[i][1])
    if not order:
        return
    for R, which, name in ((base.Replica(), order, "a process with the opposite history"),
                           (base.Replica(), order[:1] if len(sc["events"]) % 2 else order[len(order) // 2:][:1], "a fresh process")):
        R.current()
        for i in which:
            nm, a, _ = pool[i]
            op = ops.OPS[nm]
            st, v = base.call(lambda: op.call(R, a))
            d = v if st != "ok" else base.differ(first[i][0], v, max(op.selftol, 1e-9) * 2, 1e-11)
            ctx.c["fresh_comparisons"] += 1
            if d:
                raise Bad("fresh", "%s %s: answer at step %d of the history differs from %s: %s" % (nm, str(a)[:400], first[i][1], name, d))


def mode(m, R, op, a, ctx):
    jax, np = base.jax, base.np
    if m == "clear":
        jax.clear_caches()
    elif m == "x64_off":
        jax.config.update("jax_enable_x64", False)
        try:
            base.callraw(lambda: op.call(R, a))
        finally:
            jax.config.update("jax_enable_x64", True)
    elif m == "debug_nans":
        jax.config.update("jax_debug_nans", True)
        try:
            base.callraw(lambda: op.call(R, a))
        finally:
            jax.config.update("jax_debug_nans", False)
    elif m == "no_jit" and op.eager and op.cost < 3:
        with jax.disable_jit():
            st, v = base.call(lambda: op.call(R, a))
        if st != "ok":
            raise Bad("exception", "%s %s without compilation: %s" % (op.name, str(a)[:300], v))
        d = op.check(a, v)
        if d:
            raise Bad("value", "%s %s without compilation: %s" % (op.name, str(a)[:300], d))
        ctx.c["uncompiled_answers"] += 1
    elif m == "float32_inputs":
        b = {k: (float(np.float32(x)) if isinstance(x, float) else x) for k, x in a.items()}
        base.callraw(lambda: op.call(R, b))


def shrink(sc):
    ev = sc["events"]
    k = len(ev) // 2
    while k >= 1:
        for i in range(0, len(ev), k):
            if len(ev) > k:
                yield dict(sc, events=ev[:i] + ev[i + k:])
        k //= 2
    for j, e in enumerate(ev):
        if e[0] == "call" and e[2] != "new":
            yield dict(sc, events=ev[:j] + [["call", e[1], "new"]] + ev[j + 1:])
