"""C02: an interrupted or failed call leaves nothing behind.

A client's calls are cut short at a seeded place - an exception at the k-th library source
line executed, a dependency whose n-th call fails, arguments that make the library raise -
and then the client carries on: it retries the call and makes others, on the same
calculators and states.  Reference: a second copy of the library that never saw a fault,
plus the independent references."""
import copy, os, sys, signal
import base, sched, faults, c04
from base import Bad
import ops

PROP = "C02"
TIERS = {"quick": 110, "thorough": 800}
EVAL = "calls_after_fault"
RULE = ("one run = a seeded client program over 2-4 requests (shared calculators and states included) in which 1-8 calls "
        "are cut short; non-trivial = a call completed after at least one fault fired in the same copy of the library "
        "and compared with a copy that saw none; distinct = distinct (operation, fault kind, function and line or "
        "dependency where it fired)")
MEASURE = "distinct (operation, fault kind, place where it fired)"
REAL = ["all of microjax's Python code", "JAX tracing and compilation", "NumPy/SciPy"]
STUB = ["the n-th call of a dependency (raises instead of returning)", "os._exit/os.kill/os.abort (recorded, refused)"]
ASSUME = ["asynchronous exceptions arrive at library source lines, dependency failures at calls the library makes itself; "
          "exceptions raised inside JAX or NumPy code are represented by the call into it failing"]

LIGHT = ["ephemeris", "utilities", "poly_roots_init", "fast_np_disk", "fast_np_limb1", "fast_np_limb2", "parallax", "nll_diag", "nll_general", "linear_fit", "special_functions",
         "lens_eq1", "lens_eq2", "lens_eq3", "poly_roots", "fftlog_np", "mag_point_source1"]
MID = ["mag_point_source2", "mag_point_source3", "critical_curves2", "critical_curves3", "image_tracking2", "fast_jax_disk",
       "fast_jax_limb1", "fast_jax_limb2", "fast_jax_mdisk", "grad_point_source2", "grad_parallax", "grad_nll", "hexadecapole1", "hexadecapole2", "hexadecapole3", "fftlog_jax"]
HEAVY = ["inverse_ray2", "inverse_ray2_ld", "inverse_ray3", "light_curve2", "contour1", "contour1_ld", "contour2_ld", "light_curve3", "extended_source2_ld", "contour2"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError, "TimeoutError": TimeoutError,
       "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError, "RecursionError": RecursionError}
JUNK = [None, "x", [], {}, -1.0, 0, float("nan"), float("inf"), 1e400, "object", "bigarray", True, 1j]


BADCFG = [{"N_fft": 0}, {"N_fft": -5}, {"N_fft": 3}, {"N_fft": 2.5}, {"unknown": 1}, {"fft_logumin": "x"}, {"u_switch": None}, None, 7]


def simtime(c):
    return "%d library lines executed under the injector" % c.get("lines", 0)


def gen(r, tier, n):
    k = r.random()
    if k < 0.6:
        names = [r.choice(LIGHT) for _ in range(r.choice([2, 3, 4]))]
    elif k < 0.92:
        names = [r.choice(MID), r.choice(MID if r.random() < 0.5 else LIGHT)]
    else:
        names = [r.choice(HEAVY)]
    pool = []
    for nm in names:
        op = ops.OPS[nm]
        a = op.gen(r)
        pool.append([nm, a])
        if r.random() < 0.5 and op.cost < 3:
            pool.append([nm, op.mutate(r, a)[0]])
    heavy = k >= 0.92
    ev = []
    nf = r.choice([1, 2]) if heavy else r.choice([1, 2, 4, 8])
    for _ in range(nf):
        i = r.randrange(len(pool))
        t = r.random()
        what = "new" if r.random() < 0.25 else "call"
        if t < 0.5:
            ev.append(["line", i, what, r.random() ** r.choice([1, 1, 3]), r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "OSError", "TimeoutError", "RecursionError"])])
        elif t < 0.8:
            ev.append(["dep", i, what, r.random() ** r.choice([1, 1, 3]), r.choice(["MemoryError", "RuntimeError", "OSError", "FloatingPointError", "KeyboardInterrupt"]), r.random() < 0.5])
        else:
            a = pool[i][1]
            ev.append(["bad", i, r.choice(sorted(a)), r.randrange(len(JUNK))])
            if pool[i][0].startswith("fftlog") and r.random() < 0.5:      # singular bias
                ev[-1] = ["bad", i, "nu", r.choice([-1.0, -2.0, -3.0, 0.0])]
            elif ev[-1][2] == "cfg":
                ev[-1][3] = r.randrange(len(BADCFG))
        if r.random() < 0.3:
            ev.append(["ok", r.randrange(len(pool))])
    ev += [["ok", i] for i in r.sample(range(len(pool)), len(pool))]
    return dict(pool=pool, events=ev, pre=r.random() < 0.6, warm=r.random() < 0.25)


class Ended(BaseException):
    pass


def no_exit():
    """Calls that would end or signal the process are refused and recorded."""
    def refuse(name):
        def f(*a, **k):
            raise Ended(name)
        return f
    saved = [(os, n, getattr(os, n)) for n in ("_exit", "abort", "kill", "killpg")] + [(signal, "raise_signal", signal.raise_signal)]
    for o, n, _ in saved:
        setattr(o, n, refuse(n))
    return saved


def junk(v, j):
    x = JUNK[j]
    if x == "object":
        return object()
    if x == "bigarray":
        return base.np.ones((3, 2, 2))
    return x


def run(sc, ctx):
    np = base.np
    pool = sc["pool"]

    def copy_of(R, pre):
        objs = {}
        if pre:
            for nm, a in pool:
                op = ops.OPS[nm]
                if op.objkey(a) and (nm, op.objkey(a)) not in objs:
                    objs[nm, op.objkey(a)] = op.new(R, a)
        return objs

    def call(R, objs, i):
        nm, a = pool[i]
        op = ops.OPS[nm]
        o = objs.get((nm, op.objkey(a))) if op.objkey(a) else None
        return op.call(R, a, o) if o is not None else op.call(R, a)

    # the copy that never sees a fault; also counts how far each call can be cut
    R = base.Replica()
    live = [ops.OPS[nm].available(R) for nm, _ in pool]
    objs = copy_of(R, sc["pre"])
    sched.instrument(base.SRC)
    used = sorted({e[1] for e in sc["events"]})
    ref, nline, ndep = {}, {}, {}
    for i in used:
        if live[i]:
            with sched.Injector(-1, None) as inj:
                ref[i] = base.call(lambda: call(R, objs, i))
            nline[i, "call"] = inj.n
            if ref[i][0] == "exc":
                raise Bad("exception", "%s %s without any fault: %s" % (pool[i][0], str(pool[i][1])[:300], ref[i][1]))
            m = ops.OPS[pool[i][0]].check(pool[i][1], ref[i][1])
            if m:
                raise Bad("value", "%s %s without any fault: %s" % (pool[i][0], str(pool[i][1])[:300], m))
    for e in sc["events"]:
        if e[0] in ("line", "dep") and live[e[1]]:
            nm, a = pool[e[1]]
            op = ops.OPS[nm]
            k = (e[1], e[2])
            if e[2] == "new" and op.objkey(a) and k not in nline:
                with sched.Injector(-1, None) as inj:
                    op.new(R, a)
                nline[k] = inj.n

    R = base.Replica()
    objs = copy_of(R, sc["pre"])
    if sc["warm"]:
        for i in used:
            if live[i]:
                call(R, objs, i)
    sched.instrument(base.SRC)
    fired = []
    saved = no_exit()
    try:
        prev = None
        for step, e in enumerate(sc["events"]):
            i = e[1]
            if not live[i]:
                continue
            nm, a = pool[i]
            op = ops.OPS[nm]
            who = "step %d: %s %s" % (step, nm, str(a)[:300])
            prev = left_behind(prev, fired)
            if e[0] == "ok":
                st, v = got(lambda: call(R, objs, i), who, fired)
                if fired:
                    ctx.c["calls_after_fault"] += 1
                if st != "ok":
                    raise Bad("broken", "%s: %s, after %s" % (who, v, fired[-3:]))
                ctx.event(step, v[0].tobytes())
                d = base.differ(v, ref[i][1], max(op.selftol, 1e-9), 1e-11)
                if d:
                    raise Bad("changed", "%s: %s, in a copy of the library without the faults; after %s" % (who, d, fired[-3:]))
                continue
            new = e[0] != "bad" and e[2] == "new" and op.objkey(a)
            go = (lambda: op.new(R, a)) if new else (lambda: call(R, objs, i))
            if e[0] == "line":
                n = nline.get((i, "new" if new else "call"), 1)
                inj = sched.Injector(1 + int(e[3] * n), EXC[e[4]]("injected"))
                with inj:
                    st, v = got(go, who, fired, keep=True)
                ctx.c["lines"] += inj.n
                where = inj.where
            elif e[0] == "dep":
                key = (i, bool(new))
                if key not in ndep:         # how many calls into dependencies there are
                    R2 = base.Replica()
                    o2 = copy_of(R2, sc["pre"])
                    with faults.Dependency(-1, None) as d:
                        st, _ = base.callraw((lambda: op.new(R2, a)) if new else (lambda: call(R2, o2, i)))
                    ndep[key] = d.n if st == "ok" else 0
                    R.current()
                if not ndep[key]:
                    ctx.c["dependency_not_replaceable"] += 1
                    continue
                d = faults.Dependency(1 + int(e[3] * ndep[key]), EXC[e[4]]("injected"), e[5])
                with d:
                    st, v = got(go, who, fired, keep=True)
                where = d.where
            else:
                b = dict(copy.copy(a), **{e[2]: BADCFG[e[3]] if e[2] == "cfg" else e[3] if isinstance(e[3], float) else junk(a[e[2]], e[3])})
                st, v = got(lambda: op.call(R, b), who + " with %s=%r" % (e[2], b[e[2]]), fired)
                where = "%s=#%s" % (e[2], e[3]) if st == "exc" else None
                ctx.c["fault:bad_argument"] += 1
                if where:
                    ctx.c["bad_argument_raised"] += 1
                    fired.append("bad argument " + where)
                    ctx.state(nm, "bad", where)
                continue
            if where is None:
                ctx.c["faults_not_reached"] += 1
            else:
                ctx.c["fault:%s_%s" % (e[0], e[4])] += 1
                if st == "ok":
                    ctx.c["fault_survived"] += 1
                fired.append("%s at %s during %s of %s" % (e[4], where, "construction" if new else "a call", nm))
                ctx.state(nm, e[0], where)
                if st == "ok" and not new:       # the library coped: then the answer has to be right
                    df = base.differ(base.norm(v), ref[i][1], max(op.selftol, 1e-9), 1e-11)
                    if df:
                        raise Bad("partial", "%s returned a value although cut short by %s: %s" % (who, fired[-1], df))
            ctx.event(step, where, st)
        if prev is not None:
            left_behind(prev, fired)
    finally:
        for o, n, f in saved:
            setattr(o, n, f)
    ctx.c["probe:objects_made_before_the_fault" if sc["pre"] else "probe:no_objects_before"] += 1


def left_behind(prev, fired):
    """process-wide settings now; a violation if they moved since ``prev``"""
    now = c04.settings()
    m = prev and c04.changed(prev, now)
    if m:
        raise Bad("settings", "%s; after %s" % (m, fired[-3:]))
    return now


def got(fn, who, fired, keep=False):
    try:
        v = fn()
        return "ok", v if keep else base.norm(v)
    except Ended as x:
        raise Bad("exit", "%s tried to end the process (os.%s)" % (who, x))
    except SystemExit as x:
        raise Bad("exit", "%s ended the process: SystemExit(%s)" % (who, x))
    except GeneratorExit as x:
        raise Bad("exit", "%s raised GeneratorExit" % who)
    except (KeyboardInterrupt, Exception) as x:
        return "exc", "%s: %s" % (type(x).__name__, str(x)[:300])


def shrink(sc):
    ev = sc["events"]
    k = len(ev) // 2
    while k >= 1:
        for i in range(0, len(ev), k):
            if len(ev) > k:
                yield dict(sc, events=ev[:i] + ev[i + k:])
        k //= 2
    for key in ("pre", "warm"):
        if sc[key]:
            yield dict(sc, **{key: False})
    used = {e[1] for e in ev}
    for i in range(len(sc["pool"])):
        if i not in used:
            yield dict(sc, pool=sc["pool"][:i] + sc["pool"][i + 1:], events=[[e[0], e[1] - (e[1] > i)] + e[2:] for e in ev])
