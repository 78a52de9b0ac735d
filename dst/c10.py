"""C10: flux-marginalised likelihoods compose over any arrival of the data.

A streaming fitter receives independent batches of photometry over a simulated network
(reordering, duplication, delay) and crashes; only its checkpoints survive.  It folds each
batch into a posterior of (source flux, blend flux) and adds up the library's negative
log-likelihoods.  Whatever happens the total must equal one evaluation over all data
(dense float64 linear algebra, and the library itself)."""
import copy, math, json
import base
from base import Bad
import oracles as O
import ops

PROP = "C10"
TIERS = {"quick": 70, "thorough": 720}
EVAL = "likelihood_calls"
RULE = ("one run = several seeded data streams, each cut into batches that are delivered in a seeded order with "
        "duplicates and crashes, plus weighted line fits of the same data in several arrival orders; non-trivial = a "
        "likelihood evaluated and entering a compared total; distinct = distinct (routine, batch sizes, prior class, "
        "fault history class)")
MEASURE = "distinct (routine, batch-size pattern, noise class, prior class, faults seen) combinations"
REAL = ["microjax.likelihood", "JAX/XLA"]
STUB = ["checkpoint store (in-memory, survives simulated crashes)", "message queue (reorder, duplicate, delay)",
        "posterior update between batches (numpy float64, the client's own code)"]
ASSUME = ["the negative log-likelihood omits the constant n/2 log 2pi, as documented"]


def simtime(c):
    return "%d deliveries" % c.get("deliveries", 0)


def gen(r, tier, n):
    st = []
    for _ in range(6):
        N = r.choice([1, 2, 3, 6, 12, 30])
        d = ops.gen_data(r, N)
        nb = r.randint(1, min(N, 6))
        ids = list(range(N))
        r.shuffle(ids)
        cuts = sorted(r.sample(range(1, N), nb - 1)) if nb > 1 else []
        b = [ids[i:j] for i, j in zip([0] + cuts, cuts + [N])]
        corr = [r.choice([0.0, r.uniform(0.1, 0.7), -0.3]) for _ in b]
        q = []
        order = list(range(len(b)))
        for k in order + [r.choice(order) for _ in range(r.choice([0, 0, 2]))]:
            q.append(["batch", k])
        r.shuffle(q)
        for _ in range(r.choice([0, 1, 2])):
            q.insert(r.randrange(len(q) + 1), [r.choice(["crash", "crash", "crash_before_ack"]), 0])
        kind = r.choice(["general", "general", "diag_first", "diag_only"])
        prior = dict(mu=[r.gauss(0, 3), r.gauss(0, 3)] if kind == "general" and r.random() < 0.7 else [0.0, 0.0],
                     vs=10 ** r.uniform(-1, 2), vb=10 ** r.uniform(-1, 2), c=r.uniform(-0.9, 0.9) if kind == "general" else 0.0)
        line = dict(x=[r.uniform(-5, 5) + r.choice([0, 0, 100.0]) for _ in range(max(3, N))])
        line["y"] = [2 * x - 1 + r.gauss(0, 1) for x in line["x"]]
        line["err"] = [r.choice([0.0, 10 ** r.uniform(-1.5, 0.5), 1.0]) for _ in line["x"]]
        line["scalar"] = r.choice([None, None, 0.0, 0.3])
        o = list(range(len(line["x"])))
        r.shuffle(o)
        line["order"] = o
        st.append(dict(data=d, batches=b, corr=corr if kind == "general" else [0.0] * len(b), queue=q, kind=kind,
                       prior=prior, line=line, jit=r.random() < 0.15))
    return dict(streams=st)


def cov(d, idx, rho):
    np = base.np
    s = np.sqrt(np.array([d["s2"][i] for i in idx]))
    k = np.arange(len(idx))
    if rho < 0:                       # alternating correlation
        c = abs(rho) ** np.abs(k[:, None] - k[None, :]) * (-1.0) ** np.abs(k[:, None] - k[None, :])
    else:
        c = np.where(k[:, None] == k[None, :], 1.0, rho ** np.abs(k[:, None] - k[None, :]))
    return np.outer(s, s) * c


def close(a, b, n, extra=0.0):
    return abs(a - b) <= 2e-5 * (1 + abs(b)) + 1e-5 * n + extra


def noise(f, M, C, L):
    """rounding error of the closed form: cancellation in chi2 and in det A"""
    np = base.np
    w = 1 / np.diag(C)
    A = np.linalg.inv(L) + (M.T * w) @ M
    return 2e-14 * (1 + float(np.sum(f * f * w))) * A[0, 0] * A[1, 1] / abs(np.linalg.det(A))


def run(sc, ctx):
    np, jnp, jax = base.np, base.jnp, base.jax
    R = base.Replica()
    for si, s in enumerate(sc["streams"]):
        d, bs = s["data"], s["batches"]
        pr = s["prior"]
        mu0 = np.array(pr["mu"])
        od = pr["c"] * math.sqrt(pr["vs"] * pr["vb"])
        L0 = np.array([[pr["vs"], od], [od, pr["vb"]]])

        def arrays(idx):
            f = np.array([d["flux"][i] for i in idx])
            M = np.stack([[d["m"][i] for i in idx], np.ones(len(idx))], 1)
            return f, M

        def lib(idx, rho, mu, L, diag):
            f, M = arrays(idx)
            if diag:
                g = R.get("likelihood", "nll_ulens")
                args = (jnp.asarray(f), jnp.asarray(M), jnp.asarray([d["s2"][i] for i in idx]), float(L[0, 0]), float(L[1, 1]))
            else:
                g = R.get("likelihood", "nll_ulens_general")
                args = (jnp.asarray(f), jnp.asarray(M), jnp.asarray(cov(d, idx, rho)), jnp.asarray(mu), jnp.asarray(L))
            st, v = base.call(lambda: (jax.jit(g) if s["jit"] else g)(*args))
            ctx.c["likelihood_calls"] += 1
            if st != "ok":
                raise Bad("exception", "%s on %d points: %s" % ("nll_ulens" if diag else "nll_ulens_general", len(idx), v))
            if v[0].shape != () or not np.isfinite(v[0]):
                raise Bad("value", "likelihood %s" % v)
            return float(v[0])

        # what one evaluation over everything must give
        every = [i for b in bs for i in b]
        C = np.zeros((len(every), len(every)))
        p = 0
        for b, rho in zip(bs, s["corr"]):
            C[p:p + len(b), p:p + len(b)] = cov(d, b, rho)
            p += len(b)
        f, M = arrays(every)
        lost_digits = 0.0
        truth = O.nll_gauss(f, M, C, mu0, L0)
        err = noise(f, M, C, L0)
        # the stream
        disk = dict(mu=mu0, L=L0, tot=0.0, seen=[])
        mem = copy.deepcopy(disk)
        lost = 0
        q = list(s["queue"])
        steps = 0
        while q:
            steps += 1
            if steps > 200:
                raise Bad("progress", "stream did not finish")
            k, b = q.pop(0)
            ctx.c["deliveries"] += 1
            if k == "crash" or k == "crash_before_ack":
                if k == "crash_before_ack" and q and q[0][0] == "batch":
                    kk, bb = q[0]          # the batch is processed, then lost with the process
                    if bb not in mem["seen"] and bb < len(bs):
                        lib(bs[bb], s["corr"][bb], mem["mu"], mem["L"], False)
                R = base.Replica()
                mem = copy.deepcopy(disk)
                ctx.c["fault:" + k] += 1
                lost += 1
                continue
            if b >= len(bs):
                continue
            if b in mem["seen"]:
                ctx.c["fault:duplicate_batch"] += 1
                continue
            idx, rho = bs[b], s["corr"][b]
            first = not mem["seen"]
            diag = s["kind"] != "general" and first
            val = lib(idx, rho, mem["mu"], mem["L"], diag)
            if diag:      # the two forms agree wherever both apply
                v2 = lib(idx, 0.0, np.zeros(2), mem["L"], False)
                fa, Ma = arrays(idx)
                if not close(val, v2, len(idx), noise(fa, Ma, cov(d, idx, 0.0), mem["L"])):
                    raise Bad("forms", "nll_ulens %.12g, nll_ulens_general %.12g for the same %d points" % (val, v2, len(idx)))
            f, M = arrays(idx)
            lost_digits += noise(f, M, cov(d, idx, rho), mem["L"])
            Ci = np.linalg.inv(cov(d, idx, rho))
            P = np.linalg.inv(mem["L"])
            A = P + M.T @ Ci @ M
            L = np.linalg.inv(A)
            mem = dict(mu=L @ (P @ mem["mu"] + M.T @ Ci @ f), L=0.5 * (L + L.T), tot=mem["tot"] + val, seen=mem["seen"] + [b])
            disk = copy.deepcopy(mem)
            ctx.event(si, b, "%.10g" % val)
            if q and not any(e[0] == "batch" and e[1] == b for e in q):
                pass
        # faults have stopped: whatever was not acknowledged is delivered again
        missing = [b for b in range(len(bs)) if b not in mem["seen"]]
        for b in missing:
            val = lib(bs[b], s["corr"][b], mem["mu"], mem["L"], False)
            f, M = arrays(bs[b])
            lost_digits += noise(f, M, cov(d, bs[b], s["corr"][b]), mem["L"])
            Ci = np.linalg.inv(cov(d, bs[b], s["corr"][b]))
            P = np.linalg.inv(mem["L"])
            L = np.linalg.inv(P + M.T @ Ci @ M)
            mem = dict(mu=L @ (P @ mem["mu"] + M.T @ Ci @ f), L=0.5 * (L + L.T), tot=mem["tot"] + val, seen=mem["seen"] + [b])
            ctx.c["fault:late_batch"] += 1
        n = len(every)
        if not close(mem["tot"], truth, n, err + lost_digits):
            raise Bad("total", "%s stream of %d points in batches %s (correlations %s, order %s, prior %s): streamed total %.10g, "
                      "single evaluation %.10g" % (s["kind"], n, [len(b) for b in bs], s["corr"], mem["seen"], pr, mem["tot"], truth))
        # the library on everything at once, in arrival order
        one = float("nan")
        g = R.get("likelihood", "nll_ulens_general")
        f, M = arrays(every)
        st, v = base.call(lambda: g(jnp.asarray(f), jnp.asarray(M), jnp.asarray(C), jnp.asarray(mu0), jnp.asarray(L0)))
        ctx.c["likelihood_calls"] += 1
        if st != "ok" or not close(float(v[0]), truth, n, err):
            raise Bad("single", "nll_ulens_general over %d points: %s, dense evaluation %.10g (prior %s)" % (n, v, truth, pr))
        if s["kind"] == "diag_only":
            v = lib(every, 0.0, mu0, L0, True)
            if not close(v, truth, n, err):
                raise Bad("single", "nll_ulens over %d points: %.10g, dense evaluation %.10g (prior %s)" % (n, v, truth, pr))
        ctx.state(s["kind"], tuple(min(len(b), 8) for b in bs), any(s["corr"]), any(pr["mu"]), pr["c"] != 0, lost, s["jit"])
        # the straight line, in two arrival orders
        ln = s["line"]
        x, y, er = (np.array(ln[k]) for k in ("x", "y", "err"))
        if ln["scalar"] is not None:
            er = ln["scalar"]
        e = O.linfit(x, y, er)
        o = ln["order"]
        h = R.get("likelihood", "linear_chi2")
        for form in ("as is", "permuted"):
            xx, yy = (x, y) if form == "as is" else (x[o], y[o])
            ee = er if np.ndim(er) == 0 else (er if form == "as is" else er[o])
            st, v = base.call(lambda: h(jnp.asarray(xx), jnp.asarray(yy), ee if np.ndim(ee) == 0 else jnp.asarray(ee)))
            ctx.c["line_fits"] += 1
            if st != "ok":
                raise Bad("exception", "linear_chi2: %s" % (v,))
            dd = base.differ(v, [np.array(t) for t in e], 1e-5, 1e-5 * (1 + np.abs(y).max()))
            if dd:
                raise Bad("line", "linear_chi2 (%s, %d points, errors %s): %s" % (form, len(x), er, dd))
        ctx.event([a.tobytes() for a in v])
        ctx.state("line", len(x), np.ndim(er), bool(np.any(er == 0)))
    if ctx.notes.get("sample") is None:
        ctx.notes["sample"] = "streamed totals equal the single evaluation for %d streams" % len(sc["streams"])


def shrink(sc):
    ss = sc["streams"]
    if len(ss) > 1:
        for s in ss:
            yield dict(streams=[s])
        return
    s = ss[0]
    q = s["queue"]
    for i in range(len(q)):
        if q[i][0] != "batch":
            yield dict(streams=[dict(s, queue=q[:i] + q[i + 1:])])
    if len(s["batches"]) > 1:
        for i in range(len(s["batches"])):
            b2 = s["batches"][:i] + s["batches"][i + 1:]
            q2 = [[k, (j if j < i else j - 1)] for k, j in q if k != "batch" or j != i]
            yield dict(streams=[dict(s, batches=b2, corr=s["corr"][:i] + s["corr"][i + 1:], queue=q2)])
    for i, b in enumerate(s["batches"]):
        if len(b) > 1:
            for h in (b[:len(b) // 2], b[:-1], b[1:]):
                yield dict(streams=[dict(s, batches=s["batches"][:i] + [h] + s["batches"][i + 1:])])
    if s["jit"]:
        yield dict(streams=[dict(s, jit=False)])
    if any(s["corr"]):
        yield dict(streams=[dict(s, corr=[0.0] * len(s["corr"]))])
    if any(s["prior"]["mu"]):
        yield dict(streams=[dict(s, prior=dict(s["prior"], mu=[0.0, 0.0]))])
    ln = s["line"]
    for i in range(len(ln["x"])):
        if len(ln["x"]) > 2:
            k = list(range(len(ln["x"])))
            k.remove(i)
            rk = {a: b for b, a in enumerate(k)}
            yield dict(streams=[dict(s, line=dict(ln, x=[ln["x"][j] for j in k], y=[ln["y"][j] for j in k],
                                                  err=[ln["err"][j] for j in k], order=[rk[j] for j in ln["order"] if j != i]))])
