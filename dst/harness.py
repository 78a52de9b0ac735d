"""Parent process of a check: seeds -> workers -> verdict, minimised replay, evidence."""
import os, sys, json, time, argparse, subprocess, tempfile, shutil, signal, importlib, hashlib
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PYEXE = sys.executable
REPO = os.environ.get("MJ_REPO", "/repo")

ENV = dict(os.environ)
ENV.update(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", PYTHONWARNINGS="ignore",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
ENV.setdefault("PYTHONHASHSEED", "0")
ENV.pop("JAX_ENABLE_X64", None)
NW = int(os.environ.get("DST_WORKERS", "8"))


class Proc:
    def __init__(self, tmp, tag, cache, args):
        self.out = os.path.join(tmp, tag + ".jsonl")
        self.err = open(os.path.join(tmp, tag + ".err"), "wb")
        self.sofar = 0
        self.p = subprocess.Popen([PYEXE, os.path.join(HERE, "worker.py"), "--out", self.out,
                                   "--cache", cache] + args, env=ENV, cwd=tmp,
                                  stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL,
                                  start_new_session=True)

    def lines(self):
        """new complete lines"""
        try:
            with open(self.out, "rb") as f:
                f.seek(self.sofar)
                d = f.read()
        except FileNotFoundError:
            return []
        k = d.rfind(b"\n") + 1
        self.sofar += k
        return [json.loads(x) for x in d[:k].splitlines()]

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def tail(self):
        try:
            return open(self.err.name, "rb").read()[-1500:].decode("utf8", "replace")
        except Exception:
            return ""


class Harness:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        import numpy, base
        base.np = numpy                 # scenario generation needs numpy only, never jax
        self.mod = importlib.import_module(prop.lower())
        self.tmp = tempfile.mkdtemp(prefix="dst_%s_" % prop.lower())
        self.cache = os.path.join(self.tmp, "cache")
        os.mkdir(self.cache)
        self.serial = 0
        self.procs = []

    def close(self):
        for p in self.procs:
            if p.alive():
                p.kill()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def spawn(self, args):
        self.serial += 1
        p = Proc(self.tmp, "w%03d" % self.serial, self.cache, ["--prop", self.prop, "--tier", self.tier] + args)
        self.procs.append(p)
        return p

    # -------------------------------------------------- exact scenario lists
    def many(self, lists, limit):
        """Run several scenario lists, each in its own fresh process -> list of
        ('ok', None) | ('violation', rec) | ('error', text)."""
        res = [None] * len(lists)
        todo = list(range(len(lists)))
        run = {}
        t0 = time.monotonic()
        while todo or run:
            while todo and len(run) < NW:
                i = todo.pop(0)
                f = os.path.join(self.tmp, "sc%d_%d.json" % (self.serial, i))
                json.dump(lists[i], open(f, "w"))
                run[i] = (self.spawn(["--scenarios", f]), time.monotonic())
            time.sleep(0.05)
            for i in list(run):
                p, ts = run[i]
                if p.alive():
                    if time.monotonic() - ts > limit:
                        p.kill()
                        res[i] = ("error", "timeout")
                        del run[i]
                    continue
                r = ("error", "worker died: " + p.tail())
                for l in p.lines():
                    if l["ev"] == "violation":
                        r = ("violation", l)
                        break
                    if l["ev"] == "error":
                        r = ("error", l["what"] + "\n" + l.get("tb", ""))
                    if l["ev"] == "end" and r[0] == "error":
                        r = ("ok", None)
                res[i] = r
                del run[i]
        return res

    # -------------------------------------------------- exploration
    def explore(self, budget, hard):
        """-> (violation or None, errors, totals)"""
        t0 = time.monotonic()
        ws = [self.spawn(["--seed", str(self.seed), "--k", str(k), "--of", str(NW), "--budget", str(budget)])
              for k in range(NW)]
        runs, counters, states, samples, errs, viol, ends = [], Counter(), set(), [], [], None, 0
        explore_s, rss = 0.0, 0
        wnum = {}
        while True:
            time.sleep(0.1)
            live = 0
            for w in ws:
                alive = w.alive()
                for l in w.lines():
                    if l["ev"] == "run":
                        runs.append((l["n"], l["dt"], l["log"]))
                    elif l["ev"] == "sample":
                        samples.append(l)
                    elif l["ev"] == "violation":
                        if viol is None or l["n"] < viol["n"]:
                            viol = l
                    elif l["ev"] == "error":
                        errs.append(l["what"] + "\n" + l.get("tb", ""))
                        ends += 1
                        w.fin = True
                    elif l["ev"] == "end":
                        counters.update(l["counters"])
                        states.update(l["states"])
                        explore_s += l["explore_s"]
                        rss = max(rss, l["rss"])
                        w.fin = True
                if alive:
                    live += 1
                elif not getattr(w, "fin", False):
                    # give it one more read, then call it dead
                    if getattr(w, "dead", 0) > 3:
                        errs.append("worker died without a verdict (exit %s): %s" % (w.p.returncode, w.tail()))
                        w.fin = True
                    w.dead = getattr(w, "dead", 0) + 1
                    live += 1
            if viol:
                time.sleep(0.3)
                break
            if not live:
                break
            if time.monotonic() - t0 > hard:
                errs.append("exploration did not end within %.0f s" % hard)
                break
        for w in ws:
            for l in w.lines():
                if l["ev"] == "violation" and (viol is None or l["n"] < viol["n"]):
                    viol = l
            if w.alive():
                w.kill()
        return viol, errs, dict(runs=runs, counters=counters, states=states, samples=samples,
                                worker_s=explore_s, rss=rss, wall=time.monotonic() - t0)

    # -------------------------------------------------- minimisation
    def confirm(self, viol):
        """-> (scenario list that reproduces in a fresh process, record) or (None, why)"""
        sc = viol["scenario"]
        r = self.many([[sc]], 300)[0]
        if r[0] == "violation":
            return [sc], r[1]
        # state carried over from earlier runs of the same worker process: take them along
        import base
        n = viol["n"]
        pre = []
        for m in range(n % NW, n, NW):
            s = self.mod.gen(base.rng_for(self.prop, self.seed, m), self.tier, m)
            s["n"] = m
            pre.append(s)
        for k in (2, 8, len(pre)):
            if k and pre:
                l = pre[-k:] + [sc]
                r2 = self.many([l], 400)[0]
                if r2[0] == "violation":
                    return l[:r2[1]["n"] + 1], r2[1]
        return None, "%s" % (r,)

    def minimise(self, scs, rec, limit):
        t0 = time.monotonic()
        tried = 0
        per = 60
        if len(scs) > 1:            # first shorten the prefix
            while len(scs) > 1 and time.monotonic() - t0 < limit * 0.5:
                cands = [scs[:i] + scs[i + 1:] for i in range(len(scs) - 1)][:NW]
                rs = self.many(cands, per)
                tried += len(cands)
                for c, r in zip(cands, rs):
                    if r[0] == "violation" and r[1]["kind"] == rec["kind"]:
                        scs, rec = c, r[1]
                        break
                else:
                    break
        sc = scs[-1]
        plan = (rec.get("extra") or {}).get("plan")
        if plan and hasattr(self.mod, "with_plan"):     # pin the schedule before shrinking
            c = self.mod.with_plan(sc, plan)
            r = self.many([scs[:-1] + [c]], per)[0]
            tried += 1
            if r[0] == "violation" and r[1]["kind"] == rec["kind"]:
                sc, rec = c, r[1]
                scs = scs[:-1] + [c]
        progress = True
        while progress and time.monotonic() - t0 < limit:
            progress = False
            batch = []
            it = iter(self.mod.shrink(sc))
            seen = set()
            while True:
                batch = []
                for c in it:
                    c = json.loads(json.dumps(c))
                    h = json.dumps(c, sort_keys=True)
                    if h in seen or c == sc:
                        continue
                    seen.add(h)
                    batch.append(c)
                    if len(batch) == NW:
                        break
                if not batch:
                    break
                rs = self.many([scs[:-1] + [c] for c in batch], per)
                tried += len(batch)
                for c, r in zip(batch, rs):
                    if r[0] == "violation" and r[1]["kind"] == rec["kind"]:
                        sc, rec = c, r[1]
                        scs = scs[:-1] + [c]
                        progress = True
                        break
                if progress or time.monotonic() - t0 > limit:
                    break
        return scs, rec, tried


def size(scs):
    return len(json.dumps(scs))


def write_replay(prop, seed, tier, scs, rec, orig, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(scs, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-seed%d-%s.json" % (prop, seed, h))
    json.dump(dict(property=prop, seed=seed, tier=tier, run=orig["n"], scenarios=scs,
                   violation=dict(kind=rec["kind"], detail=rec["detail"], extra=rec.get("extra", {}), log=rec["log"]),
                   minimised=dict(candidates_tried=tried, bytes_before=size([orig["scenario"]]), bytes_after=size(scs))),
              open(path, "w"), indent=1)
    return path


def findings(prop):
    """Committed list of recorded defects: lines 'finding: property=ID id=... <text>'."""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(None, 2)[2].strip())
    return out


def evidence(h, tot, viols, wall, known):
    mod = h.mod
    c = tot["counters"]
    faults = {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(c.items()) if ":" not in k}
    nruns = len(tot["runs"])
    ev = dict(property=h.prop, tier=h.tier, seed=h.seed, level="exploration", wall_s=round(wall, 1),
              violations=viols, assumptions=mod.ASSUME,
              coverage=dict(
                  evaluations=int(c.get(mod.EVAL, nruns)),
                  distinct_nontrivial=len(tot["states"]),
                  rule=mod.RULE,
                  samples=[dict(run=s["n"], scenario=trim(s["scenario"]), observed=s.get("note")) for s in sorted(tot["samples"], key=lambda s: s["n"])[:3]],
                  simulated_runs=nruns,
                  runs_per_hour=round(3600 * nruns / max(tot["wall"], 1e-9)),
                  seeds_per_hour=round(3600 * nruns / max(tot["wall"], 1e-9)),
                  seed_range="runs %s of seed %d" % (("0..%d" % max(r[0] for r in tot["runs"])) if nruns else "-", h.seed),
                  simulated_time=mod.simtime(c),
                  faults_injected=faults, rare_condition_probes=probes, counters=other,
                  distinct_measure=mod.MEASURE,
                  real_components=mod.REAL, stub_components=mod.STUB,
                  workers=NW, worker_seconds=round(tot["worker_s"], 1), peak_rss_mb=tot["rss"],
                  known_findings=known))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", h.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def trim(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + " ..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    if a.selftest:
        return selftest()
    h = Harness(a.prop, a.tier, a.seed)
    import base
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            r = h.many([rep["scenarios"]], 600)[0]
            if r[0] == "violation":
                same = r[1]["log"] == rep["violation"]["log"] and r[1]["kind"] == rep["violation"]["kind"]
                print("reproduced: %s: %s" % (r[1]["kind"], r[1]["detail"]))
                print("event log %s (%s)" % (r[1]["log"], "identical" if same else "recorded: " + rep["violation"]["log"]))
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            print("not reproduced: %s" % (r[1] or "the property holds on this scenario"))
            return 0 if r[0] == "ok" else 2
        T = h.mod.TIERS[a.tier]
        budget = a.budget or T
        viol, errs, tot = h.explore(budget, budget + 330)
        known = []
        if os.environ.get("DST_SLOW"):
            for n, dt, _ in sorted(tot["runs"], key=lambda x: -x[1])[:12]:
                sc = h.mod.gen(base.rng_for(h.prop, h.seed, n), h.tier, n)
                print("slow: run %d %.1f s %s" % (n, dt, json.dumps(sc)[:300]))
        if viol is None and errs:
            print("HARNESS ERROR (no verdict): " + errs[0])
            return 2
        if viol is None:
            fk = getattr(h.mod, "known", None)
            for f in findings(a.prop):
                line = "KNOWN-FINDING: property=%s %s" % (a.prop, f)
                print(line)
                known.append(line)
            evidence(h, tot, 0, time.monotonic() - t0, known)
            print("%s: held on %d simulated runs (%d evaluations, %d distinct states) in %.0f s" % (
                a.prop, len(tot["runs"]), tot["counters"].get(h.mod.EVAL, 0), len(tot["states"]), time.monotonic() - t0))
            return 0
        print("run %d of seed %d: %s: %s" % (viol["n"], a.seed, viol["kind"], viol["detail"]))
        sys.stdout.flush()
        scs, rec = h.confirm(viol)
        tried = 0
        if scs is None and viol["kind"] == "hang":
            print("HARNESS ERROR (no verdict): a run that stood still does so no more: " + str(rec))
            return 2
        if scs is None:
            print("not reproduced in a fresh process: " + str(rec))
            # still a violation observed on real code; keep the whole scenario as the replay
            scs, rec = [viol["scenario"]], viol
        elif not a.no_minimise:
            scs, rec, tried = h.minimise(scs, rec, T_MIN)
        path = write_replay(a.prop, a.seed, a.tier, scs, rec, viol, tried)
        print("minimised (%d candidates) to %d bytes: %s: %s" % (tried, size(scs), rec["kind"], rec["detail"]))
        evidence(h, tot, 1, time.monotonic() - t0, known)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    finally:
        h.close()


def selftest():
    """setup: nothing to build; import every simulator and the library once"""
    import glob, base
    base.boot()
    base.Replica()
    for f in sorted(glob.glob(os.path.join(HERE, "c[0-9][0-9].py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    print("ok")
    return 0


T_MIN = 120.0

if __name__ == "__main__":
    sys.exit(main())
