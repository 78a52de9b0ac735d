"""Runs scenarios of one property in one process and writes one JSON line per event.

Exit status says nothing; the parent reads the lines:
  {"ev":"run", n, viol?}   one finished simulated run
  {"ev":"violation", ...}  a property violation, with the scenario that produced it
  {"ev":"error", ...}      the harness itself failed
  {"ev":"end", ...}        totals
"""
import os, sys, json, time, argparse, importlib, traceback, resource, threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import base


def setup_jax(cache):
    base.boot()
    c = base.jax.config
    if cache:
        c.update("jax_compilation_cache_dir", cache)
        c.update("jax_persistent_cache_min_compile_time_secs", 0.05)
        c.update("jax_persistent_cache_min_entry_size_bytes", -1)


def run_one(mod, sc, ctx):
    """-> None or dict(kind, detail, extra)"""
    sc = json.loads(json.dumps(sc))
    try:
        mod.run(sc, ctx)
        return None
    except base.Bad as b:
        return dict(kind=b.kind, detail=b.detail, extra=b.extra)


EXIT, SLEEP = os._exit, time.sleep       # a simulator may stand in for these
HANG = float(os.environ.get("DST_HANG", "45"))


class Watchdog(threading.Thread):
    """Reports a run that is blocked for good: no processor time used for HANG seconds.

    A call that never returns is a violation of every property here; the run is written
    out as one and the process ends."""
    def __init__(self, put):
        threading.Thread.__init__(self, daemon=True)
        self.put, self.cur = put, None

    def run(self):
        import time as t
        last, idle = 0.0, 0         # counted in own wake-ups: a paused machine does not count
        while True:
            SLEEP(1.0)
            c = t.process_time()
            if self.cur is None or c - last > 0.25:
                last, idle = c, 0
                continue
            idle += 1
            if idle > HANG:
                n, sc, log = self.cur
                f = sys._current_frames().get(threading.main_thread().ident)
                lib = [x for x in traceback.extract_stack(f) if "microjax" in x.filename]
                where = "%s:%d in %s" % (os.path.basename(lib[-1].filename), lib[-1].lineno, lib[-1].name) if lib else "?"
                self.put(ev="violation", n=n, scenario=sc, log="hang", kind="hang", extra={},
                         detail="a call never returns (blocked at %s)" % where)
                self.put(ev="end", runs=0, counters={}, states=[], explore_s=0, rss=0)
                EXIT(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--k", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--maxruns", type=int, default=10 ** 9)
    ap.add_argument("--scenarios")          # JSON list: run exactly these, in order
    ap.add_argument("--out", required=True)
    ap.add_argument("--cache", default="")
    ap.add_argument("--digest", action="store_true")
    a = ap.parse_args()
    out = open(a.out, "a", buffering=1)

    def put(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()
    try:
        setup_jax(a.cache)
        mod = importlib.import_module(a.prop.lower())
        ctx = base.Ctx()
        t0 = time.monotonic()
        done = 0
        dog = Watchdog(put)
        dog.start()
        if a.scenarios:
            scs = json.load(open(a.scenarios))
            for j, sc in enumerate(scs):
                dog.cur = (j, sc, None)
                v = run_one(mod, sc, ctx)
                dog.cur = None
                done += 1
                if v:
                    put(ev="violation", n=j, scenario=sc, log=ctx.log.hexdigest()[:16], **v)
                    break
        else:
            # a wall budget decides only how many seeds are run, never what one seed does
            i = 0
            while i < a.maxruns and (i == 0 or time.monotonic() - t0 < a.budget):
                n = a.k + i * a.of
                sc = mod.gen(base.rng_for(a.prop, a.seed, n), a.tier, n)
                sc["n"] = n
                if a.digest:
                    ctx.log = type(ctx.log)(); import hashlib; ctx.log = hashlib.sha256()
                t1 = time.monotonic()
                dog.cur = (n, sc, None)
                v = run_one(mod, sc, ctx)
                dog.cur = None
                i += 1
                done += 1
                put(ev="run", n=n, log=ctx.log.hexdigest()[:16], dt=round(time.monotonic() - t1, 2))
                if i <= 2:
                    put(ev="sample", n=n, scenario=sc, note=ctx.notes.get("sample"))
                if v:
                    put(ev="violation", n=n, scenario=sc, log=ctx.log.hexdigest()[:16], **v)
                    break
        put(ev="end", runs=done, counters=dict(ctx.c), states=sorted(ctx.states),
            explore_s=time.monotonic() - t0,
            rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
    except BaseException as e:
        put(ev="error", what="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    out.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
