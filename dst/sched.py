"""Deterministic scheduler and fault injector for the Python level of microjax.

Python 3.12 ``sys.monitoring`` LINE events are enabled on microjax's own code objects
only.  Every such event is a yield point: the thread that holds the token asks a seeded
generator whether to hand the token to another thread.  Real threads are parked on
semaphores and released one at a time, so the choice of who runs belongs to the
simulator.  The same events are the places where a fault (an exception) can be injected.
"""
import sys, threading, gc, types, random, time, os

mon = sys.monitoring
TOOL = 4
_state = {"codes": set(), "cur": None, "on": False}


def _cb(code, line):
    c = _state["cur"]
    if c is not None:
        return c.line(code, line)


def instrument(src):
    """(Re)scan loaded microjax functions; returns the number of code objects watched."""
    if not _state["on"]:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _cb)
        _state["on"] = True
    new = set()

    def rec(c):
        if c in new:
            return
        new.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                rec(k)
    for m in list(sys.modules):
        if m == "microjax" or m.startswith("microjax."):
            for c in _module_codes(sys.modules[m], src):
                rec(c)
    for c in new - _state["codes"]:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    _state["codes"] |= new
    return len(new)


def _module_codes(mod, src):
    out = []
    seen = set()

    def visit(o, depth=0):
        if id(o) in seen or depth > 4:
            return
        seen.add(id(o))
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(src):
                out.append(o.__code__)
            w = getattr(o, "__wrapped__", None)
            if w is not None:
                visit(w, depth + 1)
            return
        if isinstance(o, type):
            if getattr(o, "__module__", "").startswith("microjax"):
                for v in list(vars(o).values()):
                    visit(v, depth + 1)
            return
        if isinstance(o, (staticmethod, classmethod, property)):
            for a in ("__func__", "fget", "fset"):
                f = getattr(o, a, None)
                if f is not None:
                    visit(f, depth + 1)
            return
        for a in ("__wrapped__", "fun", "func", "jvp", "fwd", "bwd", "_fun", "_jvp"):
            try:
                f = getattr(o, a, None)
            except Exception:
                f = None
            if f is not None and callable(f):
                visit(f, depth + 1)
    for v in list(vars(mod).values()):
        if callable(v) or isinstance(v, type):
            visit(v)
    return out


class Injector:
    """Raises ``exc`` at the k-th watched line (counted over this activation)."""
    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.where = k, exc, 0, None
        self.tid = threading.get_ident()
        self.lines = set()

    def line(self, code, line):
        if threading.get_ident() != self.tid:
            return
        self.n += 1
        self.lines.add((code.co_name, line))
        if self.n == self.k:
            self.where = "%s:%d" % (code.co_name, line)
            raise self.exc

    def __enter__(self):
        _state["cur"] = self
        return self

    def __exit__(self, *a):
        _state["cur"] = None


class Stall(Exception):
    """The harness ran out of time (not a verdict)."""


class Deadlock(Exception):
    """Every thread runs freely and none makes progress."""


class Scheduler:
    """Runs callables on real threads, exactly one running at any moment.

    ``plan`` is None (seeded random) or an explicit list [[step, from, to], ...] taken
    from an earlier run; step counts yield points over all threads."""

    def __init__(self, seed, p, plan=None, burst=0):
        self.r = random.Random(seed)
        self.p = p
        self.plan = None if plan is None else {int(a): (int(b), int(c)) for a, b, c in plan}
        self.n = 0
        self.switches = []
        self.tid = {}
        self.done = threading.Event()
        self.stalls = 0
        self.errors = []
        self.cover = set()
        self.burst = burst
        self.hot = 0
        self.free = False

    def _pick(self, i):
        alive = self.alive
        if self.plan is not None:
            t = self.plan.get(self.n)
            if t is not None and t[1] in alive:
                return t[1]
            return i if i in alive else alive[0]
        return self.r.choice(alive)

    def line(self, code, line):
        i = self.tid.get(threading.get_ident())
        if i is None or self.free:
            self.n += 1
            return
        if self.holder != i:            # was presumed blocked and came back
            self.lk[i].acquire()
        self.n += 1
        if self.plan is None:
            p = self.p
            if self.hot > 0:
                self.hot -= 1
                p = 0.7
            if self.r.random() >= p:
                return
            j = self._pick(i)
            if self.burst and self.r.random() < 0.2:
                self.hot = self.burst
        else:
            if self.n not in self.plan:
                return
            j = self._pick(i)
        if j != i:
            self.switches.append([self.n, i, j])
            self.cover.add((code.co_name, line, j))
            self.holder = j
            self.lk[j].release()
            self.lk[i].acquire()

    def run(self, fns, limit=240.0):
        k = len(fns)
        self.alive = list(range(k))
        self.res = [None] * k
        self.lk = [threading.Semaphore(0) for _ in fns]

        def w(i):
            self.lk[i].acquire()
            self.tid[threading.get_ident()] = i
            try:
                self.res[i] = ("ok", fns[i]())
            except BaseException as e:
                self.res[i] = ("exc", "%s: %s" % (type(e).__name__, str(e)[:300]))
            self.tid.pop(threading.get_ident(), None)
            self.alive.remove(i)
            if self.alive:
                if self.holder == i:
                    j = self._pick(i)
                    self.switches.append([self.n, i, j])
                    self.holder = j
                    self.lk[j].release()
            else:
                self.done.set()
        ths = [threading.Thread(target=w, args=(i,), daemon=True) for i in range(k)]
        for t in ths:
            t.start()
        _state["cur"] = self
        try:
            self.holder = self._pick(self.alive[0]) if self.plan is None else \
                self.plan.get(0, (0, self.alive[0]))[1]
            self.switches.append([0, -1, self.holder])
            self.lk[self.holder].release()
            t0 = time.monotonic()
            last = (-1, -1.0)
            idle = 0
            while not self.done.wait(0.1):
                now = (self.n, time.process_time())
                if now[0] == last[0] and now[1] - last[1] < 0.02:
                    idle += 1
                else:
                    idle = 0
                last = now
                if idle >= 6:           # ~0.6 s without any progress: holder waits for a parked thread
                    idle = 0
                    self.stalls += 1
                    other = [a for a in self.alive if a != self.holder]
                    if self.free or not other:
                        raise Deadlock("threads %s make no progress even when all may run"
                                       % self.alive)
                    if self.stalls >= 8:        # let everyone run: only a real deadlock stays
                        self.free = True
                        for l in self.lk:
                            for _ in range(4):
                                l.release()
                        continue
                    j = other[self.stalls % len(other)]
                    self.holder = j
                    self.lk[j].release()
                if time.monotonic() - t0 > limit:
                    raise Stall("run exceeded %.0f s" % limit)
        finally:
            _state["cur"] = None
            for l in self.lk:
                for _ in range(4):
                    l.release()
        for t in ths:
            t.join(5)
        return self.res


def shrink_plan(sc, key):
    """Candidates with fewer explicit switches (delta debugging)."""
    plan = sc[key]["plan"]
    n = len(plan)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield dict(sc, **{key: dict(sc[key], plan=plan[:i] + plan[i + k:])})
        if k == 1:
            break
        k = max(1, k // 4)
