"""Deterministic simulator: seeded cooperative scheduling of real threads plus fault injection.

Every line (or bytecode instruction) executed inside /repo/cyclic_boosting by a simulated call is one
logical step.  At each step the simulator may (a) hand the baton to another parked task, (b) raise a fault
in the running call, (c) evaluate an invariant.  Exactly one task runs at any time, so one seed is one
execution.  All decisions come from one PRNG or from a recorded trace.
"""
import _thread
import ast
import dis
import gc
import os
import random
import sys
import threading
import time
import types
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "cyclic_boosting") + os.sep
TOOL = 3
mon = sys.monitoring
get_ident = _thread.get_ident

_CURRENT = {}  # thread ident -> Call being simulated
_ACTIVE = None  # granularity currently enabled
_CODES = None


class SimHang(Exception):
    """Wall-clock cap of one simulated run exceeded."""


class StepLimit(BaseException):
    """A simulated call exceeded its logical step budget (bounded liveness)."""


class Injected:
    """Marker mixin: exceptions raised by the fault injector."""


class SimKeyboardInterrupt(KeyboardInterrupt, Injected):
    pass


class SimSystemExit(SystemExit, Injected):
    pass


class SimMemoryError(MemoryError, Injected):
    pass


class SimOSError(OSError, Injected):
    pass


class SimRuntimeError(RuntimeError, Injected):
    pass


class SimValueError(ValueError, Injected):
    pass


EXC = {
    "KeyboardInterrupt": SimKeyboardInterrupt,
    "SystemExit": SimSystemExit,
    "MemoryError": SimMemoryError,
    "OSError": SimOSError,
    "RuntimeError": SimRuntimeError,
    "ValueError": SimValueError,
}
for _e in (TypeError, KeyError, IndexError, AttributeError, StopIteration, ZeroDivisionError):
    EXC[_e.__name__] = type("Sim" + _e.__name__, (_e, Injected), {"__module__": __name__})
    globals()["Sim" + _e.__name__] = EXC[_e.__name__]


def make_exc(kind, tag=""):
    return EXC[kind]("injected %s %s" % (kind, tag))


# ---------------------------------------------------------------------------------------------- seams


class SimLock:
    """Stand-in for threading.Lock/RLock created by code under test: contention becomes a scheduling
    decision and a cycle of waiters becomes a reported deadlock."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self.owner is None or (self.reentrant and self.owner == me):
            self.owner = me
            self.count += 1
            return True
        if not blocking:
            return False
        call = _CURRENT.get(me)
        task = call.task if call is not None else None
        if task is None or task.sim is None:
            raise RuntimeError("deadlock: lock is held and nobody can release it")
        ok = task.sim._block(task, lambda: self.owner is None, timeout >= 0)
        if not ok:
            return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_lock_seam():
    """Locks created from code inside the package become SimLocks.  Must run before it is imported."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def lock_factory(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            return SimLock()
        return real_lock(*a, **k)

    def rlock_factory(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            return SimLock(True)
        return real_rlock(*a, **k)

    threading.Lock = lock_factory
    threading.RLock = rlock_factory


class Clock:
    """Wall clock of the process: the real one until a run sets `now`."""

    now = None


def install_clock_seam():
    """Must run before the package is imported, so that functions it takes from the time module are these."""
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, name, _Now(getattr(time, name), 1.0))
        setattr(time, name + "_ns", _Now(getattr(time, name + "_ns"), 1e9))


class _Now:  # not a function, which would become a method as attribute of a class
    def __init__(self, real, unit):
        self.real, self.unit = real, unit

    def __call__(self):
        if Clock.now is None:
            return self.real()
        return Clock.now if self.unit == 1.0 else int(Clock.now * self.unit)


# ------------------------------------------------------------------------------------- instrumentation


def _collect_codes():
    codes = {}
    todo = []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if id(c) in codes or not c.co_filename.startswith(PKG):
            continue
        codes[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                todo.append(k)
    return list(codes.values()) + _dependency_codes()


def _dependency_codes():
    """Functions of dependencies whose instants belong to the interleavings of the package, because they
    keep something process-wide in between.  numexpr.evaluate hands its compiled expression to re_evaluate in a
    module global (validate() is left out: its steps depend on the history of a cache); check_array of
    scikit-learn changes the warning filters for a while."""
    fns = []
    try:
        from numexpr import necompiler as ne

        DEPS.add(ne.__file__)
        if hasattr(ne, "evaluate_lock"):
            ne.evaluate_lock = SimLock()
        fns += [getattr(ne, n, None) for n in ("evaluate", "re_evaluate")]
    except ImportError:
        pass
    try:
        from sklearn.utils import validation

        DEPS.add(validation.__file__)
        fns.append(getattr(validation, "check_array", None))
    except ImportError:
        pass
    return [f.__code__ for f in fns if isinstance(f, types.FunctionType)]


def setup_monitoring():
    global _CODES
    _CODES = _collect_codes()
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _on_event)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_event)
    return len(_CODES)


def enable(gran):
    global _ACTIVE
    if _ACTIVE == gran:
        return
    ev = {"line": mon.events.LINE, "ins": mon.events.INSTRUCTION, None: 0}[gran]
    for c in _CODES:
        mon.set_local_events(TOOL, c, ev)
    _ACTIVE = gran


def loc_id(code, where):
    """Location name independent of absolute line numbers of other functions."""
    if _ACTIVE == "line":
        return "%s+%d" % (code.co_qualname, where - code.co_firstlineno)
    return "%s@%d" % (code.co_qualname, where)


_CLEAN = {}
DEPS = set()  # instrumented files of dependencies


def cleanup_lines(fn):
    """Lines at which Python itself cannot guarantee cleanup: with/try headers, except and finally bodies."""
    if fn not in _CLEAN:
        out = set()
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])

        def span(n):
            out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
                out.add(n.lineno)
            elif isinstance(n, ast.Try):
                out.update(range(n.lineno, n.body[0].lineno))
                for h in n.handlers:
                    span(h)
                for s in n.finalbody:
                    span(s)
            elif isinstance(n, ast.FunctionDef) and n.name in ("__enter__", "__exit__", "__del__"):
                span(n)
        _CLEAN[fn] = out
    return _CLEAN[fn]


_GUARDED = {}


def guarded_lines(fn):
    """Lines of a file inside the bodies of try and with statements."""
    if fn not in _GUARDED:
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        _GUARDED[fn] = {ln for n in ast.walk(tree) if isinstance(n, (ast.Try, ast.With))
                        for b in n.body for ln in range(b.lineno, b.end_lineno + 1)}
    return _GUARDED[fn]


def legal(frame):
    """Whether a fault may be raised now: not inside cleanup code, where no program could stay consistent."""
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.startswith(PKG) or fn in DEPS:
            if frame.f_lineno in cleanup_lines(fn):
                return False
        elif fn.endswith("contextlib.py") and frame.f_code.co_name in ("__enter__", "__exit__"):
            return False
        frame = frame.f_back
    return True


class Call:
    """One simulated operation in one thread."""

    __slots__ = (
        "op", "step", "faults", "fired", "task", "rec", "hook", "hook_every", "filter", "limit", "busy",
        "limit_hit", "last", "kinds", "armed",
    )

    def __init__(self, op, faults=None, task=None, rec=None, hook=None, hook_every=1, filter=None, limit=0):
        self.op = op
        self.step = 0
        self.faults = dict(faults or {})
        self.armed = min(self.faults) if self.faults else 1 << 60
        self.fired = []
        self.task = task
        self.rec = rec
        self.hook = hook
        self.hook_every = hook_every
        self.filter = filter or legal
        self.limit = limit or 1 << 60
        self.busy = False
        self.limit_hit = False
        self.last = None


def _on_event(code, where):
    call = _CURRENT.get(get_ident())
    if call is None or call.busy:
        return
    call.step = step = call.step + 1
    if call.rec is not None:
        call.rec.append((code, where))
    if call.hook is not None and step % call.hook_every == 0:
        call.busy = True
        try:
            call.hook(call, code, where)
        finally:
            call.busy = False
    if step >= call.armed:
        _fire(call, code, where)
    if step > call.limit:
        call.limit_hit = True
        call.limit = step + 1000
        raise StepLimit("step budget exceeded in %s at %s" % (call.op, loc_id(code, where)))
    task = call.task
    if task is not None and task.sim is not None:
        task.sim._step(task, call, code, where)


def io_point(label):
    """Scheduling point inside a simulated device (stub I/O), seen from whichever task is running."""
    call = _CURRENT.get(get_ident())
    if call is None or call.busy:
        return
    call.step += 1
    task = call.task
    if task is not None and task.sim is not None:
        task.sim._step(task, call, _IO_CODE, 0)


def _io_device():
    pass


_IO_CODE = _io_device.__code__


def _fire(call, code, where):
    due = [s for s in call.faults if s <= call.step]
    if not due:
        call.armed = min(call.faults) if call.faults else 1 << 60
        return
    s = min(due)
    kind = call.faults[s]
    if call.filter is not None and not call.filter(sys._getframe(2)):
        return  # not a legal instant for this fault; retry at the next step
    del call.faults[s]
    call.armed = min(call.faults) if call.faults else 1 << 60
    call.fired.append([call.step, kind, loc_id(code, where)])
    raise make_exc(kind, "at %s" % loc_id(code, where))


class Outcome:
    __slots__ = ("op", "kind", "value", "exc", "fired", "steps", "limit_hit")

    def __init__(self, op, kind, value, exc, fired, steps, limit_hit):
        self.op, self.kind, self.value, self.exc = op, kind, value, exc
        self.fired, self.steps, self.limit_hit = fired, steps, limit_hit

    def describe(self):
        if self.kind == "ok":
            return "ok"
        return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:160])


def _run_call(call, fn, ident):
    prev = _CURRENT.get(ident)
    _CURRENT[ident] = call
    try:
        try:
            v = fn()
            kind, exc = "ok", None
        except BaseException as e:  # noqa: B902  (faults are BaseExceptions)
            v, kind, exc = None, "exc", e
    finally:
        if prev is None:
            del _CURRENT[ident]
        else:
            _CURRENT[ident] = prev
    if exc is not None:
        # drop traceback frames: they would keep objects of the aborted call alive
        tb = exc.__traceback__
        exc.__traceback__ = None
        del tb
    return Outcome(call.op, kind, v, exc, call.fired, call.step, call.limit_hit)


def solo(fn, op="solo", faults=None, rec=None, hook=None, hook_every=1, filter=None, limit=0):
    """Run one operation alone in this thread as a simulated call."""
    enable("line")
    call = Call(op, faults, None, rec, hook, hook_every, filter, limit)
    return _run_call(call, fn, get_ident())


def profile(fn, op="profile", filter=None):
    """Fault-free run recording the location of every step."""
    rec = []
    out = solo(fn, op, rec=rec)
    return out, rec


def resolve_fault(pick, rec):
    """Turn an abstract pick into a step number using the profile of a fault-free run.

    ["step", n]     absolute step
    ["frac", u]     uniform over steps
    ["loc", u, v]   uniform over distinct code locations, then over its visits
    ["guarded", u, v]  the same over locations inside try and with blocks, or a few steps later (in what they call)
    ["hot", u, v]   the same over locations touching state that outlives the call, or a few steps later
    """
    if pick[0] == "step":
        return int(pick[1])
    n = len(rec)
    if n == 0:
        return 1
    if pick[0] == "frac":
        return 1 + min(n - 1, int(pick[1] * n))
    locs = {}
    for i, (c, w) in enumerate(rec):
        locs.setdefault((c.co_qualname, c.co_firstlineno, w), []).append(i)
    keys = sorted(locs)
    if pick[0] == "guarded":
        keys = sorted({(c.co_qualname, c.co_firstlineno, w) for c, w in rec
                       if c.co_filename.startswith(PKG) and w in guarded_lines(c.co_filename)}) or keys
    elif pick[0] == "hot":
        keys = hot_keys(rec, pick[1]) or keys
    visits = locs[keys[min(len(keys) - 1, int(pick[1] * len(keys)))]]
    # first and last visits are the interesting ones: half of the mass there
    v = pick[2]
    if v < 0.25:
        i = visits[0]
    elif v < 0.5:
        i = visits[-1]
    else:
        i = visits[min(len(visits) - 1, int((v - 0.5) * 2 * len(visits)))]
    if pick[0] == "guarded":
        i = min(n - 1, i + int(v * 1e6) % 40 // 2 * (int(v * 1e5) % 2))
    elif pick[0] == "hot":
        i = min(n - 1, i + int(v * 1e6) % 6)
    return i + 1


def hot_keys(rec, u=0.0):
    """Visited locations touching mutable module-level objects; without any, or for some u, those storing attributes
    or items.  (Only a choice of where to look: nothing is judged by it.)"""
    out = [set(), set()]
    for c, w in set(rec):
        if c.co_filename.startswith(PKG):
            for k in (0, 1):
                if w in hot_lines(c)[k]:
                    out[k].add((c.co_qualname, c.co_firstlineno, w))
    return sorted(out[0] if out[0] and int(u * 1e6) % 3 else out[1])


_HOT = {}


def hot_lines(code):
    if code not in _HOT:
        glob = {}
        for m in list(sys.modules.values()):
            if getattr(m, "__file__", None) == code.co_filename:
                glob = m.__dict__
        shared, stores, line = set(), set(), code.co_firstlineno
        for ins in dis.get_instructions(code):
            line = (ins.positions and ins.positions.lineno) or line
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                shared.add(line)
            elif ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = glob.get(ins.argval)
                if v is not None and not callable(v) and not isinstance(v, _PLAIN) and not type(v).__module__.startswith(
                        ("logging", "_thread", "threading", "dst", "typing")):
                    shared.add(line)
            elif ins.opname in ("STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR"):
                stores.add(line)
        _HOT[code] = (shared, stores)
    return _HOT[code]


_PLAIN = (int, float, complex, str, bytes, tuple, frozenset, bool, types.ModuleType, type)


def gen_pick(rng, guarded=0.15):
    u = rng.random()
    if rng.random() < 0.12:
        return ["hot", round(rng.random(), 6), round(rng.random(), 6)]
    if u < 0.45 * (1 - guarded) / 0.85:
        return ["frac", round(rng.random(), 6)]
    return ["guarded" if u > 1 - guarded else "loc", round(rng.random(), 6), round(rng.random(), 6)]


# ------------------------------------------------------------------------------------------- scheduler


class Task:
    def __init__(self, idx, name, ops):
        self.idx, self.name, self.ops = idx, name, ops
        self.sim = None
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.blocked = None
        self.parked = False
        self.call = None
        self.prio = 0
        self.steps = 0


class Policy:
    """Decides at every step who runs next.  spec is plain JSON; 'trace' replays recorded switches."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random(spec.get("seed", 0))
        self.total = 0
        if self.kind == "trace":
            self.table = {(s[0], s[1]): s[2] for s in spec["switches"]}
        elif self.kind == "pct":
            self.changes = set()
        elif self.kind == "burst":
            self.left = 0

    def start(self, sim):
        n = len(sim.tasks)
        if self.kind == "pct":
            pr = list(range(n))
            self.rng.shuffle(pr)
            for t, p in zip(sim.tasks, pr):
                t.prio = p + 1000
            self.changes = {self.rng.randrange(1, max(2, self.spec["horizon"])) for _ in range(self.spec["depth"])}
            self.low = 999
        if self.kind == "rendezvous":
            self.waiting = {}
            self.loc = self.spec["loc"]
            self.visit = self.spec.get("visit", 1)
            self.seen = {}

    def first(self, sim):
        if self.kind == "trace":
            nxt = self.table.get(("start", 0))
            return sim.tasks[nxt] if nxt is not None else sim.tasks[0]
        if self.kind == "pct":
            return max(sim.tasks, key=lambda t: t.prio)
        return self.rng.choice(sim.tasks)

    def pick_other(self, sim, t, others):
        if not others:
            return None
        if self.kind == "pct":
            return max(others, key=lambda x: x.prio)
        if self.kind == "trace":
            return min(others, key=lambda x: x.idx)
        free = [o for o in others if not o.parked]
        return self.rng.choice(free or others)

    def decide(self, sim, t, call, code, where):
        k = self.kind
        if k == "trace":
            nxt = self.table.get((call.op, call.step))
            if nxt is None or nxt == t.idx:
                return None
            nt = sim.tasks[nxt] if nxt < len(sim.tasks) else None
            return nt if nt is not None and sim.runnable(nt) else None
        if k == "serial":
            return None
        if k == "walk":
            if self.rng.random() < self.spec["p"]:
                return self.pick_other(sim, t, sim.others(t))
            return None
        if k == "burst":
            self.left -= 1
            if self.left > 0:
                return None
            self.left = 1 + int(self.rng.expovariate(1.0 / self.spec["mean"]))
            return self.pick_other(sim, t, sim.others(t))
        if k == "pct":
            self.total += 1
            if self.total in self.changes:
                t.prio = self.low
                self.low -= 1
            others = sim.others(t)
            if others:
                b = max(others, key=lambda x: x.prio)
                if b.prio > t.prio:
                    return b
            return None
        if k == "stall":
            # park the victim at one step until everybody else has finished
            v = self.spec["victims"].get(call.op)
            if v is not None and call.step == v:
                others = sim.others(t)
                if others:
                    t.parked = True
                    return self.pick_other(sim, t, others)
            if self.spec.get("p") and self.rng.random() < self.spec["p"]:
                free = [o for o in sim.others(t) if not o.parked]
                if free:
                    return self.rng.choice(free)
            return None
        if k == "rendezvous":
            # everybody is held at its n-th visit of one location; then released in random order
            if not t.parked and (code.co_qualname, where - code.co_firstlineno) == tuple(self.loc):
                key = (t.idx, call.op)
                self.seen[key] = self.seen.get(key, 0) + 1
                if self.seen[key] == self.visit:
                    free = [o for o in sim.others(t) if not o.parked]
                    if free:
                        t.parked = True
                        return self.rng.choice(free)
                    for o in sim.tasks:
                        o.parked = False
                    self.visit += 1
                    return self.pick_other(sim, t, sim.others(t))
            if self.rng.random() < self.spec.get("p", 0.0):
                free = [o for o in sim.others(t) if not o.parked]
                if free:
                    return self.rng.choice(free)
            return None
        raise ValueError(k)

    def after_end(self, sim, t, others):
        if self.kind == "trace":
            nxt = self.table.get(("end", t.idx))
            if nxt is not None and nxt < len(sim.tasks) and sim.tasks[nxt] in others:
                return sim.tasks[nxt]
        return self.pick_other(sim, t, others)


class Sim:
    """A set of tasks (threads), each a list of (op id, callable), run under one policy."""

    def __init__(self, policy, gran="line", faults=None, filter=None, hook=None, hook_every=1, limits=None,
                 wall=120.0):
        self.policy = Policy(policy)
        self.gran = gran
        self.faults = faults or {}
        self.filter = filter
        self.hook, self.hook_every = hook, hook_every
        self.limits = limits or {}
        self.tasks = []
        self.outcomes = {}
        self.order = []  # (op, 'begin'|'end') history in simulated order
        self.trace = []
        self.switch_locs = []
        self.hash = 0
        self.steps = 0
        self.deadlock = None
        self.wall = wall
        self.main_lock = _thread.allocate_lock()

    def task(self, name, ops):
        t = Task(len(self.tasks), name, ops)
        t.sim = self
        self.tasks.append(t)
        return t

    # -- queries used by policies
    def runnable(self, t):
        return not t.done and (t.blocked is None or t.blocked())

    def others(self, t):
        return [o for o in self.tasks if o is not t and self.runnable(o)]

    # -- stepping
    def _step(self, t, call, code, where):
        self.steps += 1
        t.steps += 1
        nxt = self.policy.decide(self, t, call, code, where)
        if nxt is not None and nxt is not t:
            self._note(call.op, call.step, t, nxt, "%s" % loc_id(code, where))
            self._switch(t, nxt)

    def _note(self, op, step, t, nxt, loc):
        self.trace.append([op, step, nxt.idx])
        self.hash = zlib.crc32(("%d:%s>%d" % (t.idx, loc, nxt.idx)).encode(), self.hash)
        if len(self.switch_locs) < 20000:
            self.switch_locs.append(loc)

    def _switch(self, t, nxt):
        nxt.lock.release()
        t.lock.acquire()

    def _block(self, t, ready, timed):
        """t waits for ready(); a lock acquisition inside the code under test."""
        call = t.call
        t.blocked = ready
        while not ready():
            others = self.others(t)
            if not others:
                t.blocked = None
                if timed:
                    return False
                self.deadlock = "all tasks wait for locks (op %s)" % call.op
                raise RuntimeError("simulated deadlock")
            nxt = self.policy.pick_other(self, t, others)
            call.step += 1
            self._note(call.op, call.step, t, nxt, "lock-wait")
            self._switch(t, nxt)
        t.blocked = None
        return True

    def _thread(self, t):
        ident = get_ident()
        t.lock.acquire()
        for op, fn in t.ops:
            call = Call(op, self.faults.get(op), t, None, self.hook, self.hook_every, self.filter,
                        self.limits.get(op, 0))
            t.call = call
            self.order.append([op, "begin"])
            out = _run_call(call, fn, ident)
            self.order.append([op, "end"])
            self.outcomes[op] = out
            # operation boundary is a scheduling point as well
            others = self.others(t)
            if others and op != t.ops[-1][0]:
                pol = self.policy
                nxt = None
                if pol.kind == "trace":
                    i = pol.table.get((op, -1))
                    if i is not None and i < len(self.tasks) and self.tasks[i] in others:
                        nxt = self.tasks[i]
                elif pol.kind in ("walk", "burst", "rendezvous") and pol.rng.random() < 0.5:
                    nxt = pol.pick_other(self, t, others)
                if nxt is not None:
                    self._note(op, -1, t, nxt, "op-boundary")
                    self._switch(t, nxt)
        t.done = True
        t.call = None
        others = self.others(t)
        if not others:
            rest = [o for o in self.tasks if not o.done]
            if rest:
                self.deadlock = self.deadlock or "blocked tasks remain"
                others = rest
        if others:
            for o in others:
                if all(x.parked for x in others):
                    o.parked = False
            nxt = self.policy.after_end(self, t, others)
            self._note("end", t.idx, t, nxt, "task-end")
            nxt.lock.release()
        else:
            self.main_lock.release()

    def run(self):
        enable(self.gran)
        self.main_lock.acquire()
        self.policy.start(self)
        for t in self.tasks:
            _thread.start_new_thread(self._thread, (t,))
        first = self.policy.first(self)
        self.trace.append(["start", 0, first.idx])
        first.lock.release()
        if not self.main_lock.acquire(timeout=self.wall):
            raise SimHang("simulated run exceeded %.0f s wall clock" % self.wall)
        enable("line")
        return self.outcomes


def gen_policy(rng, horizon=4000, ops=(), profiles=None):
    """Swarm: every run draws one scheduling strategy and its parameters."""
    k = rng.choice(["walk", "walk", "burst", "burst", "pct", "stall", "stall", "stall", "rendezvous"])
    spec = {"kind": k, "seed": rng.randrange(1 << 30)}
    if k == "walk":
        spec["p"] = rng.choice([1.0, 0.5, 0.2, 0.05, 0.02])
    elif k == "burst":
        spec["mean"] = rng.choice([2, 5, 15, 60, 250])
    elif k == "pct":
        spec["depth"] = rng.choice([1, 2, 3, 5])
        spec["horizon"] = horizon
    elif k == "stall":
        n = rng.choice([1, 1, 2])
        spec["picks"] = {o: gen_pick(rng) if rng.random() < 0.75 else ["hot", round(rng.random(), 6), round(rng.random(), 6)]
                         for o in rng.sample(list(ops), min(n, len(ops)))}
        spec["p"] = rng.choice([0.0, 0.0, 0.05])
    elif k == "rendezvous":
        spec["u"] = round(rng.random(), 6)
        spec["hot"] = rng.random() < 0.35
        spec["p"] = rng.choice([0.0, 0.05, 0.2])
    return spec


def resolve_policy(spec, profiles):
    """Fill in location/step dependent parameters from profiles {op: rec}."""
    spec = dict(spec)
    if spec["kind"] == "stall":
        if "victims" not in spec:
            spec["victims"] = {o: resolve_fault(p, profiles[o]) for o, p in spec["picks"].items() if o in profiles}
    elif spec["kind"] == "rendezvous":
        if "loc" not in spec:
            # prefer locations visited by more than one op
            cnt = {}
            for rec in profiles.values():
                for key in {(c.co_qualname, w - c.co_firstlineno) for c, w in rec}:
                    cnt[key] = cnt.get(key, 0) + 1
            keys = sorted(k for k, n in cnt.items() if n > 1) or sorted(cnt) or [("none", 0)]
            if spec.get("hot"):
                hot = {(q, w - f) for rec in profiles.values() for q, f, w in hot_keys(rec, spec["u"])}
                keys = [k for k in keys if any((k[0], k[1] - d) in hot for d in (0, 1, 2))] or keys
            spec["loc"] = list(keys[min(len(keys) - 1, int(spec["u"] * len(keys)))])
    return spec
