"""Deterministic scheduler: real threads, released one at a time.

Every caller of the library is a real thread that only runs while it holds the
baton.  The points where it may lose the baton - or where a fault may be
injected into it - are *events*: the start of each source line of the library,
the entry of each library function, and each call that leaves the library
(callbacks, FIAT, gem).  Events are numbered per operation, so an execution is
fully described by  (caller, operation, event) -> next caller / fault.

In `explore` mode a PRNG decides and every decision is recorded; in `replay`
mode the recorded decisions are looked up.  Nothing here reads a clock.
"""
import dis
import gc
import os
import sys
import types
import threading
import _thread
import hashlib


class SimInterrupt(KeyboardInterrupt):
    """An asynchronous interrupt delivered to the running caller."""


class SimMemoryError(MemoryError):
    """An allocation that failed."""


class SimLowerFailure(RuntimeError):
    """A failure inside a layer the library called into."""


class SimCrash(BaseException):
    """The whole process stops here."""


class SimDeadlock(BaseException):
    pass


class SimRunaway(BaseException):
    pass


FAULT_TYPES = {"interrupt": SimInterrupt, "memory": SimMemoryError, "lower": SimLowerFailure, "crash": SimCrash}
INJECTED = (SimInterrupt, SimMemoryError, SimLowerFailure)

MAX_EVENTS_PER_OP = 3_000_000

SRC_ROOT = None      # directory of the library, set by boot()
_kinds = {}          # code object -> None | short file name
_splat = {}          # code object -> offsets of f(*args) calls: the interpreter mishandles
#                      (frees twice) an exception raised while reporting those
_with = {}           # code object -> {line of a with statement: where its body starts}; leaving
#                      a with block is one step: no interrupt can land just before the release
_current = None      # the Sim now running, if any


def set_root(path):
    global SRC_ROOT
    SRC_ROOT = os.path.realpath(path) + os.sep


# --------------------------------------------------------------------------
# instrumentation: every code object of the library reports its lines, entries
# and outgoing calls; nothing else in the process pays for it

TOOL = 4


def instrument():
    """Call once, when all modules of the library are loaded."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "finsim")
    E = mon.events
    todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType and _inside(f.__code__)]
    seen = set()
    while todo:
        c = todo.pop()
        if c in seen or not _inside(c):
            continue
        seen.add(c)
        _kinds[c] = c.co_filename[len(SRC_ROOT):]
        mon.set_local_events(TOOL, c, E.LINE | E.PY_START | E.CALL)
        _splat[c] = {i.offset for i in dis.get_instructions(c) if i.opname == "CALL_FUNCTION_EX"}
        _with[c] = {}
        ins = list(dis.get_instructions(c))
        line = None
        for i in ins:
            line = i.positions.lineno if i.positions and i.positions.lineno else line
            if i.opname in ("BEFORE_WITH", "BEFORE_ASYNC_WITH"):
                _with[c][line] = i.offset
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    mon.register_callback(TOOL, E.LINE, _on_line)
    mon.register_callback(TOOL, E.PY_START, _on_start)
    mon.register_callback(TOOL, E.CALL, _on_call)
    return len(seen)


def _inside(code):
    return code.co_filename.startswith(SRC_ROOT)


def _on_line(code, line):
    sim = _current
    if sim is None:
        return
    me = sim.by_tid.get(_thread.get_ident())
    if me is not None and me.active:
        w = _with[code].get(line)
        leaving = w is not None and sys._getframe(1).f_lasti > w
        sim.event(me, "%s:%d" % (_kinds[code], line), "splat" if leaving else "line")


def _on_start(code, offset):
    sim = _current
    if sim is None:
        return
    me = sim.by_tid.get(_thread.get_ident())
    if me is not None and me.active:
        sim.event(me, "%s:%s" % (_kinds[code], code.co_name), "call")


_LOWER = ("gem", "FIAT", "numpy", "sympy", "symengine", "ufl", "finsim", "scipy", "math", "functools", "itertools", "recursivenodes")


def _on_call(code, offset, fn, arg0):
    sim = _current
    if sim is None:
        return
    me = sim.by_tid.get(_thread.get_ident())
    if me is None or not me.active:
        return
    c = getattr(fn, "__code__", None)
    if c is not None and c in _kinds:
        return
    mod = getattr(fn, "__module__", None)
    if not isinstance(mod, str):
        mod = type(fn).__module__
    if mod.split(".")[0] not in _LOWER or mod == __name__:
        return
    name = getattr(fn, "__name__", None)
    if not isinstance(name, str):
        name = type(fn).__name__
    sim.event(me, "%s@%d>%s" % (_kinds[code], offset, name), "exit" if offset not in _splat[code] else "splat")


class SimLock:
    """Stands in for a lock the library creates: waiting is a scheduling point."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _current
        me = sim.me() if sim is not None else None
        who = me if me is not None else "main"
        while self.owner is not None and not (self.reentrant and self.owner is who):
            if not blocking or timeout == 0:
                return False
            if me is None:
                raise SimDeadlock("lock held outside any caller")
            sim.block(me, self)
        self.owner = who
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """Locks made by library modules become simulated ones; all others stay."""
    for name, cls in (("Lock", SimLock), ("RLock", SimRLock)):
        real = getattr(threading, name)

        def make(*a, _real=real, _cls=cls, **k):
            g = sys._getframe(1).f_globals.get("__name__", "")
            return _cls() if g.split(".")[0] == "finat" else _real(*a, **k)
        setattr(threading, name, make)


class Caller:
    def __init__(self, idx, nops):
        self.idx = idx
        self.nops = nops
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.waiting = None
        self.op = -1
        self.ev = 0
        self.atomic = 0
        self.fired = None       # fault that fired in the current op
        self.fault_plan = None
        self.tid = None
        self.active = False     # inside a traced library call
        self.seen = None


class Policy:
    """Knobs of one run; drawn once per run, recorded in the plan."""
    def __init__(self, d):
        self.p_new = d.get("p_new", 0.0)        # switch probability at a site not yet visited in this run
        self.p_old = d.get("p_old", 0.0)        # ... at an already visited site
        self.p_enter = d.get("p_enter", 0.0)    # ... at function entry
        self.max_switch = d.get("max_switch", 200)
        self.hazard_new = d.get("hazard_new", 0.0)
        self.hazard_old = d.get("hazard_old", 0.0)


class Sim:
    def __init__(self, ncallers, nops, policy, rng=None, script=None):
        self.callers = [Caller(i, n) for i, n in zip(range(ncallers), nops)]
        self.by_tid = {}
        self.policy = Policy(policy)
        self.rng = rng
        self.replay = script is not None
        script = script or {}
        self.script_sw = {tuple(k): v for k, v in script.get("switches", [])}
        self.script_faults = {tuple(k): v for k, v in script.get("faults", [])}
        self.switches = []       # recorded [[caller, op, ev], next]
        self.faults = []         # recorded [[caller, op, ev], kind]
        self.trace = hashlib.sha256()
        self.ntrace = 0
        self.sites = set()
        self.fault_sites = []
        self.switch_sites = []
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.total_events = 0
        self.fault_kinds = {}
        self.problem = None
        self.crashed = False
        self.on_crash = None

    # -- identity -----------------------------------------------------------
    def me(self):
        return self.by_tid.get(_thread.get_ident())

    def note(self, *a):
        self.ntrace += 1
        self.trace.update(repr(a).encode())

    # -- switching ----------------------------------------------------------
    def runnable(self, but=None):
        return [c for c in self.callers
                if not c.done and c is not but and (c.waiting is None or c.waiting.owner is None)]

    def hand_over(self, me, nxt):
        nxt.waiting = None
        nxt.baton.release()
        me.baton.acquire()

    def block(self, me, lock):
        me.waiting = lock
        others = self.runnable(but=me)
        if not others:
            me.waiting = None
            self.problem = ("deadlock", "every caller waits for a lock")
            raise SimDeadlock("every caller waits for a lock")
        self.note("block", me.idx)
        nxt = others[0] if self.replay else self.rng.choice(others)
        key = (me.idx, me.op, -2 - me.ev)
        if self.replay:
            want = self.script_sw.get(key)
            for o in others:
                if o.idx == want:
                    nxt = o
        else:
            self.switches.append([list(key), nxt.idx])
        self.hand_over(me, nxt)
        me.waiting = None

    def maybe_switch(self, me, key, p, site):
        if self.replay:
            want = self.script_sw.get(key)
            if want is None:
                return
            for o in self.runnable(but=me):
                if o.idx == want:
                    self._do_switch(me, o, key, site)
                    return
            return
        if p <= 0 or len(self.switches) >= self.policy.max_switch:
            return
        if self.rng.random() < p:
            others = self.runnable(but=me)
            if others:
                nxt = self.rng.choice(others)
                self._do_switch(me, nxt, key, site)

    def _do_switch(self, me, nxt, key, site):
        self.switches.append([list(key), nxt.idx])
        self.switch_sites.append(site)
        self.note("switch", key, nxt.idx, site)
        self.hand_over(me, nxt)

    # -- events -------------------------------------------------------------
    def event(self, me, site, etype):
        if self.crashed:
            raise SimCrash()
        me.ev += 1
        self.total_events += 1
        key = (me.idx, me.op, me.ev)
        if me.ev > MAX_EVENTS_PER_OP:
            self.problem = ("runaway", "no progress after %d steps at %s" % (me.ev, site))
            raise SimRunaway()
        new_op = site not in me.seen
        if new_op:
            me.seen.add(site)
        new = site not in self.sites
        if new:
            self.sites.add(site)
        # faults first: the instant before the line executes
        if self.replay:
            kind = self.script_faults.get(key)
        else:
            kind = None
            fp = me.fault_plan
            if fp is not None and me.fired is None and etype != "splat":
                if self.rng.random() < (self.policy.hazard_new if new_op else self.policy.hazard_old):
                    kind = fp if etype != "exit" or fp == "crash" else self.rng.choice([fp, "lower"])
                    if kind == "lower" and etype != "exit":
                        kind = None
        if kind is not None:
            me.fired = kind
            self.faults.append([list(key), kind])
            self.fault_sites.append("%s@%s" % (kind, site))
            self.fault_kinds[kind] = self.fault_kinds.get(kind, 0) + 1
            self.note("fault", key, kind, site)
            if kind == "crash":
                self.crashed = True
                if self.on_crash is not None:
                    self.on_crash()
            raise FAULT_TYPES[kind]("injected at %s" % site)
        if len(self.callers) > 1 and not me.atomic:
            pol = self.policy
            p = pol.p_enter if etype == "call" else (pol.p_new if new else pol.p_old)
            self.maybe_switch(me, key, p, site)

    # -- running ------------------------------------------------------------
    def _thread_main(self, me, body):
        me.tid = _thread.get_ident()
        self.by_tid[me.tid] = me
        me.baton.acquire()
        try:
            for i in range(me.nops):
                me.op, me.ev, me.fired, me.seen = i, 0, None, set()
                me.fault_plan = None
                body(me, i)
                # operation boundary
                self.note("op", me.idx, i, me.ev, me.fired)
                if i + 1 < me.nops:
                    self.maybe_switch(me, (me.idx, i, 0), self.policy.p_enter, "boundary")
        except BaseException as e:           # harness trouble: report, do not hang
            if self.problem is None:
                import traceback
                self.problem = ("harness", "".join(traceback.format_exception(e))[-3000:])
        finally:
            me.active = False
            me.done = True
            others = self.runnable()
            if others:
                key = (me.idx, me.op, -1)
                nxt = others[0]
                if self.replay:
                    want = self.script_sw.get(key)
                    for o in others:
                        if o.idx == want:
                            nxt = o
                else:
                    nxt = self.rng.choice(others)
                self.switches.append([list(key), nxt.idx])
                self.note("end", me.idx, nxt.idx)
                nxt.waiting = None
                nxt.baton.release()
            else:
                if any(not c.done for c in self.callers) and self.problem is None:
                    self.problem = ("deadlock", "callers left waiting for a lock that is never released")
                self.main_lock.release()

    def run(self, body):
        """body(caller, opindex) performs one operation."""
        global _current
        _current = self
        threads = [threading.Thread(target=self._thread_main, args=(c, body), daemon=True)
                   for c in self.callers]
        for t in threads:
            t.start()
        first = self.callers[0]
        if self.replay:
            want = self.script_sw.get((-1, -1, -1), 0)
            first = self.callers[want] if want < len(self.callers) else first
        else:
            first = self.rng.choice(self.callers)
        self.switches.append([[-1, -1, -1], first.idx])
        first.baton.release()
        self.main_lock.acquire()
        _current = None
        self.note("done", self.total_events)

    def script(self):
        return {"switches": self.switches, "faults": self.faults}
