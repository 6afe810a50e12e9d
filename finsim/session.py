"""One simulated run: a plan (objects, callers, their operations, faults and
scheduling policy) executed under the scheduler, judged as it goes and again
at the end."""
import gc
import json
import time
import traceback

from . import boot
boot.setup()
from . import addr, ops, sched, world as W           # noqa: E402
from .detrng import Rng                               # noqa: E402
from .ops import Bad                                  # noqa: E402


class Violation(Exception):
    def __init__(self, kind, op, msg, where=None):
        super().__init__(msg)
        self.kind, self.op, self.msg, self.where = kind, op, msg, where


def describe(op):
    d = {k: v for k, v in op.items() if k != "fault"}
    s = json.dumps(d, sort_keys=True)
    return s if len(s) < 400 else s[:400] + "..."


class Session:
    def __init__(self, plan, script=None):
        self.plan = plan
        self.callers = plan["callers"]
        self.world = W.World(plan["objects"])
        self.world.lazy = bool(plan.get("lazy"))
        self.rng = Rng("sched", plan["seed"]) if script is None else None
        self.sim = sched.Sim(len(self.callers), [len(c) for c in self.callers],
                             plan.get("policy", {}), self.rng, script)
        self.violation = None
        self.kept = []        # (op, out, frozen, label)
        self.later = {}
        self.counts = {"ops": 0, "interrupted": 0, "callback_failures": 0, "judged": 0, "refused": 0}
        self.judge_at_end = bool(plan.get("judge_at_end"))

    # -- violations ---------------------------------------------------------
    def fail(self, kind, op, msg, where=None):
        if self.violation is None:
            self.violation = {"kind": kind, "op": op.get("op", "?") if isinstance(op, dict) else str(op),
                              "msg": msg[:1500], "where": where,
                              "request": describe(op) if isinstance(op, dict) else str(op)}

    def judge(self, op, out, where):
        if self.plan.get("nojudge"):
            return
        try:
            self.counts["judged"] += 1
            ops.judge(self.world, op, out)
        except Bad as b:
            self.fail(b.kind, op, str(b), where)
        except W.Unusable as u:
            self.fail("unusable", op, str(u), where)
        except (sched.SimDeadlock, sched.SimRunaway):
            raise
        except Exception as ex:
            # the result could not even be inspected
            tb = traceback.format_exc()
            if "/finsim/ref.py" in tb.split("\n")[-4] if len(tb.split("\n")) > 4 else False:
                raise
            self.fail("unusable", op, "using the answer raised %r\n%s" % (ex, tb[-700:]), where)

    # -- one operation ------------------------------------------------------
    def attempt(self, me, op, ctx):
        """Returns ('ok', out) or ('exc', exception).  Without a caller the
        operation runs as one indivisible step."""
        try:
            if me is not None:
                me.active = True
            try:
                out = ops.perform(self.world, op, ctx)
            finally:
                if me is not None:
                    me.active = False
            return "ok", out
        except (sched.SimDeadlock, sched.SimRunaway):
            raise
        except sched.SimCrash:
            return "crash", None
        except BaseException as ex:
            return "exc", ex

    def body(self, me, i):
        op = self.callers[me.idx][i]
        if op["op"] == "skip" or self.violation is not None or self.sim.crashed:
            return
        where = [me.idx, i]
        me.fault_plan = op.get("fault")
        ctx = ops.Ctx(self.world, me.idx)
        self.counts["ops"] += 1
        st, val = self.attempt(me, op, ctx)
        fired = me.fired
        if st == "crash" or self.sim.crashed:
            return        # whatever the stopped process would have answered, nobody hears it
        if st == "ok":
            if fired:
                self.fail("swallowed", op, "an injected %s was swallowed and the call returned normally" % fired, where)
                return
            if ctx.cb_raised is not None:
                self.fail("swallowed", op, "the failure of the caller's own callback was swallowed", where)
                return
            self.done(op, val, where)
            return
        ex = val
        if isinstance(ex, sched.INJECTED):
            if not fired:
                raise RuntimeError("injected exception without a fault")
            self.counts["interrupted"] += 1
            self.again(me, i, op, where, ctx)
            return
        if fired:
            self.fail("swallowed", op, "an injected %s surfaced as %r" % (fired, ex), where)
            return
        if ctx.cb_raised is not None:
            if ex is not ctx.cb_raised:
                self.fail("swallowed", op, "the callback's own failure surfaced as %r" % (ex,), where)
                return
            self.counts["callback_failures"] += 1
            self.again(me, i, op, where, ctx)
            return
        if op.get("may_refuse") and isinstance(ex, Exception) and refusal(ex, op["may_refuse"]):
            self.counts["refused"] += 1
            return
        self.fail("exception", op, "raised %s: %s" % (type(ex).__name__, tail(ex)), where)

    def again(self, me, i, op, where, ctx):
        """The caller tries the very same request again, without a fault."""
        me.fault_plan = None
        me.fired = None
        if op.get("retry", "now") == "later":
            self.later.setdefault(me.idx, []).append((op, where))
            return
        self.retry(op, where)

    def retry(self, op, where):
        ctx = ops.Ctx(self.world, where[0])
        ctx.suppress_fail = True
        # untraced: a retry is one step of the schedule
        st, val = self.attempt(None, op, ctx)
        if st == "ok":
            self.done(op, val, where + ["retry"])
        elif op.get("may_refuse") and isinstance(val, Exception) and refusal(val, op["may_refuse"]):
            self.counts["refused"] += 1
        else:
            self.fail("exception", op, "retry after a failure raised %s: %s" % (type(val).__name__, tail(val)), where)

    def done(self, op, out, where):
        if not self.judge_at_end:
            self.judge(op, out, where)
            if op.get("forget"):
                return        # the caller drops the answer and what it was made from
        self.kept.append((op, out, self.frozen(out), where))

    def frozen(self, out):
        return {k: ops.freeze(v) for k, v in sorted(vars(out).items())
                if k not in ("elem", "a", "b", "geo", "ps", "x", "rule", "nested", "parts", "r", "value")}

    # -- the whole run ------------------------------------------------------
    def run(self):
        plan = self.plan
        t0 = time.perf_counter()
        addr.layout(plan.get("layout", "up"))
        try:
            self.world.build_all()
        except Exception as ex:
            self.fail("exception", {"op": "build"}, "building the shared objects raised %s: %s"
                      % (type(ex).__name__, tail(ex)))
            return self.result(t0)
        if plan.get("disk") is not None:
            self.world.disk = plan["disk"]
            self.sim.on_crash = self.world.disk.crash
        passed = [(lab, o, ops.freeze(o)) for lab, o in self.world.passed]
        for op in plan.get("prelude", []):
            if op["op"] != "skip":
                self.attempt(None, op, ops.Ctx(self.world, 0))
        self.sim.run(self.body)
        p = self.sim.problem
        if p is not None:
            if p[0] == "harness":
                raise RuntimeError(p[1])
            self.fail(p[0], {"op": "any"}, p[1])
        if self.violation is None and not self.sim.crashed:
            try:
                self.aftermath(passed)
            except sched.SimDeadlock as ex:
                self.fail("deadlock", {"op": "after"}, str(ex))
        return self.result(t0)

    def aftermath(self, passed):
        for idx in sorted(self.later):
            for op, where in self.later[idx]:
                self.retry(op, where)
        for i, op in enumerate(self.plan.get("after", [])):
            if op["op"] == "skip" or self.violation is not None:
                continue
            self.retry(op, [-1, i])
        if self.violation is not None:
            return
        for op, out, fz, where in self.kept:
            if self.violation is None:
                self.judge(op, out, where + ["end"])
            if self.violation is None and self.frozen(out) != fz:
                self.fail("mutated", op, "an answer already given changed afterwards", where)
        for lab, o, fz in passed:
            if self.violation is None and ops.freeze(o) != fz:
                self.fail("mutated", {"op": "passed"}, "%s, passed in by a caller, was changed" % lab)

    def result(self, t0):
        s = self.sim
        return {"violation": self.violation, "script": s.script(), "digest": s.trace.hexdigest(),
                "events": s.total_events, "switches": len(s.switches), "faults": s.fault_kinds,
                "fault_sites": s.fault_sites, "switch_sites": s.switch_sites[:50], "sites": sorted(s.sites),
                "counts": self.counts, "wall": time.perf_counter() - t0}


def tail(ex):
    tb = traceback.format_exception(type(ex), ex, ex.__traceback__)
    return "%s\n%s" % (ex, "".join(tb)[-900:])


def refusal(ex, kinds):
    return kinds is True or kinds == 1 or type(ex).__name__ in kinds


_alive = []


def keep_only(_):
    _alive.clear()


def run_plan(plan, script=None):
    # nothing of a run is ever freed: a run has its own process, and the
    # symbolic back end's destructors are not safe everywhere
    gc.disable()
    s = Session(plan, script)
    _alive.append(s)
    return s.run()
