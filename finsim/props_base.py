"""What each property's check runs, and how its plans can be made smaller."""
import hashlib
import json

from . import gen, ref, session, sym

REAL = ["finat (all modules the plan reaches, unmodified, traced)", "gem", "FIAT", "numpy", "ufl", "sympy/symengine"]
STUBS = ["thread scheduling: seeded scheduler holding all callers but one at traced steps",
         "threading.Lock/RLock created by finat modules: simulated locks whose waiting is a scheduling point",
         "memory addresses of indices: a seeded bijection of creation order",
         "callers, their geometry and their functions: written for the simulation"]
ASSUME = ["a fault or a thread switch happens at a traced step: a source line, a function entry, or a call into a lower layer made from library code; never inside C code or inside the layers below the library",
          "the reference model (finsim/ref.py) builds on FIAT's own tabulation of simple elements on the cell interior, which is a dependency and taken as right",
          "the search samples schedules and fault points; it does not enumerate them"]


def plan_digest(plan):
    return hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()


class Prop:
    driver_side = False
    real, stubbed, assumptions = REAL, STUBS, ASSUME
    rule = ""

    def __init__(self, pid, quick, thorough, rule):
        self.id, self.count, self.rule = pid, {"quick": quick, "thorough": thorough}, rule

    # -- plans --------------------------------------------------------------
    def gen(self, i, rng, tier):
        gen.BUDGET = 2.0 if tier == "quick" else 5.0
        return getattr(gen, "gen_" + self.id)(i, rng)

    def warm(self, tier):
        pass

    def start_worker(self, w, seed, tier):
        pass

    def stop_worker(self):
        pass

    def prewarm(self, plan):
        """Oracle-side values computed once per worker instead of once per run."""
        for n, s in plan["objects"]:
            if s.get("k") == "sym":
                sym.solo_props(s["s"])
            else:
                self.leaves(s)

    def leaves(self, s):
        if "k" not in s or s["k"] in ("rule", "ruleps", "pts", "single", "gl", "gll", "tps", "tprule", "rawrule", "unknown", "QE", "QEmake", "Runtime"):
            return
        if "f" in s:
            for x in s["f"]:
                self.leaves(x)
        elif isinstance(s.get("e"), dict):
            self.leaves(s["e"])
        elif s["k"] != "DS":
            try:
                ref.build_ref(s, {})
            except Exception:
                pass

    def run(self, plan, script=None):
        r = session.run_plan(plan, script)
        r["digest"] = hashlib.sha256((r["digest"] + plan_digest(plan)).encode()).hexdigest()
        return r

    # -- minimising ---------------------------------------------------------
    def positions(self, plan):
        return [("after", i) for i in range(len(plan.get("after", [])))] + \
               [(c, i) for c in range(len(plan["callers"])) for i in range(len(plan["callers"][c]))]

    def blank(self, plan, pos):
        a, i = pos
        (plan["after"] if a == "after" else plan["callers"][a])[i] = {"op": "skip"}

    def simplify(self, plan):
        """Candidate smaller plans, each a function of the last accepted one."""
        plan = json.loads(json.dumps(plan))
        used = json.dumps([plan["callers"], plan.get("after", [])])
        objs = list(plan["objects"])
        changed = True
        while changed:
            changed = False
            for n, s in list(objs):
                rest = json.dumps([o for o in objs if o[0] != n])
                tag = '"ref": "%s"' % n
                if tag not in used and tag not in rest:
                    objs = [o for o in objs if o[0] != n]
                    changed = True
        if len(objs) < len(plan["objects"]):
            yield dict(plan, objects=objs)
            plan = dict(plan, objects=objs)
        if plan.get("layout") != "up":
            yield dict(plan, layout="up")

    # -- evidence -----------------------------------------------------------
    def sample(self, plan, r):
        s = json.dumps({"objects": plan["objects"], "callers": plan["callers"]})
        return {"run": plan["seed"], "plan": s if len(s) < 1500 else s[:1500] + "...", "policy": plan.get("policy"),
                "layout": plan.get("layout"), "switches": r["switches"], "faults": r["fault_sites"][:5], "steps": r["events"]}

    def nontrivial(self, r):
        c = r["counts"]
        return c["judged"] + c["refused"] > 0

    def extra_evidence(self, runs):
        return {}


