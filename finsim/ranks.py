"""C10: the same requests in several processes of a parallel job."""
import hashlib
import json
import numpy as np

from . import canon, gen, rank, session
from .props_base import Prop, plan_digest


def rank_plan(plan, r):
    """What process r of the job does: the shared requests, among its own business."""
    R = plan["ranks"][r]
    objs = list(plan["objects"])
    mine = [[n, s] for n, s in R["objects"]]
    at = R["before"]
    return {"objects": mine[:at] + objs + mine[at:], "callers": [plan["callers"][0]] + R["noise"], "policy": R["policy"],
            "layout": R["layout"], "seed": plan["seed"] + "/r%d" % r, "nojudge": 1, "prelude": R.get("prelude", [])}


def rank_run(plan, r, script):
    """One process lifetime.  Runs in a fork of a zygote."""
    p = rank_plan(plan, r)
    session.keep_only(None)
    res = session.run_plan(p, script)
    s = session._alive[-1]
    c = canon.Canon()
    got = {}
    for op, out, fz, where in s.kept:
        if where[0] == 0:
            got[where[1]] = (op["op"], out)
    answers = []
    for i in sorted(got):
        st, nums = canon.of(got[i][1], c)
        answers.append((i, got[i][0], hashlib.sha1(st.encode()).hexdigest(), nums))
    res["answers"] = answers
    res.pop("sites", None)
    return res


def differ(a, b):
    if [(x[0], x[1]) for x in a] != [(x[0], x[1]) for x in b]:
        return "?", "the requests answered differ: %r and %r" % ([(x[0], x[1]) for x in a], [(x[0], x[1]) for x in b])
    for x, y in zip(a, b):
        if x[2] != y[2]:
            return x[1], "request %d (%s) gives structurally different answers in two processes" % (x[0], x[1])
        u, v = x[3], y[3]
        if u.shape != v.shape:
            return x[1], "request %d (%s) has different amounts of numbers" % (x[0], x[1])
        ok = np.isclose(u, v, rtol=1e-9, atol=1e-9 * max(1.0, np.nanmax(np.abs(u[np.isfinite(u)]), initial=0.0)), equal_nan=True)
        if not ok.all():
            k = int(np.argmin(ok))
            return x[1], "request %d (%s) has different tables or a different order: %r and %r" % (x[0], x[1], u[k], v[k])
    return None


class Ranks(Prop):
    driver_side = True
    stubbed = ["process start and hash randomisation: fresh interpreters with chosen PYTHONHASHSEED, forked per lifetime",
               "memory addresses of indices, elements, point sets and rules: a seeded bijection of creation order",
               "thread scheduling inside each process: seeded scheduler"]

    def start_worker(self, w, seed, tier):
        self.zy = {}

    def zygote(self, h):
        if h not in self.zy:
            if len(self.zy) >= 3:
                k = next(iter(self.zy))
                self.zy.pop(k).close()
            self.zy[h] = rank.Zygote(h)
        return self.zy[h]

    def stop_worker(self):
        for z in self.zy.values():
            z.close()
        self.zy = {}

    def prewarm(self, plan):
        pass

    def gen(self, i, rng, tier):
        gen.BUDGET = 2.0 if tier == "quick" else 5.0
        return gen.gen_C10(i, rng)

    def run(self, plan, script=None):
        res = [self.zygote(R["hashseed"]).call("ranks:rank_run", plan, r, None if script is None else script["ranks"][r])
               for r, R in enumerate(plan["ranks"])]
        viol = None
        for r, x in enumerate(res):
            if x["violation"] is not None and viol is None:
                viol = dict(x["violation"], where=["rank", r, x["violation"]["where"]])
        if viol is None:
            for r in range(1, len(res)):
                d = differ(res[0]["answers"], res[r]["answers"])
                if d is not None:
                    viol = {"kind": "ranks-differ", "op": d[0], "msg": "processes 0 and %d: %s" % (r, d[1]), "where": [0, r], "request": d[0]}
                    break
        out = {"violation": viol, "script": {"ranks": [x["script"] for x in res]}, "events": sum(x["events"] for x in res),
               "switches": sum(x["switches"] for x in res), "faults": {}, "fault_sites": sum((x["fault_sites"] for x in res), []),
               "counts": {}, "wall": sum(x["wall"] for x in res)}
        for x in res:
            for k, v in x["faults"].items():
                out["faults"][k] = out["faults"].get(k, 0) + v
            for k, v in x["counts"].items():
                out["counts"][k] = out["counts"].get(k, 0) + v
        out["counts"]["answers_compared"] = sum(len(x["answers"]) for x in res[1:])
        out["counts"]["processes"] = len(res)
        out["digest"] = hashlib.sha256(("".join(x["digest"] + "".join(a[2] for a in x["answers"]) for x in res) + plan_digest(plan)).encode()).hexdigest()
        return out

    def nontrivial(self, r):
        return r["counts"]["answers_compared"] > 0

    def positions(self, plan):
        out = []
        for r, R in enumerate(plan["ranks"]):
            out += [("prelude", r, i) for i in range(len(R.get("prelude", [])))]
            out += [("noise", r, c, i) for c in range(len(R["noise"])) for i in range(len(R["noise"][c]))]
        return out + [("op", 0, i) for i in range(len(plan["callers"][0]))]

    def blank(self, plan, pos):
        if pos[0] == "op":
            plan["callers"][0][pos[2]] = {"op": "skip"}
        elif pos[0] == "prelude":
            plan["ranks"][pos[1]]["prelude"][pos[2]] = {"op": "skip"}
        else:
            plan["ranks"][pos[1]]["noise"][pos[2]][pos[3]] = {"op": "skip"}

    def simplify(self, plan):
        plan = json.loads(json.dumps(plan))
        if len(plan["ranks"]) > 2:
            for k in range(1, len(plan["ranks"])):
                yield dict(plan, ranks=[plan["ranks"][0], plan["ranks"][k]])
        for r in range(len(plan["ranks"])):
            p = json.loads(json.dumps(plan))
            p["ranks"][r]["noise"] = []
            p["ranks"][r]["objects"] = []
            yield p

    def sample(self, plan, r):
        s = json.dumps({"objects": plan["objects"], "requests": plan["callers"][0], "ranks": plan["ranks"]})
        return {"run": plan["seed"], "plan": s[:1500], "processes": len(plan["ranks"]), "steps": r["events"]}
