"""C11: several process lifetimes over one simulated disk."""
import hashlib
import json
import os

from . import gen, rank, session, sym
from .detrng import Rng
from .persist_ops import Disk
from .props_base import Prop, plan_digest
from .ranks import Ranks

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "symcat.json")) as f:
    CATALOGUE = json.load(f)
BY_KIND = {}
for _n, _g in enumerate(CATALOGUE):
    BY_KIND.setdefault(_g[0]["t"] if _g[0]["t"] != "FE" else "FE:" + str(_g[0]["a"][0]), []).append(_n)
KINDS = sorted(BY_KIND)


def all_props(specs):
    out = {}
    for s in specs:
        try:
            out[json.dumps(s, sort_keys=True)] = sym.props(sym.build(s))
        except Exception as ex:
            return {"unbuildable": [s, repr(ex)[:200]]}
    return out


def specs_in(x, out):
    if isinstance(x, dict):
        for v in x.values():
            specs_in(v, out)
    elif isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], dict) and "t" in x[1]:
            out[json.dumps(x[1], sort_keys=True)] = x[1]
        else:
            for v in x:
                specs_in(v, out)


def life_run(plan, k, disk, expect, script):
    L = plan["lives"][k]
    d = Disk(disk, "%s/%d" % (plan["seed"], k), L.get("full"))
    p = {"objects": L.get("objects", []), "callers": L["callers"], "policy": L["policy"], "layout": L["layout"], "seed": "%s/l%d" % (plan["seed"], k), "disk": d}
    session.keep_only(None)
    from . import world as W
    W.World.expect = expect
    r = session.run_plan(p, script)
    r.pop("sites", None)
    s = session._alive[-1]
    r["crashed"] = s.sim.crashed
    r["disk"] = d.after()
    r["disk_faults"] = {"lost_write": d.lost, "torn_write": d.torn, "disk_full": d.refused}
    return r


class Persist(Ranks):
    stubbed = ["process start and hash randomisation: fresh interpreters with chosen PYTHONHASHSEED, forked per lifetime",
               "the disk: in memory, with lost, torn and zeroed unsynced writes and a full disk", "process crash: at a traced step, only the disk survives",
               "thread scheduling inside each process: seeded scheduler"]

    def gen(self, i, rng, tier):
        return gen_C11(i, rng)

    def warm(self, tier):
        pass

    def run(self, plan, script=None):
        specs = {}
        specs_in(plan["lives"], specs)
        st, expect = rank.forked(all_props, (list(specs.values()),), 120)
        if st != "ok":
            raise RuntimeError("oracle failed: %s %s" % (st, expect))
        if "unbuildable" in expect:
            s, why = expect["unbuildable"]
            return {"violation": {"kind": "exception", "op": "build", "msg": "an element of the catalogue can no longer be made: %s" % why,
                                  "where": ["build"], "request": json.dumps(s)},
                    "script": {"lives": [{} for _ in plan["lives"]]}, "events": 0, "switches": 0, "faults": {}, "counts": {}, "fault_sites": [],
                    "wall": 0.0, "digest": hashlib.sha256(("unbuildable" + plan_digest(plan)).encode()).hexdigest()}
        disk, viol = {}, None
        res = []
        for k, L in enumerate(plan["lives"]):
            x = self.zygote(L["hashseed"]).call("persist:life_run", plan, k, disk, expect, None if script is None else script["lives"][k])
            disk = x.pop("disk")
            res.append(x)
            if x["violation"] is not None:
                viol = dict(x["violation"], where=["life", k, x["violation"]["where"]])
                break
        out = {"violation": viol, "script": {"lives": [x["script"] for x in res] + [{}] * (len(plan["lives"]) - len(res))},
               "events": sum(x["events"] for x in res), "switches": sum(x["switches"] for x in res), "faults": {}, "counts": {},
               "fault_sites": sum((x["fault_sites"] for x in res), []), "wall": sum(x["wall"] for x in res)}
        for x in res:
            for dst, src in (("faults", x["faults"]), ("counts", x["counts"]), ("faults", x["disk_faults"])):
                for k, v in src.items():
                    if v:
                        out[dst][k] = out[dst].get(k, 0) + v
        out["counts"]["lifetimes"] = len(res)
        out["counts"]["elements"] = len(specs)
        out["counts"]["restarts_after_crash"] = sum(bool(x["crashed"]) for x in res)
        out["digest"] = hashlib.sha256(("".join(x["digest"] for x in res) + plan_digest(plan)).encode()).hexdigest()
        return out

    def nontrivial(self, r):
        return r["counts"].get("judged", 0) > 0

    def positions(self, plan):
        return [(k, c, i) for k, L in enumerate(plan["lives"]) for c in range(len(L["callers"])) for i in range(len(L["callers"][c]))]

    def blank(self, plan, pos):
        plan["lives"][pos[0]]["callers"][pos[1]][pos[2]] = {"op": "skip"}

    def simplify(self, plan):
        for k in range(len(plan["lives"])):
            L = plan["lives"][k]
            if all(o["op"] == "skip" for c in L["callers"] for o in c):
                p = json.loads(json.dumps(plan))
                p["lives"][k]["callers"] = [[{"op": "skip"}]]
                yield p

    def sample(self, plan, r):
        return {"run": plan["seed"], "plan": json.dumps(plan["lives"])[:1500], "lifetimes": r["counts"]["lifetimes"],
                "crashes": r["counts"]["restarts_after_crash"], "steps": r["events"]}


def member(n, rng):
    return [n, rng.pick(CATALOGUE[n])]


def near(n, rng):
    """An element easily taken for element n."""
    k = rng.random()
    if k < 0.2:
        return n
    if k < 0.65:
        return min(len(CATALOGUE) - 1, max(0, n + rng.randrange(-9, 10)))
    if k < 0.9:
        g = CATALOGUE[n][0]
        return rng.pick(BY_KIND[g["t"] if g["t"] != "FE" else "FE:" + str(g["a"][0])])
    return rng.randrange(len(CATALOGUE))


ASK = sorted(sym.ASK)


def gen_C11(i, rng):
    hs = gen.hash_seeds(i)
    base = [BY_KIND[KINDS[i % len(KINDS)]]] + [BY_KIND[rng.pick(KINDS)]]
    pool = [rng.pick(b) for b in base] + [rng.pick(BY_KIND[rng.pick([k for k in KINDS if not k.startswith("FE:")])]) for _ in range(2)]
    pool += [near(n, rng) for n in list(pool) for _ in range(2)]
    lives = []
    names = []
    for k in range(rng.wpick([(2, 4), (3, 3), (4, 1)])):
        ncall = rng.wpick([(1, 3), (2, 3), (3, 1)])
        callers = []
        known = list(names)
        for c in range(ncall):
            ops = []
            if known and (c == 0 or rng.chance(0.3)):
                ns = list(known)
                rng.shuffle(ns)
                ops.append({"op": "sload", "names": ns})
            for j in range(rng.randrange(2, 6)):
                w = rng.wpick([("sput", 4), ("sget", 3), ("scmp", 3), ("scopy", 2), ("suse", 3), ("sset", 2)])
                x = member(rng.pick(pool), rng)
                if w == "sput":
                    nm = "%d-%d-%d" % (k, c, j)
                    names.append(nm)
                    ops.append({"op": "sput", "xs": [x] + [member(rng.pick(pool), rng) for _ in range(rng.randrange(0, 3))],
                                "how": rng.pick(["pickle", "repr", "dict", "set", "copy", "deep"]), "proto": rng.pick([2, 3, 4, 5]), "sync": rng.chance(0.5), "name": nm})
                elif w == "sget":
                    ops.append({"op": "sget", "x": x})
                elif w == "scmp":
                    ops.append({"op": "scmp", "a": x, "b": member(near(x[0], rng), rng)})
                elif w == "scopy":
                    ops.append({"op": "scopy", "x": x, "how": rng.sample(["copy", "deep", "repr", "2", "3", "4", "5"], rng.randrange(2, 5))})
                elif w == "suse":
                    ops.append({"op": "suse", "x": x, "ask": rng.sample(ASK, rng.randrange(3, 10))})
                else:
                    a = rng.randrange(len(CATALOGUE) - 40) if rng.chance(0.4) else max(0, min(len(CATALOGUE) - 40, rng.pick(pool) - rng.randrange(25)))
                    xs = [member(n, rng) for n in range(a, a + 25)] + [member(rng.randrange(len(CATALOGUE)), rng) for _ in range(15)]
                    xs += [member(rng.pick(xs)[0], rng) for _ in range(5)]
                    ops.append({"op": "sset", "xs": xs})
            callers.append(ops)
        f = 0
        crash = rng.chance(0.5)
        if rng.chance(0.4):
            f = gen.add_faults(rng, callers, 0.3)
        if crash:
            o = rng.pick(rng.pick(callers))
            o["fault"] = "crash"
        pol = gen.policy(rng, f > 0 or crash, len(callers))
        if crash:
            pol["hazard_new"] = max(pol.get("hazard_new", 0), rng.pick([0.05, 0.15, 0.4]))
        lives.append({"hashseed": hs[k % 3], "layout": gen.layout(rng), "callers": callers, "policy": pol, "full": rng.randrange(0, 4) if rng.chance(0.15) else None})
    # a last, orderly lifetime restores everything
    ns = list(names)
    rng.shuffle(ns)
    lives.append({"hashseed": hs[len(lives) % 3], "layout": "up", "policy": {}, "callers": [[{"op": "sload", "names": ns}] +
                  [{"op": "sget", "x": member(n, rng)} for n in pool]]})
    return {"objects": [], "callers": [], "lives": lives}
