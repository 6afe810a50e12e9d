"""C14: simulated process lifetimes in which the optional packages come and go."""
import hashlib

from . import gen, rank
from .optlife import NAMES
from .props_base import Prop, plan_digest

KIRBY = ["Kirby2018zany", "Kirby2019zany"]
# what the documentation of each element asks to be cited, besides the paper
# behind the mapping itself
CITE = {"Morley": ["Morley1971"], "Hermite": ["Ciarlet1972"], "Bell": ["Bell1969"], "Argyris": ["Argyris1968"],
        "ArnoldWinther": ["Arnold2002"], "ArnoldWintherNC": ["Arnold2003"], "HuZhang": ["Hu2015"], "MardalTaiWinther": ["Mardal2002"],
        "JohnsonMercier": ["Gopalakrishnan2024"], "HsiehCloughTocher": ["Clough1965"], "ReducedHsiehCloughTocher": ["Clough1965"],
        "QuadraticPowellSabin6": ["PowellSabin1977"], "QuadraticPowellSabin12": ["PowellSabin1977"], "AlfeldSorokina": ["AlfeldSorokina2016"],
        "ArnoldQin": ["ArnoldQin1992"], "ReducedArnoldQin": ["ArnoldQin1992"], "ChristiansenHu": ["ChristiansenHu2019"],
        "GuzmanNeilanFirstKindH1": ["GuzmanNeilan2018"], "GuzmanNeilanSecondKindH1": ["GuzmanNeilan2018"], "GuzmanNeilanBubble": [],
        "GuzmanNeilanH1div": ["GuzmanNeilan2018"], "BernardiRaugel": ["BernardiRaugel1985"], "BernardiRaugelBubble": []}


def cites(s):
    """Keys that building the element of spec s must register."""
    if "f" in s:
        return sorted(set(sum((cites(x) for x in s["f"]), [])))
    if isinstance(s.get("e"), dict):
        return cites(s["e"])
    k = s["k"]
    if k == "DS":
        return ["Arbogast2017"]
    if k == "KongMulderVeldhuizen":
        return ["Chin1999higher", "Geevers2018new"]
    return sorted(CITE[k] + KIRBY) if k in CITE else []


# --------------------------------------------------------------------------

class OptPkg(Prop):
    driver_side = True
    real = ["finat (imported afresh in each run, unmodified, traced)", "gem", "FIAT", "numpy", "ufl", "sympy", "symengine where the run has it installed"]
    stubbed = ["the installation: an import hook decides what importing symengine or firedrake_citations finds, and changes it while the process runs",
               "firedrake_citations: a small registry with the interface the library uses, which records what is registered",
               "process start: fork of an interpreter that has not loaded the library", "thread scheduling inside the process: seeded scheduler"]

    def start_worker(self, w, seed, tier):
        self.zy = None

    def stop_worker(self):
        if getattr(self, "zy", None) is not None:
            self.zy.close()
        self.zy = None

    def prewarm(self, plan):
        pass

    def gen(self, i, rng, tier):
        gen.BUDGET = 1.5 if tier == "quick" else 4.0
        return gen_C14(i, rng)

    def run(self, plan, script=None):
        if getattr(self, "zy", None) is None:
            self.zy = rank.Zygote(0, "bare")
        r = self.zy.call("optlife:life", plan, script)
        for k, v in r.pop("packages").items():
            r["faults"][k] = r["faults"].get(k, 0) + v
        r["digest"] = hashlib.sha256((r["digest"] + plan_digest(plan)).encode()).hexdigest()
        return r

    def nontrivial(self, r):
        return r["counts"].get("judged", 0) > 0

    def simplify(self, plan):
        if plan["env"].get("failed"):
            yield dict(plan, env=dict(plan["env"], failed=[]))
        for n in NAMES:
            yield dict(plan, env=dict(plan["env"], modes=dict(plan["env"]["modes"], **{n: "absent"})))
        yield from Prop.simplify(self, plan)


MODES = {"symengine": [("real", 3), ("absent", 4), ("broken", 2)],
         "firedrake_citations": [("real", 5), ("absent", 2), ("broken", 1), ("nameless", 1), ("refusing", 1)]}
CITED = [s for s in gen.ANY if cites(s)]
PLAIN = [s for s in gen.LEAVES if not cites(s)]


def gen_C14(i, rng):
    modes = {n: rng.wpick(MODES[n]) for n in NAMES}
    E = {"modes": modes}
    if rng.chance(0.35):
        E["failed"] = []
        for _ in range(rng.wpick([(1, 4), (2, 1)])):
            n = rng.pick(NAMES)
            step = {"then": {n: rng.wpick(MODES[n])}}
            if rng.chance(0.5):
                step["modes"] = {rng.pick(NAMES): "oserror"}
            else:
                step["interrupt"] = [rng.randrange(rng.pick([20, 150, 500])), rng.pick(["KeyboardInterrupt", "MemoryError"])]
            for m in step.get("modes", {}):
                step["then"].setdefault(m, rng.wpick(MODES[m]))
            E["failed"].append(step)
        for step in E["failed"][:-1]:
            if "oserror" in step["then"].values():
                raise AssertionError
    sub = rng.wpick([("C04", 5), ("C03", 2), ("C01", 2), ("C02", 1)])
    plan = getattr(gen, "gen_" + sub)(rng.randrange(10 ** 6), rng)
    ops_of = plan["callers"]
    for c in ops_of:
        for _ in range(rng.randrange(0, 4)):
            s = gen.strat(CITED, i * 3 + rng.randrange(3)) if rng.chance(0.8) else rng.pick(PLAIN)
            c.insert(rng.randrange(len(c) + 1), {"op": "cbuild", "e": s, "cites": cites(s)})
        while rng.chance(0.3):
            n = rng.pick(NAMES)
            c.insert(rng.randrange(len(c) + 1), {"op": "pkg", "name": n, "mode": rng.wpick(MODES[n])})
    plan["env"] = E
    return plan
