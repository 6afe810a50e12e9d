"""C15: plans and lifetimes of compilers and runtimes."""
from . import gen
from .persist import Persist


class Runtab(Persist):
    def gen(self, i, rng, tier):
        return gen_C15(i, rng)


VARIANTS = ["gll", "gl", "feec", "mse", "a", "a_1", "a_1_2", "a_1_0_0_c_", "1", "spectral", "x_0_c", "p", "", "rt", "a__", "_", "mse2", "c", "d_0"]


def leaf(rng, shift, side, variants, continuous=None):
    return {"k": "Runtime", "degree": rng.wpick([(0, 1), (1, 4), (2, 4), (3, 3), (rng.randrange(4, 13), 2)]), "variant": rng.pick(variants), "shift": shift,
            "restriction": side, "continuous": rng.chance(0.5) if continuous is None else continuous}


def element(rng, B, variants):
    """(element spec, dimension, [[axis, shift]])."""
    dim = rng.wpick([(1, 4), (2, 4), (3, 1)])
    shifts = rng.sample([0, 1, 2, 3, 4, 10, 11], dim) if rng.chance(0.4) else list(range(dim))
    side = rng.pick([None, "+", "-"])
    lf = lambda j, c=None: leaf(rng, shifts[j], side if rng.chance(0.8) else rng.pick([None, "+", "-"]), variants, c)   # noqa: E731
    if dim == 1:
        e = rng.wpick([(lf(0), 5), ({"k": "Tens", "e": lf(0), "shape": rng.pick([[2], [3], [2, 2]]), "transpose": rng.chance(0.3)}, 1),
                       ({"k": "Mix", "f": [lf(0), lf(0)]}, 1), ({"k": "Enr", "f": [lf(0), lf(0)]}, 1), ({"k": "Disc", "e": lf(0)}, 1)])
    else:
        small = [dict(lf(j), degree=rng.randrange(0, 4)) for j in range(dim)]
        if dim == 3:
            small = [dict(s, degree=rng.randrange(0, 3)) for s in small]
        P = {"k": "TPE", "f": small}
        if dim == 3:
            e = rng.pick([P, {"k": "TPE", "f": [{"k": "TPE", "f": small[:2]}, small[2]]}, {"k": "TPE", "f": [{"k": "Flat", "e": {"k": "TPE", "f": small[:2]}}, small[2]]}])
        else:
            c, d = [dict(s, continuous=True) for s in small], [dict(s, continuous=False) for s in small]
            e = rng.wpick([(P, 3), ({"k": "Flat", "e": P}, 2), ({"k": rng.pick(["HDiv", "HCurl"]), "e": {"k": "TPE", "f": [c[0], d[1]]}}, 2),
                           ({"k": "HDiv", "e": {"k": "TPE", "f": [d[0], c[1]]}}, 1),
                           ({"k": "Enr", "f": [{"k": "HDiv", "e": {"k": "TPE", "f": [c[0], d[1]]}}, {"k": "HDiv", "e": {"k": "TPE", "f": [d[0], c[1]]}}]}, 2),
                           ({"k": "Enr", "f": [{"k": "HCurl", "e": {"k": "TPE", "f": [c[0], d[1]]}}, {"k": "HCurl", "e": {"k": "TPE", "f": [d[0], c[1]]}}]}, 1),
                           ({"k": "TPE", "f": [small[0], {"k": "Lagrange", "cell": "I", "args": [2]}]}, 1),
                           ({"k": "Tens", "e": {"k": "Flat", "e": P}, "shape": [2]}, 1), ({"k": "Mix", "f": [P, {"k": "TPE", "f": c}]}, 1)])
    if rng.chance(0.6):
        e = B.obj("e", e)
    return e, dim, [[j, s] for j, s in enumerate(shifts)]


def pointset(rng, B, e, dim):
    spec = B.specs[e["ref"]] if "ref" in e else e
    nested = dim == 3 and len(spec["f"]) == 2
    if dim == 1:
        s = rng.wpick([({"k": "pts", "cell": "I", "n": rng.randrange(1, 5), "seed": rng.randrange(10 ** 6)}, 4), ({"k": "gl", "n": rng.randrange(1, 5)}, 1),
                       ({"k": "gll", "n": rng.randrange(2, 5)}, 1), ({"k": "unknown", "name": "rt_:p%d" % rng.randrange(9), "n": rng.randrange(1, 5), "d": 1, "seed": rng.randrange(10 ** 6)}, 3),
                       ({"k": "single", "cell": "I", "n": 1, "seed": rng.randrange(10 ** 6), "entity": None}, 1)])
    elif nested and rng.chance(0.6):
        f = [B.factor_ps("I") for _ in range(3)]
        s = {"k": "tps", "f": [{"k": "tps", "f": f[:2]}, f[2]]}
    elif not nested and rng.chance(0.6):
        s = {"k": "tps", "f": [B.factor_ps("I") for _ in range(dim)]}
    else:
        s = {"k": "pts", "cell": {2: "TP:I,I", 3: "TP:I,I,I" if not nested else "TP:(TP:I,I),I"}[dim], "n": rng.randrange(1, 4), "seed": rng.randrange(10 ** 6), "entity": None}
        k = spec["k"] if spec["k"] != "Tens" else spec["e"]["k"]
        if k == "Flat":
            s["cell"] = "Q"
        elif dim == 3 and "Flat" in gen.key(spec):
            s["cell"] = "TP:Q,I"
    return B.obj("p", s) if rng.chance(0.6) else s


def gen_C15(i, rng):
    hs = gen.hash_seeds(i)
    variants = [VARIANTS[i % len(VARIANTS)]] + rng.sample(VARIANTS, 2)
    gen.BUDGET = 2.0
    lives, names = [], []
    for k in range(rng.wpick([(1, 3), (2, 3), (3, 1)])):
        B = gen.Builder(rng)
        els = [element(rng, B, variants) for _ in range(rng.randrange(1, 4))]
        pss = {}
        callers = []
        for c in range(rng.wpick([(1, 3), (2, 4), (3, 1)])):
            ops = []
            if names and rng.chance(0.4):
                ns = list(names)
                rng.shuffle(ns)
                ops.append({"op": "rfill", "names": ns[:3]})
            for j in range(rng.randrange(1, 5)):
                q = rng.randrange(len(els))
                e, dim, shifts = els[q]
                if q not in pss or rng.chance(0.5):
                    pss[q] = pointset(rng, B, e, dim)
                op = {"op": "rtab", "e": e, "ps": pss[q], "order": rng.wpick([(0, 2), (1, 4), (2, 2), (rng.pick([3, 10]), 1)]) if dim == 1 else rng.pick([0, 1, 1, 2]),
                      "shifts": shifts}
                if rng.chance(0.8):
                    op["save"] = "%d-%d-%d" % (k, c, j)
                    op["sync"] = rng.chance(0.5)
                    names.append(op["save"])
                ops.append(op)
            callers.append(ops)
        crash, f = rng.chance(0.4), 0
        if rng.chance(0.4):
            f = gen.add_faults(rng, callers, 0.4)
        if crash:
            rng.pick(rng.pick(callers))["fault"] = "crash"
        pol = gen.policy(rng, f > 0 or crash, len(callers))
        if crash:
            pol["hazard_new"] = max(pol.get("hazard_new", 0), rng.pick([0.05, 0.15, 0.4]))
        lives.append({"hashseed": hs[k % 3], "layout": gen.layout(rng), "objects": B.objects, "callers": callers, "policy": pol,
                      "full": rng.randrange(0, 4) if rng.chance(0.15) else None})
    ns = list(names)
    rng.shuffle(ns)
    h = (len(ns) + 1) // 2
    lives.append({"hashseed": hs[len(lives) % 3], "layout": "down", "objects": [], "policy": gen.policy(rng, False, 2),
                  "callers": [[{"op": "rfill", "names": ns[:h]}], [{"op": "rfill", "names": ns[h:]}, {"op": "rfill", "names": ns[:2], "fill_only": 1}]]})
    return {"objects": [], "callers": [], "lives": lives}
