"""Plan generators: what callers do, in which world, under which faults and
scheduling policy.  Everything is drawn from one seeded stream per run."""
import hashlib
import json
import math
import os

from . import templates as T
from .detrng import Rng

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "catalogue.json")) as _f:
    CAT = json.load(_f)


def key(s):
    return json.dumps(s, sort_keys=True)


# the layer below loses points (at random positions) for discontinuous elements
# on a split cell, so there is nothing to compare with
for _g in CAT:
    CAT[_g] = [e for e in CAT[_g] if not ('"DiscontinuousLagrange"' in key(e[0]) and ('"iso' in key(e[0]) or '"alfeld' in key(e[0])))]
CAPS = {key(s): c for g in CAT.values() for s, c in g}
LEAVES = [s for s, c in CAT["leaves"] if T.needs_geom(s) is None]
ZANY = [s for s, c in CAT["leaves"] if T.needs_geom(s) not in (None, "Q")]
LEAFKINDS = {s["k"] for s in LEAVES}
DS = [s for s, c in CAT["leaves"] if s["k"] == "DS"]
COMP = [s for s, c in CAT["comp"] if T.needs_geom(s) is None]
ZCOMP = [s for s, c in CAT["comp"] if T.needs_geom(s) is not None]
QES = [s for s in COMP if '"QEmake"' in key(s)]
ANY = LEAVES + ZANY + DS + COMP + ZCOMP

READS = ["entity_dofs", "closure", "support", "supportfn", "permutations", "space_dimension", "index_shape",
         "value_shape", "cell", "indices", "fiat", "degree", "formdegree"]


def strat(items, i, rng=None):
    """Round-robin over a list in a fixed shuffled order; later rounds move on."""
    order = Rng("strat", len(items)).sample(range(len(items)), len(items))
    return items[order[i % len(items)]]


def can(spec, what):
    return what in CAPS[key(spec)]["can"]


def policy(rng, faults, ncallers):
    kind = rng.wpick([("serial", 2), ("sites", 4), ("dense", 3), ("few", 3), ("pct", 2)]) if ncallers > 1 else "serial"
    p = {"serial": {"p_enter": 0.0},
         "sites": {"p_new": 0.15, "p_old": 0.002, "p_enter": 0.03},
         "dense": {"p_new": 0.5, "p_old": 0.02, "p_enter": 0.15, "max_switch": 400},
         "few": {"p_new": 0.03, "p_enter": 0.005},
         "pct": {"p_new": 0.08, "p_enter": 0.02, "max_switch": rng.pick([1, 2, 3])}}[kind]
    if faults:
        p["hazard_new"] = rng.pick([0.01, 0.03, 0.08, 0.2])
        p["hazard_old"] = rng.pick([0.0, 0.0, 0.0005, 0.004])
    return p


def layout(rng):
    return rng.wpick([("up", 2), ("down", 2), (rng.randrange(1, 1 << 30), 3)])


# seconds of tabulating and judging one run may ask for (an estimate that only
# shapes plans; it is computed from the catalogue, never from a clock)
BUDGET = 2.0


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.left = BUDGET
        self.objects = []
        self.specs = {}
        self.n = 0
        self.geos = []

    def geom(self, spec, hooks):
        """A physical cell for one request: new, or one used in another request."""
        rng = self.rng
        g = geom_for(rng, spec, None)
        if g is None:
            return None
        pool = [h for h in self.geos if h["cell"] == g["cell"]]
        if pool and rng.chance(0.3):
            g = dict(rng.pick(pool))
        elif rng.chance(0.7):
            g["gid"] = "g" + hashlib.sha256(json.dumps(g, sort_keys=True).encode()).hexdigest()[:8]
            self.geos.append(dict(g))
        if hooks:
            g["hooks"] = hooks
        return g

    def obj(self, prefix, spec):
        n = "%s%d" % (prefix, self.n)
        self.n += 1
        self.objects.append([n, spec])
        self.specs[n] = spec
        return {"ref": n}

    # -- points -------------------------------------------------------------
    def factor_ps(self, cell, named=True):
        """Point set on one factor cell of a product."""
        rng = self.rng
        if cell == "I":
            s = rng.wpick([({"k": "pts", "cell": "I", "n": rng.randrange(1, 4), "seed": rng.randrange(10 ** 6)}, 3),
                           ({"k": "gl", "n": rng.randrange(1, 5)}, 2), ({"k": "gll", "n": rng.randrange(2, 5)}, 2),
                           ({"k": "ruleps", "rule": {"k": "rule", "cell": "I", "deg": rng.randrange(0, 6)}}, 1)])
        elif cell.startswith("TP:"):
            s = {"k": "tps", "f": [self.factor_ps(c) for c in split_tp(cell)]}
        else:
            s = {"k": "pts", "cell": cell, "n": rng.randrange(1, 4), "seed": rng.randrange(10 ** 6)}
        return self.obj("p", s) if named and rng.chance(0.7) else s

    def structured_ps(self, spec, cell, ent):
        """A tensor product of points on an entity of a product cell: one factor
        per factor of the cell, or divided in another way."""
        rng = self.rng
        if cell in ("Q", "H"):
            cell = product_cell(spec)
            if cell is None:
                return None
            from .ref import unflatten
            ent = unflatten(cell, ent)
        if not cell.startswith("TP:"):
            return None
        parts = split_tp(cell)
        if ent is not None:
            parts = [subname(c, d) for c, d in zip(parts, ent[0])]
        if rng.chance(0.5):
            return {"k": "tps", "f": [self.factor_ps(c) for c in parts]}
        if rng.chance(0.3) and not any(c in "SH" for c in parts):
            return {"k": "ruleps", "rule": {"k": "rule", "cell": join_tp(parts), "deg": rng.randrange(0, 4)}}
        flat = []
        for c in parts:
            flat += flat_parts(c)
        if len(flat) > 1 and rng.chance(0.3):
            k = rng.randrange(1, len(flat))
            flat = [join_tp(flat[:k]), join_tp(flat[k:])] if rng.chance(0.5) else [join_tp(flat[:k])] + flat[k:]
        if len(flat) == len(parts) or not flat:
            return None
        return {"k": "tps", "f": [self.factor_ps(c) for c in flat]}

    def ps(self, spec, ent, generic=False):
        rng = self.rng
        if generic:
            return {"k": "single" if rng.chance(0.12) else "pts", "cell": T.cell_of(spec), "n": rng.randrange(1, 5),
                    "seed": rng.randrange(10 ** 6), "entity": ent}
        cell = T.cell_of(spec)
        s = None
        full = ent is None
        sub = cell if full else subcell_name(cell, ent)
        r = rng.random()
        if r < 0.22 and rng.chance(0.5):
            s = self.structured_ps(spec, cell, ent)
        if s is not None:
            pass
        elif full and cell.startswith("TP:") and r < 0.45:
            s = {"k": "tps", "f": [self.factor_ps(c) for c in split_tp(cell)]}
        elif full and cell in ("Q", "H") and r < 0.4:
            s = {"k": "tps", "f": [self.factor_ps("I") for _ in range(2 if cell == "Q" else 3)]}
            inner = product_cell(spec)
            if inner is not None:
                s = {"k": "tps", "f": [self.factor_ps(c) for c in split_tp(inner)]}
        elif sub == "I" and r < 0.25:
            s = {"k": "gl", "n": rng.randrange(1, 5)} if rng.chance(0.5) else {"k": "gll", "n": rng.randrange(2, 5)}
        elif sub is not None and (r < 0.35 or 0.45 < r < 0.6) and (sub in "ITS" or (full and (sub == "Q" or sub.startswith("TP:")))):
            s = {"k": "ruleps", "rule": {"k": "rule", "cell": sub, "deg": rng.randrange(0, 5 if sub == "I" or full else 4)}}
            if rng.chance(0.5):
                s["rule"] = self.obj("r", s["rule"])
        if s is None:
            s = {"k": "single" if rng.chance(0.12) else "pts", "cell": cell, "n": rng.randrange(1, 5),
                 "seed": rng.randrange(10 ** 6), "entity": ent}
        return s


def split_tp(c):
    from .ref import split_tp
    return split_tp(c)


def join_tp(parts):
    if len(parts) == 1:
        return parts[0]
    return "TP:" + ",".join("(%s)" % c if c.startswith("TP:") else c for c in parts)


def subname(cell, d):
    """Name of the cell of a sub-entity of dimension d."""
    if cell.startswith("TP:"):
        return join_tp([subname(c, x) for c, x in zip(split_tp(cell), d)])
    return "PIQH"[d] if cell in ("Q", "H") else "PITS"[d]


def flat_parts(c):
    """Factors a cell can be divided into, leaving out points."""
    if c.startswith("TP:"):
        return sum((flat_parts(x) for x in split_tp(c)), [])
    return {"P": [], "Q": ["I", "I"], "H": ["I", "I", "I"]}.get(c, [c])


def product_cell(spec):
    """Factor structure behind a flattened element."""
    k = spec["k"]
    if k == "Flat":
        return T.cell_of(spec["e"])
    if k in ("Tens", "Disc"):
        return product_cell(spec["e"])
    if k in ("Enr", "Mix"):
        cs = {product_cell(f) for f in spec["f"]}
        return cs.pop() if len(cs) == 1 else None
    return None


def subcell_name(cell, ent):
    d = ent[0]
    if isinstance(d, list):
        return None
    if cell in ("I", "T", "S"):
        return {1: "I", 2: "T", 3: "S"}.get(d)
    if cell in ("Q", "H"):
        return {1: "I"}.get(d)
    return None


# --------------------------------------------------------------------------
# geometry

def geom_for(rng, spec, hooks):
    gc = T.needs_geom(spec)
    if gc is None:
        return None
    g = {"cell": gc, "verts": rand_verts(gc, rng), "mode": rng.wpick([("lit", 4), ("var", 2)]),
         "h": [round(0.5 + rng.random(), 3) for _ in range({"I": 2, "T": 3, "S": 4, "Q": 4}[gc])]}
    if g["mode"] == "var":
        g["tag"] = str(rng.randrange(10 ** 6))
    if hooks:
        g["hooks"] = hooks
    return g


BASE = {"I": [[0.0], [1.0]], "T": [[0, 0], [1, 0], [0, 1]], "S": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
        "Q": [[0, 0], [0, 1], [1, 0], [1, 1]]}


def rand_verts(cell, rng):
    """A well shaped physical cell, rounded so plans stay short."""
    B = BASE[cell]
    d = len(B[0])
    amp = 0.35 if cell == "Q" else 0.5
    kind = rng.random()
    while True:
        V = [[x + amp * (rng.random() - 0.5) for x in v] for v in B]
        if cell == "Q" and kind < 0.15:
            V = [list(map(float, v)) for v in B]                       # the unit square
        elif cell == "Q" and kind < 0.3:                                # a parallelogram
            a, b, o = V[1], V[2], V[0]
            V = [o, a, b, [a[i] + b[i] - o[i] for i in range(2)]]
        elif cell == "Q" and kind < 0.4:                                # a trapezium: one pair of sides parallel
            t = 0.5 + rng.random()
            V[3] = [V[2][0] + t * (V[1][0] - V[0][0]), V[2][1] + t * (V[1][1] - V[0][1])]
        if cell != "Q" and rng.chance(0.3):
            s = rng.pick([0.5, 2.0])
            V = [[s * x for x in v] for v in V]
        if cell in ("T", "S") and rng.chance(0.3):
            V = [V[i] for i in rng.sample(range(len(V)), len(V))]       # either orientation
        V = [[round(x, 3) for x in v] for v in V]
        if good(cell, V, d):
            return V


def good(cell, V, d):
    import numpy as np
    P = np.array(V)
    if cell == "Q":
        # strictly convex, vertices 0,1,3,2 in order
        c = [P[i] for i in (0, 1, 3, 2)]
        z = []
        for i in range(4):
            a, b, e = c[i], c[(i + 1) % 4], c[(i + 2) % 4]
            z.append((b[0] - a[0]) * (e[1] - b[1]) - (b[1] - a[1]) * (e[0] - b[0]))
        return all(x > 0.2 for x in z) or all(x < -0.2 for x in z)
    A = P[1:] - P[0]
    s = np.linalg.svd(A)[1]
    return s[-1] > 0.25 and s[0] / s[-1] < 6


# --------------------------------------------------------------------------
# operations on one element

class Elem:
    """An element a plan talks about: how callers name it and what it can do."""
    def __init__(self, B, spec, handle):
        self.B, self.spec, self.h = B, spec, handle
        self.caps = CAPS[key(spec)]
        self.qe = '"QEmake"' in key(spec) or '"QE"' in key(spec)
        # P0 on a split cell is ambiguous where pieces meet: stay off such points
        self.generic = any(v in key(spec) for v in ('"iso', '"alfeld', 'powell-sabin'))
        self.dim = cell_dim(T.cell_of(spec))
        self.ps_pool = []

    def afford(self, order):
        """The highest derivative order the plan can still pay for, or None."""
        while order >= 0:
            n = math.comb(self.dim + order, order)
            c = 2.2 * self.caps.get("cost", 0.02) * n
            if c <= self.B.left or (order == 0 and self.B.left == BUDGET):
                self.B.left -= c
                return order
            order -= 1
        return None

    def ents(self, order):
        if order == 3:
            return self.caps.get("third", [])
        return self.caps["tab"].get(str(order), [])

    def op_tab(self, hooks=None, order=None):
        rng = self.B.rng
        orders = [o for o in (0, 1, 2, 3) if self.ents(o)]
        if order is None:
            order = rng.wpick([(o, w) for o, w in ((0, 5), (1, 3), (2, 2), (3, 0.7)) if o in orders])
        order = self.afford(order)
        if order is None:
            return None
        ent = None if rng.chance(0.55) and None in self.ents(order) else rng.pick(self.ents(order))
        pool = [p for p in self.ps_pool if key(p[0]) == key(ent)]
        if pool and rng.chance(0.6):
            ps = rng.pick(pool)[1]
        else:
            ps = self.B.ps(self.spec, ent, self.generic)
            if rng.chance(0.8):
                ps = self.B.obj("p", ps)
                self.ps_pool.append((ent, ps))
        op = {"op": "tab", "e": self.h, "order": order, "ps": ps, "entity": ent}
        if ent is None and rng.chance(0.3):
            op["noent"] = 1
        elif ent is None and order in self.caps.get("full", ()) and rng.chance(0.4):
            op["entity"] = self.caps["fullent"]
        g = self.B.geom(self.spec, hooks)
        if g:
            op.pop("noent", None)
            op["geom"] = g
        return op

    def op_pteval(self):
        rng = self.B.rng
        order = rng.pick([0, 0, 1])
        n = size_of(self.spec)
        c = (n * n * (0.003 if self.dim > 2 else 0.0006)) ** 0.9
        while order and c > self.B.left:
            order -= 1
        if not order:
            c /= 8
        if c > self.B.left:
            return self.op_layout(1)
        self.B.left -= c
        op = {"op": "pteval", "e": self.h, "order": order, "d": cell_dim(T.cell_of(self.spec)),
              "seed": rng.randrange(10 ** 6)}
        subs = self.caps.get("pt", {}).get(str(order), [])
        if subs and rng.chance(0.5):
            op["entity"] = rng.pick(subs)
            op["d"] = entity_dim(op["entity"], op["d"])
        return op

    def op_layout(self, n=None):
        rng = self.B.rng
        have = [w for w in READS if w in self.caps["can"]]
        c = 40 * self.caps.get("cost", 0.02)
        if c > 1 and c > self.B.left:
            have = [w for w in have if w not in ("support", "supportfn")]
        if not have:
            return None
        what = [rng.pick(have) for _ in range(n or rng.randrange(1, 5))]
        if c > 1 and ("support" in what or "supportfn" in what):
            self.B.left -= c
        return {"op": "layout", "e": self.h, "what": what}

    def op_dual(self, hooks=None, kinds=("lit", "sym", "nodal")):
        rng = self.B.rng
        k = rng.pick(kinds)
        if k == "nodal" and "nodal" in self.caps["can"]:
            fn = {"kind": "basis", "src": self.h, "nodal": 1}
        else:
            fn = {"kind": "lit" if k == "nodal" else k, "seed": rng.randrange(10 ** 6),
                  "dim": cell_dim(T.cell_of(self.spec)), "vshape": value_shape(self.spec)}
            if rng.chance(0.3):
                fn["inner"] = {"e": self.h, "seed": rng.randrange(10 ** 6), "dim": fn["dim"], "vshape": fn["vshape"]}
                if self.spec["k"] in LEAFKINDS and len(fn["vshape"]) < 2:
                    fn["inner"]["plain"] = 1        # few enough sums for gem to factorise together
        if hooks:
            fn["hooks"] = hooks
        return {"op": "dual", "e": self.h, "fn": fn}

    def op_dualbasis(self):
        return {"op": "dualbasis", "e": self.h, "seed": self.B.rng.randrange(10 ** 6), "fresh": False}

    def any_op(self, tab=6, layout=2, dual=2, pteval=1, hooks=None):
        rng = self.B.rng
        ch = []
        if self.caps["tab"].get("0") and not self.qe:
            ch.append(("tab", tab))
        ch.append(("layout", layout))
        if "dual" in self.caps["can"]:
            ch += [("dual", dual), ("dualbasis", dual / 2)]
        if "pteval" in self.caps["can"]:
            ch.append(("pteval", pteval))
        k = rng.wpick(ch)
        if k == "tab":
            o = self.op_tab(hooks)
            if o is not None or not self.caps["can"]:
                return o
            k = "layout"
        if k == "layout":
            return self.op_layout()
        if k == "dual":
            return self.op_dual(hooks)
        if k == "dualbasis":
            return self.op_dualbasis()
        return self.op_pteval()


_dims = {}


def entity_dim(ent, dim):
    """Dimension of the entity: that of the cell, or the sum over its factors."""
    if ent is None:
        return dim
    d = ent[0]
    return total(d) if isinstance(d, list) else d


def total(d):
    return sum(map(total, d)) if isinstance(d, (list, tuple)) else d


def cell_dim(c):
    from .ref import cell_dim
    return cell_dim(c)


def size_of(spec):
    """Number of basis functions times components, from the reference model."""
    value_shape(spec)
    return _sizes[key(spec)]


_sizes = {}


def value_shape(spec):
    """Value shape from the reference model."""
    k = key(spec)
    if k not in _dims:
        from . import ref
        r = ref.build_ref(spec, {})
        _dims[k] = list(r.value_shape)
        _sizes[k] = math.prod(r.value_shape) * math.prod(r.index_shape)
    return _dims[k]


# --------------------------------------------------------------------------
# sharing: the same sub-element object used several times

def hoist(B, spec, p):
    """Replace sub-elements by references to named shared objects."""
    rng = B.rng
    made = {}

    def go(s, top):
        if "f" in s and s["k"] not in ("tps",):
            s2 = dict(s, f=[go(x, False) for x in s["f"]])
        elif isinstance(s.get("e"), dict):
            s2 = dict(s, e=go(s["e"], False))
        else:
            s2 = s
        if top:
            return s2
        k = key(s)
        if k in made:
            return made[k] if rng.chance(0.85) else s2
        if rng.chance(p) and s["k"] != "QEmake":
            made[k] = B.obj("f", s2)
            return made[k]
        return s2
    top = go(spec, True)
    return top, made


def elements(B, specs, share=0.6):
    """Named element objects for a plan; factors may be shared and used alone."""
    out = []
    for s in specs:
        top, made = hoist(B, s, share)
        out.append(Elem(B, s, B.obj("e", top)))
        for k in made:
            sub = json.loads(k)
            if k in CAPS and B.rng.chance(0.5):
                out.append(Elem(B, sub, made[k]))
    return out


def wrap_again(B, el):
    """Another composite over the very same element object."""
    rng = B.rng
    h, s = el.h, el.spec
    if el.qe or T.needs_geom(s) == "Q":
        return None
    w = rng.pick(["Tens", "TensT", "Disc", "Mix"])
    if w in ("Tens", "TensT"):
        spec = {"k": "Tens", "e": s, "shape": [2]}
        hs = {"k": "Tens", "e": h, "shape": [2]}
        if w == "TensT":
            spec["transpose"] = hs["transpose"] = True
    elif w == "Disc":
        spec, hs = {"k": "Disc", "e": s}, {"k": "Disc", "e": h}
    else:
        spec, hs = {"k": "Mix", "f": [s, s]}, {"k": "Mix", "f": [h, h]}
    if key(spec) not in CAPS:
        c = el.caps
        CAPS[key(spec)] = {"tab": c["tab"], "can": ["index_shape", "value_shape", "space_dimension", "entity_dofs", "indices", "cell"],
                           "cost": c["cost"]}
    return Elem(B, spec, B.obj("e", hs))


# --------------------------------------------------------------------------
# faults

KINDS = [("interrupt", 5), ("memory", 3), ("lower", 3)]


def add_faults(rng, callers, p):
    n = 0
    for ops in callers:
        for op in ops:
            if rng.chance(p):
                op["fault"] = rng.wpick(KINDS)
                op["retry"] = "later" if rng.chance(0.3) else "now"
                n += 1
    return n


def finish(B, rng, callers, fault_p, **kw):
    callers = [[o for o in c if o is not None] for c in callers]
    callers = [c for c in callers if c]
    if not callers:
        callers = [[{"op": "build", "spec": B.objects[-1][1], "isel": False}]]
    n = add_faults(rng, callers, fault_p)
    if rng.chance(0.5):
        for c in callers:
            for o in c:
                if rng.chance(0.5):
                    o["forget"] = 1
    plan = {"objects": B.objects, "callers": callers, "policy": policy(rng, n > 0, len(callers)), "layout": layout(rng)}
    if rng.chance(0.2):
        plan["lazy"] = True
    plan.update(kw)
    return plan


def ncallers(rng):
    return rng.wpick([(1, 2), (2, 5), (3, 3), (4, 1)])


# --------------------------------------------------------------------------
# one generator per property

def gen_C01(i, rng):
    B = Builder(rng)
    els = elements(B, [strat(LEAVES, i)] + ([rng.pick(LEAVES)] if rng.chance(0.25) else []))
    if rng.chance(0.2):
        els.append(Elem(B, els[0].spec, B.obj("e", els[0].spec)))      # an equal but separate element
    cs = [[rng.pick(els).any_op(tab=8, layout=1, dual=1, pteval=1.2) for _ in range(rng.randrange(1, 5))]
          for _ in range(ncallers(rng))]
    return finish(B, rng, cs, 0.15 if rng.chance(0.4) else 0)


def gen_C02(i, rng):
    B = Builder(rng)
    specs = [strat(COMP, i)]
    if rng.chance(0.25):
        specs.append(rng.pick(COMP))
    els = elements(B, specs, share=rng.pick([0.0, 0.6, 1.0]))
    for e in list(els[:2]):
        if rng.chance(0.25):
            w = wrap_again(B, e)
            if w:
                els.append(w)
    cs = [[rng.pick(els).any_op(tab=8, layout=1, dual=0.7, pteval=0.5) for _ in range(rng.randrange(1, 5))]
          for _ in range(ncallers(rng))]
    return finish(B, rng, cs, 0.15 if rng.chance(0.4) else 0)


def hooks_for(rng, els, p_fail=0.2, p_re=0.2):
    r = rng.random()
    if r < p_fail:
        return {"fail": rng.randrange(1, 6)}
    if r < p_fail + p_re:
        o = rng.pick(els).any_op(tab=5, layout=2, dual=0, pteval=0)
        if o is not None:
            return {"reenter": o, "when": rng.randrange(1, 5)}
    return None


def gen_C03(i, rng):
    B = Builder(rng)
    if i % 3 < 2:
        s = strat(ZANY, i // 3 * 2 + i % 3)
    else:
        s = strat([z for z in ZCOMP if T.needs_geom(z) != "Q"], i // 3)
    els = elements(B, [s] + ([rng.pick(ZANY)] if rng.chance(0.15) else []))
    cs = []
    for _ in range(ncallers(rng)):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            e = rng.pick(els)
            if rng.chance(0.85) and e.caps["tab"].get("0"):
                ops.append(e.op_tab(hooks_for(rng, els)))
            else:
                ops.append(e.any_op(tab=1, layout=4, dual=1))
        cs.append(ops)
    return finish(B, rng, cs, 0.2 if rng.chance(0.35) else 0)


def gen_C04(i, rng, deep=False):
    B = Builder(rng)
    d = rng.wpick([(1, 4), (2, 5), (3, 3), (4, 1.2 if deep else 0.3), (5, 0.5 if deep else 0)])
    s = {"k": "DS", "degree": d}
    if key(s) not in CAPS:
        CAPS[key(s)] = CAPS[key({"k": "DS", "degree": 3})]
    specs = [s]
    if i % 4 == 3:
        specs = [strat([z for z in ZCOMP if T.needs_geom(z) == "Q"], i // 4)]
    els = elements(B, specs, share=1.0)
    if rng.chance(0.3) and d <= 3:
        els.append(Elem(B, s, B.obj("e", s)))
    big = d >= 4
    cs = []
    for _ in range(rng.wpick([(1, 3), (2, 5), (3, 1)]) if not big else rng.pick([1, 2])):
        ops = []
        for _ in range(rng.randrange(1, 2 if big else 4)):
            e = rng.pick(els)
            if rng.chance(0.9):
                ops.append(e.op_tab(hooks_for(rng, els, 0.1, 0.1), order=rng.pick([0, 1]) if big else None))
            else:
                ops.append(e.op_layout())
        cs.append(ops)
    return finish(B, rng, cs, 0.25 if rng.chance(0.4) else 0)


DUALS = [s for s in ANY if "dual" in CAPS[key(s)]["can"]]


def gen_C05(i, rng):
    B = Builder(rng)
    s = strat(DUALS, i)
    els = elements(B, [s] + ([rng.pick(DUALS)] if rng.chance(0.25) else []), share=rng.pick([0, 0.6, 1.0]))
    cell = T.cell_of(s)
    vs = value_shape(s)
    if rng.chance(0.3):
        cand = [t for t in DUALS if T.cell_of(t) == cell and T.needs_geom(t) is None and value_shape(t) == vs
                and CAPS[key(t)]["tab"].get("0") and '"QEmake"' not in key(t)
                and '"HDivTrace"' not in key(t)]
        src = Elem(B, rng.pick(cand), None) if cand else None
        if src:
            src.h = B.obj("e", src.spec)
            els.append(src)
    else:
        src = None
    cs = []
    duals = [e for e in els if "dual" in e.caps["can"]]
    for _ in range(ncallers(rng)):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            e = rng.pick(duals)
            r = rng.random()
            if r < 0.15:
                ops.append(e.any_op(tab=3, layout=1, dual=0, pteval=0))
            elif r < 0.35:
                ops.append(e.op_dualbasis())
            else:
                o = e.op_dual(hooks_for(rng, els, 0.1, 0.15))
                if src is not None and e.h == els[0].h and rng.chance(0.5):
                    o["fn"] = {"kind": "basis", "src": src.h}
                ops.append(o)
        cs.append(ops)
    return finish(B, rng, cs, 0.2 if rng.chance(0.35) else 0)


# --- C06: rules and point sets ---------------------------------------------

RULES = []
for _c, _mx in (("I", 12), ("T", 8), ("S", 5), ("Q", 6), ("H", 5)):
    for _d in range(0, _mx):
        RULES.append({"k": "rule", "cell": _c, "deg": _d})
for _c in ("TP:I,I", "TP:T,I", "TP:I,I,I", "TP:Q,I"):
    for _d in (0, 1, 2, 3, 5):
        RULES.append({"k": "rule", "cell": _c, "deg": _d})
for _c, _d in (("TP:I,I", [1, 3]), ("TP:I,I", [4, 0]), ("TP:T,I", [2, 1]), ("TP:T,I", [1, 4]), ("TP:I,I,I", [1, 2, 3])):
    RULES.append({"k": "rule", "cell": _c, "deg": _d})
for _c in "ITS":
    for _d in (1, 2, 3, 4, 6):
        RULES.append({"k": "rule", "cell": _c, "deg": _d, "scheme": "canonical"})
for _c, _ds in (("I", (1, 2, 3)), ("T", (1, 2, 3)), ("S", (1, 2, 3))):
    for _d in _ds:
        RULES.append({"k": "rule", "cell": _c, "deg": _d, "scheme": "KMV"})

for _c, _ds in (("D1", (0, 1, 2, 3, 4, 5, 7, 9)), ("Y1", (2, 3)), ("iI", (1, 2, 3, 4)), ("D2", (1, 2, 3, 4, 5)), ("Y2", (2, 3)),
                ("mT", (1, 2, 3)), ("iT", (1, 2, 4)), ("D3", (1, 2, 3)), ("Y3", (2,)), ("mS", (1, 2)), ("TP:I,D1", (1, 3)),
                ("TP:D1,I", (2,)), ("TP:D2,I", (2,)), ("TP:T,D1", (1, 3)), ("TP:Y1,D1", (2, 3)), ("TP:iI,I", (1, 2)), ("P", (0, 1, 3)),
                ("TP:I,P", (2,))):
    for _d in _ds:
        RULES.append({"k": "rule", "cell": _c, "deg": _d})


SHAPES = {"I": ["I", "D1", "Y1", "iI"], "T": ["T", "D2", "Y2", "mT", "iT"], "S": ["S", "D3", "Y3", "mS"]}
OTHER = [c for cs in SHAPES.values() for c in cs[1:]] + ["mI"]


def cousins(rule):
    """Rules of the same kind and size on other cells of the same shape."""
    if "," in rule["cell"]:
        return [r for r in RULES if r["cell"] != rule["cell"] and r["cell"].count(",") == rule["cell"].count(",") and r["deg"] == rule["deg"]]
    for shape in SHAPES.values():
        if rule["cell"] in shape:
            return [dict(rule, cell=c) for c in shape if c != rule["cell"] and rule.get("scheme") != "KMV"]
    return []


RULE_ASK = ["ps", "w", "idx", "expr", "pts", "along", "swaps"]

MASSABLE = {}
for _s in LEAVES + COMP:
    if CAPS[key(_s)]["tab"].get("0") and None in CAPS[key(_s)]["tab"]["0"] and '"QEmake"' not in key(_s) \
       and '"HDivTrace"' not in key(_s):
        MASSABLE.setdefault(T.cell_of(_s), []).append(_s)


def gen_C06(i, rng):
    B = Builder(rng)
    rules = []
    spec = strat(RULES, i)
    rules.append((spec, B.obj("r", spec)))
    kin = cousins(spec)
    if kin and rng.chance(0.5):
        s2 = rng.pick(kin)
        rules.append((s2, B.obj("r", s2)))
    if rng.chance(0.4):
        s2 = rng.pick(RULES) if rng.chance(0.6) else spec
        rules.append((s2, B.obj("r", s2)))
    if rng.chance(0.3):
        fs = [{"k": "rule", "cell": "I", "deg": rng.randrange(0, 5)} for _ in range(2)]
        h = [B.obj("r", f) if rng.chance(0.7) else f for f in fs]
        s3 = {"k": "tprule", "f": fs, "cell": "TP:I,I"}
        rules.append((s3, B.obj("r", dict(s3, f=h))))
    if rng.chance(0.2):
        n = rng.randrange(1, 5)
        p = {"k": "pts", "cell": "T", "n": n, "seed": rng.randrange(10 ** 6)}
        hp = B.obj("p", p)
        s4 = {"k": "rawrule", "cell": "T", "ps": hp, "n": n, "seed": rng.randrange(10 ** 6)}
        rules.append((s4, B.obj("r", s4)))
    pss = []
    for _ in range(rng.randrange(0, 3)):
        k = rng.wpick([("pts", 3), ("single", 1), ("gl", 2), ("gll", 2), ("unknown", 1), ("tps", 2)])
        c = rng.pick(["I", "T", "S", "Q"])
        s = {"pts": {"k": "pts", "cell": c, "n": rng.randrange(1, 5), "seed": rng.randrange(10 ** 6)},
             "single": {"k": "single", "cell": c, "n": 1, "seed": rng.randrange(10 ** 6)},
             "gl": {"k": "gl", "n": rng.randrange(1, 6)}, "gll": {"k": "gll", "n": rng.randrange(2, 6)},
             "unknown": {"k": "unknown", "name": "rt_X%d" % rng.randrange(100), "n": rng.randrange(1, 4),
                         "d": rng.randrange(1, 3), "seed": rng.randrange(10 ** 6)}}.get(k)
        if k == "tps":
            fs = [B.factor_ps("I") for _ in range(rng.randrange(1, 4))]
            if rng.chance(0.15):
                fs.append(B.factor_ps("T"))
            s = {"k": "tps", "f": fs}
        pss.append(B.obj("p", s))
    masses = []
    for rs, rh in rules:
        c = rs.get("cell")
        if rs["k"] == "rawrule":
            c = "T"
        if c in MASSABLE and rng.chance(0.8):
            es = rng.sample(MASSABLE[c], min(2, len(MASSABLE[c])))
            if value_shape(es[0]) != value_shape(es[-1]):
                es = [es[0]]
            hs = [B.obj("e", s) for s in es]
            masses.append((rh, hs[0], hs[-1]))
            masses.append((rh, hs[0], hs[0]))
    qes = []
    for rs, rh in rules:
        if any(c in rs["cell"] for c in OTHER + ["P,", ",P"]) or rs["cell"] == "P":
            continue
        if rs["k"] == "rule" and rng.chance(0.35):
            q = B.obj("q", {"k": "QE", "cell": rs["cell"], "rule": rh})
            qes.append((q, rs, rh))
        elif rs["k"] == "rule" and rng.chance(0.1) and "scheme" not in rs:
            qes.append((B.obj("q", {"k": "QEmake", "cell": rs["cell"], "deg": rs["deg"]}), rs, None))
    cs = []
    for _ in range(ncallers(rng)):
        ops = []
        for _ in range(rng.randrange(1, 6)):
            ch = [("rule", 4)]
            if pss:
                ch.append(("ps", 2))
            if masses:
                ch.append(("mass", 3))
            if qes:
                ch.append(("qe", 2))
            ch.append(("fresh", 0.7))
            k = rng.wpick(ch)
            if k == "rule":
                ask = rng.sample(RULE_ASK, rng.randrange(1, 8))
                ops.append({"op": "rule", "r": rng.pick(rules)[1], "ask": ask})
            elif k == "fresh":
                c = cousins(spec) if rng.chance(0.5) else None
                ops.append({"op": "rule", "r": rng.pick(c or RULES), "ask": ["ps", "w", "idx", "expr"] + rng.sample(RULE_ASK[5:], rng.randrange(3))})
            elif k == "ps":
                ops.append({"op": "ps", "ps": rng.pick(pss), "ask": rng.sample(["idx", "expr", "pts", "dim"], rng.randrange(1, 5))})
            elif k == "mass":
                rh, a, b = rng.pick(masses)
                ops.append({"op": "mass", "rule": rh, "e1": a, "e2": b, "use_held": rng.chance(0.5)})
            else:
                q, rs, rh = rng.pick(qes)
                n = rng.randrange(4)
                if n == 0 and rh is not None:
                    ops.append({"op": "tab", "e": q, "order": 0, "ps": {"k": "ruleps", "rule": rh}, "entity": None})
                elif n == 1:
                    ops.append({"op": "layout", "e": q, "what": ["space_dimension", "index_shape", "entity_dofs", "closure", "value_shape", "fiat"]})
                else:
                    ops.append({"op": "dual", "e": q, "fn": {"kind": rng.pick(["lit", "sym"]), "seed": rng.randrange(10 ** 6),
                                                              "dim": cell_dim(rs["cell"]), "vshape": rng.pick([[], [], [2]]) if False else []}})
        cs.append(ops)
    # every shared point set answers once more when all is quiet, and no two share an index
    after = [{"op": "distinct", "ps": pss + [{"k": "ruleps", "rule": r} for _, r in rules]}]
    return finish(B, rng, cs, 0.25 if rng.chance(0.4) else 0, after=after)


# --- C07: layout -----------------------------------------------------------

LAYABLE = [s for s in ANY if any(w in CAPS[key(s)]["can"] for w in ("entity_dofs", "support", "closure"))]
RESTRICTABLE = [s for s in LEAVES if s["k"] in ("Lagrange", "RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind",
                                                "GaussLobattoLegendre", "IntegratedLegendre")
                and s.get("args", [0])[0] >= 2 and "kw" not in s]


def gen_C07(i, rng):
    B = Builder(rng)
    s = strat(LAYABLE, i)
    els = elements(B, [s] + ([rng.pick(LAYABLE)] if rng.chance(0.2) else []), share=rng.pick([0, 0.6, 1.0]))
    if rng.chance(0.25):
        w = wrap_again(B, els[0])
        if w:
            els.append(w)
    r = None
    if rng.chance(0.2):
        rs = rng.pick(RESTRICTABLE)
        r = (rs, B.obj("e", rs))
        els.append(Elem(B, rs, r[1]))
    cs = []
    for _ in range(ncallers(rng)):
        ops = []
        for _ in range(rng.randrange(2, 7)):
            e = rng.pick(els)
            if rng.chance(0.75):
                ops.append(e.op_layout())
            elif r is not None and rng.chance(0.5):
                dims = cell_dim(r[0]["cell"])
                ops.append({"op": "restrict", "e": r[1], "seed": rng.randrange(10 ** 6), "may_refuse": ["ValueError"],
                            "domain": rng.pick(["interior", "facet", "vertex"] + (["edge"] if dims > 1 else []) + (["face"] if dims > 2 else []))})
            else:
                ops.append(e.any_op(tab=4, layout=1, dual=2, pteval=0.5))
        cs.append(ops)
    return finish(B, rng, cs, 0.2 if rng.chance(0.35) else 0)


# --- C08 / C09: interruption and immutability over everything ---------------

def gen_any_world(i, rng):
    B = Builder(rng)
    pool = rng.wpick([(LEAVES, 3), (COMP, 5), (ZANY, 2), (ZCOMP, 1.5), (DS[:2], 1)])
    s = strat(pool, i)
    return B, elements(B, [s], share=rng.pick([0.0, 0.6, 1.0]))


def mixed_ops(B, rng, els, n, hooks=False):
    ops = []
    for _ in range(n):
        r = rng.random()
        e = rng.pick(els)
        if r < 0.78:
            ops.append(e.any_op(tab=5, layout=3, dual=2.5, pteval=1, hooks=hooks_for(rng, els, 0.08, 0.08) if hooks else None))
        elif r < 0.9:
            c = rng.pick([x for x in RULES if x["deg"] != 0] if False else RULES)
            if not B.specs.get("_r"):
                B.specs["_r"] = (c, B.obj("r", c))
            ops.append({"op": "rule", "r": B.specs["_r"][1], "ask": rng.sample(["ps", "w", "idx", "expr", "pts"], rng.randrange(1, 6))})
        else:
            if not B.specs.get("_s"):
                B.specs["_s"] = B.obj("s", {"k": "sym", "s": rng.pick(SYM)})
            ops.append({"op": "sym", "s": B.specs["_s"], "ask": rng.sample(SYM_ASK, rng.randrange(2, 6))})
    return ops


SYM_ASK = ["repr", "hash", "str", "shortstr", "cell", "degree", "superdegree", "subdegree", "mapping", "space", "rshape", "subs",
           "nsubs", "variant", "pullback", "scheme", "family", "rebuild", "iter", "restrict", "broken", "vector", "mixself", "sig",
           "symmetry", "symmap", "size", "linear", "parts", "leaf", "domain", "vec1", "remap", "cellrebuild", "varrebuild", "constant"]
SYM = [{"t": "FE", "a": ["CG", "triangle", 2]}, {"t": "FE", "a": ["RT", "triangle", 1]}, {"t": "FE", "a": ["N1curl", "tetrahedron", 1]},
       {"t": "FE", "a": ["DG", "interval", 0]}, {"t": "FE", "a": ["Q", "quadrilateral", 2]}, {"t": "FE", "a": ["RTCF", "quadrilateral", 1]},
       {"t": "FE", "a": ["NCE", "hexahedron", 1]}, {"t": "FE", "a": ["CG", "triangle", 2], "kw": {"variant": "equispaced"}},
       {"t": "FE", "a": ["HER", "triangle", 3]}, {"t": "FE", "a": ["Regge", "triangle", 1]},
       {"t": "Vec", "e": {"t": "FE", "a": ["CG", "triangle", 1]}}, {"t": "Ten", "e": {"t": "FE", "a": ["CG", "triangle", 1]}, "kw": {"symmetry": True}},
       {"t": "Mix", "f": [{"t": "FE", "a": ["CG", "triangle", 2]}, {"t": "FE", "a": ["DG", "triangle", 0]}]},
       {"t": "Enr", "f": [{"t": "FE", "a": ["CG", "triangle", 1]}, {"t": "FE", "a": ["Bubble", "triangle", 3]}]},
       {"t": "TP", "f": [{"t": "FE", "a": ["CG", "interval", 1]}, {"t": "FE", "a": ["DG", "interval", 0]}]},
       {"t": "HDiv", "e": {"t": "TP", "f": [{"t": "FE", "a": ["CG", "interval", 1]}, {"t": "FE", "a": ["DG", "interval", 0]}]}},
       {"t": "Broken", "e": {"t": "FE", "a": ["CG", "triangle", 2]}}, {"t": "Restr", "e": {"t": "FE", "a": ["CG", "triangle", 3]}, "d": "facet"},
       {"t": "WithMapping", "e": {"t": "FE", "a": ["CG", "triangle", 1]}, "m": "identity"}]


def gen_C08(i, rng):
    B, els = gen_any_world(i, rng)
    hooks = rng.chance(0.2)
    cs = [mixed_ops(B, rng, els, rng.randrange(1, 4), hooks) for _ in range(rng.wpick([(1, 4), (2, 4), (3, 2)]))]
    plan = finish(B, rng, cs, 0.75)
    plan["policy"]["hazard_new"] = rng.pick([0.02, 0.05, 0.1, 0.25])
    # afterwards everybody asks for everything once more, undisturbed
    after = mixed_ops(B, rng, els, 2)
    for c in plan["callers"]:
        for o in c:
            if o.get("fault") and rng.chance(0.7):
                after.append({k: v for k, v in o.items() if k not in ("fault", "retry")})
    plan["after"] = [a for a in after if a is not None]
    return plan


def gen_C09(i, rng):
    B, els = gen_any_world(i, rng)
    if rng.chance(0.3):
        w = wrap_again(B, els[0])
        if w:
            els.append(w)
    hooks = rng.chance(0.2)
    cs = [mixed_ops(B, rng, els, rng.randrange(2, 5), hooks) for _ in range(rng.wpick([(1, 3), (2, 4), (3, 2)]))]
    if rng.chance(0.3):
        # a caller builds further composites over the shared elements
        cs.append([{"op": "build", "spec": {"k": "Mix", "f": [els[0].h, els[0].h]}}, {"op": "build", "spec": {"k": "Tens", "e": els[0].h, "shape": [2]}}]
                  if not els[0].qe else [])
    plan = finish(B, rng, cs, 0.3 if rng.chance(0.5) else 0)
    plan["judge_at_end"] = rng.chance(0.5)
    return plan


# --- C12: the registry -------------------------------------------------------

def gen_C12(i, rng):
    from . import registry
    return registry.gen(i, rng, finish, Builder)


# --- C13: requests that cannot be honoured ----------------------------------

with open(os.path.join(HERE, "refusals.json")) as _f:
    REFUSALS = {}
    for _g, _o in json.load(_f):
        REFUSALS.setdefault(_g, []).append(_o)
REFUSAL_GROUPS = sorted(REFUSALS)
BY_ELEM = {}
for _g in REFUSAL_GROUPS:
    for _o in REFUSALS[_g]:
        if _o["case"] != "build" and isinstance(_o.get("e"), dict):
            BY_ELEM.setdefault(key(_o["e"]), []).append(_o)


def gen_C13(i, rng):
    B = Builder(rng)
    g = strat(REFUSAL_GROUPS, i)
    first = strat(REFUSALS[g], i // len(REFUSAL_GROUPS))
    els, bad = [], []
    names = {}

    def share(case):
        """The request, made of objects the callers share."""
        op = dict(case, op="invalid", may_refuse=True)
        for f in ("e", "ps", "rule"):
            if isinstance(op.get(f), dict):
                k = key(op[f])
                if f == "e" and k not in names and k in CAPS:
                    names[k] = B.obj("e", op[f])
                    els.append(Elem(B, op[f], names[k]))
                elif k not in names and rng.chance(0.7):
                    names[k] = B.obj(f[0], op[f])
                if k in names:
                    op[f] = names[k]
        bad.append(op)
    share(first)
    same = BY_ELEM.get(key(first["e"])) if isinstance(first.get("e"), dict) else None
    for _ in range(rng.randrange(0, 4)):
        share(rng.pick(same) if same and rng.chance(0.7) else rng.pick(REFUSALS[rng.pick(REFUSAL_GROUPS)]))
    if not els:
        els = elements(B, [rng.pick(LEAVES + COMP)], share=0.5)
    cs = []
    for _ in range(rng.wpick([(1, 3), (2, 5), (3, 2)])):
        ops = mixed_ops(B, rng, els, rng.randrange(1, 3))
        for _ in range(rng.randrange(1, 4)):
            ops.insert(rng.randrange(0, len(ops) + 1), dict(rng.pick(bad)))
        if rng.chance(0.4):
            ops.append(dict(rng.pick([o for o in ops if o and o["op"] == "invalid"])))
        cs.append(ops)
    plan = finish(B, rng, cs, 0.15 if rng.chance(0.3) else 0)
    after = [dict(o) for o in rng.sample(bad, min(len(bad), 2))] + [o for o in mixed_ops(B, rng, els, 2) if o]
    plan["after"] = rng.sample(after, len(after))
    return plan


# --- C10: the ranks of a parallel job ----------------------------------------

def hash_seeds(i):
    """Three per worker slot, moving on every 200 rounds."""
    r = Rng("hashseeds", i % 8, i // 1600)
    return [0] + [r.randrange(1, 4294967295) for _ in range(2)]


def other_business(rng, prefix):
    """Objects and requests of one process that have nothing to do with the shared ones."""
    B = Builder(rng)
    B.left = 0.5
    els = elements(B, [rng.pick([s for s in (rng.pick(LEAVES), rng.pick(LEAVES), rng.pick(COMP), rng.pick(COMP), rng.pick(ZANY))
                                 if CAPS[key(s)].get("cost", 0) < 0.3] or LEAVES[:1])], share=0.5)
    pre = [o for o in mixed_ops(B, rng, els, rng.randrange(0, 3)) if o]
    callers = [[o for o in mixed_ops(B, rng, els, rng.randrange(1, 3)) if o] for _ in range(rng.randrange(0, 3))]
    callers = [c for c in callers if c]
    names = {n: "%s_%s" % (prefix, n) for n, _ in B.objects}

    def ren(x):
        if isinstance(x, dict):
            return {k: names[v] if k == "ref" else ren(v) for k, v in x.items()}
        return [ren(v) for v in x] if isinstance(x, list) else x
    return [[names[n], ren(s)] for n, s in B.objects], ren(pre), ren(callers)


def gen_C10(i, rng):
    B, els = gen_any_world(i, rng)
    if rng.chance(0.3):
        w = wrap_again(B, els[0])
        if w:
            els.append(w)
    ops = [o for o in mixed_ops(B, rng, els, rng.randrange(2, 6)) if o]
    for o in ops:
        if o["op"] == "layout":
            o["what"] = [x for x in o["what"] if x not in ("fiat", "cell")] or ["space_dimension"]
    hs = hash_seeds(i)
    ranks = []
    n = rng.wpick([(2, 3), (3, 2)])
    for r in range(n):
        objs, pre, noise = other_business(rng, "r%d" % r) if rng.chance(0.6) else ([], [], [])
        f = 0
        if rng.chance(0.4):
            f = add_faults(rng, noise, 0.5)
        pol = policy(rng, f > 0, 1 + len(noise))
        ranks.append({"hashseed": hs[r], "layout": layout(rng) if r else "up", "objects": objs, "before": rng.randrange(0, len(objs) + 1) if objs else 0,
                      "prelude": pre, "noise": noise, "policy": pol})
    return {"objects": B.objects, "callers": [ops], "ranks": ranks}
