"""The objects callers share: built through the real library from specs."""
import numpy as np
import gem
import finat
import finat.quadrature
import finat.point_set
import finat.quadrature_element
import finat.restricted
import finat.mixed
from gem.interpreter import evaluate

from . import ref
from .detrng import Rng

PS = finat.point_set


def real_leaf(spec, cell):
    kw = dict(spec.get("kw", {}))
    return getattr(finat, spec["k"])(cell, *spec.get("args", []), **kw)


class World:
    def __init__(self, objects):
        self.specs = dict((n, s) for n, s in objects)
        self.order = [n for n, _ in objects]
        self.cells = {}
        self.real = {}
        self._ref = {}
        self.index_seen = {}      # point set name -> tuple of index objects first seen
        self.snapshots = []       # (label, getter, frozen copy)
        self.kept = []            # results kept by their holders
        self.mail = {}            # tabulations left for other callers to use
        self.index_owner = {}
        self.layout_cache = {}
        self.lazy = False
        self.geos = {}            # geometry objects their callers hold on to
        self.passed = []          # (label, object handed to the library)

    def factors(self, s):
        """Factors as the caller hands them over: a list, or made on the fly."""
        fs = [self.get(f) for f in s["f"]]
        return iter(fs) if self.lazy and s["k"] in ("tprule", "Mix") else self.give("a list of factors", fs)

    def give(self, label, obj):
        self.passed.append((label, obj))
        return obj

    # -- real objects -------------------------------------------------------
    def cell(self, name):
        if name not in self.cells:
            self.cells[name] = ref.make_cell(name)
        return self.cells[name]

    def build_all(self):
        for n in self.order:
            self.real[n] = self.build(self.specs[n])

    def get(self, spec):
        return self.real[spec["ref"]] if "ref" in spec else self.build(spec)

    def build(self, s):
        if "ref" in s:
            return self.real[s["ref"]]
        k = s["k"]
        if k == "rule":
            return finat.quadrature.make_quadrature(self.cell(s["cell"]), _deg(s["deg"]), s.get("scheme", "default"))
        if k == "ruleps":
            return self.get(s["rule"]).point_set
        if k == "tprule":
            return finat.quadrature.TensorProductQuadratureRule(self.factors(s),
                                                                ref_el=self.cell(s["cell"]))
        if k == "rawrule":
            return finat.quadrature.QuadratureRule(self.get(s["ps"]), self.give("an array of weights", raw_weights(s)), ref_el=self.cell(s["cell"]))
        if k == "pts":
            return PS.PointSet(self.give("an array of points", ps_points(s, self.specs)))
        if k == "single":
            return PS.PointSingleton(ps_points(s, self.specs)[0])
        if k == "gl":
            return PS.GaussLegendrePointSet(ps_points(s, self.specs))
        if k == "gll":
            return PS.GaussLobattoLegendrePointSet(ps_points(s, self.specs))
        if k == "tps":
            return PS.TensorPointSet(self.factors(s))
        if k == "unknown":
            return PS.UnknownPointSet(gem.Variable(s["name"], (s["n"], s["d"])))
        if k == "TPE":
            return finat.TensorProductElement(self.factors(s))
        if k == "Flat":
            return finat.FlattenedDimensions(self.get(s["e"]))
        if k == "Enr":
            return finat.EnrichedElement(self.factors(s))
        if k == "Mix":
            return finat.MixedElement(self.factors(s))
        if k == "Tens":
            return finat.TensorFiniteElement(self.get(s["e"]), tuple(s["shape"]), s.get("transpose", False))
        if k == "HDiv":
            return finat.HDivElement(self.get(s["e"]))
        if k == "HCurl":
            return finat.HCurlElement(self.get(s["e"]))
        if k == "Disc":
            return finat.DiscontinuousElement(self.get(s["e"]))
        if k == "Nodal":
            return finat.NodalEnrichedElement(self.factors(s))
        if k == "Restr":
            return finat.RestrictedElement(self.get(s["e"]), s["domain"])
        if k == "QE":
            return finat.QuadratureElement(self.cell(s["cell"]), self.get(s["rule"]))
        if k == "QEmake":
            return finat.make_quadrature_element(self.cell(s["cell"]), _deg(s["deg"]), s.get("scheme", "default"))
        if k == "Runtime":
            return finat.RuntimeTabulated(self.cell("I"), s["degree"], variant=s["variant"], shift_axes=s["shift"],
                                          restriction=s["restriction"], continuous=s["continuous"])
        if k == "sym":
            from . import sym
            return sym.build(s["s"])
        if k == "DS":
            return finat.DirectSerendipity(self.cell("Q"), s["degree"])
        return real_leaf(s, self.cell(s["cell"]))

    # -- reference side -----------------------------------------------------
    def rspec(self, s):
        while "ref" in s:
            s = self.specs[s["ref"]]
        return s

    def ref(self, s):
        """Reference element of a spec (element specs only)."""
        s = self.rspec(s)
        key = ref.leaf_key(s)
        if key not in self._ref:
            self._ref[key] = ref.build_ref(self.inline(s), self.specs)
        return self._ref[key]

    def inline(self, s):
        s = self.rspec(s)
        if "f" in s:
            return dict(s, f=[self.inline(x) for x in s["f"]])
        if "e" in s and isinstance(s["e"], dict):
            return dict(s, e=self.inline(s["e"]))
        return s

    def points(self, s):
        return ps_points(self.rspec(s), self.specs)


def _deg(d):
    return tuple(d) if isinstance(d, list) else d


def raw_weights(s):
    rng = Rng("w", s["seed"])
    return np.array([0.1 + rng.random() for _ in range(s["n"])])


def deref(s, specs):
    while "ref" in s:
        s = specs[s["ref"]]
    return s


def rule_points(s, specs):
    s = deref(s, specs)
    if s["k"] == "rule":
        p, w, f = ref.ref_rule(s)
        return p, w
    if s["k"] == "rawrule":
        return ps_points(s["ps"], specs), raw_weights(s)
    fs = [rule_points(f, specs) for f in s["f"]]
    p, w = fs[0]
    for p2, w2 in fs[1:]:
        p = np.array([list(a) + list(b) for a in p for b in p2])
        w = np.array([a * b for a in w for b in w2])
    return p, w


def ps_points(s, specs):
    """Flattened reference points of a point-set spec."""
    s = deref(s, specs)
    k = s["k"]
    if k == "ruleps":
        return rule_points(s["rule"], specs)[0]
    if k in ("pts", "single"):
        rng = Rng("p", s["seed"])
        sub = ref.entity_subcell(ref.ref_cell(s["cell"]), tup_entity(s.get("entity")))
        n = 1 if k == "single" else s["n"]
        pts = ref.random_points(sub, n, rng)
        if s["seed"] % 9 == 4 and pts.size and k == "pts":
            pts[-1, -1] = (1e-16, -1e-16)[s["seed"] % 2]      # round-off a caller's own computation left
        return pts
    if k == "gl":
        from FIAT.quadrature import GaussLegendreQuadratureLineRule
        return np.asarray(GaussLegendreQuadratureLineRule(ref.ref_cell("I"), s["n"]).get_points(), dtype=float)
    if k == "gll":
        from FIAT.quadrature import GaussLobattoLegendreQuadratureLineRule
        return np.asarray(GaussLobattoLegendreQuadratureLineRule(ref.ref_cell("I"), s["n"]).get_points(), dtype=float)
    if k == "tps":
        fs = [ps_points(f, specs) for f in s["f"]]
        p = fs[0]
        for q in fs[1:]:
            p = np.array([list(a) + list(b) for a in p for b in q])
        return p
    if k == "unknown":
        rng = Rng("u", s["seed"])
        return np.array([[rng.random() for _ in range(s["d"])] for _ in range(s["n"])])
    raise KeyError(k)


def ps_extents(s, specs):
    s = deref(s, specs)
    k = s["k"]
    if k == "single":
        return ()
    if k == "tps":
        return sum((ps_extents(f, specs) for f in s["f"]), ())
    if k == "ruleps":
        r = deref(s["rule"], specs)
        if r["k"] == "rule":
            c = r["cell"]
            if c == "Q":
                c = "TP:I,I"
            if c.startswith("TP:"):
                out = ()
                ds = r["deg"]
                cs = ref.split_tp(c)
                ds = ds if isinstance(ds, list) else [ds] * len(cs)
                for c2, d in zip(cs, ds):
                    out += ps_extents({"k": "ruleps", "rule": dict(r, cell=c2, deg=d)}, specs)
                return out
            return (len(ref.ref_rule(r)[1]),)
        if r["k"] == "rawrule":
            return ps_extents(r["ps"], specs)
        return sum((ps_extents({"k": "ruleps", "rule": f}, specs) for f in r["f"]), ())
    return (len(ps_points(s, specs)),)


def tup_entity(e):
    """JSON [dim, id] with dim possibly a list -> hashable entity."""
    if e is None:
        return None
    d, i = e
    return (_tup(d), i)


def _tup(d):
    return tuple(_tup(x) for x in d) if isinstance(d, list) else d


# --------------------------------------------------------------------------
# numeric evaluation of what the library returned

class Unusable(Exception):
    """A returned expression that a user could not evaluate."""


def numeric(expr, point_indices, shape, bindings=None):
    """Array of shape extents(point_indices) + shape."""
    if not isinstance(expr, gem.gem.Node):
        raise Unusable("not an expression: %r" % type(expr))
    if tuple(expr.shape) != tuple(shape):
        raise Unusable("shape %r, declared %r" % (tuple(expr.shape), tuple(shape)))
    free = set(expr.free_indices)
    extra = free - set(point_indices)
    if extra:
        raise Unusable("free indices that are not the point set's: %d of %d foreign" % (len(extra), len(free)))
    beta = tuple(gem.Index(extent=d) for d in shape)
    full = tuple(point_indices) + beta
    node = gem.Indexed(expr, beta) if beta else expr
    there = set(node.free_indices)
    used = tuple(i for i in full if i in there)
    b = {}
    for var, val in (bindings or {}).items():
        b[var] = np.asarray(val, dtype=float)
    res, = evaluate([gem.ComponentTensor(node, used) if used else node], bindings=b)
    if res.fids:
        raise Unusable("unbound free indices after evaluation")
    arr = np.asarray(res.arr, dtype=float)
    arr = arr.reshape(tuple(i.extent if i in there else 1 for i in full))
    return np.broadcast_to(arr, tuple(i.extent for i in full))


TOL = 1e-8


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, np.nanmax(np.abs(b)) if np.isfinite(b).any() else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * scale))
