"""Operations callers perform, and the oracle that judges each answer.

`perform` touches the library (and runs under the scheduler); `judge` compares
the answer with the reference model and runs outside it.
"""
import hashlib
import itertools
import json
import threading
import numpy as np
import gem
import finat
from finat.physically_mapped import PhysicalGeometry
from FIAT.polynomial_set import mis

from . import ref, sched
from .detrng import Rng
from .templates import needs_geom
from . import world as W
from .ops_base import Bad, Out
from .optpkg_ops import do_cbuild, do_pkg, judge_cbuild, judge_pkg   # noqa: F401
from .runtab_ops import do_rtab, do_rfill, judge_rtab, judge_rfill   # noqa: F401
from .persist_ops import (do_sput, do_sload, do_sget, do_scmp, do_scopy, do_suse, do_sset, judge_sput, judge_sload,   # noqa: F401
                          judge_sget, judge_scmp, judge_scopy, judge_suse, judge_sset)
from .registry import (do_reg, do_alias, do_look, do_show, do_regcheck, judge_reg, judge_alias,   # noqa: F401
                       judge_look, judge_show, judge_regcheck)
from .world import numeric, close, Unusable, tup_entity

PS = finat.point_set


class CallbackFailed(Exception):
    """Raised by a caller's own callback."""


# --------------------------------------------------------------------------
# caller-supplied geometry and functions

def geom_values(g, cellname):
    """Everything a geometry can be asked, as numbers."""
    key = json.dumps(g["verts"]) + cellname
    try:
        return _gv[key]
    except KeyError:
        pass
    refc = ref.ref_cell(cellname)
    out = {"verts": np.array(g["verts"], dtype=float), "h": np.array(g["h"], dtype=float)}
    if cellname != "Q":
        sd = refc.get_spatial_dimension()
        phys = ref.phys_simplex(sd, g["verts"])
        import FIAT
        A, b = FIAT.reference_element.make_affine_mapping(refc.vertices, phys.vertices)
        out.update(J=A, b=b, detJ=np.linalg.det(A))
        nf = len(refc.get_topology()[sd - 1])
        ne = len(refc.get_topology()[1])
        if sd > 1:
            out["rn"] = np.array([refc.compute_normal(i) for i in range(nf)])
            out["pn"] = np.array([phys.compute_normal(i) for i in range(nf)])
        out["pt"] = np.array([phys.compute_normalized_edge_tangent(i) for i in range(ne)])
        out["pel"] = np.array([phys.volume_of_subcomplex(1, i) for i in range(ne)])
    _gv[key] = out
    return out


_gv = {}


class Geometry(PhysicalGeometry):
    """One caller's physical cell.  Literal numbers or named variables."""
    def __init__(self, g, cellname):
        self.g, self.cellname = g, cellname
        self.v = geom_values(g, cellname)
        self.bindings = {}
        self.active = {}      # thread -> [hooks of the requests it has under way]

    def request(self, hooks):
        """The requests made with this geometry and the hooks each brings."""
        return _Using(self.active.setdefault(threading.get_ident(), []), hooks)

    def _hook(self):
        st = self.active.get(threading.get_ident())
        if st:
            st[-1].calls += 1
            st[-1].at(st[-1].calls)

    def _give(self, name, val):
        val = np.asarray(val, dtype=float)
        if self.g.get("mode") == "var":
            v = gem.Variable("geo%s_%s" % (self.g.get("tag", ""), name), val.shape)
            self.bindings[v] = val
            return v
        return gem.Literal(val)

    def cell_size(self):
        self._hook()
        if self.g.get("mode") == "np":
            return np.array(self.v["h"])
        return self._give("h", self.g["h"])

    def detJ_at(self, point):
        self._hook()
        return self._give("detJ", self.v["detJ"])

    def jacobian_at(self, point):
        self._hook()
        return self._give("J", self.v["J"])

    def reference_normals(self):
        self._hook()
        return self._give("rn", self.v["rn"])

    def physical_normals(self):
        self._hook()
        return self._give("pn", self.v["pn"])

    def physical_tangents(self):
        self._hook()
        return self._give("pt", self.v["pt"])

    def physical_edge_lengths(self):
        self._hook()
        return self._give("pel", self.v["pel"])

    def physical_points(self, ps, entity=None):
        self._hook()
        pts = quad_map(self.v["verts"], entity_points(self.cellname, np.asarray(ps.points, dtype=float), entity))
        shape = tuple(i.extent for i in ps.indices) + (pts.shape[1],)
        name = hashlib.sha256(repr((shape, pts.tolist())).encode()).hexdigest()[:10]
        return self._give("pp" + name, pts.reshape(shape))

    def physical_vertices(self):
        self._hook()
        return self._give("verts", self.v["verts"])


class _Using:
    def __init__(self, stack, hooks):
        self.stack, self.hooks = stack, hooks

    def __enter__(self):
        self.stack.append(self.hooks)

    def __exit__(self, *_):
        self.stack.pop()


def geometry(world, g):
    """The caller's geometry object: a new one for every request, or the one
    the caller made earlier (for another request, or the one that failed)."""
    if "gid" not in g:
        return Geometry(g, g["cell"])
    if g["gid"] not in world.geos:
        world.geos[g["gid"]] = Geometry(g, g["cell"])
    return world.geos[g["gid"]]


def entity_points(cellname, pts, entity):
    c = ref.ref_cell(cellname)
    if entity is None or entity[0] == c.get_dimension():
        return pts
    f = c.get_entity_transform(*entity)
    return np.array([f(p) for p in pts], dtype=float)


def quad_map(V, pts):
    x, y = pts[:, :1], pts[:, 1:]
    return V[0] * (1 - x) * (1 - y) + V[1] * (1 - x) * y + V[2] * x * (1 - y) + V[3] * x * y


class Hooks:
    """What a caller's callback does besides answering."""
    def __init__(self, spec, ctx):
        self.spec = spec or {}
        self.ctx = ctx
        self.nested = []
        self.calls = 0

    def at(self, n):
        s = self.spec
        if "fail" in s and n == s["fail"] and not self.ctx.suppress_fail:
            self.ctx.cb_raised = CallbackFailed("callback %d" % n)
            raise self.ctx.cb_raised
        if "reenter" in s and n == s.get("when", 1):
            op = s["reenter"]
            self.nested.append((op, perform(self.ctx.world, op, self.ctx)))


def poly(seed, dim, vshape):
    """A fixed caller function: values at points and its expression."""
    rng = Rng("f", seed)
    vs = int(np.prod(vshape, dtype=int))
    terms = [[(rng.random() * 2 - 1, [rng.randrange(3) for _ in range(dim)]) for _ in range(3)] for _ in range(vs)]

    def num(P):
        P = np.asarray(P, dtype=float)
        out = np.zeros((len(P), vs))
        for k, ts in enumerate(terms):
            for c, e in ts:
                out[:, k] += c * np.prod(P ** np.array(e), axis=1)
        return out.reshape((len(P),) + tuple(vshape))

    def sym(xe):
        x = [gem.Indexed(xe, (i,)) for i in range(dim)]
        comps = []
        for ts in terms:
            s = gem.Zero()
            for c, e in ts:
                t = gem.Literal(c)
                for xi, n in zip(x, e):
                    for _ in range(n):
                        t = gem.Product(t, xi)
                s = gem.Sum(s, t)
            comps.append(s)
        if not vshape:
            return comps[0]
        return gem.ListTensor(np.array(comps, dtype=object).reshape(vshape))
    return num, sym


class Ctx:
    def __init__(self, world, caller):
        self.world, self.caller = world, caller
        self.suppress_fail = False
        self.cb_raised = None


# --------------------------------------------------------------------------
# performing

def perform(world, op, ctx):
    return globals()["do_" + op["op"]](world, op, ctx)


def cell_of(world, e):
    return world.ref(e).cellname if hasattr(world.ref(e), "cellname") else None


def do_tab(world, op, ctx):
    e = world.get(op["e"])
    ps = world.get(op["ps"])
    ent = tup_entity(op.get("entity"))
    geo = None
    if op.get("geom"):
        hooks = Hooks(op["geom"].get("hooks"), ctx)
        geo = geometry(world, op["geom"])
        with geo.request(hooks):
            t = e.basis_evaluation(op["order"], ps, entity=ent, coordinate_mapping=geo)
    elif ent is None and op.get("noent"):
        t = e.basis_evaluation(op["order"], ps)
    else:
        t = e.basis_evaluation(op["order"], ps, entity=ent)
    return Out(table=t, ps=ps, elem=e, geo=geo, nested=hooks.nested if geo else [])


def do_pteval(world, op, ctx):
    e = world.get(op["e"])
    ent = tup_entity(op.get("entity"))
    d = op["d"]
    X = gem.Variable("X%s" % op["seed"], (d,))
    return Out(table=e.point_evaluation(op["order"], X, ent), X=X, elem=e)


def do_layout(world, op, ctx):
    e = world.get(op["e"])
    res = {}
    for w in op["what"]:
        res[w] = LAYOUT[w](e)
    return Out(res=res, elem=e)


LAYOUT = {
    "entity_dofs": lambda e: e.entity_dofs(),
    "closure": lambda e: e.entity_closure_dofs(),
    "support": lambda e: e.entity_support_dofs(),
    "supportfn": lambda e: {d: finat.finiteelementbase.entity_support_dofs(e, d) for d in e.cell.get_topology()},
    "permutations": lambda e: e.entity_permutations,
    "space_dimension": lambda e: e.space_dimension(),
    "index_shape": lambda e: e.index_shape,
    "value_shape": lambda e: e.value_shape,
    "degree": lambda e: e.degree,
    "formdegree": lambda e: e.formdegree,
    "mapping": lambda e: e.mapping,
    "cell": lambda e: e.cell,
    "indices": lambda e: (e.get_indices(), e.get_value_indices()),
    "fiat": lambda e: e.fiat_equivalent,
}


def do_dual(world, op, ctx):
    e = world.get(op["e"])
    fs = op["fn"]
    hooks = Hooks(fs.get("hooks"), ctx)
    extra = []
    seen = []

    def fn(ps):
        hooks.at(1)
        seen.append(ps)
        if fs["kind"] == "basis":
            src = world.get(fs["src"])
            tab = src.basis_evaluation(0, ps)
            t, = tab.values()
            ind = src.get_indices()
            extra.extend(ind)
            out = gem.partial_indexed(t, ind)
        else:
            dim = fs["dim"]
            num, sym = poly(fs["seed"], dim, tuple(fs["vshape"]))
            if fs["kind"] == "sym":
                out = sym(ps.expression)
            else:
                vals = num(np.asarray(ps.points, dtype=float))
                vals = vals.reshape(tuple(i.extent for i in ps.indices) + tuple(fs["vshape"]))
                out = gem.partial_indexed(gem.Literal(vals), ps.indices)
        inn = fs.get("inner")
        if inn:
            out = scaled(out, dual_total(world.get(inn["e"]), inn), tuple(fs["vshape"]))
        hooks.at(2)
        return out
    expr, basis = e.dual_evaluation(fn)
    return Out(expr=expr, basis=tuple(basis), extra=tuple(extra), elem=e, nested=hooks.nested, ps=seen[0] if seen else None)


def dual_total(e, inn):
    """(Absolute) sum of the degrees of freedom of a function: a scalar."""
    def fn(ps):
        return poly(inn["seed"], inn["dim"], tuple(inn["vshape"]))[1](ps.expression)
    expr, basis = e.dual_evaluation(fn)
    scale = 1
    for i in basis:
        if i in expr.free_indices:
            expr = gem.IndexSum(expr, (i,))
        else:
            scale *= i.extent
    expr = gem.Product(gem.Literal(scale), expr)
    return expr if inn.get("plain") else gem.MathFunction("abs", expr)   # (opaque to the factoriser)


def scaled(expr, s, shape):
    if not shape:
        return gem.Product(expr, s)
    ix = tuple(gem.Index(extent=n) for n in shape)
    return gem.ComponentTensor(gem.Product(gem.Indexed(expr, ix), s), ix)


def do_dualbasis(world, op, ctx):
    e = world.get(op["e"])
    Q, x = e.dual_basis
    return Out(Q=Q, x=x, elem=e)


def do_rule(world, op, ctx):
    r = world.get(op["r"])
    out = Out(rule=r)
    for q in op.get("ask", ["ps", "w", "idx", "expr"]):
        if q == "ps":
            out.ps = r.point_set
        elif q == "w":
            out.w = r.weight_expression
        elif q == "idx":
            out.idx = r.point_set.indices
        elif q == "expr":
            out.expr = r.point_set.expression
        elif q == "pts":
            out.pts = r.point_set.points
        elif q == "along":
            out.along = asked(lambda: r.intrinsic_orientation_permutation_map_tuple)
        elif q == "swaps":
            out.swaps = asked(lambda: r.extrinsic_orientation_permutation_map)
    return out


def asked(f):
    """An answer, or the name of the refusal."""
    try:
        return f()
    except sched.INJECTED:
        raise
    except (ValueError, NotImplementedError) as ex:
        return type(ex).__name__


def do_ps(world, op, ctx):
    ps = world.get(op["ps"])
    out = Out(ps=ps)
    for q in op["ask"]:
        if q == "idx":
            out.idx = ps.indices
        elif q == "expr":
            out.expr = ps.expression
        elif q == "pts":
            out.pts = ps.points
        elif q == "dim":
            out.dim = ps.dimension
    return out


def do_mass(world, op, ctx):
    r = world.get(op["rule"])
    a, b = world.get(op["e1"]), world.get(op["e2"])
    za = (0,) * a.cell.get_spatial_dimension()
    ent = tup_entity(op.get("entity"))
    held = world.mail.get(json.dumps([op["e1"], op["rule"], op.get("entity")], sort_keys=True))
    if held is not None and op.get("use_held"):
        ta = held
    else:
        ta = a.basis_evaluation(0, r.point_set, entity=ent)[za]
        world.mail[json.dumps([op["e1"], op["rule"], op.get("entity")], sort_keys=True)] = ta
    tb = b.basis_evaluation(0, r.point_set, entity=ent)[za]
    i, j = a.get_indices(), b.get_indices()
    v = a.get_value_indices()
    integrand = gem.Product(gem.Indexed(ta, i + v), gem.Indexed(tb, j + v))
    if v:
        integrand = gem.IndexSum(integrand, v)
    w = r.weight_expression
    expr = gem.IndexSum(gem.Product(integrand, w), r.point_set.indices)
    return Out(expr=expr, i=i, j=j, a=a, b=b)


def do_restrict(world, op, ctx):
    e = world.get(op["e"])
    return Out(r=finat.RestrictedElement(e, op["domain"]), elem=e)


def do_build(world, op, ctx):
    return Out(elem=world.build(op["spec"]))


def do_sym(world, op, ctx):
    from . import sym
    e = world.get(op["s"])
    return Out(got={w: sym.ASK[w](e) if w in SYM_SAFE else sym.ask(e, w) for w in op["ask"]}, sym=e)


SYM_SAFE = ("repr", "hash", "str")


def judge_sym(world, op, out):
    from . import sym
    s = world.rspec(op["s"])["s"]
    want = sym.solo_props(s)
    for w, g in out.got.items():
        if g != want[w]:
            raise Bad("symbolic", "%s of a symbolic element is %s, expected %s" % (w, short(g), short(want[w])))
    if not (out.sym == sym.build(s) and hash(out.sym) == hash(sym.build(s))):
        raise Bad("symbolic", "a symbolic element no longer equals one built alike")


def do_distinct(world, op, ctx):
    return Out(idx=[(p, tuple(world.get(p).indices)) for p in op["ps"]])


def judge_distinct(world, op, out):
    """Distinct point sets share no index, except factors taken from another."""
    leaves = []
    for p, idx in out.idx:
        lv = ps_leaves(world, p)
        if len(lv) != len(idx):
            raise Bad("identity", "%d indices for %d factors" % (len(idx), len(lv)))
        leaves.append(dict(zip(idx, lv)))
        if len(set(idx)) != len(idx) and len(set(lv)) == len(lv):
            raise Bad("identity", "distinct factors of one point set share an index")
    for a in range(len(leaves)):
        for b in range(a):
            for i in leaves[a]:
                if i in leaves[b] and leaves[a][i] != leaves[b][i]:
                    raise Bad("identity", "distinct point sets share an index")
                for j in leaves[b]:
                    if leaves[a][i] == leaves[b][j] and i is not j:
                        raise Bad("identity", "one shared point set shows different indices")


def ps_leaves(world, p, path=None):
    """Names of the one-index factors of a point set, in order."""
    if "ref" in p:
        path = p["ref"]
        p = world.specs[path]
        if "ref" in p:
            return ps_leaves(world, p)
    elif path is None:
        path = "anon%d" % next(_anon)
    k = p["k"]
    if k == "tps":
        return sum((ps_leaves(world, f, "%s.%d" % (path, i) if "ref" not in f else None) for i, f in enumerate(p["f"])), [])
    if k == "single":
        return []
    if k == "ruleps":
        r = p["rule"]
        rp = path + ".rule"
        while "ref" in r:
            rp = r["ref"]
            r = world.specs[rp]
        return rule_leaves(world, r, rp)
    return [path]


_anon = itertools.count()


def rule_leaves(world, r, rp):
    if r["k"] == "tprule":
        out = []
        for i, f in enumerate(r["f"]):
            out += ps_leaves(world, {"k": "ruleps", "rule": f}, "%s.%d" % (rp, i))
        return out
    if r["k"] == "rawrule":
        return ps_leaves(world, r["ps"], rp + ".ps")
    n = len(W.ps_extents({"k": "ruleps", "rule": r}, world.specs))
    return ["%s#%d" % (rp, i) for i in range(n)]


def do_interleave(world, op, ctx):
    """A caller doing several things in one go on the same element."""
    return Out(parts=[(o, perform(world, o, ctx)) for o in op["ops"]])


def do_invalid(world, op, ctx):
    from . import invalid
    return Out(value=invalid.CASES[op["case"]](world, op))


# --------------------------------------------------------------------------
# judging

def judge(world, op, out):
    globals()["judge_" + op["op"]](world, op, out)


def check_shape(world, e, r):
    if tuple(e.index_shape) != tuple(r.index_shape):
        raise Bad("shape", "index_shape %r, expected %r" % (tuple(e.index_shape), tuple(r.index_shape)))
    if tuple(e.value_shape) != tuple(r.value_shape):
        raise Bad("shape", "value_shape %r, expected %r" % (tuple(e.value_shape), tuple(r.value_shape)))


def indices_of(world, psspec, ps):
    """The point set's own indices, checked to be the ones it always had."""
    idx = tuple(ps.indices)
    want = W.ps_extents(psspec, world.specs)
    if tuple(i.extent for i in idx) != tuple(want):
        raise Bad("identity", "point set indices have extents %r, expected %r" % ([i.extent for i in idx], want))
    return idx


def nested(world, out):
    for o, r in getattr(out, "nested", []):
        judge(world, o, r)


def with_geom(g, f):
    ref.CUR_GEOM.append(g)
    try:
        return f()
    finally:
        ref.CUR_GEOM.pop()


def refused(world, op, alpha, got):
    """An undefined derivative fails when evaluated.  In a composite with several
    components, components that vanish identically may still say zero."""
    nan = np.isnan(got)
    if world.rspec(op["e"])["k"] in ("Mix", "Tens", "Enr", "Disc", "HDiv", "HCurl"):
        ok = nan.reshape(len(got), -1).any(axis=1).all()
    else:
        ok = nan.all()
    if not ok:
        raise Bad("value", "derivative %r is undefined there but numbers came back" % (alpha,))


def judge_tab(world, op, out):
    nested(world, out)
    r = world.ref(op["e"])
    check_shape(world, out.elem, r)
    idx = indices_of(world, op["ps"], out.ps)
    pts = world.points(op["ps"])
    ent = tup_entity(op.get("entity"))
    want = with_geom(op.get("geom"), lambda: r.tab(op["order"], pts, ent))
    if set(out.table) != set(want):
        raise Bad("value", "derivatives returned %r, expected %r" % (sorted(out.table), sorted(want)))
    shape = tuple(r.index_shape) + tuple(r.value_shape)
    b = out.geo.bindings if out.geo is not None else None
    tol = r_tol(op)
    for alpha in sorted(want):
        got = numeric(out.table[alpha], idx, shape, b).reshape((len(pts),) + shape)
        w = want[alpha]
        if w is ref.FAILED:
            refused(world, op, alpha, got)
            continue
        if not close(got, w, tol):
            raise Bad("value", "tabulation %r differs by %.3g (scale %.3g)"
                      % (alpha, np.nanmax(np.abs(got - w)), np.abs(w).max()))


def r_tol(op):
    return 1e-6 if op.get("geom") else 1e-8


def judge_pteval(world, op, out):
    r = world.ref(op["e"])
    check_shape(world, out.elem, r)
    ent = tup_entity(op.get("entity"))
    pts = pteval_points(r, op)
    want = r.tab(op["order"], pts, ent)
    if set(out.table) != set(want):
        raise Bad("value", "derivatives returned %r, expected %r" % (sorted(out.table), sorted(want)))
    shape = tuple(r.index_shape) + tuple(r.value_shape)
    for alpha in sorted(want):
        w = want[alpha]
        for k, p in enumerate(pts):
            got = numeric(out.table[alpha], (), shape, {out.X: p})
            if w is ref.FAILED:
                refused(world, op, alpha, got[None])
            elif not close(got, w[k], 1e-7):
                raise Bad("value", "point evaluation %r differs by %.3g" % (alpha, np.nanmax(np.abs(got - w[k]))))


def pteval_points(r, op):
    ent = tup_entity(op.get("entity"))
    sub = ref.entity_subcell(r.cell, ent)
    return ref.random_points(sub, 2, Rng("pe", op["seed"]))


def plain(x):
    """Tables as plain python for comparison."""
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x] if isinstance(x, list) else tuple(plain(v) for v in x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def seqlist(x):
    """dict nest whose leaves are lists (sequence type does not matter)."""
    if isinstance(x, dict):
        return {plain(k): seqlist(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray, range)):
        return [seqlist(v) for v in x]
    return plain(x)


def want_layout(world, e, what):
    r = world.ref(e)
    key = (what, ref.leaf_key(world.inline(e)))
    try:
        return world.layout_cache[key]
    except KeyError:
        w = world.layout_cache[key] = _want_layout(world, r, what)
        return w


def _want_layout(world, r, what):
    if what == "entity_dofs":
        return seqlist(r.entity_dofs())
    if what == "closure":
        return seqlist(r.closure())
    if what in ("support", "supportfn"):
        sup, grey = r.support(Rng("support"))
        return None if sup is None else (seqlist(sup), seqlist(grey))
    if what == "permutations":
        return seqlist(r.permutations())
    if what == "space_dimension":
        return r.nb()
    if what in ("index_shape", "value_shape"):
        return tuple(getattr(r, what))
    if what in ("degree", "formdegree", "mapping"):
        return getattr(r, what)()
    raise KeyError(what)


def judge_layout(world, op, out):
    for what, got in out.res.items():
        judge_layout1(world, op, out, what, got)


def judge_equivalent(world, op, r, f):
    """The element of the layer below that an element says it is equivalent to."""
    spec = world.rspec(op["e"])
    if spec["k"] in ("QE", "QEmake"):
        if not close(np.asarray(f._points), r.P) or not close(np.asarray(f._weights), r.w):
            raise Bad("layout", "equivalent element has other points or weights than the rule")
        return
    if needs_geom(world.inline(op["e"])):
        return
    if seqlist(f.entity_dofs()) != seqlist(r.entity_dofs()):
        raise Bad("layout", "equivalent element has entity degrees of freedom %s, expected %s"
                  % (short(seqlist(f.entity_dofs())), short(seqlist(r.entity_dofs()))))
    if tuple(f.value_shape()) != tuple(r.value_shape):
        raise Bad("layout", "equivalent element has value shape %r, expected %r" % (f.value_shape(), r.value_shape))
    nb, order = r.nb(), 1 if r.nb() <= 20 else 0
    pts = ref.random_points(r.cell, 2, Rng("fiat"))
    ent = (r.cell.get_dimension(), 0)
    want = r.tab(order, pts, ent)
    got = f.tabulate(order, [tuple(p) for p in pts], ent)
    for alpha in sorted(want):
        if want[alpha] is ref.FAILED or isinstance(got.get(alpha), Exception):
            continue
        g = np.moveaxis(np.asarray(got[alpha]), -1, 0).reshape(2, nb, -1)
        if not close(g, np.asarray(want[alpha]).reshape(2, nb, -1), 1e-8):
            raise Bad("value", "the equivalent element tabulates differently (%r)" % (alpha,))


def judge_layout1(world, op, out, what, got):
    r = world.ref(op["e"])
    if what == "cell":
        if seqlist(got.get_topology()) != seqlist(r.cell.get_topology()):
            raise Bad("layout", "cell topology differs")
        return
    if what == "indices":
        bi, vi = got
        if tuple(i.extent for i in bi) != tuple(r.index_shape) or tuple(i.extent for i in vi) != tuple(r.value_shape):
            raise Bad("layout", "index extents differ from the element's shapes")
        if len(set(bi + vi)) != len(bi + vi):
            raise Bad("layout", "indices not distinct")
        return
    if what == "fiat":
        if got.space_dimension() != r.nb():
            raise Bad("layout", "equivalent element has dimension %d, expected %d" % (got.space_dimension(), r.nb()))
        judge_equivalent(world, op, r, got)
        return
    want = want_layout(world, op["e"], what)
    if want is None:
        return
    if what in ("support", "supportfn"):
        g = seqlist(got)
        want, grey = want
        if not op.get("strict"):
            def drop(t):
                return {d: {e: [i for i in v if i not in grey[d][e]] for e, v in x.items()} for d, x in t.items()}
            g, want = drop(g), drop(want)
        if g != want:
            raise Bad("layout", "%s is %s, expected %s" % (what, short(g), short(want)))
    elif what in ("entity_dofs", "closure"):
        g = seqlist(got)
        if g != want:
            raise Bad("layout", "%s is %s, expected %s" % (what, short(g), short(want)))
    elif what == "permutations":
        if seqlist(got) != want:
            raise Bad("layout", "permutations differ: %s, expected %s" % (short(seqlist(got)), short(want)))
    elif what in ("index_shape", "value_shape"):
        if tuple(got) != want:
            raise Bad("layout", "%s %r, expected %r" % (what, got, want))
    elif what == "degree":
        if seqlist(got) != seqlist(want):
            raise Bad("layout", "degree %r, expected %r" % (got, want))
    elif plain(got) != plain(want):
        raise Bad("layout", "%s %r, expected %r" % (what, got, want))


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def judge_dual(world, op, out):
    nested(world, out)
    r = world.ref(op["e"])
    fs = op["fn"]
    want_free = set(out.basis) | set(out.extra)
    if out.expr.shape != ():
        raise Bad("value", "dual evaluation has shape %r" % (out.expr.shape,))
    if not set(out.expr.free_indices) <= want_free:
        raise Bad("identity", "dual evaluation has foreign free indices")
    got = numeric(out.expr, out.basis + out.extra, ())
    if fs["kind"] == "basis":
        s = world.ref(fs["src"])
        P, Wt = r.functionals()
        zero = (0,) * r.sd
        t = s.tab(0, P, None)[zero].reshape(len(P), s.nb(), -1)
        want = np.einsum("ikc,kjc->ij", Wt, t).reshape(tuple(r.index_shape) + tuple(s.index_shape))
    else:
        num, _ = poly(fs["seed"], fs["dim"], tuple(fs["vshape"]))
        want = r.dual_apply(num)
        inn = fs.get("inner")
        if inn:
            num2, _ = poly(inn["seed"], inn["dim"], tuple(inn["vshape"]))
            total = np.sum(world.ref(inn["e"]).dual_apply(num2))
            want = want * (total if inn.get("plain") else abs(total))
    if got.shape != want.shape:
        raise Bad("shape", "dual evaluation has extents %r, expected %r" % (got.shape, want.shape))
    if not close(got, want):
        raise Bad("value", "dual evaluation differs by %.3g" % np.abs(got - want).max())
    if fs["kind"] == "basis" and fs.get("nodal"):
        n = r.nb()
        if not close(got.reshape(n, n), np.eye(n), 1e-7):
            raise Bad("value", "basis functions do not evaluate to the identity")


def judge_dualbasis(world, op, out):
    r = world.ref(op["e"])
    Q, x = out.Q, out.x
    idx = tuple(x.indices)
    if not set(Q.free_indices) <= set(idx):
        raise Bad("identity", "dual weights carry indices that are not the point set's")
    if len(set(idx)) != len(idx):
        raise Bad("identity", "one index used for two factors of the points")
    if op.get("fresh", True):
        for i in idx:
            owner = world.index_owner.get(i)
            if owner is not None and owner is not out:
                raise Bad("identity", "points of two dual requests share an index")
            world.index_owner[i] = out
    shape = tuple(Q.shape)
    vs = tuple(r.value_shape)
    arr = numeric(Q, idx, shape)
    n = int(np.prod([i.extent for i in idx], dtype=int))
    P = np.asarray(x.points, dtype=float)
    if len(P) != n:
        raise Bad("value", "%d points for indices of total extent %d" % (len(P), n))
    num, _ = poly(op["seed"], r.sd, vs)
    f = num(P)
    arr = arr.reshape((n,) + shape)
    if shape[:len(r.index_shape)] != tuple(r.index_shape):
        raise Bad("shape", "dual weights %r, expected %r first" % (shape, r.index_shape))
    tail = shape[len(r.index_shape):]
    if len(tail) != len(vs):
        raise Bad("shape", "dual weights value shape %r" % (tail,))
    f = f[(slice(None),) + tuple(slice(0, t) for t in tail)]
    got = np.einsum("kic,kc->i", arr.reshape(n, r.nb(), -1), f.reshape(n, -1))
    want = r.dual_apply(num).reshape(-1)
    if not close(got, want):
        raise Bad("value", "dual basis applied to a function differs by %.3g" % np.abs(got - want).max())


def judge_rule(world, op, out):
    r = out.rule
    ps = r.point_set
    idx = indices_of(world, {"k": "ruleps", "rule": op["r"]}, ps)
    spec = W.deref(op["r"], world.specs)
    if hasattr(out, "idx") and tuple(out.idx) != idx:
        raise Bad("identity", "indices handed out are no longer the point set's")
    if hasattr(out, "ps") and tuple(out.ps.indices) != idx:
        raise Bad("identity", "the rule's point set changed its indices")
    w = out.w if hasattr(out, "w") else r.weight_expression
    if not set(w.free_indices) <= set(idx):
        raise Bad("identity", "weights and points carry different indices")
    wn = numeric(w, idx, ()).reshape(-1)
    P = np.asarray(ps.points, dtype=float)
    e = out.expr if hasattr(out, "expr") else ps.expression
    dim = ps.dimension
    pn = numeric(e, idx, (dim,)).reshape(len(P), dim)
    if not close(pn, P):
        raise Bad("value", "points expression disagrees with the points")
    if len(wn) != len(P):
        raise Bad("value", "%d weights for %d points" % (len(wn), len(P)))
    if hasattr(out, "pts") and not close(np.asarray(out.pts), P):
        raise Bad("value", "points handed out changed")
    cell = spec.get("cell")
    if spec["k"] == "rawrule":
        P2, w2 = W.rule_points(op["r"], world.specs)
        if not close(P, P2) or not close(wn, w2):
            raise Bad("value", "rule does not carry the points and weights it was given")
        judge_turns(world, op, out, spec)
        return
    judge_turns(world, op, out, spec)
    for expo in exponents(spec, world.specs):
        got = float(np.sum(wn * np.prod(P ** np.array(expo), axis=1)))
        want = ref.monomial_integral(cell, expo)
        if abs(got - want) > 1e-10:
            raise Bad("value", "integral of x^%r is %.12g, exactly %.12g" % (expo, got, want))
    if cell in ref.OTHER:
        if np.any(ref.barycentric(ref.corners(cell), P) < -1e-9):
            raise Bad("value", "a quadrature point lies outside the cell")
        pieces = ref.subcells(cell)
        if len(pieces) > 1:
            inside = [(ref.barycentric(V, P) > 1e-9).all(axis=1) for V in pieces]
            if np.sum(inside, axis=0).min() == 1:
                # a split cell: exact on each piece, for piecewise polynomials
                for V, here in zip(pieces, inside):
                    for expo in exponents(spec, world.specs):
                        got = float(np.sum((wn * np.prod(P ** np.array(expo), axis=1))[here]))
                        want = ref.simplex_integral(V, expo)
                        if abs(got - want) > 1e-10:
                            raise Bad("value", "on one piece the integral of x^%r is %.12g, exactly %.12g" % (expo, got, want))
        return
    if any(c in str(cell) for c in ref.OTHER):
        return
    if np.any(P < -1e-12) or (cell in ("I", "T", "S") and np.any(P.sum(axis=1) > 1 + 1e-9)):
        raise Bad("value", "a quadrature point lies outside the cell")


def judge_turns(world, op, out, spec):
    """How the rule's points are permuted when the cell is turned over."""
    if hasattr(out, "along"):
        want = ref.orientation_maps(op["r"], world.specs)
        if any(m is None for m in want):
            if not isinstance(out.along, str):
                raise Bad("value", "a rule without orientations handed out %r" % (out.along,))
        elif isinstance(out.along, str):
            raise Bad("value", "a rule with orientations refused with %s" % out.along)
        elif [np.asarray(m).tolist() for m in out.along] != want:
            raise Bad("value", "orientations permute the points as %r, expected %r"
                      % ([np.asarray(m).tolist() for m in out.along], want))
    if hasattr(out, "swaps"):
        cell = spec["cell"]
        want = asked(lambda: ref.make_cell("TP:I,I" if cell == "Q" else cell).extrinsic_orientation_permutation_map)
        a, b = [x if isinstance(x, str) else np.asarray(x).tolist() for x in (out.swaps, want)]
        if a != b:
            raise Bad("value", "axes are swapped by %r, expected %r" % (a, b))


def exponents(spec, specs):
    spec = W.deref(spec, specs)
    if spec["k"] == "tprule":
        fs = [exponents(f, specs) for f in spec["f"]]
        return [list(itertools.chain(*c)) for c in itertools.product(*fs)]
    c, d = spec["cell"], spec["deg"]
    if c == "Q":
        c = "TP:I,I"
    if c.startswith("TP:"):
        cs = ref.split_tp(c)
        ds = d if isinstance(d, list) else [d] * len(cs)
        fs = [exponents({"k": "rule", "cell": x, "deg": y}, specs) for x, y in zip(cs, ds)]
        return [list(itertools.chain(*c)) for c in itertools.product(*fs)]
    sd = ref.cell_dim(c)
    if sd == 0:
        return [[]]
    if c == "H":
        return [list(m) for k in range(d + 1) for m in mis(sd, k)]
    return [list(m) for k in range(d + 1) for m in mis(sd, k)]


def judge_ps(world, op, out):
    ps = out.ps
    idx = indices_of(world, op["ps"], ps)
    spec = W.deref(op["ps"], world.specs)
    if hasattr(out, "idx") and tuple(out.idx) != idx:
        raise Bad("identity", "indices handed out are no longer the point set's")
    if spec["k"] == "unknown":
        e = out.expr if hasattr(out, "expr") else ps.expression
        v = gem.Variable(spec["name"], (spec["n"], spec["d"]))
        P = world.points(op["ps"])
        got = numeric(e, idx, (spec["d"],), {v: P})
        if not close(got, P):
            raise Bad("value", "points expression is not the caller's points")
        if len(ps.points) != spec["n"] or ps.dimension != spec["d"]:
            raise Bad("shape", "unknown point set reports wrong size")
        return
    P = world.points(op["ps"])
    if not close(np.asarray(ps.points), P, 1e-13):
        raise Bad("value", "points are not those the caller passed")
    if hasattr(out, "pts") and not close(np.asarray(out.pts), P, 1e-13):
        raise Bad("value", "points handed out changed")
    if ps.dimension != P.shape[1]:
        raise Bad("shape", "dimension %r" % ps.dimension)
    e = out.expr if hasattr(out, "expr") else ps.expression
    got = numeric(e, idx, (P.shape[1],)).reshape(P.shape)
    if not close(got, P, 1e-13):
        raise Bad("value", "points expression disagrees with the points")


def judge_mass(world, op, out):
    ra, rb = world.ref(op["e1"]), world.ref(op["e2"])
    P, w = W.rule_points(op["rule"], world.specs)
    ent = tup_entity(op.get("entity"))
    z = (0,) * ra.sd
    ta = ra.tab(0, P, ent)[z].reshape(len(P), ra.nb(), -1)
    tb = rb.tab(0, P, ent)[z].reshape(len(P), rb.nb(), -1)
    want = np.einsum("k,kic,kjc->ij", w, ta, tb).reshape(tuple(ra.index_shape) + tuple(rb.index_shape))
    free = set(out.expr.free_indices)
    if not free <= set(out.i + out.j):
        raise Bad("identity", "integral still depends on a point index")
    got = numeric(out.expr, out.i + out.j, ())
    if not close(got, want):
        raise Bad("value", "integral of a product differs by %.3g" % np.abs(got - want).max())


def judge_restrict(world, op, out):
    """The functions kept are exactly those attached to the chosen entities'
    closure, each unchanged and attached to the same entity."""
    r = world.ref(op["e"])
    R = out.r
    if not hasattr(R, "basis_evaluation"):
        raise Bad("value", "restricting returned %r instead of an element or an error" % type(R).__name__)
    full = r.entity_dofs()
    sd = r.sd
    dom = op["domain"]
    got = seqlist(R.entity_dofs())

    def total(d):
        return sum(d) if isinstance(d, tuple) else d
    lim = {"interior": None, "facet": sd - 1, "face": 2, "edge": 1, "vertex": 0}[dom]
    keep = {}
    for d in full:
        for e in full[d]:
            ok = total(d) == sd if dom == "interior" else total(d) <= lim
            keep[(d, e)] = list(full[d][e]) if ok else []
    n = sum(len(v) for v in keep.values())
    if R.space_dimension() != n:
        raise Bad("layout", "restricted element has dimension %r, expected %d" % (R.space_dimension(), n))
    shape = tuple(R.index_shape) + tuple(R.value_shape)
    if tuple(R.value_shape) != tuple(r.value_shape):
        raise Bad("shape", "restricted value shape %r" % (R.value_shape,))
    sub = r.cell
    pts = ref.random_points(sub, 4, Rng("rp", op["seed"]))
    ps = PS.PointSet(pts)
    z = (0,) * sd
    t = R.basis_evaluation(0, ps)[z]
    tn = numeric(t, tuple(ps.indices), shape).reshape(len(pts), n, -1)
    wn = r.tab(0, pts, None)[z].reshape(len(pts), r.nb(), -1)
    seen = []
    for (d, e), dofs in keep.items():
        g = got[d][e]
        if len(g) != len(dofs):
            raise Bad("layout", "entity %r keeps %d functions, expected %d" % ((d, e), len(g), len(dofs)))
        seen += g
        if op.get("pairwise", True):
            for a, b in zip(g, dofs):
                if not close(tn[:, a], wn[:, b]):
                    raise Bad("value", "a function kept on entity %r changed" % ((d, e),))
    if sorted(seen) != list(range(n)):
        raise Bad("layout", "restricted dofs are not a partition")


def judge_build(world, op, out):
    if "ref" not in op["spec"] and op.get("isel", True):
        check_shape(world, out.elem, world.ref(op["spec"]))


def judge_interleave(world, op, out):
    for o, r in out.parts:
        judge(world, o, r)


def judge_invalid(world, op, out):
    v = out.value
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "nan-ok":
        if np.all(np.isnan(v[1])):
            return
    raise Bad("accepted", "case %s was accepted and returned %s" % (op["case"], short(v)))


# --------------------------------------------------------------------------
# contents of held results, for "nothing already given changes"

def freeze(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple, range)):
        return (type(x).__name__, tuple(freeze(v, depth + 1) for v in x))
    if isinstance(x, gem.gem.Node):
        return ("expr", expr_bytes(x))
    if isinstance(x, (int, float, str, type(None), np.generic, bool)):
        return repr(x)
    return (type(x).__name__, id(x))


def expr_bytes(x):
    """Digest of an expression's contents, whatever its sharing."""
    memo = {}

    def front(n):
        if isinstance(n, gem.Literal):
            # equal literals (0.0 and -0.0, 1 and 1.0) may stand in for each other
            return (np.asarray(n.array, dtype=float) + 0.0).tobytes() + repr(n.array.shape).encode()
        return repr([a if isinstance(a, (int, str, float, tuple, type(None))) else type(a).__name__
                     for a in (getattr(n, at, None) for at in n.__front__ + n.__back__)]).encode()

    stack = [(x, False)]
    while stack:
        n, ready = stack.pop()
        if id(n) in memo:
            continue
        ch = getattr(n, "children", ())
        if not ready:
            stack.append((n, True))
            stack.extend((c, False) for c in ch if id(c) not in memo)
        else:
            h = hashlib.sha1(type(n).__name__.encode() + front(n))
            for c in ch:
                h.update(memo[id(c)])
            memo[id(n)] = h.digest()
    return memo[id(x)]
