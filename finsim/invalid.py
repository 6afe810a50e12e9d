"""Requests that cannot be honoured.

Each case is a small JSON description; performing it must raise (or give an
expression that fails, i.e. is all-NaN, when evaluated) every time."""
import numpy as np
import gem
import finat
import finat.quadrature

from . import sym
from . import world as W
from .world import tup_entity

PS = finat.point_set


def c_build(w, op):
    return w.build(op["spec"])


def c_use(w, op):
    """A combination that is only refused once it is used."""
    e = w.build(op["spec"])
    ps = w.get(op["ps"])
    return list(e.basis_evaluation(0, ps).values()), e.value_shape, e.cell


def c_rule(w, op):
    d = op["deg"]
    return finat.quadrature.make_quadrature(w.cell(op["cell"]), tuple(d) if isinstance(d, list) else d, op.get("scheme", "default"))


def c_tab(w, op):
    """A tabulation that is refused or undefined."""
    e, ps = w.get(op["e"]), w.get(op["ps"])
    kw = {}
    if "entity" in op:
        kw["entity"] = tup_entity(op["entity"])
    t = e.basis_evaluation(op["order"], ps, **kw)
    idx = tuple(ps.indices)
    out = [W.numeric(v, idx, tuple(v.shape)) for v in t.values()]
    return ("nan-ok", np.concatenate([a.reshape(-1) for a in out]) if out else np.zeros(1))


def c_pteval(w, op):
    e = w.get(op["e"])
    X = gem.Variable("Xbad", tuple(op["xshape"]))
    return list(e.point_evaluation(op["order"], X, tup_entity(op.get("entity"))))


def c_attr(w, op):
    from .ops import LAYOUT
    return LAYOUT[op["what"]](w.get(op["e"]))


def c_dualbasis(w, op):
    return w.get(op["e"]).dual_basis


def c_dualbad(w, op):
    """A caller's function whose values have the wrong shape."""
    e = w.get(op["e"])
    shape = tuple(op["shape"])
    return e.dual_evaluation(lambda ps: gem.Literal(np.ones(shape)) if shape else gem.Literal(1.0))


def c_restrict(w, op):
    return finat.RestrictedElement(w.get(op["e"]), op["domain"])


def c_weights(w, op):
    ps = w.get(op["ps"])
    return finat.quadrature.QuadratureRule(ps, [1.0] * (len(ps.points) + op["by"]))


def c_ornt(w, op):
    r = finat.quadrature.QuadratureRule(PS.PointSet([[0.5]]), [1.0])
    return getattr(r, op["what"])


def c_points(w, op):
    k = op["kind"]
    if k == "single2d":
        return PS.PointSingleton([[0.1, 0.2]])
    if k == "set1d":
        return PS.PointSet([0.1, 0.2])
    if k == "gl2d":
        return PS.GaussLegendrePointSet([[0.1, 0.2]])
    if k == "gll2d":
        return PS.GaussLobattoLegendrePointSet([[0.1, 0.2]])
    if k == "unknown-literal":
        return PS.UnknownPointSet(gem.Literal(np.zeros((2, 2))))
    if k == "unknown-vector":
        return PS.UnknownPointSet(gem.Variable("u", (3,)))
    raise KeyError(k)


def c_qe(w, op):
    return finat.QuadratureElement(w.cell(op["cell"]), w.get(op["rule"]) if isinstance(op["rule"], dict) else op["rule"])


def c_qetab(w, op):
    """A quadrature element answers at its own points only."""
    q = finat.QuadratureElement(w.cell(op["cell"]), w.get(op["rule"]))
    kw = {"entity": tup_entity(op["entity"])} if "entity" in op else {}
    return list(q.basis_evaluation(op["order"], w.get(op["ps"]), **kw))


def c_qecall(w, op):
    q = finat.QuadratureElement(w.cell(op["cell"]), w.get(op["rule"]))
    if op["what"] == "pteval":
        return q.point_evaluation(0, gem.Variable("X", (q.cell.get_spatial_dimension(),)))
    return getattr(q, op["what"])


def c_qerun(w, op):
    """A quadrature element whose points are only known at run time."""
    ps = PS.UnknownPointSet(gem.Variable("rt_P", (3, 2)))
    q = finat.QuadratureElement(w.cell("T"), finat.quadrature.QuadratureRule(ps, [1 / 6] * 3))
    return q.fiat_equivalent


def c_runtime(w, op):
    e = finat.RuntimeTabulated(w.cell("I"), 2, variant="rt")
    if op["what"] == "pteval":
        return e.point_evaluation(0, gem.Variable("X", (1,)))
    v = getattr(e, op["what"])
    return v() if callable(v) else v


def c_runtimebad(w, op):
    kw = dict(op["kw"])
    return finat.RuntimeTabulated(w.cell(op["cell"]), op["degree"], **kw)


def c_sym(w, op):
    return sym.build(op["s"])


def c_symask(w, op):
    e = sym.build(op["s"])
    k = op["what"]
    if k == "item":
        return e[op["arg"]]
    if k == "iter":
        return list(e)
    if k == "add":
        return e + 3
    if k == "mul":
        return e * "x"
    if k == "pullback":
        return e.pullback
    if k == "extract":
        return e.extract_subelement_component(tuple(op["arg"]))
    if k == "extract_ref":
        return e.extract_subelement_reference_component(tuple(op["arg"]))
    if k == "restrict":
        import finat.ufl as U
        return U.RestrictedElement(e, op["arg"])
    raise KeyError(k)


def c_restrictsym(w, op):
    import finat.ufl as U
    return U.RestrictedElement("not an element", "facet")


def c_call(w, op):
    """Requests that are not one call on one element."""
    return CALLS[op["what"]](w)


def _tp(w, *specs):
    return finat.TensorProductElement([w.build(s) for s in specs])


def _leaf(k, c, *args):
    return {"k": k, "cell": c, "args": list(args)}


def _translate(x):
    from finat.sympy2gem import sympy2gem
    m = gem.node.Memoizer(sympy2gem)
    m.bindings = {}
    return m(x)


def _parts(w, *degs):
    return finat.MixedElement([w.build(_leaf("Lagrange", "T", d)) for d in degs]).elements


def _sympy():
    import sympy
    return sympy


P1I, P2I, DG0I = _leaf("Lagrange", "I", 1), _leaf("Lagrange", "I", 2), _leaf("DiscontinuousLagrange", "I", 0)
P2T = _leaf("Lagrange", "T", 2)
CALLS = {
    "ds on T": lambda w: finat.DirectSerendipity(w.cell("T"), 2),
    "ds on I": lambda w: finat.DirectSerendipity(w.cell("I"), 1),
    "ds on H": lambda w: finat.DirectSerendipity(w.cell("H"), 2),
    "flat 1": lambda w: finat.FlattenedDimensions(_tp(w, P1I)).cell,
    "flat 4": lambda w: finat.FlattenedDimensions(_tp(w, P1I, P2I, P1I, P1I)).cell,
    "hdiv 3": lambda w: finat.HDivElement(_tp(w, P1I, DG0I, DG0I)),
    "hcurl 3": lambda w: finat.HCurlElement(_tp(w, P1I, P1I, DG0I)),
    "hdiv 1": lambda w: finat.HDivElement(_tp(w, P2I)),
    "hcurl 1": lambda w: finat.HCurlElement(_tp(w, DG0I)),
    "hdiv IxT": lambda w: finat.HDivElement(_tp(w, P1I, _leaf("DiscontinuousLagrange", "T", 1))),
    "hcurl IxT": lambda w: finat.HCurlElement(_tp(w, P1I, _leaf("Nedelec", "T", 1))),
    "hdiv no form": lambda w: finat.HDivElement(_tp(w, _leaf("CrouzeixRaviart", "T", 1), P1I)),
    "hcurl no form": lambda w: finat.HCurlElement(_tp(w, _leaf("CrouzeixRaviart", "T", 1), DG0I)),
    "hdiv affine": lambda w: finat.HDivElement(_tp(w, {"k": "Flat", "e": {"k": "TPE", "f": [P1I, DG0I]}}, DG0I)),
    "points shape": lambda w: PS.UnknownPointsArray((3,)),
    "points shape 3": lambda w: PS.UnknownPointsArray((3, 2, 2)),
    "tp unknown points": lambda w: _tp(w, P1I, P2I).basis_evaluation(0, PS.UnknownPointSet(gem.Variable("rt_X", (3, 2)))),
    "tp swapped points": lambda w: _tp(w, P2T, P1I).basis_evaluation(
        0, PS.TensorPointSet([PS.PointSet([[.2]]), PS.PointSet([[.2, .1]])])),
    "tp points on facet": lambda w: _tp(w, P2T, P1I).basis_evaluation(
        0, PS.TensorPointSet([PS.PointSet([[.2]]), PS.PointSet([[.2]])]), ((2, 0), 0)),
    "factor dims": lambda w: finat.tensor_product.factor_point_set(_tp(w, P1I, P2I).cell, (1,), PS.PointSet([[.2]])),
    "translate str": lambda w: _translate("x"),
    "translate fn": lambda w: _translate(_sympy().Function("f")(2)),
    "translate i": lambda w: _translate(_sympy().I),
    "translate oo": lambda w: _translate(_sympy().oo),
    "translate unbound": lambda w: _translate(_sympy().Symbol("nobody") + 1),
    "codim": lambda w: finat.restricted.codim_to_r(5, 2),
    "r": lambda w: finat.restricted.r_to_codim("cell", 2),
    "restrict indices": lambda w: finat.RestrictedElement(w.build(P2T), restriction_domain="vertex", indices=[0]),
    "restrict part": lambda w: finat.RestrictedElement(_parts(w, 2, 1)[0], "vertex"),
    "restrict part of mixture": lambda w: finat.RestrictedElement(finat.EnrichedElement(
        [_parts(w, 2, 2)[0], finat.TensorFiniteElement(w.build(P2T), (2,))]), "vertex"),
    "part past end": lambda w: finat.mixed.MixedSubElement(w.build(P2T), 1, 1),
    "part beyond": lambda w: finat.mixed.MixedSubElement(w.build(P2T), 1, 2),
    "part before": lambda w: finat.mixed.MixedSubElement(w.build(P2T), 3, -1),
    "call L2": lambda w: sym.lib().hdivcurl.CallableSobolevSpace("L2")(sym.lib().FiniteElement("CG", "triangle", 1)),
    "symmetries": lambda w: sym.lib().WithMapping(sym.lib().FiniteElement("CG", "triangle", 1), "symmetries"),
    "remapped attr": lambda w: sym.lib().WithMapping(sym.lib().FiniteElement("CG", "triangle", 1), "identity").nonsense,
    "no cell P": lambda w: sym.lib().FiniteElement("P", None, 1),
    "no cell RT": lambda w: sym.lib().FiniteElement("RT", None, 1),
    "no cell Regge": lambda w: sym.lib().FiniteElement("Regge", None, 1),
    "no cell vector": lambda w: sym.lib().VectorElement("CG", None, 1),
    "no cell tensor": lambda w: sym.lib().TensorElement("CG", None, 1),
    "degree type": lambda w: sym.lib().FiniteElement("CG", "triangle", 1.5),
    "cell type": lambda w: sym.lib().FiniteElement("CG", 3, 1),
    "schemes": lambda w: sym.lib().MixedElement(sym.lib().FiniteElement("CG", "triangle", 1, quad_scheme="a"),
                                                sym.lib().FiniteElement("CG", "triangle", 1, quad_scheme="b")),
    "component -1": lambda w: _mixed_sym().extract_subelement_reference_component((-1,)),
    "component 3": lambda w: _mixed_sym().extract_subelement_reference_component((3,)),
    "component 2d": lambda w: _mixed_sym().extract_reference_component((0, 0)),
}
for _f in ("P", "P-", "Q-", "P Lambda", "S"):
    for _k in (-1, -2, 3, 9):
        CALLS["form %s %d" % (_f, _k)] = lambda w, f=_f, k=_k: sym.lib().FiniteElement(
            f, "quadrilateral" if f[0] in "QS" else "triangle", 2, form_degree=k)
for _f in ("NCF", "NCE"):
    CALLS["%s on prism" % _f] = lambda w, f=_f: sym.lib().FiniteElement(f, sym.cell(["triangle", "interval"]), 1)
    CALLS["%s on QxT" % _f] = lambda w, f=_f: sym.lib().FiniteElement(f, sym.cell(["quadrilateral", "triangle"]), 1)
for _f in ("RTCF", "RTCE"):
    CALLS["%s on IxT" % _f] = lambda w, f=_f: sym.lib().FiniteElement(f, sym.cell(["interval", "triangle"]), 1)


def _mixed_sym():
    P = sym.lib().FiniteElement("CG", "triangle", 1)
    return sym.lib().MixedElement(P, sym.lib().VectorElement(P))


CASES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


# --------------------------------------------------------------------------
# candidates (the ones the pristine library refuses are kept in refusals.json)

def candidates():
    from . import gen, templates as T
    from .gen import key
    out = []

    def add(case, **kw):
        out.append(dict(op="invalid", case=case, **kw))

    def build(k, cell, *args, **kw):
        s = {"k": k, "cell": cell}
        if args:
            s["args"] = list(args)
        if kw:
            s["kw"] = kw
        add("build", spec=s)
    for c in ("I", "T", "S", "Q", "H", "TP:I,I", "TP:T,I", "TP:I,I,I"):
        for d in (-1, -2, -7):
            add("rule", cell=c, deg=d)
        add("rule", cell=c, deg=2, scheme="nonsense")
        add("rule", cell=c, deg=2, scheme="KMV2")
    for c, d in (("TP:I,I", [1]), ("TP:I,I", [1, 2, 3]), ("TP:T,I", [1, -1]), ("TP:T,I", [-1, 1]), ("TP:I,I,I", [1, 2]),
                 ("TP:I,I", [-1, -1]), ("TP:I,I,I", [1, 2, -3])):
        add("rule", cell=c, deg=d)
    for c in "TS":
        for d in (6, 7, 9):
            add("rule", cell=c, deg=d, scheme="KMV")
    for c in ("T", "S", "Q", "H", "TP:I,I", "TP:T,I"):
        for k, d in (("Lagrange", 0), ("Lagrange", -1), ("DiscontinuousLagrange", -1), ("RaviartThomas", 0), ("Nedelec", 0),
                     ("BrezziDouglasMarini", 0), ("NedelecSecondKind", 0), ("CrouzeixRaviart", 2), ("CrouzeixRaviart", 0),
                     ("Bubble", 1), ("Bubble", 2), ("FacetBubble", 1), ("Bernstein", -1), ("GaussLobattoLegendre", 0),
                     ("IntegratedLegendre", 0), ("KongMulderVeldhuizen", 0), ("KongMulderVeldhuizen", 9), ("Serendipity", 0),
                     ("BrezziDouglasFortinMarini", 3), ("BrezziDouglasFortinMarini", 1), ("HDivTrace", -1),
                     ("HellanHerrmannJohnson", -1), ("Regge", -1), ("TrimmedSerendipityFace", 0), ("TrimmedSerendipityDiv", 0),
                     ("TrimmedSerendipityEdge", 0), ("TrimmedSerendipityCurl", 0), ("BrezziDouglasMariniCubeEdge", 0),
                     ("BrezziDouglasMariniCubeFace", 0)):
            build(k, c, d)
    for k in ("Lagrange", "Serendipity", "DPC", "GaussLegendre", "RaviartThomas", "Regge"):
        build(k, "T", 2.5)
        build(k, "T", "2")
        build(k, "T", None)
    for k, cells, degs in (("Hermite", "ITS", (0, 1, 2, 4, 5)), ("Bell", "T", (3, 4, 6)), ("Argyris", "T", (1, 3, 4)), ("Morley", "T", (1, 3)),
                           ("HsiehCloughTocher", "T", (1, 2)), ("ReducedHsiehCloughTocher", "T", (2, 4)), ("ArnoldWinther", "T", (2, 4)),
                           ("ArnoldWintherNC", "T", (1, 3)), ("MardalTaiWinther", "T", (2, 4)), ("JohnsonMercier", "TS", (0, 2)),
                           ("QuadraticPowellSabin6", "T", (1, 3)), ("QuadraticPowellSabin12", "T", (1, 3)), ("AlfeldSorokina", "TS", (1, 3)),
                           ("ArnoldQin", "T", (1, 3)), ("ReducedArnoldQin", "T", (1, 3)), ("ChristiansenHu", "TS", (0, 2)), ("HuZhang", "T", (1, 2)),
                           ("BernardiRaugel", "TS", ()), ("GuzmanNeilanH1div", "TS", (1, 4))):
        for c in cells:
            for d in degs:
                build(k, c, d)
    for k in ("Argyris", "Bell", "Morley", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "ArnoldWinther", "ArnoldWintherNC", "MardalTaiWinther",
              "QuadraticPowellSabin6", "QuadraticPowellSabin12", "HuZhang", "ArnoldQin", "ReducedArnoldQin", "JohnsonMercier", "Hermite"):
        for c in ("I", "S", "Q", "H"):
            build(k, c)
            if k in ("HuZhang", "Argyris", "HsiehCloughTocher"):
                build(k, c, 5)
    build("Argyris", "T", 6, variant="point")
    build("Argyris", "T", 7, variant="point")
    build("HuZhang", "T", 3, variant="nonsense")
    build("Argyris", "T", 5, variant="nonsense")
    build("Lagrange", "T", 2, variant="nonsense")
    build("RaviartThomas", "T", 2, variant="nonsense")
    for k in ("GaussLegendre", "GaussLobattoLegendre", "DiscontinuousLagrange"):
        build(k, "Q", 2)
        build(k, "TP:T,I", 2)
    for k in ("FDMLagrange", "FDMHermite", "FDMQuadrature", "FDMBrokenH1"):
        build(k, "T", 3)
    build("FDMHermite", "I", 2)
    build("FDMLagrange", "I", 0)
    # compositions
    I1, T2, RT, N, DG0 = ({"k": "Lagrange", "cell": "I", "args": [1]}, {"k": "Lagrange", "cell": "T", "args": [2]},
                          {"k": "RaviartThomas", "cell": "T", "args": [1]}, {"k": "Nedelec", "cell": "T", "args": [1]},
                          {"k": "DiscontinuousLagrange", "cell": "I", "args": [0]})
    B3 = {"k": "Bubble", "cell": "T", "args": [3]}
    V2 = {"k": "Tens", "e": T2, "shape": [2]}
    VI = {"k": "Tens", "e": I1, "shape": [2]}
    for s in ({"k": "TPE", "f": [RT, {"k": "RaviartThomas", "cell": "I", "args": [1]}, RT]}, {"k": "TPE", "f": [RT, RT]},
              {"k": "TPE", "f": [V2, VI]}, {"k": "TPE", "f": [N, VI]}, {"k": "TPE", "f": [RT, VI, I1]},
              {"k": "Flat", "e": T2}, {"k": "Flat", "e": I1}, {"k": "Flat", "e": {"k": "TPE", "f": [I1, I1, I1, I1]}},
              {"k": "HDiv", "e": T2}, {"k": "HDiv", "e": {"k": "TPE", "f": [I1, I1]}}, {"k": "HCurl", "e": {"k": "TPE", "f": [I1, I1]}},
              {"k": "HCurl", "e": {"k": "TPE", "f": [DG0, DG0]}}, {"k": "HDiv", "e": {"k": "TPE", "f": [DG0, DG0]}},
              {"k": "HDiv", "e": {"k": "TPE", "f": [T2, I1]}}, {"k": "HCurl", "e": {"k": "TPE", "f": [RT, DG0]}},
              {"k": "HDiv", "e": {"k": "Flat", "e": {"k": "TPE", "f": [DG0, I1]}}}, {"k": "HCurl", "e": RT},
              {"k": "HDiv", "e": {"k": "TPE", "f": [{"k": "Bubble", "cell": "I", "args": [2]}, {"k": "Real", "cell": "I", "args": [0]}]}},
              {"k": "Enr", "f": [T2, RT]}, {"k": "Enr", "f": [T2, I1]}, {"k": "Enr", "f": []}, {"k": "Mix", "f": []}, {"k": "TPE", "f": []},
              {"k": "Enr", "f": [RT, V2]}, {"k": "Nodal", "f": [T2, I1]}, {"k": "Nodal", "f": [T2, T2]}, {"k": "Mix", "f": [T2, I1]},
              {"k": "Tens", "e": RT, "shape": [-1]}, {"k": "Enr", "f": [T2, {"k": "Lagrange", "cell": "S", "args": [1]}]}):
        add("build", spec=s)
    L3 = {"k": "Lagrange", "cell": "S", "args": [1]}
    for fs in ([T2, RT], [T2, I1], [I1, T2], [T2, L3], [RT, N, T2], [V2, T2], [B3, N], [I1, L3]):
        for k in ("Enr",):
            add("use", spec={"k": k, "f": fs}, ps={"k": "pts", "cell": T.cell_of(fs[0]), "n": 2, "seed": 4})
    add("use", spec={"k": "Mix", "f": [T2, I1]}, ps={"k": "pts", "cell": "T", "n": 2, "seed": 4})
    add("use", spec={"k": "Mix", "f": [I1, T2]}, ps={"k": "pts", "cell": "I", "n": 2, "seed": 4})
    for e in (T2, RT, I1, {"k": "DiscontinuousLagrange", "cell": "T", "args": [1]}, {"k": "DiscontinuousLagrange", "cell": "T", "args": [0]},
              {"k": "Bubble", "cell": "T", "args": [3]}, {"k": "Lagrange", "cell": "T", "args": [1]}, {"k": "Lagrange", "cell": "S", "args": [2]},
              {"k": "Hermite", "cell": "T"}, {"k": "Morley", "cell": "T"}, {"k": "Argyris", "cell": "T", "args": [5]},
              {"k": "Bell", "cell": "T"}, {"k": "MardalTaiWinther", "cell": "T"}, {"k": "HsiehCloughTocher", "cell": "T", "args": [3]},
              {"k": "QEmake", "cell": "T", "deg": 2}, {"k": "DS", "degree": 2},
              {"k": "Enr", "f": [T2, B3]}, {"k": "TPE", "f": [I1, I1]}, {"k": "Mix", "f": [T2, RT]}, V2,
              {"k": "Disc", "e": T2}, {"k": "HDiv", "e": {"k": "TPE", "f": [DG0, I1]}}):
        for d in ("nonsense", "interior", "facet", "vertex", "edge", "face", None):
            add("restrict", e=e, domain=d)
    # using elements
    for s in gen.LEAVES + gen.ZANY + gen.DS + gen.COMP + gen.ZCOMP:
        c = T.cell_of(s)
        sd = gen.cell_dim(c)
        r = gen.CAPS[key(s)]
        if r.get("cost", 0) > 0.5:
            continue
        if '"QEmake"' in key(s):
            qe = True
        else:
            qe = False
        P = {"k": "pts", "cell": c, "n": 2, "seed": 11}
        if T.needs_geom(s):
            add("tab", e=s, ps=P, order=0)
            add("tab", e=s, ps=P, order=1)
            add("pteval", e=s, order=0, xshape=[sd])
        add("dualbasis", e=s)
        for what in ("permutations", "degree", "closure", "support", "fiat", "entity_dofs"):
            if what not in r["can"]:
                add("attr", e=s, what=what)
        if not qe:
            wrong = {1: "T", 2: "S", 3: "T"}[sd]
            add("tab", e=s, ps={"k": "pts", "cell": wrong, "n": 2, "seed": 3}, order=0)
            if c.startswith("TP:"):
                d = len(c.split(","))
                add("tab", e=s, ps=P, order=0, entity=[[0] * (d - 1), 0])
                add("tab", e=s, ps=P, order=0, entity=[[9] * d, 0])
                add("tab", e=s, ps=P, order=0, entity=[1, 0])
                add("tab", e=s, ps={"k": "tps", "f": [{"k": "gl", "n": 2}] * (d + 1)}, order=0)
                add("tab", e=s, ps={"k": "tps", "f": [{"k": "gl", "n": 2}]}, order=0)
                top = [gen.cell_dim(x) for x in gen.split_tp(c)]
                add("tab", e=s, ps={"k": "gl", "n": 2}, order=0, entity=[[0] * (d - 1) + [1], 99])
                add("tab", e=s, ps={"k": "gl", "n": 2}, order=0, entity=[[1] + [0] * (d - 1), 99] if top[0] == 1 else [[2] + [0] * (d - 1), 99])
            else:
                for ent in ([sd - 1, 99], [sd - 1, -1], [sd + 1, 0], [-1, 0], [0, 50]):
                    sub = {"k": "pts", "cell": {1: "I", 2: "I", 3: "T"}[sd], "n": 2, "seed": 5}
                    add("tab", e=s, ps=sub, order=0, entity=ent)
            if "pteval" in r["can"]:
                add("pteval", e=s, order=0, xshape=[sd + 1])
                add("pteval", e=s, order=0, xshape=[])
                add("pteval", e=s, order=0, xshape=[1, sd])
            if "dual" in r["can"]:
                vs = gen.value_shape(s)
                add("dualbad", e=s, shape=[7])
                add("dualbad", e=s, shape=[x + 5 for x in vs] + ([5] if not vs else []))
            if '"HDivTrace"' in key(s):
                add("tab", e=s, ps=P, order=0)
                for f in range(3):
                    add("tab", e=s, ps={"k": "pts", "cell": c, "n": 2, "seed": 5, "entity": [sd - 1, f]}, order=1, entity=[sd - 1, f])
                add("tab", e=s, ps=P, order=1)
    # rules and points
    for by in (-1, 1, 5):
        for p in ({"k": "pts", "cell": "T", "n": 3, "seed": 4}, {"k": "gl", "n": 3}, {"k": "tps", "f": [{"k": "gl", "n": 2}, {"k": "gl", "n": 2}]}):
            add("weights", ps=p, by=by)
    for wname in ("extrinsic_orientation_permutation_map", "intrinsic_orientation_permutation_map_tuple"):
        add("ornt", what=wname)
    for k in ("single2d", "set1d", "gl2d", "gll2d", "unknown-literal", "unknown-vector"):
        add("points", kind=k)
    R = {"k": "rule", "cell": "T", "deg": 2}
    RI = {"k": "rule", "cell": "I", "deg": 2}
    for c, r in (("T", "not a rule"), ("T", 3), ("S", R), ("I", R), ("T", RI), ("Q", RI), ("H", R), ("TP:T,I", R), ("T", None)):
        add("qe", cell=c, rule=r)
    for c, r, other in (("T", R, {"k": "rule", "cell": "T", "deg": 3}), ("I", RI, {"k": "rule", "cell": "I", "deg": 5}),
                        ("Q", {"k": "rule", "cell": "Q", "deg": 2}, {"k": "rule", "cell": "Q", "deg": 4})):
        own = {"k": "ruleps", "rule": r}
        add("qetab", cell=c, rule=r, ps={"k": "ruleps", "rule": other}, order=0)
        add("qetab", cell=c, rule=r, ps={"k": "pts", "cell": c, "n": 3, "seed": 1}, order=0)
        add("qetab", cell=c, rule=r, ps={"k": "pts", "cell": c, "n": 1, "seed": 1}, order=0)
        add("qetab", cell=c, rule=r, ps=own, order=1)
        add("qetab", cell=c, rule=r, ps=own, order=2)
        add("qetab", cell=c, rule=r, ps=own, order=0, entity=[gen.cell_dim(c) - 1, 0])
        add("qetab", cell=c, rule=r, ps=own, order=0, entity=[0, 0])
        add("qecall", cell=c, rule=r, what="degree")
        add("qecall", cell=c, rule=r, what="pteval")
    add("qerun")
    for wname in ("pteval", "entity_dofs", "dual_basis", "entity_permutations"):
        add("runtime", what=wname)
    for c, d, kw in (("T", 2, {"variant": "v"}), ("Q", 2, {"variant": "v"}), ("I", 2, {"variant": 3}), ("I", 2, {"variant": "v", "shift_axes": -1}),
                     ("I", 2, {"variant": "v", "shift_axes": 1.5}), ("I", 2, {"variant": "v", "restriction": "x"}),
                     ("I", 2, {"variant": "v", "continuous": 1}), ("I", 2, {"variant": None}), ("I", 2, {"variant": "v", "restriction": "++"})):
        add("runtimebad", cell=c, degree=d, kw=kw)
    # symbolic
    FE = lambda *a, **kw: {"t": "FE", "a": list(a), **({"kw": kw} if kw else {})}   # noqa: E731
    P1, P2, R1 = FE("CG", "triangle", 1), FE("CG", "triangle", 2), FE("RT", "triangle", 1)
    I_ = FE("CG", "interval", 1)
    for s in (FE("Nonsense", "triangle", 1), FE("CG", "triangle", 0), FE("RT", "triangle", 0), FE("HER", "triangle", 4), FE("MOR", "triangle", 3),
              FE("BELL", "triangle", 4), FE("ARG", "triangle", 4), FE("RT", "quadrilateral", 1), FE("RTCF", "triangle", 1), FE("NCE", "quadrilateral", 1),
              FE("CG", "triangle", 2, variant=3), FE("Real", "triangle", 1), FE("CR", "triangle", 2), FE("GL", "triangle", 1), FE("S", "triangle", 2),
              FE("AWnc", "tetrahedron", 2), FE("MTW", "triangle", 2), FE("HDiv Trace", "triangle", -1), FE("Radau", "triangle", 1),
              FE("CG", "nonsense", 1), FE("Q", "triangle", 2), FE("BDMCE", "hexahedron", 1), FE("AAE", "quadrilateral", 1), FE("CG", "triangle", -3),
              FE("RTCF", ["interval", "triangle"], 1), FE("NCF", ["interval", "interval"], 1), FE("RTCE", ["triangle", "interval"], 1),
              {"t": "TP", "f": []}, {"t": "TP", "f": [R1, FE("RT", "interval", 1)]}, {"t": "TP", "f": [R1, R1]}, {"t": "TP", "f": [I_, I_], "kw": {"foo": 1}},
              {"t": "Enr", "f": [P1, I_]}, {"t": "Enr", "f": [P1, R1]}, {"t": "Mix", "f": [P1, I_]}, {"t": "Mix", "f": [P1, P2], "kw": {"foo": 3}},
              {"t": "Enr", "f": [FE("Quadrature", "triangle", 2, quad_scheme="a"), FE("Quadrature", "triangle", 2, quad_scheme="b")]},
              {"t": "Restr", "e": P1, "d": "nonsense"}, {"t": "Restr", "e": P1, "d": None}, {"t": "Restr", "e": P1, "d": 3},
              {"t": "Ten", "e": P1, "kw": {"symmetry": 3}}, {"t": "Ten", "e": P1, "kw": {"shape": [2, 3], "symmetry": True}},
              {"t": "Ten", "e": P1, "kw": {"shape": [2, 2], "symmetry": {"dict": [[[0, 5], [1, 0]]]}}},
              {"t": "Ten", "e": P1, "kw": {"shape": [2, 2], "symmetry": {"dict": [[[0, 1], [1]]]}}}, {"t": "HDiv", "e": {"t": "TP", "f": [I_, I_, I_]}},
              {"t": "Vec", "a": ["Nonsense", "triangle", 1]}, {"t": "Ten", "a": ["CG", "triangle", 0]}):
        add("sym", s=s)
    for s in (P1, R1, {"t": "Vec", "e": P1}, {"t": "Mix", "f": [P2, R1]}, {"t": "TP", "f": [I_, I_]}, {"t": "Enr", "f": [P1, FE("Bubble", "triangle", 3)]},
              {"t": "Ten", "e": P1}, {"t": "Broken", "e": P1}, {"t": "HDiv", "e": {"t": "TP", "f": [I_, FE("DG", "interval", 0)]}}):
        add("symask", s=s, what="item", arg="nonsense")
        add("symask", s=s, what="item", arg=3)
        add("symask", s=s, what="iter")
        add("symask", s=s, what="add")
        add("symask", s=s, what="mul")
        add("symask", s=s, what="restrict", arg="nonsense")
        for a in ([7], [0, 9], [-3]):
            add("symask", s=s, what="extract", arg=a)
            add("symask", s=s, what="extract_ref", arg=a)
    add("symask", s={"t": "WithMapping", "e": P1, "m": "nonsense"}, what="pullback")
    add("symask", s=FE("ARG", "triangle", 5), what="pullback")
    add("symask", s=FE("HER", "triangle", 3), what="pullback")
    add("symask", s=FE("Sdirect", "quadrilateral", 2), what="pullback")
    add("restrictsym")
    for what in sorted(CALLS):
        add("call", what=what)
    return out
