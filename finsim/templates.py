"""Composite elements the simulator draws from (specs only)."""
from .ref import ZANY


def L(k, cell, *args, **kw):
    s = {"k": k, "cell": cell}
    if args:
        s["args"] = list(args)
    if kw:
        s["kw"] = kw
    return s


def P(n, c="I"):
    return L("Lagrange", c, n)


def DG(n, c="I"):
    return L("DiscontinuousLagrange", c, n)


def GL(n, c="I"):
    return L("GaussLegendre", c, n)


def GLL(n, c="I"):
    return L("GaussLobattoLegendre", c, n)


def TPE(*f):
    return {"k": "TPE", "f": list(f)}


def Flat(e):
    return {"k": "Flat", "e": e}


def Enr(*f):
    return {"k": "Enr", "f": list(f)}


def Mix(*f):
    return {"k": "Mix", "f": list(f)}


def Tens(e, *shape, t=False):
    s = {"k": "Tens", "e": e, "shape": list(shape)}
    if t:
        s["transpose"] = True
    return s


def HDiv(e):
    return {"k": "HDiv", "e": e}


def HCurl(e):
    return {"k": "HCurl", "e": e}


def Disc(e):
    return {"k": "Disc", "e": e}


def Nodal(*f):
    return {"k": "Nodal", "f": list(f)}


def Restr(e, d):
    return {"k": "Restr", "e": e, "domain": d}


def rtcf(n):
    return Enr(HDiv(TPE(P(n), DG(n - 1))), HDiv(TPE(DG(n - 1), P(n))))


def rtce(n):
    return Enr(HCurl(TPE(DG(n - 1), P(n))), HCurl(TPE(P(n), DG(n - 1))))


def all_composites():
    out = []
    a = out.append
    # products of intervals
    for x, y in [(P(1), P(1)), (P(2), P(2)), (P(1), P(2)), (P(3), DG(1)), (DG(0), P(1)), (GLL(2), GLL(2)), (GL(1), GL(1)),
                 (GLL(3), GL(2)), (L("Hermite", "I") if False else P(4), P(4)), (L("Bernstein", "I", 2), P(2)),
                 (L("FDMLagrange", "I", 3), L("FDMLagrange", "I", 3)), (L("IntegratedLegendre", "I", 2), L("Legendre", "I", 1)),
                 (L("Bubble", "I", 2), P(1)), (L("DiscontinuousTaylor", "I", 1), DG(1)), (DG(2), DG(2)),
                 (L("Real", "I", 0), P(1))]:
        a(TPE(x, y))
        a(Flat(TPE(x, y)))
    for x in [P(1), P(2), DG(1), GLL(2), GL(1), DG(0)]:
        a(TPE(x, x, x))
        a(Flat(TPE(x, x, x)))
        a(TPE(TPE(x, x), x))
        a(Flat(TPE(TPE(x, x), x)))
        a(TPE(Flat(TPE(x, x)), x))
        a(Flat(TPE(Flat(TPE(x, x)), x)))
    a(TPE(P(1), DG(1), P(2)))
    a(Flat(TPE(P(2), DG(0), P(1))))
    # prisms
    for x in (P(1, "T"), P(2, "T"), DG(0, "T"), DG(1, "T"), L("RaviartThomas", "T", 1), L("RaviartThomas", "T", 2),
              L("BrezziDouglasMarini", "T", 1), L("Nedelec", "T", 1), L("NedelecSecondKind", "T", 1), L("Bubble", "T", 3),
              L("CrouzeixRaviart", "T", 1), L("Regge", "T", 1)):
        for y in (P(1), DG(0), P(2)):
            a(TPE(x, y))
    a(TPE(P(1), P(1, "T")))
    a(TPE(L("Serendipity", "Q", 2), P(1)))
    a(TPE(L("DPC", "Q", 1), DG(1)))
    # facet oriented
    for n in (1, 2, 3):
        a(HDiv(TPE(P(n), DG(n - 1))))
        a(HDiv(TPE(DG(n - 1), P(n))))
        a(HCurl(TPE(DG(n - 1), P(n))))
        a(HCurl(TPE(P(n), DG(n - 1))))
        a(rtcf(n))
        a(rtce(n))
        a(Flat(rtcf(n)))
        a(Flat(rtce(n)))
    a(HDiv(TPE(GLL(2), GL(1))))
    a(HCurl(TPE(GL(1), GLL(2))))
    for n in (1, 2):
        a(HDiv(TPE(L("RaviartThomas", "T", n), DG(n - 1))))
        a(HDiv(TPE(L("BrezziDouglasMarini", "T", n), DG(n - 1))))
        a(HDiv(TPE(L("Nedelec", "T", n), DG(n - 1))))
        a(HDiv(TPE(DG(n - 1, "T"), P(n))))
        a(HCurl(TPE(L("Nedelec", "T", n), P(n))))
        a(HCurl(TPE(L("RaviartThomas", "T", n), P(n))))
        a(HCurl(TPE(P(n, "T"), DG(n - 1))))
        a(Enr(HDiv(TPE(L("RaviartThomas", "T", n), DG(n - 1))), HDiv(TPE(DG(n - 1, "T"), P(n)))))
        a(Enr(HCurl(TPE(L("Nedelec", "T", n), P(n))), HCurl(TPE(P(n, "T"), DG(n - 1)))))
        dq, q = TPE(DG(n - 1), DG(n - 1)), TPE(P(n), P(n))
        ncf = Enr(HDiv(TPE(Flat(rtcf(n)), DG(n - 1))), HDiv(TPE(Flat(dq), P(n))))
        nce = Enr(HCurl(TPE(Flat(rtce(n)), P(n))), HCurl(TPE(Flat(q), DG(n - 1))))
        a(ncf)
        a(nce)
        a(Flat(ncf))
        a(Flat(nce))
    # enriched
    a(Enr(P(1, "T"), L("Bubble", "T", 3)))
    a(Enr(P(2, "T"), L("FacetBubble", "T", 3), L("Bubble", "T", 3)))
    a(Enr(P(1, "S"), L("Bubble", "S", 4)))
    a(Enr(P(1), L("Bubble", "I", 2)))
    a(Enr(P(1, "T"), DG(0, "T")))
    a(Enr(L("RaviartThomas", "T", 1), L("Nedelec", "T", 1)))
    a(Enr(TPE(P(1), P(1)), TPE(DG(0), DG(0))))
    a(Flat(Enr(TPE(P(1), P(1)), TPE(L("Bubble", "I", 2), L("Bubble", "I", 2)))))
    a(Enr(Flat(TPE(P(1), P(1))), Flat(TPE(DG(0), DG(0)))))
    a(Enr(P(1, "T"), P(1, "T")))
    a(TPE(Enr(P(1), L("Bubble", "I", 2)), P(1)))
    a(Enr(Tens(P(1, "T"), 2), Tens(L("Bubble", "T", 3), 2)))
    a(Tens(Enr(P(1, "T"), L("Bubble", "T", 3)), 2))
    # nodally enriched
    a(Nodal(P(1, "T"), L("Bubble", "T", 3)))
    a(Nodal(P(1), L("Bubble", "I", 2)))
    a(Nodal(P(1, "S"), L("Bubble", "S", 4)))
    a(Nodal(P(2, "T"), L("Bubble", "T", 3), DG(0, "T")) if False else Nodal(P(2, "T"), L("Bubble", "T", 3)))
    # mixed
    a(Mix(P(2, "T"), P(1, "T")))
    a(Mix(P(1), DG(0), P(2)))
    a(Mix(L("RaviartThomas", "T", 1), DG(0, "T")))
    a(Mix(Tens(P(2, "T"), 2), P(1, "T")))
    a(Mix(P(1, "T"), P(1, "T")))
    a(Mix(Mix(P(1, "T"), DG(0, "T")), P(2, "T")))
    a(Mix(L("BrezziDouglasMarini", "S", 1), DG(0, "S")))
    a(Mix(Flat(rtcf(1)), Flat(TPE(DG(0), DG(0)))))
    a(Mix(rtcf(1), TPE(DG(0), DG(0))))
    a(Mix(Enr(Tens(P(1, "T"), 2), Tens(L("Bubble", "T", 3), 2)), P(1, "T")))
    a(Mix(L("Regge", "T", 1), P(1, "T")))
    # vector and tensor
    for t in (False, True):
        for base in (P(1, "T"), P(2), DG(1, "S"), L("RaviartThomas", "T", 1), Flat(TPE(P(1), P(1))), TPE(P(1), DG(1)),
                     L("Serendipity", "Q", 2), P(3, "T"), L("Regge", "T", 0)):
            a(Tens(base, 2, t=t))
        a(Tens(P(1, "T"), 3, t=t))
        a(Tens(P(1, "T"), 2, 2, t=t))
        a(Tens(P(2, "S"), 2, 3, t=t))
        a(Tens(Tens(P(1, "T"), 2, t=t), 3))
        a(Tens(Tens(P(1, "T"), 2), 3, t=t))
        a(Tens(P(1), 2, 2, 2, t=t))
        a(Tens(P(1, "T"), 2, 3, 2, t=t))
        a(Tens(Tens(P(1), 2, 2), 2, 2, t=t))
        a(Tens(Flat(TPE(P(1), DG(1))), 2, 2, t=t))
        a(Tens(Flat(rtcf(1)), 2, t=t))
        a(Tens(L("HellanHerrmannJohnson", "T", 0), 2, t=t))
        a(Tens(TPE(P(1, "T"), P(1)), 2, t=t))
    # discontinuous
    for e in (P(1, "T"), P(3), L("RaviartThomas", "T", 2), Flat(TPE(P(2), P(2))), TPE(P(1), P(1)), L("Nedelec", "S", 1),
              Enr(P(1, "T"), L("Bubble", "T", 3)), Tens(P(1, "T"), 2), Flat(rtcf(1)), DG(1, "T"), L("CrouzeixRaviart", "T", 1)):
        a(Disc(e))
    a(Tens(Disc(P(1, "T")), 2))
    a(Disc(Disc(P(2, "T"))))
    a(TPE(Disc(P(1)), P(1)))
    # restricted
    for d in ("interior", "facet", "edge", "vertex"):
        a(Restr(P(3, "T"), d))
        a(Restr(P(3), "facet" if d == "edge" else d))
    a(Restr(P(4, "S"), "face"))
    a(Restr(L("RaviartThomas", "T", 2), "facet"))
    a(Restr(L("RaviartThomas", "T", 2), "interior"))
    a(Restr(L("Nedelec", "S", 2), "edge"))
    a(TPE(Restr(P(3), "interior"), P(1)))
    # restrictions of compositions
    q = Flat(TPE(P(3), P(2)))
    for d in ("interior", "facet", "edge", "vertex"):
        for e in (TPE(P(2), P(3)), TPE(P(2), P(2), P(2)), TPE(P(3, "T"), P(2)), TPE(P(2), P(3, "T")), q, Flat(TPE(P(2), P(2), P(3))),
                  Flat(TPE(Flat(TPE(P(2), P(3))), P(2))), TPE(q, P(2)),
                  Flat(TPE(L("GaussLobattoLegendre", "I", 3), L("GaussLobattoLegendre", "I", 3))), Flat(TPE(P(2), DG(1))),
                  HDiv(TPE(P(2), DG(1))), HDiv(TPE(DG(1), P(2))), HCurl(TPE(P(2), DG(1))), HCurl(TPE(P(1, "T"), DG(0))),
                  HDiv(TPE(L("RaviartThomas", "T", 1), DG(0))), Flat(rtcf(2)), rtcf(2), rtce(2), Flat(rtce(1)),
                  Tens(P(3, "T"), 2), Tens(P(2), 2, 2, t=True), Tens(q, 2, t=True), Tens(TPE(P(2), P(2)), 2),
                  Mix(P(3, "T"), P(2, "T")), Mix(L("RaviartThomas", "T", 2), DG(1, "T")), Mix(Tens(P(3, "T"), 2), P(2, "T"), DG(0, "T")),
                  Enr(P(2, "T"), L("Bubble", "T", 3)), Enr(P(3, "T"), L("FacetBubble", "T", 2)), Disc(P(2, "T")), Disc(TPE(P(2), P(2))),
                  Mix(q, Flat(TPE(DG(1), DG(1)))), L("Lagrange", "S", 3), L("HellanHerrmannJohnson", "T", 1), L("Regge", "T", 1),
                  L("HDivTrace", "T", 1), L("NedelecSecondKind", "T", 2), L("BrezziDouglasMarini", "S", 2),
                  DG(2, "T"), Restr(P(4, "T"), "facet"), Enr(Restr(P(3, "T"), "interior"), Restr(P(3, "T"), "vertex"))):
            a(Restr(e, d))
    for e in (TPE(P(2), P(2), P(2)), TPE(P(3, "T"), P(2)), Flat(TPE(P(2), P(2), P(3))), L("Nedelec", "S", 2), TPE(q, P(2))):
        a(Restr(e, "face"))
    for d in ("interior", "facet"):
        a(Tens(Restr(P(3, "T"), d), 2))
        a(Mix(Restr(P(3, "T"), d), P(1, "T")))
        a(Disc(Restr(P(3, "T"), d)))
        a(Restr(Restr(q, "facet") if d == "facet" else q, d))
        a(TPE(Restr(P(3), d), Restr(P(3), "interior")))
    a(Enr(Restr(q, "interior"), Restr(q, "facet")))
    # quadrature elements
    for c in "ITS":
        for d in (1, 2, 4):
            a({"k": "QEmake", "cell": c, "deg": d})
    a({"k": "QEmake", "cell": "Q", "deg": 2})
    a({"k": "QEmake", "cell": "TP:I,I", "deg": 3})
    a({"k": "QEmake", "cell": "TP:T,I", "deg": 2})
    a(Tens({"k": "QEmake", "cell": "T", "deg": 2}, 2))
    a(Tens({"k": "QEmake", "cell": "T", "deg": 2}, 2, 2, t=True))
    return dedupe(out)


def zany_composites():
    out = []
    a = out.append
    mor, her, bel, arg = L("Morley", "T"), L("Hermite", "T"), L("Bell", "T"), L("Argyris", "T", 5)
    aw, mtw = L("ArnoldWinther", "T"), L("MardalTaiWinther", "T")
    jm, br = L("JohnsonMercier", "T", 1), L("BernardiRaugel", "T")
    for e in (mor, her, bel, arg):
        for t in (False, True):
            a(Tens(e, 2, t=t))
        a(Mix(e, P(1, "T")))
        a(Mix(P(2, "T"), e))
    a(Mix(mor, her))
    a(Mix(aw, Tens(DG(1, "T"), 2)))
    a(Mix(mtw, DG(0, "T")))
    a(Mix(br, DG(0, "T")))
    a(Mix(jm, Tens(DG(1, "T"), 2)))
    a(Mix(mor, mor))
    a(Enr(mor, L("Bubble", "T", 3)))
    a(Enr(her, DG(0, "T")))
    a(Disc(mor))
    a(Disc(her))
    a(Disc(aw))
    a(Disc(Tens(mor, 2)))
    a(Tens(L("Hermite", "I"), 2))
    a(Mix(L("Hermite", "I"), P(1)))
    a(Tens(L("QuadraticPowellSabin6", "T"), 2))
    a(Mix(L("HsiehCloughTocher", "T", 3), L("ReducedHsiehCloughTocher", "T")))
    a(Tens(Tens(mor, 2), 2, t=True))
    a(Mix({"k": "DS", "degree": 2}, Flat(TPE(P(1), P(1)))))
    a(Tens({"k": "DS", "degree": 1}, 2))
    a(Tens({"k": "DS", "degree": 2}, 2, t=True))
    a(Disc({"k": "DS", "degree": 2}))
    a(Enr({"k": "DS", "degree": 1}, L("DPC", "Q", 0)))
    return dedupe(out)


def dedupe(specs):
    import json
    seen, out = set(), []
    for s in specs:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def leaves_of(s):
    if "f" in s:
        return sum((leaves_of(x) for x in s["f"]), [])
    if isinstance(s.get("e"), dict):
        return leaves_of(s["e"])
    return [s]


def needs_geom(s):
    for l in leaves_of(s):
        if l["k"] == "DS":
            return "Q"
        if l["k"] in ZANY:
            return l["cell"]
    return None


def cell_of(s):
    """Cell name of an element spec."""
    k = s["k"]
    if k == "TPE":
        cs = []
        for f in s["f"]:
            c = cell_of(f)
            cs.append("(%s)" % c if c.startswith("TP:") else c)
        return "TP:" + ",".join(cs)
    if k == "Flat":
        c = cell_of(s["e"])
        from .ref import cell_dim
        return "Q" if cell_dim(c) == 2 else "H"
    if "f" in s:
        return cell_of(s["f"][0])
    if isinstance(s.get("e"), dict):
        return cell_of(s["e"])
    if k == "DS":
        return "Q"
    return s["cell"]
