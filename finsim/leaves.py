"""The leaf elements the simulator draws from (specs only)."""


def all_leaves():
    out = []

    def add(name, cells, degs, **kw):
        for c in cells:
            for d in degs:
                s = {"k": name, "cell": c, "args": [d]}
                if kw:
                    s["kw"] = kw
                out.append(s)
    R = range
    add("Lagrange", "I", R(1, 6)); add("Lagrange", "TS", R(1, 5))
    for v in ("spectral", "equispaced", "chebyshev", "spectral,alfeld", "alfeld", "iso(2)"):
        add("Lagrange", "ITS" if "alfeld" not in v else "IT", (1, 2, 3), variant=v)
    for n in ("DiscontinuousLagrange", "GaussLegendre", "Legendre", "DiscontinuousTaylor"):
        add(n, "I", R(0, 6)); add(n, "TS", R(0, 4))
    for v in ("spectral", "equispaced", "alfeld", "iso(2)", "chebyshev"):
        add("DiscontinuousLagrange", "IT" if v == "alfeld" else "ITS", (0, 1, 2), variant=v)
    add("Real", "ITS", (0,))
    for n in ("Bernstein", "IntegratedLegendre"):
        add(n, "I", R(1, 6)); add(n, "TS", R(1, 5))
    for v in ("integral",):
        add("IntegratedLegendre", "ITS", (1, 2, 3), variant=v)
        add("Legendre", "ITS", (0, 1, 2), variant=v)
    add("GaussLobattoLegendre", "I", R(1, 6)); add("GaussLobattoLegendre", "TS", R(1, 5))
    add("Bubble", "I", (2, 3, 4)); add("Bubble", "T", (3, 4, 5)); add("Bubble", "S", (4, 5))
    add("FacetBubble", "I", (1, 2)); add("FacetBubble", "T", (2, 3)); add("FacetBubble", "S", (3, 4))
    add("CrouzeixRaviart", "I", (1,)); add("CrouzeixRaviart", "T", (1, 3, 5)); add("CrouzeixRaviart", "S", (1,))
    add("KongMulderVeldhuizen", "T", R(1, 6)); add("KongMulderVeldhuizen", "S", (1, 2, 3))
    for n in ("FDMLagrange", "FDMQuadrature", "FDMBrokenH1"):
        add(n, "I", R(1, 6))
    for n in ("FDMDiscontinuousLagrange", "FDMBrokenL2"):
        add(n, "I", R(0, 5))
    add("FDMHermite", "I", (3, 4))
    add("Serendipity", "Q", R(1, 6)); add("Serendipity", "H", (1, 2, 3, 4)); add("Serendipity", "I", (1, 2, 3))
    add("DPC", "I", (0, 1, 2)); add("DPC", "QH", (0, 1, 2, 3))
    add("Regge", "ITS", (0, 1, 2)); add("Regge", "TS", (0, 1), variant="point"); add("Regge", "TS", (0, 1), variant="integral")
    add("HellanHerrmannJohnson", "TS", (0, 1, 2)); add("HellanHerrmannJohnson", "TS", (0, 1), variant="point")
    add("GopalakrishnanLedererSchoberlFirstKind", "TS", (1, 2))
    add("GopalakrishnanLedererSchoberlSecondKind", "TS", (0, 1, 2))
    for n in ("RaviartThomas",):
        add(n, "ITS", (1, 2, 3)); add(n, "TS", (1, 2), variant="point"); add(n, "TS", (1, 2), variant="integral(2)")
    add("BrezziDouglasMarini", "TS", (1, 2, 3)); add("BrezziDouglasMarini", "TS", (1, 2), variant="point")
    add("BrezziDouglasFortinMarini", "T", (2,))
    for n in ("Nedelec", "NedelecSecondKind"):
        add(n, "TS", (1, 2, 3)); add(n, "TS", (1, 2), variant="point")
    add("TrimmedSerendipityFace", "Q", (1, 2, 3)); add("TrimmedSerendipityDiv", "Q", (1, 2, 3))
    add("TrimmedSerendipityEdge", "Q", (1, 2, 3)); add("TrimmedSerendipityCurl", "Q", (1, 2, 3))
    add("TrimmedSerendipityDiv", "H", (1, 2)); add("TrimmedSerendipityEdge", "H", (1, 2))
    add("TrimmedSerendipityCurl", "H", (1, 2))
    for n in ("BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace"):
        add(n, "Q", (1, 2, 3))
    add("HDivTrace", "TS", (0, 1, 2))
    return out


def all_zany():
    out = []

    def z(name, cells, args=(), **kw):
        for c in cells:
            s = {"k": name, "cell": c}
            if args:
                s["args"] = list(args)
            if kw:
                s["kw"] = kw
            out.append(s)
    z("Morley", "T"); z("Bell", "T"); z("Bell", "T", (5,)); z("Hermite", "T"); z("Hermite", "I"); z("Hermite", "S")
    z("QuadraticPowellSabin6", "T"); z("QuadraticPowellSabin12", "T")
    z("QuadraticPowellSabin12", "T", avg=True)
    z("ReducedHsiehCloughTocher", "T")
    for d in (3, 4, 5):
        z("HsiehCloughTocher", "T", (d,)); z("HsiehCloughTocher", "T", (d,), avg=True)
    for d in (5, 6, 7):
        z("Argyris", "T", (d,)); z("Argyris", "T", (d,), avg=True)
    z("Argyris", "T", (5,), variant="point")
    z("ArnoldWinther", "T", (3,)); z("ArnoldWinther", "T"); z("ArnoldWintherNC", "T"); z("ArnoldWintherNC", "T", (2,))
    for d in (3, 4, 5):
        z("HuZhang", "T", (d,)); z("HuZhang", "T", (d,), variant="point"); z("HuZhang", "T", (d,), variant="integral")
    z("MardalTaiWinther", "T", (3,)); z("MardalTaiWinther", "T")
    z("ReducedArnoldQin", "T"); z("ReducedArnoldQin", "T", (2,))
    z("JohnsonMercier", "TS", (1,))
    z("AlfeldSorokina", "TS", (2,)); z("ChristiansenHu", "TS", (1,))
    z("BernardiRaugel", "TS"); z("BernardiRaugelBubble", "TS")
    z("BernardiRaugel", "TS", order=1)
    z("GuzmanNeilanFirstKindH1", "TS", order=1); z("GuzmanNeilanSecondKindH1", "TS", order=1)
    z("GuzmanNeilanFirstKindH1", "T", order=0)
    z("GuzmanNeilanBubble", "TS"); z("GuzmanNeilanH1div", "TS")
    return out
