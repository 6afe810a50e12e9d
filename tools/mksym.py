"""Writes finsim/symcat.json: buildable specs of symbolic elements and which of them are the same element.

Run on a tree taken as right; the classes are committed and then expected.
"""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from finsim import boot   # noqa: E402
boot.setup()
from finsim import sym    # noqa: E402
from finat.ufl.elementlist import ufl_elements, aliases   # noqa: E402

CELLS = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "vertex", "pentatope", "prism", None]
TP = [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"]]


def F(fam, cell, deg, **kw):
    a = ["FE", fam, cell, deg]
    s = {"t": "FE", "a": [fam, cell, deg]}
    if kw:
        s["kw"] = kw
    return s


pool = []
names = sorted(set(ufl_elements) | set(aliases))
for n in names:
    for c in CELLS:
        for d in (None, 0, 1, 2, 3, 4, 5, 11):
            pool.append(F(n, c, d))
            if n in aliases or n in ("P", "Q"):
                for k in (0, 1, 2, 3):
                    pool.append(F(n, c, d, form_degree=k))
for n in ("CG", "DG", "Q", "DQ", "RT", "N1curl", "BDM", "Quadrature", "Boundary Quadrature", "Real", "DG L2", "DQ L2", "RTCF", "RTCE", "Regge", "KMV", "BELL"):
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        for d in (1, 2, 5):
            for v in ("equispaced", "spectral", "integral", "integral(2)", "point", "alfeld", "iso(2)", "demkowicz"):
                pool.append(F(n, c, d, variant=v))
            for q in ("default", "canonical", "KMV", "a'b"):
                pool.append(F(n, c, d, quad_scheme=q))
            pool.append(F(n, c, d, quad_scheme="default", variant="spectral"))
for n in ("CG", "DG", "Q", "DQ", "RTCF", "RTCE", "NCF", "NCE", "DG L2", "DQ L2", "Real"):
    for c in TP:
        for d in (0, 1, 2, 3):
            pool.append(F(n, c, d))
            pool.append(F(n, c, d, variant="spectral"))

B = {"CG1": F("CG", "triangle", 1), "CG2": F("CG", "triangle", 2), "CG11": F("CG", "triangle", 11), "CG3": F("CG", "triangle", 3), "DG0": F("DG", "triangle", 0),
     "DG1": F("DG", "triangle", 1), "DG2": F("DG", "triangle", 2),
     "RT1": F("RT", "triangle", 1), "RT2": F("RT", "triangle", 2), "N1": F("N1curl", "triangle", 1), "BDM": F("BDM", "triangle", 2),
     "B3": F("Bubble", "triangle", 3), "CG1e": F("CG", "triangle", 1, variant="equispaced"), "CG1q": F("CG", "triangle", 1, quad_scheme="default"),
     "R": F("Real", "triangle", 0), "Reg": F("Regge", "triangle", 1), "HER": F("HER", "triangle", 3), "BELL": F("BELL", "triangle", 5),
     "CG2s": F("CG", "triangle", 2, variant="spectral"), "HHJ": F("HHJ", "triangle", 1), "QE": F("Quadrature", "triangle", 2, quad_scheme="default"),
     "Q2": F("Q", "quadrilateral", 2), "Q1": F("Q", "quadrilateral", 1), "DQ1": F("DQ", "quadrilateral", 1), "RTCF": F("RTCF", "quadrilateral", 1),
     "CGt": F("CG", "tetrahedron", 2), "NCE": F("NCE", "hexahedron", 1), "N1t": F("N1curl", "tetrahedron", 2)}
I = {"P1": F("CG", "interval", 1), "P2": F("CG", "interval", 2), "P2s": F("CG", "interval", 2, variant="spectral"), "D0": F("DG", "interval", 0),
     "D1": F("DG", "interval", 1), "D1e": F("DG", "interval", 1, variant="equispaced")}
V = lambda e, **k: {"t": "Vec", "e": e, "kw": k}       # noqa: E731
T = lambda e, **k: {"t": "Ten", "e": e, "kw": k}       # noqa: E731
M = lambda *f: {"t": "Mix", "f": list(f)}              # noqa: E731
E = lambda *f: {"t": "Enr", "f": list(f)}              # noqa: E731
N = lambda *f: {"t": "Nodal", "f": list(f)}            # noqa: E731
P = lambda *f, **k: {"t": "TP", "f": list(f), "kw": k}       # noqa: E731
comp = []
D = lambda *p: {"dict": [[list(a), list(b)] for a, b in p]}   # noqa: E731
for k, b in B.items():
    for d in (None, 1, 2, 3, 12):
        comp.append(V(b, **({} if d is None else {"dim": d})))
    for sh in ([2, 2], [2, 3], [3, 2], [3], [2, 2, 2]):
        comp.append(T(b, shape=sh))
    comp += [T(b), T(b, symmetry=True), T(b, shape=[2, 2], symmetry=True), T(b, shape=[3, 3], symmetry=True),
             T(b, shape=[2, 2], symmetry=D(((0, 1), (1, 0)))), T(b, shape=[2, 2], symmetry=D(((1, 0), (0, 1)))),
             T(b, shape=[3, 3], symmetry=D(((1, 0), (0, 1)), ((2, 0), (0, 2)))), T(b, shape=[2, 2], symmetry=D(((1, 1), (0, 0))))]
    comp += [{"t": "Broken", "e": b}, {"t": "Broken", "e": V(b)}, {"t": "HDiv", "e": b}, {"t": "HCurl", "e": b}]
    comp += [{"t": "Restr", "e": b, "d": d} for d in ("interior", "facet", "face", "edge", "vertex", "reduced")]
    comp += [{"t": "WithMapping", "e": b, "m": m} for m in ("identity", "covariant Piola", "contravariant Piola", "L2 Piola", "double covariant Piola",
                                                          "physical", "custom")]
    comp += [{"t": "WithMapping", "e": V(b), "m": "identity"}, V({"t": "WithMapping", "e": b, "m": "identity"}), V(V(b)), V({"t": "Broken", "e": b}),
             {"t": "Restr", "e": {"t": "Broken", "e": b}, "d": "facet"}, {"t": "Broken", "e": {"t": "Restr", "e": b, "d": "facet"}},
             {"t": "Restr", "e": {"t": "Restr", "e": b, "d": "facet"}, "d": "vertex"}, {"t": "Broken", "e": {"t": "Broken", "e": b}}]
keys = list(B)
for i, a in enumerate(keys):
    for b in keys[i + 1:i + 5]:
        comp += [M(B[a], B[b]), M(B[b], B[a]), M(M(B[a]), B[b]), M(M(B[a], B[b])), M(B[a], M(B[b])), E(B[a], B[b]), E(B[b], B[a]), N(B[a], B[b]), M(V(B[a]), B[b]),
                 V(E(B[a], B[b])), E(V(B[a]), V(B[b])), M(V(B[a]), T(B[b], symmetry=True))]
comp += [M(B["CG1"]), M(B["CG1"], B["CG1"]), M(B["CG1"], B["CG1"], B["CG1"]), M(M(B["CG1"], B["CG1"]), B["CG1"]), M(B["CG1"], M(B["CG1"], B["CG1"]))]
ik = list(I)
for a in ik:
    for b in ik:
        comp += [P(I[a], I[b]), P(I[a], I[b], cell="quadrilateral"), {"t": "HDiv", "e": P(I[a], I[b])}, {"t": "HCurl", "e": P(I[a], I[b])},
                 P(B["CG1"], I[b]), P(B[a] if a in B else B["RT1"], I[b]), P(B["Q2"], I[b]), P(P(I[a], I[b]), I["P1"]), P(I["P1"], P(I[a], I[b])),
                 P(I["P1"], I[a], I[b]), V(P(I[a], I[b])), {"t": "Broken", "e": P(I[a], I[b])}, {"t": "Restr", "e": P(I[a], I[b]), "d": "interior"},
                 E({"t": "HDiv", "e": P(I[a], I[b])}, {"t": "HDiv", "e": P(I[b], I[a])}), {"t": "WithMapping", "e": P(I[a], I[b]), "m": "L2 Piola"},
                 E(P(I[a], I[b]), P(I[b], I[a])), M(P(I[a], I[b]), P(I[b], I[a])), {"t": "HDiv", "e": P(I[a], I[b], cell="quadrilateral")}]
out = []
seen = set()
classes = {}
for s in pool + comp:
    k = json.dumps(s, sort_keys=True)
    if k in seen:
        continue
    seen.add(k)
    try:
        e = sym.build(s)
    except Exception:
        continue
    p = json.dumps(sym.props(e, False), sort_keys=True, default=repr) + type(e).__name__
    c = classes.setdefault(hashlib.sha1(p.encode()).hexdigest()[:10], [])
    c.append(s)
    out.append(s)
ids = {k: n for n, k in enumerate(classes)}
groups = [v for v in classes.values()]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "finsim", "symcat.json")
with open(path, "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(g) for g in groups) + "\n]\n")
print(len(out), "specs", len(groups), "classes", sum(len(g) > 1 for g in groups), "with several; largest", max(map(len, groups)))
