"""Developer tool: tries every leaf on the tree it is pointed at and records
which requests it supports; prints every disagreement with the reference."""
import sys, json, time, warnings, os
sys.path.insert(0, "/verif")
from multiprocessing import Pool
import numpy as np
from finsim import boot; boot.setup()
from finsim import ref, ops, leaves, templates, world as W
from finsim.detrng import Rng


def rand_verts(cell, rng):
    c = ref.ref_cell(cell)
    V = np.array(c.vertices, dtype=float)
    while True:
        P = V + 0.3 * (np.array([[rng.random() for _ in r] for r in V]) - 0.5)
        if cell == "Q": return P.tolist()
        A = P[1:] - P[0]
        if abs(np.linalg.det(A)) > 0.3: return P.tolist()


def geometry_for(spec, salt=""):
    gc = templates.needs_geom(spec)
    if not gc:
        return None
    n = len(ref.ref_cell(gc).vertices)
    return {"cell": gc, "verts": rand_verts(gc, Rng("g", gc, salt)), "h": [0.7 + 0.1 * i for i in range(n)], "mode": "lit"}


def probe(spec):
    caps = {}; notes = []
    k = spec["k"]
    cellname = templates.cell_of(spec)
    try:
        r = ref.build_ref(spec, {})
        rf = None
    except Exception as ex:
        r, rf = None, repr(ex)
    w = W.World([["e", spec]])
    t0 = time.time()
    try:
        w.build_all()
    except Exception as ex:
        return spec, None, ["build: %r ref: %s" % (ex, rf)]
    caps["cost"] = round(time.time() - t0, 4)
    if r is None:
        return spec, None, ["ref missing: %s" % rf]
    E = {"ref": "e"}
    ctx = ops.Ctx(w, 0)
    geom = geometry_for(spec)
    tabs = {}
    sd = r.sd
    for ent in [None] + [(d, e) for d in r.cell.get_topology() for e in r.cell.get_topology()[d]]:
        if ent is not None and ent[0] == r.cell.get_dimension(): continue
        if k.startswith("QE") or '"QEmake"' in json.dumps(spec): continue
        ps = {"k": "pts", "cell": cellname, "n": 3, "seed": 5, "entity": ent}
        for order in (0, 1, 2):
            op = {"op": "tab", "e": E, "order": order, "ps": ps, "entity": ent}
            if geom: op["geom"] = geom
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    want = ops.with_geom(geom, lambda: r.tab(order, w.points(ps), ent))
                wok = None
            except Exception as ex:
                wok = repr(ex)[:150]
            w.specs["ps"] = ps; w.real["ps"] = w.build(ps)
            op["ps"] = {"ref": "ps"}
            try:
                o = ops.perform(w, op, ctx)
            except Exception as ex:
                if wok is None: notes.append("tab %s o%d real raises %r" % (ent, order, ex))
                continue
            if wok is not None:
                notes.append("tab %s o%d ref raises %s real fine" % (ent, order, wok)); continue
            try:
                ops.judge(w, op, o)
                tabs.setdefault(order, set()).add(json.dumps(ent))
            except Exception as ex:
                notes.append("tab %s o%d judge: %r" % (ent, order, ex))
    caps["tab"] = {str(o): sorted(v) for o, v in tabs.items()}
    for nm, op in [("dual", {"op": "dual", "e": E, "fn": {"kind": "lit", "seed": 3, "dim": sd, "vshape": list(r.value_shape)}}),
                   ("dualbasis", {"op": "dualbasis", "e": E, "seed": 3}),
                   ("nodal", {"op": "dual", "e": E, "fn": {"kind": "basis", "src": E, "nodal": 1}}),
                   ("pteval", {"op": "pteval", "e": E, "order": 1, "d": sd, "seed": 3})] + \
                  [(q, {"op": "layout", "e": E, "what": [q], "strict": 1}) for q in ops.LAYOUT]:
        if geom and nm in ("dual", "dualbasis", "nodal", "pteval", "support", "supportfn", "permutations"):
            continue
        caps[nm] = False
        try:
            o = ops.perform(w, op, ctx)
        except Exception as ex:
            try:
                if nm in ops.LAYOUT and nm not in ("cell", "indices", "fiat"):
                    ops._want_layout(w, r, nm); notes.append("%s: real raises %r" % (nm, ex))
                elif nm == "dual": r.functionals(); notes.append("%s: real raises %r" % (nm, ex))
            except Exception: pass
            continue
        try:
            ops.judge(w, op, o); caps[nm] = True
        except Exception as ex:
            if nm != "nodal": notes.append("%s: judge %r" % (nm, ex))
    return spec, caps, notes


if __name__ == "__main__":
    L = {"leaves": leaves.all_leaves() + leaves.all_zany() + [{"k": "DS", "degree": d} for d in (1, 2, 3)],
         "comp": templates.all_composites() + templates.zany_composites()}[sys.argv[2]]
    with Pool(8) as p:
        res = list(p.imap(probe, L, chunksize=1))
    out = []
    for s, c, n in res:
        for x in n: print(json.dumps(s), x)
        if c: out.append({"spec": s, "caps": c})
    json.dump(out, open(sys.argv[1], "w"), indent=None)
    print(len(out), "of", len(L))
