"""Developer tool: adds to catalogue.json what else each entry supports, tried
on the tree FINSIM_REPO points at: point evaluation by entity, third
derivatives, the cell named as an entity; and probes composites that
templates.py lists and the catalogue does not have.  Usage: augment.py OUT"""
import json
import os
import signal
import sys
import warnings
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import mkcatalog as M                                       # noqa: E402
from finsim import gen, ops, templates, world as W          # noqa: E402


def attempt(f, seconds):
    """In a child, so that what is cut short leaves nothing behind."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        signal.alarm(seconds)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f()
            os.write(w, b"ok")
        except BaseException as ex:
            os.write(w, repr(ex).encode()[:300])
        os._exit(0)
    os.close(w)
    got = b""
    while True:
        x = os.read(r, 1000)
        if not x:
            break
        got += x
    os.close(r)
    os.waitpid(pid, 0)
    return True if got == b"ok" else False if not got else got.decode()


def extra(item):
    spec, caps = item
    notes, got = [], {}
    w = W.World([["e", spec]])
    try:
        w.build_all()
        r = w.ref({"ref": "e"})
    except Exception as ex:
        return got, ["%r" % ex]
    dim = r.cell.get_dimension()
    full = [dim, 0] if not isinstance(dim, tuple) else [list(dim), 0]
    top = r.cell.get_topology()
    ents = [[list(d) if isinstance(d, tuple) else d, e] for d in top for e in top[d]]
    geom = M.geometry_for(spec)
    cell = templates.cell_of(spec)
    E = {"ref": "e"}

    def tab(order, ent):
        ps = {"k": "pts", "cell": cell, "n": 2, "seed": 5, "entity": ent}
        op = {"op": "tab", "e": E, "order": order, "ps": ps, "entity": ent}
        if geom:
            op["geom"] = geom

        def f():
            o = ops.perform(w, op, ops.Ctx(w, 0))
            ops.judge(w, op, o)
        return f

    def pt(order, ent):
        sub = ops.ref.entity_subcell(r.cell, ops.tup_entity(ent))
        op = {"op": "pteval", "e": E, "order": order, "d": sub.get_spatial_dimension(), "seed": 3, "entity": ent}

        def f():
            o = ops.perform(w, op, ops.Ctx(w, 0))
            ops.judge(w, op, o)
        return f

    def note(what, v):
        if v is not True and v is not False:
            notes.append("%s %s" % (what, v))
        return v is True
    zero = caps["tab"].get("0", [])
    if "pteval" in caps["can"] and not geom:
        got["pt"] = {}
        for order in (0, 1):
            good = [e for e in ents + [None] if note("pt%d %s" % (order, e), attempt(pt(order, e), 2))]
            if good:
                got["pt"][str(order)] = good
    if None in zero and not gen_qe(spec):
        full_ok = [o for o in (0, 1, 2) if None in caps["tab"].get(str(o), []) and note("full%d" % o, attempt(tab(o, full), 6))]
        if full_ok:
            got["full"] = full_ok
            got["fullent"] = full
        if None in caps["tab"].get("2", []):
            third = [e for e in [None] + [e for e in caps["tab"]["2"] if e is not None][-2:]
                     if note("third %s" % (e,), attempt(tab(3, e), 4))]
            if third:
                got["third"] = third
    return got, notes


def gen_qe(spec):
    return '"QE' in json.dumps(spec)


if __name__ == "__main__":
    cat = json.load(open(os.path.join(HERE, "finsim", "catalogue.json")))
    have = {gen.key(s) for g in cat.values() for s, _ in g}
    new = [s for s in templates.all_composites() + templates.zany_composites() if gen.key(s) not in have]
    print("new", len(new))
    with Pool(8) as p:
        for s, c, n in p.imap(M.probe, new, chunksize=1):
            for x in n:
                print(json.dumps(s)[:150], x[:200])
            if c:
                can = sorted(k for k, v in c.items() if v is True)
                cat["comp"].append([s, {"tab": {o: [json.loads(e) for e in v] for o, v in c["tab"].items()}, "can": can, "cost": c["cost"]}])
        items = [i for g in sorted(cat) for i in cat[g]]
        for (s, c), (got, notes) in zip(items, p.imap(extra, items, chunksize=1)):
            c.update(got)
            for x in notes:
                print(json.dumps(s)[:150], x[:200])
    json.dump(cat, open(sys.argv[1], "w"))
    print({k: len(v) for k, v in cat.items()}, sum("pt" in c for _, c in items), sum("third" in c for _, c in items))
