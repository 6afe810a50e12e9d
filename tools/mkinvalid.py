"""Developer tool: keeps the candidate requests the library refuses on purpose
(an explicit raise or assert, an undefined value, or an index or shape outside
what exists), thinned to a few per reason and kind of element."""
import sys, json, warnings, linecache
sys.path.insert(0, "/verif")
from multiprocessing import Pool
from finsim import boot; boot.setup()   # noqa: E702
from finsim import invalid, world as W
from finsim.detrng import Rng
import numpy as np

INCIDENTAL = ("AttributeError", "TypeError", "UnboundLocalError", "LinAlgError")


def one(op):
    w = W.World([])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = invalid.CASES[op["case"]](w, op)
    except Exception as ex:
        tb, fr = ex.__traceback__, []
        while tb:
            fr.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno))
            tb = tb.tb_next
        f = fr[-1]
        if "/finsim/" in f[0]:
            return op, None, "harness"
        explicit = linecache.getline(*f).strip().startswith(("raise", "assert"))
        if not explicit and (type(ex).__name__ in INCIDENTAL or op["case"] not in ("tab", "build", "rule", "restrict", "call")):
            return op, None, "incidental %s" % type(ex).__name__
        lib = [x for x in fr if "/finat/" in x[0]] or fr
        return op, "%s %s %s" % (op["case"], type(ex).__name__, f[0].split("/")[-1]), (lib[-1], f)
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "nan-ok" and v[1].size and np.all(np.isnan(v[1])):
        return op, "%s nan" % op["case"], ("nan",)
    return op, None, "accepted " + repr(v)[:60]


def kind(op):
    s = op.get("e") or op.get("spec") or {}
    return s.get("k", "") if isinstance(s, dict) else ""


if __name__ == "__main__":
    groups, sites, dropped = {}, {}, {}
    with Pool(8) as p:
        for op, g, why in p.imap(one, invalid.candidates(), chunksize=4):
            if g is None:
                dropped[why.split(" ")[0]] = dropped.get(why.split(" ")[0], 0) + 1
                if why.startswith("accepted") and op["case"] in ("build", "rule", "sym", "use", "points", "qe", "runtimebad"):
                    print("ACCEPTED", json.dumps({k: v for k, v in op.items() if k != "op"})[:150], why)
                continue
            site = sites.setdefault(g, {})     # one group per pair of lines that refuse
            g = "%s @%d" % (g, site.setdefault(why, len(site)))
            groups.setdefault(g, {}).setdefault(kind(op), []).append(op)
    out = []
    for g in sorted(groups):
        n = 0
        for k in sorted(groups[g]):
            ops = groups[g][k]
            take = ops if len(ops) <= 12 or " nan" in g else Rng("thin", g, k).sample(ops, 12)
            out += [[g, {a: b for a, b in o.items() if a != "op"}] for o in take]
            n += len(take)
        print(g, n)
    with open(sys.argv[1], "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(o, separators=(",", ":")) for o in out) + "\n]\n")
    print(len(out), dropped)
