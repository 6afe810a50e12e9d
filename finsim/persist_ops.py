"""C11: symbolic elements kept in a store that outlives the process.

The store is a directory of checksummed records on a simulated disk: what is
written but not yet synced may, at a crash, survive, vanish or be torn.
"""
import copy
import hashlib
import json
import pickle

from . import sched, sym
from .detrng import Rng
from .ops_base import Bad, Out


class NoSpace(OSError):
    pass


class Disk:
    def __init__(self, durable, seed, full_after=None):
        self.durable = dict(durable)
        self.pending = {}
        self.seed, self.full_after, self.writes = seed, full_after, 0
        self.crashed = None
        self.lost = self.torn = self.refused = 0

    def step(self, what):
        sim = sched._current
        me = sim.me() if sim is not None else None
        if me is not None and me.active:
            sim.event(me, "disk:" + what, "call")

    def write(self, name, data):
        self.step("open")
        self.writes += 1
        if self.full_after is not None and self.writes > self.full_after:
            self.refused += 1
            raise NoSpace("no space left on the simulated disk")
        half = len(data) // 2
        self.pending[name] = data[:half]
        self.step("write")
        self.pending[name] = data

    def sync(self):
        self.step("sync")
        self.durable.update(self.pending)
        self.pending = {}

    def crash(self):
        """What the next process will find."""
        rng = Rng("disk", self.seed)
        left = dict(self.durable)
        for n in sorted(self.pending):
            d = self.pending[n]
            k = rng.wpick([("kept", 2), ("lost", 2), ("torn", 2), ("zeroed", 1)])
            if k == "kept":
                left[n] = d
            elif k == "torn":
                left[n] = d[:rng.randrange(0, len(d) + 1)]
                self.torn += 1
            elif k == "zeroed":
                left[n] = bytes(len(d))
                self.torn += 1
            else:
                self.lost += 1
        self.crashed = left

    def after(self):
        if self.crashed is not None:
            return self.crashed
        out = dict(self.durable)
        out.update(self.pending)        # an orderly exit
        return out


def seal(rec):
    data = pickle.dumps(rec)
    return hashlib.sha1(data).digest() + data


def unseal(data):
    if len(data) < 20 or hashlib.sha1(data[20:]).digest() != data[:20]:
        return None
    return pickle.loads(data[20:])


# -- names a user evaluating a textual form has at hand -----------------------

def namespace():
    import ufl
    import finat.ufl as U
    ns = {k: getattr(U, k) for k in dir(U) if not k.startswith("_")}
    for c in ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "pentatope", "tesseract", "prism", "pyramid"):
        ns[c] = ufl.Cell(c)
    ns["TensorProductCell"] = ufl.TensorProductCell
    return ns


def spec(x):
    return x[1]


def cls(x):
    return x[0]


def cache(world):
    """The cache this process keeps, keyed by elements."""
    if not hasattr(world, "store"):
        world.store = {}
    return world.store


def do_sput(world, op, ctx):
    es = [sym.build(spec(x)) for x in op["xs"]]
    how = op["how"]
    rec = {"how": how, "xs": op["xs"], "hash": [hash(e) for e in es], "repr": [repr(e) for e in es]}
    if how == "repr":
        rec["data"] = [repr(e) for e in es]
    elif how == "dict":
        rec["data"] = pickle.dumps({e: cls(x) for e, x in zip(es, op["xs"])}, op["proto"])
    elif how == "set":
        rec["data"] = pickle.dumps(set(es), op["proto"])
    else:
        if how == "copy":
            es = [copy.copy(e) for e in es]
        elif how == "deep":
            es = copy.deepcopy(es)
        rec["data"] = pickle.dumps(es, op["proto"])
    try:
        world.disk.write(op["name"], seal(rec))
        if op["sync"]:
            world.disk.sync()
    except NoSpace:
        return Out(stored=False, es=es)
    for e, x in zip(es, op["xs"]):
        cache(world)[e] = cls(x)
    return Out(stored=True, es=es)


def judge_sput(world, op, out):
    for e, x in zip(out.es, op["xs"]):
        same(world, e, x, op["how"] != "repr", "an element just stored")


def restore(rec):
    if rec["how"] == "repr":
        ns = namespace()
        return [eval(t, dict(ns)) for t in rec["data"]]
    got = pickle.loads(rec["data"])
    if rec["how"] in ("dict", "set"):
        # a container keyed by elements: look each one up in it
        out = []
        for x in rec["xs"]:
            e = sym.build(spec(x))
            if e not in got:
                out.append(None)
                continue
            k, = [o for o in got if o == e]
            if rec["how"] == "dict" and got[e] != cls(x):
                k = None
            out.append(k)
        return out
    return got


def do_sload(world, op, ctx):
    out = []
    for n in op["names"]:
        data = world.disk.durable.get(n)
        rec = unseal(data) if data is not None else None
        if rec is None:
            continue
        es = restore(rec)
        out.append((rec, es))
        for e, x in zip(es, rec["xs"]):
            if e is not None:
                cache(world)[e] = cls(x)
    return Out(restored=out)


def judge_sload(world, op, out):
    for rec, es in out.restored:
        for e, x, h, r in zip(es, rec["xs"], rec["hash"], rec["repr"]):
            what = "an element restored from a stored %s" % rec["how"]
            if e is None:
                raise Bad("missed", "a stored %s of elements no longer contains %s" % (rec["how"], r[:200]))
            if hash(e) != h:
                raise Bad("identity", "%s has another hash than when it was stored: %s" % (what, r[:200]))
            if repr(e) != r:
                raise Bad("identity", "%s has another textual form: %s, stored as %s" % (what, repr(e)[:200], r[:200]))
            same(world, e, x, rec["how"] in ("pickle", "copy", "deep"), what)


def do_sget(world, op, ctx):
    e = sym.build(spec(op["x"]))
    c = cache(world)
    # what the cache holds for certain before and after the look-up
    before = set(c.values())
    got = c.get(e)
    return Out(got=got, sure=before, es=e)


def judge_sget(world, op, out):
    want = cls(op["x"])
    if out.got is None and want in out.sure:
        raise Bad("missed", "the cache holds an equal element, yet looking up %s misses" % describe(op["x"]))
    if out.got is not None and out.got != want:
        raise Bad("wrong-hit", "looking up %s in the cache served what was stored for a different element" % describe(op["x"]))


def do_scmp(world, op, ctx):
    a, b = sym.build(spec(op["a"])), sym.build(spec(op["b"]))
    return Out(eq=a == b, ne=a != b, qe=b == a, h=hash(a) == hash(b), lt=a < b, gt=b < a, es=(a, b), same=len({a, b}), foreign=(a == repr(a), a == 1, a == None))   # noqa: E711


def judge_scmp(world, op, out):
    want = cls(op["a"]) == cls(op["b"])
    what = "%s and %s" % (describe(op["a"]), describe(op["b"]))
    if out.eq != want or out.qe != want or out.ne == want or out.same != (1 if want else 2):
        raise Bad("equality", "%s are %s, but == says %r, != says %r, a set keeps %d" % (what, "the same element" if want else "different elements",
                                                                                        (out.eq, out.qe), out.ne, out.same))
    if want and not out.h:
        raise Bad("identity", "%s are equal with different hashes" % what)
    if (out.lt, out.gt) not in ((False, False),) if want else (out.lt == out.gt):
        raise Bad("equality", "%s: the ordering says %r" % (what, (out.lt, out.gt)))
    if any(out.foreign):
        raise Bad("equality", "%s equals something that is no element" % describe(op["a"]))


def do_scopy(world, op, ctx):
    e = sym.build(spec(op["x"]))
    h, r = hash(e), repr(e)
    outs = []
    for how in op["how"]:
        if how == "copy":
            outs.append(copy.copy(e))
        elif how == "deep":
            outs.append(copy.deepcopy(e))
        elif how == "repr":
            outs.append(eval(r, namespace()))
        else:
            outs.append(pickle.loads(pickle.dumps(e, int(how))))
    return Out(es=e, outs=outs, h=h, text=r)


def judge_scopy(world, op, out):
    if hash(out.es) != out.h or repr(out.es) != out.text:
        raise Bad("identity", "%s changed its hash or textual form while it was used" % describe(op["x"]))
    same(world, out.es, op["x"], True, "an element")
    for how, o in zip(op["how"], out.outs):
        what = "a copy (%s)" % how
        if not (o == out.es and out.es == o) or o != out.es or hash(o) != out.h or repr(o) != out.text:
            raise Bad("identity", "%s of %s is not equal to it, or differs in hash or textual form" % (what, describe(op["x"])))
        same(world, o, op["x"], how != "repr", what)


def do_suse(world, op, ctx):
    e = sym.build(spec(op["x"]))
    h = hash(e)
    got = {w: sym.ASK[w](e) if w in ("repr", "hash", "str") else sym.ask(e, w) for w in op["ask"]}
    return Out(es=e, h=h, got=got, h2=hash(e))


def judge_suse(world, op, out):
    want = world.expect[key(op["x"])]
    for w, g in out.got.items():
        if g != want[w]:
            raise Bad("property", "%s of %s is %.200r, expected %.200r" % (w, describe(op["x"]), g, want[w]))
    if out.h != out.h2 or hash(out.es) != out.h:
        raise Bad("identity", "%s changed its hash while it was used" % describe(op["x"]))
    same(world, out.es, op["x"], True, "an element")


def do_sset(world, op, ctx):
    d = {}
    for x in op["xs"]:
        e = sym.build(spec(x))
        d.setdefault(e, []).append(cls(x))
    return Out(groups=list(d.values()), es=list(d))


def judge_sset(world, op, out):
    seen = set()
    for g in out.groups:
        if len(set(g)) > 1:
            names = {cls(x): x for x in op["xs"]}
            raise Bad("equality", "one key of a dictionary stands for different elements: %s" % " and ".join(describe(names[c]) for c in sorted(set(g))))
        if g[0] in seen:
            raise Bad("missed", "one element has two keys in a dictionary: %s" % describe([x for x in op["xs"] if cls(x) == g[0]][0]))
        seen.add(g[0])


def describe(x):
    return json.dumps(spec(x))[:220]


def key(x):
    return json.dumps(spec(x), sort_keys=True)


def same(world, e, x, labels, what):
    """e is the element of spec x: equal, same hash, text and properties."""
    want = world.expect[key(x)]
    b = sym.build(spec(x))
    if not (e == b and b == e) or e != b or hash(e) != hash(b) or type(e) is not type(b):
        raise Bad("identity", "%s is not equal to one built alike from %s" % (what, describe(x)))
    got = sym.props(e)
    for w in sorted(want):
        if (labels or w not in sym.LABELS) and got[w] != want[w]:
            raise Bad("property", "%s of %s is %.200r, expected %.200r" % (w, what + " " + describe(x), got[w], want[w]))
