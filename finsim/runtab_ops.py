"""C15: a compiler process asks for placeholder tables and writes their names
down; a runtime process fills them knowing only the names and the points."""
import json
import numpy as np

from . import ref, world as W
from .ops_base import Bad, Out
from .persist_ops import NoSpace, seal, unseal


def parse(name):
    """What the runtime reads in a name."""
    if not name.startswith("rt_"):
        raise Bad("name", "a placeholder table is called %r" % name)
    try:
        variant, degree, alpha, shift, cont, side = name[3:].rsplit("_", 5)
        return {"variant": variant, "degree": int(degree), "order": int(alpha), "shift": int(shift),
                "continuous": {"c": True, "d": False}[cont], "restriction": {"": None, "p": "+", "m": "-"}[side]}
    except (ValueError, KeyError) as ex:
        raise Bad("name", "the table name %r cannot be read: %r" % (name, ex))


def variables(exprs):
    import gem
    out, seen, stack = {}, set(), list(exprs)
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, gem.Variable):
            if n.name in out and tuple(out[n.name].shape) != tuple(n.shape):
                raise Bad("name", "one name %r stands for tables of shapes %r and %r" % (n.name, out[n.name].shape, n.shape))
            out[n.name] = n
        stack.extend(n.children)
    return out


def leaves(s):
    if s["k"] == "Runtime":
        return [s]
    subs = s.get("f") or ([s["e"]] if isinstance(s.get("e"), dict) else [])
    return [x for y in subs for x in leaves(y)]


def axes(ps, specs):
    """Points of each coordinate direction of a point-set spec."""
    ps = W.deref(ps, specs)
    if ps["k"] == "tps":
        return [x for f in ps["f"] for x in axes(f, specs)]
    p = np.asarray(W.ps_points(ps, specs), dtype=float)
    return [p[:, j] for j in range(p.shape[1])]


def points_by_shift(op, world):
    ax = axes(op["ps"], world.specs)
    return {str(s): ax[j].tolist() for j, s in op["shifts"]}


def fill(name, shape, points):
    """The table the runtime supplies, from the name and the points alone."""
    q = parse(name)
    if str(q["shift"]) not in points:
        raise Bad("name", "the name %r asks for direction %d, which nobody requested" % (name, q["shift"]))
    t = ref.runtime_table(q["variant"], q["degree"], q["order"], q["shift"], q["continuous"], q["restriction"], points[str(q["shift"])])
    if tuple(shape) not in (t.shape, t.shape[1:]) or (tuple(shape) != t.shape and t.shape[0] != 1):
        raise Bad("name", "the table %r has shape %r; the runtime supplies %r" % (name, tuple(shape), t.shape))
    return t.reshape(shape)


def request(world, op):
    e = world.get(op["e"])
    ps = world.get(op["ps"])
    if op.get("entity") is not None:
        return e.basis_evaluation(op["order"], ps, entity=W.tup_entity(op["entity"])), e, ps
    return e.basis_evaluation(op["order"], ps), e, ps


def do_rtab(world, op, ctx):
    t, e, ps = request(world, op)
    names = variables(t.values())
    stored = False
    if op.get("save"):
        inline = dict(op, e=world.inline(op["e"]), ps=inline_ps(op["ps"], world.specs))
        inline.pop("fault", None)
        rec = {"op": inline, "names": {n: list(v.shape) for n, v in names.items()}, "points": points_by_shift(op, world)}
        try:
            world.disk.write(op["save"], seal(rec))
            if op["sync"]:
                world.disk.sync()
            stored = True
        except NoSpace:
            pass
    return Out(table=t, elem=e, ps=ps, stored=stored)


def inline_ps(s, specs):
    s = W.deref(s, specs)
    if "f" in s:
        return dict(s, f=[inline_ps(x, specs) for x in s["f"]])
    if "rule" in s:
        return dict(s, rule=inline_ps(s["rule"], specs))
    return s


def check(world, op, table, elem, ps, recorded=None):
    r = world.ref(op["e"])
    spec = world.inline(op["e"])
    if tuple(elem.index_shape) != tuple(r.index_shape) or tuple(elem.value_shape) != tuple(r.value_shape):
        raise Bad("shape", "shapes %r and %r, expected %r and %r" % (elem.index_shape, elem.value_shape, r.index_shape, r.value_shape))
    idx = tuple(ps.indices)
    ext = W.ps_extents(op["ps"], world.specs)
    if tuple(i.extent for i in idx) != tuple(ext):
        raise Bad("shape", "point indices of extents %r, expected %r" % ([i.extent for i in idx], ext))
    pts = world.points(op["ps"])
    want = r.tab(op["order"], pts, None)
    if set(table) != set(want):
        raise Bad("value", "derivatives %r, expected %r" % (sorted(table), sorted(want)))
    shape = tuple(r.index_shape) + tuple(r.value_shape)
    known = [{"variant": s["variant"], "degree": s["degree"], "shift": s["shift"], "continuous": s["continuous"], "restriction": s["restriction"]} for s in leaves(spec)]
    points = points_by_shift(op, world)
    called = world.__dict__.setdefault("called", {})
    for alpha in sorted(want):
        vs = variables([table[alpha]])
        bind = {}
        for n in sorted(vs):
            q = parse(n)
            order = q.pop("order")
            if q not in known:
                raise Bad("name", "the name %r reads as %r, which is not asked for by %s" % (n, q, json.dumps(spec)[:300]))
            if called.setdefault(json.dumps([q, order], sort_keys=True), n) != n:
                raise Bad("name", "one table is called %r and %r" % (n, called[json.dumps([q, order], sort_keys=True)]))
            if recorded is not None and recorded.get(n) != list(vs[n].shape):
                raise Bad("name", "the table %r of shape %r was recorded as %r by the process that asked for it first (it recorded %s)"
                          % (n, vs[n].shape, recorded.get(n), sorted(recorded)[:6]))
            if spec["k"] == "Runtime" and (q != known[0] or order != alpha[0]):
                raise Bad("name", "derivative %r of %s is called %r" % (alpha, json.dumps(spec), n))
            bind[vs[n]] = fill(n, vs[n].shape, points)
        if spec["k"] == "Runtime" and len(vs) != 1:
            raise Bad("name", "derivative %r consists of tables %r" % (alpha, sorted(vs)))
        got = W.numeric(table[alpha], idx, shape, bind).reshape((len(pts),) + shape)
        if not W.close(got, want[alpha], 1e-7):
            raise Bad("value", "with the tables filled from their names %r, derivative %r differs by %.3g from the known element's"
                      % (sorted(vs), alpha, np.nanmax(np.abs(got - want[alpha]))))


def judge_rtab(world, op, out):
    check(world, op, out.table, out.elem, out.ps)


def do_rfill(world, op, ctx):
    """A runtime restarts: it reads the records and makes the kernels again."""
    outs = []
    for n in op["names"]:
        data = world.disk.durable.get(n)
        rec = unseal(data) if data is not None else None
        if rec is None:
            continue
        if op.get("fill_only"):
            outs.append((rec, None, None, None))
            continue
        t, e, ps = request(world, rec["op"])
        outs.append((rec, t, e, ps))
    return Out(done=outs)


def judge_rfill(world, op, out):
    for rec, t, e, ps in out.done:
        for n, shape in rec["names"].items():
            fill(n, shape, rec["points"])
        if t is not None:
            check(world, rec["op"], t, e, ps, rec["names"])
