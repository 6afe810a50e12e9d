"""The registry of symbolic element families: operations on it, and a model of
what its history allowed."""
import _thread
import json

from . import sched, sym
from .ops_base import Bad, Out

SPACES = ["H1", "L2", "HDiv", "HCurl"]
MAPS = ["identity", "contravariant Piola", "covariant Piola", "L2 Piola"]
CELLS = ["interval", "triangle", "quadrilateral"]


def mod():
    import finat.ufl.elementlist as E
    return E


def one(name, cell, degree):
    import finat.ufl as U
    try:
        e = U.FiniteElement(name, sym.cell(cell), degree)
    except sched.INJECTED:
        raise
    except ValueError as ex:
        return "unknown" if "Unknown" in str(ex) else "!ValueError"
    except Exception as ex:
        return "!" + type(ex).__name__
    sp = e.sobolev_space
    return [e.family(), e.shortstr(), str(sym.call(e.mapping)), str(sp), list(e.reference_value_shape), e.degree()]


def meaning(name, cells=CELLS, degrees=(1, 2, 3)):
    """What a name stands for, as seen by a user constructing elements."""
    return [one(name, c, d) for c in cells for d in degrees]


def known(m):
    return any(x != "unknown" for x in m)


def builtin_names():
    E = mod()
    return sorted(set(E.ufl_elements) | set(E.aliases))


_builtin = {}


def builtin():
    """Meaning of every name shipped, taken in a process of its own."""
    if not _builtin:
        def go():
            return {n: meaning(n) for n in builtin_names()}
        _builtin.update(sym.solo(go))
    return _builtin


# -- performing --------------------------------------------------------------

def space(n):
    import ufl.sobolevspace as S
    return getattr(S, n)


def log(world):
    if not hasattr(world, "reglog"):
        world.reglog = []
    return world.reglog


def now():
    s = sched._current
    return s.total_events if s is not None else 1 << 60


def recorded(world, op, f):
    rec = {"op": op, "start": now(), "end": None, "out": None, "seq": len(log(world))}
    log(world).append(rec)
    try:
        v = f()
    except sched.INJECTED:
        rec["end"], rec["out"] = now(), "cut"
        raise
    except Exception as ex:
        rec["end"], rec["out"] = now(), "refused"
        rec["why"] = repr(ex)
        raise
    rec["end"], rec["out"] = now(), "done"
    return v


def do_reg(world, op, ctx):
    d = op["data"]
    return recorded(world, op, lambda: Out(value=mod().register_element(
        op["family"], op["short"], d["rank"], space(d["space"]), d["map"], (d["dmin"], None), tuple(d["cells"]))))


def do_alias(world, op, ctx):
    to = op["to"]
    return recorded(world, op, lambda: Out(value=mod().register_alias(
        op["alias"], lambda family, dim, order, degree: (to, order))))


def do_look(world, op, ctx):
    rec = {"op": op, "start": now(), "end": None, "out": "look", "seen": []}
    log(world).append(rec)
    for n in op["names"]:
        t0 = now()
        rec["seen"].append([n, op["cell"], op["deg"], one(n, op["cell"], op["deg"]), t0, now()])
    rec["end"] = now()
    return Out(seen=rec["seen"])


def do_show(world, op, ctx):
    lines = []
    E = mod()
    tid = _thread.get_ident()
    printers = E.__dict__.setdefault("_finsim_printers", {})
    printers[tid] = lines
    E.__dict__["print"] = lambda *a, **k: printers[_thread.get_ident()].append(" ".join(map(str, a)))
    E.show_elements()
    return Out(text="\n".join(lines))


def do_regcheck(world, op, ctx):
    return Out(now={n: meaning(n) for n in op["names"]}, full=True)


# -- judging -----------------------------------------------------------------

def given(op):
    """Meaning a registration gives to its names."""
    d = op["data"]
    out = []
    for c in CELLS:
        tdim = {"interval": 1}.get(c, 2)
        for k in (1, 2, 3):
            if c not in d["cells"] or k < d["dmin"]:
                out.append("!ValueError")
            else:
                out.append([op["family"], op["short"], d["map"], d["space"], [tdim] * d["rank"], k])
    return out


def match(m, want):
    """Compare, leaving the printed short form aside when there is none."""
    for a, b in zip(m, want):
        if isinstance(a, list) and isinstance(b, list):
            if a[0] != b[0] or a[2:] != b[2:] or (b[1] is not None and b[1] not in str(a[1])):
                return False
        elif a != b:
            return False
    return True


def same(a, b):
    return all(a.get(k) == b.get(k) for k in ("op", "family", "short", "data"))


def judge_reg(world, op, out):
    pass


judge_alias = judge_reg


def judge_show(world, op, out):
    if "Lagrange" not in out.text:
        raise Bad("registry", "listing of families lost a known one")


def judge_look(world, op, out):
    b = builtin()
    for n, c, d, m, t0, t1 in out.seen:
        if n in b and m != b[n][CELLS.index(c) * 3 + d - 1]:
            raise Bad("registry", "the known name %r now means %r" % (n, m))


def judge_regcheck(world, op, out):
    b = builtin()
    L = log(world)
    final = out.now
    for n in final:
        if n in b and final[n] != b[n]:
            raise Bad("registry", "the known name %r changed its meaning to %s" % (n, json.dumps(final[n])[:200]))
    regs = [r for r in L if r["op"]["op"] == "reg"]
    ali = [r for r in L if r["op"]["op"] == "alias"]
    names_of = {}
    for r in regs:
        o = r["op"]
        names_of[r["seq"]] = [o["family"]] + ([o["short"]] if o["short"] is not None else [])
    for r in ali:
        names_of[r["seq"]] = [r["op"]["alias"]]
    is_alias = {}
    for r in ali:
        is_alias.setdefault(r["op"]["alias"], []).append(r)

    def resolved(n):
        return final[n] if n in final else meaning(n)
    owner = {}
    for r in regs + ali:
        if r["out"] != "done":
            continue
        for n in names_of[r["seq"]]:
            if n in b:
                raise Bad("registry", "registering the already known name %r was accepted" % n)
            if n in owner and (owner[n] is not r):
                raise Bad("registry", "two registrations of %r were both accepted" % n)
            owner[n] = r
    for r in regs:
        o = r["op"]
        want = given(o)
        hits = [match(resolved(n), want) for n in names_of[r["seq"]] if n not in b]
        if r["out"] == "done" and not all(hits):
            raise Bad("registry", "%r was registered but %s" % (o["family"], "its names mean something else"))
        if r["out"] in ("cut", "refused"):
            # another attempt with the very same data may have succeeded
            if any(q is not r and same(q["op"], o) and q["out"] == "done" for q in regs):
                continue
            hits = [h and owner.get(n, r) is r for h, n in zip(hits, [n for n in names_of[r["seq"]] if n not in b])]
            if any(hits) and not (all(hits) and len(hits) == len(names_of[r["seq"]])):
                raise Bad("registry", "%r is registered under only part of its names" % o["family"])
            if r["out"] == "refused" and all(hits) and hits and not any(same(q["op"], o) and q["out"] == "cut" for q in regs):
                raise Bad("registry", "registration of %r was refused and yet took effect" % o["family"])
            if r["out"] == "refused" and not any(known(resolved(n)) or n in is_alias for n in names_of[r["seq"]]):
                raise Bad("registry", "registration of %r was refused although none of its names is known: %s"
                          % (o["family"], r["why"]))
    for r in ali:
        o = r["op"]
        if r["out"] == "done":
            want = [x for x in meaning(o["to"])]
            if resolved(o["alias"]) != want:
                raise Bad("registry", "alias %r does not stand for %r" % (o["alias"], o["to"]))
    # what lookups saw
    looks = [s for r in L if r["op"]["op"] == "look" for s in r["seen"]]
    for n, c, d, m, t0, t1 in looks:
        f = resolved(n)[CELLS.index(c) * 3 + d - 1]
        if m != "unknown" and m != f:
            raise Bad("registry", "%r once meant %s and now means %s" % (n, json.dumps(m), json.dumps(f)))
        if m == "unknown":
            for n2, c2, d2, m2, s0, s1 in looks:
                if n2 == n and m2 != "unknown" and s1 < t0:
                    raise Bad("registry", "%r was known and then became unknown" % n)
            o = owner.get(n)
            if o is not None and o["op"]["op"] == "reg" and o["end"] < t0 and f != "unknown":
                raise Bad("registry", "%r was registered but a later lookup did not find it" % n)
    for r in regs:
        ns = names_of[r["seq"]]
        want = given(r["op"])
        if len(ns) < 2:
            continue
        for k in L:
            if k["op"]["op"] != "look":
                continue
            first = None
            for n, c, d, m, t0, t1 in k["seen"]:
                i = CELLS.index(c) * 3 + d - 1
                hit = isinstance(m, list) and match([m], [want[i]])
                if hit:
                    first = n if first is None else first
                elif n in ns and first in ns and n != first and m == "unknown":
                    raise Bad("registry", "%r was available under %r but not under %r" % (r["op"]["family"], first, n))


# -- plans -------------------------------------------------------------------

def gen(i, rng, finish, Builder):
    B = Builder(rng)
    B.obj("c", {"k": "pts", "cell": "I", "n": 1, "seed": 1})
    fams = ["Sim Alpha", "Sim Beta", "Sim Gamma"][:rng.randrange(1, 4)]
    shorts = ["SA", "SB", "SG"][:rng.randrange(1, 4)]
    als = ["Sim Alias", "SZ"]
    old = rng.sample(["Lagrange", "CG", "P", "Q", "RT", "RTF", "DP", "N1curl", "S", "Bernstein", "Lob", "DQ L2", "P- L2", "HCT-red",
                      "Raviart-Thomas", "Gauss-Legendre", "N2E", "DGT"], 4)
    clash = rng.pick([0.0, 0.15, 0.4])
    pool = [None] * rng.randrange(0, 2) + shorts
    data = []

    def new(names):
        return rng.pick(old) if rng.chance(clash) else rng.pick(names + als) if rng.chance(0.15) else rng.pick(names)

    def reg():
        if data and rng.chance(0.25):
            return dict(rng.pick(data))
        f = new(fams)
        s = f if rng.chance(0.08) else None if pool and rng.chance(0.15) else new(shorts)
        o = {"op": "reg", "family": f, "short": s, "may_refuse": True,
             "data": {"rank": rng.randrange(0, 3), "space": rng.pick(SPACES), "map": rng.pick(MAPS), "dmin": rng.pick([0, 1, 2, 3]),
                      "cells": rng.pick([["interval", "triangle", "quadrilateral"], ["triangle"], ["interval", "triangle"]])}}
        data.append(o)
        return dict(o)

    def op():
        r = rng.random()
        if r < 0.45:
            return reg()
        if r < 0.62:
            return {"op": "alias", "alias": new(als + shorts[:1]), "to": rng.pick(["Lagrange", "Raviart-Thomas", fams[0], rng.pick(old)]), "may_refuse": True}
        if r < 0.65:
            return {"op": "show"}
        ns = []
        for _ in range(rng.randrange(1, 3)):
            if data and rng.chance(0.7):
                o = rng.pick(data)
                ns += [o["family"]] + ([o["short"]] if o["short"] else []) if rng.chance(0.6) else [o["short"] or o["family"], o["family"]]
            else:
                ns.append(rng.pick(old + fams + shorts + als))
        return {"op": "look", "names": ns, "cell": rng.pick(["triangle", "triangle", "interval"]), "deg": rng.pick([3, 3, 1])}

    cs = [[op() for _ in range(rng.randrange(1, 5))] for _ in range(rng.wpick([(1, 1), (2, 5), (3, 4), (4, 2)]))]
    for c in cs:
        for o in c:
            if o["op"] == "alias" and o["to"] == o["alias"]:
                o["to"] = "Lagrange"
    all_names = sorted({n for c in cs for o in c for n in
                        ([o["family"]] + ([o["short"]] if o["short"] else []) if o["op"] == "reg" else [o["alias"], o["to"]] if o["op"] == "alias"
                         else o.get("names", []))})
    extra = rng.sample(sorted(builtin()), 12)
    plan = finish(B, rng, cs, rng.pick([0, 0.3, 0.7]),
                  after=[{"op": "regcheck", "names": sorted(set(all_names) | set(extra) | set(old))}])
    # short operations: dense schedules and faults reach their few instants
    if len(cs) > 1:
        plan["policy"].update(rng.pick([{"p_new": 0.5, "p_old": 0.2, "p_enter": 0.2}, {"p_new": 0.2, "p_old": 0.1, "p_enter": 0.1},
                                        {"p_new": 0.0, "p_old": 0.05, "p_enter": 0.4}]))
    if "hazard_new" in plan["policy"]:
        plan["policy"].update(hazard_new=rng.pick([0.1, 0.25]), hazard_old=rng.pick([0.0, 0.05]))
    return plan
