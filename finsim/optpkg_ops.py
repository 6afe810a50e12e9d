"""C14: building cited elements, and packages that come and go meanwhile."""
import threading

from .ops_base import Bad, Out


def inst():
    from . import optlife
    return optlife.INST


def do_cbuild(world, op, ctx):
    me, reg = threading.get_ident(), inst().registered
    n = len(reg)
    e = world.build(op["e"])
    return Out(elem=e, keys=sorted({k for t, k in reg[n:] if t == me}), there=inst().modes["firedrake_citations"] == "real")


def judge_cbuild(world, op, out):
    from .ops import check_shape
    if op["e"]["k"] != "DS":
        check_shape(world, out.elem, world.ref(op["e"]))
    if inst().whole and out.there:
        missing = [k for k in op["cites"] if k not in out.keys]
        if missing:
            raise Bad("citation", "building it did not register %s (registered %s)" % (missing, out.keys))
    if not op["cites"] and out.keys:
        raise Bad("citation", "building an element that cites nothing registered %s" % out.keys)


def do_pkg(world, op, ctx):
    inst().switch(op["name"], op["mode"])
    return Out(r=op["mode"])


def judge_pkg(world, op, out):
    pass
