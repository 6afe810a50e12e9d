"""Simulated memory addresses for the objects whose order depends on them.

gem orders free indices by id() and hashes them by address.  Both are replaced
by a function of the order in which the indices were made, under a per-run
permutation, so a run's 'memory layout' is part of its plan.
"""
import weakref

import gem.gem as G

MASK = (1 << 40) - 1
_mul, _add, _flip = 1, 0, 0
_real_id = id


def place(n):
    v = (n * _mul + _add) & MASK
    return (MASK - v) if _flip else v


def simid(o):
    if type(o) is G.Index:
        return place(o.count)
    return _real_id(o)


# Objects of the library that hash by address: numbered when first asked, under
# the same kind of permutation.  As with real addresses, the number of an
# object that is gone is given to the next one that needs a number.
_seen = {}
_free = []
_top = 0


def objid(o):
    global _top
    k = _real_id(o)
    if k not in _seen:
        if _free:
            n = _free.pop()
        else:
            _top += 1
            n = _top
        try:
            keep = weakref.ref(o, lambda _, k=k, n=n: _gone(k, n))
        except TypeError:
            keep = o
        _seen[k] = (keep, n)
    return place(_seen[k][1] + (1 << 20))


def _gone(k, n):
    _seen.pop(k, None)
    _free.append(n)


def libid(o):
    """id() as library modules see it."""
    return simid(o) if type(o) is G.Index else objid(o)


def simhash(x):
    """hash() as the layer below computes it for expressions: classes count by
    name, not by address."""
    if type(x) is tuple:
        x = tuple(e.__qualname__ if isinstance(e, type) else e for e in x)
    return hash(x)


def layout(kind):
    """'up', 'down' or an integer seed."""
    global _mul, _add, _flip
    _flip = 0
    if kind == "up":
        _mul, _add = 1, 0
    elif kind == "down":
        _mul, _add, _flip = 1, 0, 1
    else:
        _mul = (int(kind) * 2654435761 * 2 + 1) & MASK
        _add = (int(kind) * 40503 + 17) & MASK
    G.Index._count = 0


def install():
    import sys
    import gem.node as N
    G.id = simid
    G.Index.__hash__ = lambda self: simid(self)
    G.hash = simhash
    N.hash = simhash
    import finat
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] == "finat" and "id" not in m.__dict__:
            m.id = libid
    from finat.finiteelementbase import FiniteElementBase
    from finat.point_set import AbstractPointSet
    from finat.quadrature import AbstractQuadratureRule
    for c in (FiniteElementBase, AbstractPointSet, AbstractQuadratureRule):
        if "__hash__" not in c.__dict__ and "__eq__" not in c.__dict__:
            c.__hash__ = objid
