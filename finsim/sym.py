"""Symbolic elements: building them from specs and reading their properties."""
import json
import os
import pickle


def lib():
    import finat.ufl as U
    return U


def build(s):
    U = lib()
    t = s["t"]
    kw = {k: cell(v) if k == "cell" else dec(v) for k, v in s.get("kw", {}).items()}
    if t == "FE":
        fam, c, *rest = s["a"]
        return U.FiniteElement(fam, cell(c), *[dec(r) for r in rest], **kw)
    if t == "Vec":
        return U.VectorElement(build(s["e"]), **kw) if "e" in s else U.VectorElement(s["a"][0], cell(s["a"][1]), *s["a"][2:], **kw)
    if t == "Ten":
        return U.TensorElement(build(s["e"]), **kw) if "e" in s else U.TensorElement(s["a"][0], cell(s["a"][1]), *s["a"][2:], **kw)
    if t == "Mix":
        return U.MixedElement(*[build(f) for f in s["f"]], **kw)
    if t == "Enr":
        return U.EnrichedElement(*[build(f) for f in s["f"]])
    if t == "Nodal":
        return U.NodalEnrichedElement(*[build(f) for f in s["f"]])
    if t == "TP":
        return U.TensorProductElement(*[build(f) for f in s["f"]], **kw)
    if t == "HDiv":
        return U.HDivElement(build(s["e"]))
    if t == "HCurl":
        return U.HCurlElement(build(s["e"]))
    if t == "Broken":
        return U.BrokenElement(build(s["e"]))
    if t == "Restr":
        return U.RestrictedElement(build(s["e"]), s["d"])
    if t == "WithMapping":
        return U.WithMapping(build(s["e"]), s["m"])
    raise KeyError(t)


def cell(c):
    import ufl
    if not isinstance(c, str):
        return ufl.TensorProductCell(*[cell(x) for x in c])
    return ufl.Cell(c)


def dec(v):
    """JSON value -> argument (lists become tuples, symmetry tables dicts)."""
    if isinstance(v, list):
        return tuple(dec(x) for x in v)
    if isinstance(v, dict) and "dict" in v:
        return {tuple(k): tuple(x) for k, x in v["dict"]}
    return v


def call(x):
    return x() if callable(x) else x


def components(e):
    """Every reference component of e."""
    import numpy as np
    return [i for i in np.ndindex(*e.reference_value_shape)][:40]


ASK = {
    "repr": lambda e: repr(e),
    "hash": lambda e: hash(e) == hash(repr(e)) or hash(e) is not None,
    "str": lambda e: str(e),
    "shortstr": lambda e: e.shortstr(),
    "cell": lambda e: repr(e.cell),
    "degree": lambda e: repr(e.degree()),
    "superdegree": lambda e: repr(e.embedded_superdegree),
    "subdegree": lambda e: repr(e.embedded_subdegree),
    "mapping": lambda e: repr(call(e.mapping)),
    "space": lambda e: str(e.sobolev_space),   # the repr of a UFL space lists a set
    "rshape": lambda e: repr(e.reference_value_shape),
    "subs": lambda e: [repr(x) for x in e.sub_elements],
    "nsubs": lambda e: e.num_sub_elements,
    "variant": lambda e: repr(call(e.variant)),
    "pullback": lambda e: repr(e.pullback),
    "scheme": lambda e: repr(e.quadrature_scheme()),
    "family": lambda e: repr(e.family()),
    "rebuild": lambda e: repr(e.reconstruct(degree=2)),
    "iter": lambda e: [repr(x) for x in e],
    "restrict": lambda e: repr(e["facet"]),
    "broken": lambda e: repr(lib().BrokenElement(e)),
    "vector": lambda e: repr(lib().VectorElement(e, dim=3)),
    "mixself": lambda e: repr(e * e),
    "sig": lambda e: repr(e._ufl_signature_data_()) if hasattr(e, "_ufl_signature_data_") else None,
    "symmetry": lambda e: sorted(map(list, e.symmetry().items())),
    "symmap": lambda e: e.flattened_sub_element_mapping(),
    "size": lambda e: e.reference_value_size,
    "linear": lambda e: e._is_linear(),
    "parts": lambda e: [[repr(x) for x in e.extract_subelement_reference_component(i)] for i in components(e)],
    "leaf": lambda e: [[repr(x) for x in e.extract_reference_component(i)] for i in components(e)],
    "domain": lambda e: [e.restriction_domain(), repr(e.sub_element())],
    "vec1": lambda e: repr(lib().TensorElement(e, shape=(2, 2), symmetry=True)),
    "remap": lambda e: repr(lib().WithMapping(e, "identity")),
    "cellrebuild": lambda e: repr(e.reconstruct(cell=e.cell)),
    "varrebuild": lambda e: repr(e.reconstruct(variant="spectral")),
    "constant": lambda e: repr((e._is_globally_constant(), e.is_cellwise_constant())),
}


def ask(e, what):
    try:
        return ASK[what](e)
    except Exception as ex:
        if type(ex).__name__.startswith("Sim"):
            raise
        return "!" + type(ex).__name__


LABELS = ("str", "shortstr")     # display names: an element made by an alias may show the alias


def props(e, labels=True):
    return {w: ask(e, w) for w in sorted(ASK) if labels or w not in LABELS}


_solo = {}


def solo(f, *args):
    """Answer of f in a child of this process that then disappears."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", f(*args)))
            except BaseException as ex:
                data = pickle.dumps(("exc", repr(ex)))
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    st, val = pickle.loads(buf)
    if st != "ok":
        raise RuntimeError("solo run failed: %s" % val)
    return val


def solo_props(spec):
    k = json.dumps(spec, sort_keys=True)
    if k not in _solo:
        _solo[k] = solo(lambda: props(build(spec)))
    return _solo[k]
