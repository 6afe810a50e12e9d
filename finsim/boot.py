"""Brings the library under test into this process, behind the seams."""
import os
import sys

REPO = os.environ.get("FINSIM_REPO", "/repo")
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
PYTHON = "/opt/venv/bin/python"
_done = False


def env(**extra):
    e = dict(os.environ)
    e.update(ENV)
    e["PYTHONPATH"] = REPO
    e.update(extra)
    return e


def thirdparty():
    """Everything below the library, but neither it nor its optional packages."""
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy, sympy, FIAT, ufl, gem, gem.interpreter, gem.optimise, gem.impero_utils   # noqa: F401,E401
    assert "finat" not in sys.modules and "symengine" not in sys.modules


def setup():
    global _done
    if _done:
        return
    _done = True
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    from . import sched
    sched.install_locks()
    import finat
    where = os.path.realpath(os.path.dirname(finat.__file__))
    if where != os.path.realpath(os.path.join(REPO, "finat")):
        raise SystemExit("harness: finat imported from %s, not %s" % (where, REPO))
    sched.set_root(where)
    import finat.ufl  # noqa: F401
    import finat.runtime_tabulated  # noqa: F401
    import finat.quadrature_element  # noqa: F401
    import pkgutil
    import importlib
    for m in pkgutil.walk_packages(finat.__path__, "finat."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    if os.environ.get("FINSIM_PLAIN") != "1":
        sched.instrument()
    from . import addr
    addr.install()
