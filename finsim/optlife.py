"""C14: one simulated process lifetime, from before the library is loaded.

Nothing here may import the library, or a harness module that does."""
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import types

from . import boot

NAMES = ("symengine", "firedrake_citations")


# --------------------------------------------------------------------------
# the simulated installation

class Installation(importlib.abc.MetaPathFinder):
    """Decides what an import of an optional package finds."""

    def __init__(self, modes):
        self.modes = dict(modes)       # name -> mode, changed while the process runs
        self.log = []                  # (name, mode) of each attempt
        self.stash = {}
        self.registered = []           # (thread, key)
        self.countdown = {}

    def find_spec(self, name, path, target=None):
        if name not in NAMES:
            return None
        m = self.modes[name]
        self.log.append((name, m))
        if m == "absent":
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if m == "real" and name == "symengine":
            return None
        return importlib.machinery.ModuleSpec(name, Loader(self, name, m))

    def switch(self, name, mode):
        """The package is installed, removed or damaged while the process runs."""
        self.modes[name] = mode
        mine = [k for k in sys.modules if k == name or k.startswith(name + ".")]
        if mode == "real":
            for k, v in self.stash.pop(name, {}).items():
                sys.modules[k] = v
        elif mine:
            self.stash[name] = {k: sys.modules.pop(k) for k in mine}


class Loader(importlib.abc.Loader):
    def __init__(self, inst, name, mode):
        self.inst, self.name, self.mode = inst, name, mode

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        m = self.mode
        if m == "broken":
            sys.modules[self.name + ".lib"] = types.ModuleType(self.name + ".lib")
            raise ImportError("lib%s.so.0: cannot open shared object file" % self.name)
        if m == "oserror":
            raise OSError(5, "Input/output error", self.name)
        if m == "nameless":
            module.version = "0"
            return
        inst = self.inst
        left = [3 if m == "refusing" else None]

        class Citations:
            _known, _me = {}, None

            def __new__(cls):
                if cls._me is None:
                    cls._me = object.__new__(cls)
                return cls._me

            def add(self, key, entry):
                if left[0] is not None:
                    left[0] -= 1
                    if left[0] < 0:
                        raise ImportError("cannot import name 'PETSc'")
                self._known[key] = entry

            def register(self, key):
                if key not in self._known:
                    raise KeyError("Did not find a citation for %r, please add it" % key)
                inst.registered.append((threading.get_ident(), key))
        module.Citations = Citations


CONSULT = ("fiat_elements.py", "physically_mapped.py", "direct_serendipity.py", "sympy2gem.py")


class Interrupter:
    """Raises once, at the n-th line executed while the modules that consult an
    optional package are being loaded."""
    def __init__(self, n, exc, root):
        self.n, self.exc, self.root, self.fired = n, exc, root, None

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.root) or os.path.basename(f) not in CONSULT:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.fired is None:
            self.n -= 1
            if self.n < 0:
                self.fired = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc("injected")
        return self.line


class GivenUp(Exception):
    """The library could not be loaded again after an interrupted load.  That is
    loud, and Python does not promise more; the process would be restarted."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
INST = None


def bring_up(E):
    """Import the library; what happened, and a violation text or None."""
    global INST
    if any(m == "finat" or m in NAMES for m in sys.modules):
        raise RuntimeError("harness: the process is not fresh")
    INST = inst = Installation(E["modes"])
    sys.meta_path.insert(0, inst)
    root = os.path.realpath(os.path.join(boot.REPO, "finat"))
    events = {}
    broke = False
    for k, step in enumerate(E.get("failed", [])):
        it = None
        if step.get("interrupt"):
            it = Interrupter(step["interrupt"][0], EXC[step["interrupt"][1]], root)
        for n, m in sorted(step.get("modes", {}).items()):
            inst.switch(n, m)
        try:
            if it is not None:
                sys.settrace(it)
            try:
                import finat       # noqa: F401
                import finat.ufl   # noqa: F401
            finally:
                sys.settrace(None)
        except (KeyboardInterrupt, MemoryError) as ex:
            broke = True
            if it is None or it.fired is None:
                return events, "importing the library raised %r" % (ex,)
            events["import_interrupted"] = events.get("import_interrupted", 0) + 1
        except OSError as ex:
            if "oserror" not in inst.modes.values():
                return events, "importing the library raised %r" % (ex,)
            events["package_load_oserror"] = events.get("package_load_oserror", 0) + 1
        except BaseException as ex:
            import traceback
            if broke:
                raise GivenUp
            return events, "importing the library raised %r\n%s" % (ex, traceback.format_exc()[-800:])
        else:
            if it is not None and it.fired is not None:
                return events, "an injected %s while loading %s was swallowed" % (it.exc.__name__, it.fired)
            if it is None:
                events["package_load_error_tolerated"] = events.get("package_load_error_tolerated", 0) + 1
        for n, m in sorted(step.get("then", {}).items()):
            inst.switch(n, m)
    try:
        import finat   # noqa: F811
        # after a load that failed and was tried again, Python leaves submodules
        # loaded without making them attributes of the new package object
        for k in sorted(sys.modules):
            if k.startswith("finat.") and k.rpartition(".")[0] in sys.modules and not hasattr(sys.modules[k.rpartition(".")[0]], k.rpartition(".")[2]):
                setattr(sys.modules[k.rpartition(".")[0]], k.rpartition(".")[2], sys.modules[k])
        boot.setup()
    except SystemExit:
        raise
    except BaseException as ex:
        import traceback
        if broke:
            raise GivenUp
        return events, "importing the library raised %r\n%s" % (ex, traceback.format_exc()[-800:])
    for n, m in inst.log:
        events["import %s: %s" % (n, m)] = events.get("import %s: %s" % (n, m), 0) + 1
    # the registry was there, whole, at every import and is there still
    inst.whole = all(m == "real" for n, m in inst.log if n == "firedrake_citations") and any(n == "firedrake_citations" for n, m in inst.log)
    return events, None


def life(plan, script):
    try:
        events, bad = bring_up(plan["env"])
    except GivenUp:
        return {"violation": None, "script": {}, "digest": "given up", "events": 0, "switches": 0, "faults": {}, "fault_sites": [],
                "counts": {"judged": 0}, "wall": 0.0, "packages": {"import_interrupted": 1, "import_given_up": 1}}
    if bad is not None:
        return {"violation": {"kind": "import", "op": "import", "msg": bad, "where": ["import"], "request": str(plan["env"])},
                "script": {}, "digest": hashlib.sha256(bad[:60].encode()).hexdigest(), "events": 0, "switches": 0, "faults": {}, "fault_sites": [],
                "counts": {"judged": 0}, "wall": 0.0, "packages": events}
    from . import session
    r = session.run_plan(plan, script)
    r.pop("sites", None)
    r["packages"] = events
    return r
