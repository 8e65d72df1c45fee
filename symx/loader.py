"""Imports pyHalo from /repo's working tree (and the lenstronomy stand-in from /verif/stubs).

symbolic mode: modules are executed with a shadowed builtins namespace, so that numpy / scipy / math and the float / int
types they see accept symbolic terms.  The source itself is not modified.
concrete mode: plain import.
"""
import sys, os, importlib, importlib.abc, importlib.machinery, importlib.util, builtins

REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
ROOTS = {"pyHalo": REPO, "lenstronomy": STUBS, "matplotlib": STUBS}
CODE = {}
SHADOW = None       # builtins dict for symbolic mode


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        root = name.split(".")[0]
        if root not in ROOTS:
            return None
        base = os.path.join(ROOTS[root], *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            f, pkg = base + ".py", False
        elif os.path.isdir(base):
            f, pkg = None, True
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, Loader(f), origin=f, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        if f:
            spec.has_location = True
        return spec


class Loader(importlib.abc.Loader):
    def __init__(self, f):
        self.f = f

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.f is None:
            return
        c = CODE.get(self.f)
        if c is None:
            with open(self.f) as h:
                src = h.read()
            c = CODE[self.f] = compile(src, self.f, "exec")
        module.__file__ = self.f
        if SHADOW is not None:
            module.__dict__["__builtins__"] = SHADOW
        exec(c, module.__dict__)
        if SHADOW is not None:
            # names that arrived through a star import of a third-party module
            from . import shim
            for k, v in list(module.__dict__.items()):
                if type(v).__name__ == "module" and v.__name__ in shim.PROXIES:
                    module.__dict__[k] = shim.PROXIES[v.__name__]


def install(symbolic):
    global SHADOW
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if symbolic:
        from . import shim
        SHADOW = shim.make_builtins()
    else:
        SHADOW = None


def fresh():
    """forget every module of the code under test: the next import starts from a clean state"""
    for n in list(sys.modules):
        if n.split(".")[0] in ROOTS:
            del sys.modules[n]


def load(name):
    return importlib.import_module(name)
