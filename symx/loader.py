"""Loads the repository's modules, from their current source, with the shimmed builtins."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

from . import shims
from .pandas_shim import PANDAS

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "ama_xiv_combat_sim"


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root == "numpy":
            if name == "numpy":
                return shims.NUMPY
            if name == "numpy.random" and fromlist:
                return shims.NUMPY.random
        if name == "math":
            return shims.MATH
        if root == "pandas":
            return PANDAS
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = shims.make_builtins(_import)
BUILTINS["__symx_text__"] = shims.message_text


class _Messages(ast.NodeTransformer):
    """symbolic values inside the text of an error message stay symbolic (the text is no behaviour any check looks at)"""

    def __init__(self):
        self.depth = 0

    def _inside(self, node, field):
        v = getattr(node, field)
        if v is not None:
            self.depth += 1
            setattr(node, field, self.visit(v))
            self.depth -= 1
        return node

    def visit_Raise(self, node):
        return self._inside(node, "exc")

    def visit_Assert(self, node):
        return self._inside(node, "msg")

    def _wrap(self, e):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name("__symx_text__", ast.Load()), e), args=[e], keywords=[]), e)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if self.depth and node.format_spec is None:
            node.value = self._wrap(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(node.func.value, ast.Constant):
            node.args = [self._wrap(a) if not isinstance(a, ast.Starred) else a for a in node.args]
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            fn, pkg = base + ".py", False
        elif os.path.isdir(base):
            fn, pkg = None, True
        else:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        spec.loader_state = fn
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.loader_state
        module.__dict__["__builtins__"] = BUILTINS
        if fn is None:
            return
        module.__file__ = fn
        with open(fn, "rb") as f:
            src = f.read()
        code = compile(_Messages().visit(ast.parse(src, fn)), fn, "exec", dont_inherit=True)
        exec(code, module.__dict__)


_installed = False


def install():
    global _installed
    if not _installed:
        for m in list(sys.modules):
            if m == PKG or m.startswith(PKG + "."):
                raise RuntimeError("repository already imported")
        sys.meta_path.insert(0, Finder())
        _installed = True


FUNCS = set()


def trace_functions():
    """record every function of the repository that the symbolic run enters"""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    root = os.path.join(REPO, PKG)

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and not code.co_name.startswith("<"):
            FUNCS.add(fn[len(root) + 1:-3].replace("/", ".") + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
