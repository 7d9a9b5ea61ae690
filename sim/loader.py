"""Loads the code under test from the working tree, a fresh copy per simulated
process, without touching sys.path, .pyc files or the installed package."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.realpath(os.environ.get("H800_REPO", "/repo"))
TOOLS = os.path.join(REPO, "tools")
_PREFIX = REPO + os.sep

_code = {}          # path -> code object
_tool_names = None


def under_repo(filename):
    return filename.startswith(_PREFIX)


def get_code(path):
    code = _code.get(path)
    if code is None:
        with open(path, "rb") as f:
            data = f.read()
        code = compile(data, path, "exec", dont_inherit=True)
        _code[path] = code
    return code


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        exec(get_code(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "h800" or name.startswith("h800."):
            base = os.path.join(REPO, *name.split("."))
        elif "." not in name and name in _toolset():
            base = os.path.join(TOOLS, name)
        else:
            return None
        init = os.path.join(base, "__init__.py")
        if base + ".py" in _code or os.path.exists(base + ".py"):
            p, pkg = base + ".py", False
        elif init in _code or os.path.exists(init):
            p, pkg = init, True
        else:
            return None
        spec = importlib.util.spec_from_loader(name, _Loader(p), origin=p,
                                               is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


def _toolset():
    global _tool_names
    if _tool_names is None:
        try:
            _tool_names = {f[:-3] for f in os.listdir(TOOLS)
                           if f.endswith(".py")}
        except OSError:
            _tool_names = set()
    return _tool_names


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        _installed = True


def owned():
    tools = _toolset()
    return [n for n in sys.modules
            if n == "h800" or n.startswith("h800.") or n in tools]


def forget():
    """Drop every module of the code under test (as a new process would)."""
    for n in owned():
        del sys.modules[n]


def snapshot():
    return {n: sys.modules[n] for n in owned()}


def restore(mods):
    forget()
    sys.modules.update(mods)


def tool_path(name):
    return os.path.join(TOOLS, name + ".py")
