"""Loads independent copies of the sqlvalidator package from /repo's working tree.

Sources are compiled once; every simulated process (and every reference evaluation) executes
the code objects in fresh module objects, exactly as a fresh interpreter would.
"""
import importlib.abc
import importlib.machinery
import os
import sys

from . import seam

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "sqlvalidator"
CODE = {}       # module name -> (code, is_package, filename)


def compile_all():
    if CODE:
        return
    base = os.path.join(REPO, PKG)
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            if is_pkg:
                rel = rel[:-1]
            with open(path, "rb") as fh:
                src = fh.read()
            CODE[".".join(rel)] = (compile(src, path, "exec", dont_inherit=True), is_pkg, path)


class _Loader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(CODE[module.__spec__.name][0], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        ent = CODE.get(name)
        if ent is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, _Loader(), origin=ent[2], is_package=ent[1])
        if ent[1]:
            spec.submodule_search_locations = [os.path.dirname(ent[2])]
        return spec


_finder = _Finder()


def fresh(names=("sqlvalidator", "sqlvalidator.main", "sqlvalidator.file_handler")):
    """-> {module name: module} of a brand-new copy of the package, not left in sys.modules."""
    compile_all()
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    saved_proc = seam.CUR.proc
    seam.CUR.proc = None
    drop()
    try:
        for n in names:
            if n in CODE:
                __import__(n)
        return {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}
    finally:
        drop()
        seam.CUR.proc = saved_proc


def drop():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


def activate(mods):
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        if k not in mods:
            del sys.modules[k]
    sys.modules.update(mods)


def all_code_objects():
    """Every function/class body code object of the package (for sys.monitoring)."""
    compile_all()
    out = []
    seen = set()

    def rec(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                rec(k)
    for code, _p, _f in CODE.values():
        rec(code)
    return out
