"""Loads the library under test from the working tree, any number of times.

Every call of `incarnate()` gives a freshly executed copy of the package, the way a newly started
process would have it (module level state, default values computed at import time).  Source text is
compiled once per check from the current working tree; no byte code caches are read or written.
"""

import builtins
import dataclasses
import importlib
import importlib.machinery
import os
import sys

from . import schema

SRC = os.path.realpath(os.environ.get('KIUTILS_SRC', '/repo/src'))
PKG = os.path.join(SRC, 'kiutils') + os.sep
_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _code:
            with open(path, 'rb') as f:
                _code[path] = compile(f.read(), path, 'exec', dont_inherit=True)
        return _code[path]


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != 'kiutils' and not fullname.startswith('kiutils.'):
            return None
        where = [SRC] if fullname == 'kiutils' else path
        spec = importlib.machinery.PathFinder.find_spec(fullname, where)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def _exec(source, *where):
    """`exec` for the methods dataclasses makes: the same text is compiled once.  Most of the time of an import goes there."""
    if isinstance(source, str):
        code = _code.get(('exec', source))
        if code is None:
            code = _code['exec', source] = compile(source, '<string>', 'exec', dont_inherit=True)
        source = code
    return builtins.exec(source, *where)


def install():
    sys.dont_write_bytecode = True
    dataclasses.exec = _exec
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)


def purge():
    for name in modules():
        del sys.modules[name]


def modules():
    return {n: m for n, m in sys.modules.items() if n == 'kiutils' or n.startswith('kiutils.')}


def incarnate():
    install()
    purge()
    return schema.Lib()


def is_library(filename):
    return filename.startswith(PKG)
