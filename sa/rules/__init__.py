"""Property rules.  Each module defines functions c01, c02, ... (ctx)."""
import importlib
import os
import pkgutil


def _table():
    res = {}
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        if m.name.startswith('_'):
            continue
        mod = importlib.import_module(__name__ + '.' + m.name)
        for name in dir(mod):
            if len(name) == 3 and name[0] == 'c' and name[1:].isdigit():
                res[name.upper()] = getattr(mod, name)
    return res


def ids():
    return sorted(_table())


def get(pid):
    return _table()[pid]
