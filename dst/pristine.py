"""A fresh process for every world.

Whatever the package keeps in module globals, class attributes and default
arguments is put back to what it was right after the import, so that a
reference run sees the package as a new process would and a scenario does not
depend on the ones executed before it in the same worker.
"""

import collections.abc as cabc
import copy
import sys
import types

import numpy as np

_saved = None


def _content(v):
    """how to put the content of this object back, or None"""
    if isinstance(v, np.ndarray):
        c = v.copy()

        def back():
            if v.shape == c.shape and v.flags.writeable:
                v[...] = c

        return back
    if isinstance(v, cabc.MutableMapping):
        items = list(v.items())

        def back():
            if list(v.items()) != items:
                v.clear()
                v.update(items)

        return back
    if isinstance(v, list):
        items = list(v)

        def back():
            v[:] = items

        return back
    if isinstance(v, set):
        items = set(v)

        def back():
            v.clear()
            v.update(items)

        return back
    if hasattr(v, 'cache_clear'):
        return v.cache_clear
    return None


def _function(f):
    out = [
        _content(x)
        for x in list(f.__defaults__ or ())
        + list((f.__kwdefaults__ or {}).values())
    ]
    attrs = dict(f.__dict__)

    def back():
        if f.__dict__ != attrs:
            f.__dict__.clear()
            f.__dict__.update(attrs)

    return [x for x in out if x] + [back]


def _plain(f):
    if isinstance(f, staticmethod | classmethod):
        f = f.__func__
    if isinstance(f, property):
        f = f.fget
    return f if isinstance(f, types.FunctionType) else None


def _names(d):
    return {
        k: v
        for k, v in d.items()
        if not (k.startswith('__') and k.endswith('__'))
    }


def capture():
    global _saved
    if _saved is not None:
        return
    backs = []
    classes = set()
    for name, mod in sorted(sys.modules.items()):
        if not (name == 'fides' or name.startswith('fides.')):
            continue
        g = _names(vars(mod))
        backs.append((mod, g))
        for v in g.values():
            if isinstance(v, type):
                if v.__module__.startswith('fides'):
                    classes.add(v)
    contents = []

    def value(v):
        f = _plain(v)
        if f is not None:
            if f.__module__ and f.__module__.startswith('fides'):
                contents.extend(_function(f))
            return
        if isinstance(v, type | types.ModuleType):
            return
        b = _content(v)
        if b is not None:
            contents.append(b)
            return
        # an instance of one of the package's own classes
        if type(v).__module__.startswith('fides') and hasattr(v, '__dict__'):
            d = v.__dict__
            saved = {k: copy.copy(x) for k, x in d.items()}
            if isinstance(v, types.MappingProxyType):
                return

            def back(d=d, saved=saved):
                d.clear()
                d.update({k: copy.copy(x) for k, x in saved.items()})

            import enum

            if not isinstance(v, enum.Enum):
                contents.append(back)

    for mod, g in backs:
        for v in g.values():
            value(v)
    cls = []
    import enum

    for c in classes:
        if issubclass(c, enum.Enum):
            continue
        d = _names(dict(vars(c)))
        cls.append((c, d))
        for v in d.values():
            value(v)
    _saved = (backs, cls, contents)


def restore():
    if _saved is None:
        return
    backs, cls, contents = _saved
    for mod, g in backs:
        d = vars(mod)
        for k in [k for k in _names(d) if k not in g]:
            if not isinstance(d[k], types.ModuleType):
                del d[k]
        for k, v in g.items():
            if d.get(k) is not v:
                d[k] = v
    for c, g in cls:
        d = vars(c)
        for k in [k for k in _names(dict(d)) if k not in g]:
            delattr(c, k)
        for k, v in g.items():
            if d.get(k) is not v:
                setattr(c, k, v)
    for b in contents:
        b()
