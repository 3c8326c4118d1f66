"""Canonical, type-exact, deterministic rendering of Python values.

``canon(a) == canon(b)`` is the equality used by every oracle: it distinguishes types (1 / True / 1.0,
list / tuple, a class and its subclass), keeps dict order when asked, and is the state key of the explorer.
"""
from __future__ import annotations

import collections
import dataclasses
import enum
import weakref


def tname(cls):
    uid = cls.__dict__.get("_mc_uid") if isinstance(cls, type) else None
    if uid:
        return uid
    return f"{cls.__module__}.{cls.__qualname__}"


_fields = weakref.WeakKeyDictionary()


def field_names(t):
    known = t.__dict__.get("__dataclass_fields__")
    e = _fields.get(t)
    if e is None or e[0] is not known:
        e = _fields[t] = (known, [f.name for f in dataclasses.fields(t)])
    return e[1]


ATOMS = {int, bool, str, float, bytes, type(None)}


def canon(v, ordered=False):
    t = type(v)
    if t in ATOMS:
        return repr(v)
    if t is list:
        return "[" + ",".join([repr(x) if type(x) in ATOMS else canon(x, ordered) for x in v]) + "]"
    if t is tuple:
        return "(" + ",".join([repr(x) if type(x) in ATOMS else canon(x, ordered) for x in v]) + ",)"
    if t is set or t is frozenset:
        return t.__name__ + "{" + ",".join(sorted(canon(x, ordered) for x in v)) + "}"
    if t is dict or t is collections.OrderedDict:
        items = [(repr(k) if type(k) in ATOMS else canon(k, ordered)) + ":" + (repr(x) if type(x) in ATOMS else canon(x, ordered)) for k, x in v.items()]
        if not ordered:
            items.sort()
        return ("" if t is dict else "OD") + "{" + ",".join(items) + "}"
    if t is collections.defaultdict:
        f = v.default_factory
        return f"defaultdict<{getattr(f, '__name__', f)}>" + canon(dict(v), ordered)
    if t is collections.Counter:
        return "Counter" + canon(dict(v), ordered)
    if t is collections.deque:
        return f"deque<{v.maxlen}>" + canon(list(v), ordered)
    if isinstance(v, enum.Enum):
        # flags may be pseudo members; value identifies them within a class
        return f"{tname(t)}.{v.name}={canon(v.value)}"
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        fs = []
        for n in field_names(t):
            try:
                fs.append(n + "=" + canon(getattr(v, n), ordered))
            except AttributeError:
                fs.append(n + "=<unset>")
        return f"{tname(t)}(" + ",".join(fs) + ")"
    m = t.__module__
    if m == "numpy" or m.startswith("numpy."):
        import numpy as np

        if isinstance(v, np.ndarray):
            return f"ndarray<{v.dtype.str},{v.shape}>{v.tolist()!r}"
        return f"np.{t.__name__}<{v.dtype.str}>({v.item()!r})"
    if isinstance(v, type):
        return f"<class {tname(v)}>"
    if callable(v):
        return f"<callable {getattr(v, '__name__', t.__name__)}>"
    if isinstance(v, BaseException):
        return f"{t.__name__}({v.args!r})"
    return f"{tname(t)}<{v!r}>"


def same(a, b, ordered=False):
    return canon(a, ordered) == canon(b, ordered)
