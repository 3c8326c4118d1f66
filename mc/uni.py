"""Abstract types, abstract classes and the reference model.

Every ``Ty`` is one abstract type: it knows the typing object handed to pyserde (``py``), a small boundary value
domain (``values``), and the *documented* meaning of the two conversions, written as plain interpretive Python:

* ``ser(v, o)``  - the plain representation of ``v`` under options ``o``;
* ``de(d, o)``   - the value read from plain data ``d``; raises ``Reject`` where SerdeError is required and
  ``Unspec`` where the documentation leaves open whether a conforming value or SerdeError comes out;
* ``conf(v)``    - deep, type-exact conformance of a value to the type.

Nothing here imports pyserde's code generation; pyserde is only used to build the classes under test.
"""
from __future__ import annotations

import collections
import collections.abc
import dataclasses
import datetime as dt
import decimal
import enum
import functools
import ipaddress
import itertools
import pathlib
import types
import typing
import uuid
from dataclasses import dataclass
from typing import Any, Optional

from .canon import canon, same

MISSING = dataclasses.MISSING


class Reject(Exception):
    """The model requires SerdeError."""


class Misfit(Reject):
    """A plain value of the wrong type, noticed by the type check of the class only."""


class Unspec(Exception):
    """The documentation does not fix the outcome (SerdeError or a conforming value)."""


class Sampled(Unspec):
    """beartype looks at one element of a container only (documented): SerdeError or any value of the outer class."""


class UserRaised(Exception):
    """The user's own construction code raised ``inner``."""

    def __init__(self, inner):
        self.inner = inner


class OutOfDomain(Exception):
    """This (value, representation) pair cannot exist, e.g. a set of unhashable dicts."""


@dataclass(frozen=True)
class O:
    named: bool = True
    reuse: Any = None
    sets: Any = None
    skip_none: bool = False
    numbers: Any = None  # None | 'json' | 'yaml'
    # context given by the class whose field is being converted
    mode: str = "strict"  # strict | coerce | disabled
    tagging: Any = None
    conv: Any = None
    direct: bool = False  # given directly to the API, not in a field: sets become lists, instances are reused by default
    tvars: Any = None  # TypeVar -> Ty binding of the enclosing generic class


def replace(o, **kw):
    n = object.__new__(O)
    n.__dict__.update(o.__dict__, **kw)
    return n


def numbers_conv(kind, d):
    """Documented behaviour of coerce_numbers for a float target."""
    if type(d) is bool:
        raise Reject("bool for float")
    if isinstance(d, (int, float)):
        try:
            return float(d)
        except OverflowError:
            raise Reject("too big for float") from None
    if kind == "yaml" and isinstance(d, str):
        try:
            return float(d)
        except ValueError:
            raise Reject("non numeric string") from None
    raise Reject("not a number")


class Ty:
    name = "?"
    hashable = True
    ambiguous = False  # a union somewhere that cannot be resolved from the bare value
    optional = False

    def py(self):
        raise NotImplementedError

    def values(self):
        raise NotImplementedError

    def ser(self, v, o):
        if o.conv is not None:
            hit, r = o.conv.ser(self, v, o)
            if hit:
                return r
        return self._ser(v, o)

    def de(self, d, o):
        if o.conv is not None:
            hit, r = o.conv.de(self, d, o)
            if hit:
                return r
        return self._de(d, o)

    def de_mapkey(self, d, o):
        if o.conv is not None:
            hit, r = o.conv.de(self, d, o)
            if hit:
                return r
        return self.de_key(d, o)

    def de_key(self, d, o):
        return self._de(d, o)

    def conf(self, v):
        raise NotImplementedError

    def parts(self):
        return ()

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for p in self.parts():
            yield from p.walk(seen)

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------------------------------------ atoms
class Prim(Ty):
    def __init__(self, cls, vals, name=None):
        self.cls, self.vals, self.name = cls, vals, name or cls.__name__

    def py(self):
        return self.cls

    def values(self):
        return list(self.vals)

    def _ser(self, v, o):
        if o.mode == "coerce":
            return self.coerce(v)
        return v

    def coerce(self, d):
        if d is None:
            raise Reject("None for non-optional")
        try:
            return self.cls(d)
        except Exception:
            raise Reject("cannot coerce") from None

    def _de(self, d, o):
        if self.cls is float and o.numbers:
            return numbers_conv(o.numbers, d)
        if o.mode == "coerce":
            return self.coerce(d)
        if o.mode == "disabled":
            return d
        if not isinstance(d, self.cls):
            raise Misfit(f"{d!r} is not {self.name}")
        return d

    def de_key(self, d, o):
        if o.mode == "coerce":
            return self.coerce(d)
        if self.cls in (int, float) and not isinstance(d, self.cls):
            try:
                k = self.cls(d)
            except Exception:
                raise Reject("bad key") from None
            if not isinstance(d, str):
                raise Unspec  # numeric keys are converted back leniently
            return k
        return self.de(d, o)

    def conf(self, v):
        return isinstance(v, self.cls)


class PrimSub(Ty):
    """Subclass of a primitive: always constructed on reading."""

    def __init__(self, cls, raw):
        self.cls, self.raw, self.name = cls, raw, cls.__name__

    def py(self):
        return self.cls

    def values(self):
        return [self.cls(x) for x in self.raw]

    def _ser(self, v, o):
        return v

    def _de(self, d, o):
        if d is None:
            raise Reject("None")
        if self.cls.__mro__[1] is float and o.numbers:
            return self.cls(numbers_conv(o.numbers, d))
        if isinstance(d, bool) or not isinstance(d, self.cls.__mro__[1]):
            raise Unspec
        return self.cls(d)

    def de_key(self, d, o):
        if isinstance(d, str):
            try:
                return self.cls(d)
            except ValueError:
                raise Reject("bad key") from None
        return self._de(d, o)

    def conf(self, v):
        return isinstance(v, self.cls)


class StrTy(Ty):
    def __init__(self, cls, texts):
        self.cls, self.texts, self.name = cls, texts, cls.__name__

    def py(self):
        return self.cls

    def values(self):
        return [self.cls(t) for t in self.texts]

    def _ser(self, v, o):
        return v if (o.reuse or (o.direct and o.reuse is None)) else str(v)

    def _de(self, d, o):
        if isinstance(d, self.cls):
            if o.reuse is False:
                raise Unspec
            return d
        if d is None:
            raise Reject("None")
        if type(d) is not str:
            raise Unspec
        try:
            return self.cls(d)
        except Exception:
            raise Reject("bad text") from None

    def conf(self, v):
        return isinstance(v, self.cls)


class DtTy(Ty):
    def __init__(self, cls, vals):
        self.cls, self.vals, self.name = cls, vals, cls.__name__

    def py(self):
        return self.cls

    def values(self):
        return list(self.vals)

    def _ser(self, v, o):
        return v if (o.reuse or (o.direct and o.reuse is None)) else v.isoformat()

    def _de(self, d, o):
        if isinstance(d, self.cls):
            if o.reuse is False:
                raise Unspec
            return d
        if type(d) is not str:
            raise Reject("not a date text")
        try:
            return self.cls.fromisoformat(d)
        except Exception:
            raise Reject("bad date text") from None

    def conf(self, v):
        return isinstance(v, self.cls)


class EnumTy(Ty):
    def __init__(self, cls, members=None):
        self.cls, self.name = cls, cls.__name__
        self.members = members or list(cls)

    def py(self):
        return self.cls

    def values(self):
        return list(self.members)

    @staticmethod
    def plain(e):
        v = e.value
        while isinstance(v, enum.Enum):
            v = v.value
        return v

    def _ser(self, v, o):
        return self.plain(v)

    def _de(self, d, o):
        for m in self.members:
            if same(self.plain(m), d) or same(m.value, d) or same(m, d):
                return m
        for m in self.members:  # sequences that went through a format
            p = self.plain(m)
            if isinstance(p, tuple) and isinstance(d, list) and list(p) == d:
                return m
        if issubclass(self.cls, enum.Flag):
            raise Unspec
        for m in self.members:
            try:
                if self.plain(m) == d:  # 1 == True == 1.0: python's own lookup accepts these
                    raise Unspec
            except Unspec:
                raise
            except Exception:
                pass
            if isinstance(d, str) and str(self.plain(m)).lower() == d.lower() and not isinstance(self.plain(m), str):
                raise Unspec  # stringified key
        if isinstance(d, str) and not isinstance(self.plain(self.members[0]), str):
            try:
                type(self.members[0].value)(d)
            except Exception:
                raise Reject("no member") from None
            raise Unspec
        raise Reject("no member")

    def de_key(self, d, o):
        for m in self.members:
            p = self.plain(m)
            if same(p, d):
                return m
        for m in self.members:
            p = self.plain(m)
            if isinstance(d, str) and isinstance(p, (bool, int, float)) and str(p).lower() == d.lower():
                return m
        return self._de(d, o)

    def conf(self, v):
        return isinstance(v, self.cls)


class LitTy(Ty):
    def __init__(self, *vals):
        self.vals = vals
        self.name = "Lit(" + ",".join(repr(v) for v in vals) + ")"

    def py(self):
        return typing.Literal[self.vals]

    def values(self):
        return list(self.vals)

    def _ser(self, v, o):
        return v

    def _de(self, d, o):
        for v in self.vals:
            if same(v, d):
                return v
        raise Reject("not a listed literal")

    def conf(self, v):
        return any(same(x, v) for x in self.vals)


class NewTy(Ty):
    def __init__(self, name, inner):
        self.inner, self.name = inner, f"NewType_{name}"
        self.t = typing.NewType(name, inner.py())
        self.t.__module__ = __name__

    def py(self):
        return self.t

    def values(self):
        return self.inner.values()

    def _ser(self, v, o):
        return self.inner._ser(v, o)

    def _de(self, d, o):
        return self.inner._de(d, o)

    def de_key(self, d, o):
        return self.inner.de_key(d, o)

    def conf(self, v):
        return self.inner.conf(v)

    def parts(self):
        return (self.inner,)


class AnyTy(Ty):
    name = "Any"
    hashable = False

    def __init__(self, vals=None):
        self.vals = vals

    def py(self):
        return Any

    def values(self):
        return list(self.vals) if self.vals else [1, "s", {"k": 1.5}, None]

    def _ser(self, v, o):
        return dyn_ser(v, replace(o, reuse=False))  # documented: untyped values are always written as text

    def _de(self, d, o):
        return d

    def conf(self, v):
        return True


def dyn_ser(v, o):
    """Serialization of a value without a declared type."""
    t = type(v)
    ty = REG.get(t)
    if ty is not None:
        return ty.ser(v, o)
    if t in (list, collections.deque):
        return [dyn_ser(x, o) for x in v]
    if t is tuple:
        return tuple(dyn_ser(x, o) for x in v)
    if t in (dict, collections.defaultdict, collections.Counter):
        return {dyn_ser(k, o): dyn_ser(x, o) for k, x in v.items()}
    if t in (set, frozenset):
        return [dyn_ser(x, o) for x in v]
    if isinstance(v, enum.Enum):
        return EnumTy.plain(v)
    if isinstance(v, (dt.date, dt.time)):
        return v if (o.reuse or (o.direct and o.reuse is None)) else v.isoformat()
    if isinstance(v, (pathlib.PurePath, decimal.Decimal, uuid.UUID, ipaddress._IPAddressBase)):
        return v if (o.reuse or (o.direct and o.reuse is None)) else str(v)
    return v


class NoneTy(Ty):
    name = "None"
    optional = True

    def py(self):
        return type(None)

    def values(self):
        return [None]

    def _ser(self, v, o):
        return None

    def _de(self, d, o):
        if d is not None:
            raise Misfit("not None")
        return None

    def conf(self, v):
        return v is None


# ------------------------------------------------------------------------------------------- containers
def _strip(v):
    return v


class Seq(Ty):
    """list / Sequence / MutableSequence / deque."""

    hashable = False
    KINDS = {
        "list": (list, lambda t: list[t]),
        "Sequence": (list, lambda t: collections.abc.Sequence[t]),
        "MutableSequence": (list, lambda t: collections.abc.MutableSequence[t]),
        "deque": (collections.deque, lambda t: collections.deque[t]),
    }

    def __init__(self, t, kind="list"):
        self.t, self.kind = t, kind
        self.mk, self.alias = self.KINDS[kind]
        self.name = f"{kind}({t.name})"
        self.ambiguous = t.ambiguous

    def py(self):
        return self.alias(self.t.py())

    def values(self):
        vs = self.t.values()
        return [self.mk(vs), self.mk()] + ([self.mk(vs[:1])] if len(vs) > 1 else [])

    def _ser(self, v, o):
        return [self.t.ser(x, o) for x in v]

    def _de(self, d, o):
        if type(d) not in (list, tuple):
            raise Reject("None") if d is None else Unspec
        return self.mk(sampled(self.t, d, o))

    def conf(self, v):
        ok = type(v) is self.mk
        return ok and all(self.t.conf(x) for x in v)

    def parts(self):
        return (self.t,)


def sampled(t, data, o):
    """Element-wise read; a primitive misfit among several elements is only sampled by beartype (documented)."""
    out, misfit = [], False
    for x in data:
        try:
            out.append(t.de(x, o))
        except (Misfit, Unspec):
            if len(data) > 1:
                misfit = True
            else:
                raise
    if misfit:
        raise Sampled
    return out


class SetTy(Ty):
    KINDS = {
        "set": (set, lambda t: set[t]),
        "frozenset": (frozenset, lambda t: frozenset[t]),
        "Set": (set, lambda t: collections.abc.Set[t]),
        "MutableSet": (set, lambda t: collections.abc.MutableSet[t]),
    }

    def __init__(self, t, kind="set"):
        self.t, self.kind = t, kind
        self.mk, self.alias = self.KINDS[kind]
        self.name = f"{kind}({t.name})"
        self.hashable = kind == "frozenset"
        self.ambiguous = t.ambiguous

    def py(self):
        return self.alias(self.t.py())

    def values(self):
        vs = self.t.values()
        return [self.mk(vs), self.mk()]

    def _ser(self, v, o):
        xs = [self.t.ser(x, o) for x in v]
        if o.sets or o.direct:
            return xs
        try:
            return set(xs)
        except TypeError:
            raise OutOfDomain from None

    def _de(self, d, o):
        if type(d) not in (list, tuple, set, frozenset):
            raise Reject("None") if d is None else Unspec
        try:
            return self.mk(sampled(self.t, list(d), o))
        except TypeError:
            raise Reject("unhashable") from None

    def conf(self, v):
        return type(v) is self.mk and all(self.t.conf(x) for x in v)

    def parts(self):
        return (self.t,)


class TupTy(Ty):
    def __init__(self, *ts):
        self.ts = ts
        self.name = "tuple(" + ",".join(t.name for t in ts) + ")"
        self.hashable = all(t.hashable for t in ts)
        self.ambiguous = any(t.ambiguous for t in ts)

    def py(self):
        return tuple[tuple(t.py() for t in self.ts)]

    def values(self):
        return zipvals([t.values() for t in self.ts], tuple) if self.ts else [()]

    def _ser(self, v, o):
        return tuple(t.ser(x, o) for t, x in zip(self.ts, v))

    def _de(self, d, o):
        if type(d) not in (list, tuple):
            raise Reject("None") if d is None else Unspec
        if len(d) < len(self.ts):
            raise Reject("too short")
        if len(d) > len(self.ts):
            raise Unspec
        return tuple(t.de(x, o) for t, x in zip(self.ts, d))

    def conf(self, v):
        return type(v) is tuple and len(v) == len(self.ts) and all(t.conf(x) for t, x in zip(self.ts, v))

    def parts(self):
        return self.ts


class VarTup(Ty):
    def __init__(self, t):
        self.t, self.name, self.hashable, self.ambiguous = t, f"vtuple({t.name})", t.hashable, t.ambiguous

    def py(self):
        return tuple[self.t.py(), ...]

    def values(self):
        vs = self.t.values()
        return [tuple(vs), (), tuple(vs[:1])]

    def _ser(self, v, o):
        return tuple(self.t.ser(x, o) for x in v)

    def _de(self, d, o):
        if type(d) not in (list, tuple):
            raise Reject("None") if d is None else Unspec
        return tuple(sampled(self.t, d, o))

    def conf(self, v):
        return type(v) is tuple and all(self.t.conf(x) for x in v)

    def parts(self):
        return (self.t,)


class OptTy(Ty):
    optional = True

    def __init__(self, t, style="Optional"):
        self.t, self.style = t, style
        self.name = f"{'opt' if style == 'Optional' else 'ornone'}({t.name})"
        self.hashable, self.ambiguous = t.hashable, t.ambiguous

    def py(self):
        if isinstance(self.t, UnionTy):  # Optional[Union[a, b]] may return a cached Optional[Union[b, a]]
            return typing.Union[(*[x.py() for x in self.t.ts], None)]
        return Optional[self.t.py()] if self.style == "Optional" else (self.t.py() | None)

    def values(self):
        return self.t.values() + [None]

    def _ser(self, v, o):
        return None if v is None else self.t.ser(v, o)

    def _de(self, d, o):
        return None if d is None else self.t.de(d, o)

    def conf(self, v):
        return v is None or self.t.conf(v)

    def parts(self):
        return (self.t,)


class DictTy(Ty):
    hashable = False
    KINDS = {
        "dict": (dict, lambda k, v: dict[k, v]),
        "Mapping": (dict, lambda k, v: collections.abc.Mapping[k, v]),
        "MutableMapping": (dict, lambda k, v: collections.abc.MutableMapping[k, v]),
        "defaultdict": (None, lambda k, v: collections.defaultdict[k, v]),
    }

    def __init__(self, k, v, kind="dict"):
        self.k, self.v, self.kind = k, v, kind
        self.name = f"{kind}({k.name}:{v.name})"
        self.ambiguous = k.ambiguous or v.ambiguous

    ABSTRACT = {
        collections.abc.Sequence: list, collections.abc.MutableSequence: list, collections.abc.Set: set,
        collections.abc.MutableSet: set, collections.abc.Mapping: dict, collections.abc.MutableMapping: dict,
    }

    def factory(self):
        p = self.v.py()
        while hasattr(p, "__supertype__"):
            p = p.__supertype__
        p = typing.get_origin(p) or p
        return self.ABSTRACT.get(p, p)

    def mk(self, items):
        if self.kind == "defaultdict":
            return collections.defaultdict(self.factory(), items)
        return dict(items)

    def py(self):
        return self.KINDS[self.kind][1](self.k.py(), self.v.py())

    def values(self):
        ks, vs = self.k.values(), self.v.values()
        n = max(len(vs), 1)
        seen, full = set(), []
        for i in range(max(len(ks), n)):
            k = ks[i % len(ks)]
            if canon(k) in seen:
                continue
            seen.add(canon(k))
            full.append((k, vs[i % len(vs)]))
        rest = [self.mk([(ks[0], vs[i])]) for i in range(len(full), len(vs))]
        return [self.mk(full), self.mk([])] + rest

    def _ser(self, v, o):
        try:
            return {self.k.ser(k, o): self.v.ser(x, o) for k, x in v.items()}
        except TypeError:
            raise OutOfDomain from None

    def _de(self, d, o):
        if not isinstance(d, dict):
            raise Reject("not a mapping")
        items, misfit = [], False
        for k, x in d.items():
            try:
                items.append((self.k.de_mapkey(k, o), self.v.de(x, o)))
            except (Misfit, Unspec):
                if len(d) > 1:
                    misfit = True
                else:
                    raise
        if misfit:
            raise Sampled
        return self.mk(items)

    def conf(self, v):
        return (
            type(v) is (collections.defaultdict if self.kind == "defaultdict" else dict)
            and all(self.k.conf(k) and self.v.conf(x) for k, x in v.items())
        )

    def parts(self):
        return (self.k, self.v)


class CounterTy(Ty):
    hashable = False

    def __init__(self, k):
        self.k, self.name, self.ambiguous = k, f"Counter({k.name})", k.ambiguous

    def py(self):
        return collections.Counter[self.k.py()]

    def values(self):
        ks = self.k.values()
        return [collections.Counter({k: i for i, k in enumerate(ks)}), collections.Counter()]

    def _ser(self, v, o):
        try:
            return {self.k.ser(k, o): n for k, n in v.items()}
        except TypeError:
            raise OutOfDomain from None

    def _de(self, d, o):
        if not isinstance(d, dict):
            raise Reject("not a mapping")
        if not all(type(n) is int for n in d.values()):
            raise Unspec
        if len(d) > 1:
            try:
                return collections.Counter({self.k.de_mapkey(k, o): n for k, n in d.items()})
            except Misfit:
                raise Sampled from None
        return collections.Counter({self.k.de_mapkey(k, o): n for k, n in d.items()})

    def conf(self, v):
        return type(v) is collections.Counter and all(self.k.conf(k) for k in v)

    def parts(self):
        return (self.k,)


class BareTy(Ty):
    hashable = False
    DOM = {
        "list": (list, [[1, "a"], []]),
        "dict": (dict, [{"a": 1, "b": "c"}, {}]),
        "set": (set, [{1}, {"a"}]),
        "frozenset": (frozenset, [frozenset({1})]),
        "tuple": (tuple, [(1, "a"), ()]),
        "deque": (collections.deque, [collections.deque([1, "a"]), collections.deque()]),
        "Counter": (collections.Counter, [collections.Counter({"a": 2})]),
        "Sequence": (collections.abc.Sequence, [[1, "a"]]),
        "Mapping": (collections.abc.Mapping, [{"a": 1}]),
    }

    def __init__(self, kind):
        self.kind, self.name = kind, f"bare_{kind}"
        self.cls, self.vals = self.DOM[kind]

    def py(self):
        return self.cls

    def values(self):
        import copy

        return [copy.copy(v) for v in self.vals]

    def _ser(self, v, o):
        if self.kind in ("list", "deque", "Sequence"):
            return list(v)
        if self.kind in ("dict", "Counter", "Mapping"):
            return dict(v)
        if self.kind in ("set", "frozenset"):
            return list(v) if o.sets or o.direct else v
        return v

    def _de(self, d, o):
        if d is None:
            if o.mode == "disabled":
                raise Unspec
            raise Misfit("None")
        if isinstance(d, (str, bytes)) or not isinstance(d, (list, tuple, set, frozenset, dict)):
            raise Unspec
        mk = {"Sequence": list, "Mapping": dict}.get(self.kind, self.cls)
        if isinstance(d, dict) != (mk in (dict, collections.Counter)):
            raise Unspec
        try:
            return mk(d)
        except TypeError:
            raise Reject("unhashable element") from None

    def conf(self, v):
        return isinstance(v, self.cls) and not (self.kind == "Sequence" and isinstance(v, (str, bytes, bytearray)))


# ------------------------------------------------------------------------------------------------ unions
@dataclass(frozen=True)
class Tag:
    kind: str = "External"
    tag: Any = None
    content: Any = None

    @property
    def name(self):
        return self.kind[0] + ("" if self.tag is None else f"[{self.tag}{'' if self.content is None else ',' + self.content}]")

    def real(self):
        import serde

        if self.kind == "External":
            return serde.ExternalTagging
        if self.kind == "Untagged":
            return serde.Untagged
        if self.kind == "Internal":
            return serde.InternalTagging(self.tag)
        return serde.AdjacentTagging(self.tag, self.content)


EXT = Tag()
UNT = Tag("Untagged")
INT = Tag("Internal", "type")
ADJ = Tag("Adjacent", "type", "content")


class UnionTy(Ty):
    def __init__(self, *ts, style="Union"):
        self.ts, self.style = ts, style
        self.name = "union(" + "|".join(t.name for t in ts) + ")"
        self.hashable = all(t.hashable for t in ts)
        self.optional = any(isinstance(t, NoneTy) for t in ts)
        self.ambiguous = any(t.ambiguous for t in ts)

    def py(self):
        ps = tuple(t.py() for t in self.ts)
        if self.style == "Union":
            return typing.Union[ps]
        r = ps[0]
        for p in ps[1:]:
            r = r | p
        return r

    def values(self):
        out = []
        for t in self.ts:
            out += t.values()[:2]
        return out

    def _ser(self, v, o):
        tg = o.tagging or EXT
        o2 = replace(o, named=True, mode="strict" if o.mode == "coerce" else o.mode)
        exact = [t for t in self.ts if isinstance(t, ClassTy) and type(v) is t.py()]
        for t in exact or self.ts:
            if t.conf(v):
                body = t.ser(v, o2)
                if not isinstance(t, ClassTy):
                    return body
                if tg.kind == "External":
                    return {t.tagname: body}
                if tg.kind == "Internal":
                    if not isinstance(body, dict):
                        raise OutOfDomain
                    return {**body, tg.tag: t.tagname}
                if tg.kind == "Adjacent":
                    return {tg.content: body, tg.tag: t.tagname}
                return body
        raise Reject("not a member")

    def _de(self, d, o):
        tg = o.tagging or EXT
        o2 = replace(o, named=True, mode="strict")
        open_ = False
        for t in self.ts:
            try:
                if isinstance(t, ClassTy) and tg.kind != "Untagged":
                    if not isinstance(d, dict):
                        continue
                    if tg.kind == "External":
                        if t.tagname not in d:
                            continue
                        body = d[t.tagname]
                    elif tg.kind == "Internal":
                        if d.get(tg.tag) != t.tagname:
                            continue
                        body = d
                    else:
                        if d.get(tg.tag) != t.tagname or tg.content not in d:
                            continue
                        body = d[tg.content]
                    if tg.kind == "Internal" and tg.tag not in t.known():
                        body = {k: x for k, x in body.items() if k != tg.tag}
                else:
                    body = d
                if isinstance(t, Prim) and not isinstance(body, t.cls) and not (o.conv and o.conv.des.get(_hk(t))):
                    continue
                v = t.de(body, o2)
            except (Reject, UserRaised) as e:  # an exception of the user's code means: not this member
                if isinstance(e, UserRaised) and not isinstance(e.inner, Exception):
                    raise
                continue
            except Unspec as e:
                open_ = Sampled if isinstance(e, Sampled) or open_ is Sampled else Unspec
                continue
            if open_:
                raise open_
            return v
        if open_:
            raise open_
        raise Reject("no member matches")

    def conf(self, v):
        return any(t.conf(v) for t in self.ts)

    def parts(self):
        return self.ts


# ------------------------------------------------------------------------------------------------ classes
REG: dict = {}  # real class -> ClassTy


class F:
    """One abstract field."""

    OPTS = (
        "rename alias skip skip_serializing skip_deserializing skip_if skip_if_false skip_if_none "
        "skip_if_default serializer deserializer flatten"
    ).split()

    def __init__(self, fname, ty, default=MISSING, default_factory=MISSING, kw_only=False, init=True,
                 initvar=False, classvar=False, compare=True, **opts):
        self.fname, self.ty = fname, ty
        self.default, self.default_factory, self.kw_only, self.init = default, default_factory, kw_only, init
        self.initvar, self.classvar, self.compare = initvar, classvar, compare
        for k in opts:
            assert k in self.OPTS, k
        self.opts = opts
        self.__dict__.update(NO_OPTS, **opts)

    @property
    def has_default(self):
        return self.default is not MISSING or self.default_factory is not MISSING

    def get_default(self):
        return self.default if self.default is not MISSING else self.default_factory()

    @property
    def key(self):
        s = f"{self.fname}:{self.ty.name}"
        if self.default is not MISSING:
            s += f"={canon(self.default)}"
        if self.default_factory is not MISSING:
            s += f"=f()"
        for a in ("kw_only", "initvar", "classvar"):
            if getattr(self, a):
                s += "~" + a
        if not self.init:
            s += "~noinit"
        for k, v in self.opts.items():
            s += f";{k}={getattr(v, '__name__', v)}"
        return s

    def real(self):
        import serde

        kw = dict(self.opts)
        for k in ("serializer", "deserializer"):
            if kw.get(k) == "default":
                kw[k] = getattr(serde, "default_" + k)
        if FLATTEN[0] and kw.get("flatten") is True:
            kw["flatten"] = FLATTEN[0]()
        if self.default is not MISSING:
            kw["default"] = self.default
        if self.default_factory is not MISSING:
            kw["default_factory"] = self.default_factory
        if self.kw_only:
            kw["kw_only"] = True
        if not self.init:
            kw["init"] = False
        if not self.compare:
            kw["compare"] = False
        return serde.field(**kw) if kw else None


FLATTEN: list = [None]  # how flatten=True is written


class Conv:
    """Class-level and global converters in effect for the fields of one class."""

    def __init__(self, ser=None, de=None, name=""):
        self.sers, self.des = ser or {}, de or {}
        self.name = name + ",".join(f"{getattr(k, '__name__', k)}{'s' if k in self.sers else ''}{'d' if k in self.des else ''}"
                                    for k in {**self.sers, **self.des})

    def over(self, base):
        """These converters on top of ``base``."""
        return self if base is None else Conv({**base.sers, **self.sers}, {**base.des, **self.des})

    def ser(self, ty, v, o):
        f = self.sers.get(_hk(ty))
        return (True, f(v)) if f else (False, None)

    def de(self, ty, d, o):
        f = self.des.get(_hk(ty))
        if not f:
            return False, None
        try:
            return True, f(d)
        except Exception:
            raise Reject("converter failed") from None


def _hk(ty):
    try:
        p = ty.py()
        hash(p)
        return p
    except TypeError:
        return None


_modes = {"strict": None}


SPELL: list = [None]  # how the annotations of classes built now are written (mc/spell.py)


@functools.lru_cache(None)
def cased(case, name):
    import casefy

    return getattr(casefy, case)(name)


NO_OPTS = dict.fromkeys(F.OPTS)


CLASS_DEFAULTS = {
    "rename_all": None, "convert_sets_default": False, "skip_if_default": False, "skip_if_none": False,
    "tagging": EXT, "type_check": "strict", "deny_unknown_fields": False, "transparent": False,
    "serialize_class_var": False, "reuse_instances_default": True, "conv": None, "legacy": None, "gconv": None,
}


class ClassTy(Ty):
    """One abstract class. ``how`` says how it is declared:

    serde  - @dataclass then @serde(**cfg);   auto - @serde on a class without @dataclass;
    plain  - @dataclass only;                 split - serialize(**cfg) and deserialize(**cfg_de), in `order`.
    """

    def __init__(self, cname, fields, how="serde", base=None, dc=None, ns=None, hashable=None, order="sd",
                 cfg_de=None, uid=None, vals=None, lazy=None, kwafter=None, decls=None, **cfg):
        self.cname, self.own, self.how, self.base = cname, list(fields), how, base
        self.dc, self.ns, self.order, self.cfg, self.cfg_de = dc or {}, ns or {}, order, cfg, cfg_de
        self.decls = decls  # [("s" | "d" | "b", cfg)]: what is applied to the class one after another
        if decls is not None:
            auto = {"type_check": "disabled"}  # as generated for an undecorated dataclass
            self.how = "split"
            se, de = [next(((k, c) for k, c in reversed(decls) if k in (d, "b")), ("", auto)) for d in "sd"]
            self.cfg = dict(se[1], reuse_instances_default=se[1].get("reuse_instances_default", True)) if se[0] == "b" else dict(se[1])
            self.cfg_de = dict(de[1])
        self.uid = uid or cname
        self.tagname = cname
        self._cls = None
        self._vals = vals
        self._lazy = lazy
        self._memo = {}
        self.kwafter = kwafter  # position of a `_: KW_ONLY` marker
        self.hashable = bool(self.dc.get("frozen") or self.dc.get("unsafe_hash")) if hashable is None else hashable

    # ---- description
    def memo(self, k, fn):
        """A fact about the class, computed once when the class is built."""
        if self._cls is None:
            return fn()
        r = self._memo.get(k)
        if r is None:
            r = self._memo[k] = fn()
        return r

    @property
    def name(self):
        if self._lazy:
            return self.cname
        return self.memo("name", self.describe)

    def describe(self):
        fs = ",".join(f.key for f in self.own)
        cf = "".join(f";{k}={getattr(v, 'name', None) or getattr(v, '__name__', None) or v}" for k, v in sorted(self.cfg.items()))
        dd = "".join(f";{k}" for k in sorted(self.dc)) + ("" if self.kwafter is None else f";kw@{self.kwafter}")
        ex = "" if self.how == "serde" else "@" + self.how
        if self.decls is not None:
            ex = "@" + ",".join(f"{k}{sorted((n, getattr(v, 'name', None) or str(v)) for n, v in c.items())}" for k, c in self.decls)
        elif self.how == "split":
            ex += self.order + ("" if self.cfg_de is None else str(sorted(self.cfg_de.items())))
        ba = f"<{self.base.describe()}>" if self.base else ""
        return f"{self.cname}{ex}{ba}{{{fs}}}{cf}{dd}"

    @property
    def fields(self):
        """dataclass field order: inherited first, overridden in place."""
        return list(self.memo("fields", self._fields))

    def _fields(self):
        out = {}
        if self.base:
            for f in self.base.fields:
                out[f.fname] = f
        for f in self.own:
            out[f.fname] = f
        return list(out.values())

    @property
    def dfields(self):
        return list(self.memo("dfields", lambda: [f for f in self.fields if not f.initvar and not f.classvar]))

    # ---- configuration, per direction
    def c(self, k, direction="ser"):
        cfg = self.cfg if direction == "ser" or self.how != "split" or self.cfg_de is None else self.cfg_de
        if k in cfg:
            return cfg[k]
        if k == "reuse_instances_default" and direction == "ser" and self.how in ("split", "plain"):
            return False
        if k == "type_check" and self.how == "plain":
            return "disabled"
        return CLASS_DEFAULTS[k]

    @property
    def deny(self):
        return self.c("deny_unknown_fields", "de")

    # ---- building the real class
    def real_cfg(self, cfg, direction):
        import serde

        kw = {}
        for k, v in cfg.items():
            if k == "tagging":
                kw[k] = v.real()
            elif k == "type_check":
                kw[k] = {"strict": serde.strict, "coerce": serde.coerce, "disabled": serde.disabled}[v]
            elif k == "gconv":
                pass  # in effect globally
            elif k == "conv":
                from .convs import real_class_converters

                s, d = real_class_converters(v)
                if s is not None and direction in ("ser", "both"):
                    kw["class_serializer"] = s
                if d is not None and direction in ("de", "both"):
                    kw["class_deserializer"] = d
            elif k == "legacy":
                s, d = v
                if s is not None and direction in ("ser", "both"):
                    kw["serializer"] = s
                if d is not None and direction in ("de", "both"):
                    kw["deserializer"] = d
            elif k == "deny_unknown_fields":
                if direction != "ser":
                    kw[k] = v
            elif k == "serialize_class_var":
                if direction != "de":
                    kw[k] = v
            else:
                kw[k] = v
        return kw

    def py(self):
        if self._cls is None:
            self.build()
        return self._cls

    def build(self):
        import serde

        if self._lazy:
            self._lazy(self)
            assert self._cls is not None
            return
        bases = self.pybases()
        ann, ns = {}, dict(self.ns)
        ns["_mc_uid"] = self.uid
        declare = getattr(SPELL[0], "declare", None)
        params = getattr(self, "params", ())
        if declare and len({p.name for p in params}) == len(params):
            self.decorate(declare(self, [b for b in bases if typing.get_origin(b) is not typing.Generic], params, {"__module__": "mc_spelled", **ns}))
            return
        for n, f in enumerate(self.own):
            if n == self.kwafter:
                ann["_"] = dataclasses.KW_ONLY
            t = f.ty.py()
            if SPELL[0] is not None:
                t = SPELL[0](t, "InitVar" if f.initvar else "ClassVar" if f.classvar else None)
            elif f.initvar:
                t = dataclasses.InitVar[t]
            if f.classvar:
                t = typing.ClassVar[t] if SPELL[0] is None else t
                ns[f.fname] = f.default
                ann[f.fname] = t
                continue
            ann[f.fname] = t
            r = f.real()
            if r is not None:
                ns[f.fname] = r
        ns["__annotations__"] = ann
        ns.setdefault("__module__", "mc_generated" if SPELL[0] is None else "mc_spelled")
        self.decorate(types.new_class(self.cname, bases, {}, lambda d: d.update(ns)))

    def decorate(self, cls):
        import serde

        if self.how != "auto":
            cls = dataclasses.dataclass(**self.dc)(cls)
        self._cls = cls
        if self.how in ("serde", "auto"):
            cls = serde.serde(cls, **self.real_cfg(self.cfg, "both")) if not self.cfg else serde.serde(**self.real_cfg(self.cfg, "both"))(cls)
        elif self.decls is not None:
            for ch, cf in self.decls:
                kw = self.real_cfg(cf, {"s": "ser", "d": "de", "b": "both"}[ch])
                deco = {"s": serde.serialize, "d": serde.deserialize, "b": serde.serde}[ch]
                cls = deco(cls, **kw) if not kw else deco(**kw)(cls)
        elif self.how == "split":
            for ch in self.order:
                if ch == "s":
                    kw = self.real_cfg(self.cfg, "ser")
                    cls = serde.serialize(cls, **kw) if not kw else serde.serialize(**kw)(cls)
                else:
                    kw = self.real_cfg(self.cfg if self.cfg_de is None else self.cfg_de, "de")
                    cls = serde.deserialize(cls, **kw) if not kw else serde.deserialize(**kw)(cls)
        self._cls = cls
        REG[cls] = self

    def pybases(self):
        return (self.base.py(),) if self.base else ()

    def origin(self):
        return self.py()

    # ---- values
    def values(self):
        if self._vals is not None:
            return self._vals(self)
        cls = self.origin()
        fs = [f for f in self.fields if f.init and not f.classvar]
        if not fs:
            return [cls()]
        cols = [f.ty.values() for f in fs]
        n = max(len(c) for c in cols)
        return [cls(**{f.fname: c[i % len(c)] for f, c in zip(fs, cols)}) for i in range(n)]

    # ---- naming
    def wire(self, f, direction="ser"):
        if f.rename:
            return f.rename
        case = self.c("rename_all", direction)
        if case:
            return cased(case, f.fname)
        return f.fname

    def fdict(self, f):
        return f.flatten and isinstance(f.ty, (DictTy, BareTy))

    def fclass(self, f):
        if not f.flatten:
            return None
        t = f.ty.t if isinstance(f.ty, OptTy) else f.ty
        return t if isinstance(t, ClassTy) else None

    def known(self):
        """Keys an input mapping may use, excluding flattened dicts."""
        return self.memo("known", self._known)

    def _known(self):
        ks = set()
        if self.c("transparent", "de"):
            ch = self.the_field().ty
            return ch.known() if isinstance(ch, ClassTy) else ks
        for f in self.dfields:
            ch = self.fclass(f)
            if ch:
                ks |= ch.known()
            elif not self.fdict(f):
                ks.add(self.wire(f, "de"))
                ks |= set(f.alias or [])
        return ks

    def captures(self):
        if self.c("transparent", "de"):
            ch = self.the_field().ty
            return isinstance(ch, ClassTy) and ch.captures()
        return any(self.fdict(f) or (self.fclass(f) and self.fclass(f).captures()) for f in self.dfields)

    # ---- serialization
    def ctx(self, o, direction):
        reuse = o.reuse if o.reuse is not None else self.c("reuse_instances_default", direction)
        sets = o.sets if o.sets is not None else self.c("convert_sets_default")
        return replace(o, reuse=reuse, sets=sets, direct=False, mode=self.c("type_check", direction), tagging=self.c("tagging", direction),
                       conv=self.conv(direction))

    def conv(self, direction):
        own, glob = self.c("conv", direction), self.c("gconv", direction)
        return glob if own is None else own.over(glob)

    def the_field(self):
        return [f for f in self.dfields if f.init and not f.skip and not (f.skip_serializing and f.skip_deserializing)][0]

    def ser_field(self, f, v, o):
        if f.serializer == "default":
            return f.ty._ser(v, o)
        if f.serializer is not None:
            return f.serializer(v)
        lg = self.c("legacy")
        if lg and lg[0] and not (o.conv and o.conv.sers.get(_hk(f.ty))):
            import serde

            try:
                return lg[0](f.ty.py(), v)
            except serde.SerdeSkip:
                pass
        return f.ty.ser(v, o)

    def _ser(self, obj, o):
        me = REG.get(type(obj), self)
        if me is not self:
            return me._ser(obj, o)
        o = self.ctx(o, "ser")
        if self.c("transparent"):
            f = self.the_field()
            return self.ser_field(f, getattr(obj, f.fname), o)
        fs = list(self.dfields)
        if self.c("serialize_class_var"):
            fs += [f for f in self.fields if f.classvar]
        if not o.named:
            out = []
            for f in fs:
                if f.skip or f.skip_serializing:
                    continue
                r = self.ser_field(f, getattr(obj, f.fname), o)
                if self.fclass(f):
                    if r is None:
                        raise Unspec
                    out.extend(r)
                else:
                    out.append(r)
            return tuple(out)
        res, extra = {}, []
        for f in fs:
            if f.skip or f.skip_serializing:
                continue
            v = getattr(obj, f.fname)
            ch = self.fclass(f)
            if ch and v is None:
                continue
            r = self.ser_field(f, v, o)
            if ch:
                if not self.skipped(f, v, r, replace(o, skip_none=False)):
                    res.update(r)
            elif self.fdict(f):
                if not self.skipped(f, v, r, o):
                    extra.append(r)
            elif not self.skipped(f, v, r, o):
                res[self.wire(f)] = r
        for e in extra:
            for k, x in e.items():
                res.setdefault(k, x)
        return res

    def skipped(self, f, v, r, o):
        """The default is compared with the value itself, the other conditions look at what would be written."""
        sn = f.skip_if_none if f.skip_if_none is not None else self.c("skip_if_none")
        if r is None and (sn or o.skip_none):
            return True
        sd = f.skip_if_default if f.skip_if_default is not None else self.c("skip_if_default")
        if sd and f.has_default and v == f.get_default():
            return True
        if f.skip_if is not None:
            return bool(f.skip_if(r))  # overrides skip_if_false
        return bool(f.skip_if_false and not r)

    # ---- deserialization
    def de_field(self, f, d, o):
        if f.deserializer == "default":
            return f.ty._de(d, o)
        if f.deserializer is not None:
            try:
                return f.deserializer(d)
            except Exception:
                raise Reject("field deserializer failed") from None
        lg = self.c("legacy", "de")
        if lg and lg[1] and not (o.conv and o.conv.des.get(_hk(f.ty))):
            import serde

            try:
                return lg[1](f.ty.py(), d)
            except serde.SerdeSkip:
                pass
            except Exception:
                raise Reject("legacy deserializer failed") from None
        return f.ty.de(d, o)

    @property
    def constructor_checked(self):
        """The check of the constructor belongs to the class, whichever direction asked for it."""
        if self.decls is not None:
            return any(c.get("type_check", "strict") == "strict" for _, c in self.decls)
        return "strict" in (self.c("type_check"), self.c("type_check", "de"))

    def check(self, f, v, o):
        if o.mode != "strict" and self.constructor_checked and not f.ty.conf(v):
            raise Unspec  # rejected by the constructor, as far as that looks
        if o.mode == "strict" and not f.ty.conf(v):
            raise Reject(f"{f.fname}: {v!r} does not conform to {f.ty.name}")
        return v

    def _de(self, d, o):
        try:
            return self._read(d, self.ctx(o, "de"))
        except Misfit as e:  # checked by the constructor
            raise Reject(str(e)) from None

    def _read(self, d, o):
        kw = {}
        if self.c("transparent", "de"):
            f = self.the_field()
            kw[f.fname] = self.check(f, self.de_field(f, d, o), o)
            return self.make(kw)
        if d is None:
            raise Reject("None")
        rend = [f for f in self.dfields if f.init and not (f.skip or f.skip_deserializing)]
        if not o.named:
            if type(d) not in (list, tuple):
                raise Unspec
            if any(f.skip_serializing and not f.skip and not f.has_default for f in rend):
                raise Unspec  # not written, yet needed to construct the object
            i = 0
            for f in self.dfields:
                if f.skip or f.skip_serializing:
                    continue
                ch = self.fclass(f)
                w = ch.width() if ch else 1
                part = d[i:i + w] if ch else (d[i] if i < len(d) else MISSING)
                i += w
                if f in rend:
                    if part is MISSING:
                        if f.has_default:
                            raise Unspec
                        raise Reject("too short")
                    kw[f.fname] = self.check(f, self.de_field(f, part, o), o)
            return self.make(kw)
        if not isinstance(d, dict):
            raise Unspec
        known = self.known()
        own_fdict = any(self.fdict(f) for f in rend)
        if self.deny and not own_fdict and (set(d) - known):
            raise Reject("unknown fields")
        for f in rend:
            ch = self.fclass(f)
            if ch:
                keep_unknown = ch.captures() or not own_fdict
                sub = {k: v for k, v in d.items() if k in ch.known() or (keep_unknown and k not in known)}
                present = any(k in d for k in ch.known()) or (ch.captures() and bool(sub))
                if not present and f.has_default:
                    kw[f.fname] = f.get_default()
                elif not present and f.ty.optional:
                    kw[f.fname] = None
                else:
                    kw[f.fname] = ch.de(sub, o)
            elif self.fdict(f):
                kw[f.fname] = {k: v for k, v in d.items() if k not in known}
            else:
                key = next((k for k in [self.wire(f, "de"), *(f.alias or [])] if k in d), None)
                if key is not None:
                    kw[f.fname] = self.check(f, self.de_field(f, d[key], o), o)
                elif f.has_default:
                    pass  # the constructor supplies it
                elif f.ty.optional:
                    kw[f.fname] = None
                else:
                    raise Reject(f"missing {f.fname}")
        return self.make(kw)

    def make(self, kw):
        try:
            return self.origin()(**kw)
        except BaseException as e:
            raise UserRaised(e) from e

    def width(self):
        n = 0
        if self.c("transparent", "de"):
            ch = self.the_field().ty
            return ch.width() if isinstance(ch, ClassTy) else 1
        for f in self.dfields:
            if f.skip or f.skip_serializing:
                continue
            n += self.fclass(f).width() if self.fclass(f) else 1
        return n

    def conf(self, v):
        if not isinstance(v, self.origin()):
            return False
        if self.c("type_check", "de") != "strict":
            return True
        me = REG.get(type(v), self)
        return all(f.ty.conf(getattr(v, f.fname)) for f in me.dfields if hasattr(v, f.fname) and not f.deserializer)

    def parts(self):
        return tuple(f.ty for f in self.fields)


def zipvals(cols, mk):
    n = max(len(c) for c in cols)
    return [mk(c[i % len(c)] for c in cols) for i in range(n)]


# ------------------------------------------------------------------------------------------- atom instances
class Color(enum.Enum):
    R = "red"
    G = "green"


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Perm(enum.IntFlag):
    X = 1
    W = 2


class Plain(enum.Enum):
    A = 1
    B = 2


class Real(enum.Enum):
    H = 1.5
    Q = 0.25


class Bit(enum.Enum):
    T = True
    F = False


class Pair(enum.Enum):
    P = (1, "a")
    Q = (2, "b")


class Nested(enum.Enum):
    C = Color.R
    N = Num.TWO


class StrE(str, enum.Enum):
    U = "u"
    V = "v"


class FooStr(str):
    pass


class FooInt(int):
    pass


class FooFloat(float):
    pass


for _e in (Color, Num, Perm, Plain, Real, Bit, Pair, Nested, StrE, FooStr, FooInt, FooFloat):
    _e.__module__ = "mc.uni"

int_ = lambda: Prim(int, [3, 0])
float_ = lambda: Prim(float, [1.5, 0.0])
str_ = lambda: Prim(str, ["x", ""])
bool_ = lambda: Prim(bool, [True, False])
path_ = lambda: StrTy(pathlib.Path, ["/a/b", "c"])
ppath_ = lambda: StrTy(pathlib.PurePosixPath, ["/a/b"])
dec_ = lambda: StrTy(decimal.Decimal, ["1.10", "-3"])
uuid_ = lambda: StrTy(uuid.UUID, ["12345678-1234-5678-1234-567812345678", "00000000-0000-0000-0000-000000000000"])
ip4_ = lambda: StrTy(ipaddress.IPv4Address, ["127.0.0.1", "8.8.8.8"])
ip6_ = lambda: StrTy(ipaddress.IPv6Address, ["::1"])
net4_ = lambda: StrTy(ipaddress.IPv4Network, ["127.0.0.0/8"])
net6_ = lambda: StrTy(ipaddress.IPv6Network, ["::/64"])
if4_ = lambda: StrTy(ipaddress.IPv4Interface, ["192.168.1.1/24"])
if6_ = lambda: StrTy(ipaddress.IPv6Interface, ["::1/128"])
date_ = lambda: DtTy(dt.date, [dt.date(2021, 3, 4), dt.date(1, 1, 1)])
time_ = lambda: DtTy(dt.time, [dt.time(1, 2, 3, 4), dt.time(0, 0)])
datetime_ = lambda: DtTy(dt.datetime, [dt.datetime(2021, 3, 4, 5, 6, 7, 8), dt.datetime(2021, 3, 4, tzinfo=dt.timezone.utc)])
any_ = lambda: AnyTy()
none_ = lambda: NoneTy()


def enum_(cls):
    return lambda: EnumTy(cls, list(cls.__members__.values()))


color_, num_, plain_, real_, bit_, pair_, nested_, stre_ = map(enum_, (Color, Num, Plain, Real, Bit, Pair, Nested, StrE))
perm_ = lambda: EnumTy(Perm, [Perm.X, Perm.W, Perm.X | Perm.W])
lit_ = lambda: LitTy("a", 1, True)
lits_ = lambda: LitTy("r", "w+")
newint_ = lambda: NewTy("Id", int_())
newstr_ = lambda: NewTy("Nm", str_())
fstr_ = lambda: PrimSub(FooStr, ["fs"])
fint_ = lambda: PrimSub(FooInt, [5])
ffloat_ = lambda: PrimSub(FooFloat, [2.5])


def In(cname="In", how="serde", **kw):
    """A small nested class."""
    return ClassTy(cname, [F("i", int_()), F("s", str_())], how=how, **kw)


def Fz(cname="Fz", **kw):
    """A small frozen (hashable) nested class."""
    return ClassTy(cname, [F("i", int_())], dc={"frozen": True}, **kw)


SCALARS = {
    "int": int_, "float": float_, "str": str_, "bool": bool_,
}
LIBS = {
    "Path": path_, "PurePosixPath": ppath_, "Decimal": dec_, "UUID": uuid_, "IPv4Address": ip4_, "IPv6Address": ip6_,
    "IPv4Network": net4_, "IPv6Network": net6_, "IPv4Interface": if4_, "IPv6Interface": if6_,
    "date": date_, "time": time_, "datetime": datetime_,
}
ENUMS = {
    "Color": color_, "Num": num_, "Perm": perm_, "Plain": plain_, "Real": real_, "Bit": bit_, "Pair": pair_,
    "Nested": nested_, "StrE": stre_,
}
MISC = {"Lit": lit_, "LitS": lits_, "NewInt": newint_, "NewStr": newstr_}
CLASSES = {
    "In": In, "InPlain": lambda: In("InP", "plain"), "Fz": Fz,
}
ATOMS = {**SCALARS, **LIBS, **ENUMS, **MISC, **CLASSES}
REPS = {"int": int_, "Path": path_, "Color": color_, "In": In, "datetime": datetime_, "Fz": Fz, "float": float_}



def _fresh(prefix, t):
    """Class names are distinct within one type: same-named classes are explored by C14/C19 only."""
    used = {x.cname for x in t.walk() if isinstance(x, ClassTy)}
    return next(n for n in (prefix, prefix + "2", prefix + "3", prefix + "4") if n not in used)


UNARY = {
    "list": lambda t: Seq(t),
    "Sequence": lambda t: Seq(t, "Sequence"),
    "MutableSequence": lambda t: Seq(t, "MutableSequence"),
    "deque": lambda t: Seq(t, "deque"),
    "set": lambda t: SetTy(t),
    "frozenset": lambda t: SetTy(t, "frozenset"),
    "Set": lambda t: SetTy(t, "Set"),
    "MutableSet": lambda t: SetTy(t, "MutableSet"),
    "tuple1": lambda t: TupTy(t),
    "tuple2": lambda t: TupTy(int_(), t),
    "vtuple": lambda t: VarTup(t),
    "opt": lambda t: OptTy(t),
    "ornone": lambda t: OptTy(t, "|"),
    "dict": lambda t: DictTy(str_(), t),
    "Mapping": lambda t: DictTy(str_(), t, "Mapping"),
    "MutableMapping": lambda t: DictTy(str_(), t, "MutableMapping"),
    "defaultdict": lambda t: DictTy(str_(), t, "defaultdict"),
    "keydict": lambda t: DictTy(t, int_()),
    "Counter": lambda t: CounterTy(t),
    "cls": lambda t: ClassTy(_fresh("Box", t), [F("b", t)]),
    "plaincls": lambda t: ClassTy(_fresh("PBox", t), [F("b", t)], how="plain"),
}
NEEDS_HASH = {"set", "frozenset", "Set", "MutableSet", "keydict", "Counter"}


def apply(con, t):
    """Apply a constructor; None when the composition does not exist."""
    if con in NEEDS_HASH and not t.hashable:
        return None
    if con in ("opt", "ornone") and t.optional:
        return None
    if con in ("keydict", "Counter") and isinstance(t, (ClassTy, OptTy)):
        return None  # mapping keys that are classes are not representable as plain keys
    if con == "defaultdict" and isinstance(t, (OptTy, UnionTy, LitTy, AnyTy)):
        return None  # the value type is not callable, so it cannot be a default factory
    return UNARY[con](t)
