"""Other spellings of an annotation: the same type written with typing's names, as text, with quoted names, with unions written otherwise, through aliases."""
from __future__ import annotations

import collections
import collections.abc
import itertools
import sys
import types
import typing

MODULE = "mc_spelled"
MODES = ["builtin", "typing", "unionlast", "split", "text", "texttyping", "quoted", "quotedtyping", "alias", "aliastop", "aliasleaf", "aliastyping", "aliastext", "aliasalias"]

TYPING = {list: "List", dict: "Dict", set: "Set", frozenset: "FrozenSet", tuple: "Tuple", collections.defaultdict: "DefaultDict", collections.deque: "Deque",
          collections.Counter: "Counter", collections.abc.Sequence: "Sequence", collections.abc.MutableSequence: "MutableSequence", collections.abc.Set: "AbstractSet",
          collections.abc.MutableSet: "MutableSet", collections.abc.Mapping: "Mapping", collections.abc.MutableMapping: "MutableMapping"}
BUILTIN = {k: k.__name__ if k.__module__ == "builtins" else f"{k.__module__}.{k.__name__}" for k in TYPING}
_n = itertools.count()
_names: dict = {}


def module():
    m = sys.modules.get(MODULE)
    if m is None:
        m = sys.modules[MODULE] = types.ModuleType(MODULE)
        m.__dict__.update(typing=typing, collections=collections, Optional=typing.Optional, Union=typing.Union)
        import dataclasses

        m.InitVar, m.ClassVar, m.KW_ONLY = dataclasses.InitVar, typing.ClassVar, dataclasses.KW_ONLY
    return m


def name_of(leaf):
    """A name bound to the leaf in the module."""
    if leaf is None or leaf is type(None):
        return "None"
    if isinstance(leaf, type) and leaf.__module__ == "builtins":
        return leaf.__name__
    k = id(leaf)
    if k not in _names:
        n = f"N{next(_n)}"
        _names[k] = (n, leaf)
        setattr(module(), n, leaf)
    return _names[k][0]


def parse(t):
    o, a = typing.get_origin(t), typing.get_args(t)
    if o in (typing.Union, types.UnionType):
        return ("union", [parse(x) for x in a])
    if o in TYPING and a:
        return ("app", o, ["..." if x is Ellipsis else ("leaf", x) if x == () else parse(x) for x in a])
    if a and isinstance(o, type) and getattr(o, "__parameters__", None) and o.__module__ not in ("typing", "collections.abc"):
        return ("gen", o, [parse(x) for x in a])
    if o is None and t in TYPING:
        return ("bare", t)
    return ("leaf", t)


def has_var(n):
    return isinstance(n, tuple) and (isinstance(n[1], typing.TypeVar) if n[0] == "leaf" else any(has_var(x) for x in n[-1]) if n[0] != "bare" else False)


def text(n, mode, top=True):
    if n == "...":
        return n
    base, alias = mode, False
    if mode.startswith("alias"):
        base = {"aliastyping": "typing"}.get(mode, "builtin")
        alias = {"aliastop": top, "aliasleaf": n[0] == "leaf"}.get(mode, True) and n not in (("leaf", type(None)), ("leaf", typing.Any))
    typ = base.endswith("typing") and base != "quoted"
    kind = n[0]
    if kind == "leaf":
        s = name_of(n[1])
        if isinstance(n[1], typing.TypeVar):
            alias = False  # an alias with a variable in it would be a generic one
            if base.startswith("pep695"):
                s = n[1].__name__
        if base.startswith("quoted") and isinstance(n[1], type) and n[1] is not typing.Any and s != "None" and not top:
            s = repr(s)
    elif kind == "gen":
        s = f"{name_of(n[1])}[{', '.join(text(x, mode, False) for x in n[2])}]"
    elif kind == "bare":
        s = "typing." + TYPING[n[1]] if typ else BUILTIN[n[1]]
    elif kind == "app":
        args = ", ".join(text(x, mode, False) for x in n[2])
        s = f"{'typing.' + TYPING[n[1]] if typ else BUILTIN[n[1]]}[{args}]"
    else:
        args = [text(x, mode, False) for x in n[1]]
        rest = [a for a, x in zip(args, n[1]) if x != ("leaf", type(None))]
        opt = len(rest) < len(args)
        if base.startswith("quoted"):
            s = f"typing.Union[{', '.join(args)}]"
        elif typ:
            s = f"typing.Union[{', '.join(rest)}]" if len(rest) > 1 else rest[0]
            s = f"typing.Optional[{s}]" if opt else s
        elif base == "unionlast":
            s = f"typing.Union[{', '.join(rest + ['None'] * opt)}]"
        elif base == "split":
            s = " | ".join(rest)
            s = f"typing.Union[{rest[0]}, {s}, {'None | ' + rest[0] if opt else rest[-1]}]"
        else:
            s = " | ".join(args)
    if alias and has_var(n):
        alias = False
    for _ in range({"aliasalias": 2}.get(mode, 1) if alias else 0):
        a = f"A{next(_n)}"
        exec(f"type {a} = {s}", module().__dict__)
        s = a
    return s


def declare(mode, c, bases, params, ns):
    """The class statement of PEP 695, with annotations as text when `from __future__ import annotations` is in effect."""
    m = module()
    body = []

    def bind(v):
        n = f"D{next(_n)}"
        setattr(m, n, v)
        return n

    for k, f in enumerate(c.own):
        if k == c.kwafter:
            body.append("_: KW_ONLY")
        s = text(parse(f.ty.py()), mode)
        s = f"InitVar[{s}]" if f.initvar else f"ClassVar[{s}]" if f.classvar else s
        r = f.default if f.classvar else f.real()
        body.append(f"{f.fname}: {s}" + ("" if r is None and not f.classvar else f" = {bind(r)}"))
    body += [f"{k} = {bind(v)}" for k, v in ns.items() if k not in {f.fname for f in c.own}]
    if c.kwafter is not None and c.kwafter >= len(c.own):
        body.append("_: KW_ONLY")
    head = f"[{', '.join(p.name for p in params)}]" if params else ""
    base = ", ".join(text(parse(b), mode) for b in bases)
    src = f"class {c.cname}{head}({base}):\n" + "".join(f"    {x}\n" for x in body or ["pass"])
    if mode == "pep695text":
        src = "from __future__ import annotations\n" + src
    old = m.__dict__.get(c.cname, m)
    exec(compile(src, "<mc_spelled>", "exec", dont_inherit=True), m.__dict__)
    cls = m.__dict__[c.cname]
    if old is m:
        del m.__dict__[c.cname]
    else:
        m.__dict__[c.cname] = old
    return cls


def spell(mode):
    """annotation -> annotation in the given mode."""
    module()

    def go(t, wrap=None):
        s = text(parse(t), mode)
        if wrap:
            s = f"{wrap}[{s}]"
        if mode in ("text", "texttyping", "aliastext"):
            return s
        return eval(s, module().__dict__)

    if mode.startswith("pep695"):
        def plain(t, wrap=None):
            return getattr(module(), wrap)[t] if wrap else t

        plain.declare = lambda *a: declare(mode, *a)
        return plain
    return go
