"""C31: the spelling of an annotation does not matter."""
import contextlib
import importlib

from .. import uni
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..spell import MODES, spell
from ..uni import *  # noqa: F401,F403
from .c01 import types
from .c13 import direct, formats, has_union, junk

RULE = ("every type up to the depth bound written in fourteen ways: builtin names, typing's names, Union with None last, unions with repeated members, text, text with typing's "
        "names, quoted class names inside, PEP 695 aliases of every part, of the whole, of the leaves, of typing's names, in text, of aliases; as the type of a field "
        "(every value, option, format, every one-change datum) and given directly to the API; class statements of PEP 695 with their type parameters in brackets, also with postponed annotations; the classes of other checks (flattening, declarations, generics, recursion ...) "
        "with their annotations respelled; the outcome is the one of the reference model, which knows nothing about spelling")
BOUNDS = {"quick": "constructor depth 1 over all atoms, formats and changed data for alias, text and typing; flattening (C12) with aliases, histories of threads and declarations (C28) with aliases and text; generics (C18) as PEP 695 class statements",
          "thorough": "everything for all fourteen ways; twenty other checks with aliases and as text, ten of them with typing's names and quoted ones, six as PEP 695 class statements"}
ASSUMPTIONS = ["`None | X` with None first is handled as a tagged union (pinned by tests) and is not claimed", "recursive and generic PEP 695 aliases are not supported and not claimed",
               "aliases of None and Any alone are not claimed", "names of classes which are not dataclasses cannot be checked by beartype when quoted inside; only isinstance-able leaves are quoted"]
ALL = (6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 21, 22, 23, 24, 25, 27, 28, 29, 30)
SOME = (10, 11, 12, 17, 18, 22, 23, 25, 28, 30)
STATEMENT = (9, 12, 18, 19, 23, 30)
DIRECT = ("typing", "unionlast", "alias", "aliastop", "aliasleaf", "aliasalias")


@contextlib.contextmanager
def spelled(mode):
    uni.SPELL[0] = spell(mode)
    try:
        yield
    finally:
        uni.SPELL[0] = None


def both(t, mk, mode, deep):
    with spelled(mode):
        c = ClassTy("C", [F("p", int_()), F("v", mk()), F("q", str_())])
        c.py()
    objs = c.values()
    if not deep:
        roundtrip(t, c, objs, opts=((None, None), (False, True)))
        return
    roundtrip(t, c, objs, opts=((None, None), (False, True), (True, False)))
    fmt_paths(t, c, objs[:3], fopts=({},))
    s = api()
    seen = set()
    for x in objs[:2]:
        for named in (True, False):
            e = model(c.ser, x, O(named=named, reuse=False))
            if e is None or e[0] != "ok":
                continue
            for lab, d in mutations(e[1], SMALL):
                k = canon(d)
                if k in seen:
                    continue
                seen.add(k)
                exp = model(c.de, fresh(d), O(named=named))
                if exp is not None:
                    compare_de(t, f"junk {named} {lab}", c, exp, t.call(s.from_dict if named else s.from_tuple, c.py(), d), data=k)


class Spelled(Ty):
    """A type whose annotation is written otherwise."""

    def __init__(self, ty, mode):
        self.ty, self.name = ty, ty.name
        self.spelled = spell(mode)(ty.py())

    def py(self):
        return self.spelled

    def __getattr__(self, n):
        return getattr(self.ty, n)

    def values(self):
        return self.ty.values()

    def conf(self, v):
        return self.ty.conf(v)

    def ser(self, v, o):
        return self.ty.ser(v, o)

    def de(self, d, o):
        return self.ty.de(d, o)

    def parts(self):
        return self.ty.parts()


def given(t, ty, mode, deep):
    """The spelled type itself passed to the API."""
    ty = Spelled(ty, mode)
    direct(t, ty)
    if deep:
        formats(t, ty)
        junk(t, ty)


def cases(tier):
    th = tier == "thorough"
    for mode in MODES:
        for key, mk in types(tier):
            if mk() is None or key.count(".") > 1:
                continue
            yield Case(f"{mode} {key}", lambda t, mk=mk, mode=mode: both(t, mk, mode, th or mode in ("alias", "text", "typing")))
    for mode in DIRECT:
        for key, mk in types(tier):
            if mk() is None or key.count(".") > 1 or has_union(mk()):
                continue
            yield Case(f"given {mode} {key}", lambda t, mk=mk, mode=mode: given(t, mk(), mode, th))
    for n in ALL if th else (12, 18, 28):
        mod = importlib.import_module(f"mc.checks.c{n:02d}")
        modes = ("alias", "text", "typing", "quoted") if th and n in SOME else ("alias", "text") if th or n == 28 else ("alias",) if n != 18 else ()
        if n in STATEMENT if th else n == 18:
            modes += ("pep695", "pep695text")
        for mode in modes:
            for c in mod.cases("quick"):
                if mode == "pep695text" and n == 18 and "inherit" in c.key or mode in ("pep695", "pep695text") and "ident reuse_instances" in c.key:
                    continue  # beartype cannot resolve an inherited parameter; a field named __x is another one inside a class statement
                def run(t, c=c, mode=mode):
                    with spelled(mode):
                        c.fn(t)
                yield Case(f"also {mode} C{n:02d} {c.key}", run, timeout=c.timeout * 2)
