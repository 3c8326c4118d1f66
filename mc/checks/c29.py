"""C29: non-string mapping keys survive formats that only have string keys."""
import typing

from ..gen import *  # noqa: F401,F403
from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import fint_, ffloat_, fstr_

RULE = ("every kind of mapping x every key type (int, float, their subclasses, 6 kinds of enums, the text-like and date-like library types, NewTypes of int, float, str and of such NewTypes) with boundary keys x every "
        "position of the mapping (value, key's sibling, inside every container up to the depth bound, nested classes of every kind, mappings of mappings, tagged unions, generics, "
        "flattening, transparent classes, inheritance, class options, converters, directly given types) x every format and both shapes: the value read equals the value written; and every key text of a list "
        "of valid and invalid texts is read as the model says")
BOUNDS = {"quick": "containers of depth 1 around every mapping, depth 2 around dict", "thorough": "containers of depth 2 around every mapping and mappings of mappings of all kinds; depth 3 around dict"}
ASSUMPTIONS = ["keys that the format's own library cannot write (None, tuples, nan in orjson) are out of the domain; boolean keys are not claimed"]


class Wide(enum.Enum):
    A = 1
    B = 10
    C = -1


class Zero(enum.IntEnum):
    Z = 0
    BIG = 2**40


class Lvl(float, enum.Enum):
    LO = 0.5
    HI = 2.0


class Txt(enum.StrEnum):
    ONE = "1"
    UP = "A"
    LOW = "a"


class Acc(enum.IntFlag):
    R = 4
    W = 2
    X = 1


for _c in (Wide, Zero, Lvl, Txt, Acc):
    _c.__module__ = "mc.checks.c29"

ints = lambda: Prim(int, [0, 1, -1, 10, 2**31, -(2**63), 2**63 - 1])  # noqa: E731
floats = lambda: Prim(float, [0.5, -0.0, 1.0, 1e300, 5e-324, 0.1, -2.5e-7])  # noqa: E731
specials = lambda: Prim(float, [float("inf"), float("-inf"), 1.0], name="specials")  # noqa: E731
bigints = lambda: Prim(int, [2**64, -(2**70), 7], name="bigints")  # noqa: E731

KEYS = {
    "int": ints, "float": floats, "specials": specials, "bigints": bigints, "str": lambda: Prim(str, ["", "1", "1.0", "true", "null", "x y", "ü:", "~", "no", "2020-01-01", "0x1", "-"]),
    "FooInt": fint_, "FooFloat": ffloat_, "FooStr": fstr_,
    "Color": color_, "Num": num_, "Perm": perm_, "Plain": plain_, "Real": real_, "StrE": stre_, "Wide": enum_(Wide), "Zero": enum_(Zero), "Lvl": enum_(Lvl), "Txt": enum_(Txt),
    "Acc": lambda: EnumTy(Acc, [Acc.R, Acc.W, Acc.X, Acc.R | Acc.X, Acc(0)]),
    **LIBS,
    "NewInt": lambda: NewTy("Id", ints()), "NewFloat": lambda: NewTy("Nf", floats()), "NewStr": newstr_,
    "NewNewInt": lambda: NewTy("Id2", NewTy("Id", ints())), "NewFooInt": lambda: NewTy("Ni3", fint_()), "NewFooFloat": lambda: NewTy("Nf3", ffloat_()), "NewNewFloat": lambda: NewTy("Nf2", NewTy("Nf", floats())),
}
MAPS = {"dict": None, "Mapping": None, "MutableMapping": None, "defaultdict": None, "Counter": None}
NESTABLE = ["list", "Sequence", "MutableSequence", "deque", "tuple1", "tuple2", "vtuple", "opt", "ornone", "dict", "Mapping", "MutableMapping", "defaultdict", "cls", "plaincls"]


def mapping(kind, k, v=None):
    return CounterTy(k) if kind == "Counter" else DictTy(k, v or int_(), kind)


def holder(x, **cfg):
    return ClassTy("C", [F("p", int_()), F("v", x), F("q", str_())], **cfg)


def usable(f, obj, exp):
    """The plain representation can be written by the format's own library, with distinct keys."""
    try:
        lib = f.dec(f.enc(exp))
    except Exception:  # noqa: BLE001
        return False

    def count(v):
        if isinstance(v, dict):
            return len(v) + sum(map(count, v.values()))
        return sum(map(count, v)) if isinstance(v, (list, tuple)) else 0

    return count(lib) == count(exp)


def exact(t, ty, vals=None, sub="", direct=False):
    """Written and read in every format: the very value comes back."""
    T_ = ty.py()
    for name, f in fmts().items():
        for n, obj in enumerate(vals or ty.values()):
            exp = model(ty.ser, obj, O(named=f.named, reuse=False, sets=True, direct=direct, skip_none=f.skip_default))
            if exp is None or exp[0] != "ok" or not usable(f, obj, exp[1]):
                t.outcome("unrepresentable:" + name)
                continue
            k = canon(obj)
            t.state(ty.name, sub, name, k)
            # a value given directly is written by what it is; its declared type is only needed to read
            got = t.call(f.write, obj)
            if got[0] == "err":
                t.fail(f"{sub}{name} v{n} write", "writer failed", got=desc(got), obj=k)
                continue
            back = t.call(f.read, T_, got[1])
            t.check(back[0] == "ok" and canon(back[1]) == k, f"{sub}{name} v{n}", "the value read differs from the value written", before=k, after=desc(back), text=repr(got[1])[:300])
            if back[0] == "ok":
                t.outcome(name)


TEXTS = ["0", "1", "-1", "10", "+1", " 1", "1 ", "1_0", "01", "1.0", "1.5", "0.25", "0.5", "1e3", "-0.0", "nan", "inf", "-Infinity", "true", "True", "null", "None", "", "x", "ONE", "red", "R", "RED", "Color.R", "Num.ONE", "4", "7", "8", "u", "U",
         "2020-01-01", "2020-13-01", "10:00", "/a", "1.1.1.1", "1.1.1.1/32", "::1", "12345678-1234-5678-1234-567812345678", "0x10", "９"]


def texts(t, kind, mk):
    """Every key text on its own and next to a valid one, in JSON, YAML and MsgPack."""
    for shape in ("field", "direct", "inlist"):
        m = mapping(kind, mk())
        ty = holder(m) if shape == "field" else Seq(m) if shape == "inlist" else m
        T_ = ty.py()
        for name, f in fmts().items():
            if not f.named or name == "pickle":
                continue
            good = model(m.ser, m.mk([(mk().values()[0], 5)]) if kind != "Counter" else collections.Counter({mk().values()[0]: 5}), O(reuse=False))
            for x in TEXTS:
                for d in ({x: 3}, {**(good[1] if good[0] == "ok" else {}), x: 3}):
                    try:
                        d = {"p": 1, "v": d, "q": ""} if shape == "field" else [d] if shape == "inlist" else d
                        text = f.enc(d)
                        d = f.dec(text)
                    except Exception:  # noqa: BLE001
                        continue
                    exp = model(ty.de, fresh(d), O(named=True, reuse=False, numbers=f.numbers))
                    if exp is None:
                        continue
                    if shape != "field" and exp[0] != "ok":
                        continue
                    t.state(ty.name, name, canon(d))
                    got = t.call(f.read, T_, text)
                    compare_de(t, f"{shape} {name} {canon(d)}", ty, exp, got, data=canon(d))


def places(kind, k):
    """Classes holding the mapping at unusual places."""
    m = lambda: mapping(kind, k())  # noqa: E731
    inner = lambda **kw: ClassTy("I", [F("m", m()), F("n", int_())], **kw)  # noqa: E731
    T1 = typing.TypeVar("T1")
    out = {
        "plainnest": lambda: holder(inner(how="plain")), "auto": lambda: holder(inner(how="auto")), "split": lambda: holder(inner(how="split")), "deep": lambda: holder(Seq(DictTy(k(), inner()))),
        "flat": lambda: ClassTy("C", [F("p", int_()), F("i", inner(), flatten=True)]), "flatopt": lambda: ClassTy("C", [F("p", int_()), F("i", OptTy(inner()), flatten=True)]),
        "trans": lambda: holder(ClassTy("T", [F("m", m())], transparent=True)), "transtop": lambda: ClassTy("T", [F("m", m())], transparent=True),
        "rename": lambda: ClassTy("C", [F("my_m", m(), alias=["o"]), F("b", m(), rename="B")], rename_all="camelcase"), "default": lambda: ClassTy("C", [F("o", OptTy(m()), default=None), F("l", Seq(m()), default_factory=list)]),
        "inherit": lambda: ClassTy("D", [F("y", m())], base=ClassTy("B", [F("x", m())])), "kw": lambda: ClassTy("C", [F("a", m(), kw_only=True), F("b", int_())]),
        "coerce": lambda: ClassTy("C", [F("a", m()), F("n", int_())], type_check="coerce"), "disabled": lambda: ClassTy("C", [F("a", m()), F("n", int_())], type_check="disabled"),
        "deny": lambda: ClassTy("C", [F("a", m()), F("i", inner(deny_unknown_fields=True))], deny_unknown_fields=True), "skip": lambda: ClassTy("C", [F("n", int_()), F("a", m(), default_factory=lambda: m().mk([]) if kind != "Counter" else collections.Counter())], skip_if_default=True),
        "reuse": lambda: holder(m(), reuse_instances_default=True),
        "union": lambda: holder(UnionTy(m(), int_())), "uclass": lambda: holder(UnionTy(inner(), ClassTy("J", [F("z", Seq(m()))]))), "uopt": lambda: holder(UnionTy(Seq(m()), int_(), none_())),
        "twokeys": lambda: holder(TupTy(m(), DictTy(str_(), int_()), m())),
        "gen": lambda: Inst(Gen("G", [Var("T1", T1)], lambda x: [F("m", mapping(kind, x))]), [k()]), "genlist": lambda: holder(Seq(Inst(Gen("G", [Var("T1", T1)], lambda x: [F("m", Seq(mapping(kind, x)))]), [k()]))),
    }
    for tg, tag in {"unt": UNT, "int": INT, "adj": ADJ}.items():
        out[f"u{tg}"] = lambda tag=tag: holder(UnionTy(inner(), ClassTy("J", [F("z", Seq(m()))])), tagging=tag)
    return out


def ok(con, t):
    if con == "defaultdict" and isinstance(t, (OptTy, UnionTy)):
        return None
    return apply(con, t)


def cases(tier):
    th = tier == "thorough"
    for kn, mk in KEYS.items():
        for kind in MAPS:
            yield Case(f"{kind} {kn}", lambda t, kind=kind, mk=mk: (exact(t, holder(mapping(kind, mk()))), fmt_paths(t, *(lambda c: (c, c.values()))(holder(mapping(kind, mk()))))))
            yield Case(f"direct {kind} {kn}", lambda t, kind=kind, mk=mk: exact(t, mapping(kind, mk()), direct=True))
            if kind in ("dict", "defaultdict", "Counter") or th:
                yield Case(f"text {kind} {kn}", lambda t, kind=kind, mk=mk: texts(t, kind, mk))
            for con in NESTABLE:
                if ok(con, mapping(kind, mk())) is None:
                    continue
                yield Case(f"{con}.{kind} {kn}", lambda t, con=con, kind=kind, mk=mk: exact(t, holder(ok(con, mapping(kind, mk())))))
                if th or kind == "dict":
                    yield Case(f"direct {con}.{kind} {kn}", lambda t, con=con, kind=kind, mk=mk: exact(t, ok(con, mapping(kind, mk())), direct=True))
            if kind != "Counter":
                for k2 in MAPS:
                    if th or kind == "dict" or k2 == kind:
                        yield Case(f"{kind}.{k2} {kn}", lambda t, kind=kind, k2=k2, mk=mk: exact(t, holder(DictTy(mk(), mapping(k2, mk()), kind))))
        for pn, p in places("dict", mk).items():
            yield Case(f"place {pn} {kn}", lambda t, p=p: exact(t, p()))
    reps = KEYS if th else ("int", "float", "Wide", "Zero", "Acc", "NewInt", "date", "Decimal")
    for kn in reps:
        for kind in MAPS:
            if kind == "dict":
                continue
            for pn, p in places(kind, KEYS[kn]).items():
                yield Case(f"place {pn} {kind} {kn}", lambda t, p=p: exact(t, p()))
        for c1 in NESTABLE:
            for c2 in NESTABLE:
                for kind in (MAPS if th else ("dict",)):
                    x = ok(c2, mapping(kind, KEYS[kn]()))
                    if x is None or ok(c1, x) is None:
                        continue
                    yield Case(f"{c1}.{c2}.{kind} {kn}", lambda t, c1=c1, c2=c2, kind=kind, kn=kn: exact(t, holder(ok(c1, ok(c2, mapping(kind, KEYS[kn]()))))))
                if th and kn in ("int", "Wide", "date"):
                    for c3 in NESTABLE:
                        x = ok(c3, mapping("dict", KEYS[kn]()))
                        x = x and ok(c2, x)
                        if x is None or ok(c1, x) is None:
                            continue
                        yield Case(f"{c1}.{c2}.{c3}.dict {kn}", lambda t, c1=c1, c2=c2, c3=c3, kn=kn: exact(t, holder(ok(c1, ok(c2, ok(c3, mapping("dict", KEYS[kn]())))))))
