"""C24: enums and literals accept exactly their members."""
import decimal

from ..junk import ATOMS as JUNK, SMALL, fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c04 import explore as mutate

RULE = ("(a) every enum over each pair (triple) of values from a pool of 26 values of all kinds (colliding across types, unhashable, nested enums, tuples) x base class kind "
        "x placement (field, containers, Optional, mapping key, union, default, transparent, direct) x type-check mode x every datum of the pool, the members "
        "themselves, their names and texts, in both shapes and every format; (b) every pair of Literal types over subsets of a pool of 20 colliding spellings, in one class, "
        "in nested classes and inherited, x every datum of the pool, plus placements and direct use: accepted iff a listed value of the same type")
BOUNDS = {"quick": "enums of 2 members; Literal types of up to 2 values, pairs of types over 8 curated groups",
          "thorough": "enums of 3 members; all pairs of Literal types of up to 2 values"}
ASSUMPTIONS = ["a numeric or boolean enum value rendered as text (as formats do for keys) may be accepted", "python's own 1 == True == 1.0 lookup may be used",
               "Literals of enum members and enums with two members of the same plain value are outside the domain"]


class Deep(enum.Enum):
    Z = Color.G


POOL = {
    "i1": 1, "i0": 0, "neg": -1, "big": 2**60, "T": True, "F": False, "f1": 1.5, "f0": -0.25, "s": "a", "S": "A", "e": "", "s1": "1", "sT": "true", "sN": "None", "N": None,
    "b": b"x", "t": (1, "a"), "t0": (), "tt": ((1, 2), "z"), "l": [1, 2], "d": {"k": 1}, "nR": Color.R, "nI": Num.TWO, "nD": Deep.Z, "dec": decimal.Decimal("1.10"),
    "date": dt.date(2021, 3, 4), "A_": "X0", "uni": "é\n\"'{{",
}


def listed(v):
    return [listed(x) for x in v] if isinstance(v, (list, tuple)) else v


class AnyEnum(EnumTy):
    """EnumTy that also identifies sequences that went through a format."""

    def __init__(self, cls, members=None):
        super().__init__(cls, members)
        self.name = cls.__name__ + "(" + ",".join(f"{canon(m.value)}" for m in self.members) + ")"

    @property
    def hashable(self):
        return True

    def _de(self, d, o):
        if isinstance(d, (list, tuple)):
            for m in self.members:
                p = self.plain(m)
                if isinstance(p, (list, tuple)) and same(listed(p), listed(d)):
                    return m
            raise Reject("no member")
        for m in self.members:  # an exact match wins, whatever the kind
            if same(self.plain(m), d) or m is d:
                return m
        return super()._de(d, o)


def bases():
    class Lower(enum.Enum):
        def __str__(self):
            return self.name.lower()

    class Eq(enum.Enum):
        __hash__ = enum.Enum.__hash__

        def __eq__(self, o):
            return o is self or o == self.value

    class Attr(enum.Enum):
        def __init__(self, *a):
            self.extra = a

        @property
        def shown(self):
            return 1

    return {"Enum": enum.Enum, "int": enum.IntEnum, "str": enum.StrEnum, "strmix": (str, enum.Enum), "intmix": (int, enum.Enum), "floatmix": (float, enum.Enum),
            "Lower": Lower, "Attr": Attr, "Flag": enum.Flag, "IntFlag": enum.IntFlag, "Eq": Eq}


def mk_enum(base, vals, name="E"):
    b = bases()[base]
    names = [(f"X{i}", v) for i, v in enumerate(vals)]
    if isinstance(b, tuple):
        meta = type("Meta", (), {})
        ns = enum.EnumMeta.__prepare__(name, b)
        for n, v in names:
            ns[n] = v
        e = enum.EnumMeta(name, b, ns)
    else:
        e = b(name, names)
    e.__module__ = "mc_generated"
    return e


def usable(base, vals):
    try:
        e = mk_enum(base, vals)
    except (TypeError, ValueError):
        return None
    ms = list(e)
    if len(ms) < len(vals) and base != "Enum":
        return None
    ps = [canon(listed(EnumTy.plain(m))) for m in ms]
    if len(set(ps)) < len(ps):
        return None
    return ms


PLACES = {
    "field": lambda e: e, "list": Seq, "vtuple": VarTup, "tuple": lambda e: TupTy(int_(), e), "dict": lambda e: DictTy(str_(), e), "deque": lambda e: Seq(e, "deque"),
    "defaultdict": lambda e: DictTy(str_(), e, "defaultdict"), "set": SetTy, "frozenset": lambda e: SetTy(e, "frozenset"), "key": lambda e: DictTy(e, int_()),
    "counter": CounterTy, "opt": OptTy, "nested": lambda e: ClassTy("Box", [F("b", e)]), "plain": lambda e: ClassTy("PB", [F("b", e), F("c", Seq(e))], how="plain"),
    "trans": lambda e: ClassTy("Tr", [F("b", e)], transparent=True), "union": lambda e: UnionTy(e, Seq(any_())), "keylist": lambda e: Seq(DictTy(e, Seq(e))),
    "default": None,
}


def holder(e, place, **cfg):
    if place == "default":
        return ClassTy("C", [F("p", int_()), F("v", e, default=e.members[-1]), F("w", Seq(e), default_factory=lambda: list(e.members))], **cfg)
    return ClassTy("C", [F("p", int_()), F("v", PLACES[place](e)), F("q", str_())], **cfg)


def fits(e, place):
    ps = [EnumTy.plain(m) for m in e.members]
    if place in ("key", "counter", "keylist", "set", "frozenset"):
        try:
            hash(tuple(ps))
        except TypeError:
            return False
    if place in ("key", "counter", "keylist") and any(isinstance(p, (tuple, type(None))) for p in ps):
        return False
    if place == "opt" and None in [p for p in ps if p is None]:
        return False
    if place == "union" and any(isinstance(p, (list, tuple)) for p in ps):
        return False
    return True


def texts(e):
    """Two members cannot be told apart as text keys."""
    ps = [str(EnumTy.plain(m)).lower() for m in e.members]
    return len(set(ps)) == len(ps)


def enum_case(t, base, vals, place, data, **cfg):
    s = api()
    e = AnyEnum(cls := mk_enum(base, vals))
    if base == "Flag" or base == "IntFlag":
        e = AnyEnum(cls, [*cls, cls.X0 | cls.X1] if len(list(cls)) > 1 else list(cls))
    if not fits(e, place):
        return
    c = holder(e, place, **cfg)
    c.py()
    objs = c.values()[:3]
    roundtrip(t, c, objs, ordered=False, opts=[(None, None), (False, True)])
    if place not in ("key", "counter", "keylist") or texts(e):
        fmt_paths(t, c, objs, fopts=[{}])
    if not data:
        return
    for named in (True, False):
        w = model(c.ser, objs[0], O(named=named, reuse=False, sets=True))
        if w is None or w[0] != "ok":
            continue
        i = 1
        cands = [*POOL.values(), *e.members, *[m.name for m in e.members], *[str(EnumTy.plain(m)) for m in e.members], *JUNK]
        for x in cands:
            if place == "field":
                d = {**w[1], "v": x} if named else (*w[1][:1], x, *w[1][2:])
            elif place in ("key", "counter"):
                try:
                    d = {**w[1], "v": {x: 1}} if named else (*w[1][:1], {x: 1}, *w[1][2:])
                except TypeError:
                    continue
            elif place in ("list", "opt"):
                v = [x] if place == "list" else x
                d = {**w[1], "v": v} if named else (*w[1][:1], v, *w[1][2:])
            else:
                return
            exp = model(c.de, d, O(named=named))
            if exp is None:
                continue
            t.state(c.name, named, canon(x))
            compare_de(t, f"{'dict' if named else 'tuple'} data {canon(x)}", c, exp, t.call(s.from_dict if named else s.from_tuple, c.py(), d), data=canon(d))


def enum_direct(t, base, vals):
    s = api()
    e = AnyEnum(mk_enum(base, vals))
    E = e.py()
    for m in e.members:
        p = EnumTy.plain(m)
        for fn in (s.to_dict, s.to_tuple):
            r = t.call(fn, m)
            t.check(r[0] == "ok" and (same(r[1], p) or r[1] is m), f"ser {m.name}", "not written as its value", got=desc(r))
        for fn in (s.from_dict, s.from_tuple):
            r = t.call(fn, E, p)
            t.check(r[0] == "ok" and r[1] is m, f"de {m.name}", "not read back to the identical member", got=desc(r))
    for x in [*POOL.values(), *[m.name for m in e.members], *JUNK]:
        exp = model(e.de, x, O())
        t.state(e.name, canon(x))
        for fn in (s.from_dict, s.from_tuple):
            compare_de(t, f"direct {canon(x)}", e, exp, t.call(fn, E, fresh(x)))


# ------------------------------------------------------------------------------------------------------- literals
LITS = {"i1": 1, "i0": 0, "neg": -1, "T": True, "F": False, "s1": "1", "sT": "True", "a": "a", "A": "A", "e": "", "ab": "a b", "a-b": "a-b", "a_b": "a_b", "b": b"a",
        "N": None, "sN": "None", "q": "a'b\"c\\", "j": "{{ x }}", "nl": "\n\t", "u": "é", "c": "1_int", "us": "_", "sn": "a_str", "comma": "a, b"}
GROUPS = [("i1", "T", "s1", "c"), ("i0", "F", "e", "us"), ("ab", "a-b", "a_b", "comma"), ("N", "sN", "e", "i0"), ("a", "A", "b", "sn"), ("q", "j", "nl", "u"),
          ("neg", "us", "i1", "a_b"), ("T", "sT", "F", "i1"), ("a_b", "sn", "a", "us")]
FOREIGN = [1.0, 0.0, 2, [], ["a"], {"a": 1}, (), (1,), "b", "x", "true", b"", "1.0", None, Color.R, Num.ONE, StrE.U]


def lit(ks):
    return LitTy(*[LITS[k] for k in ks])


def lit_sets(group, top=2):
    for r in range(1, top + 1):
        yield from itertools.permutations(group, r) if r == 2 else itertools.combinations(group, r)


def probe_lit(t, c, path, lt, named=True):
    """Every pool value at the position of a Literal field."""
    s = api()
    base = model(c.ser, c.values()[0], O(named=named, reuse=False, sets=True))[1]

    def put(d, p, x):
        if not p:
            return x
        if isinstance(d, dict):
            return {k: (put(v, p[1:], x) if k == p[0] else v) for k, v in d.items()}
        return type(d)(put(v, p[1:], x) if i == p[0] else v for i, v in enumerate(d))

    for x in [*LITS.values(), *FOREIGN]:
        d = put(base, path, x)
        exp = model(c.de, d, O(named=named))
        t.state(c.name, path, named, canon(x))
        compare_de(t, f"{path} {'dict' if named else 'tuple'} {canon(x)}", c, exp, t.call(s.from_dict if named else s.from_tuple, c.py(), d), data=canon(d))


def lit_pair(t, a, b):
    la, lb = lit(a), lit(b)
    c = ClassTy("C", [F("x", la), F("y", lb)])
    c.py()
    roundtrip(t, c, c.values(), opts=[(None, None)])
    for named in (True, False):
        probe_lit(t, c, ("x",) if named else (0,), la, named)
        probe_lit(t, c, ("y",) if named else (1,), lb, named)
    n = ClassTy("O", [F("x", lb), F("n", ClassTy("I", [F("x", la)]))])
    n.py()
    roundtrip(t, n, n.values(), opts=[(None, None)])
    probe_lit(t, n, ("x",), lb)
    probe_lit(t, n, ("n", "x"), la)
    d = ClassTy("D", [F("y", lb)], base=ClassTy("B", [F("x", la)]))
    d.py()
    probe_lit(t, d, ("x",), la)
    probe_lit(t, d, ("y",), lb)


def lit_place(t, ks, place, cfg):
    lt = lit(ks)
    if place == "opt" and None in lt.vals:
        return
    c = ClassTy("C", [F("p", int_()), F("v", {"key": lambda: DictTy(lt, int_()), "union": lambda: UnionTy(lt, Seq(int_())), "dict": lambda: DictTy(str_(), lt),
                                             "list": lambda: Seq(lt), "set": lambda: SetTy(lt), "opt": lambda: OptTy(lt), "tuple": lambda: TupTy(lt, lt),
                                             "trans": lambda: ClassTy("Tr", [F("b", lt)], transparent=True), "field": lambda: lt,
                                             "nested": lambda: ClassTy("Nn", [F("b", Seq(lt)), F("d", lt)])}[place]())], **cfg)
    c.py()
    roundtrip(t, c, c.values(), ordered=False, opts=[(None, None), (False, True)])
    if place != "key":
        fmt_paths(t, c, c.values(), fopts=[{}])
    mutate(t, c, [*LITS.values(), *FOREIGN], limit=1)
    s = api()
    for x in [*LITS.values(), *FOREIGN]:
        exp = model(lt.de, x, O())
        for fn in (s.from_dict, s.from_tuple):
            compare_de(t, f"direct {canon(x)}", lt, exp, t.call(fn, lt.py(), fresh(x)))


def cases(tier):
    th = tier == "thorough"
    names = list(POOL)
    for n in (1, 2) if not th else (1, 2, 3):
        for ks in itertools.combinations(names, n):
            vals = [POOL[k] for k in ks]
            if usable("Enum", vals) is None:
                continue
            yield Case("direct Enum " + "-".join(ks), lambda t, v=vals: enum_direct(t, "Enum", v))
            for place in PLACES if n == 1 else ("field", "key", "list") if not th else ("field", "key"):
                yield Case(f"Enum {place} " + "-".join(ks), lambda t, v=vals, p=place: enum_case(t, "Enum", v, p, p in ("field", "key", "list", "opt", "counter")))
    special = {"int": (3, 1), "str": ("x", "Y"), "strmix": ("x", "1"), "intmix": (1, 0), "floatmix": (1.5, 2.0), "Lower": ("R", "G"), "Attr": ((1, "a"), (2, "b")),
               "Flag": (1, 2), "IntFlag": (1, 2), "Eq": ("x", 2)}
    for base, vals in special.items():
        if base != "Flag":
            yield Case(f"direct {base}", lambda t, b=base, v=vals: enum_direct(t, b, v))
        for place in PLACES:
            for cn, cfg in {"": {}, "coerce": {"type_check": "coerce"}, "disabled": {"type_check": "disabled"}, "opts": {"rename_all": "pascalcase", "convert_sets_default": True}}.items():
                yield Case(f"{base} {place} {cn}", lambda t, b=base, v=vals, p=place, cfg=cfg: enum_case(t, b, v, p, p in ("field", "key", "list") and not cfg, **cfg))
    for ks in itertools.combinations(("i1", "T", "s1", "f1", "s", "nR", "nD", "t"), 2):
        vals = [POOL[k] for k in ks]
        if usable("Enum", vals) is None:
            continue
        for place in PLACES:
            for cn, cfg in {"coerce": {"type_check": "coerce"}, "disabled": {"type_check": "disabled"}, "": {}}.items():
                yield Case(f"Enum {place} {cn} " + "-".join(ks), lambda t, v=vals, p=place, cfg=cfg: enum_case(t, "Enum", v, p, not cfg, **cfg))
    for g in GROUPS:
        sets = list(lit_sets(g))
        for a, b in itertools.product(sets, repeat=2):
            yield Case(f"lits {a} {b}", lambda t, a=a, b=b: lit_pair(t, a, b))
    if th:
        sets = [*[(k,) for k in LITS], *itertools.combinations(LITS, 2)]
        for a, b in itertools.combinations(sets, 2):
            yield Case(f"lits2 {a} {b}", lambda t, a=a, b=b: lit_pair(t, a, b))
    for ks in [*[(k,) for k in LITS], *GROUPS]:
        for place in ("field", "list", "set", "dict", "key", "tuple", "opt", "trans", "nested", "union"):
            for cn, cfg in {"": {}, "coerce": {"type_check": "coerce"}, "disabled": {"type_check": "disabled"}}.items():
                yield Case(f"lit {place} {ks} {cn}", lambda t, ks=ks, p=place, cfg=cfg: lit_place(t, ks, p, cfg))
