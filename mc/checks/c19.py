"""C19: a class's settings affect that class only."""
import itertools

from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c04 import explore as mutate
from .c12 import mappings, put
from .c17 import table

RULE = ("every ordered pair of settings (18: renaming, tagging, type checking, skip conditions, denial, class variables, converters of both kinds, legacy converters, plain, "
        "undecorated, separate directions, ...) for two classes in every relation (field, list, Optional, dict, tuple, union member, flattened, both ways round a third class, base, "
        "derived, overriding, base as field of the derived class) x every order of declaring them; classes sensitive to every setting; every value, both shapes, formats, and every "
        "one-change datum and unknown key; two classes with the same name")
BOUNDS = {"quick": "pairs of settings in 6 relations; chains of three classes over 6 settings", "thorough": "pairs in 12 relations; chains of three over 18 settings"}


def st_(v):
    return "L" + str(v)


def legacy_ser(cls, v):
    import serde

    if cls is int:
        return f"L{v}"
    raise serde.SerdeSkip


def legacy_de(cls, v):
    import serde

    if cls is int and isinstance(v, str) and v.startswith("L"):
        return int(v[1:])
    if cls is int:
        raise ValueError("no mark")
    raise serde.SerdeSkip


SETTINGS = {
    "none": {}, "camel": {"rename_all": "camelcase"}, "kebab": {"rename_all": "kebabcase"}, "deny": {"deny_unknown_fields": True}, "coerce": {"type_check": "coerce"},
    "disabled": {"type_check": "disabled"}, "skn": {"skip_if_none": True}, "skd": {"skip_if_default": True}, "int": {"tagging": INT}, "adj": {"tagging": ADJ}, "unt": {"tagging": UNT},
    "cv": {"serialize_class_var": True}, "conv": {"conv": lambda: table(["date", "int"], "A")}, "conv2": {"conv": lambda: table(["date"], "B")}, "legacy": {"legacy": (legacy_ser, legacy_de)},
    "plain": {"how": "plain"}, "auto": {"how": "auto"}, "split": {"how": "split"}, "reuse": {"reuse_instances_default": False}, "sets": {"convert_sets_default": True},
}
TH = [False]
LEGAL = [k for k in SETTINGS if k not in ("reuse", "sets")]


def cfg(s):
    kw = dict(SETTINGS[s])
    if callable(kw.get("conv")):
        kw["conv"] = kw["conv"]()
    return kw


def x_y():
    return ClassTy("X", [F("p", int_())]), ClassTy("Y", [F("p", int_())])


def body(pre="", xy=None):
    x, y = xy or x_y()
    return [F(pre + "my_int", int_()), F(pre + "the_date", date_()), F(pre + "my_opt", OptTy(str_())), F(pre + "my_uni", UnionTy(x, y)), F(pre + "my_def", int_(), default=5),
            F(pre + "kvar", int_(), classvar=True, default=8)]


def mk(name, s, extra=(), base=None, pre="", xy=None, fields=None):
    return ClassTy(name, (body(pre, xy) if fields is None else fields) + list(extra), base=base, **cfg(s))


def full(t, c, sub="", objs=None, mut=True, fm=True):
    s = api()
    objs = objs if objs is not None else c.values()
    roundtrip(t, c, objs, opts=[(None, None), (False, True)], sub=sub)
    if fm:
        fmt_paths(t, c, objs[:1], which={k: v for k, v in fmts().items() if k in ("json", "msgpack-t")}, sub=sub, fopts=[{}])
    if mut:
        o = O(named=True, reuse=False, sets=True)
        base = model(c.ser, objs[0], o)
        if base is None or base[0] != "ok":
            return
        cands = []
        from ..junk import mutations

        cands += [m for _, m in mutations(base[1], ["3", 4, None])]
        cands += [put(base[1], p, k, 1, front) for p in mappings(base[1]) for k, front in (("unknown", True), ("my_int", False), ("myInt", False))]
        seen = set()
        for d in cands:
            k = canon(d)
            if k in seen:
                continue
            seen.add(k)
            exp = model(c.de, fresh(d), O(named=True))
            if exp is None:
                continue
            t.state(c.name, k)
            got = t.call(s.from_dict, c.py(), d)
            compare_de(t, f"{sub}{k}", c, exp, got, data=k)


RELS = {
    "field": lambda i: [F("c", i)], "list": lambda i: [F("c", Seq(i))], "opt": lambda i: [F("c", OptTy(i))], "dict": lambda i: [F("c", DictTy(str_(), i))], "tuple": lambda i: [F("c", TupTy(i, int_()))],
    "listopt": lambda i: [F("c", Seq(OptTy(i)))], "union": lambda i: [F("c", UnionTy(i, int_()))], "listunion": lambda i: [F("c", Seq(UnionTy(str_(), i)))], "two": lambda i: [F("c", i), F("d", i)],
}
QUICK = ["field", "listunion"]


def order(v):
    """required fields first"""
    return v


def contained(rel, so, si):
    def run(t):
        xy = x_y()
        i = mk("In", si, xy=xy)
        ex = [dataclass_kw(f) for f in RELS[rel](i)]
        full(t, mk("Out", so, ex, xy=xy), "out ")
        full(t, i, "in ", fm=False)
    return run


def dataclass_kw(f):
    f.kw_only = True
    return f


def transparent(so, si):
    """A transparent class around, and inside."""
    def run(t):
        i = mk("In", si)
        kw = cfg(so)
        if kw.get("how") in ("plain",):
            return
        tr = ClassTy("Tr", [F("w", i)], transparent=True, **kw)
        full(t, ClassTy("Out", [F("n", int_()), F("w", tr), F("l", Seq(tr))]), "tr ", fm=False)
        t2 = ClassTy("T2", [F("w", date_())], transparent=True, **kw)
        full(t, mk("Out", si, [dataclass_kw(F("w", t2)), dataclass_kw(F("l", Seq(t2)))]), "in ", fm=False, mut=False)
    return run


def flattened(so, si):
    def run(t):
        xy = x_y()
        i = mk("In", si, pre="i_", xy=xy)
        full(t, mk("Out", so, [dataclass_kw(F("w", i, flatten=True))], xy=xy), "flat ", fm=False)
    return run


def derived(sb, sd):
    def run(t):
        xy = x_y()
        b = mk("B", sb, xy=xy)
        d = mk("D", sd, [F("other_int", int_(), kw_only=True)], base=b, fields=[], xy=xy)
        d.py()
        full(t, d, "derived ")
        full(t, b, "base ", fm=False)
        h = ClassTy("H", [F("b", b), F("d", d), F("l", Seq(d))])
        full(t, h, "held ", fm=False, mut=TH[0])
        if sd != "plain":
            x = mk("D", sd, [F("my_def", int_(), default=6), F("the_b", OptTy(b), default=None, kw_only=True)], base=b, fields=[], xy=xy)
            full(t, x, "override ", fm=False)
        e = mk("E", sb, [F("e_int", int_(), default=1)], base=mk("D", sd, [F("d_int", int_(), default=2)], base=mk("B", sb, xy=xy), fields=[]), fields=[])
        full(t, e, "second ", fm=False, mut=TH[0])
    return run


def chain(a, b, c):
    def run(t):
        xy = x_y()
        i = mk("In", c, xy=xy)
        m = mk("Mid", b, [dataclass_kw(F("c", i))], xy=xy)
        o = mk("Out", a, [dataclass_kw(F("m", m)), dataclass_kw(F("i", Seq(i)))], xy=xy)
        full(t, o, fm=False)
    return run


def calls(t):
    """The settings for a call, and the defaults of the outermost class for them, hold at every depth."""
    for so, si in itertools.product(("none", "reuse", "sets"), repeat=2):
        i = mk("In", si, [dataclass_kw(F("s", SetTy(int_())))])
        o = mk("Out", so, [dataclass_kw(F("c", i)), dataclass_kw(F("s", SetTy(int_()))), dataclass_kw(F("l", Seq(i)))])
        for c in (o, i):
            roundtrip(t, c, c.values(), opts=[(r, s) for r in (None, True, False) for s in (None, True, False)], sub=f"{so}/{si} ")


def same_name(t):
    """Different classes with the same name, also as names of generated variables, side by side."""
    for name in ("In", "data", "cls", "obj", "list", "dict", "v", "k", "typing", "serde_scope", "float", "int", "str", "Literal", "coerce_object", "res", "Out", "fake_dict", "union_args", "X"):
        a = ClassTy(name, [F("p", int_())], uid="a" + name, dc={"frozen": True}, ns={"__module__": "mc_a"})
        b = ClassTy(name, [F("p", date_()), F("q", str_())], uid="b" + name, rename_all="pascalcase", dc={"frozen": True}, ns={"__module__": "mc_b"})
        e1 = mk_enum(name, {"A": 1, "B": 2})
        e2 = mk_enum(name, {"A": "x", "C": "y"})
        for n, tys in enumerate(([a, b], [b, a], [a, e1], [e1, e2], [e2, b], [a, b, e1, e2])):
            fs = [F(f"f{j}", ty) for j, ty in enumerate(tys)] + [F(f"l{j}", Seq(ty)) for j, ty in enumerate(tys)] + [F(f"o{j}", OptTy(ty)) for j, ty in enumerate(tys)] + [F(f"d{j}", DictTy(str_(), ty)) for j, ty in enumerate(tys)]
            c = ClassTy("Out", fs)
            full(t, c, f"{name} {n} ", fm=False)
            if all(isinstance(x, ClassTy) for x in tys):
                full(t, ClassTy("OutU", [F("u", UnionTy(tys[0], int_())), F("w", UnionTy(str_(), tys[1]))]), f"{name} {n} unions ", fm=False)
            h = ClassTy("Holder", [F("x", ClassTy("H1", [F("i", tys[0])])), F("y", ClassTy("H2", [F("i", tys[1])]))])
            full(t, h, f"{name} {n} apart ", fm=False)


def mk_enum(name, members):
    e = enum.Enum(name, members, module="mc_" + "".join(members))
    return EnumTy(e)


LATE = {
    "outer first": ("o", "i"), "inner first": ("i", "o"),
}


def late(so, si):
    """The contained class is a plain dataclass when the containing class is declared, and decorated or not later."""
    def run(t):
        import serde

        s = api()
        for when in ("never", "after", "after use"):
            i = mk("In", "plain")
            i.py()
            o = mk("Out", so, [dataclass_kw(F("c", i)), dataclass_kw(F("l", Seq(i)))])
            full(t, o, f"{when} before ", fm=False, mut=when == "after use")
            if when == "never":
                continue
            kw = cfg(si)
            if "how" in kw:
                continue
            cls = i.py()
            serde.serde(cls, **i.real_cfg(kw, "both"))
            i.how, i.cfg = "serde", kw
            i._memo.clear()
            full(t, i, f"{when} in ", fm=False)
            o2 = mk("Out2", so, [dataclass_kw(F("c", i)), dataclass_kw(F("l", Seq(i)))])
            full(t, o2, f"{when} new ", fm=False)
            full(t, o, f"{when} old ", fm=False)
    return run


def plain_untouched(t):
    """Using an undecorated dataclass adds no checks and no attributes that change how it behaves by itself."""
    s = api()
    for so in LEGAL:
        i = mk("In", "plain")
        cls = i.py()
        init, sig = cls.__init__, cls.__init__.__annotations__
        o = mk("Out", so, [dataclass_kw(F("c", i)), dataclass_kw(F("l", Seq(i)))])
        full(t, o, so + " ", fm=False)
        t.check(cls.__init__ is init and not getattr(init, "__wrapped__", None), f"{so} init", "the constructor of the undecorated class was replaced")
        got = t.call(cls, "not an int", 1, 2, 3)
        t.check(got[0] == "ok" and got[1].my_int == "not an int", f"{so} checks", "the undecorated class checks its arguments", got=desc(got))
        t.state(so)


def cases(tier):
    th = TH[0] = tier == "thorough"
    for so, si in itertools.product(LEGAL, repeat=2):
        for rel in (RELS if th else QUICK):
            yield Case(f"{rel} {so} {si}", contained(rel, so, si))
        yield Case(f"derived {so} {si}", derived(so, si))
        if not ({so, si} & {"plain"}):
            yield Case(f"flat {so} {si}", flattened(so, si))
        yield Case(f"transparent {so} {si}", transparent(so, si))
    for so in LEGAL if th else ("none", "camel", "deny", "coerce", "conv", "int", "skn"):
        for si in LEGAL:
            if si not in ("plain", "auto", "split") and so not in ("plain",):
                yield Case(f"late {so} {si}", late(so, si))
    six = LEGAL if th else ("none", "camel", "coerce", "conv", "adj", "plain")
    for a, b, c in itertools.product(six, repeat=3):
        yield Case(f"chain {a} {b} {c}", chain(a, b, c))
    yield Case("calls", calls)
    yield Case("same name", same_name, timeout=300)
    yield Case("plain", plain_untouched)
