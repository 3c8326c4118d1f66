"""C32: names chosen by the user never collide with the library's own."""
import enum
import keyword
import sys
import types as _types

from ..gen import Gen, Inst, Var
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c08 import from_s, to_s
from .c19 import full

RULE = ("every identifier occurring in the code which the library generates for a set of classes with all features (gathered from the compiled code itself), the names of "
        "the user's own siblings with every decoration found there, and common builtins, as (a) the name of a field of every kind, alone and all of them together, (b) the name of a class, "
        "an enum, a NewType, a type variable in every place of a type, (c) the name of a field and of its class at once; all values, both shapes, formats, every one-change datum")
BOUNDS = {"quick": "one name at a time, and all together", "thorough": "also all builtins, every pair of 24 names, and names of two classes at once"}
ASSUMPTIONS = ["names that begin and end with two underscores are not claimed"]


def code_names(code):
    out = set(code.co_names) | set(code.co_varnames) | set(code.co_freevars) | set(code.co_cellvars)
    for c in code.co_consts:
        if isinstance(c, _types.CodeType):
            out |= code_names(c) | {c.co_name}
    return out


SEEN = set()
ON = [False]


def hook(event, args):
    if ON[0] and event == "exec" and isinstance(args[0], _types.CodeType) and sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "serde":
        SEEN.update(code_names(args[0]))


def features(name="my_val"):
    """Classes using everything, whose generated code is looked at."""
    import serde

    i = ClassTy("InN", [F("i_a", int_())])
    fz = ClassTy("FzN", [F("i_b", int_())], dc={"frozen": True})
    tys = [int_(), float_(), date_(), OptTy(i), Seq(i), SetTy(fz), TupTy(i, int_()), VarTup(i), DictTy(str_(), i), DictTy(str_(), Seq(int_()), "defaultdict"), CounterTy(str_()), UnionTy(i, fz),
           OptTy(UnionTy(int_(), str_())), EnumTy(Color), any_(), BareTy("list"), Seq(int_(), "deque"), SetTy(int_(), "frozenset"), LitTy(1, "a")]
    for cfg in ({}, {"type_check": "coerce"}, {"type_check": "disabled"}, {"deny_unknown_fields": True}, {"rename_all": "camelcase"}, {"tagging": INT}, {"tagging": ADJ}, {"tagging": UNT}):
        for ty in tys:
            for kw in ({}, {"default_factory": lambda ty=ty: ty.values()[0]}, {"alias": ["al_1"]}, {"skip_if_none": True, "kw_only": True}, {"skip_if": lambda v: False}, {"serializer": to_s, "deserializer": from_s}):
                if "serializer" in kw and not isinstance(ty, Prim):
                    continue
                ClassTy("CN", [F(name, ty, **kw)], **cfg).py()
        ClassTy("CN", [F(name, i, flatten=True), F("z", DictTy(str_(), any_()), flatten=True)], **cfg).py()
        ClassTy("CN", [F(name, i)], transparent=True, **{k: v for k, v in cfg.items() if k != "deny_unknown_fields"}).py()
        ClassTy("CN", [F(name, int_(), classvar=True, default=3), F("z", int_(), skip_deserializing=True, default=3)], serialize_class_var=True, **cfg).py()
    s = api()
    import typing
    u = typing.Union[int, str]
    s.to_dict(3, c=u)
    s.to_dict([i.py()(1)])
    s.from_dict(u, 3)


_names = []


def names():
    """Identifiers of the generated code."""
    if not _names:
        sys.addaudithook(hook)
        ON[0] = True
        features()
        ON[0] = False
        found = {n for n in SEEN if n.isidentifier() and not keyword.iskeyword(n) and not (n.startswith("__") and n.endswith("__")) and not n.startswith(("__beartype", "l_0_", "l_1_", "t_1", "__dataclass", "_dflt_"))}
        more = {"self", "cls", "obj", "data", "list", "dict", "int", "str", "type", "object", "field", "fields", "serde", "typing", "copy", "Any", "Optional", "Union", "match", "case", "_", "print", "id", "hash"}
        _names.extend(sorted(found | more))
    return [n for n in _names if "my_val" not in n], [n for n in _names if "my_val" in n]


def more_builtins():
    import builtins

    return [n for n in dir(builtins) if not n.startswith("_") and not keyword.iskeyword(n) and n not in names()[0]]


def kinds(nm, inner=None):
    inner = inner or (ClassTy("InN", [F("i_a", int_()), F("i_b", OptTy(str_()))]), ClassTy("FzN", [F("i_c", int_())], dc={"frozen": True}))
    i, fz = (lambda: inner[0]), (lambda: inner[1])
    z = lambda: F("zz", int_(), kw_only=True)  # noqa: E731
    return {
        "int": ([F(nm, int_()), z()], {}),
        "floatdef": ([F(nm, float_(), default=1.5), z()], {}),
        "opt": ([F(nm, OptTy(i())), z()], {}),
        "list": ([F(nm, Seq(i())), z()], {}),
        "tup": ([F(nm, TupTy(i(), SetTy(fz()))), z()], {}),
        "dict": ([F(nm, DictTy(str_(), Seq(int_())), default_factory=dict), z()], {}),
        "ddict": ([F(nm, DictTy(str_(), Seq(int_()), "defaultdict")), z()], {}),
        "union": ([F(nm, UnionTy(i(), fz())), F("vv", Seq(UnionTy(int_(), str_()))), z()], {}),
        "unt": ([F(nm, UnionTy(date_(), int_())), z()], {"tagging": UNT}),
        "date": ([F(nm, date_()), z()], {"reuse_instances_default": True}),
        "skipif": ([F(nm, OptTy(int_()), skip_if=lambda v: v == 3, default=None), z()], {}),
        "conv": ([F(nm, int_(), serializer=to_s, deserializer=from_s), z()], {}),
        "flat": ([F(nm, i(), flatten=True), z()], {}),
        "flatd": ([F("aa", int_()), F(nm, DictTy(str_(), any_()), flatten=True, default_factory=dict)], {}),
        "camel": ([F(nm, EnumTy(Color), default=Color.R if hasattr(Color, "R") else list(Color)[0]), z()], {"rename_all": "camelcase", "deny_unknown_fields": True}),
        "coerce": ([F(nm, Seq(int_())), z()], {"type_check": "coerce"}),
        "disabled": ([F(nm, Seq(i())), z()], {"type_check": "disabled"}),
        "transparent": ([F(nm, Seq(i()))], {"transparent": True}),
        "classvar": ([F(nm, int_(), classvar=True, default=3), z()], {"serialize_class_var": True}),
        "skipd": ([F(nm, int_(), skip_deserializing=True, default=3), z()], {}),
        "kw": ([z(), F(nm, OptTy(int_()), kw_only=True, default=None, alias=["al_1"])], {}),
    }


def usable(nm):
    return not nm.startswith("__") or not nm.endswith("__")


def field_named(nm):
    def run(t):
        for k, (fs, kw) in kinds(nm).items():
            if k == "camel" and len({ClassTy("C", fs, **kw).wire(f) for f in fs}) < 2:
                continue
            for outer in (False, True):
                c = ClassTy("C", kinds(nm)[k][0], **kinds(nm)[k][1])
                if outer:
                    c = ClassTy("Out", [F("o_c", OptTy(c)), F("o_l", Seq(c))])
                full(t, c, f"{k} {outer} ", fm=k in ("int", "list", "union"), mut=not outer)
    return run


def together(t):
    """All names in one class."""
    plain, deco = names()
    for k in ("int", "list", "union", "opt", "dict"):
        inner = (ClassTy("InN", [F("i_a", int_()), F("i_b", OptTy(str_()))]), ClassTy("FzN", [F("i_c", int_())], dc={"frozen": True}))
        fs = [kinds(n, inner)[k][0][0] for n in plain + deco + ["my_val"]]
        full(t, ClassTy("C", fs), k + " ", fm=k == "int", mut=k == "int")


def siblings(t):
    """A field and others named by everything the library derives from its name."""
    _, deco = names()
    for base in ("my_val", "x", "class_"):
        for d in deco:
            other = d.replace("my_val", base)
            if other == base:
                continue
            for k in kinds("q"):
                if k in ("transparent", "flatd"):
                    continue
                for order in (0, 1):
                    fs, kw = kinds(base)[k]
                    if kw.get("rename_all"):
                        kw = {}
                    fs = [F(f.fname, f.ty, f.default, f.default_factory, True, f.init, f.initvar, f.classvar, **f.opts) for f in fs]
                    for k2 in ("int", "floatdef", "conv", "skipif"):
                        g = kinds(other)[k2][0][0]
                        g.kw_only = True
                        full(t, ClassTy("C", [g, *fs] if order else [*fs, g], **kw), f"{base} {other} {k} {k2} {order} ", fm=False, mut=False)


def type_named(nm):
    """The same name for a class, an enum, a NewType, a type variable."""
    def run(t):
        import typing

        def inside(x, hashable, sub):
            tys = [x, Seq(x), OptTy(x), DictTy(str_(), x), TupTy(x, int_()), VarTup(x), UnionTy(x, ClassTy("OtherN", [F("o_a", date_())])), UnionTy(int_(), x) if isinstance(x, ClassTy) else Seq(x, "deque"), OptTy(Seq(x))]
            if hashable:
                tys += [SetTy(x), SetTy(x, "frozenset")]
            if not isinstance(x, ClassTy):
                tys += [DictTy(x, int_())]
            full(t, ClassTy("C", [F(f"f{j}", ty) for j, ty in enumerate(tys)]), sub + " ", fm=True)
            full(t, ClassTy("C", [F(nm, x), F("zz", Seq(x))]), sub + " same ", fm=False)
            for cfg in ({"type_check": "coerce"}, {"type_check": "disabled"}, {"tagging": UNT}, {"tagging": INT}):
                full(t, ClassTy("C", [F("a", x), F("b", UnionTy(x, ClassTy("OtherN", [F("o_a", date_())]))) if isinstance(x, ClassTy) else F("b", OptTy(x)), F("c", int_())], **cfg), f"{sub} {cfg} ", fm=False)

        inside(ClassTy(nm, [F("n_a", int_()), F("n_b", OptTy(date_()))], dc={"frozen": True}), True, "class")
        inside(ClassTy(nm, [F("n_a", int_()), F("n_b", OptTy(date_()))], how="plain"), False, "plain")
        full(t, ClassTy(nm, [F(nm, int_()), F("zz", ClassTy("InN", [F(nm, Seq(int_()))]))]), "own ", fm=True)
        full(t, ClassTy("D", [F("d", int_())], base=ClassTy(nm, [F("n_a", OptTy(int_()))])), "base ", fm=False)
        full(t, ClassTy("C", [F("f", ClassTy(nm, [F("n_a", int_())]), flatten=True), F("zz", int_())]), "flat ", fm=False)
        full(t, ClassTy("C", [F("f", ClassTy(nm, [F("n_a", date_())], transparent=True)), F("zz", int_())]), "transparent ", fm=False)
        e = enum.Enum(nm, {"A": 1, "B": "x"}, module="mc_generated")
        inside(EnumTy(e), True, "enum")
        inside(NewTy(nm, int_()), True, "newtype")
        v = Var(nm)
        g = Gen("GenN", [v], lambda v: [F("g_a", v), F("g_b", Seq(v))])
        for a in (int_(), date_(), ClassTy("InN", [F("i_a", int_())])):
            full(t, ClassTy("C", [F("a", g.at(a)), F("b", Seq(g.at(a)))]), f"var {a.name} ", fm=False)
        v = Var("T")
        g = Gen(nm, [v], lambda v: [F("g_a", v), F("g_b", OptTy(v))])
        full(t, ClassTy("C", [F("a", g.at(int_())), F("b", Seq(g.at(date_())))]), "generic ", fm=False)
    return run


def pair_named(a, b):
    def run(t):
        x = ClassTy(a, [F(b, int_())], dc={"frozen": True})
        y = ClassTy(b, [F(a, date_())], dc={"frozen": True})
        full(t, ClassTy("C", [F(a, x), F(b, y), F("u", UnionTy(x, y)), F("l", Seq(x)), F("s", SetTy(y)), F("o", OptTy(x))]), fm=False)
        for k in ("union", "conv", "ddict", "skipif", "flat"):
            f1, f2 = kinds(a)[k][0][0], kinds(b)["opt"][0][0]
            f1.kw_only = f2.kw_only = True
            full(t, ClassTy("C", [f1, f2]), k + " ", fm=False, mut=False)
    return run


def cases(tier):
    th = tier == "thorough"
    plain, deco = names()
    for n in plain + deco:
        yield Case(f"field {n}", field_named(n))
    for n in plain:
        yield Case(f"type {n}", type_named(n))
    yield Case("together", together, timeout=120)
    yield Case("siblings", siblings, timeout=300)
    if th:
        for n in more_builtins():
            yield Case(f"field {n}", field_named(n))
            yield Case(f"type {n}", type_named(n))
        few = plain[:: max(1, len(plain) // 24)]
        for a in few:
            for b in few:
                if a != b:
                    yield Case(f"pair {a} {b}", pair_named(a, b))
