"""C03: the serialized shape of every value is the documented one."""
from dataclasses import replace

from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import AnyTy, NoneTy
from . import c01

RULE = ("every type composition up to the bound as a field of an outer class, and inside a nested class with its own defaults; every "
        "(reuse_instances_default, convert_sets_default) of both classes x every call option in {absent, None, False, True}; dict with key "
        "order and tuple shape compared with the model")
BOUNDS = {"quick": "depth 1 over all atoms, depth 2 over 7 atoms; 16 class-default combinations x 9 call options",
          "thorough": "depth 2 over all atoms, depth 3 over 4 atoms; same options"}

CALL = [(r, s) for r in (None, False, True) for s in (None, False, True)]


class Holder:
    """Values for an Any field: one of each kind of object."""


def any_values():
    fz = Fz("AnyFz")
    inn = In("AnyIn", "plain")
    sets = ClassTy("AnySet", [F("s", SetTy(int_()))])
    vals = [1, True, 1.5, "s", None, [1, "a"], (1, "b"), {"k": 1.5}, [{"k": [None]}],
            pathlib.PurePosixPath("/a"), decimal.Decimal("1.5"), uuid.UUID(int=3), ipaddress.IPv4Address("1.2.3.4"),
            dt.date(2020, 1, 2), dt.datetime(2020, 1, 2, 3), dt.time(1, 2), Color.R, Num.TWO, Perm.X, Bit.F, StrE.U, Nested.C,
            [pathlib.PurePosixPath("/a"), Color.R], {"p": decimal.Decimal("2")}, {Color.R: 1}, {uuid.UUID(int=1): [Num.ONE]},
            (dt.date(2020, 1, 2), [Color.G]), collections.deque([1, Color.R]), collections.Counter({"a": 2}),
            collections.defaultdict(list, {"a": [Color.R]})]
    return [(repr(v), (lambda v=v: v)) for v in vals] + [
        (n, (lambda f=f: f())) for n, f in {
            "cls": lambda: fz.values()[0], "plain": lambda: inn.values()[0], "[cls]": lambda: fz.values(),
            "{k: cls}": lambda: {"k": inn.values()[0]}, "(cls, [cls])": lambda: (fz.values()[0], inn.values()),
            "cls-with-set": lambda: sets.values()[0], "deque[cls]": lambda: collections.deque(inn.values()),
            "opt": lambda: [None, inn.values()[0]],
        }.items()]


def cases(tier):
    for key, mk in c01.types(tier):
        if mk() is None:
            continue

        def run(t, mk=mk):
            c = ClassTy("C", [F("z", int_()), F("v", mk()), F("a", str_())])
            roundtrip(t, c, c.values(), opts=CALL, rt=False)

        yield Case(key, run)
    # class defaults of the outer and of the nested class
    small = ["int", "Path", "datetime", "Color", "UUID"]
    wrap = ["list", "set", "frozenset", "dict", "opt", "tuple2", "vtuple", "deque", "defaultdict"]
    B = (False, True)
    for n in small:
        for w in wrap if tier == "quick" else [x for x in UNARY if x not in ("cls", "plaincls")]:
            if apply(w, ATOMS[n]()) is None:
                continue
            for ro, so, ri, si in itertools.product(B, B, B, B):
                for how in ("serde", "split"):
                    def run(t, n=n, w=w, ro=ro, so=so, ri=ri, si=si, how=how):
                        inner = ClassTy("I", [F("x", apply(w, ATOMS[n]())), F("s", SetTy(int_()))], how=how,
                                        reuse_instances_default=ri, convert_sets_default=si)
                        c = ClassTy("C", [F("i", inner), F("li", Seq(inner)), F("d", DictTy(str_(), inner)), F("o", OptTy(inner)),
                                          F("v", apply(w, ATOMS[n]()))], how=how,
                                    reuse_instances_default=ro, convert_sets_default=so)
                        vs = c.values()
                        roundtrip(t, c, vs[:1] + vs[-1:], opts=CALL, rt=False)

                    yield Case(f"defaults {w}.{n} outer=({ro},{so}) inner=({ri},{si}) {how}", run)
    # untyped values
    for lab, mkv in any_values():
        for cname, wrapty in {"any": lambda: AnyTy(), "list": lambda: Seq(AnyTy()), "dict": lambda: DictTy(str_(), AnyTy()),
                              "opt": lambda: OptTy(AnyTy()), "tuple": lambda: TupTy(int_(), AnyTy())}.items():
            def run(t, mkv=mkv, wrapty=wrapty, cname=cname):
                v = mkv()
                ty = wrapty()
                val = {"any": v, "list": [v, v], "dict": {"k": v}, "opt": v, "tuple": (1, v)}[cname]
                c = ClassTy("C", [F("v", ty), F("q", int_())], vals=lambda me: [me.py()(v=val, q=1)])
                roundtrip(t, c, c.values(), opts=CALL, rt=False)

            yield Case(f"Any {cname} {lab}", run)
    # a class with no fields, one field, many fields in non alphabetical order, inherited order
    def many(t):
        base = ClassTy("Base", [F("z", int_()), F("y", str_()), F("x", path_(), default=None)])
        c = ClassTy("D", [F("m", int_(), default=3), F("y", str_(), default="o"), F("a", SetTy(int_()), default_factory=set)], base=base)
        v = c.py()(z=1, y="k", x=pathlib.Path("/q"))
        roundtrip(t, c, [v], opts=CALL, rt=False)
        e = ClassTy("E", [])
        roundtrip(t, e, [e.py()()], opts=CALL, rt=False)

    yield Case("field order with inheritance", many)
