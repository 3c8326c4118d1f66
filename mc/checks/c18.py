"""C18: generic classes convert with the type arguments actually given."""
import itertools

from ..gen import Bound, Gen, Inst, Var
from ..junk import SMALL, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403

RULE = ("generic classes with one or two type variables over every field shape (the variable itself, in every container, as mapping key, in Optional, as the argument of "
        "another generic class, swapped, repeated, nested) x every type argument of the pool; derived classes that give, pass on, swap or rename the variables of their base; "
        "variables with the same name; fields of generic types in other classes and given directly; every value, every mutation of one part, every order of two different "
        "arguments for the same class; all formats")
BOUNDS = {"quick": "one variable: every shape x every argument; two variables: every pair of 9 shapes x 4 pairs of arguments; inheritance chains of 2",
          "thorough": "two variables: every pair of shapes x every pair of 8 arguments; inheritance chains of 3"}
ASSUMPTIONS = ["unions as type arguments and type variables inside unions are not claimed: the values are written without a tag"]

T, U, V = Var("T"), Var("U"), Var("V")
T2 = Var("T")  # another variable with the same name


def args():
    inn = lambda how="serde": ClassTy("In", [F("x", date_()), F("y", int_())], how=how)  # noqa: E731
    return {"int": int_, "str": str_, "float": float_, "bool": bool_, "date": date_, "Path": path_, "Dec": dec_, "Num": num_, "Color": color_, "In": inn, "Plain": lambda: inn("plain"),
            "frozen": lambda: ClassTy("Fz", [F("x", date_())], dc={"frozen": True}), "ren": lambda: ClassTy("Ren", [F("my_x", path_(), alias=["z"])], rename_all="camelcase", deny_unknown_fields=True),
            "list": lambda: Seq(date_()), "listIn": lambda: Seq(inn()), "opt": lambda: OptTy(inn()), "dict": lambda: DictTy(str_(), inn()), "idict": lambda: DictTy(int_(), date_()), "tup": lambda: TupTy(int_(), path_()),
            "lit": lit_, "any": any_, "NewT": lambda: NewTy("Nd", date_()), "FooInt": fint_, "set": lambda: SetTy(int_()), "fset": lambda: SetTy(date_(), "frozenset"),
            "gen": lambda: g1().at(inn()), "gen2": lambda: g2().at(date_(), inn())}


def g1():
    return Gen("G1", [V], lambda v: [F("v", v)])


def g2():
    a, b = Var("A"), Var("B")
    return Gen("G2", [a, b], lambda a, b: [F("a", a), F("b", Seq(b))])


def shapes():
    out = {"self": lambda x: x}
    for n in UNARY:
        if n not in ("cls", "plaincls", "Counter", "defaultdict"):
            out[n] = lambda x, n=n: UNARY[n](x)
    g, h = g1(), g2()
    gp = Gen("GP", [V], lambda v: [F("v", v)], how="plain")
    gt = Gen("GT", [V], lambda v: [F("v", Seq(v))], transparent=True)
    out.update({
        "G1": lambda x: g.at(x), "listG1": lambda x: Seq(g.at(x)), "G1list": lambda x: g.at(Seq(x)), "G1G1": lambda x: g.at(g.at(x)), "optG1": lambda x: OptTy(g.at(x)), "dictG1": lambda x: DictTy(str_(), g.at(x)),
        "G2same": lambda x: h.at(x, x), "G2l": lambda x: h.at(x, int_()), "G2r": lambda x: h.at(date_(), x), "listlist": lambda x: Seq(Seq(x)), "plainG": lambda x: gp.at(x), "transG": lambda x: gt.at(x),
        "G1raw": lambda x: g, "optlist": lambda x: OptTy(Seq(x)), "G1opt": lambda x: g.at(OptTy(x)), "G1dict": lambda x: g.at(DictTy(str_(), x)),
    })
    return out


NEEDS = {"set", "frozenset", "Set", "MutableSet", "keydict"}


def valid(shape, a):
    if shape in NEEDS and (not a.hashable or (shape == "keydict" and isinstance(a, (ClassTy, OptTy, TupTy, SetTy)))):
        return False
    if shape == "keydict" and a.name == "bool":
        return False  # documented: a boolean key is not restored from text
    if a.optional and "opt" in shape.lower() + ("ornone" if shape == "ornone" else ""):
        return False
    return not (a.optional and shape == "ornone")


def flat(ty):
    return any(isinstance(x, SetTy) for x in ty.walk())


def explore(t, ty, sub="", junk=False, fmt=True, wrap=True):
    """ty: a class of the model, generic with arguments or not."""
    s = api()
    objs = ty.values()
    P = ty.py()
    for named in (True, False):
        for n, obj in enumerate(objs):
            lab = f"{sub}{'dict' if named else 'tuple'} v{n}"
            before = canon(obj)
            exp = model(ty.ser, obj, O(named=named, reuse=False, sets=True))
            if exp is None or exp[0] != "ok":
                continue
            got = t.call(s.to_dict if named else s.to_tuple, obj, reuse_instances=False, convert_sets=True)
            t.state(ty.name, named, canon(exp[1]))
            compare_ser(t, lab + " ser", exp, got, obj=before)
            data = [exp[1]] + (list(mutations(exp[1], SMALL)) if junk else [])
            for d in data:
                de = model(ty.de, d, O(named=named, reuse=False))
                if de is None:
                    continue
                back = t.call(s.from_dict if named else s.from_tuple, P, fresh_(d), reuse_instances=False)
                compare_de(t, f"{lab} de {canon(d)}", ty, de, back, wire=canon(d))
            if exp[1] is not None and wrap:
                de = model(ty.de, exp[1], O(named=named, reuse=False))
                if de is not None and de[0] == "ok":  # given directly inside containers
                    for cn, typ, d, want in (("list", list[P], [exp[1]], [de[1]]), ("dict", dict[str, P], {"k": exp[1]}, {"k": de[1]}), ("opt", Optional[P], exp[1], de[1]), ("tuple", tuple[int, P], (1, exp[1]), (1, de[1]))):
                        back = t.call(s.from_dict if named else s.from_tuple, typ, fresh_(d), reuse_instances=False)
                        t.check(back[0] == "ok" and same(back[1], want), f"{lab} {cn}", "read differently inside a container", expected=canon(want), got=desc(back))
    if fmt:
        fmt_paths(t, ty, objs, sub=sub)


def fresh_(d):
    from ..junk import fresh

    return fresh(d)


def field(shape, sh, aname, mk, junk=True):
    def run(t):
        a = mk()
        C = Gen("C", [T], lambda x: [F("n", int_()), F("f", sh(x)), F("t", x)])
        explore(t, C.at(a), junk=junk)
        explore(t, C, "raw ", fmt=False, wrap=False) if False else None
        H = ClassTy("H", [F("c", C.at(a)), F("l", Seq(C.at(a))), F("o", OptTy(C.at(a)), default=None)])
        explore(t, H, "held ", wrap=False)
    return run


def two(s1, f1, s2, f2, pairs, params):
    def run(t):
        for a, b in pairs:
            a, b = a(), b()
            if not (valid(s1, a) and valid(s2, b)):
                continue
            C = Gen("C", params, lambda x, y: [F("p", f1(x)), F("q", f2(y)), F("x", x), F("y", y)])
            explore(t, C.at(a, b), fmt=False, wrap=False)
            if valid(s1, b) and valid(s2, a):
                explore(t, C.at(b, a), "swapped ", fmt=False, wrap=False)
                explore(t, C.at(a, b), "again ", fmt=False, wrap=False)
                h = g2()
                D = Gen("D", params, lambda x, y: [F("g", C.at(y, x)), F("h", h.at(y, C.at(x, x))), F("x", x)]) if valid(s2, a) else None
                explore(t, D.at(a, b), "within ", fmt=False, wrap=False)
    return run


def inherit(a, b, th):
    """Derived classes over a base with one or two variables."""
    pool = args()

    def run(t):
        A, B = pool[a](), pool[b]()
        b1 = lambda **kw: Gen("B1", [T], lambda x: [F("v", x), F("l", Seq(x))], **kw)  # noqa: E731
        b2 = lambda **kw: Gen("B2", [T, U], lambda x, y: [F("v", x), F("w", DictTy(str_(), y))], **kw)  # noqa: E731
        for bh in ("serde", "plain"):
            for dh in ("serde", "plain", "auto"):
                if dh == "auto" and bh == "auto":
                    continue
                mks = {
                    "concrete": lambda: Gen("D", [], lambda: [F("d", int_())], lambda: b1(how=bh).at(A), how=dh),
                    "concrete2": lambda: Gen("D", [], lambda: [F("d", int_())], lambda: b2(how=bh).at(A, B), how=dh),
                    "over": lambda: Gen("D", [], lambda: [F("v", path_())], lambda: b1(how=bh).at(A), how=dh),
                    "raw": lambda: Gen("D", [], lambda: [F("d", int_())], lambda: b1(how=bh), how=dh),
                }
                gens = {
                    "pass": (1, lambda: Gen("D", [T], lambda x: [F("d", x)], lambda x: b1(how=bh).at(x), how=dh)),
                    "rename": (1, lambda: Gen("D", [U], lambda x: [F("d", x)], lambda x: b1(how=bh).at(x), how=dh)),
                    "samename": (1, lambda: Gen("D", [T2], lambda x: [F("d", x)], lambda x: b1(how=bh).at(Seq(x)), how=dh)),
                    "fixed": (1, lambda: Gen("D", [T], lambda x: [F("d", x)], lambda x: b1(how=bh).at(date_()), how=dh)),
                    "shadow": (2, lambda: Gen("D", [U, T], lambda x, y: [F("d", y)], lambda x, y: b1(how=bh).at(x), how=dh)),
                    "shadow2": (2, lambda: Gen("D", [T2, T], lambda x, y: [F("d", y)], lambda x, y: b1(how=bh).at(x), how=dh)),
                    "swap": (2, lambda: Gen("D", [T, U], lambda x, y: [F("d", x)], lambda x, y: b2(how=bh).at(y, x), how=dh)),
                    "half": (1, lambda: Gen("D", [U], lambda x: [F("d", x)], lambda x: b2(how=bh).at(x, path_()), how=dh)),
                    "both": (1, lambda: Gen("D", [U], lambda x: [F("d", Seq(x))], lambda x: b2(how=bh).at(x, x), how=dh)),
                    "wrap": (1, lambda: Gen("D", [U], lambda x: [F("d", x)], lambda x: b1(how=bh).at(DictTy(str_(), x)), how=dh)),
                }
                for n, mk in mks.items():
                    explore(t, mk(), f"{n} {bh}/{dh} ", fmt=False)
                    explore(t, ClassTy("H", [F("d", Seq(mk()))]), f"held {n} {bh}/{dh} ", fmt=False, wrap=False)
                for n, (k, mk) in gens.items():
                    G = mk()
                    explore(t, G.at(*(A, B)[:k]), f"{n} {bh}/{dh} ", fmt=False)
                    explore(t, G.at(*(B, A)[:k]), f"{n} {bh}/{dh} other ", fmt=False)
                    E = Gen("E", [], lambda: [F("e", int_())], lambda: G.at(*(A, B)[:k]), how=dh)
                    explore(t, E, f"chain {n} {bh}/{dh} ", fmt=False, wrap=False)
                    if th:
                        X = Gen("X", [T], lambda x: [F("e", x)], lambda x: G.at(*(x, B)[:k]), how=dh)
                        explore(t, X.at(A), f"chainT {n} {bh}/{dh} ", fmt=False)
                        explore(t, Gen("Y", [], lambda: [], lambda: X.at(B), how=dh), f"chain3 {n} {bh}/{dh} ", fmt=False, wrap=False)
    return run


def options(t):
    """Options of a generic class and of its fields apply to fields with variables."""
    p = args()
    for an in ("In", "date", "int", "opt"):
        for cfg in ({"rename_all": "camelcase"}, {"deny_unknown_fields": True}, {"type_check": "coerce"}, {"type_check": "disabled"}, {"skip_if_none": True}, {"skip_if_default": True}, {"transparent": True}):
            mk = (lambda x: [F("my_f", x)]) if "transparent" in cfg else (lambda x: [F("my_f", x, alias=["z"]), F("my_l", Seq(x), default_factory=list), F("my_o", Seq(x) if an == "opt" else OptTy(x), **({"default_factory": list} if an == "opt" else {"default": None}))])
            explore(t, Gen("C", [T], mk, **cfg).at(p[an]()), f"{an} {sorted(cfg)} ")


def unions(t):
    """Generic classes as union members with an unambiguous other member."""
    p = args()
    for tg in (UNT,):
        for an in ("In", "date", "int", "list"):
            a = p[an]()
            g = g1()
            h = ClassTy("H", [F("u", UnionTy(g.at(a), int_())), F("v", Seq(UnionTy(str_(), g.at(a))))], tagging=tg)
            explore(t, h, f"{tg.name} {an} ", wrap=False)


def recursive(t):
    """A class that refers to itself with its own variable."""
    s = api()
    import sys
    import types as ty_

    for how in ("serde", "plain"):
        mod = ty_.ModuleType("mc_rec")
        sys.modules["mc_rec"] = mod
        src = f"""
from typing import *
import dataclasses, datetime, serde
T = TypeVar("T")
U = TypeVar("U")
@dataclasses.dataclass
class N(Generic[T]):
    v: T
    n: Optional["N[T]"] = None
    l: list["N[T]"] = dataclasses.field(default_factory=list)
@dataclasses.dataclass
class M(Generic[T, U]):
    a: T
    b: U
    m: Optional["M[U, T]"] = None
"""
        exec(src, mod.__dict__)  # noqa: S102
        d = dt.date(2020, 1, 2)
        i = [pathlib.Path("/a")]
        N, M = mod.N, mod.M
        if how == "serde":
            N, M = s.serde(N, type_check=s.disabled), s.serde(M, type_check=s.disabled)
        for T_, v, w in ((dt.date, d, "2020-01-02"), (list[pathlib.Path], i, ["/a"]), (int, 3, 3)):
            tree = N(v, N(v, None, [N(v)]), [N(v, N(v))])
            wire = lambda n: {"v": w, "n": n.n and wire(n.n), "l": [wire(x) for x in n.l]}  # noqa: E731
            got = t.call(s.to_dict, tree, reuse_instances=False)
            t.check(got[0] == "ok" and same(got[1], wire(tree)), f"{how} N ser {T_}", "written differently", got=desc(got))
            back = t.call(s.from_dict, N[T_], wire(tree), reuse_instances=False)
            t.check(back[0] == "ok" and same(back[1], tree), f"{how} N de {T_}", "read differently", got=desc(back))
            m = M(v, "s", M("s", v, M(v, "s")))
            back = t.call(s.from_dict, M[T_, str], {"a": w, "b": "s", "m": {"a": "s", "b": w, "m": {"a": w, "b": "s", "m": None}}}, reuse_instances=False)
            t.check(back[0] == "ok" and same(back[1], m), f"{how} M de {T_}", "read differently", got=desc(back))
            t.state(how, str(T_))


def pep695(t):
    """The same with the class syntax."""
    import sys
    import types as ty_

    s = api()
    mod = ty_.ModuleType("mc_695")
    sys.modules["mc_695"] = mod
    src = """
import dataclasses, datetime, serde
from typing import *
@serde.serde
class In:
    x: datetime.date
@serde.serde
class G[T]:
    v: T
@serde.serde
class H[T, U]:
    g: G[U]
    l: list[T]
    o: T | None
@serde.serde
class D[T](H[T, In]):
    d: T
@serde.serde
class E(D[datetime.date]):
    e: G[list[In]]
"""
    exec(src, mod.__dict__)  # noqa: S102
    d, i = dt.date(2020, 1, 2), mod.In(dt.date(2021, 1, 1))
    wd, wi = "2020-01-02", {"x": "2021-01-01"}
    for typ, obj, w in ((mod.G[mod.In], mod.G(i), {"v": wi}), (mod.H[mod.In, dt.date], mod.H(mod.G(d), [i], i), {"g": {"v": wd}, "l": [wi], "o": wi}),
                        (mod.H[dt.date, mod.In], mod.H(mod.G(i), [d], None), {"g": {"v": wi}, "l": [wd], "o": None}), (mod.D[dt.date], mod.D(mod.G(i), [d], d, d), {"g": {"v": wi}, "l": [wd], "o": wd, "d": wd}),
                        (mod.E, mod.E(mod.G(i), [d], d, d, mod.G([i])), {"g": {"v": wi}, "l": [wd], "o": wd, "d": wd, "e": {"v": [wi]}})):
        t.state(str(typ))
        got = t.call(s.to_dict, obj, reuse_instances=False)
        t.check(got[0] == "ok" and same(got[1], w), f"{typ} ser", "written differently", got=desc(got), expected=canon(w))
        back = t.call(s.from_dict, typ, fresh_(w), reuse_instances=False)
        t.check(back[0] == "ok" and same(back[1], obj), f"{typ} de", "read differently", got=desc(back), expected=canon(obj))


def cases(tier):
    th = tier == "thorough"
    ar, sh = args(), shapes()
    for sn, f in sh.items():
        for an, mk in ar.items():
            if valid(sn, mk()):
                yield Case(f"one {sn} {an}", field(sn, f, an, mk))
    prs = [("In", "date"), ("int", "In"), ("listIn", "Path"), ("opt", "gen")]
    if th:
        prs = list(itertools.combinations(["In", "date", "int", "listIn", "Path", "opt", "gen", "Plain"], 2))
    some = sh if th else {k: sh[k] for k in ("self", "list", "opt", "dict", "tuple2", "G1", "G1list", "G2same", "G1G1")}
    for s1, f1 in some.items():
        for s2, f2 in some.items():
            for pn, params in (("TU", (T, U)), ("TT", (T, T2))):
                yield Case(f"two {s1} {s2} {pn}", two(s1, f1, s2, f2, [(ar[a], ar[b]) for a, b in prs], params))
    for a, b in [("In", "date"), ("date", "Plain"), ("listIn", "int"), ("gen", "Path")] if not th else itertools.permutations(["In", "date", "int", "listIn", "Path", "gen", "Plain", "idict"], 2):
        yield Case(f"inherit {a} {b}", inherit(a, b, th))
    yield Case("options", options)
    yield Case("unions", unions)
    yield Case("recursive", recursive)
    yield Case("pep695", pep695)
