"""C17: custom (de)serializers apply exactly where they are declared."""
from __future__ import annotations

import datetime
import decimal
import enum
import functools
import itertools
import pathlib
import uuid

from ..convs import converter_objects
from ..junk import SMALL
from ..lib import *  # noqa: F401,F403
from ..lib import api, compare_de, compare_ser, model
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import Conv
from .c04 import explore as mutate
from .c14 import in_child

RULE = ("(a) class-level converters of every handled type x every constructor around the type (to the depth bound) x surroundings (siblings of other types, "
        "nested class with no / another converter, converter declared only inside, one direction only, type checking modes, union members, mapping keys), "
        "(b) field converters, markers and legacy converters in every combination of levels, (c) every sequence of registrations, declarations and direct "
        "uses up to the depth bound, each executed in a forked process; every value is written, read back and read from mutated data and compared with a "
        "reference interpreter in which converters are an explicit table per class")
BOUNDS = {"quick": "constructor depth 1 everywhere and 2 for three handled types; histories of 3 operations",
          "thorough": "constructor depth 2 for all handled types; histories of 4 operations"}
ASSUMPTIONS = ["NewTypes and untyped values of a handled type, markers on container fields and legacy converters inside containers are not claimed"]


class Third:
    """A class the library knows nothing about."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o) is type(self) and o.x == self.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return f"Third({self.x!r})"

    def __getstate__(self):
        return {"x": self.x}


class ThirdTy(Ty):
    name = "Third"

    def py(self):
        return Third

    def values(self):
        return [Third(1), Third("q")]

    def _ser(self, v, o):
        raise OutOfDomain

    _de = _ser

    def conf(self, v):
        return isinstance(v, Third)


def conv_fns(mark):
    """type key -> (Ty factory, to, from); ``mark`` makes converters of different levels distinguishable."""
    def pre(to, back):
        def ser(v):
            return f"{mark}{to(v)}"

        def de(d):
            if not isinstance(d, str) or not d.startswith(mark):
                raise ValueError("not " + mark)
            return back(d[len(mark):])

        return ser, de

    return {
        "date": (date_, *pre(lambda v: v.strftime("%d/%m/%Y"), lambda d: datetime.datetime.strptime(d, "%d/%m/%Y").date())),
        "int": (int_, *pre(str, int)),
        "str": (str_, *pre(lambda v: v[::-1], lambda d: d[::-1])),
        "float": (float_, *pre(repr, float)),
        "bool": (bool_, *pre(lambda v: "yes" if v else "no", {"yes": True, "no": False}.__getitem__)),
        "Path": (path_, *pre(lambda v: "/".join(reversed(v.parts)), lambda d: type(path_().values()[0])(*reversed(d.split("/"))))),
        "Decimal": (dec_, *pre(lambda v: str(v), decimal.Decimal)),
        "datetime": (datetime_, *pre(lambda v: v.isoformat("_"), datetime.datetime.fromisoformat)),
        "Color": (color_, *pre(lambda v: v.name, lambda d: color_().py()[d])),
        "Num": (num_, *pre(lambda v: v.name, lambda d: num_().py()[d])),
        "Third": (ThirdTy, *pre(lambda v: f"{type(v.x).__name__}:{v.x}", lambda d: Third({"int": int, "str": str}[d.split(":")[0]](d.split(":")[1])))),
    }


def structured(mark):
    """Converters writing something else than text: (factory, ser, de)."""
    def de(d):
        if not isinstance(d, list) or d[:1] != [mark]:
            raise ValueError
        return datetime.date(*d[1:])

    return date_, lambda v: [mark, v.year, v.month, v.day], de


def table(keys, mark="A", ser=True, de=True):
    fns = conv_fns(mark)
    return Conv({fns[k][0]().py(): fns[k][1] for k in keys} if ser else {}, {fns[k][0]().py(): fns[k][2] for k in keys} if de else {}, name=mark)


OTHER = {"int": str_, "str": int_}
SHAPES = ("dict", "tuple")
OPTS_ = [(None, None), (True, False), (False, True)]


def full(t, c, sub="", limit=3, fmts_=("json", "msgpack"), rt=True, objs=None):
    objs = objs if objs is not None else c.values()
    roundtrip(t, c, objs, opts=OPTS_, rt=rt, sub=sub)
    fmt_paths(t, c, objs[:2], which={k: v for k, v in fmts().items() if k in fmts_}, sub=sub, fopts=[{}])


def around(mk, depth2):
    """Every type containing the handled type."""
    yield "", mk
    for con in UNARY:
        if apply(con, mk()) is None:
            continue
        yield con, lambda con=con: apply(con, mk())
        if depth2:
            for c2 in UNARY:
                if apply(c2, apply(con, mk())) is not None:
                    yield f"{c2}.{con}", lambda con=con, c2=c2: apply(c2, apply(con, mk()))
    oth = lambda: Fz("Ot")  # noqa: E731
    yield "union0", lambda: UnionTy(mk(), oth())
    yield "union1", lambda: UnionTy(oth(), mk(), NoneTy())
    yield "listunion", lambda: Seq(UnionTy(mk(), oth()))
    yield "tup3", lambda: TupTy(mk(), bool_() if mk().name != "bool" else none_(), mk())
    yield "deepkey", lambda: DictTy(str_(), DictTy(mk(), Seq(mk()))) if mk().hashable else None


def none_():
    return NoneTy()


def cases(tier):
    fns = conv_fns("A")
    # (a) the type everywhere in one class
    for k in fns:
        deep = tier == "thorough" or k in ("date", "Third")
        for con, mk in around(fns[k][0], deep):
            if mk() is None or k == "Third" and "cls" in con:
                continue

            def run(t, mk=mk, k=k):
                ty = mk()
                other = OTHER.get(k, int_)()
                for lv, conv, rt in (("both", table([k]), True), ("se", table([k], de=False), False), ("de", table([k], ser=False), False)):
                    if k == "Third" and lv != "both":
                        continue
                    for mode in ("strict", "coerce", "disabled"):
                        if mode != "strict" and lv != "both":
                            continue
                        c = ClassTy("C", [F("x", ty), F("y", other), F("z", fns[k][0]())], conv=conv, type_check=mode)
                        full(t, c, sub=f"{lv} {mode} ", rt=rt, fmts_=("json", "msgpack") if mode == "strict" else ())
                        if lv == "both" and mode == "strict":
                            mutate(t, c, SMALL, sub="mut ", shapes=SHAPES, limit=1)

            yield Case(f"class {con}({k})", run, timeout=120)

        def nested(t, k=k):
            mk = fns[k][0]
            others = OTHER.get(k, int_)
            A, B = table([k]), table([k], "B")
            kinds = {"A": {"conv": A}, "B": {"conv": B}, **({"none": {}, "plain": None} if k != "Third" else {})}
            for (ko, co), (ki, ci) in itertools.product(kinds.items(), kinds.items()):
                if co is None and ci is None:
                    continue
                inner = lambda n="I": ClassTy(n, [F("a", mk()), F("b", Seq(mk())), F("c", others())],  # noqa: E731
                                              how="plain" if ci is None else "serde", **(ci or {}))
                for wk, wrap in (("", lambda i: i), ("list", Seq), ("opt", OptTy), ("dict", lambda i: DictTy(str_(), i)), ("tup", lambda i: TupTy(i, mk())),
                                 ("union", lambda i: UnionTy(i, Fz("Ot")))):
                    c = ClassTy("Out", [F("i", wrap(inner())), F("v", mk()), F("w", OptTy(mk()))],
                                how="plain" if co is None else "serde", **(co or {}))
                    full(t, c, sub=f"{ko}>{ki} {wk} ", fmts_=("json",))
                if ci is not None and co is not None:
                    # flattened and inherited
                    c = ClassTy("Fl", [F("i", inner("J"), flatten=True), F("v", mk())], **co)
                    full(t, c, sub=f"{ko}>{ki} flat ", fmts_=("json",))
                    c = ClassTy("Sub", [F("v", mk()), F("w", Seq(mk()))], base=inner("K"), **co)
                    full(t, c, sub=f"{ko}>{ki} sub ", fmts_=("json",))

        yield Case(f"nested {k}", nested, timeout=120)

        def levels(t, k=k):
            """every combination of field, class and legacy converters of one type"""
            mk = fns[k][0]
            typ = mk().py()
            fs, fd = conv_fns("F")[k][1:]
            ls, ld = legacy({typ: conv_fns("L")[k][1:]})
            for fser, fde, cl, lg in itertools.product((None, "fn", "default"), (None, "fn", "default"), (None, "both", "se", "de"), (False, True)):
                if k == "Third" and (fser != fde or cl in ("se", "de") or "default" in (fser, fde)):
                    continue
                if k == "Third" and not cl:
                    continue
                opts = {}
                if fser:
                    opts["serializer"] = fs if fser == "fn" else "default"
                if fde:
                    opts["deserializer"] = fd if fde == "fn" else "default"
                cfg = {}
                if cl:
                    cfg["conv"] = table([k], "C", ser=cl != "de", de=cl != "se")
                if lg:
                    cfg["legacy"] = (ls, ld)
                sib = OTHER.get(k, int_)
                c = ClassTy("C", [F("x", mk(), **opts), F("y", mk()), F("s", sib()), F("d", mk(), default=mk().values()[-1], **opts)], **cfg)
                lab = f"field={fser}/{fde} class={cl} legacy={lg} "
                sees = [("f" if fser == "fn" else "b" if fser else "c" if cl in ("both", "se") else "l" if lg else "b")]
                dees = [("f" if fde == "fn" else "b" if fde else "c" if cl in ("both", "de") else "l" if lg else "b")]
                full(t, c, sub=lab, rt=False, fmts_=("json",))
                if sees == dees and (fser or fde or cl != "se" and cl != "de"):
                    roundtrip(t, c, c.values()[:2], opts=OPTS_[:1], rt=False, sub=lab + "rt ")
                mutate(t, c, SMALL, sub=lab, shapes=SHAPES, limit=1)
                # absent and null: only the default and Optional fields may be missing
                d = model(c.ser, c.values()[0], O())
                if d is not None and d[0] == "ok":
                    for drop in ("x", "y", "s", "d"):
                        dd = {a: b for a, b in d[1].items() if a != drop}
                        compare_de(t, f"{lab}without {drop}", c, model(c.de, dd, O()), t.call(api().from_dict, c.py(), dd))

        yield Case(f"levels {k}", levels, timeout=120)

    # several types in one converter, and a converter next to every other type
    def several(t):
        for a, b in itertools.combinations([k for k in fns if k != "Third"], 2):
            c = ClassTy("C", [F("x", fns[a][0]()), F("y", fns[b][0]()), F("l", Seq(fns[b][0]())), F("m", OptTy(fns[a][0]())),
                              F("n", DictTy(fns[a][0](), fns[b][0]()))], conv=table([a, b]))
            full(t, c, sub=f"{a}+{b} ", fmts_=("json", "msgpack"))
            c = ClassTy("C", [F("x", fns[a][0]()), F("y", fns[b][0]()), F("l", TupTy(fns[b][0](), fns[a][0]()))], conv=table([a]))
            full(t, c, sub=f"{a}|{b} ", fmts_=())

    yield Case("several", several, timeout=120)

    for nm, mk in ATOMS.items():
        def unaffected(t, mk=mk):
            """types that are not handled: equal to a class without converter"""
            for k in ("int", "str", "date", "float", "bool"):
                f = fns[k][0]
                u = mk()
                if any(x.py() is f().py() for x in u.walk() if not isinstance(x, (UnionTy, OptTy))) and not isinstance(u, ClassTy):
                    continue
                if nm.startswith("New"):
                    continue
                c = ClassTy("C", [F("x", u), F("k", f()), F("l", Seq(mk())), F("o", OptTy(mk()))], conv=table([k]))
                full(t, c, sub=f"{k} ", fmts_=("json",))
                mutate(t, c, SMALL, sub=f"{k} ", shapes=("dict",), limit=1)

        yield Case(f"unaffected {nm}", unaffected)

    def struct(t):
        mk, s_, d_ = structured("S")
        conv = Conv({datetime.date: s_}, {datetime.date: d_}, "S")
        for con, w in around(mk, False):
            if con in ("keydict", "Counter", "deepkey") or w() is None or any(isinstance(x, SetTy) for x in w().walk()):
                continue
            c = ClassTy("C", [F("x", w()), F("y", mk())], conv=conv)
            full(t, c, sub=f"{con} ")
            mutate(t, c, SMALL, sub=f"{con} ", shapes=SHAPES, limit=1)

    yield Case("structured result", struct)

    def whole(t):
        """the handled type is itself a class"""
        for how in ("serde", "plain"):
            for con in ["", *UNARY]:
                i = ClassTy("In", [F("a", int_()), F("s", str_(), default="x")], how=how, dc={"frozen": True})
                w = i if not con else apply(con, i)
                if w is None:
                    continue

                def ser(v):
                    return f"@{v.a}:{v.s}"

                def de(d, i=i):
                    if not d.startswith("@"):
                        raise ValueError
                    a, _, s = d[1:].partition(":")
                    return i.py()(int(a), s)

                conv = Conv({i.py(): ser}, {i.py(): de}, "W")
                c = ClassTy("C", [F("x", w), F("y", i), F("z", OptTy(i))], conv=conv)
                full(t, c, sub=f"{how} {con} ")
                mutate(t, c, SMALL, sub=f"{how} {con} ", shapes=SHAPES, limit=1)
                roundtrip(t, i, i.values(), sub=f"{how} {con} alone ")

    yield Case("class as handled type", whole)

    def legacy_types(t):
        """legacy converters handling a constructed type"""
        fs = {"opt": OptTy(date_()), "list": Seq(date_()), "dict": DictTy(str_(), date_()), "tup": TupTy(date_(), int_()), "In": In("LI")}
        for k, ty in fs.items():
            def ser(v):
                return ["L", canon(v)]

            keep = {}

            def ser(v, keep=keep):  # noqa: F811
                keep[canon(v)] = v
                return ["L", canon(v)]

            def de(d, keep=keep, opt=k == "opt"):
                if d is None and opt:
                    return None
                if not isinstance(d, list) or d[:1] != ["L"]:
                    raise ValueError
                return keep[d[1]]

            lg = legacy({ty.py(): (ser, de)})
            for extra in ({}, {"conv": table(["date"])}):
                for dflt in (False, True):
                    opt = {"default_factory": lambda ty=ty: ty.values()[0]} if dflt else {}
                    c = ClassTy("C", [F("i", int_()), F("x", ty, **opt)], legacy=lg, **extra)
                    full(t, c, sub=f"{k} {sorted(extra)} {dflt} ", rt=False)
                    for d in ({"i": 1}, {"i": 1, "x": None}, {"x": None}, {}):
                        compare_de(t, f"{k} {d} {dflt} {sorted(extra)}", c, model(c.de, d, O()), t.call(api().from_dict, c.py(), d))

    yield Case("legacy constructed", legacy_types)

    # (c) histories of registrations
    for h in histories(3 if tier == "quick" else 4, tier):
        yield Case("history " + " ".join("".join(x) for x in h), functools.partial(run_histories, hs=h))


def legacy(tab):
    import serde

    def ser(cls, v):
        if cls in tab:
            return tab[cls][0](v)
        raise serde.SerdeSkip()

    def de(cls, d):
        if cls in tab:
            return tab[cls][1](d)
        raise serde.SerdeSkip()

    return ser, de


OPS = ["RA", "RB", "RI", "SC", "DC", "D", "K", "U"]


def histories(depth, tier):
    """Batches of histories sharing their first operation(s)."""
    seqs = [h for n in range(1, depth + 1) for h in itertools.product(OPS, repeat=n) if n == 1 or any(x[0] in "RSD" and x != "D" for x in h)]
    groups = {}
    for h in seqs:
        groups.setdefault(h[:depth - 1], []).append(h)
    for g in groups.values():
        yield g


def run_histories(t, hs):
    for h in hs:
        lab = ".".join(h)
        t.state("history", lab)
        r = in_child(functools.partial(one_history, h))
        t.trans += len(h)
        if isinstance(r, tuple):
            t.fail(lab, "the history could not be executed", got=r)
            continue
        for sub, exp, got in r:
            t.check(exp == got, f"{lab}: {sub}", "differs from the reference", expected=exp, got=got)


def one_history(h):
    """RA/RB register a date converter, RI one of int, SC/DC only a serializer/deserializer of date, D declares a class, K one with own converters,
    U uses values given directly (also unions). Returns [(label, expected, got)]."""
    s = api()
    glob, out, classes = Conv(), [], []
    day = datetime.date(2020, 1, 2)

    def res(fn, *a, **k):
        try:
            return canon(fn(*a, **k))
        except Exception as e:  # noqa: BLE001
            return "err:" + type(e).__name__

    def mres(fn, *a):
        r = model(fn, *a)
        return canon(r[1]) if r[0] == "ok" else "err:SerdeError" if r[0] == "reject" else None

    def obs(sub, fn, mfn):
        e = mres(*mfn)
        if e is not None:
            out.append((sub, e, res(*fn)))

    def observe(n):
        for c in classes:
            for v in c.values()[:2]:
                obs(f"step{n} {c.cname} to_dict", (s.to_dict, v), (c.ser, v, O()))
                obs(f"step{n} {c.cname} to_tuple", (s.to_tuple, v), (c.ser, v, O(named=False)))
                for named, f in ((True, s.from_dict), (False, s.from_tuple)):
                    m = model(c.ser, v, O(named=named))
                    if m[0] == "ok":
                        obs(f"step{n} {c.cname} read named={named}", (f, c.py(), m[1]), (c.de, m[1], O(named=named)))
            for mark in ("A", "B", "K", ""):
                d = {"d": mark + day.strftime("%d/%m/%Y") if mark else day.isoformat()}
                for x in ({"i": 1}, {"i": "I1"}):
                    dd = {**d, **x, "l": [], "o": None, "u": "z", "k": {}, "j": []}
                    obs(f"step{n} {c.cname} from {canon(d)} {x}", (s.from_dict, c.py(), dd), (c.de, dd, O()))

    def direct(n):
        g = Conv(dict(glob.sers), dict(glob.des))
        for ty, vs in ((date_(), [day]), (Seq(date_()), [[day]]), (DictTy(str_(), date_()), [{"a": day}]), (OptTy(date_()), [None, day]),
                       (TupTy(int_(), date_()), [(1, day)]), (int_(), [5]), (Seq(int_()), [[5]]),
                       (UnionTy(date_(), int_()), [day, 5]), (UnionTy(date_(), str_()), [day, "x"]), (UnionTy(Fz("Uz"), date_()), [day])):
            for v in vs:
                o = O(direct=True, conv=g)
                arg = (v, ty.py()) if isinstance(ty, UnionTy) else (v,)
                m = model(ty.ser, v, o)
                if g.sers or isinstance(ty, UnionTy):
                    obs(f"step{n} direct {ty.name} to_dict {canon(v)}", (s.to_dict, *arg), (ty.ser, v, o))
                if m[0] == "ok":
                    obs(f"step{n} direct {ty.name} from_dict {canon(m[1])}", (s.from_dict, ty.py(), m[1]), (ty.de, m[1], o))

    for n, op in enumerate(h):
        if op in ("RA", "RB", "RI", "SC", "DC"):
            k = {"RI": ("int", "I")}.get(op, ("date", op[1] if op[0] == "R" else "S"))
            conv = table([k[0]], k[1], ser=op != "DC", de=op != "SC")
            a, b = converter_objects(conv)
            if a:
                s.add_serializer(a)
            if b:
                s.add_deserializer(b)
            glob = conv.over(glob)
        elif op in ("D", "K"):
            name = f"{op}{n}"
            inner = ClassTy("N" + name, [F("d", date_()), F("i", int_())], gconv=glob)
            kw = {"conv": table(["date"], "K")} if op == "K" else {}
            c = ClassTy(name, [F("d", date_()), F("l", Seq(date_())), F("i", int_()), F("o", OptTy(date_())), F("u", UnionTy(date_(), str_())),
                               F("k", DictTy(int_(), date_())), F("j", Seq(inner))], gconv=glob, **kw)
            inner.py(), c.py()
            classes.append(c)
        else:
            direct(n)
        observe(n)
    direct(len(h))
    return out
