"""C30: the two directions of a class are declared independently."""
import itertools

from ..junk import fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c12 import mappings, put
from .c17 import table
from .c19 import SETTINGS as S19
from .c19 import body, cfg, dataclass_kw, x_y

RULE = ("every pair of settings (19) for serialize and deserialize of a class x every history of declarations (either first, one repeated, one missing, @serde and then one direction "
        "replaced, ...) x every place of the class (alone, field, list, union member, flattened, base of a decorated, of an undecorated and of a transparent class) x every order of first use; each "
        "direction must do what its own last declaration says, and nothing else: every value, both shapes, formats, every one-change datum of the data either direction knows")
BOUNDS = {"quick": "every pair of settings with 4 histories in 3 places, 12 histories and 5 places for every setting against a fixed other; families of three classes", "thorough": "every pair of settings with 12 histories in 11 places"}

SETTINGS = [k for k in S19 if k not in ("plain", "auto", "split")]


def HIST(a, b):
    return {
        "sd": [("s", a), ("d", b)], "ds": [("d", b), ("s", a)], "s": [("s", a)], "d": [("d", b)],
        "sds": [("s", a), ("d", b), ("s", a)], "dsd": [("d", b), ("s", a), ("d", b)], "ssdd": [("s", a), ("s", a), ("d", b), ("d", b)],
        "as bd": [("b", a), ("d", b)], "bd as": [("b", b), ("s", a)], "s'sd": [("s", b), ("s", a), ("d", b)], "d'ds": [("d", a), ("d", b), ("s", a)], "b b": [("b", b), ("b", a)],
    }


def known_directions(t, c, hist, sub):
    """Before any use, a class is what it was declared to be."""
    import serde

    dirs = {k for k, _ in hist}
    t.check(serde.is_serializable(c.py()) == bool(dirs & {"s", "b"}), sub + "is_serializable", "wrong answer", got=serde.is_serializable(c.py()))
    t.check(serde.is_deserializable(c.py()) == bool(dirs & {"d", "b"}), sub + "is_deserializable", "wrong answer", got=serde.is_deserializable(c.py()))


def write(t, c, objs, sub):
    for named, reuse in itertools.product((True, False), (None, False, True)):
        o = O(named=named, reuse=reuse)
        for n, x in enumerate(objs):
            exp = model(c.ser, x, o)
            if exp is None:
                continue
            s = api()
            got = t.call(s.to_dict if named else s.to_tuple, x, reuse_instances=reuse)
            t.state(c.name, named, reuse, canon(exp[1]) if exp[0] == "ok" else exp[0])
            compare_ser(t, f"{sub}write {named} {reuse} v{n} ", exp, got)


def read(t, c, data, sub, mut):
    s = api()
    for named in (True, False):
        cands = list(data[named])
        if mut and named:
            for base in data[named][:2]:
                if isinstance(base, dict):
                    cands += [m for _, m in mutations(base, ["3", 4, None])]
                    cands += [put(base, p, k, 1, front) for p in mappings(base) for k, front in (("unknown", True), ("my_int", False), ("myInt", False))]
        seen = set()
        for d in cands:
            k = canon(d)
            if k in seen:
                continue
            seen.add(k)
            exp = model(c.de, fresh(d), O(named=named))
            if exp is None:
                continue
            t.state(c.name, named, k)
            got = t.call(s.from_dict if named else s.from_tuple, c.py(), d)
            compare_de(t, f"{sub}read {named} {k}", c, exp, got, data=k)


def data_of(*classes):
    """What the classes write, in both shapes, according to the model."""
    out = {True: [], False: []}
    for c in classes:
        for named in out:
            for x in c.values()[:3]:
                e = model(c.ser, x, O(named=named, reuse=False))
                if e is not None and e[0] == "ok":
                    out[named].append(e[1])
    return out


def use(t, mk, hist, sub, mut=True, first=("w", "r")):
    """mk(decls) -> the class to use. Data: as its own direction writes it, as its own reader would have it written."""
    se, de = mk(hist), None
    last = next((c for k, c in reversed(hist) if k in "db"), {"type_check": "disabled"})
    twin = mk([("s", last), ("d", last)])
    data = data_of(se, twin)
    for f in first:
        c = mk(hist)
        objs = c.values()
        for step in f:
            if step == "w":
                write(t, c, objs, f"{sub}{f} ")
            else:
                read(t, c, data, f"{sub}{f} ", mut)


def ordinary(decls, pre="", xy=None, base=None, name="In", extra=()):
    return ClassTy(name, body(pre, xy) + list(extra), decls=decls, base=base)


def inner_of(kind):
    """The class whose two directions are declared, and how it is built."""
    if kind == "ordinary":
        return ordinary
    fields = {"date": lambda: date_(), "class": lambda: ClassTy("W", [F("w_a", int_()), F("w_b", OptTy(str_()))]), "list": lambda: Seq(int_()), "opt": lambda: OptTy(int_())}[kind]

    def mk(decls, pre="", xy=None, base=None, name="In", extra=()):
        return ClassTy(name, [F(pre + "my_f", fields())] + list(extra), decls=decls, base=base)
    return mk


def placed(place, kind="ordinary"):
    mk = inner_of(kind)

    def go(decls):
        if place == "top":
            return mk(decls)
        if place == "base":
            return ClassTy("D", [F("d_int", int_(), kw_only=True)], base=mk(decls))
        if place == "base of plain":
            return ClassTy("D", [F("d_int", int_(), kw_only=True)], base=mk(decls), how="plain")
        if place == "declared":
            return mk(decls, base=ClassTy("B", [F("b_int", int_())], rename_all="pascalcase"))
        xy = x_y() if kind == "ordinary" else None
        i = mk(decls, "i_", xy)
        fs = {"field": lambda: [F("c", i)], "list": lambda: [F("c", Seq(OptTy(i)))], "union": lambda: [F("c", Seq(UnionTy(str_(), i)))], "dict": lambda: [F("c", DictTy(str_(), i))],
              "flattened": lambda: [F("n", int_()), F("c", i, flatten=True), F("z", int_())], "transparent": lambda: [F("c", i)], "in split": lambda: [F("c", i), F("l", Seq(i))]}[place]()
        if place == "in split":
            return ClassTy("Out", fs, how="split", order="ds")
        return ClassTy("Out", fs, **({"transparent": True} if place == "transparent" else {}))
    return go


PLACES = ["top", "field", "list", "union", "dict", "flattened", "base", "base of plain", "declared", "transparent", "in split"]
FIRST = ["wr", "rw"]


def pair(a, b, hists, places, kind="ordinary", mut=True):
    def run(t):
        for h in hists:
            hist = HIST(cfg(a) if isinstance(a, str) else a, cfg(b) if isinstance(b, str) else b)[h]
            for p in places:
                if p == "top":
                    c = inner_of(kind)(hist)
                    known_directions(t, c, hist, f"{h} ")
                use(t, placed(p, kind), hist, f"{h} {p} ", mut and p in ("top", "flattened"), FIRST)
    return run


def transparent(a, b, hists, places):
    """Transparent in one direction, in both, in none, over each kind of field."""
    def run(t):
        for h in hists:
            for kind in ("date", "class", "list", "opt"):
                for p in places:
                    if p == "declared" or (p == "flattened" and kind != "class"):
                        continue
                    use(t, placed(p, kind), HIST(a, b)[h], f"{kind} {h} {p} ", p in ("top", "flattened"), FIRST)
    return run


def many(t):
    """Chains of classes each declared for another direction."""
    kinds = {"s": [("s", {"rename_all": "camelcase"})], "d": [("d", {"rename_all": "pascalcase"})], "sd": [("s", {}), ("d", {"rename_all": "kebabcase"})], "b": [("b", {})]}
    for a, b, c in itertools.product(kinds, repeat=3):
        def mk(_):
            x = ClassTy("C3", [F("x_int", int_()), F("x_date", date_())], decls=kinds[c])
            y = ClassTy("C2", [F("y_c", x), F("y_u", UnionTy(x, int_())), F("y_l", Seq(x))], decls=kinds[b])
            return ClassTy("C1", [F("z_c", y), F("z_d", DictTy(str_(), y)), F("z_x", OptTy(x))], decls=kinds[a])

        use(t, mk, kinds[a], f"{a} {b} {c} ", False, FIRST)
        # the inner classes are used before and after the outer one
        for order in itertools.permutations(range(3)):
            o = mk(None)
            cs = [o, o.fields[0].ty, o.fields[2].ty.t]
            for i in order:
                objs = cs[i].values()
                write(t, cs[i], objs[:2], f"{a} {b} {c} {order} ")
                read(t, cs[i], data_of(cs[i]), f"{a} {b} {c} {order} ", False)


def family(a, b):
    """A class, two classes derived from it, each declared in its own way: none of them takes anything from the others but its fields."""
    kinds = {"s": [("s", {"rename_all": "camelcase"})], "d": [("d", {"rename_all": "pascalcase"})], "sd": [("s", {}), ("d", {"rename_all": "kebabcase"})],
             "ds": [("d", {"deny_unknown_fields": True}), ("s", {"rename_all": "pascalcase"})], "b": [("b", {})]}

    def run(t):
        for c in kinds:
            def mk(_=None):
                base = ClassTy("B", [F("b_int", int_()), F("b_date", OptTy(date_()))], decls=kinds[a])
                s1 = ClassTy("S1", [F("s_int", Seq(int_()), kw_only=True)], decls=kinds[b], base=base)
                s2 = ClassTy("S2", [F("t_int", UnionTy(int_(), str_()), kw_only=True)], decls=kinds[c], base=base if a != b else s1)
                return [base, s1, s2]

            for order in itertools.permutations(range(3)):
                cs = mk()
                for x in cs:
                    x.py()
                for i in order:
                    x = cs[i]
                    known_directions(t, x, kinds[(a, b, c)[i]], f"{c} {order} {i} ")
                    write(t, x, x.values()[:4], f"{c} {order} {i} ")
                    read(t, x, data_of(*mk()), f"{c} {order} {i} ", i == order[-1])
    return run


def undecorated(t):
    """serialize and deserialize make a dataclass of a class which is not one, just as serde does."""
    import dataclasses

    import serde

    s = api()
    for decos in (("s",), ("d",), ("s", "d"), ("d", "s"), ("b",), ("s", "b"), ("b", "d")):
        for base in (None, "dc", "s", "d", "b", "plain"):
            B = None
            if base not in (None, "plain") and decos[0] != "b":
                continue  # only serde makes a dataclass of such a class
            if base:
                B = type("B", (), {"__annotations__": {"b": int}, "__module__": "mc_generated"})
                if base != "plain":
                    B = dataclasses.dataclass(B) if base == "dc" else {"s": serde.serialize, "d": serde.deserialize, "b": serde.serde}[base](B)
            C = type("C", (B,) if B else (), {"__annotations__": {"x": int}, "__module__": "mc_generated"})
            for d in decos:
                C = {"s": serde.serialize, "d": serde.deserialize, "b": serde.serde}[d](C)
            names = (["b"] if base and base != "plain" else []) + ["x"]
            sub = f"{decos} {base}"
            t.state("undecorated", sub)
            t.check([f.name for f in dataclasses.fields(C)] == names, sub, "wrong fields", got=[f.name for f in dataclasses.fields(C)])
            vals = dict(zip(names, (1, 2)))
            made = t.call(C, **vals)
            if not t.check(made[0] == "ok", sub, "cannot be constructed", got=desc(made)):
                continue
            got = t.call(s.to_dict, made[1])
            t.check(got == ("ok", vals), sub + " to", "wrong data", got=desc(got))
            got = t.call(s.from_dict, C, vals)
            t.check(got == ("ok", made[1]) and type(got[1]) is C, sub + " from", "wrong object", got=desc(got))


def cases(tier):
    th = tier == "thorough"
    hs = list(HIST({}, {}))
    for a, b in itertools.product(SETTINGS, repeat=2):
        if th:
            yield Case(f"pair {a} {b}", pair(a, b, hs, PLACES), timeout=300)
        else:
            yield Case(f"pair {a} {b}", pair(a, b, ["sd", "ds"], ["top"], mut=False))
    ps = PLACES if th else ["top", "field", "flattened", "base", "base of plain"]
    for a in SETTINGS:
        yield Case(f"hist ser {a}", pair(a, "kebab" if a != "kebab" else "camel", hs, ps, mut=th))
        yield Case(f"hist de {a}", pair("kebab" if a != "kebab" else "camel", a, hs, ps))
    tr = {"tr": {"transparent": True}, "none": {}, "trc": {"transparent": True, "rename_all": "camelcase"}, "deny": {"deny_unknown_fields": True}}
    for a, b in itertools.product(tr, repeat=2):
        if "tr" in a + b:
            for h in hs if th or (a, b) in (("tr", "none"), ("none", "tr"), ("tr", "tr")) else ("sd", "ds"):
                yield Case(f"transparent {a} {b} {h}", transparent(tr[a], tr[b], [h], PLACES))
    yield Case("many", many)
    for a, b in itertools.product(("s", "d", "sd", "ds", "b"), repeat=2):
        yield Case(f"family {a} {b}", family(a, b))
    yield Case("undecorated", undecorated)
