"""C27: numeric leniency of JSON and YAML reaches every float and nothing else."""
from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import Conv, ffloat_, fint_
from .c08 import from_s, to_s

RULE = ("every type composition up to the bound around each float-like and each other scalar, in fields and given directly to the reader, surroundings (classes of every "
        "kind, flattening, transparent, unions, inheritance, class options, converters) x every scalar position of the data x every source scalar (24 numeric, "
        "numeric-text, boolean, null and other scalars) x JSON (both libraries) and YAML x the flag default, on and off, and the formats without the flag")
BOUNDS = {"quick": "constructor depth 2 for float, 1 for other scalars", "thorough": "constructor depth 3 for float, 2 for others"}
ASSUMPTIONS = ["a float that is itself a member of a union is matched by its exact type (a union of int and float must keep them apart)"]

SRC = [0, 1, -7, 2**53 + 1, 10**400, True, False, None, 1.5, -0.0, 1e300, "1", "1.5", "-2e3", "1e-3", " 4 ", "1_0", "nan", "-inf", "0x10", "", "x", "true", [], {}]
FLOATS = {"float": float_, "FooFloat": ffloat_, "NewFloat": lambda: NewTy("Nf", float_())}
OTHERS = {"int": int_, "str": str_, "bool": bool_, "Decimal": dec_, "Real": real_, "Num": num_, "Lit": lit_, "any": any_, "FooInt": fint_, "Path": path_, "date": date_, "NewInt": newint_}


def leaves(d, path=()):
    if isinstance(d, dict):
        for k in d:
            yield from leaves(d[k], path + (k,))
    elif isinstance(d, (list, tuple)):
        for i, x in enumerate(d):
            yield from leaves(x, path + (i,))
    else:
        yield path


def at(d, p):
    for k in p:
        d = d[k]
    return d


def put(d, p, x):
    if not p:
        return x
    if isinstance(d, dict):
        return {k: (put(v, p[1:], x) if k == p[0] else v) for k, v in d.items()}
    return type(d)(put(v, p[1:], x) if i == p[0] else v for i, v in enumerate(d))


def explore(t, ty, limit=1, direct=False, floats=False):
    """``floats``: only the floats of the data are replaced, and only where the leniency applies
    (values given directly, without a class around, are otherwise converted by their constructor).

    ty: the type read; every scalar of the text of its values replaced by every source scalar."""
    T_ = ty.py()
    for name, f in fmts().items():
        if not f.named:
            continue
        seen = set()
        n = 0
        for v in ty.values():
            w = model(ty.ser, v, O(named=True, reuse=False, sets=True, direct=direct))
            if w is None or w[0] != "ok":
                continue
            try:
                lib = f.dec(f.enc(w[1]))
            except Exception:  # noqa: BLE001
                continue
            n += 1
            if n > limit:
                break
            cands = [lib]
            ps = [p for p in leaves(lib) if not floats or type(at(lib, p)) is float]
            for p in ps:
                cands += [put(lib, p, x) for x in SRC]
            for x in SRC[:1] + SRC[5:6] + SRC[12:13]:  # several positions at once
                d = lib
                for p in ps:
                    d = put(d, p, x)
                cands.append(d)
            for d in cands:
                try:
                    text = f.enc(d)
                    d = f.dec(text)
                except Exception:  # noqa: BLE001
                    continue
                k = canon(d)
                if k in seen:
                    continue
                seen.add(k)
                modes = [({}, f.numbers), ({"coerce_numbers": True}, f.numbers), ({"coerce_numbers": False}, None)] if f.numbers else [({}, None)]
                if floats:
                    modes = [m for m in modes if m[1]]
                for kw, numbers in modes:
                    exp = model(ty.de, fresh(d), O(named=True, reuse=False, numbers=numbers))
                    if exp is None:
                        continue
                    t.state(ty.name, name, str(kw), k)
                    compare_de(t, f"{name} {kw} {k}", ty, exp, t.call(f.read, T_, text, **kw), data=k)


def holder(x, **cfg):
    return ClassTy("C", [F("p", int_()), F("v", x), F("q", float_())], **cfg)


def surroundings():
    f = float_
    inner = lambda **kw: ClassTy("I", [F("x", f()), F("n", int_()), F("s", str_())], **kw)  # noqa: E731
    out = {
        "nested": lambda: holder(inner()), "plain": lambda: holder(inner(how="plain")), "auto": lambda: holder(inner(how="auto")), "split": lambda: holder(inner(how="split")),
        "deep": lambda: holder(ClassTy("M", [F("i", inner()), F("l", Seq(inner()))])), "flat": lambda: ClassTy("C", [F("p", f()), F("i", inner(), flatten=True)]),
        "flatopt": lambda: ClassTy("C", [F("p", f()), F("i", OptTy(inner()), flatten=True)]), "flatdict": lambda: ClassTy("C", [F("p", f()), F("r", DictTy(str_(), any_()), flatten=True)]),
        "trans": lambda: holder(ClassTy("T", [F("x", f())], transparent=True)), "translist": lambda: holder(ClassTy("T", [F("x", Seq(f()))], transparent=True)),
        "rename": lambda: ClassTy("C", [F("my_f", f(), alias=["o"]), F("b", f(), rename="B")], rename_all="camelcase"), "default": lambda: ClassTy("C", [F("a", f(), default=2.5), F("o", OptTy(f()), default=None), F("l", Seq(f()), default_factory=list)]),
        "inherit": lambda: ClassTy("D", [F("y", f())], base=ClassTy("B", [F("x", f()), F("n", int_())])), "kw": lambda: ClassTy("C", [F("a", f(), kw_only=True), F("b", int_())]),
        "coerce": lambda: ClassTy("C", [F("a", f()), F("n", int_()), F("s", str_())], type_check="coerce"), "disabled": lambda: ClassTy("C", [F("a", f()), F("n", int_()), F("l", Seq(f()))], type_check="disabled"),
        "ulist": lambda: holder(UnionTy(Seq(f()), str_())), "udict": lambda: holder(UnionTy(DictTy(str_(), f()), Seq(int_()))), "uopt": lambda: holder(UnionTy(Seq(OptTy(f())), int_(), none_())),
        "ufloat": lambda: holder(UnionTy(f(), int_())), "uintf": lambda: holder(UnionTy(int_(), f())), "ufstr": lambda: holder(UnionTy(f(), str_())),
        "conv": lambda: ClassTy("C", [F("a", f(), deserializer=from_s, serializer=to_s), F("b", f())]), "deny": lambda: ClassTy("C", [F("a", f()), F("i", inner(deny_unknown_fields=True))], deny_unknown_fields=True),
        "tuple": lambda: holder(TupTy(f(), int_(), str_(), f())), "key": lambda: holder(DictTy(f(), f())), "newtypes": lambda: holder(Seq(NewTy("Nf", f()))), "lists": lambda: holder(TupTy(Seq(f()), Seq(int_()))),
    }
    for tg, tag in {"ext": EXT, "unt": UNT, "int": INT, "adj": ADJ}.items():
        out[f"u{tg}"] = lambda tag=tag: holder(UnionTy(inner(), ClassTy("J", [F("z", f())])), tagging=tag)
        out[f"ul{tg}"] = lambda tag=tag: holder(Seq(UnionTy(ClassTy("J", [F("z", Seq(f()))]), inner())), tagging=tag)
    return out


def cases(tier):
    th = tier == "thorough"
    for n, a in {**FLOATS, **OTHERS}.items():
        yield Case(f"field {n}", lambda t, a=a: explore(t, holder(a()), limit=2))
        if n != "any":
            yield Case(f"direct {n}", lambda t, a=a: explore(t, a(), direct=True, floats=True) if n in FLOATS else None)
        for c1 in UNARY:
            if apply(c1, a()) is None:
                continue
            yield Case(f"field {c1}.{n}", lambda t, a=a, c1=c1: explore(t, holder(apply(c1, a())), limit=2 if th else 1))
            if n in FLOATS:
                yield Case(f"direct {c1}.{n}", lambda t, a=a, c1=c1: explore(t, apply(c1, a()), direct=True, floats=True))
            if n == "float" or th:
                for c2 in UNARY:
                    if apply(c2, a()) is None or apply(c1, apply(c2, a())) is None:
                        continue
                    yield Case(f"field {c1}.{c2}.{n}", lambda t, a=a, c1=c1, c2=c2: explore(t, holder(apply(c1, apply(c2, a())))))
                    if n == "float" and th:
                        yield Case(f"direct {c1}.{c2}.{n}", lambda t, a=a, c1=c1, c2=c2: explore(t, apply(c1, apply(c2, a())), direct=True, floats=True))
                    if th and n == "float":
                        for c3 in UNARY:
                            if apply(c3, a()) is None or apply(c2, apply(c3, a())) is None or apply(c1, apply(c2, apply(c3, a()))) is None:
                                continue
                            yield Case(f"field {c1}.{c2}.{c3}.{n}", lambda t, a=a, c1=c1, c2=c2, c3=c3: explore(t, holder(apply(c1, apply(c2, apply(c3, a()))))))
    for n, mk in surroundings().items():
        yield Case(f"around {n}", lambda t, mk=mk: explore(t, mk(), limit=4))
        yield Case(f"around list {n}", lambda t, mk=mk: explore(t, Seq(mk()), direct=True))
        yield Case(f"around opt {n}", lambda t, mk=mk: explore(t, OptTy(mk()), direct=True))
