"""C25: NumPy scalars and arrays keep dtype, shape and values."""
from ..lib import *  # noqa: F401,F403
from ..npty import *  # noqa: F401,F403
from ..npty import JAX, SC, NpArray, NpDate, NpScalar
from ..run import Case
from ..uni import *  # noqa: F401,F403

RULE = ("every scalar type and every array type (each dtype as NDArray, ndarray[Any, dtype], jaxtyping, bare) over boundary elements x every shape up to rank 3 that nested lists express "
        "(empty, rank 0, Fortran order, strided) x every placement (fields, every container up to the depth bound, keys, nested classes of every kind, flattening, transparent classes, "
        "unions, inheritance, defaults, class options, given directly) x both shapes and every format x options")
BOUNDS = {"quick": "containers of depth 1 over every scalar and 4 array types, depth 2 over 3", "thorough": "containers of depth 2 over every scalar and array type"}
ASSUMPTIONS = ["an array of shape (0, n) is indistinguishable from (0,) in nested lists; arrays of date-times, complex, long double and timedelta are not claimed; the unit of a datetime64 is not part of the type"]


def same_np(a, b):
    return canon(a) == canon(b)


def holder(x, **cfg):
    return ClassTy("C", [F("p", int_()), F("v", x), F("q", str_())], **cfg)


def explore(t, c, formats=True):
    objs = c.values()
    roundtrip(t, c, objs, rt="exact")
    if formats:
        fmt_paths(t, c, objs)


def direct(t, ty):
    T_ = ty.py()
    vs = ty.values()
    s = api()
    for n, v in enumerate(vs):
        exp = model(ty.ser, v, O(named=True, direct=True))
        t.state("direct", ty.name, canon(v))
        if exp is None or exp[0] != "ok":
            continue
        for named in (True, False):
            back = t.call(s.from_dict if named else s.from_tuple, T_, exp[1])
            t.check(back[0] == "ok" and same(back[1], v), f"from_{'dict' if named else 'tuple'} v{n}", "read differently", got=desc(back), want=canon(v))
        for name, f in fmts().items():
            try:
                text = f.enc(exp[1])
                lib = f.dec(text)
            except Exception:  # noqa: BLE001
                continue
            ed = model(ty.de, lib, O(named=f.named, reuse=False, numbers=f.numbers))
            if name != "toml" and ed is not None and ed[0] == "ok" and same(ed[1], v):
                back = t.call(f.read, T_, text)
                t.check(back[0] == "ok" and same(back[1], v), f"read {name} v{n}", "read differently", got=desc(back), want=canon(v))
            if name in ("json", "msgpack") and f.named and not isinstance(v, dict):
                got = t.call(f.write, v)
                t.check(got[0] == "ok" and same(f.dec(got[1]), f.dec(text)), f"write {name} v{n}", "written differently", got=desc(got), want=canon(exp[1]))


def places(mk):
    m = mk
    inner = lambda **kw: ClassTy("I", [F("m", m()), F("n", int_())], **kw)  # noqa: E731
    return {
        "nest": lambda: holder(inner()), "plainnest": lambda: holder(inner(how="plain")), "auto": lambda: holder(inner(how="auto")), "split": lambda: holder(inner(how="split")),
        "deep": lambda: holder(Seq(DictTy(str_(), inner()))),
        "flat": lambda: ClassTy("C", [F("p", int_()), F("i", inner(), flatten=True)]), "flatopt": lambda: ClassTy("C", [F("p", int_()), F("i", OptTy(inner()), flatten=True)]),
        "trans": lambda: holder(ClassTy("T", [F("m", m())], transparent=True)), "transtop": lambda: ClassTy("T", [F("m", m())], transparent=True),
        "rename": lambda: ClassTy("C", [F("my_m", m(), alias=["o"]), F("b", m(), rename="B")], rename_all="camelcase"),
        "default": lambda: ClassTy("C", [F("o", OptTy(m()), default=None), F("l", Seq(m()), default_factory=list)]),
        "skipnone": lambda: ClassTy("C", [F("a", m()), F("o", OptTy(m()), default=None)], skip_if_none=True),
        "inherit": lambda: ClassTy("D", [F("y", m())], base=ClassTy("B", [F("x", m())])), "kw": lambda: ClassTy("C", [F("a", m(), kw_only=True), F("b", int_())]),
        "coerce": lambda: ClassTy("C", [F("a", m()), F("n", int_())], type_check="coerce"), "disabled": lambda: ClassTy("C", [F("a", m()), F("n", int_())], type_check="disabled"),
        "deny": lambda: ClassTy("C", [F("a", m()), F("i", inner(deny_unknown_fields=True))], deny_unknown_fields=True),
        "reuse": lambda: holder(m(), reuse_instances_default=True), "many": lambda: ClassTy("C", [F("a", m()), F("b", m()), F("c", TupTy(m(), int_(), m()))]),
        "uclass": lambda: holder(UnionTy(inner(), ClassTy("J", [F("z", Seq(m()))]))), "ulist": lambda: holder(Seq(UnionTy(inner(), str_()))),
        "uint": lambda: holder(UnionTy(inner(), ClassTy("J", [F("z", Seq(m()))])), tagging=INT), "uadj": lambda: holder(UnionTy(inner(), ClassTy("J", [F("z", Seq(m()))])), tagging=ADJ),
        "frozen": lambda: ClassTy("C", [F("a", m())], dc={"frozen": True}), "kwonly": lambda: ClassTy("C", [F("a", m()), F("b", int_(), default=3)], dc={"kw_only": True}),
        "slots": lambda: ClassTy("C", [F("a", m())], dc={"slots": True}),
    }


def arrays():
    for n, mk in SC.items():
        if n in ("datetime64",):
            continue
        for how in ("NDArray", "ndarray"):
            if n == "str":
                continue
            yield f"{how}[{n}]", lambda mk=mk, how=how: NpArray(mk(), how)
        if n in ("int64", "float64", "bool", "special"):
            for how in ("bare", "bareND"):
                yield f"{how}[{n}]", lambda mk=mk, how=how: NpArray(mk(), how)
    for j, n in JAX.items():
        yield f"jax {j}", lambda n=n, j=j: NpArray(SC[n](), j)


def cases(tier):
    th = tier == "thorough"
    arr = dict(arrays())
    rep = {k: arr[k] for k in ("NDArray[int8]", "NDArray[float32]", "bare[int64]", "jax Int16")}
    rep2 = {"float32": SC["float32"], "datetime64": SC["datetime64"], "NDArray[int8]": arr["NDArray[int8]"]}
    for n, mk in {**SC, **arr}.items():
        yield Case(f"field {n}", lambda t, mk=mk: explore(t, holder(mk())))
        jax = n.startswith("jax")  # these can only be used as annotations
        if not jax:
            yield Case(f"direct {n}", lambda t, mk=mk: direct(t, mk()))
        for con in UNARY:
            if n in arr and n not in rep and not th:
                continue
            if apply(con, mk()) is None or (n == "bool" and con in ("keydict", "Counter")) or (jax and con == "defaultdict"):
                continue
            yield Case(f"{con}.{n}", lambda t, mk=mk, con=con: explore(t, holder(apply(con, mk()))))
            if con not in ("cls", "plaincls") and not jax:
                yield Case(f"direct {con}.{n}", lambda t, mk=mk, con=con: direct(t, apply(con, mk())))
            if n in rep2 or th:
                for c2 in UNARY:
                    x = apply(c2, mk())
                    if x is None or apply(con, x) is None or (n == "bool" and c2 in ("keydict", "Counter")) or (jax and "defaultdict" in (con, c2)):
                        continue
                    yield Case(f"{con}.{c2}.{n}", lambda t, mk=mk, con=con, c2=c2: explore(t, holder(apply(con, apply(c2, mk())))))
        if n in SC or n in rep or th:
            for pn, p in places(mk).items():
                yield Case(f"place {pn} {n}", lambda t, p=p: explore(t, p()))
