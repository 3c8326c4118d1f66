"""C21: a transparent class is written and read as its single field."""
from ..junk import ATOMS as JUNK, SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from . import c01

RULE = ("(a) every inner type up to the depth bound x every value x every option pair x every one-change datum: the class given directly is written as a field of the "
        "inner type of an ordinary class is, and reads exactly what such a field accepts; (b) every placement of the class (field, containers, Optional, union, "
        "mapping key, nested transparent, inherited, flattened) x every class option x every format; (c) every arrangement of up to 3 fields over 14 field kinds: "
        "the declaration is accepted iff exactly one constructor field is not fully skipped and every other field is outside the constructor and fully skipped")
BOUNDS = {"quick": "inner types of depth 1 (all atoms) and 2 (representatives); arrangements of up to 2 extra fields",
          "thorough": "inner types of depth 2 (all atoms); arrangements of up to 3 extra fields"}


def wrap(ty, name="T", fo=None, **kw):
    dc = kw.pop("dc", None) or ({"frozen": True} if ty.hashable else {})
    used = {x.cname for x in ty.walk() if isinstance(x, ClassTy)}
    while name in used:
        name += "2"
    return ClassTy(name, [F("v", ty, **(fo or {}))], dc=dc, hashable=ty.hashable and bool(dc.get("frozen")), transparent=True, **kw)


def direct(t, ty, atoms, limit=2):
    """The class given directly, against a field of the inner type in an ordinary class."""
    s = api()
    T_ = wrap(ty)
    P = ClassTy("P", [F("v", ty)])
    T_.py()
    for n, o in enumerate(T_.values()):
        before = canon(o)
        for named in (True, False):
            for reuse, sets in DT_OPTS:
                kw = {"reuse_instances": reuse, "convert_sets": sets}
                fn = s.to_dict if named else s.to_tuple
                exp = model(T_.ser, o, O(named=named, reuse=reuse, sets=sets))
                if exp is None:
                    continue
                lab = f"v{n} {'dict' if named else 'tuple'} {reuse} {sets}"
                got = t.call(fn, o, **kw)
                t.state(T_.name, named, before, reuse, sets)
                if not compare_ser(t, lab, exp, got, obj=before) or exp[0] != "ok":
                    continue
                ref = t.call(fn, P.py()(o.v), **kw)
                w = ref[1]["v" if named else 0] if ref[0] == "ok" else None
                t.check(ref[0] == "ok" and same(w, got[1], False), lab + " field", "differs from the ordinary field", expected=desc(ref), got=canon(got[1]))
                if reuse and ty.name:
                    pass
                back = t.call(s.from_dict if named else s.from_tuple, T_.py(), got[1])
                compare_de(t, lab + " back", T_, model(T_.de, got[1], O(named=named)), back, wire=canon(got[1]))
        t.check(canon(o) == before, f"v{n} unchanged", "the object was modified")
    for named in (True, False):
        seen = set()
        for n, o in enumerate(T_.values()[:limit]):
            e = model(T_.ser, o, O(named=named, reuse=False, sets=True))
            if e is None or e[0] != "ok":
                continue
            for lab, m in itertools.chain([("", e[1])], mutations(e[1], atoms)):
                k = canon(m)
                if k in seen:
                    continue
                seen.add(k)
                exp = model(T_.de, fresh(m), O(named=named))
                if exp is None:
                    continue
                fn = s.from_dict if named else s.from_tuple
                t.state(T_.name, "de", named, k)
                got = t.call(fn, T_.py(), fresh(m))
                if not compare_de(t, f"{'dict' if named else 'tuple'} data v{n} {lab}", T_, exp, got, data=k):
                    continue
                ref = t.call(fn, P.py(), {"v": fresh(m)} if named else (fresh(m),))
                if exp[0] in ("ok", "reject"):
                    t.check(ref[0] == got[0] and (ref[0] == "err" or same(ref[1].v, got[1].v)), f"data v{n} {lab} field", "an ordinary field reads it differently",
                            field=desc(ref), got=desc(got), data=k)


PLACES = {
    "field": lambda T_: T_, "list": lambda T_: Seq(T_), "vtuple": lambda T_: VarTup(T_), "tuple": lambda T_: TupTy(int_(), T_), "opt": lambda T_: OptTy(T_),
    "dict": lambda T_: DictTy(str_(), T_), "defaultdict": lambda T_: DictTy(str_(), T_, "defaultdict"), "listopt": lambda T_: Seq(OptTy(T_)),
    "set": lambda T_: SetTy(T_) if T_.hashable else None, "frozenset": lambda T_: SetTy(T_, "frozenset") if T_.hashable else None,
    "key": lambda T_: DictTy(T_, int_()) if T_.hashable and isinstance(T_.own[0].ty, (Prim, StrTy, EnumTy, DtTy, NewTy, LitTy)) else None,
    "nested": lambda T_: wrap(T_, "U"), "nested3": lambda T_: wrap(wrap(T_, "U"), "W"), "nestedopt": lambda T_: wrap(OptTy(T_), "U"),
    "derived": lambda T_: ClassTy("D", [], base=T_, transparent=True, dc=T_.dc, hashable=T_.hashable),
    "boxed": lambda T_: ClassTy("Box", [F("b", T_), F("c", Seq(T_))]),
    "plain": lambda T_: ClassTy("PBox", [F("b", T_), F("o", OptTy(T_))], how="plain"),
}
CFGS = {"": {}, "coerce": {"type_check": "coerce"}, "disabled": {"type_check": "disabled"}, "kebab": {"rename_all": "kebabcase"},
        "opts": {"convert_sets_default": True, "reuse_instances_default": False}, "skips": {"skip_if_none": True, "skip_if_default": True}, "deny": {"deny_unknown_fields": True},
        "kw": {"dc": {"kw_only": True}}, "slots": {"dc": {"slots": True}}}
FOPTS = {"": {}, "rename": {"rename": "zz"}, "alias": {"alias": ["aa", "v2"]}, "kw": {"kw_only": True}, "default": None}


def placed(t, T_, which, tier):
    x = PLACES[which](T_)
    if x is None:
        return
    c = ClassTy("C", [F("p", int_()), F("v", x), F("q", str_())])
    c.py()
    objs = c.values()
    roundtrip(t, c, objs, ordered=False)
    fmt_paths(t, c, objs)
    s = api()
    for named in (True, False):
        e = model(c.ser, objs[0], O(named=named, reuse=False, sets=True))
        if e is None or e[0] != "ok":
            continue
        for lab, m in mutations(e[1], SMALL):
            exp = model(c.de, fresh(m), O(named=named))
            if exp is None:
                continue
            t.state(c.name, "de", named, canon(m))
            compare_de(t, f"{'dict' if named else 'tuple'} data {lab}", c, exp, t.call(s.from_dict if named else s.from_tuple, c.py(), m), data=canon(m))


def field_kinds():
    """name -> (annotation, serde.field arguments or None, extra class attribute)"""
    return {
        "init": {}, "initd": {"default": 1}, "skip": {"skip": True, "default": 1}, "skips": {"skip_serializing": True, "default": 1},
        "skipd": {"skip_deserializing": True, "default": 1}, "skipboth": {"skip_serializing": True, "skip_deserializing": True, "default": 1},
        "no": {"init": False, "default": 1}, "noskip": {"init": False, "skip": True, "default": 1},
        "noskipboth": {"init": False, "skip_serializing": True, "skip_deserializing": True, "default": 1},
        "noskips": {"init": False, "skip_serializing": True, "default": 1}, "noskipd": {"init": False, "skip_deserializing": True, "default": 1},
        "kw": {"kw_only": True}, "classvar": "classvar", "initvar": "initvar",
    }


def arrangement(t, ks):
    """Declare a class with these fields in this order; accepted iff the rule says so; accepted ones convert as their field."""
    import dataclasses
    import typing

    s = api()
    kinds = field_kinds()
    init = [k for k in ks if kinds[k] not in ("classvar", "initvar") and kinds[k].get("init", True)]
    full = lambda k: kinds[k].get("skip") or (kinds[k].get("skip_serializing") and kinds[k].get("skip_deserializing"))  # noqa: E731
    rest = [k for k in ks if kinds[k] not in ("classvar", "initvar") and k not in init]
    good = len(init) == 1 and not any(k in ("skip", "skips", "skipd", "skipboth") for k in init) and all(full(k) for k in rest)
    half = len(init) == 1 and init[0] in ("skips", "skipd")
    for how in ("serde", "serialize", "deserialize", "base"):
        ns, ann = {}, {}
        for i, k in enumerate(ks):
            f = f"f{i}"
            if kinds[k] == "classvar":
                ann[f], ns[f] = typing.ClassVar[str], "cv"
            elif kinds[k] == "initvar":
                ann[f], ns[f] = dataclasses.InitVar[int], 3
            else:
                ann[f] = int
                if kinds[k]:
                    ns[f] = s.field(**kinds[k])
        ns["__annotations__"] = ann
        ns["__module__"] = "mc_generated"
        kw = {"transparent": True}
        try:
            cls = dataclasses.dataclass(type("X", (), ns))
        except TypeError:
            t.outcome("dataclass refuses")
            return
        if how == "base":
            cls = dataclasses.dataclass(type("Y", (cls,), {"__annotations__": {}, "__module__": "mc_generated"}))
        got = t.call(lambda: getattr(s, "serde" if how == "base" else how)(**kw)(cls))
        t.state(*ks, how)
        if not good:
            if half:  # the one field is skipped in one direction only: it may be refused, but must not fail otherwise
                t.check(got[0] == "ok" or isinstance(got[1], SerdeError()), f"{how} half", "neither accepted nor refused with SerdeError", got=desc(got))
            else:
                t.check(got[0] == "err" and isinstance(got[1], SerdeError()), f"{how} refuse", "must be refused with SerdeError", got=desc(got))
            continue
        if not t.check(got[0] == "ok", f"{how} accept", "must be accepted", got=desc(got)):
            continue
        cls = got[1]
        f = f"f{ks.index(init[0])}"
        for v in (5, 1, 0):
            o = cls(**{f: v})
            if how in ("serde", "serialize", "base"):
                for fn in (s.to_dict, s.to_tuple):
                    r = t.call(fn, o)
                    t.check(r == ("ok", v), f"{how} ser", "not written as its field", got=desc(r), v=v)
            if how in ("serde", "deserialize", "base"):
                for fn in (s.from_dict, s.from_tuple):
                    r = t.call(fn, cls, v)
                    t.check(r[0] == "ok" and canon(r[1]) == canon(o), f"{how} de", "not read as its field", got=desc(r), v=v)
                    r = t.call(fn, cls, "x")
                    t.check(r[0] == "err" and isinstance(r[1], SerdeError()), f"{how} bad", "bad data accepted", got=desc(r))


def flat_kinds():
    inner = lambda **kw: ClassTy("Ch", [F("x", int_()), F("y", OptTy(str_()))], **kw)  # noqa: E731
    return {
        "class": lambda: wrap(inner()),
        "nested": lambda: wrap(wrap(inner()), "U"),
        "opt": lambda: OptTy(wrap(inner())),
        "nestedflat": lambda: wrap(ClassTy("Mid", [F("m", int_()), F("ch", inner(), flatten=True)])),
        "capturing": lambda: wrap(ClassTy("Cap", [F("m", int_()), F("rest", DictTy(str_(), any_()), flatten=True)])),
        "renamed": lambda: wrap(ClassTy("Ren", [F("my_x", int_()), F("z", int_(), alias=["zz"])], rename_all="camelcase"), fo={"rename": "qq"}),
    }


def cases(tier):
    for key, mk in c01.types(tier):
        x = mk()
        if x is None:
            continue
        deep = key.count(".") >= 2

        def run(t, mk=mk, deep=deep):
            direct(t, mk(), SMALL if deep else JUNK, limit=1 if deep else 2)

        yield Case("direct " + key, run)

    def inners():
        for n, a in (ATOMS if tier == "thorough" else {**REPS, "str": str_, "LitS": lits_, "NewInt": newint_}).items():
            yield n, a
        for con in ("list", "dict", "opt", "set", "tuple2") if tier == "quick" else UNARY:
            for n in ("int", "Color", "Fz"):
                yield f"{con}.{n}", (lambda con=con, n=n: apply(con, REPS[n]()))
        yield "union", lambda: UnionTy(int_(), str_(), In())
        yield "unioncls", lambda: UnionTy(In("A"), ClassTy("B", [F("z", int_())]))
        yield "any", any_

    for n, mk in inners():
        if mk() is None:
            continue
        for pl in PLACES:
            if PLACES[pl](wrap(mk())) is None:
                continue

            def run(t, mk=mk, pl=pl):
                placed(t, wrap(mk()), pl, tier)

            yield Case(f"place {pl} {n}", run)
    for n in ("int", "float", "Path", "Color", "In") if tier == "quick" else ATOMS:
        for cn, cfg in CFGS.items():
            for con in (None, "list", "set", "opt"):
                if con and apply(con, ATOMS[n]()) is None:
                    continue
                for fn, fo in FOPTS.items():
                    if cn in ("kw", "slots") and fn == "kw":
                        continue

                    def run(t, n=n, cfg=cfg, con=con, fn=fn, fo=fo):
                        ty = ATOMS[n]() if con is None else apply(con, ATOMS[n]())
                        if fn == "default":
                            v = ty.values()[0]
                            fo = {"default_factory": lambda: fresh(v)}
                        T_ = wrap(ty, fo=fo, **cfg)
                        T_.py()
                        roundtrip(t, T_, T_.values(), ordered=False)
                        for pl in ("field", "list", "opt"):
                            placed(t, T_, pl, tier)

                    yield Case(f"cfg {cn} {fn} {con}.{n}", run)
    # unions: the wrapper as a member under every tagging
    for tg in ("ext", "unt", "int", "adj"):
        for n in ("int", "In", "Color", "list"):
            def run(t, tg=tg, n=n):
                tag = {"ext": EXT, "unt": UNT, "int": INT, "adj": ADJ}[tg]
                T_ = wrap(Seq(int_()) if n == "list" else ATOMS[n]())
                other = ClassTy("Oth", [F("z", int_())])
                c = ClassTy("C", [F("u", UnionTy(T_, other)), F("l", Seq(UnionTy(other, T_)))], tagging=tag)
                c.py()
                roundtrip(t, c, c.values(), ordered=False)
                fmt_paths(t, c, c.values())

            yield Case(f"union {tg} {n}", run)
    for fk in flat_kinds():
        for deny in (False, True):
            for order in ("pf", "fp", "f"):
                def run(t, fk=fk, deny=deny, order=order):
                    s = api()
                    ch = flat_kinds()[fk]()
                    fs = {"p": F("p", int_()), "f": F("f", ch, flatten=True)}
                    c = ClassTy("C", [fs[k] for k in order], deny_unknown_fields=deny)
                    c.py()
                    roundtrip(t, c, c.values(), ordered=False)
                    fmt_paths(t, c, c.values())
                    for o in c.values():
                        e = model(c.ser, o, O(named=True))
                        if e and e[0] == "ok":
                            for lab, m in itertools.chain(mutations(e[1], SMALL), [("unknown", {**e[1], "zzz": 1})]):
                                exp = model(c.de, fresh(m), O(named=True))
                                if exp is not None:
                                    t.state(c.name, canon(m))
                                    compare_de(t, f"flat data {lab}", c, exp, t.call(s.from_dict, c.py(), m), data=canon(m))

                yield Case(f"flat {fk} deny={deny} {order}", run)
    names = list(field_kinds())
    for n in range(0, 3 if tier == "quick" else 4):
        for ks in itertools.product(names, repeat=n) if n < 3 else ((a, b, c) for a, b, c in itertools.product(names, repeat=3)):
            yield Case("arr " + "-".join(ks), lambda t, ks=ks: arrangement(t, ks))
    if tier == "quick":
        for ks in itertools.combinations(names, 3):
            yield Case("arr " + "-".join(ks), lambda t, ks=ks: arrangement(t, ks))
