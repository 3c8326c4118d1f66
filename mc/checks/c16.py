"""C16: conversions never modify or entangle their inputs."""
import collections

from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from . import c01, c06, c11
from .c10 import kinds as default_kinds

RULE = ("every type composition up to the bound, every flattened child kind, unions under every tagging and every pair of default kinds; each object is "
        "written twice by every writer and option, each datum (valid, and every one-change corruption of it) is read twice by every reader; object and data "
        "must be unchanged; then every mutable part of a result is modified in place and the input, the other result, the class and a third call must not notice")
BOUNDS = {"quick": "type depth 1 over all atoms and 2 over 7 atoms; 3 type-check modes on representatives", "thorough": "type depth 2 over all atoms, 3 over 4 atoms; corruptions everywhere"}
ASSUMPTIONS = ["containers declared without element types, Any and data given to a disabled class may be handed over as they are; only modification is ruled out for these"]

MUT = (list, dict, set, collections.deque)


def containers(v, out=None, seen=None):
    """Every mutable container and mutable object reachable from a value."""
    out = [] if out is None else out
    if isinstance(v, MUT):
        out.append(v)
    if isinstance(v, dict):
        for k, x in v.items():
            containers(k, out), containers(x, out)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            containers(x, out)
    elif dataclasses.is_dataclass(v) and not isinstance(v, type):
        for f in dataclasses.fields(v):
            if hasattr(v, f.name):
                containers(getattr(v, f.name), out)
    return out


def spoil(v):
    """Modify every mutable container of a value in place."""
    for c in containers(v):
        if isinstance(c, collections.Counter):
            c["spoiled"] = 99
        elif isinstance(c, dict):
            c["spoiled"] = "spoiled"
        elif isinstance(c, set):
            c.add("spoiled")
        else:
            c.append("spoiled")


def loose(c):
    return any(isinstance(x, (BareTy, AnyTy)) or (isinstance(x, ClassTy) and (x.c("type_check", "de") == "disabled" or any(f.flatten for f in x.fields))) for x in c.walk())


def writers():
    s = api()
    for shape in ("to_dict", "to_tuple"):
        for reuse, sets in ((None, None), (False, True), (True, False)):
            yield f"{shape} reuse={reuse} sets={sets}", lambda v, shape=shape, reuse=reuse, sets=sets: getattr(s, shape)(v, reuse_instances=reuse, convert_sets=sets)
    yield "to_dict skip_none", lambda v: s.to_dict(v, skip_none=True)
    yield "asdict", lambda v: s.asdict(v)
    yield "astuple", lambda v: s.astuple(v)
    for n, f in fmts().items():
        if n != "orjson":
            yield n, lambda v, f=f: f.write(v)


def write(t, c, sub=""):
    strict = not loose(c)
    for n, obj in enumerate(c.values()):
        before = canon(obj, True)
        mine = {id(x) for x in containers(obj)}
        t.state(c.name, before)
        for lab, fn in writers():
            lab = f"{sub}v{n} {lab}"
            a = t.call(fn, obj)
            t.check(canon(obj, True) == before, lab, "the object was modified", before=before, after=canon(obj, True))
            if a[0] != "ok":
                continue
            first = canon(a[1], True)
            b = t.call(fn, obj)
            t.check(b[0] == "ok" and canon(b[1], True) == first, lab + " again", "repeating it gives another result", expected=first, got=desc(b))
            if strict and b[0] == "ok" and "reuse=True" not in lab:
                shared = [x for x in containers(a[1]) if id(x) in mine]
                t.check(not shared, lab + " entangled", "the result shares a mutable container with the object", got=canon(shared[:3]))
                spoil(a[1])
                t.check(canon(obj, True) == before and canon(b[1], True) == first, lab + " separate", "modifying the result changed the object or another result",
                        before=before, after=canon(obj, True))


def read_one(t, c, d, named, lab, strict):
    s = api()
    fn = s.from_dict if named else s.from_tuple
    data = fresh(d)
    before = canon(data, True)
    theirs = {id(x) for x in containers(data)}
    a = t.call(fn, c.py(), data)
    t.state(c.name, named, before)
    t.check(canon(data, True) == before, lab, "the data was modified", before=before, after=canon(data, True))
    b = t.call(fn, c.py(), data)
    exp = model(c.de, fresh(d), O(named=named))
    t.check(canon(data, True) == before, lab + " again", "the data was modified", before=before, after=canon(data, True))
    if exp is None or exp[0] not in ("ok", "reject"):
        return  # which misfitting element beartype looks at varies
    t.check(a[0] == b[0] and (a[0] == "err" or same(a[1], b[1])), lab + " again", "repeating it gives another result", got=desc(b), expected=desc(a))
    if a[0] == b[0] == "ok":
        first = canon(a[1])
        if strict:
            shared = [x for x in containers(a[1]) if id(x) in theirs]
            t.check(not shared, lab + " entangled", "the object shares a mutable container with the data", got=canon(shared[:3]))
            shared = {id(x) for x in containers(a[1])} & {id(x) for x in containers(b[1])}
            t.check(not shared, lab + " entangled2", "two objects share a mutable container", got=first)
            spoil(a[1])
            t.check(canon(b[1]) == first and canon(data, True) == before, lab + " separate", "modifying one object changed another or the data", expected=first, got=canon(b[1]))
            again = t.call(fn, c.py(), data)
            t.check(again[0] == "ok" and canon(again[1]) == first, lab + " third", "modifying one object changed a later result", expected=first, got=desc(again))


def read(t, c, corrupt, sub="", limit=3, extra=()):
    strict = not loose(c)
    for named in (True, False):
        seen = set()
        o = O(named=named, reuse=False, sets=True)
        for n, obj in enumerate(itertools.islice(c.values(), limit)):
            e = model(c.ser, obj, o)
            if e is None or e[0] != "ok":
                continue
            ds = [("", e[1])]
            if named and isinstance(e[1], dict):
                ds += [(f"-{k}", {x: y for x, y in e[1].items() if x != k}) for k in e[1]] + [("empty", {})]
            if corrupt:
                ds += list(mutations(e[1], SMALL))
            for lab, d in ds:
                k = canon(d)
                if k not in seen:
                    seen.add(k)
                    read_one(t, c, d, named, f"{sub}{'dict' if named else 'tuple'} v{n} {lab}", strict)


def through_readers(t, c, sub=""):
    """Readers of the formats: the same text twice, and objects that do not share anything."""
    for n, f in fmts().items():
        for nv, obj in enumerate(itertools.islice(c.values(), 2)):
            w = t.call(f.write, obj)
            if w[0] != "ok":
                continue
            a, b = t.call(f.read, c.py(), w[1]), t.call(f.read, c.py(), w[1])
            lab = f"{sub}{n} v{nv}"
            t.check(a[0] == b[0] and (a[0] == "err" or same(a[1], b[1])), lab + " read", "repeating it gives another result", got=desc(b), expected=desc(a))
            if a[0] == b[0] == "ok":
                first = canon(b[1])
                spoil(a[1])
                t.check(canon(b[1]) == first, lab + " separate", "modifying one object changed another", expected=first, got=canon(b[1]))


def cases(tier):
    for key, mk in c01.types(tier):
        if mk() is None:
            continue

        def run(t, mk=mk, deep=key.count(".") >= 2):
            c = c01.pad(tier, mk)
            c.py()
            write(t, c)
            read(t, c, not deep or tier == "thorough", limit=2 if deep else 3)

        yield Case("type " + key, run)

    for con in (None, "list", "dict", "opt", "set", "tuple2", "vtuple", "deque", "defaultdict", "Counter", "cls", "plaincls"):
        for n, a in REPS.items():
            mk = (lambda con=con, a=a: a() if con is None else apply(con, a()))
            if mk() is None:
                continue

            def run(t, mk=mk):
                for mode in ("coerce", "disabled", "strict"):
                    c = ClassTy("C", [F("v", mk()), F("o", OptTy(mk()) if not mk().optional else mk(), default=None)], type_check=mode)
                    write(t, c, mode + " ")
                    read(t, c, True, mode + " ", limit=1)
                    # objects holding other values than declared
                    if mode != "strict":
                        for v in ("1", 1, True, 2.5, ["1"], {"a": "1"}):
                            x = t.call(c.py(), v)
                            if x[0] == "ok":
                                before = canon(x[1], True)
                                for lab, fn in writers():
                                    t.call(fn, x[1])
                                    t.check(canon(x[1], True) == before, f"{mode} odd {v!r} {lab}", "the object was modified", before=before, after=canon(x[1], True))
                    through_readers(t, c, mode + " ")

            yield Case(f"modes {con}.{n}", run)

    for k, mk in c11.kinds().items():
        def run(t, mk=mk):
            for tag, kw in (("", {}), ("deny", {"deny_unknown_fields": True})):
                ch = mk()
                if not isinstance(ch, ClassTy):
                    ch = ClassTy("K", [F("q", int_(), default=1), F("x", ch, flatten=True)])
                p = ClassTy("Par", [F("pa", int_()), F("ch", ch, flatten=True), F("l", Seq(int_()), default_factory=lambda: [1])], **kw)
                opt = ClassTy("Opt", [F("ch", OptTy(ch), flatten=True), F("rest", DictTy(str_(), any_()), flatten=True)])
                for c in (p, opt):
                    write(t, c, tag + c.cname + " ")
                    read(t, c, True, tag + c.cname + " ", limit=2)

        yield Case(f"flatten {k}", run)

    for names in (("A", "B"), ("A", "S"), ("S", "int"), ("L", "A"), ("FD", "A"), ("Sets", "di"), ("lA", "di"), ("dA", "A"), ("U", "li"), ("E", "A")):
        for tag in c06.TAGS:
            def run(t, names=names, tag=tag):
                m = c06.M()
                u = UnionTy(*(m.get(x) for x in names))
                c = ClassTy("H", [F("u", u), F("l", Seq(u)), F("d", DictTy(str_(), u))], tagging=tag)
                write(t, c)
                read(t, c, True, limit=2)
                through_readers(t, c)
                # the union itself
                s = api()
                T_ = tag.real()(u.py()) if tag.kind != "External" else u.py()
                for n, v in enumerate(u.values()):
                    before = canon(v, True)
                    w = t.call(s.to_dict, v, c=T_)
                    t.check(canon(v, True) == before, f"direct v{n}", "the object was modified", before=before, after=canon(v, True))
                    if w[0] == "ok":
                        b2 = canon(w[1], True)
                        r1, r2 = t.call(s.from_dict, T_, w[1]), t.call(s.from_dict, T_, w[1])
                        t.check(canon(w[1], True) == b2, f"direct read v{n}", "the data was modified", before=b2, after=canon(w[1], True))
                        t.check(desc(r1) == desc(r2), f"direct read again v{n}", "repeating it gives another result", got=desc(r2), expected=desc(r1))

            yield Case(f"union {names} {tag.name}", run)

    ks = default_kinds()
    for a in ks:
        for b in ks:
            def run(t, a=a, b=b):
                fs = []
                for i, k in enumerate((a, b)):
                    ty, kw, _ = ks[k]()
                    fs.append(F(f"f_{i}", ty, kw_only=True, **kw))
                for cfg in ({}, {"type_check": "coerce"}, {"type_check": "disabled"}, {"skip_if_default": True}):
                    c = ClassTy("D", fs, **cfg)
                    h = ClassTy("HD", [F("d", c), F("ds", Seq(c)), F("od", OptTy(c), default=None)])
                    for x in (c, h):
                        sub = f"{cfg} {x.cname} "
                        write(t, x, sub)
                        s = api()
                        for named in (True,):
                            for lab, d in (("none", {}), ("full", model(c.ser, c.values()[0], O(named=True, reuse=False, sets=True))[1])):
                                d = d if x is c else {"d": d, "ds": [d, d], "od": d}
                                # defaults must be fresh even in the modes that hand containers over
                                r1 = t.call(s.from_dict, x.py(), fresh(d))
                                r2 = t.call(s.from_dict, x.py(), fresh(d))
                                if r1[0] == r2[0] == "ok":
                                    first = canon(r2[1])
                                    t.state(x.name, canon(d))
                                    spoil(r1[1])
                                    r3 = t.call(s.from_dict, x.py(), fresh(d))
                                    t.check(canon(r2[1]) == first, sub + lab, "modifying one object changed another", expected=first, got=canon(r2[1]))
                                    t.check(r3[0] == "ok" and canon(r3[1]) == first, sub + lab + " later", "modifying one object changed a later result", expected=first, got=desc(r3))

            yield Case(f"defaults {a} {b}", run)
