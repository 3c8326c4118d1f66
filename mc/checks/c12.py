"""C12: unknown keys are rejected when denied and ignored otherwise."""
from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from . import c11

RULE = ("(a) every pair of (outer, inner) class kinds x every assignment of deny to outer / inner x every container between them; one unknown key (several "
        "kinds, incl. the names of fields before renaming, of the other class, of generated variables, '', non-strings) is put at every mapping of the data, "
        "at every position, alone and in pairs; in dict shape and through every format; (b) field options (rename, alias, skip kinds, init=False, flatten) "
        "with every key subset; (c) tagged unions of all four kinds with denying members; (d) inheritance in both directions")
BOUNDS = {"quick": "nesting depth 2, 1-2 unknown keys at once", "thorough": "nesting depth 3"}

UNKNOWN = ["unk", "", "A", "a_b", "aB", "x", "i", "data", "cls", "__class__", "known_fields", "type", "münze", 0, None, True, ("i",), 1.5]


def mk_class(kind, name, inner, deny):
    cfg = {"deny_unknown_fields": True} if deny else {}
    i = F("i", int_())
    base = {
        "plain": ([i], {}), "dflt": ([i, F("d", str_(), default="q")], {}), "opt": ([i, F("o", OptTy(int_()))], {}),
        "rename": ([F("i", int_(), rename="I"), F("a_b", OptTy(str_()))], {"rename_all": "camelcase"}),
        "alias": ([F("i", int_(), alias=["i1", "i2"]), F("o", int_(), default=3, alias=["q"])], {}),
        "skip": ([i, F("s", int_(), default=1, skip=True), F("r", int_(), default=2, skip_deserializing=True), F("w", int_(), default=4, skip_serializing=True)], {}),
        "noinit": ([i, F("n", int_(), default=5, init=False)], {}),
        "coerce": ([i], {"type_check": "coerce"}), "disabled": ([i], {"type_check": "disabled"}),
        "empty": ([], {}),
        "dc": ([i], {}), "split": ([i], {}),
    }[kind]
    fs, kw = base
    kw = dict(kw, **cfg)
    if inner is not None:
        fs = [*fs, F("x", inner, kw_only=True)]
    if kind == "dc":
        return ClassTy(name, fs, how="plain") if not deny else None
    if kind == "split":
        return ClassTy(name, fs, how="split", order="sd" if inner else "ds", **kw)
    return ClassTy(name, fs, **kw)


KINDS = ["plain", "dflt", "opt", "rename", "alias", "skip", "noinit", "coerce", "disabled", "empty", "dc", "split"]


def mappings(d, path=()):
    """Every mapping inside the data."""
    if isinstance(d, dict):
        yield path
        for k, v in d.items():
            yield from mappings(v, path + (k,))
    elif isinstance(d, (list, tuple)):
        for i, v in enumerate(d):
            yield from mappings(v, path + (i,))


def put(d, path, key, val, front):
    if not path:
        return {key: val, **{k: v for k, v in d.items() if k != key}} if front else {**d, key: val}
    if isinstance(d, dict):
        return {k: (put(v, path[1:], key, val, front) if k == path[0] else v) for k, v in d.items()}
    return type(d)(put(v, path[1:], key, val, front) if i == path[0] else v for i, v in enumerate(d))


def explore(t, c, d, sub, keys=UNKNOWN, pairs=True, formats=True):
    s = api()

    def one(data, lab):
        exp = model(c.de, data, O())
        if exp is None:
            return
        t.state(c.name, canon(data))
        compare_de(t, f"{sub}{lab}", c, exp, t.call(s.from_dict, c.py(), fresh(data)), data=canon(data))
        if not formats:
            return
        for name, f in fmts().items():
            if not f.named:
                continue
            try:
                text = f.enc(data)
                lib = f.dec(text)
            except Exception:  # noqa: BLE001
                continue
            compare_de(t, f"{sub}{lab} {name}", c, model(c.de, lib, O(numbers=f.numbers, reuse=False)), t.call(f.read, c.py(), text), data=canon(data))

    one(d, "clean")
    paths = list(mappings(d))
    for p in paths:
        for k in keys:
            for val in (1, None, {"u": 1}):
                one(put(d, p, k, val, val == 1), f"{p}+{k!r}={val!r}")
    if pairs:
        for p, q in itertools.combinations_with_replacement(paths, 2):
            one(put(put(d, p, "unk", 1, False), q, "u2", None, True), f"{p}+{q}")


def cases(tier):
    s0 = {}
    wraps = {k: v for k, v in UNARY.items() if k in ("list", "tuple2", "vtuple", "opt", "dict", "defaultdict", "deque", "Mapping")}
    wraps["direct"] = lambda t: t
    for ok in KINDS:
        for ik in KINDS:
            for od, idn in itertools.product((False, True), repeat=2):
                if (ok == "dc" and od) or (ik == "dc" and idn):
                    continue

                def run(t, ok=ok, ik=ik, od=od, idn=idn):
                    for wn, w in wraps.items():
                        if wn not in ("direct", "list", "dict") and (ok not in ("plain", "rename") or ik not in ("plain", "alias", "skip")):
                            continue
                        inner = mk_class(ik, "In", None, idn)
                        outer = mk_class(ok, "Out", w(inner), od)
                        obj = outer.py()(**{f.fname: next((v for v in f.ty.values() if v not in (None, [], {}, ())), f.ty.values()[0]) for f in outer.dfields if f.init})
                        d = model(outer.ser, obj, O(sets=True))
                        if d is None or d[0] != "ok":
                            continue
                        d = {k: v for k, v in d[1].items()}
                        explore(t, outer, fresh(d), wn + " ", keys=UNKNOWN if wn == "direct" else UNKNOWN[:7], pairs=wn in ("direct", "list"),
                                formats=wn in ("direct", "dict") and ok in ("plain", "alias"))

                yield Case(f"nest {ok}{'!' if od else ''} {ik}{'!' if idn else ''}", run)

    # (b) flatten, including children that deny and those that capture
    for name in c11.kinds():
        for od in (False, True):
            for opt in (False, True):
                def run(t, name=name, od=od, opt=opt):
                    ch = c11.kinds()[name]()
                    kw = {"deny_unknown_fields": True} if od else {}
                    for extra in (False, True):
                        fs = [F("p_1", int_()), F("ch", OptTy(ch) if opt else ch, flatten=True), F("p_2", OptTy(int_()))]
                        if extra:
                            fs.append(F("ex", DictTy(str_(), any_()), flatten=True))
                        c = ClassTy("P", fs, **kw)
                        base = c11.sample(c)
                        explore(t, c, base, f"{extra} ", keys=["unk", "", "ch", "p_1", "c0", "c1", "C0", "ex", "data"], formats=False)
                        for k in list(base):
                            explore(t, c, {x: v for x, v in base.items() if x != k}, f"{extra} -{k} ", keys=["unk"], pairs=False, formats=False)

                yield Case(f"flatten {name}{'?' if opt else ''}{'!' if od else ''}", run)

    # (c) unions
    for tag in (EXT, UNT, INT, ADJ, Tag("Internal", "i"), Tag("Adjacent", "i", "zz")):
        for a, b, o in itertools.product((False, True), repeat=3):
            def run(t, tag=tag, a=a, b=b, o=o):
                A = ClassTy("A", [F("i", int_())], **({"deny_unknown_fields": True} if a else {}))
                B = ClassTy("B", [F("i", int_()), F("j", OptTy(str_()))], **({"deny_unknown_fields": True} if b else {}))
                for wn in ("direct", "list", "dict", "opt"):
                    u = UnionTy(A, B)
                    if wn == "opt":
                        u = UnionTy(A, B, NoneTy())
                    w = u if wn in ("direct", "opt") else UNARY[wn](u)
                    c = ClassTy("Out", [F("v", w), F("z", OptTy(int_()))], tagging=tag, **({"deny_unknown_fields": True} if o else {}))
                    for v in (A.py()(i=1), B.py()(i=2, j="x"), B.py()(i=2, j=None)):
                        val = {"list": [v], "dict": {"k": v}}.get(wn, v)
                        d = model(c.ser, c.py()(v=val, z=1), O())
                        if d is None or d[0] != "ok":
                            continue
                        explore(t, c, d[1], f"{wn} {canon(v)} ", keys=["unk", "j", "i", "type", "content", "A"], formats=wn == "direct")

            yield Case(f"union {tag} {int(a)}{int(b)}{int(o)}", run)

    # (d) inheritance
    for bd, sd in itertools.product((None, False, True), repeat=2):
        def run(t, bd=bd, sd=sd):
            kw = lambda x: {} if x is None else {"deny_unknown_fields": x}  # noqa: E731
            base = ClassTy("Ba", [F("i", int_())], **kw(bd))
            sub = ClassTy("Su", [F("j", int_(), default=2)], base=base, **kw(sd))
            subsub = ClassTy("SuSu", [F("k", int_(), default=3)], base=sub, **kw(bd))
            for c in (base, sub, subsub, base):
                explore(t, c, {"i": 1}, f"{c.cname} ", keys=[*UNKNOWN, "j", "k"])
            out = ClassTy("Out", [F("b", base), F("s", sub), F("l", Seq(subsub))])
            explore(t, out, {"b": {"i": 1}, "s": {"i": 1}, "l": [{"i": 1}, {"i": 2, "j": 3, "k": 4}]}, "out ", keys=["j", "k", "unk", "i", "b"])

        yield Case(f"inherit {bd} {sd}", run)

    # three levels, every assignment
    for combo in itertools.product((False, True), repeat=3):
        def run(t, combo=combo):
            for k1, k2 in itertools.product(("plain", "alias", "rename") if tier != "thorough" else KINDS[:10], repeat=2):
                c = mk_class(k1, "L3", None, combo[2])
                c = mk_class(k2, "L2", Seq(c), combo[1])
                c = mk_class("plain", "L1", DictTy(str_(), c), combo[0])
                v = c.values()[0]
                d = model(c.ser, v, O())
                if d is None or d[0] != "ok":
                    continue
                explore(t, c, d[1], f"{k1} {k2} ", keys=["unk", "i", "x", "I", "a_b"], formats=False)

        yield Case(f"three {combo}", run)

    # given directly, in containers
    def run(t):
        s = api()
        for k in KINDS:
            for deny in (False, True):
                c = mk_class(k, "C", None, deny)
                if c is None:
                    continue
                for u in ({}, {"unk": 1}, {"": None}):
                    d = {**c11.sample(c), **u}
                    if "alias" == k:
                        d.pop("i1"), d.pop("i2"), d.pop("q")
                    for ty, py, data in ((Seq(c), list[c.py()], [d]), (DictTy(str_(), c), dict[str, c.py()], {"k": d}),
                                         (OptTy(c), typing.Optional[c.py()], d), (VarTup(c), tuple[c.py(), ...], [d])):
                        compare_de(t, f"{k} {deny} {u} {ty.name}", ty, model(ty.de, data, O()), t.call(s.from_dict, py, fresh(data)), data=canon(data))

    yield Case("direct", run)
