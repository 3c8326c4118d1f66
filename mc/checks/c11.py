"""C11: flatten splices a child's fields into its parent and back, losing nothing."""
from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from .. import uni
from ..uni import *  # noqa: F401,F403
from .c08 import is_three, to_s, from_s

RULE = ("(a) every child class kind x plain / Optional x default kind x position in the parent (only, first, middle, last, two children) x parent options; "
        "objects written in both shapes and every format and read back; every subset of the keys the parent and its children know plus unknown ones is read, "
        "with a wrong or null value at every key; (b) flattened dicts of both kinds with the same parents and children, and every content incl. null, nested "
        "and conflicting keys; (c) up to three levels of nesting; (d) identifiers that generated code could use itself")
BOUNDS = {"quick": "20 child kinds, parents of up to 4 fields, key subsets of up to 6 keys; nesting 3 over 6 kinds", "thorough": "nesting 3 over all kinds"}
ASSUMPTIONS = ["a flattened Optional class is guaranteed in dict shape only: a tuple has no place to tell None"]


def kinds():
    """name -> child class factory (field names c0.. are disjoint from the parent's)"""
    i, s = int_, str_
    return {
        "two": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s())]),
        "one": lambda: ClassTy("Ch", [F("c0", i())]),
        "none": lambda: ClassTy("Ch", []),
        "dflt": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s(), default="d")]),
        "alldflt": lambda: ClassTy("Ch", [F("c0", i(), default=4), F("c1", Seq(i()), default_factory=list)]),
        "opt": lambda: ClassTy("Ch", [F("c0", OptTy(i())), F("c1", OptTy(s()), default="x")]),
        "rename": lambda: ClassTy("Ch", [F("c0", i(), rename="R0"), F("c1", s(), rename="r-1")]),
        "alias": lambda: ClassTy("Ch", [F("c0", i(), alias=["a0", "b0"]), F("c1", OptTy(s()), alias=["a1"])]),
        "camel": lambda: ClassTy("Ch", [F("c_long", i()), F("d_long", s(), default="q")], rename_all="camelcase"),
        "deny": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s(), default="d")], deny_unknown_fields=True),
        "skipnone": lambda: ClassTy("Ch", [F("c0", OptTy(i())), F("c1", i())], skip_if_none=True),
        "skipdflt": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s(), default="d")], skip_if_default=True),
        "skip": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s(), default="d", skip=True), F("c2", i(), default=2, skip_serializing=True)]),
        "skipif": lambda: ClassTy("Ch", [F("c0", i(), skip_if=is_three, default=3), F("c1", OptTy(s()), skip_if_false=True, default=None)]),
        "conv": lambda: ClassTy("Ch", [F("c0", i(), serializer=to_s, deserializer=from_s), F("c1", s())]),
        "cont": lambda: ClassTy("Ch", [F("c0", Seq(i())), F("c1", OptTy(date_()))]),
        "union": lambda: ClassTy("Ch", [F("c0", UnionTy(i(), s())), F("c1", In("A"))]),
        "coerce": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s())], type_check="coerce"),
        "disabled": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s())], type_check="disabled"),
        "plain": lambda: ClassTy("Ch", [F("c0", i()), F("c1", OptTy(s()))], how="plain"),
        "split": lambda: ClassTy("Ch", [F("c0", i()), F("c_1", s())], how="split", order="ds", rename_all="pascalcase"),
        "frozen": lambda: ClassTy("Ch", [F("c0", i()), F("c1", s())], dc={"frozen": True, "kw_only": True}),
        "inherit": lambda: ClassTy("Ch", [F("c1", s())], base=ClassTy("Ba", [F("c0", i())])),
        "extra": lambda: ClassTy("Ch", [F("c0", i()), F("c1", DictTy(s(), any_()), flatten=True)]),
        "onlyextra": lambda: ClassTy("Ch", [F("c1", DictTy(s(), any_()), flatten=True, default_factory=dict)]),
        "transparent": lambda: ClassTy("Ch", [F("t", ClassTy("In2", [F("c0", i()), F("c1", s())]))], transparent=True),
        "nested": lambda: ClassTy("Ch", [F("c0", i()), F("n", ClassTy("In2", [F("d0", i()), F("d1", s())]), flatten=True), F("c1", s())]),
    }


PCFG = {"": {}, "camel": {"rename_all": "pascalcase"}, "deny": {"deny_unknown_fields": True}, "skip": {"skip_if_none": True, "skip_if_default": True},
        "coerce": {"type_check": "coerce"}}
DFLT = ("req", "none", "fac")


def cvals(c):
    """A few objects of a child class, every combination of the first two values of its fields."""
    fs = [f for f in c.dfields if f.init]
    cols = []
    for f in fs:
        if f.flatten and isinstance(f.ty, DictTy):
            cols.append([{}, {"zz": 1, "yy": None}])
        elif c.fclass(f) and not isinstance(f.ty, OptTy):
            cols.append(cvals(c.fclass(f))[:2])
        elif isinstance(f.ty, ClassTy):
            cols.append(f.ty.values()[:2])
        else:
            vs = f.ty.values()
            pick = vs[:2] + ([None] if f.ty.optional and None not in vs[:2] else [])
            if f.has_default and isinstance(f.default, (int, str)) and f.default not in pick:
                pick = [*pick, f.default]
            cols.append(pick)
    return [c.py()(**{f.fname: fresh(v) for f, v in zip(fs, p)}) for p in itertools.product(*cols)]


def sample(c, direction="de"):
    """{key: valid datum} for every key the class knows, incl. aliases and nested children."""
    out = {}
    if c.c("transparent", "de"):
        return sample(c.the_field().ty)
    for f in c.dfields:
        ch = c.fclass(f)
        if ch:
            out.update(sample(ch))
        elif not c.fdict(f):
            v = next(v for v in f.ty.values() if v is not None)
            d = f.serializer(v) if f.serializer else f.ty.ser(v, c.ctx(O(), "ser"))
            for k in [c.wire(f, "de"), *(f.alias or [])]:
                out[k] = d
    return out


def read_all(t, c, sub="", limit=7):
    """Every subset of the known keys (and an unknown one), each key once with a wrong and a null value."""
    s = api()
    base = sample(c)
    keys = list(base)
    opt = keys[:limit]
    rest = {k: base[k] for k in keys[limit:]}
    for r in range(len(opt) + 1):
        for ks in itertools.combinations(opt, r):
            for extra in ({}, {"unk": 1}, {"unk": None, "u2": {"x": [1]}}):
                one(t, c, {**{k: base[k] for k in ks}, **rest, **extra}, sub)
                if len(ks) > 1 and extra:
                    one(t, c, {**extra, **rest, **{k: base[k] for k in reversed(ks)}}, sub)
    for k in keys:
        for bad in (None, object, [], {}, 0, "x", {"c0": 1}):
            d = dict(base)
            d[k] = bad
            one(t, c, d, sub)
    for d in ({}, {"unk": 1}, None, {f.fname: sample(c) for f in c.dfields}):
        one(t, c, d, sub)


def one(t, c, d, sub):
    s = api()
    exp = model(c.de, d, O())
    if exp is None:
        return
    t.state(c.name, canon(d))
    before = canon(d)
    got = t.call(s.from_dict, c.py(), d)
    compare_de(t, f"{sub}read {before:.120}", c, exp, got, data=before)
    t.check(canon(d) == before, f"{sub}read {before:.120} unchanged", "the data was modified")


def write_all(t, c, objs, tuples=True, sub="", formats=True, exact=True):
    """Both shapes and every format; reading back gives the object."""
    s = api()
    for n, obj in enumerate(objs):
        b = canon(obj)
        t.state(c.name, "obj", b)
        for named in (True, False) if tuples else (True,):
            for sn in (False, True) if named else (False,):
                exp = model(c.ser, obj, O(named=named, skip_none=sn))
                if exp is None:
                    continue
                lab = f"{sub}{'dict' if named else 'tuple'} {b:.80}" + (" skip_none" if sn else "")
                got = t.call(s.to_dict if named else s.to_tuple, obj, **({"skip_none": True} if sn else {}))
                if not compare_ser(t, lab, exp, got, ordered=False, obj=b) or exp[0] != "ok":
                    continue
                ed = model(c.de, got[1], O(named=named))
                if ed is not None:
                    compare_de(t, lab + " back", c, ed, t.call(s.from_dict if named else s.from_tuple, c.py(), got[1]), wire=canon(got[1]))
        t.check(canon(obj) == b, f"{sub}{b:.80} unchanged", "serialization modified the object")
    if formats:
        fmt_paths(t, c, objs, sub=sub, which={k: f for k, f in fmts().items() if f.named or tuples})


def wrap(ch, opt, dk):
    ty = OptTy(ch) if opt else ch
    kw = {}
    if dk == "none":
        kw["default"] = None
    elif dk == "fac":
        kw["default_factory"] = lambda ch=ch: cvals(ch)[-1]
    return F("ch", ty, flatten=True, kw_only=True, **kw)


def parents(f, cfg):
    """The flattened field alone, first, in the middle, last."""
    p = lambda n, **kw: F(n, int_(), kw_only=True, **kw)  # noqa: E731
    yield "alone", ClassTy("P", [f], **cfg)
    yield "first", ClassTy("P", [f, p("p_1"), F("p_2", OptTy(str_()), kw_only=True)], **cfg)
    yield "mid", ClassTy("P", [p("p_1"), f, F("p_2", OptTy(str_()), kw_only=True, default="pd")], **cfg)
    yield "last", ClassTy("P", [p("p_1", rename="x-1"), F("p_2", str_(), default="e", kw_only=True, alias=["al"]), f], **cfg)


def objects(p, opt, few=False):
    """Objects of the parent: every child object (and None) with two versions of the other fields."""
    out = []
    for n, f in enumerate(p.dfields):
        pass
    cols = []
    for f in p.dfields:
        ch = p.fclass(f)
        if ch:
            cols.append((cvals(ch)[:8]) + ([None] if isinstance(f.ty, OptTy) else []))
        elif p.fdict(f):
            cols.append([{}, {"e1": 1}, {"e1": None, "e2": {"k": [1, None]}}])
        else:
            cols.append([v for v in f.ty.values()[:2]] + ([None] if f.ty.optional else []))
    n = 0
    for pick in itertools.product(*cols):
        out.append(p.py()(**{f.fname: fresh(v) for f, v in zip(p.dfields, pick)}))
    return out[:24] if few else out[:120]


def cases(tier):
    ks = kinds()
    # (a)
    for name, mk in ks.items():
        for opt in (False, True):
            for dk in DFLT:
                if dk == "none" and not opt:
                    continue
                for ck, cfg in PCFG.items():
                    if ck == "coerce" and name not in ("two", "opt", "nested", "conv"):
                        continue

                    def run(t, mk=mk, opt=opt, dk=dk, cfg=cfg, ck=ck):
                        for lab, p in parents(wrap(mk(), opt, dk), cfg):
                            p.py()
                            write_all(t, p, objects(p, opt, few=ck != "" or lab != "mid"), tuples=not opt, sub=lab + " ", formats=lab == "mid" and (ck in ("", "skip") or tier == "thorough"))
                            read_all(t, p, lab + " ", 6 if tier == "thorough" else (6 if ck in ("", "deny") else 4))

                    yield Case(f"child {name}{'?' if opt else ''} {dk} {ck}", run)
                    if ck == "":
                        def run2(t, run=run):
                            from serde.core import FlattenOpts

                            uni.FLATTEN[0] = FlattenOpts
                            try:
                                run(t)
                            finally:
                                uni.FLATTEN[0] = None
                        yield Case(f"child {name}{'?' if opt else ''} {dk} FlattenOpts()", run2)

    # two children, every ordered pair (field names of the second are prefixed by nesting into a renaming class)
    def second():
        return {
            "two": lambda: ClassTy("Se", [F("s0", int_()), F("s1", str_())]),
            "opt": lambda: ClassTy("Se", [F("s0", OptTy(int_())), F("s1", str_(), default="d")], rename_all="pascalcase"),
            "deny": lambda: ClassTy("Se", [F("s0", int_(), alias=["sa"])], deny_unknown_fields=True),
            "conv": lambda: ClassTy("Se", [F("c0", int_(), serializer=to_s, deserializer=from_s, rename="s9")]),
            "dict": None,
        }

    for name, mk in ks.items():
        for n2, mk2 in second().items():
            for opt in (0, 1, 2):
                def run(t, mk=mk, mk2=mk2, opt=opt):
                    a = F("ch", OptTy(mk()) if opt & 1 else mk(), flatten=True)
                    b = F("se", OptTy(mk2()) if opt & 2 else mk2(), flatten=True) if mk2 else F("se", DictTy(str_(), any_()), flatten=True)
                    for order in ((a, b), (b, a)):
                        p = ClassTy("P", [F("p_1", int_()), order[0], F("p_2", int_()), order[1]])
                        write_all(t, p, objects(p, opt, few=True), tuples=not opt, sub=f"{order[0].fname} ", formats=opt == 0)
                        read_all(t, p, f"{order[0].fname} ", 6)

                yield Case(f"pair {name} {n2} {opt}", run)

    # (b) flattened dicts
    for dk in ("dictany", "bare"):
        for dflt in ("req", "fac", "skip"):
            for ck, cfg in PCFG.items():
                def run(t, dk=dk, dflt=dflt, cfg=cfg):
                    s = api()
                    ty = lambda: DictTy(str_(), any_()) if dk == "dictany" else BareTy("dict")  # noqa: E731
                    kw = {"req": {}, "fac": {"default_factory": lambda: {"dd": 1}}, "skip": {"default_factory": dict, "skip_serializing": True}}[dflt]
                    ex = lambda: F("extra", ty(), flatten=True, kw_only=True, **kw)  # noqa: E731
                    q = lambda n, *a, **k: F(n, *a, kw_only=True, **k)  # noqa: E731
                    for lab, fs in {
                        "alone": [ex()],
                        "first": [ex(), q("p_1", int_()), q("p_2", OptTy(str_()))],
                        "mid": [q("p_1", int_(), rename="x-1"), ex(), q("p_2", str_(), default="d", alias=["al", "bl"])],
                        "last": [q("p_1", int_()), q("p_2", Seq(int_()), default_factory=list), ex()],
                        "skipped": [q("p_1", int_()), ex(), q("p_2", int_(), default=2, skip=True), q("p_3", int_(), default=3, skip_serializing=True)],
                    }.items():
                        p = ClassTy("P", fs, **cfg)
                        write_all(t, p, objects(p, False), tuples=False, sub=lab + " ")
                        read_all(t, p, lab + " ", 6)
                        # contents that use the name of a declared field: the declared one wins
                        for f in p.dfields:
                            if f.flatten or f.skip or f.skip_serializing:
                                continue
                            o = objects(p, False)[0]
                            o.extra = {p.wire(f): "other", "e": 1}
                            write_all(t, p, [o], tuples=False, sub=lab + " conflict ", formats=False)

                yield Case(f"dict {dk} {dflt} {ck}", run)

    # (c) three levels
    inner = list(ks) if tier == "thorough" else ["two", "dflt", "rename", "extra", "deny", "camel", "alldflt"]
    for name in inner:
        for o1, o2 in itertools.product((False, True), repeat=2):
            for mids in ("", "deny", "rename", "extra"):
                def run(t, name=name, o1=o1, o2=o2, mids=mids):
                    ch = ks[name]()
                    kw = {"deny": {"deny_unknown_fields": True}, "rename": {"rename_all": "uppercase"}}.get(mids, {})
                    fs = [F("m_0", int_()), F("ch", OptTy(ch) if o1 else ch, flatten=True)]
                    if mids == "extra":
                        fs.append(F("ex", DictTy(str_(), any_()), flatten=True))
                    mid = ClassTy("Mid", fs, **kw)
                    for dict_top in (False, True):
                        top = [F("p_1", int_()), F("mid", OptTy(mid) if o2 else mid, flatten=True), F("p_2", OptTy(int_()))]
                        if dict_top:
                            top.append(F("ex", DictTy(str_(), any_()), flatten=True))
                        p = ClassTy("P", top)
                        write_all(t, p, objects(p, False, few=True), tuples=not (o1 or o2), sub=f"{dict_top} ", formats=False)
                        read_all(t, p, f"{dict_top} ", 6)

                yield Case(f"three {name} {int(o1)}{int(o2)} {mids}", run)

    # (d) identifiers
    idents = ["flatten_extra", "flatten_known_fields", "ch_flatten_data", "known_fields", "unknown_fields", "data", "cls", "res", "obj", "subres", "k", "v",
              "__k", "reuse_instances", "maybe_generic", "serde_scope", "extra", "flattened"]
    for a in idents:
        def run(t, a=a):
            ch = ClassTy("Ch", [F("c0", int_()), F("c1", str_(), default="d")])
            for b in idents:
                if a == b:
                    continue
                for fs in ([F(a, int_()), F("ch", ch, flatten=True), F(b, DictTy(str_(), any_()), flatten=True)],
                           [F(a, int_()), F(b, ch, flatten=True), F("ex", DictTy(str_(), any_()), flatten=True)],
                           [F(a, ch, flatten=True), F(b, DictTy(str_(), any_()), flatten=True), F("ch_flatten_data", int_())] if "ch_flatten_data" not in (a, b) else []):
                    if not fs:
                        continue
                    p = ClassTy("P", fs)
                    write_all(t, p, objects(p, False)[:6], tuples=False, sub=b + " ", formats=False)
                    for d in ({"c0": 1, "u": 2}, {"c0": 1, a: 3, "u": 2}, {"c0": 1, a: 3, b: 4, "ch_flatten_data": 5}, {"ch_flatten_data": 5, "c0": 2}):
                        one(t, p, d, b + " ")

        yield Case(f"ident {a}", run)

    # inside other types: a class that flattens, in containers, Optionals, unions and formats
    for name in ("two", "opt", "rename", "extra", "nested"):
        def run(t, name=name):
            p = ClassTy("P", [F("p_1", int_()), F("ch", ks[name](), flatten=True)])
            objs = objects(p, False)[:4]
            for key, mk in UNARY.items():
                ty = apply(key, p) if False else mk(p)
                if ty is None:
                    continue
                try:
                    q = ClassTy("Q", [F("v", ty)])
                    vs = q.values()[:4]
                except Exception:  # noqa: BLE001
                    continue
                write_all(t, q, vs, tuples=False, sub=key + " ")
            other = ClassTy("Ot", [F("o", int_())])
            for tag in (EXT, INT, ADJ):
                q = ClassTy("Q", [F("v", UnionTy(p, other))], tagging=tag)
                write_all(t, q, [q.py()(v=o) for o in objs], tuples=False, sub=f"{tag} ")

        yield Case(f"inside {name}", run)

    # declarations that make no sense are refused
    def run(t):
        s = api()
        for ty in (int_(), str_(), Seq(In("A")), DictTy(str_(), int_()), UnionTy(In("A"), In("B")), OptTy(int_()), TupTy(int_(), int_())):
            r = t.call(lambda ty=ty: ClassTy("P", [F("v", ty, flatten=True)]).py())
            t.check(r[0] == "err" and isinstance(r[1], s.SerdeError), ty.name, "flatten of an unsupported type must be refused", got=desc(r))

    yield Case("unsupported", run)
