"""C33: classes mapped by SQLAlchemy are read and written like other dataclasses."""
import warnings

import sqlalchemy as sa
from sqlalchemy import orm

from ..convs import *  # noqa: F401,F403
from ..gen import Gen, Var
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..saty import SATy, SF, key, NATIVE
from ..uni import *  # noqa: F401,F403
from .c01 import types
from .c13 import direct, formats, has_union
from .c19 import full

RULE = ("(a) every type up to the depth bound as a mapped column (pickled, as JSON, natively where SQLAlchemy has a column type); (b) every ordered pair of column kinds (default, factory, nullable, "
        "init=False, keyword-only, deferred, compare=False, other column name, indexed) under every class option; (c) relationships (list, set, keyed dictionary, many-to-one, optional, two levels) ; "
        "(d) every way of mapping (common base, mixin per class, registry decorator, imperative, text annotations, mapped mixin, joined and single-table inheritance); (e) a mapped class at every "
        "position of an ordinary class, under every tagging, and given directly to the API; (f) every history of session operations up to the depth bound before the object is written, and "
        "after it has been read; values in dict and tuple shape, formats, every one-change datum")
BOUNDS = {"quick": "types of depth 1; pairs of 11 column kinds; histories of 3 operations", "thorough": "types of depth 2; triples; histories of 5 operations"}
ASSUMPTIONS = ["types of mapped attributes are not checked (documented: type_check=strict is not supported), serde.field() is not supported and not used", "objects whose attributes SQLAlchemy itself cannot load any more are not written"]


def quiet(fn):
    def run(t):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", sa.exc.SAWarning)
            fn(t)
    return run


# ---- (a)
def typed(t, ty, col, deep):
    c = SATy("C", [key(), SF("v", ty, col), SF("q", str_(), "native")])
    c.py()
    full(t, c, objs=c.values(), mut=True)
    if deep:
        fmt_paths(t, c, c.values()[:3], fopts=({}, {"skip_none": True}))
    w = ClassTy("W", [F("p", int_()), F("c", c), F("l", Seq(c), default_factory=list)])
    full(t, w, sub="in a class ", objs=w.values()[:2], mut=False)


# ---- (b)
def kinds():
    return {
        "req": lambda n: SF(n, path_(), "pickle"),
        "nat": lambda n: SF(n, date_(), "native"),
        "def": lambda n: SF(n, int_(), "native", default=7),
        "fac": lambda n: SF(n, Seq(path_()), "pickle", default_factory=lambda: [pathlib.Path("/f")]),
        "null": lambda n: SF(n, OptTy(str_()), "native"),
        "nulld": lambda n: SF(n, OptTy(uuid_()), "native", default=None),
        "noin": lambda n: SF(n, int_(), "native", default=5, init=False),
        "noinn": lambda n: SF(n, OptTy(str_()), "native", init=False),
        "kw": lambda n: SF(n, dec_(), "native", kw_only=True),
        "defer": lambda n: SF(n, path_(), "pickle", sa_kw={"deferred": True}),
        "nocmp": lambda n: SF(n, int_(), "native", compare=False, sa_kw={"index": True, "unique": True}),
        "other": lambda n: SF(n, path_(), "pickle", args=("col_" + n,)),
        "set": lambda n: SF(n, SetTy(int_()), "pickle"),
        "cv": lambda n: SF(n, path_(), "pickle", classvar=True, default=pathlib.Path("/cv")),
    }


CFGS = {"": {}, "camel": {"rename_all": "camelcase"}, "deny": {"deny_unknown_fields": True}, "coerce": {"type_check": "coerce"}, "noreuse": {"reuse_instances_default": False},
        "sets": {"convert_sets_default": True}, "skipd": {"skip_if_default": True}, "skipn": {"skip_if_none": True}, "cvs": {"serialize_class_var": True}}


def columns(t, ks, cfg, args):
    kk = kinds()
    c = SATy("C", [key()] + [kk[k](f"f_{i}") for i, k in enumerate(ks)], args=args, **cfg)
    try:
        c.py()
    except (TypeError, sa.exc.ArgumentError, sa.exc.InvalidRequestError) as e:
        t.check("default argument" in str(e) or "non-default" in str(e), "declare", "the declaration failed", error=repr(e))
        t.outcome("dataclass refuses")
        return
    objs = c.values()
    fewest = c.py()(**{f.fname: f.ty.values()[0] for f in c.fields if f.init and not f.classvar and not f.has_default})
    full(t, c, objs=objs + [fewest])


# ---- (c)
def child(fam, cname="Ch", **kw):
    return SATy(cname, [key(), SF("k", str_(), "native"), SF("v", path_(), "pickle"), SF("p_id", OptTy(int_()), "native", args=(sa.ForeignKey("p.id"),), default=None)], family=fam, **kw)


def relation(kind, cfg, chcfg):
    fam = {}
    p = lambda fs, **kw: SATy("P", [key()] + fs, family=fam, **kw, **cfg)  # noqa: E731
    if kind == "one":
        ch = SATy("Ch", [key(), SF("v", path_(), "pickle")], family=fam, **chcfg)
        return p([SF("ch_id", int_(), "native", args=(sa.ForeignKey("ch.id"),)), SF("ch", ch, "one")])
    if kind == "oneopt":
        ch = SATy("Ch", [key(), SF("v", path_(), "pickle")], family=fam, **chcfg)
        return p([SF("ch_id", OptTy(int_()), "native", args=(sa.ForeignKey("ch.id"),), default=None), SF("ch", OptTy(ch), "one", default=None)])
    if kind == "many":
        return p([SF("chs", Seq(child(fam, **chcfg)), "many")])
    if kind == "manyback":
        return p([SF("chs", Seq(child(fam, **chcfg)), "many", sa_kw={"backref": "parent"}), SF("z", int_(), "native", kw_only=True)])
    if kind == "manydef":
        return p([SF("chs", Seq(child(fam, **chcfg)), "many", default_factory=list), SF("z", int_(), "native", default=1)])
    if kind == "lazy":
        return p([SF("chs", Seq(child(fam, **chcfg)), "many", sa_kw={"lazy": "selectin", "cascade": "all, delete-orphan"})])
    if kind == "set":
        return p([SF("chs", SetTy(child(fam, args={"unsafe_hash": True}, **chcfg)), "set")])
    if kind == "map":
        return p([SF("chs", DictTy(str_(), child(fam, **chcfg)), "map")], vals=lambda c: [mapped(c, 0), mapped(c, 1), mapped(c, 2)])
    if kind == "two":
        sub = SATy("Sub", [key(), SF("w", Seq(path_()), "pickle"), SF("c_id", OptTy(int_()), "native", args=(sa.ForeignKey("ch.id"),), default=None)], family=fam)
        ch = SATy("Ch", [key(), SF("p_id", OptTy(int_()), "native", args=(sa.ForeignKey("p.id"),)), SF("subs", Seq(sub), "many")], family=fam, **chcfg)
        return p([SF("chs", Seq(ch), "many")])
    raise AssertionError(kind)


def mapped(c, n):
    ch = c.fields[1].ty.v
    objs = ch.values()[:n]
    for i, x in enumerate(objs):
        x.k = f"k{i}"
    return c.py()(id=n, chs={x.k: x for x in objs})


RELATIONS = ("one", "oneopt", "many", "manyback", "manydef", "lazy", "set", "map", "two")


def related(t, kind, cfg, chcfg):
    c = relation(kind, cfg, chcfg)
    for x in c.walk():
        if isinstance(x, SATy):
            x.py()
    full(t, c, objs=c.values())
    fmt_paths(t, c, c.values()[:2], fopts=({},))


# ---- (d)
WAYS = ("base", "mix", "reg", "imp", "text", "inner")


def ways(t, way, cfg):
    c = SATy("C", [key(), SF("v", path_()), SF("o", OptTy(Seq(date_())), default=None), SF("u", UnionTy(int_(), str_()), default=3)], way=way, **cfg)
    c.py()
    full(t, c, objs=c.values())
    fmt_paths(t, c, c.values()[:2], fopts=({},))


def inherited(t, kind, cfg, subcfg, how):
    fam = {}
    mapper = {"polymorphic_identity": "b", "polymorphic_on": "kind"}
    if kind == "mixin":
        m = orm.MappedAsDataclass
        mix = type("Mix", (m,), {"__module__": "mc_sa", "__annotations__": {"made": orm.Mapped[dt.date], "by": orm.Mapped[Optional[str]]},
                                 "made": orm.mapped_column(default=dt.date(2020, 1, 1), kw_only=True), "by": orm.mapped_column(default=None, kw_only=True)})
        c = SATy("C", [key(), SF("v", path_())], family=fam, more=(mix,), **subcfg)
        c.inh = [SF("made", date_(), default=dt.date(2020, 1, 1), kw_only=True), SF("by", OptTy(str_()), default=None, kw_only=True)]
        c._fields = lambda c=c: c.inh + c.own
    else:
        b = SATy("B", [key(), SF("kind", str_(), "native"), SF("v", path_())], family=fam, ns={"__mapper_args__": mapper}, how=how, **cfg)
        if kind == "joined":
            c = SATy("C", [SF("id", int_(), "key", args=(sa.ForeignKey("b.id"),)), SF("w", Seq(path_())), SF("z", int_(), "native", default=3)], family=fam, base=b, ns={"__mapper_args__": {"polymorphic_identity": "c"}}, **subcfg)
        else:
            c = SATy("C", [SF("w", OptTy(Seq(path_())), default=None), SF("z", int_(), "native", default=3, sa_kw={"use_existing_column": True})], table=None, family=fam, base=b,
                     ns={"__mapper_args__": {"polymorphic_identity": "c"}, "__tablename__": None}, **subcfg)
    c.py()
    full(t, c, objs=c.values())
    if kind != "mixin" and how == "serde":
        full(t, b, sub="base ", objs=b.values())
        u = ClassTy("U", [F("u", UnionTy(c, b)), F("l", Seq(UnionTy(b, c)), default_factory=list)])
        full(t, u, sub="union ", objs=u.values())


# ---- (e)
def mkA(cname="A", fam=None, **kw):
    return SATy(cname, [key(), SF("my_v", path_()), SF("o", OptTy(int_()), "native", default=None)], family=fam, **kw)


POSITIONS = {
    "field": lambda a: F("x", a), "list": lambda a: F("x", Seq(a)), "deque": lambda a: F("x", Seq(a, "deque")), "dict": lambda a: F("x", DictTy(str_(), a)), "opt": lambda a: F("x", OptTy(a)),
    "tuple": lambda a: F("x", TupTy(a, int_())), "vtuple": lambda a: F("x", VarTup(a)), "union": lambda a: F("x", UnionTy(a, int_())), "unions": lambda a: F("x", Seq(UnionTy(str_(), a))),
    "two": lambda a: F("x", UnionTy(a, mkA("B"))), "flat": lambda a: F("x", a, flatten=True), "flatopt": lambda a: F("x", OptTy(a), flatten=True), "plain": lambda a: F("x", ClassTy("Pl", [F("a", a)], how="plain")),
    "renamed": lambda a: F("x", a, rename="y", alias=["z"]), "skipd": lambda a: F("x", OptTy(a), default=None, kw_only=True, skip_if_default=True), "nest": lambda a: F("x", ClassTy("N", [F("a", Seq(a)), F("b", OptTy(a))])),
}


def positioned(t, pos, cfg, acfg):
    a = mkA(**acfg)
    w = ClassTy("W", [F("p", int_()), POSITIONS[pos](a), F("q", str_())], **cfg)
    w.py()
    full(t, w, objs=w.values())
    fmt_paths(t, w, w.values()[:2], fopts=({},))


def generic(t):
    T = Var("T")
    g = Gen("G", [T], lambda T: [F("x", T), F("l", Seq(T))])
    c = ClassTy("W", [F("g", g.at(mkA())), F("h", g.at(int_()))])
    full(t, c, objs=c.values())


def holds_generic(t, way):
    T = Var("T")
    g = Gen("G", [T], lambda T: [F("x", T), F("l", Seq(T))])
    c = SATy("C", [key(), SF("g", g.at(path_())), SF("h", OptTy(g.at(int_())), default=None)], way=way)
    full(t, c, objs=c.values())


# ---- (f)
OPS = ("flush", "commit", "refresh", "expire", "query", "get", "readd", "merge", "rollback", "begin_nested", "touch")


def history(t, ops, kind):
    """The object written after a history of session operations; then what was read is stored and loaded again."""
    s = api()
    if kind == "plain":
        c = SATy("P", [key(), SF("v", path_()), SF("d", date_(), "native", sa_kw={"deferred": True}), SF("o", OptTy(str_()), "native", default=None)])
    else:
        c = relation(kind, {}, {})
    for x in c.walk():
        if isinstance(x, SATy):
            x.py()
    cls = c.py()
    eng = sa.create_engine("sqlite://")
    try:
        c.family["reg"].metadata.create_all(eng)
        obj = c.values()[-1]
        if kind in ("one", "oneopt", "many", "lazy", "manydef", "map"):
            obj.id = 1
        before = {n: s.to_dict(obj) if n else s.to_tuple(obj) for n in (True, False)}
        exp = {n: model(c.ser, obj, O(named=n)) for n in (True, False)}
        for n in (True, False):
            t.check(exp[n][0] == "ok" and same(exp[n][1], before[n]), f"new named={n}", "wrong representation of the new object", expected=desc(exp[n]), got=canon(before[n]))
        ident = obj.id
        for n, o in enumerate(("start", *ops)):
            ses = ses_start(eng, obj) if o == "start" else ses
            if o == "flush":
                ses.flush()
            elif o == "commit":
                ses.commit()
            elif o == "refresh":
                ses.flush()
                ses.refresh(obj)
            elif o == "expire":
                ses.flush()
                ses.expire(obj)
            elif o == "query":
                ses.commit()
                ses.close()
                ses = orm.Session(eng)
                obj = ses.scalars(sa.select(cls).where(cls.id == ident)).one()
            elif o == "get":
                ses.commit()
                ses.close()
                ses = orm.Session(eng)
                obj = ses.get(cls, ident)
            elif o == "readd":
                ses.commit()
                for a in [f.fname for f in c.dfields]:
                    getattr(obj, a)
                state_all(obj, c)
                ses.expunge_all()
                ses.close()
                ses = orm.Session(eng)
                ses.add(obj)
            elif o == "merge":
                ses.commit()
                state_all(obj, c)
                ses.expunge_all()
                ses.close()
                ses = orm.Session(eng)
                obj = ses.merge(obj)
            elif o == "rollback":
                ses.commit()
                ses.rollback()
            elif o == "begin_nested":
                with ses.begin_nested():
                    ses.flush()
            elif o == "touch":
                obj.v if hasattr(type(obj), "v") else obj.id
        for named in (True, False):
            got = t.call(s.to_dict if named else s.to_tuple, obj)
            t.state(kind, ops, named)
            exp2 = model(c.ser, obj, O(named=named))
            t.check(got[0] == "ok" and exp2[0] == "ok" and same(exp2[1], got[1]), f"written named={named}", "another representation after the history", expected=desc(exp2), got=desc(got))
            if kind == "plain":
                t.check(got[0] == "ok" and same(before[named], got[1]), f"kept named={named}", "the representation changed", expected=canon(before[named]), got=desc(got))
            back = t.call(s.from_dict if named else s.from_tuple, cls, got[1]) if got[0] == "ok" else got
            t.check(back[0] == "ok" and same(back[1], obj), f"read named={named}", "read back otherwise", got=desc(back), obj=canon(obj))
        ses.rollback()
        ses.close()
        if back[0] == "ok":
            with orm.Session(sa.create_engine("sqlite://")) as s2:
                c.family["reg"].metadata.create_all(s2.get_bind())
                w = s.to_dict(back[1])
                s2.add(back[1])
                s2.commit()
                s2.expire_all()
                again = s2.get(cls, ident)
                r = t.call(s.to_dict, again)
                if kind == "plain":
                    t.check(r[0] == "ok" and same(r[1], w), "stored", "an object that was read cannot be stored and written again", expected=canon(w), got=desc(r))
                else:
                    t.check(r[0] == "ok", "stored", "an object that was read cannot be stored and written again", got=desc(r))
    finally:
        eng.dispose()


def ses_start(eng, obj):
    ses = orm.Session(eng)
    ses.add(obj)
    return ses


def state_all(obj, c):
    """Load everything."""
    for f in c.dfields:
        v = getattr(obj, f.fname)
        for x in v.values() if isinstance(v, dict) else v if isinstance(v, (list, set)) else [v]:
            ct = REG.get(type(x))
            if ct:
                state_all(x, ct)


def cases(tier):
    th = tier == "thorough"
    for k, mk in types(tier):
        if mk() is None or (k.count(".") > 1 if not th else k.count(".") > 2):
            continue
        yield Case(f"type pickle {k}", quiet(lambda t, mk=mk: typed(t, mk(), "pickle", th)))
        if k in NATIVE or k.startswith("opt.") and k[4:] in NATIVE:
            yield Case(f"type native {k}", quiet(lambda t, mk=mk: typed(t, mk(), "native", th)))
        if k.startswith(("list", "dict", "opt")):
            yield Case(f"type json {k}", quiet(lambda t, mk=mk: typed(t, mk(), "json", th)))
    for n in (1, 2, 3) if th else (1, 2):
        for ks in itertools.product(kinds(), repeat=n):
            for ck, cfg in CFGS.items() if n < 3 else [("", {})]:
                for ak in ("", "kw_only") if n < 3 else ("",):
                    if n == 2 and not th and ck not in ("", "camel") and ks[1] not in ("def", "null"):
                        continue
                    yield Case(f"columns {ck} {ak} {' '.join(ks)}", quiet(lambda t, ks=ks, cfg=cfg, ak=ak: columns(t, ks, cfg, {ak: True} if ak else {})))
    for kind in RELATIONS:
        for ck, cfg in CFGS.items():
            for cc, ccfg in CFGS.items() if th or ck == "" else [("", {}), (ck, cfg)]:
                yield Case(f"relation {kind} {ck}/{cc}", quiet(lambda t, kind=kind, cfg=cfg, ccfg=ccfg: related(t, kind, cfg, ccfg)))
    for way in WAYS:
        for ck, cfg in CFGS.items():
            yield Case(f"way {way} {ck}", quiet(lambda t, way=way, cfg=cfg: ways(t, way, cfg)))
    for kind in ("mixin", "joined", "single"):
        for ck, cfg in CFGS.items():
            for sk, scfg in CFGS.items():
                for how in ("serde", "plain") if kind != "mixin" and ck == "" else ("serde",):
                    if kind == "mixin" and ck:
                        continue
                    yield Case(f"inherit {kind} {ck}/{sk} {how}", quiet(lambda t, kind=kind, cfg=cfg, scfg=scfg, how=how: inherited(t, kind, cfg, scfg, how)))
    tags = {"ext": {}, "unt": {"tagging": UNT}, "int": {"tagging": INT}, "adj": {"tagging": ADJ}}
    for pos in POSITIONS:
        for ck, cfg in {**CFGS, **tags}.items():
            for ak, acfg in CFGS.items() if th or not ck else (("", {}), ("camel", CFGS["camel"])):
                yield Case(f"position {pos} {ck} {ak}", quiet(lambda t, pos=pos, cfg=cfg, acfg=acfg: positioned(t, pos, cfg, acfg)))
    yield Case("generic", quiet(generic))
    for way in WAYS:
        yield Case(f"generic column {way}", quiet(lambda t, way=way: holds_generic(t, way)))
    for n, mk in {"self": lambda a: a, "list": Seq, "opt": OptTy, "dict": lambda a: DictTy(str_(), a), "tuple": lambda a: TupTy(a, int_()), "deque": lambda a: Seq(a, "deque")}.items():
        for ck, cfg in CFGS.items():
            def run(t, mk=mk, cfg=cfg):
                ty = mk(mkA(**cfg))
                direct(t, ty)
                formats(t, ty)
            yield Case(f"direct {n} {ck}", quiet(run))
    for kind in ("plain", "one", "oneopt", "many", "manydef", "lazy", "map"):
        for n in range(0, 6 if th else 4):
            for ops in itertools.product(OPS, repeat=n):
                if kind != "plain" and not th and n > 2 or kind != "plain" and n > 3:
                    continue
                yield Case(f"history {kind} {' '.join(ops)}", quiet(lambda t, ops=ops, kind=kind: history(t, ops, kind)))
