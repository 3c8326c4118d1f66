"""C23: dataclass features keep their meaning."""
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import UserRaised

RULE = ("every ordered tuple of field kinds (required, defaulted, factory, Optional, keyword-only, init=False with default / factory / set in __post_init__, InitVar with "
        "and without default, ClassVar, nested class) x dataclass options x position of a KW_ONLY marker x split between base and derived class x way of declaring; "
        "every subset of the keys given, every mutation of one part, both shapes; the result and the log of __post_init__ calls (arguments and object state) must "
        "equal those of calling the constructor by hand with the converted values")
BOUNDS = {"quick": "classes of up to 3 fields over 20 kinds with default options; of 2 fields with every option, split and declaration",
          "thorough": "3 fields with every option; 4 fields over 10 kinds"}

LOG: list = []


def kinds():
    """name -> (type, F arguments, values passed to the constructor or None)"""
    ch = []
    child = lambda: ch[0] if ch else ch.append(mkchild()) or ch[0]  # noqa: E731
    mkchild = lambda: ClassTy("Ch", [F("x", path_()), F("y", int_(), default=2)], ns={"__post_init__": logged(None)})  # noqa: E731
    return {
        "req": lambda: (path_(), {}, ["/a", "b"]),
        "int": lambda: (int_(), {}, [3]),
        "dflt": lambda: (date_(), {"default": dt.date(2020, 1, 2)}, None),
        "fac": lambda: (Seq(path_()), {"default_factory": lambda: [pathlib.Path("/f")]}, None),
        "opt": lambda: (OptTy(int_()), {}, None),
        "optn": lambda: (OptTy(path_()), {"default": None}, None),
        "kw": lambda: (path_(), {"kw_only": True}, None),
        "kwd": lambda: (int_(), {"kw_only": True, "default": 8}, None),
        "nod": lambda: (int_(), {"init": False, "default": 5}, None),
        "nof": lambda: (Seq(int_()), {"init": False, "default_factory": lambda: [6]}, None),
        "nop": lambda: (str_(), {"init": False}, None),
        "nops": lambda: (str_(), {"init": False, "skip": True}, None),
        "nopd": lambda: (str_(), {"init": False, "skip_deserializing": True}, None),
        "nods": lambda: (int_(), {"init": False, "skip_serializing": True, "default": 4}, None),
        "iv": lambda: (int_(), {"initvar": True, "default": 9}, None),
        "ivr": lambda: (int_(), {"initvar": True}, None),
        "cv": lambda: (path_(), {"classvar": True, "default": pathlib.Path("/cv")}, None),
        "nest": lambda: (child(), {}, None),
        "nestl": lambda: (Seq(child()), {"default_factory": list}, None),
        "nocmp": lambda: (int_(), {"compare": False, "default": 1}, None),
    }


def logged(nops):
    """__post_init__ that logs its call and sets the fields that only it sets."""
    def post(self, *a, **k):
        state = {n: canon(getattr(self, n)) for n in type(self).__dataclass_fields__ if hasattr(self, n) and n not in (nops or ())}
        LOG.append((type(self).__name__, a, sorted(k.items()), sorted(state.items())))
        for n in nops or ():
            object.__setattr__(self, n, f"set{len(a)}")

    return post


DCS = {"": {}, "frozen": {"frozen": True}, "slots": {"slots": True}, "kw_only": {"kw_only": True}, "fs": {"frozen": True, "slots": True}, "noeq": {"eq": False},
       "order": {"order": True}, "hash": {"unsafe_hash": True}, "norepr": {"repr": False, "match_args": False}, "weak": {"slots": True, "weakref_slot": True}}


def build(ks, how="serde", split=None, base_how="serde", dc=None, kwafter=None, post=True, override=None, **cfg):
    kk = kinds()  # one child class
    fs = [F(f"f{i}", (r := kk[k]())[0], **r[1]) for i, k in enumerate(ks)]
    nops = [f.fname for f, k in zip(fs, ks) if k.startswith("nop")]
    ns = {"__post_init__": logged(nops)} if post or nops else {}
    vals = lambda c: []  # noqa: E731
    if split is None:
        return ClassTy("C", fs, how=how, ns=ns, dc=dc, kwafter=kwafter, vals=vals, **cfg)
    base = ClassTy("B", fs[:split], how=base_how, ns=ns if override == "base" else {}, dc=dc, vals=vals, **(cfg if base_how == "serde" else {}))
    own = fs[split:]
    if override == "redeclare" and split:
        own = [F("f0", int_(), default=44)] + own
    return ClassTy("C", own, how=how, ns={} if override == "base" else ns, base=base, dc=dc, kwafter=kwafter, vals=vals, **cfg)


def objects(c):
    """Objects constructed by hand: all fields given, and as few as possible."""
    init = [f for f in c.fields if f.init and not f.classvar]
    cls = c.py()
    out = [{f.fname: f.ty.values()[0] for f in init}, {f.fname: f.ty.values()[-1] for f in init if not f.has_default}]
    return [cls(**kw) for kw in out]


def compare(t, c, named, d, lab):
    s = api()
    o = O(named=named)
    LOG.clear()
    try:
        exp = model(c.de, fresh(d), o)
    except UserRaised as e:
        exp = ("user", e.inner)
    want = list(LOG)
    LOG.clear()
    if exp is None:
        return
    got = t.call(s.from_dict if named else s.from_tuple, c.py(), fresh(d))
    have = list(LOG)
    t.state(c.name, named, canon(d))
    if exp[0] == "user":
        t.check(got[0] == "err" and type(got[1]) is type(exp[1]), lab, "calling the constructor by hand fails, deserialization does not", expected=repr(exp[1]), got=desc(got), data=canon(d))
        return
    if exp[0] != "ok" and got[0] == "err" and type(got[1]) is TypeError and any(f.initvar and not f.has_default for f in c.fields):
        return  # which of the two faults is met first is left open
    if compare_de(t, lab, c, exp, got, data=canon(d)) and exp[0] == "ok":
        t.check(have == want, lab + " post_init", "__post_init__ ran differently than by hand", expected=want, got=have, data=canon(d))
        t.check(type(got[1]) is c.py() and vars_of(got[1]) == vars_of(exp[1]), lab + " state", "attributes differ from those by hand",
                expected=vars_of(exp[1]), got=vars_of(got[1]), data=canon(d))


def vars_of(o):
    names = list(getattr(o, "__dict__", {})) or [n for k in type(o).__mro__ for n in getattr(k, "__slots__", ())]
    return sorted((n, canon(getattr(o, n))) for n in names if hasattr(o, n))


def explore(t, c, formats=False, mutate=True):
    s = api()
    try:
        c.py()
    except TypeError as e:
        if "default argument" in str(e) or "annotation for an InitVar" in str(e):
            t.outcome("dataclass refuses")
            return
        raise
    try:
        objs = objects(c)
    except UserRaised:
        return
    for n, o in enumerate(objs):
        for named in (True, False):
            exp = model(c.ser, o, O(named=named, reuse=False, sets=True))
            if exp is None:
                continue
            LOG.clear()
            got = t.call(s.to_dict if named else s.to_tuple, o, reuse_instances=False, convert_sets=True)
            shape = "dict" if named else "tuple"
            if not compare_ser(t, f"v{n} {shape} ser", exp, got, obj=canon(o)):
                continue
            t.check(not LOG, f"v{n} {shape} ser constructs", "serialization constructed objects", log=LOG)
            t.state(c.name, "ser", canon(exp[1]))
            compare(t, c, named, exp[1], f"v{n} {shape}")
            d = exp[1]
            if named:
                keys = list(d)
                for r in range(len(keys)):
                    for sub in itertools.combinations(keys, r):
                        compare(t, c, True, {k: d[k] for k in sub}, f"v{n} subset {sub}")
                # names of pseudo-fields and of fields outside the constructor are no input
                compare(t, c, True, {**d, **{f.fname: 123 for f in c.fields if f.initvar or f.classvar or not f.init}}, f"v{n} pseudo")
            else:
                for ln in range(len(d) + 2):
                    compare(t, c, False, (d + (99,))[:ln], f"v{n} length {ln}")
            if mutate:
                for lab, m in mutations(d, [None, "x", 1]):
                    compare(t, c, named, m, f"v{n} {shape} {lab}")
    if formats:
        fmt_paths(t, c, objs)


def cases(tier):
    names = list(kinds())
    th = tier == "thorough"
    for n in (0, 1, 2, 3):
        for ks in itertools.product(names, repeat=n):
            if n == 3 and not th and len(set(ks)) < 3 and ks[0] != ks[2]:
                continue
            yield Case("plain " + "-".join(ks), lambda t, ks=ks: explore(t, build(ks), formats=len(ks) < 3 and "ivr" not in ks, mutate=len(ks) < 3))
    small = ["req", "dflt", "fac", "kw", "kwd", "nod", "iv", "cv", "nest", "opt"]
    if th:
        for ks in itertools.product(small, repeat=4):
            yield Case("four " + "-".join(ks), lambda t, ks=ks: explore(t, build(ks), mutate=False))
    reps = 3 if th else 2
    for ks in itertools.product(names, repeat=reps):
        for dn, dc in DCS.items():
            if dn:
                yield Case(f"dc {dn} " + "-".join(ks), lambda t, ks=ks, dc=dc: explore(t, build(ks, dc=dc), mutate=False))
        for how in ("auto", "split"):
            yield Case(f"how {how} " + "-".join(ks), lambda t, ks=ks, how=how: explore(t, build(ks, how=how), mutate=False))
        for at in range(len(ks) + 1):
            yield Case(f"KW_ONLY {at} " + "-".join(ks), lambda t, ks=ks, at=at: explore(t, build(ks, kwafter=at), mutate=False))
        for sp in range(len(ks) + 1):
            for bh in ("serde", "plain"):
                for ov in ("base", "derived", "redeclare"):
                    yield Case(f"inherit {sp} {bh} {ov} " + "-".join(ks),
                               lambda t, ks=ks, sp=sp, bh=bh, ov=ov: explore(t, build(ks, split=sp, base_how=bh, override=ov), mutate=False))
        yield Case("classvar " + "-".join(ks), lambda t, ks=ks: explore(t, build(ks, serialize_class_var=True), mutate=False, formats="cv" in ks and "ivr" not in ks))
        for cn, cfg in {"coerce": {"type_check": "coerce"}, "disabled": {"type_check": "disabled"}, "deny": {"deny_unknown_fields": True}, "camel": {"rename_all": "pascalcase"}}.items():
            yield Case(f"cfg {cn} " + "-".join(ks), lambda t, ks=ks, cfg=cfg: explore(t, build(ks, **cfg), mutate=False))
    # class variables of every type
    for n, a in ATOMS.items():
        for con in (None, "list", "opt", "dict"):
            if con and apply(con, a()) is None:
                continue

            def run(t, a=a, con=con):
                for on in (True, False):
                    for inh in (False, True):
                        ty = a() if con is None else apply(con, a())
                        fs = [F("p", int_()), F("c", ty, classvar=True, default=ty.values()[0]), F("q", str_())]
                        if inh:
                            c = ClassTy("D", [F("z", int_())], base=ClassTy("Bs", fs, serialize_class_var=on), serialize_class_var=on)
                        else:
                            c = ClassTy("C", fs, serialize_class_var=on)
                        c.py()
                        roundtrip(t, c, c.values())
                        fmt_paths(t, c, c.values())

            yield Case(f"cvtype {con}.{n}", run)
    unions = {"prim": lambda: UnionTy(int_(), str_()), "cls": lambda: UnionTy(In("A"), ClassTy("B", [F("z", path_())], how="plain")), "num": lambda: UnionTy(num_(), Seq(path_()))}
    for n, u in unions.items():
        for con in (None, "list", "opt", "dict"):
            def run(t, u=u, con=con):
                for tag in (EXT, UNT, INT, ADJ):
                    for i in range(4):
                        ty = u() if con is None else apply(con, u())
                        vs = ty.values()
                        if i < len(vs):
                            c = ClassTy("C", [F("p", int_()), F("c", ty, classvar=True, default=vs[i])], serialize_class_var=True, tagging=tag)
                            c.py()
                            roundtrip(t, c, c.values())

            yield Case(f"cvunion {con}.{n}", run)
