"""C10: absent fields get exactly their default; present ones never do."""
from ..junk import fresh
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c08 import distinct, field_types, hash_ok

RULE = ("(a) every field type x default kind (none, default, factory, None default) x absent / every present value incl. falsy, None and the default itself; "
        "(b) every ordered pair, triple (4-tuple) of field kinds x every subset of present keys x value choices, dict shape, plus tuple shape of every length, "
        "under class options (kw_only, deny, rename_all, type checks, inheritance); each factory must be called exactly once per object that lacks the field "
        "and never for one that has it, and two objects never share a mutable default")
BOUNDS = {"quick": "classes of 2 and 3 fields over 10 field kinds; field types of depth 1", "thorough": "also 4 fields; field types of depth 2"}


class Factory:
    """Default factory counting its calls."""

    def __init__(self, mk):
        self.mk, self.calls, self.__name__ = mk, 0, "factory"

    def __call__(self):
        self.calls += 1
        return self.mk()


def kinds():
    """name -> (type, field arguments, values to give)"""
    return {
        "req": lambda: (int_(), {}, [5, 0]),
        "reqs": lambda: (str_(), {}, ["s", ""]),
        "def": lambda: (int_(), {"default": 7}, [5, 0, 7]),
        "deff": lambda: (bool_(), {"default": True}, [False, True]),
        "opt": lambda: (OptTy(int_()), {}, [5, 0, None]),
        "optn": lambda: (OptTy(int_()), {"default": None}, [5, None]),
        "optd": lambda: (OptTy(str_()), {"default": "d"}, ["x", "", None, "d"]),
        "fac": lambda: (Seq(int_()), {"default_factory": Factory(lambda: [1])}, [[2], [], [1]]),
        "facd": lambda: (DictTy(str_(), int_()), {"default_factory": Factory(dict)}, [{"a": 1}, {}]),
        "faco": lambda: (OptTy(Seq(str_())), {"default_factory": Factory(lambda: ["q"])}, [["x"], [], None]),
    }


CFGS = {"": ({}, {}), "deny": ({"deny_unknown_fields": True}, {}), "camel": ({"rename_all": "pascalcase"}, {}), "coerce": ({"type_check": "coerce"}, {}),
        "disabled": ({"type_check": "disabled"}, {}), "kw_only": ({}, {"kw_only": True}), "frozen": ({}, {"frozen": True}), "slots": ({}, {"slots": True})}


def has_dflt(k):
    return "default" in k or "default_factory" in k


def facts(c):
    return [f.default_factory for f in c.fields if isinstance(f.default_factory, Factory)]


def mutables(v, out=None):
    out = [] if out is None else out
    if isinstance(v, (list, dict, set)):
        out.append(id(v))
    return out


def read(t, c, d, named, sub):
    """One deserialization: result, factory calls, independence of the defaults."""
    s = api()
    fs = facts(c)
    exp = model(c.de, fresh(d), O(named=named))
    if exp is None:
        return
    for f in fs:
        f.calls = 0
    fn = s.from_dict if named else s.from_tuple
    got = t.call(fn, c.py(), fresh(d))
    n = [f.calls for f in fs]
    t.state(c.name, named, canon(d))
    if not compare_de(t, sub, c, exp, got, data=canon(d)) or exp[0] != "ok":
        return
    if named:
        for f, k in zip([f for f in c.fields if isinstance(f.default_factory, Factory)], n):
            want = 0 if c.wire(f, "de") in d else 1
            t.check(k == want, sub + f" factory of {f.fname}", f"the factory was called {k} times instead of {want}", data=canon(d))
    again = t.call(fn, c.py(), fresh(d))
    if again[0] == "ok":
        for f in c.fields:
            if f.default_factory is MISSING:
                continue
            a, b = getattr(got[1], f.fname), getattr(again[1], f.fname)
            for v in (a, b):  # modify one, look at the other and at a third
                if isinstance(v, list):
                    v.append(99)
                elif isinstance(v, dict):
                    v["zz"] = 99
        third = t.call(fn, c.py(), fresh(d))
        t.check(third[0] == "ok" and same(third[1], exp[1]), sub + " independent", "a default was shared between objects", got=desc(third), expected=canon(exp[1]))


def make(combo, cfg, dc, split=None):
    ks = kinds()
    fs, vals = [], []
    for i, k in enumerate(combo):
        ty, kw, vs = ks[k]()
        fs.append(F(f"f_{i}", ty, **kw))
        vals.append(vs)
    if split:
        base = ClassTy("B", fs[:split], dc=dc, **cfg)
        return ClassTy("C", fs[split:], base=base, dc=dc, **cfg), vals
    return ClassTy("C", fs, dc=dc, **cfg), vals


def cases(tier):
    # (a) every type
    for key, mk in field_types(tier):
        if mk() is None:
            continue
        def run(t, mk=mk):
            s = api()
            ty = mk()
            vals = distinct(ty)
            for dk in ("none", "default", "factory", "None"):
                for v0 in vals:
                    kw = {}
                    if dk == "default":
                        if not hash_ok(v0):
                            continue
                        kw = {"default": v0}
                    elif dk == "factory":
                        kw = {"default_factory": Factory(lambda ty=ty, i=vals.index(v0): distinct(ty)[i])}
                    elif dk == "None":
                        if not ty.optional:
                            continue
                        kw = {"default": None}
                    f = F("v", ty, kw_only=True, **kw)
                    c = ClassTy("C", [F("p", int_(), kw_only=True), f, F("z", OptTy(int_()), kw_only=True)])
                    for present in [(), *[(v,) for v in distinct(ty)], (None,)]:
                        d = {"p": 1}
                        if present:
                            r = model(ty.ser, present[0], c.ctx(O(sets=True), "ser")) if present[0] is not None or ty.optional else ("ok", None)
                            if r is None or r[0] != "ok":
                                continue
                            d["v"] = r[1]
                        read(t, c, d, True, f"{dk} {d!r:.80}")
                    if dk in ("none", "None"):
                        break

        yield Case(f"type {key}", run)

    # (b) every combination of kinds
    names = list(kinds())
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for combo in itertools.product(names, repeat=n):
            order = [has_dflt(kinds()[k]()[1]) for k in combo]
            for ck, (cfg, dc) in CFGS.items():
                if n >= 3 and ck not in ("", "kw_only"):
                    continue
                if order != sorted(order) and not dc.get("kw_only"):
                    continue  # not a valid dataclass
                if n >= 3 and ck == "kw_only" and order == sorted(order):
                    continue
                for split in ([None] if n == 1 or ck == "slots" else [None, 1]):
                    def run(t, combo=combo, cfg=cfg, dc=dc, split=split, n=n):
                        c, vals = make(combo, cfg, dc, split)
                        c.py()
                        wires = [c.wire(f, "de") for f in c.fields]
                        for r in range(n + 1):
                            for sub in itertools.combinations(range(n), r):
                                choices = [vals[i] for i in sub]
                                picks = itertools.product(*choices) if n < 3 else [tuple(c0[j % len(c0)] for c0 in choices) for j in range(3 if choices else 1)]
                                for pick in picks:
                                    d = {wires[i]: fresh(v) for i, v in zip(sub, pick)}
                                    read(t, c, d, True, f"{d}")
                        for j in range(3):
                            full = tuple(fresh(v[j % len(v)]) for v in vals)
                            for ln in range(n + 1):
                                read(t, c, full[:ln], False, f"tuple {full[:ln]}")

                    yield Case(f"class {'.'.join(combo)} {ck} {'inherit' if split else ''}", run)

    # nested: the class with defaults inside another one, in containers, in every format
    for combo in itertools.product(names, repeat=2):
        def run(t, combo=combo):
            s = api()
            inner, vals = make(combo, {}, {"kw_only": True})
            outer = ClassTy("Out", [F("x", inner), F("l", Seq(inner), default_factory=list), F("o", OptTy(inner), default=None), F("m", DictTy(str_(), inner), default_factory=dict)])
            wires = [inner.wire(f) for f in inner.fields]
            for r in range(3):
                for sub in itertools.combinations(range(2), r):
                    d = {wires[i]: fresh(vals[i][0]) for i in sub}
                    for data in ({"x": d}, {"x": d, "l": [d, {}]}, {"x": d, "o": d, "m": {"k": d}}, {"o": d}, {"x": d, "l": None}):
                        exp = model(outer.de, fresh(data), O())
                        compare_de(t, f"{data}", outer, exp, t.call(s.from_dict, outer.py(), fresh(data)), data=canon(data))
                        for name, f in fmts().items():
                            if not f.named:
                                continue
                            try:
                                text = f.enc(data)
                                lib = f.dec(text)
                            except Exception:  # noqa: BLE001
                                continue
                            compare_de(t, f"{name} {data}", outer, model(outer.de, lib, O(numbers=f.numbers, reuse=False)), t.call(f.read, outer.py(), text), data=canon(data))

        yield Case(f"nested {'.'.join(combo)}", run)

    # a subclass overriding the default of its base, in both directions
    for a, b in itertools.product([k for k in names if k not in ("req", "reqs")], repeat=2):
        def run(t, a=a, b=b):
            ka, kb = kinds()[a](), kinds()[b]()
            base = ClassTy("B", [F("v", ka[0], **ka[1]), F("w", OptTy(int_()), default=4)])
            kw = dict(kb[1])
            if not has_dflt(kw) and "default" in ka[1]:
                kw["default"] = ka[1]["default"]  # dataclasses take over the attribute of the base class
                if not kb[0].conf(kw["default"]):
                    return
            sub = ClassTy("S", [F("v", kb[0], **kw)], base=base)
            for c, vs in ((base, ka[2]), (sub, kb[2]), (base, ka[2])):
                for v in vs:
                    for d in ({}, {"v": fresh(v)}, {"w": 1}, {"v": fresh(v), "w": None}):
                        read(t, c, d, True, f"{c.cname} {d}")

        yield Case(f"override {a} {b}", run)

    # fields skipped on reading always take the default; declaring one without default is an error
    def run(t):
        s = api()
        import dataclasses as dcs

        for opt in ("skip_deserializing",):
            r = t.call(lambda: ClassTy("Bad", [F("v", int_(), **{opt: True})]).py())
            t.check(r[0] == "err" and isinstance(r[1], s.SerdeError), opt, "accepted a field that can never be constructed", got=desc(r))
        for opt in ("skip", "skip_deserializing"):
            for k in ("def", "fac", "optd"):
                ty, kw, vs = kinds()[k]()
                c = ClassTy("C", [F("a", int_()), F("v", ty, **{opt: True}, **kw), F("z", int_(), default=3)])
                for d in ({"a": 1}, {"a": 1, "v": vs[0]}, {"a": 1, "v": object()}, {"a": 1, "v": None, "z": 9}):
                    exp = model(c.de, d, O())
                    compare_de(t, f"{opt} {k} {d!r:.40}", c, exp, t.call(s.from_dict, c.py(), d))

    yield Case("skipped on reading", run)

    def run(t):
        s = api()
        e = ClassTy("E", [])
        c = ClassTy("C", [F("e", e), F("o", OptTy(e)), F("l", Seq(e), default_factory=list)])
        for d in ({}, {"e": {}}, {"e": None}, {"e": {}, "o": None}, {"e": {}, "o": {}}, {"e": {}, "l": [{}]}, {"e": {}, "l": [None]}, {"e": {"x": 1}}):
            compare_de(t, f"{d}", c, model(c.de, d, O()), t.call(s.from_dict, c.py(), d))
        for d in ({}, None, {"q": 1}):
            compare_de(t, f"E {d}", e, model(e.de, d, O()), t.call(s.from_dict, e.py(), d))

    yield Case("class without fields", run)
