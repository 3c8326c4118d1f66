"""C08: names on the wire follow rename, rename_all and alias exactly."""
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403

RULE = ("(a) every case conversion of casefy x a set of identifier shapes; (b) every field type of the atom set and constructor set x naming options "
        "(rename, alias lists) x class options (rename_all, deny_unknown_fields) x default kind x skip option; the wire mapping is checked key by key and "
        "then read back from every combination of present keys (none, canonical, each alias, pairs, all) with every pair of distinct values; "
        "(c) every pair of naming options of two neighbouring fields and of an outer and a nested class")
BOUNDS = {"quick": "constructor depth 1 over all atoms for (b), 2 values per field", "thorough": "constructor depth 2"}
ASSUMPTIONS = ["casefy's functions define the case conversions"]

CASES = ["camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "upperkebabcase", "lowercase", "uppercase", "titlecase", "capitalcase",
         "sentencecase", "dotcase", "pathcase", "spinalcase", "alphanumcase"]
NAMES = ["a", "my_val", "my_long_name", "x1", "a_1b", "_p", "p_", "__d", "CamelCase", "UPPER_X", "data", "cls", "res", "obj", "v", "k", "from_", "type",
         "flatten_extra", "reuse_instances", "self_", "münze"]


def cases_of():
    import casefy

    return [c for c in CASES if hasattr(casefy, c)]


NAMING = {
    "plain": {},
    "rename": {"rename": "other"},
    "renameq": {"rename": "a\"b'\\\n{0}"},
    "alias": {"alias": ["al1", "al2"]},
    "rename+alias": {"rename": "other", "alias": ["al1", "my_val"]},
    "aliasq": {"alias": ['q"x', "myVal"]},
    "alias-other": {"alias": ["al1", "z_z"]},  # also the name of a neighbour: the neighbour still owns it
}
CFG = {"": {}, "camel": {"rename_all": "camelcase"}, "kebab": {"rename_all": "kebabcase"}, "deny": {"deny_unknown_fields": True},
       "camel+deny": {"rename_all": "camelcase", "deny_unknown_fields": True}}


def field_types(tier):
    from .c01 import types

    for key, mk in types(tier):
        if key.count(".") <= (2 if tier == "thorough" else 1):
            yield key, mk
    yield "opt.union", lambda: OptTy(UnionTy(int_(), str_()))
    yield "union", lambda: UnionTy(int_(), str_())
    yield "unioncls", lambda: UnionTy(In("A"), Fz("B"))
    yield "unionNone", lambda: UnionTy(int_(), str_(), NoneTy())
    yield "Any", any_
    yield "None", NoneTy


def subsets(names):
    yield ()
    for i, n in enumerate(names):
        yield (n,)
    for i in range(len(names)):
        for j in range(len(names)):
            if i != j:
                yield (names[i], names[j])
    if len(names) > 2:
        yield tuple(reversed(names))


def explore(t, c, f, raw, sub=""):
    """Read the class with every combination of present names of ``f``; ``raw``: plain values of the field."""
    s = api()
    names = [c.wire(f, "de"), *(f.alias or [])]
    extra = [n for n in ("my_val", "myVal", "my-val", "other", "unk") if n not in names]
    base = {}
    for g in c.dfields:
        if g is not f and not g.skip:
            r = model(g.ty.ser, g.ty.values()[0], c.ctx(O(), "ser"))
            base[c.wire(g)] = r[1]
    combos = list(subsets(names)) + [(e,) for e in extra] + [(names[0], e) for e in extra[:2]]
    for ks in combos:
        vals = [tuple(raw[(i + j) % len(raw)] for i in range(len(ks))) for j in range(len(raw) if ks else 1)]
        for n, vs in enumerate(vals):
            for front in (True, False):
                own = dict(zip(ks, vs))
                d = {**own, **{k: v for k, v in base.items() if k not in own}} if front else {**base, **own}
                if not front and len(base) < 1:
                    continue
                t.state(c.name, canon(d))
                exp = model(c.de, d, O())
                if exp is None:
                    continue
                compare_de(t, f"{sub}de {'+'.join(map(repr, ks))} v{n} {'front' if front else 'back'}", c, exp, t.call(s.from_dict, c.py(), d), data=canon(d))


def cases(tier):
    # (a) identifiers x case conversions
    for cs in [None, *cases_of()]:
        def run(t, cs=cs):
            kw = {"rename_all": cs} if cs else {}
            s = api()
            for nm in NAMES:
                for how in ("serde", "split"):
                    c = ClassTy("C", [F(nm, int_()), F("zz_top", OptTy(str_())), F("ren_amed", int_(), default=7, rename="fix_Ed")], how=how, **kw)
                    keys = [c.wire(f) for f in c.dfields]
                    if len(set(keys)) < 3 or "" in keys:
                        continue
                    roundtrip(t, c, c.values(), sub=f"{nm} {how} ", rt="exact")
                    for ks in itertools.chain.from_iterable(itertools.combinations([*keys, nm, "zz_top"], r) for r in range(1, 4)):
                        d = {k: {keys[0]: 1, keys[1]: "q", keys[2]: 3}.get(k, 9) for k in ks}
                        exp = model(c.de, d, O())
                        compare_de(t, f"{nm} {how} {ks}", c, exp, t.call(s.from_dict, c.py(), d), data=canon(d))

        yield Case(f"case {cs}", run)

    # (b) every type x naming x class options x default
    for key, mk in field_types(tier):
        if mk() is None:
            continue
        for nk, nv in NAMING.items():
            if key.count(".") and nk in ("renameq", "aliasq", "plain"):
                continue
            def run(t, mk=mk, nv=nv, key=key, nk=nk):
                ty = mk()
                vals = distinct(ty)
                for ck, cfg in CFG.items():
                    if key.count(".") and ck in ("kebab", "deny", "camel"):
                        continue
                    for dk in ("none", "default", "factory"):
                        kw = dict(nv)
                        if dk == "default":
                            if not hash_ok(vals[0]):
                                continue
                            kw["default"] = vals[0]
                        elif dk == "factory":
                            kw["default_factory"] = (lambda ty=ty: distinct(ty)[-1])
                        f = F("my_val", ty, kw_only=True, **kw)
                        c = ClassTy("C", [F("p_p", int_(), kw_only=True), f, F("z_z", str_(), kw_only=True)], **cfg)
                        cls = c.py()
                        objs = [cls(p_p=1, my_val=v, z_z="z") for v in vals]
                        roundtrip(t, c, objs, shapes=("dict",), opts=[(None, True)], sub=f"{ck} {dk} ", rt=True)
                        raw = []
                        for v in vals:
                            r = model(ty.ser, v, c.ctx(O(sets=True), "ser"))
                            if r and r[0] == "ok":
                                raw.append(r[1])
                        if raw:
                            explore(t, c, f, raw[:2], f"{ck} {dk} ")

            yield Case(f"{key} {nk}", run)

    # options that interact with naming: skips and converters
    inter = {
        "skip": {"skip": True}, "skip_serializing": {"skip_serializing": True}, "skip_deserializing": {"skip_deserializing": True},
        "skip_if": {"skip_if": is_three}, "skip_if_false": {"skip_if_false": True}, "skip_if_none": {"skip_if_none": True},
        "skip_if_default": {"skip_if_default": True}, "converter": {"serializer": to_s, "deserializer": from_s},
        "serializer": {"serializer": to_s}, "deserializer": {"deserializer": from_s},
    }
    for ik, iv in inter.items():
        for nk, nv in NAMING.items():
            for ck, cfg in CFG.items():
                def run(t, ik=ik, iv=iv, nv=nv, cfg=cfg):
                    s = api()
                    for ty in (int_(), OptTy(int_())):
                        f = F("my_val", ty, default=5, **{**nv, **iv})
                        c = ClassTy("C", [F("p_p", int_()), f, F("z_z", str_(), default="d")], **cfg)
                        cls = c.py()
                        roundtrip(t, c, [cls(1, v, "z") for v in ([3, 0, 5] + ([None] if ty.optional else []))], shapes=("dict",), opts=[(None, None)],
                                  sub=f"{ty.name} ", rt=(ik not in ("serializer", "deserializer")), skip_none=(False, True))
                        explore(t, c, f, ["3", "4"] if iv.get("deserializer") else [3, 4], f"{ty.name} ")

                yield Case(f"{ik} {nk} {ck}", run)

    # (c) neighbours and nested classes
    for n1, v1 in NAMING.items():
        for n2, v2 in NAMING.items():
            for c1, g1 in CFG.items():
                for c2, g2 in CFG.items():
                    def run(t, v1=v1, v2=v2, g1=g1, g2=g2):
                        s = api()
                        inner = ClassTy("I", [F("my_val", int_(), **v1), F("q_q", str_(), default="dq")], **g1)
                        f = F("my_val", inner, **v2)
                        c = ClassTy("C", [f, F("l_l", Seq(inner)), F("o_o", OptTy(inner))], **g2)
                        roundtrip(t, c, c.values(), shapes=("dict",), opts=[(None, None)], rt="exact")
                        for d in [{k: 1 for k in ks} for ks in subsets([inner.wire(inner.own[0]), *(v1.get("alias") or [])])]:
                            for outer in [c.wire(f), *(v2.get("alias") or [])]:
                                data = {outer: dict(d), c.wire(c.own[1]): [dict(d)]}
                                exp = model(c.de, data, O())
                                compare_de(t, f"de {outer} {d}", c, exp, t.call(s.from_dict, c.py(), data), data=canon(data))
                        # two neighbours, each with its own options
                        if v1 is not v2:
                            w2 = {**v2, "rename": "second"}
                            w2["alias"] = ["b" + a for a in w2.get("alias") or []]
                            fa, fb = F("my_val", int_(), **v1), F("n_n", int_(), default=4, **w2)
                            p = ClassTy("P", [F("p_p", int_(), default=0), fa, fb, F("z_z", int_(), default=2)][1:], **g2)
                            explore(t, p, fa, [1, 2], "nb1 ")
                            explore(t, p, fb, [1, 2], "nb2 ")

                    yield Case(f"nested {n1} {n2} {c1}/{c2}", run)


def is_three(v):
    return v == 3


def to_s(v):
    return "" if v is None else str(v)


def from_s(s):
    return int(s) if s else None


def hash_ok(v):
    return type(v).__hash__ is not None


def distinct(ty):
    out, seen = [], set()
    for v in ty.values():
        if canon(v) not in seen:
            seen.add(canon(v))
            out.append(v)
    return out[:3]
