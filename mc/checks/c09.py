"""C09: skip attributes omit exactly the fields they describe."""
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c08 import distinct, from_s, hash_ok, is_three, to_s

RULE = ("every subset of the field options {skip, skip_serializing, skip_deserializing, skip_if, skip_if_false, skip_if_none(None/True/False), "
        "skip_if_default(None/True/False)} x class options {skip_if_none, skip_if_default} x field types x default kinds x every value combination "
        "of two fields x skip_none of the call, dict / tuple / every format; what is written is compared with the rules and read back; data carrying "
        "values for skipped fields is read as well")
BOUNDS = {"quick": "field options up to 2 at a time on Optional[int], all types with each single option", "thorough": "all subsets of field options; types of depth 2"}


def is_falsy(v):
    return not v


def field_opts(tier):
    single = {
        "skip": [None, True], "skip_serializing": [None, True], "skip_deserializing": [None, True], "skip_if": [None, is_three],
        "skip_if_false": [None, True], "skip_if_none": [None, True, False], "skip_if_default": [None, True, False],
    }
    names = list(single)
    for combo in itertools.product(*[single[n] for n in names]):
        d = {n: v for n, v in zip(names, combo) if v is not None}
        if tier != "thorough" and len(d) > 2:
            continue
        yield d


def label(d):
    return "+".join(f"{k}{'' if v is True or callable(v) else '=' + str(v)}" for k, v in d.items()) or "none"


CLSOPTS = [{}, {"skip_if_none": True}, {"skip_if_default": True}, {"skip_if_none": True, "skip_if_default": True}]


def grid(t, c, objs, formats=True):
    s = api()
    roundtrip(t, c, objs, shapes=("dict",), opts=[(None, None), (None, True)], skip_none=(False, True))
    if not any(f.skip_serializing or f.skip for f in c.dfields):
        roundtrip(t, c, objs, shapes=("tuple",), opts=[(None, None)])
    if formats:
        fmt_paths(t, c, objs)


def cases(tier):
    for fo in field_opts(tier):
        for co in CLSOPTS:
            def run(t, fo=fo, co=co):
                s = api()
                for dk in ("none", "default", "nonedefault", "factory"):
                    kw = {"default": {"default": 5}, "nonedefault": {"default": None}, "factory": {"default_factory": lambda: 5}, "none": {}}[dk]
                    if fo.get("skip_deserializing") and not kw and not fo.get("skip"):
                        continue  # rejected at declaration, see C10
                    if fo.get("skip") and not kw:
                        continue  # nothing to construct the object with
                    f = F("v", OptTy(int_()), kw_only=True, **kw, **fo)
                    g = F("w", OptTy(int_()), default=3)
                    c = ClassTy("C", [F("p", int_()), f, g], **co)
                    cls = c.py()
                    objs = [cls(p=1, v=v, w=w) for v in (3, 0, 5, None) for w in (3, None, 0)]
                    t0 = len(t.fails)
                    roundtrip(t, c, objs, shapes=("dict",), opts=[(None, None)], skip_none=(False, True), sub=dk + " ")
                    fmt_paths(t, c, objs[:4] + objs[-3:], sub=dk + " ")
                    for d in ({"p": 1}, {"p": 1, "v": 7}, {"p": 1, "v": None}, {"p": 1, "v": 3, "w": 9}, {"p": 1, "v": "bad"}, {"v": 1}):
                        exp = model(c.de, d, O())
                        t.state(c.name, canon(d))
                        compare_de(t, f"{dk} de {d}", c, exp, t.call(s.from_dict, cls, d), data=canon(d))
                    # a nested occurrence under an outer class with the opposite class options
                    for oc in CLSOPTS:
                        if oc == co:
                            continue
                        outer = ClassTy("Out", [F("x", c), F("l", Seq(c)), F("n", OptTy(c), default=None), F("k", int_(), default=1)], **oc)
                        oobjs = [outer.py()(x=objs[0], l=[objs[1], objs[-1]], n=None), outer.py()(x=objs[-1], l=[], n=objs[2], k=4)]
                        roundtrip(t, outer, oobjs, shapes=("dict",), opts=[(None, None)], skip_none=(False, True), sub=f"{dk} in {label(oc)} ")

            yield Case(f"opts {label(fo)} class {label(co)}", run)

    from .c08 import field_types

    preds = {"skip_if": {"skip_if": is_falsy}, "skip_if_false": {"skip_if_false": True}, "skip_if_none": {"skip_if_none": True},
             "skip_if_default": {"skip_if_default": True}, "cls_default": {}, "cls_none": {}}
    for key, mk in field_types(tier):
        ty0 = mk()
        if ty0 is None:
            continue
        for pk, pv in preds.items():
            def run(t, mk=mk, pk=pk, pv=pv):
                ty = mk()
                vals = distinct(ty)
                cfg = {"cls_default": {"skip_if_default": True}, "cls_none": {"skip_if_none": True}}.get(pk, {})
                for dk in ("factory", "default", "none"):
                    kw = {"default": {"default": vals[0]}, "factory": {"default_factory": lambda ty=ty: distinct(ty)[0]}, "none": {}}[dk]
                    if dk == "default" and not hash_ok(vals[0]):
                        continue
                    c = ClassTy("C", [F("p", int_(), kw_only=True), F("v", ty, kw_only=True, **kw, **pv), F("z", str_(), kw_only=True)], **cfg)
                    objs = [c.py()(p=1, v=v, z="z") for v in distinct(ty)]
                    roundtrip(t, c, objs, shapes=("dict",), opts=[(None, None), (False, True), (True, None)], skip_none=(False, True), sub=dk + " ")
                    if dk == "factory":
                        fmt_paths(t, c, objs, sub=dk + " ")
                        if pk in ("skip_if_default", "cls_default") and not ty.ambiguous:  # exact restoration of what was left out
                            s = api()
                            d = t.call(s.to_dict, objs[0], convert_sets=True)
                            t.check(d[0] == "ok" and "v" not in d[1], "default left out", "a field equal to its default was written", got=desc(d))
                            if d[0] == "ok":
                                b = t.call(s.from_dict, c.py(), d[1])
                                t.check(b[0] == "ok" and same(b[1], objs[0]), "default restored", "not restored exactly", got=desc(b), before=canon(objs[0]))

            yield Case(f"type {key} {pk}", run)

    # two fields, all pairs of options: a condition of one field must not leak to the other
    ops = [d for d in field_opts("quick") if len(d) == 1]
    for i, a in enumerate(ops):
        for b in ops:
            def run(t, a=a, b=b):
                f1 = F("a", OptTy(int_()), default=1, **a)
                f2 = F("b", OptTy(int_()), default=2, **b)
                c = ClassTy("C", [f1, f2, F("c", OptTy(int_()), default=3)])
                objs = [c.py()(a=x, b=y, c=z) for x in (1, 0, 3, None) for y in (2, 0, 3, None) for z in (3, None)]
                roundtrip(t, c, objs, shapes=("dict",), opts=[(None, None)], skip_none=(False, True))
                s = api()
                for r in range(4):
                    for ks in itertools.combinations("abc", r):
                        for val in (None, 0, 3):
                            d = {k: val for k in ks}
                            compare_de(t, f"de {d}", c, model(c.de, d, O()), t.call(s.from_dict, c.py(), d), data=canon(d))

            yield Case(f"pair {label(a)} / {label(b)}", run)

    # converters see every value that is written, conditions look at the result
    for pk, pv in list(preds.items())[:4]:
        def run(t, pv=pv):
            f = F("v", OptTy(int_()), default=5, serializer=to_s, deserializer=from_s, **pv)
            c = ClassTy("C", [F("p", int_()), f])
            roundtrip(t, c, [c.py()(1, v) for v in (None, 0, 3, 5)], shapes=("dict",), opts=[(None, None)], skip_none=(False, True))

        yield Case(f"converter {pk}", run)
