"""C02: every format round-trips and carries exactly the dict/tuple representation."""
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import ATOMS, REPS, UNARY, apply, ClassTy, F
from . import c01

import itertools

RULE = ("every type composition up to the depth bound x every boundary value x every format (json std/orjson, yaml, toml, "
        "msgpack named/unnamed, pickle) x every documented writer option: decoded text equals the model, and reading equals the model")
BOUNDS = {"quick": "depth 1 over all atoms, depth 2 over int/Path/Color/In/float/datetime/Fz",
          "thorough": "depth 2 over all atoms, depth 3 over 4 atoms"}


COMPOSITE = ("list.In", "dict.In", "opt.In", "list.opt", "set.Path", "fset.Path", "opt.Path", "dict.Path", "opt.int", "list.Fz", "set.Fz")
OPTS = [dict(zip(ks, vs)) for n in range(4) for ks in itertools.combinations(("reuse_instances", "convert_sets", "skip_none"), n) for vs in itertools.product((False, True), repeat=n)]


def custom(t, c, objs):
    """A serializer and deserializer of the user's own: the first gets exactly the representation and the user's options, the second
    exactly the text and the options; what they return is used as it is."""
    import importlib

    for name in ("json", "yaml", "toml", "msgpack", "msgpack-t", "pickle"):
        f = FMTS[name]
        m = json_backend("json") if name == "json" else importlib.import_module("serde." + name.split("-")[0])
        mod = name.split("-")[0]
        base, low = {"json": "Json", "yaml": "Yaml", "toml": "Toml", "msgpack": "MsgPack", "pickle": "Pickle"}[mod], mod
        seen = []

        class Se(getattr(m, base + "Serializer")):
            @classmethod
            def serialize(cls, obj, **opts):
                seen.append((obj, opts))
                return seen

        class De(getattr(m, base + "Deserializer")):
            @classmethod
            def deserialize(cls, data, **opts):
                seen.append((data, opts))
                return data.plain

        class Text:
            plain = None

        to, frm = getattr(m, "to_" + low), getattr(m, "from_" + low)
        named = {} if f.named else {"named": False}
        for kw in OPTS:
            o = O(named=f.named, reuse=kw.get("reuse_instances", False), sets=kw.get("convert_sets", True), skip_none=kw.get("skip_none", f.skip_default))
            for n, x in enumerate(objs):
                exp = model(c.ser, x, o)
                if exp is None:
                    continue
                lab = f"custom {name} {kw} v{n}"
                for user in ({}, {"indent": 3, "zz": x}):
                    del seen[:]
                    got = t.call(to, x, se=Se, **kw, **named, **user)
                    if exp[0] != "ok":
                        t.check(got[0] == "err", lab, "accepted", got=desc(got))
                        continue
                    t.state(c.name, "custom", name, canon(exp[1]))
                    if not t.check(got[0] == "ok" and got[1] is seen and len(seen) == 1, lab, "the serializer's result is not returned", got=desc(got)):
                        continue
                    d, opts = seen[0]
                    if name.startswith("msgpack"):
                        opts = {k: v for k, v in opts.items() if k != "ext_type_code" or v is not None}
                    t.check(same(d, exp[1]), lab, "the serializer gets other data", expected=canon(exp[1]), got=canon(d))
                    t.check(opts == user, lab, "the serializer gets other options", expected=user, got=opts)
        for n, x in enumerate(objs):
            exp = model(c.ser, x, O(named=f.named, reuse=False, sets=True))
            if exp is None or exp[0] != "ok":
                continue
            nums = ((True, None), (True, True), (False, False)) if low in ("json", "yaml") else ((None, None),)
            for eff, given in nums:
                for user in ({}, {"strict": 1, "zz": x}):
                    text = Text()
                    text.plain = exp[1]
                    ed = model(c.de, exp[1], O(named=f.named, reuse=False, numbers=f.numbers if eff else None))
                    del seen[:]
                    kw = {} if given is None else {"coerce_numbers": given}
                    got = t.call(frm, c.py(), text, de=De, **kw, **named, **user)
                    lab = f"custom read {name} {given} v{n}"
                    t.check(len(seen) == 1 and seen[0][0] is text and seen[0][1] == user, lab, "the deserializer gets something else", got=seen)
                    if ed is not None:
                        compare_de(t, lab, c, ed, got, wire=canon(exp[1]))


def cases(tier):
    for key, mk in c01.types(tier):
        if mk() is None:
            continue

        def run(t, mk=mk):
            c = c01.pad(tier, mk)
            c.py()
            fmt_paths(t, c, c.values())
            if key.count(".") < (2 if tier == "thorough" else 1) + (key in COMPOSITE):
                custom(t, c, c.values()[:6])

        yield Case(key, run)
