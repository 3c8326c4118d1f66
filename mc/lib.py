"""Shared oracles: one abstract path schema -> class -> object -> wire -> object, compared step by step."""
from __future__ import annotations

import itertools
import json as stdjson
import pickle

from .canon import canon, same
from .uni import *  # noqa: F401,F403
from .uni import O, OutOfDomain, Reject, Sampled, Unspec, REG


def api():
    import serde
    import serde.json
    import serde.msgpack
    import serde.pickle
    import serde.toml
    import serde.yaml

    return serde


def SerdeError():
    import serde

    return serde.SerdeError


def desc(r):
    return f"{r[0]}:{canon(r[1])[:600]}" if r[0] == "ok" else f"err:{type(r[1]).__module__}.{type(r[1]).__name__}: {str(r[1])[:400]}"


def model(fn, *a):
    """Outcome of the reference model: ('ok', v) | ('reject', None) | ('unspec', None) | None if out of domain."""
    try:
        return ("ok", fn(*a))
    except Reject as e:
        return ("reject", str(e))
    except Sampled:
        return ("sampled", None)
    except Unspec:
        return ("unspec", None)
    except OutOfDomain:
        return None


def compare_de(t, sub, ty, exp, got, **info):
    """Compare a deserialization outcome with the model's."""
    t.outcome(exp[0] + "/" + got[0])
    if exp[0] == "ok":
        if got[0] == "ok" and same(got[1], exp[1]):
            return t.check(True, sub)
        return t.check(False, sub, "wrong result of deserialization",
                       expected=canon(exp[1]), got=desc(got), **info)
    se = SerdeError()
    if got[0] == "err":
        if isinstance(got[1], se):
            return t.check(True, sub)
        return t.check(False, sub, "failed with something else than SerdeError", got=desc(got), **info)
    if exp[0] == "reject":
        return t.fail(sub, f"accepted data that must be rejected ({exp[1]})", got=desc(got), **info)
    if exp[0] == "sampled":
        if isinstance(ty, ClassTy) and type(got[1]) is ty.py():
            return t.check(True, sub)
        return t.check(not isinstance(ty, ClassTy) or type(got[1]) is ty.py(), sub, "not an instance of the class", got=desc(got), **info)
    return t.check(ty.conf(got[1]), sub, "produced a value that does not conform to the declared type", got=desc(got), **info)


def compare_ser(t, sub, exp, got, ordered=True, **info):
    if exp[0] == "ok":
        if got[0] == "ok" and same(got[1], exp[1], ordered):
            return t.check(True, sub)
        return t.check(False, sub, "wrong serialized representation",
                       expected=canon(exp[1], ordered), got=desc(got) if got[0] == "err" else canon(got[1], ordered), **info)
    t.outcome("ser-reject")
    return t.check(got[0] == "err" and isinstance(got[1], SerdeError()), sub, "expected SerdeError from serialization",
                   got=desc(got), **info)


DT_OPTS = [(None, None), (False, False), (False, True), (True, False), (True, True)]


def reads_back(ty):
    return not ty.ambiguous


def roundtrip(t, cls, objs, shapes=("dict", "tuple"), opts=DT_OPTS, ordered=True, rt=True, sub="", de_reuse=(None,), skip_none=(False,)):
    """to_dict/to_tuple of every object equals the model; from_* of it equals the model / the original."""
    s = api()
    for n, obj in enumerate(objs):
        before = canon(obj)
        t.state(cls.name, "obj", before)
        for shape in shapes:
            for (reuse, sets), sn in itertools.product(opts, skip_none):
                o = O(named=shape == "dict", reuse=reuse, sets=sets, skip_none=sn)
                exp = model(cls.ser, obj, o)
                if exp is None:
                    continue
                lab = f"{sub}{shape} v{n} reuse={reuse} sets={sets}" + (" skip_none" if sn else "")
                kw = {"reuse_instances": reuse, "convert_sets": sets}
                if sn:
                    kw["skip_none"] = True
                got = t.call(s.to_dict if shape == "dict" else s.to_tuple, obj, **kw)
                if not compare_ser(t, lab + " ser", exp, got, ordered, obj=before):
                    continue
                if exp[0] != "ok":
                    continue
                t.state(cls.name, shape, canon(got[1]))
                if not rt:
                    continue
                wire0 = canon(got[1])
                for dr in de_reuse:
                    o2 = O(named=shape == "dict", reuse=dr)
                    if (dr is False or (dr is None and not cls.c("reuse_instances_default", "de"))) and \
                            (reuse or (reuse is None and cls.c("reuse_instances_default"))):
                        continue  # instances left in the data cannot be read with reuse_instances=False
                    ed = model(cls.de, got[1], o2)
                    if ed is None:
                        continue
                    back = t.call(s.from_dict if shape == "dict" else s.from_tuple, cls.py(), got[1],
                                  **({} if dr is None else {"reuse_instances": dr}))
                    compare_de(t, lab + f" de reuse={dr}", cls, ed, back, wire=wire0)
                    if rt == "exact":
                        t.check(back[0] == "ok" and canon(back[1]) == before, lab + " roundtrip", "round trip changed the value",
                                before=before, after=desc(back))
                t.check(canon(got[1]) == wire0, lab + " data-unchanged", "deserialization modified its input", before=wire0, after=canon(got[1]))
        t.check(canon(obj) == before, f"{sub}v{n} obj-unchanged", "serialization modified the object", before=before, after=canon(obj))


# ------------------------------------------------------------------------------------------------ formats
class Fmt:
    def __init__(self, name, numbers=None, named=True, skip_default=False, opts=(), backend=None):
        self.name, self.numbers, self.named, self.skip_default, self.opts, self.backend = (
            name, numbers, named, skip_default, opts, backend)

    def module(self):
        import importlib

        base = self.name.split("-")[0]
        if base in ("json", "orjson"):
            return json_backend(base)
        return importlib.import_module("serde." + base)

    def write(self, obj, **kw):
        m = self.module()
        base = "json" if self.name == "orjson" else self.name.split("-")[0]
        if base == "msgpack" and not self.named:
            kw["named"] = False
        return getattr(m, "to_" + base)(obj, **kw)

    def read(self, cls, data, **kw):
        m = self.module()
        base = "json" if self.name == "orjson" else self.name.split("-")[0]
        if base == "msgpack":
            if not self.named:
                kw["named"] = False
            kw.setdefault("strict_map_key", False)
        return getattr(m, "from_" + base)(cls, data, **kw)

    def enc(self, plain):
        """The format's own library on plain data; any exception means: not representable."""
        b = self.name.split("-")[0]
        if b == "orjson":
            json_backend("orjson")
            import orjson

            return orjson.dumps(plain, option=orjson.OPT_NON_STR_KEYS | orjson.OPT_SERIALIZE_NUMPY)
        if b == "json":
            return stdjson.dumps(plain)
        if b == "yaml":
            import yaml

            return yaml.dump(plain, Dumper=YDump)
        if b == "toml":
            import tomli_w

            str_keys(plain)
            return tomli_w.dumps(plain)
        if b == "msgpack":
            import msgpack

            return msgpack.packb(plain)
        return pickle.dumps(plain)

    def dec(self, data):
        b = self.name.split("-")[0]
        if b in ("json", "orjson"):
            return stdjson.loads(data)
        if b == "yaml":
            import yaml

            return yaml.load(data, Loader=YLoad)
        if b == "toml":
            import tomllib

            return tomllib.loads(data)
        if b == "msgpack":
            import msgpack

            return msgpack.unpackb(data, use_list=False, strict_map_key=False)
        return pickle.loads(data)


def str_keys(v):
    if isinstance(v, dict):
        for k, x in v.items():
            if type(k) is not str:
                raise TypeError("TOML keys are strings")
            str_keys(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            str_keys(x)


try:
    from yaml import CSafeDumper as YDump, CSafeLoader as YLoad
except ImportError:
    from yaml import SafeDumper as YDump, SafeLoader as YLoad

_backend = [None]


def json_backend(kind):
    """serde.json bound to the standard library or to orjson."""
    import importlib
    import os
    import sys

    import serde.json as m

    if _backend[0] != kind:
        if kind == "orjson":
            if "/opt/orjson" not in sys.path:
                sys.path.append("/opt/orjson")
            sys.modules.pop("orjson", None) if sys.modules.get("orjson") is None else None
        else:
            sys.modules["orjson"] = None
        m = importlib.reload(m)
        if kind == "json":
            del sys.modules["orjson"]
        _backend[0] = kind
    return m


def have_orjson():
    import os

    return os.path.isdir("/opt/orjson/orjson")


FMTS = {
    "json": Fmt("json", "json", opts=({}, {"skip_none": True}, {"convert_sets": False})),
    "orjson": Fmt("orjson", "json", opts=({}, {"skip_none": True})),
    "yaml": Fmt("yaml", "yaml", opts=({}, {"skip_none": True}, {"convert_sets": False}, {"reuse_instances": True})),
    "toml": Fmt("toml", skip_default=True, opts=({}, {"skip_none": False}, {"reuse_instances": True})),
    "msgpack": Fmt("msgpack", opts=({}, {"skip_none": True})),
    "msgpack-t": Fmt("msgpack-t", named=False, opts=({},)),
    "pickle": Fmt("pickle", opts=({}, {"skip_none": True}, {"convert_sets": False}, {"reuse_instances": True})),
}


def fmts():
    return {k: f for k, f in FMTS.items() if k != "orjson" or have_orjson()}


def fmt_paths(t, cls, objs, which=None, sub="", direct=None, fopts=None, ser=None, de=None):
    """Write every object in every format and read it back, comparing text content and value with the model.

    ``direct``: the type passed to the reader instead of the class (C13); ``ser``/``de`` override the model."""
    for name, f in (which or fmts()).items():
        for kw in (fopts or f.opts):
            o = O(named=f.named, reuse=kw.get("reuse_instances", False), sets=kw.get("convert_sets", True),
                  skip_none=kw.get("skip_none", f.skip_default))
            for n, obj in enumerate(objs):
                exp = model(ser or cls.ser, obj, o)
                if exp is None or exp[0] != "ok":
                    continue
                try:
                    lib = f.dec(f.enc(exp[1]))
                except Exception:  # noqa: BLE001
                    t.outcome("unrepresentable:" + name)
                    continue
                lab = f"{sub}{name} v{n} {kw}"
                got = t.call(f.write, obj, **kw)
                if got[0] == "err":
                    t.fail(lab + " write", "writer failed", got=desc(got), obj=canon(obj))
                    continue
                raw = f.dec(got[1])
                t.state(cls.name, name, canon(raw))
                if not t.check(same(raw, lib), lab + " write", "text does not decode to to_dict's result",
                               expected=canon(lib), got=canon(raw), obj=canon(obj)):
                    continue
                ro = O(named=f.named, reuse=False, numbers=f.numbers)
                ed = model(de or cls.de, lib, ro)
                if ed is None:
                    continue
                back = t.call(f.read, direct if direct is not None else cls.py(), got[1])
                compare_de(t, lab + " read", cls, ed, back, wire=canon(lib))
                if ed[0] == "ok":
                    t.outcome(f"{name}:{'exact' if same(ed[1], obj) else 'lossy'}")
