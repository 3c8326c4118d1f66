"""C28: MsgPack extension types select the class to read."""
import itertools

import msgpack

from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403

RULE = ("every class of a pool (declared, plain, derived, recursive, transparent, with every option, with unions, numeric keys, binary-size payloads) x every code x values x named and unnamed x "
        "writer options; every assignment of codes to up to three classes x every reader dictionary over those codes x every value; every readable and unreadable datum, with and without extension; "
        "own serializer and deserializer classes: the bytes decode to the registered code around the model's representation, and reading gives what the model says for the registered class")
BOUNDS = {"quick": "every 3 of 6 classes, codes 0, 1 and 127, reader dictionaries of up to 3 of them", "thorough": "every 3 of 10 classes, codes 0, 1, 5, 127, reader dictionaries of up to 4 of them"}

CODES = (0, 1, 127)


def pool():
    I = In()  # noqa: N806, E741
    base = ClassTy("Base", [F("a", int_())])
    return {
        "In": I, "Base": base, "Derived": ClassTy("Derived", [F("b", str_(), default="z")], base=base), "Plain": In("Plain", "plain"), "Auto": In("Auto", "auto"),
        "Dates": ClassTy("Dates", [F("d", date_()), F("n", Seq(I)), F("o", OptTy(path_()), default=None)]), "Keys": ClassTy("Keys", [F("k", DictTy(int_(), float_())), F("c", CounterTy(num_()))]),
        "Uni": ClassTy("Uni", [F("u", UnionTy(I, In("In2"), int_())), F("s", SetTy(int_()))]), "Trans": ClassTy("Trans", [F("t", Seq(date_()))], transparent=True),
        "Ren": ClassTy("Ren", [F("my_a", int_()), F("n_n", none_()), F("o", OptTy(int_()), default=None)], rename_all="camelcase", skip_if_none=True),
        "Deny": ClassTy("Deny", [F("a", int_())], deny_unknown_fields=True), "Flat": ClassTy("Flat", [F("x", int_()), F("i", I, flatten=True)]),
        "Big": ClassTy("Big", [F("t", Prim(str, ["x" * 70000, "y" * 300, "z" * 20])), F("l", Prim(int, [2**64 - 1, -(2**63), 0]))]),
        "Coerce": ClassTy("Coerce", [F("a", int_())], type_check="coerce"), "Empty": ClassTy("Empty", []), "Frozen": Fz(),
    }


def direct_pool():
    return {"int": int_(), "str": str_(), "date": date_(), "Color": color_(), "Decimal": dec_(), "UUID": uuid_(), "float": float_(), "bool": bool_()}


def cases_of(ty):
    return ty.values()


def write(t, lab, ty, v, code, named, **kw):
    """Bytes written for the value, checked against the model; None when the format cannot express it."""
    s = api()
    exp = model(ty.ser, v, O(named=named, reuse=False, sets=True, skip_none=kw.get("skip_none", False), direct=not isinstance(ty, ClassTy)))
    if exp is None or exp[0] != "ok":
        return None
    try:
        lib = msgpack.unpackb(msgpack.packb(exp[1]), use_list=False, strict_map_key=False)
    except Exception:  # noqa: BLE001
        return None
    got = t.call(s.msgpack.to_msgpack, v, ext_dict={type(v): code}, named=named, **kw)
    if got[0] == "err":
        t.fail(lab, "writing failed", got=desc(got))
        return None
    ext = msgpack.unpackb(got[1])
    if not t.check(type(ext) is msgpack.ExtType and ext.code == code, lab, "not written as the extension type of the class", got=repr(ext)[:200]):
        return None
    inner = msgpack.unpackb(ext.data, use_list=False, strict_map_key=False)
    t.check(same(inner, lib), lab, "the extension holds something else than the representation of the value", got=canon(inner)[:300], expected=canon(lib)[:300])
    return got[1], lib


def read(t, lab, data, ext_dict, named, ty, lib, cls=None, **kw):
    """ty None: no class is registered for the code."""
    s = api()
    got = t.call(s.msgpack.from_msgpack, cls, data, ext_dict=ext_dict, named=named, strict_map_key=False, **kw)
    if ty is None:
        return t.check(got[0] == "err" and isinstance(got[1], SerdeError()), lab, "expected SerdeError for a code without a class", got=desc(got))
    exp = model(ty.de, lib, O(named=named, reuse=False))
    if exp is None:
        return None
    return compare_de(t, lab, ty, exp, got)


def single(name):
    def run(t):
        for code in range(128):
            ty = {**pool(), **direct_pool()}[name]
            T_ = ty.py()
            if code not in (0, 1, 5, 63, 64, 126, 127):
                continue
            for named in (True, False):
                for n, v in enumerate(ty.values()):
                    for kw in ({}, {"skip_none": True}, {"convert_sets": True}, {"use_bin_type": True}):
                        lab = f"{code} {'named' if named else 'unnamed'} v{n} {kw}"
                        w = write(t, lab, ty, v, code, named, **kw)
                        if w is None:
                            continue
                        t.state(name, code, named, canon(w[1]))
                        read(t, lab + " read", w[0], {code: T_}, named, ty, w[1])
                        read(t, lab + " read, class ignored", w[0], {code: T_}, named, ty, w[1], cls=dict)
                        read(t, lab + " unknown", w[0], {(code + 1) % 128: T_}, named, None, w[1])
                        read(t, lab + " none", w[0], {}, named, None, w[1])
                    s = api()
                    for d in ({}, {dict: 3}, {object: code}):
                        got = t.call(s.msgpack.to_msgpack, v, ext_dict=d, named=named)
                        t.check(got[0] == "err" and isinstance(got[1], SerdeError()), f"unregistered {n} {len(d)}", "expected SerdeError for a class without a code", got=desc(got))
    return run


def several(names, codes):
    """Every assignment of codes to the classes, every reader dictionary."""
    def run(t):
        s = api()
        for cs in itertools.product(codes, repeat=len(names)):
            p = pool()
            tys = [p[n] for n in names]
            wd = {ty.py(): c for ty, c in zip(tys, cs)}
            for rd in itertools.product((None, *range(len(names))), repeat=len(codes)):
                ext = {c: tys[i].py() for c, i in zip(codes, rd) if i is not None}
                for ty, code in zip(tys, cs):
                    for named in (True, False):
                        for n, v in enumerate(ty.values()[:2]):
                            exp = model(ty.ser, v, O(named=named, reuse=False, sets=True))
                            try:
                                lib = msgpack.unpackb(msgpack.packb(exp[1]), use_list=False, strict_map_key=False)
                            except Exception:  # noqa: BLE001
                                continue
                            got = t.call(s.msgpack.to_msgpack, v, ext_dict=wd, named=named)
                            lab = f"{cs} {rd} {ty.cname} {named} v{n}"
                            t.state(lab)
                            if not t.check(got[0] == "ok" and msgpack.unpackb(got[1]).code == code, lab, "written under another code", got=desc(got)):
                                continue
                            reg = rd[codes.index(code)]
                            read(t, lab, got[1], ext, named, None if reg is None else tys[reg], lib)
                    # an unregistered sibling is refused
                part = {k: c for k, c in list(wd.items())[1:]}
                got = t.call(s.msgpack.to_msgpack, tys[0].values()[0], ext_dict=part)
                t.check(got[0] == "err" and isinstance(got[1], SerdeError()), f"{cs} part", "expected SerdeError for a class without a code", got=desc(got))
    return run


def malformed(t):
    """Data without an extension, with another structure, and unusual payloads."""
    s = api()
    p = pool()
    I, D = p["In"], p["Derived"]  # noqa: N806, E741
    ext = {0: I.py(), 1: D.py()}
    for d in (None, 0, 1, "x", b"x", [], {}, [1, 2], {"i": 1, "s": "x"}, {"code": 0, "data": b""}, 1.5, True):
        for named in (True, False):
            got = t.call(s.msgpack.from_msgpack, I.py(), msgpack.packb(d), ext_dict=ext, named=named)
            t.state("bare", canon(d), named)
            t.check(got[0] == "err" and isinstance(got[1], SerdeError()), f"bare {canon(d)} {named}", "expected SerdeError for data without an extension type", got=desc(got))
            for code in (0, 1, 2):
                raw = msgpack.packb(msgpack.ExtType(code, msgpack.packb(d)))
                lib = msgpack.unpackb(msgpack.packb(d), use_list=False)
                ty = {0: I, 1: D}.get(code)
                t.state("inner", canon(d), named, code)
                if ty is None:
                    read(t, f"inner {canon(d)} {named} {code}", raw, ext, named, None, lib)
                else:
                    exp = model(ty.de, lib, O(named=named, reuse=False))
                    if exp is not None:
                        compare_de(t, f"inner {canon(d)} {named} {code}", ty, exp, t.call(s.msgpack.from_msgpack, None, raw, ext_dict=ext, named=named, strict_map_key=False))
    # without ext_dict nothing changes
    for n, v in enumerate(I.values()):
        for named in (True, False):
            a = t.call(s.msgpack.to_msgpack, v, named=named)
            b = t.call(s.msgpack.to_msgpack, v, named=named, ext_dict=None)
            t.check(a[0] == b[0] == "ok" and a[1] == b[1] and type(msgpack.unpackb(a[1])) is not msgpack.ExtType, f"plain {n} {named}", "ext_dict=None changes the bytes")


def own(t):
    """Own serializer and deserializer classes see the options and are used at both levels."""
    s = api()
    from serde.msgpack import MsgPackDeserializer, MsgPackSerializer

    calls = []

    class Se(MsgPackSerializer):
        @classmethod
        def serialize(cls, obj, **kw):
            calls.append(("se", sorted(kw)))
            return super().serialize(obj, **kw)

    class De(MsgPackDeserializer):
        @classmethod
        def deserialize(cls, data, **kw):
            calls.append(("de", sorted(kw)))
            return super().deserialize(data, **kw)

    for name, ty in pool().items():
        for named in (True, False):
            for n, v in enumerate(ty.values()):
                del calls[:]
                w = write(t, f"{name} {n} {named}", ty, v, 7, named, se=Se)
                if w is None:
                    continue
                t.state(name, n, named)
                t.check(len(calls) == 1 and calls[0][0] == "se", f"{name} {n} {named}", "the given serializer was not used once", got=repr(calls))
                del calls[:]
                read(t, f"{name} {n} {named}", w[0], {7: ty.py()}, named, ty, w[1], de=De)
                t.check([c[0] for c in calls] == ["de", "de"] and all("strict_map_key" in c[1] for c in calls), f"{name} {n} {named}", "the given deserializer was not used for both levels with the options", got=repr(calls))


def cases(tier):
    th = tier == "thorough"
    for n in {**pool(), **direct_pool()}:
        yield Case(f"single {n}", single(n))
    codes = (0, 1, 5, 127) if th else CODES
    names = ["In", "Base", "Derived", "Plain", "Trans", "Coerce"] + (["Dates", "Uni", "Empty", "Frozen"] if th else [])
    for k in (1, 2, 3):
        for ns in itertools.combinations(names, k):
            yield Case(f"several {','.join(ns)}", several(ns, codes), timeout=300)
    yield Case("malformed", malformed)
    yield Case("own", own)
