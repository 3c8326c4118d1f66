"""C13: a type given directly to the API behaves as it does inside a class field."""
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c01 import types

RULE = ("every composition of type constructors over the atom set up to the depth bound, given directly to to_dict/to_tuple/from_dict/from_tuple and every "
        "format's writer and reader, with and without naming the type, every value, reuse_instances and convert_sets options; the result is compared with "
        "the representation of a field of that type, and what is read with the original value; every one-change datum either is read or raises SerdeError")
BOUNDS = {"quick": "constructor depth 1 over all atoms, depth 2 over representative atoms", "thorough": "depth 2 over all atoms, depth 3 over representatives"}
ASSUMPTIONS = ["direct containers of unions are not claimed; primitives given directly are converted by their constructor, so only valid representations are claimed"]

OPTS = [(None, None), (False, True), (True, False), (True, True)]


def sets_free(x):
    """Sets of a directly given value are written as lists."""
    return x


def direct(t, ty, thorough=False):
    s = api()
    T_ = ty.py()
    vals = ty.values()
    holder = ClassTy("H", [F("v", ty)])
    for n, v in enumerate(vals):
        before = canon(v)
        for named in (True, False):
            for reuse, sets in OPTS:
                o = O(named=named, reuse=reuse, sets=sets, direct=True)
                exp = model(ty.ser, v, o)
                if exp is None or exp[0] != "ok":
                    continue
                kw = {"reuse_instances": reuse, "convert_sets": sets}
                t.state(ty.name, named, before, reuse, sets)
                for withc in (False, True):
                    lab = f"v{n} {'dict' if named else 'tuple'} reuse={reuse} sets={sets} {'typed' if withc else ''}"
                    got = t.call(s.to_dict if named else s.to_tuple, v, **kw, **({"c": T_} if withc else {}))
                    if not compare_ser(t, lab + " ser", exp, got, ordered=False, obj=before):
                        continue
                w = exp[1]
                de = model(ty.de, w, O(named=named, reuse=True))
                if de is None:
                    continue
                for r in (None, True) + ((False,) if reuse is False else ()):
                    got = t.call(s.from_dict if named else s.from_tuple, T_, fresh(w), reuse_instances=r)
                    compare_de(t, f"v{n} {'dict' if named else 'tuple'} reuse={reuse}/{r} de", ty, de, got, wire=canon(w))
                # the same through a field
                viaf = t.call(s.from_dict if named else s.from_tuple, holder.py(), {"v": fresh(w)} if named else (fresh(w),))
                t.check(viaf[0] == "ok" and same(viaf[1].v, de[1] if de[0] == "ok" else None), f"v{n} field", "a field of the type reads it differently", got=desc(viaf))
        t.check(canon(v) == before, f"v{n} unchanged", "serialization modified the value")


def formats(t, ty):
    s = api()
    T_ = ty.py()
    for name, f in fmts().items():
        o = O(named=f.named, reuse=False, sets=True, direct=True, skip_none=f.skip_default)
        for n, v in enumerate(ty.values()):
            exp = model(ty.ser, v, o)
            if exp is None or exp[0] != "ok":
                continue
            try:
                lib = f.dec(f.enc(exp[1]))
            except Exception:  # noqa: BLE001
                t.outcome("unrepresentable:" + name)
                continue
            if f.skip_default and v is None:
                continue
            for withc in (False, True):
                lab = f"{name} v{n} {'typed' if withc else ''}"
                got = t.call(f.write, v, **({"cls": T_} if withc else {}))
                if got[0] == "err":
                    t.fail(lab, "writer failed", got=desc(got), value=canon(v))
                    continue
                raw = f.dec(got[1])
                if not t.check(same(raw, lib), lab, "text does not decode to the field's representation", expected=canon(lib), got=canon(raw)):
                    continue
                t.state(ty.name, name, canon(raw))
                ed = model(ty.de, lib, O(named=f.named, reuse=False, numbers=f.numbers))
                if ed is None:
                    continue
                compare_de(t, lab + " read", ty, ed, t.call(f.read, T_, got[1]), wire=canon(lib))


def junk(t, ty):
    s = api()
    T_ = ty.py()
    seen = set()
    for n, v in enumerate(ty.values()[:2]):
        e = model(ty.ser, v, O(sets=True))
        if e is None or e[0] != "ok":
            continue
        for lab, d in mutations(e[1], SMALL):
            c = canon(d)
            if c in seen:
                continue
            seen.add(c)
            t.state(ty.name, "junk", c)
            got = t.call(s.from_dict, T_, d)
            if got[0] == "err":
                t.check(isinstance(got[1], s.SerdeError), f"junk {lab}", "failed with something else than SerdeError", got=desc(got), data=c)
            else:
                t.outcome("junk ok")
                if isinstance(ty, ClassTy):
                    t.check(type(got[1]) is T_, f"junk {lab}", "not an instance of the class", got=desc(got))


def has_union(ty):
    return isinstance(ty, UnionTy) or any(has_union(p) for p in ty.parts() if not isinstance(p, ClassTy))


def cases(tier):
    for key, mk in types(tier):
        if mk() is None:
            continue

        def run(t, mk=mk):
            ty = mk()
            ty.py()
            if has_union(ty):
                return
            direct(t, ty)
            formats(t, ty)
            junk(t, ty)

        yield Case(key, run)
