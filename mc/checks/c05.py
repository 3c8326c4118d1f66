"""C05: type-check modes - coerce converts or fails, disabled passes through, modes stay with their class."""
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c04 import data_of

RULE = ("mode in {coerce, disabled} x every constructor composition over the four primitives (and primitive NewTypes) x wildly typed objects "
        "(serialization) and every one-change datum (deserialization), dict/tuple and every format; all mode x mode combinations of an outer "
        "and a nested class (direct, list, dict, tuple, Optional, plain, split declaration)")
BOUNDS = {"quick": "constructor depth 2; 13 values per primitive; 12 foreign atoms at every position",
          "thorough": "constructor depth 3; same values"}

WILD = {
    int: [3, "10", 3.7, True, " 7 ", -1.5, b"12"],
    float: [1.5, "2.5", 3, False, "1e3", b"2"],
    str: ["x", 1, 1.5, True, [1], {"a": 1}],
    bool: [True, 0, 1, "", "false", [], [0], 0.0],
}
HASHABLE = {k: [x for x in v if not isinstance(x, (list, dict))] for k, v in WILD.items()}
BAD = {int: ["abc", None, [1], {}, "1.5"], float: ["abc", None, [1], {}], str: [None], bool: [None]}


def wild(cls, h=False):
    return Prim(cls, (HASHABLE if h else WILD)[cls])


def comps(tier):
    hashed = {"set", "frozenset", "Set", "MutableSet", "keydict", "Counter"}
    for cls in (int, float, str, bool):
        nt = lambda t: NewTy("Nt" + cls.__name__, t)  # noqa: E731
        yield cls.__name__, (lambda cls=cls: wild(cls)), cls
        yield "NewType." + cls.__name__, (lambda cls=cls: NewTy("Nt" + cls.__name__, wild(cls))), cls
        depth = [(c,) for c in UNARY] + [(c, d) for c in UNARY for d in UNARY]
        if tier == "thorough":
            depth += [(c, d, e) for c in UNARY for d in UNARY for e in ("list", "dict", "opt", "tuple2", "vtuple", "frozenset", "keydict", "defaultdict", "deque")]
        for cs in depth:
            if "cls" in cs or "plaincls" in cs:
                continue
            def mk(cs=cs, cls=cls):
                t = wild(cls, any(c in hashed for c in cs))
                for c in reversed(cs):
                    t = apply(c, t)
                    if t is None:
                        return None
                return t
            yield ".".join(cs) + "." + cls.__name__, mk, cls


def bad_objects(c, cls):
    """Objects holding one unconvertible primitive each, at the places the good objects hold one."""
    for v in BAD[cls]:
        yield v


def cases(tier):
    for key, mk, cls in comps(tier):
        if mk() is None:
            continue
        for mode in ("coerce", "disabled"):
            def run(t, mk=mk, cls=cls, mode=mode, key=key):
                s = api()
                ty = mk()
                c = ClassTy("C", [F("p", wild(int)), F("v", ty), F("q", wild(str))], type_check=mode)
                objs = c.values()
                for v in BAD[cls]:  # the same composition over an unconvertible value
                    try:
                        w = rebuild(ty, v)
                    except TypeError:
                        continue
                    if w is not None:
                        objs.append(c.py()(p=1, v=w, q="x"))
                for n, obj in enumerate(objs):
                    for named in (True, False):
                        for sets in (False, True):
                            o = O(named=named, sets=sets)
                            exp = model(c.ser, obj, o)
                            if exp is None:
                                continue
                            t.state(key, mode, named, canon(obj))
                            got = t.call(s.to_dict if named else s.to_tuple, obj, convert_sets=sets)
                            compare_ser(t, f"ser {'dict' if named else 'tuple'} v{n} sets={sets}", exp, got, obj=canon(obj))
                raw = ClassTy("C", c.own, type_check="disabled")  # what the wild objects look like unconverted
                for named in (True, False):
                    seen = set()
                    for n, obj in enumerate(objs):
                        e = model(raw._ser, raw.py()(*[getattr(obj, x) for x in "pvq"]), O(named=named, sets=True))
                        if e is None or e[0] != "ok":
                            continue
                        for lab, d in itertools.chain([("", e[1])], mutations(e[1], SMALL) if n < 2 else ()):
                            k = canon(d)
                            if k in seen:
                                continue
                            seen.add(k)
                            exp = model(c.de, fresh(d), O(named=named))
                            if exp is None:
                                continue
                            t.state(key, mode, named, k)
                            compare_de(t, f"de {'dict' if named else 'tuple'} v{n} {lab}", c, exp,
                                       t.call(s.from_dict if named else s.from_tuple, c.py(), d), data=k)
                if key.count(".") <= 1:
                    through_formats(t, c, objs, raw)

            yield Case(f"{mode} {key}", run)

    # every pair of modes, the inner class in every position, with every way of declaring it
    hows = [("serde", m) for m in ("strict", "coerce", "disabled")] + [("split", m) for m in ("strict", "coerce", "disabled")] + [("plain", None)]
    for om in ("strict", "coerce", "disabled"):
        for how, im in hows:
            for first in ("inner", "outer"):
                def run(t, om=om, how=how, im=im, first=first):
                    kw = {} if im is None else {"type_check": im}
                    inner = ClassTy("I", [F("i", int_()), F("l", Seq(int_())), F("o", OptTy(str_()))], how=how, **kw)
                    outer = ClassTy("C", [F("a", int_()), F("x", inner), F("l", Seq(inner)), F("d", DictTy(str_(), inner)),
                                          F("t", TupTy(int_(), inner)), F("o", OptTy(inner)), F("z", str_())], type_check=om)
                    other = ClassTy("Other", [F("a", int_()), F("x", inner)], type_check={"strict": "coerce", "coerce": "strict", "disabled": "strict"}[om])
                    s = api()
                    use = [inner, outer, other] if first == "inner" else [outer, other, inner]
                    for u in use * 2:
                        for named in (True, False):
                            o = O(named=named, sets=True)
                            seen = set()
                            for n, d in enumerate(itertools.islice(data_of(u, o), 1)):
                                for lab, m in itertools.chain([("", d)], mutations(d, [None, True, 2, 2.5, "7", "x", [], {}])):
                                    k = canon(m)
                                    if k in seen:
                                        continue
                                    seen.add(k)
                                    exp = model(u.de, fresh(m), O(named=named))
                                    if exp is None:
                                        continue
                                    t.state(u.name, named, k)
                                    got = t.call(s.from_dict if named else s.from_tuple, u.py(), m)
                                    compare_de(t, f"{u.cname} {'dict' if named else 'tuple'} v{n} {lab}", u, exp, got, data=k)
                                    if exp[0] == "ok" and got[0] == "ok":  # and the object goes back under the same modes
                                        se = model(u.ser, got[1], o)
                                        if se is not None:
                                            compare_ser(t, f"{u.cname} ser {named} v{n} {lab}", se,
                                                        t.call(s.to_dict if named else s.to_tuple, got[1], convert_sets=True), obj=canon(got[1]))

                yield Case(f"modes outer={om} inner={how}:{im} {first} first", run)


def rebuild(ty, v):
    """One value of ``ty`` holding ``v`` at its primitive leaf."""
    if isinstance(ty, Prim):
        return v
    if isinstance(ty, (NewTy, OptTy)):
        r = rebuild(ty.inner if isinstance(ty, NewTy) else ty.t, v)
        return r
    if isinstance(ty, (Seq, SetTy)):
        return ty.mk([rebuild(ty.t, v)])
    if isinstance(ty, VarTup):
        return (rebuild(ty.t, v),)
    if isinstance(ty, TupTy):
        return tuple(rebuild(x, v) if x is ty.ts[-1] else 1 for x in ty.ts)
    if isinstance(ty, DictTy):
        if isinstance(ty.v, Prim) and ty.v.vals == [3, 0]:
            return ty.mk([(rebuild(ty.k, v), 1)])
        return ty.mk([("k", rebuild(ty.v, v))])
    if isinstance(ty, CounterTy):
        return collections.Counter({rebuild(ty.k, v): 1})
    return None


def through_formats(t, c, objs, raw):
    for name, f in fmts().items():
        kw = {"coerce_numbers": False} if f.numbers else {}
        for n, obj in enumerate(objs):
            e = model(raw._ser, raw.py()(*[getattr(obj, x) for x in "pvq"]), O(named=f.named, reuse=False, sets=True))
            if e is None or e[0] != "ok":
                continue
            try:
                text = f.enc(e[1])
                lib = f.dec(text)
            except Exception:  # noqa: BLE001
                continue
            exp = model(c.de, fresh(lib), O(named=f.named, reuse=False))
            if exp is not None:
                compare_de(t, f"{name} read v{n}", c, exp, t.call(f.read, c.py(), text, **kw), data=canon(lib))
            se = model(c.ser, obj, O(named=f.named, reuse=False, sets=True, skip_none=f.skip_default))
            if se is None or se[0] == "reject":
                if se is not None:
                    got = t.call(f.write, obj)
                    t.check(got[0] == "err", f"{name} write v{n}", "expected an error", got=desc(got))
                continue
            try:
                lib = f.dec(f.enc(se[1]))
            except Exception:  # noqa: BLE001
                continue
            got = t.call(f.write, obj)
            t.check(got[0] == "ok" and same(f.dec(got[1]), lib), f"{name} write v{n}", "wrong text",
                    got=desc(got) if got[0] == "err" else canon(f.dec(got[1])), expected=canon(lib))
