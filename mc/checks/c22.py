"""C22: user exceptions surface unchanged; library failures are SerdeError."""
import dataclasses

from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import Conv, UserRaised
from .c14 import in_child

RULE = ("(a) every way a class can run user code while it is constructed x every placement of the class to the depth bound x every position of the data at which it "
        "is made to raise x every exception kind (fault placement), given to the class, directly and in every format: that very exception object, with its "
        "arguments, cause, context flag, notes and attributes untouched, reaches the caller; (b) the same with every one-change corruption of the surrounding data: "
        "SerdeError or that exception as the reference evaluation allows; (c) every kind of user-supplied converter made to raise every exception kind: SerdeError; "
        "after each failing call the same call with good data must succeed")
BOUNDS = {"quick": "placements of depth 1 for every construction kind and 2 for three of them; one or all positions raising; 21 exception kinds",
          "thorough": "placements of depth 2 for every construction kind, 3 for one; every pair of raising positions"}
ASSUMPTIONS = ["while a union tries its members, an exception of user code means that the member does not match (pinned by the existing tests)"]


class Custom(Exception):
    def __init__(self, a, *, b):
        super().__init__(a, b)
        self.a, self.b = a, b


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = Exception.__hash__


class NoStr(Exception):
    def __str__(self):
        raise ValueError("no text")


def excs():
    from serde import SerdeError as SE, SerdeSkip

    out = [ValueError("u"), TypeError("t", 1), KeyError("i"), AttributeError("a"), IndexError("x"), StopIteration(3), RuntimeError(), Custom(1, b=[2]), Falsy("f"),
           SE("user"), SerdeSkip(), RecursionError("r"), OSError(2, "no"), AssertionError(), UnicodeDecodeError("utf8", b"x", 0, 1, "bad"), ArithmeticError("z"),
           ExceptionGroup("g", [ValueError("in")]), StopAsyncIteration(), KeyboardInterrupt(), SystemExit(3), GeneratorExit()]
    for n, e in enumerate(out):
        e.add_note(f"note {n}")
        e.mark = n
        if n % 2 == 0:
            e.__cause__ = LookupError(f"cause {n}")
        else:
            e.__context__ = LookupError(f"context {n}")
    return out


EXC: list = []
OKV = (77, 78)


def maybe(v):
    if type(v) is int and v >= 100:
        e = EXC[v - 100]
        if e.__cause__ is None:
            raise e
        raise e from e.__cause__


def prints(e):
    return (type(e), repr(e.args), e.__cause__ and str(e.__cause__), e.__suppress_context__, e.__notes__, e.mark)


def kinds():
    """name -> abstract class whose construction raises for i >= 100"""
    def post(self):
        maybe(self.i)

    def post_iv(self, iv):
        maybe(self.i)

    def own_init(self, i):
        object.__setattr__(self, "i", i)
        maybe(i)

    def own_new(cls, *a, **k):
        maybe(k["i"] if "i" in k else a[0])
        return object.__new__(cls)

    def sets(self, name, v):
        maybe(v)
        object.__setattr__(self, name, v)

    def reenter(self):
        import serde

        serde.to_dict(serde.from_dict(list[int], [1, 2]))
        maybe(self.i)

    def translate(self):
        try:
            maybe(self.i)
        except Exception as e:
            raise e

    def boom(ns=None, fs=None, cname="Boom", **kw):
        vals = lambda c: [c.py()(i=v) for v in OKV]  # noqa: E731
        return ClassTy(cname, fs or [F("i", int_())], ns={"__post_init__": post} if ns is None else ns, vals=vals, **kw)

    fz = {"dc": {"frozen": True}}
    return {
        "post": lambda: boom(), "frozen": lambda: boom(**fz), "plain": lambda: boom(how="plain"), "auto": lambda: boom(how="auto"), "split": lambda: boom(how="split"),
        "slots": lambda: boom(dc={"slots": True}), "kw": lambda: boom(dc={"kw_only": True}), "disabled": lambda: boom(type_check="disabled"),
        "coerce": lambda: boom(type_check="coerce"), "opts": lambda: boom(rename_all="kebabcase", deny_unknown_fields=True),
        "transparent": lambda: boom(transparent=True, **fz), "init": lambda: boom({"__init__": own_init}, dc={"init": False}, hashable=False),
        "new": lambda: boom({"__new__": own_new}), "setattr": lambda: boom({"__setattr__": sets}), "reenter": lambda: boom({"__post_init__": reenter}),
        "translate": lambda: boom({"__post_init__": translate}),
        "initvar": lambda: boom({"__post_init__": post_iv}, [F("i", int_()), F("iv", int_(), default=1, initvar=True)]),
        "inherit": lambda: boom({}, [F("j", int_(), default=1)], base=ClassTy("Base", [F("i", int_())], ns={"__post_init__": post})),
        "plainbase": lambda: boom({}, [F("j", int_(), default=1)], base=ClassTy("Base", [F("i", int_())], ns={"__post_init__": post}, how="plain")),
    }


def extra_places():
    return {
        "flat": lambda b: None if b.c("transparent") else ClassTy("Fl", [F("z", int_()), F("f", b, flatten=True)]), "flatopt": lambda b: None if b.c("transparent") else ClassTy("Fl", [F("z", int_()), F("f", OptTy(b), flatten=True)]),
        "flat2": lambda b: None if b.c("transparent") else ClassTy("Fl", [F("g", ClassTy("Mid", [F("f", b, flatten=True)]), flatten=True)]),
        "alias": lambda b: ClassTy("Al", [F("f", b, alias=["ff"], rename="RR")]), "default": lambda b: ClassTy("Df", [F("f", b, default_factory=lambda: b.py()(i=77))]),
        "optdefault": lambda b: ClassTy("Df", [F("f", OptTy(b), default=None)]), "trans": lambda b: ClassTy("Tr", [F("f", b)], transparent=True),
        "unionfield": lambda b: ClassTy("Un", [F("u", UnionTy(b, str_())), F("f", b)]), "unt": lambda b: ClassTy("Un", [F("u", UnionTy(b, DictTy(str_(), int_())))], tagging=UNT),
        "cont": lambda b: ClassTy("Ct", [F("l", Seq(b)), F("d", DictTy(str_(), OptTy(b)))], type_check="disabled"),
        "postparent": lambda b: ClassTy("Pp", [F("f", b)], ns={"__post_init__": lambda self: None}),
        "key": lambda b: DictTy(b, int_()) if b.hashable and b.c("transparent") else None,
    }


def spots(d, path=()):
    """Positions of the marker values."""
    if type(d) is int and d in OKV:
        yield path
    elif isinstance(d, dict):
        for k in d:
            if type(k) is int and k in OKV:
                yield path + (("key", k),)
            yield from spots(d[k], path + (k,))
    elif isinstance(d, (list, tuple)):
        for i, x in enumerate(d):
            yield from spots(x, path + (i,))


def put(d, path, v):
    if not path:
        return v
    h, rest = path[0], path[1:]
    if isinstance(d, dict):
        if isinstance(h, tuple) and h and h[0] == "key":
            return {(v if k == h[1] else k): x for k, x in d.items()}
        return {k: (put(x, rest, v) if k == h else x) for k, x in d.items()}
    return type(d)(put(x, rest, v) if i == h else x for i, x in enumerate(d))


def run_model(fn, *a):
    try:
        return model(fn, *a)
    except UserRaised as e:
        return ("user", e.inner)


def attempt(t, fn, *a, **k):
    t.trans += 1
    try:
        return ("ok", fn(*a, **k))
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ == "Hang":
            raise
        return ("err", e)


def probe(t, lab, c, data, neutral, bombs, o, call, good):
    """One faulty call, then the good one."""
    exp = run_model(c.de, fresh(data), o)
    if exp is None:
        return
    before = {b: prints(EXC[b]) for b in bombs}
    got = attempt(t, call, fresh(data))
    t.outcome(exp[0] + "/" + ("user" if got[0] == "err" and any(got[1] is e for e in EXC) else got[0]))
    if exp[0] == "user":
        hit = [b for b in bombs if got[1] is EXC[b]]
        strict = neutral is None or neutral[0] == "ok"
        if not hit and not (not strict and isinstance(got[1], SerdeError())):
            t.fail(lab, "the user's exception did not reach the caller", expected=f"{type(exp[1]).__name__}", got=desc(got), data=canon(data))
        elif hit:
            t.check(prints(got[1]) == before[hit[0]], lab, "the user's exception was altered", before=before[hit[0]], after=prints(got[1]), data=canon(data))
    elif exp[0] != "ok" and got[0] == "err" and any(got[1] is e for e in EXC):
        # the reference left open which of several faults is met first
        t.check(exp[0] in ("unspec", "sampled") or not bombs == [], lab, "unexpected user exception")
    else:
        compare_de(t, lab, c, exp, got, data=canon(data))
    again = attempt(t, call, fresh(good[0]))
    t.check(again[0] == "ok" and canon(again[1]) == good[1], lab + " then", "the same call with good data fails afterwards", got=desc(again), after=canon(data))


def place(t, b, c, faults, corrupt, pairs=False):
    """Every position x exception in an object of type c holding b."""
    s = api()
    EXC[:] = excs()
    T_ = c.py()
    for name, call, o, wires in paths(t, c):
        for n, d in enumerate(wires):
            exp = run_model(c.de, fresh(d), o)
            if exp is None or exp[0] != "ok":
                continue
            r = attempt(t, call, fresh(d))
            if not t.check(r[0] == "ok" and same(r[1], exp[1], False), f"{name} v{n} good", "good data", got=desc(r), data=canon(d)):
                continue
            good = (d, canon(r[1]))
            ps = list(spots(d))
            for k in faults if name in ("dict", "tuple") else faults[:6]:
                for p in ps:
                    m = put(d, p, 100 + k)
                    t.state(c.name, name, canon(m))
                    probe(t, f"{name} v{n} {p} e{k}", c, m, None, [k], o, call, good)
            if len(ps) > 1:
                m, bs = d, []
                for q, p in enumerate(ps):
                    if ps[q][-1:] and isinstance(p[-1], tuple):
                        continue
                    k = faults[q % len(faults)]
                    m = put(m, p, 100 + k)
                    bs.append(k)
                if bs:
                    probe(t, f"{name} v{n} all", c, m, None, bs, o, call, good)
            if corrupt and name in ("dict", "tuple"):
                for lab, m in mutations(d, SMALL):
                    neutral = run_model(c.de, fresh(m), o)
                    if neutral is None:
                        continue
                    for q, p in enumerate(spots(m)):
                        k = faults[q % len(faults)]
                        mm = put(m, p, 100 + k)
                        t.state(c.name, name, canon(mm))
                        probe(t, f"{name} v{n} {lab} {p}", c, mm, neutral, [k], o, call, good)


def paths(t, c):
    s = api()
    T_ = c.py()
    vals = c.values()[:2]

    def wires(o):
        for v in vals:
            e = model(c.ser, v, replace(o, reuse=False, sets=True))
            if e is not None and e[0] == "ok":
                yield e[1]

    for named in (True, False):
        o = O(named=named)
        yield ("dict" if named else "tuple"), (lambda d, named=named: (s.from_dict if named else s.from_tuple)(T_, d)), o, list(wires(o))
    for name, f in fmts().items():
        o = O(named=f.named, reuse=False, numbers=f.numbers)
        ws = []
        for w in wires(replace(o, skip_none=f.skip_default)):
            try:
                lib = f.dec(f.enc(w))
            except Exception:  # noqa: BLE001
                continue
            if list(spots(lib)):
                ws.append(lib)
        yield name, (lambda d, f=f: f.read(T_, f.enc(d))), o, ws


def holder(x):
    return ClassTy("C", [F("p", int_()), F("v", x), F("q", str_())])


# ---------------------------------------------------------------------------------------------------- converters
def converter_faults(t, where, depth):
    """A user converter raising any exception is a SerdeError, at any depth, and leaves the next call alone."""
    s = api()
    EXC[:] = excs()
    faults = [k for k, e in enumerate(EXC) if isinstance(e, Exception)]

    def fs(v):
        maybe(v)
        return v

    def fd(v):
        maybe(v)
        return v

    def skip(v):
        maybe(v)
        return False

    def leg_s(ty, v):
        maybe(v)
        return v

    conv = Conv({int: fs}, {int: fd})
    mk = {
        "field": lambda: ClassTy("K", [F("i", int_(), serializer=fs, deserializer=fd), F("j", str_())]),
        "skip_if": lambda: ClassTy("K", [F("i", int_(), skip_if=skip), F("j", str_())]),
        "class": lambda: ClassTy("K", [F("i", int_()), F("j", str_())], conv=conv),
        "classlist": lambda: ClassTy("K", [F("i", Seq(int_())), F("j", str_())], conv=conv),
        "legacy": lambda: ClassTy("K", [F("i", int_()), F("j", str_())], legacy=(leg_s, leg_s)),
        "transparent": lambda: ClassTy("K", [F("i", int_(), serializer=fs, deserializer=fd)], transparent=True),
        "union": lambda: ClassTy("K", [F("i", UnionTy(int_(), str_())), F("j", str_())], conv=conv),
    }[where]
    k = mk()
    lst = where == "classlist"
    outer = {"": lambda: k, "field": lambda: ClassTy("O", [F("a", int_()), F("k", k)]), "list": lambda: ClassTy("O", [F("k", Seq(k))]),
             "opt": lambda: ClassTy("O", [F("k", OptTy(k))]), "dict": lambda: ClassTy("O", [F("k", DictTy(str_(), OptTy(k)))]),
             "flat": lambda: ClassTy("O", [F("a", int_()), F("k", k, flatten=True)]), "plain": lambda: ClassTy("O", [F("k", k)], how="plain"),
             "trans": lambda: ClassTy("O", [F("k", k)], transparent=True)}[depth]()
    if depth == "flat" and where == "transparent":
        return
    outer.py()
    inner = lambda v: k.py()(i=[v] if lst else v, **({} if where == "transparent" else {"j": "x"}))  # noqa: E731
    def build(v):
        x = inner(v)
        return {"": x, "field": None, "list": None}.get(depth) if depth == "" else outer.py()(**({"a": 1} if depth in ("field", "flat") else {}),
                                                                                           k=[x, x] if depth == "list" else {"q": x, "r": None} if depth == "dict" else x)

    good = build(7)
    ref = {}
    for fn in ("to_dict", "to_tuple"):
        r = t.call(getattr(s, fn), good)
        if not t.check(r[0] == "ok", fn + " good", "good object", got=desc(r)):
            return
        ref[fn] = canon(r[1])
    wires = {"from_dict": s.to_dict(good), "from_tuple": s.to_tuple(good)}

    def bombed(d, v):
        if type(d) is int and d == 7:
            return v
        if isinstance(d, dict):
            return {a: bombed(b, v) for a, b in d.items()}
        if isinstance(d, (list, tuple)):
            return type(d)(bombed(x, v) for x in d)
        return d

    for e in faults:
        skips = where == "legacy" and type(EXC[e]).__name__ == "SerdeSkip"
        for fn in ("to_dict", "to_tuple"):
            if fn == "to_tuple" and where == "skip_if":
                continue
            r = attempt(t, getattr(s, fn), build(100 + e))
            t.state(where, depth, fn, e)
            if skips:
                t.check(r[0] == "ok", f"{fn} e{e}", "SerdeSkip means the default conversion", got=desc(r))
            else:
                t.check(r[0] == "err" and isinstance(r[1], SerdeError()), f"{fn} e{e}", "a failing converter is not a SerdeError", got=desc(r))
            r = t.call(getattr(s, fn), good)
            t.check(r[0] == "ok" and canon(r[1]) == ref[fn], f"{fn} e{e} then", "the next good call fails", got=desc(r))
        for name, f in fmts().items():
            if where == "skip_if" and not f.named:
                continue
            r = attempt(t, f.write, build(100 + e))
            if not skips:
                t.check(r[0] == "err" and isinstance(r[1], SerdeError()), f"{name} write e{e}", "a failing converter is not a SerdeError", got=desc(r))
        if where == "skip_if":
            continue
        for fn in ("from_dict", "from_tuple"):
            r = attempt(t, getattr(s, fn), outer.py(), bombed(wires[fn], 100 + e))
            if skips:
                t.check(r[0] == "ok", f"{fn} e{e}", "SerdeSkip means the default conversion", got=desc(r))
            else:
                t.check(r[0] == "err" and isinstance(r[1], SerdeError()), f"{fn} e{e}", "a failing converter is not a SerdeError", got=desc(r))
            r = t.call(getattr(s, fn), outer.py(), fresh(wires[fn]))
            t.check(r[0] == "ok" and canon(r[1]) == canon(good), f"{fn} e{e} then", "the next good call fails", got=desc(r))
        for name, f in fmts().items():
            try:
                text = f.enc(bombed(f.dec(f.write(good)), 100 + e))
            except Exception:  # noqa: BLE001
                continue
            r = attempt(t, f.read, outer.py(), text)
            if not skips:
                t.check(r[0] == "err" and isinstance(r[1], SerdeError()), f"{name} read e{e}", "a failing converter is not a SerdeError", got=desc(r))


# ---------------------------------------------------------------------------------------------------- default factories
def factories(t, shape):
    s = api()
    EXC[:] = excs()
    on = [None]

    def fac():
        if on[0] is not None:
            maybe(100 + on[0])
        return 5

    child = ClassTy("Ch", [F("x", int_(), default_factory=fac), F("y", str_(), default="d")])
    c = {
        "field": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac)]),
        "alias": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac, alias=["w"])]),
        "opt": lambda: ClassTy("C", [F("p", int_()), F("v", OptTy(int_()), default_factory=fac)]),
        "conv": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac, deserializer=int)]),
        "kw": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac, kw_only=True)]),
        "noinit": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac, init=False)]),
        "skipde": lambda: ClassTy("C", [F("p", int_()), F("v", int_(), default_factory=fac, skip_deserializing=True)]),
        "nested": lambda: ClassTy("C", [F("p", int_()), F("v", child)]),
        "list": lambda: ClassTy("C", [F("p", int_()), F("v", Seq(child))]),
        "flat": lambda: ClassTy("C", [F("p", int_()), F("v", child, flatten=True)]),
        "flatfac": lambda: ClassTy("C", [F("p", int_()), F("v", In(), flatten=True, default_factory=fac)], type_check="disabled"),
    }[shape]()
    data = {"p": 1}
    if shape in ("nested", "list"):
        data["v"] = {} if shape == "nested" else [{"y": "q"}, {}]
    if shape == "flat":
        data["y"] = "q"
    on[0] = None
    good = canon(s.from_dict(c.py(), fresh(data)))
    for name, call in [("dict", lambda d: s.from_dict(c.py(), d))] + [(n, lambda d, f=f: f.read(c.py(), f.enc(d))) for n, f in fmts().items() if f.named]:
        for k, e in enumerate(EXC):
            on[0] = k
            before = prints(e)
            r = attempt(t, call, fresh(data))
            t.state(shape, name, k)
            t.check(r[0] == "err" and r[1] is e and prints(e) == before, f"{name} e{k}", "the exception of the default factory did not reach the caller unchanged", got=desc(r))
            on[0] = None
            r = attempt(t, call, fresh(data))
            t.check(r[0] == "ok" and canon(r[1]) == good, f"{name} e{k} then", "the next good call fails", got=desc(r))


def cases(tier):
    ks = kinds()
    every = list(range(21))
    some = [0, 2, 5, 7, 9, 18]
    places = {**{con: (lambda b, con=con: apply(con, b)) for con in UNARY}, **extra_places()}
    for kn, mk in ks.items():
        def run(t, mk=mk):
            b = mk()
            place(t, b, b, every, True)

        yield Case(f"itself {kn}", run)
        for con, ap in places.items():
            if ap(mk()) is None:
                continue

            def run(t, mk=mk, ap=ap):
                b = mk()
                place(t, b, holder(ap(b)), every, True)

            yield Case(f"in {con} {kn}", run)

            def run(t, mk=mk, ap=ap):
                b = mk()
                x = ap(b)
                place(t, b, x, some, False)

            if con not in extra_places():
                yield Case(f"direct {con} {kn}", run)
    for kn in ("frozen", "plain", "transparent") if tier == "quick" else ks:
        for c1, a1 in places.items():
            for c2, a2 in places.items():
                x = a2(ks[kn]())
                if x is None or (c1 in extra_places() and (c2 in extra_places() or not isinstance(x, ClassTy))):
                    continue
                if c1 in ("flat", "flat2", "flatopt", "key"):
                    continue
                if c1 in UNARY and a1(x) is None or c1 in extra_places() and a1(x) is None:
                    continue
                if c2 in extra_places() and c1 in ("set", "frozenset", "Set", "MutableSet"):
                    continue
                if c1 in ("default", "unionfield", "unt"):
                    continue

                def run(t, kn=kn, a1=a1, a2=a2):
                    b = ks[kn]()
                    place(t, b, holder(a1(a2(b))), some, False)

                yield Case(f"in {c1}.{c2} {kn}", run)
    for where in ("field", "skip_if", "class", "classlist", "legacy", "transparent", "union"):
        for depth in ("", "field", "list", "opt", "dict", "flat", "plain", "trans"):
            yield Case(f"converter {where} {depth}", lambda t, w=where, d=depth: converter_faults(t, w, d))
    for shape in ("field", "alias", "opt", "conv", "kw", "noinit", "skipde", "nested", "list", "flat", "flatfac"):
        yield Case(f"factory {shape}", lambda t, sh=shape: factories(t, sh))
