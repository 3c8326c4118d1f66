"""C04: strict deserialization returns a value of the declared type or raises."""
from ..junk import ATOMS as JUNK, SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from copy import deepcopy as copy_

from . import c01

RULE = ("every type composition up to the bound x every datum reached from valid data by one change at any position (each of 30 foreign atoms, "
        "a dropped key or element, an extra element), in the dict and tuple shape and, for a representative set, through every format with "
        "coerce_numbers off: SerdeError or a deeply conforming value as the model decides")
BOUNDS = {"quick": "depth 1 over all atoms (30 foreign atoms), depth 2 over 7 atoms (12 foreign atoms)",
          "thorough": "depth 2 over all atoms, depth 3 over 4 atoms; 30 foreign atoms at depth <= 1, 12 below"}
ASSUMPTIONS = ["which of several misfitting elements of one container beartype samples is left open by the documentation: such data are only "
               "required to give SerdeError or an object"]


def data_of(c, o):
    for obj in c.values():
        e = model(c.ser, obj, o)
        if e is not None and e[0] == "ok":
            yield e[1]


def explore(t, c, atoms, sub="", shapes=(True, False), limit=3):
    s = api()
    c.py()
    for named in shapes:
        o = O(named=named, reuse=False, sets=True)
        seen = set()
        for n, d in enumerate(itertools.islice(data_of(c, o), limit)):
            for lab, m in itertools.chain([("", d)], mutations(d, atoms)):
                k = canon(m)
                if k in seen:
                    continue
                seen.add(k)
                exp = model(c.de, fresh(m), O(named=named))
                if exp is None:
                    continue
                t.state(c.name, named, k)
                got = t.call(s.from_dict if named else s.from_tuple, c.py(), m)
                compare_de(t, f"{sub}{'dict' if named else 'tuple'} v{n} {lab}", c, exp, got, data=k)


def cases(tier):
    for key, mk in c01.types(tier):
        if mk() is None:
            continue
        deep = key.count(".") >= 2

        def run(t, mk=mk, deep=deep):
            explore(t, c01.pad(tier, mk), SMALL if deep else JUNK, limit=2 if deep else 3)

        yield Case(key, run)

    # the same data arriving through a format
    quick = {**REPS, "str": str_, "bool": bool_, "Num": num_, "Lit": lit_, "UUID": uuid_}
    for con in [None, *UNARY]:
        for n, a in (quick if tier == "quick" else ATOMS).items():
            def mk(con=con, a=a):
                return a() if con is None else apply(con, a())

            if mk() is None:
                continue

            def run(t, mk=mk):
                s = api()
                c = c01.pad(tier, mk)
                for name, f in fmts().items():
                    kw = {"coerce_numbers": False} if f.numbers else {}
                    o = O(named=f.named, reuse=False, sets=True)
                    seen = set()
                    for nv, d in enumerate(itertools.islice(data_of(c, o), 1)):
                        for lab, m in mutations(d, SMALL):
                            try:
                                text = f.enc(m)
                                lib = f.dec(text)
                            except Exception:  # noqa: BLE001
                                continue
                            k = canon(lib)
                            if k in seen:
                                continue
                            seen.add(k)
                            exp = model(c.de, fresh(lib), O(named=f.named, reuse=False))
                            if exp is None:
                                continue
                            t.state(c.name, name, k)
                            compare_de(t, f"{name} v{nv} {lab}", c, exp, t.call(f.read, c.py(), text, **kw), data=k)

            yield Case(f"formats {con}.{n}", run)
    # declarations: defaults, inheritance, other ways of declaring, several fields of the same or of mixed types
    for how in ("serde", "auto", "split"):
        for n, a in (REPS if tier == "quick" else ATOMS).items():
            for con in (None, "list", "opt", "dict", "tuple2", "vtuple"):
                if con and apply(con, a()) is None:
                    continue

                def run(t, how=how, a=a, con=con):
                    x = a()
                    ty = lambda: x if con is None else apply(con, x)  # noqa: E731
                    base = ClassTy("Base", [F("a", ty()), F("o", OptTy(x))], how=how)
                    dv = ty().values()[0]
                    d = ClassTy("Derived", [F("b", ty()), F("c", ty(), default_factory=lambda: copy_(dv))], base=base, how=how)
                    if how != "auto":
                        explore(t, ClassTy("Fro", [F("a", ty()), F("b", OptTy(ty(), "|"), default=None)], how=how, dc={"frozen": True}), SMALL, "frozen ", limit=1)
                    explore(t, d, SMALL, "derived ", limit=1)
                    explore(t, ClassTy("Kw", [F("a", ty(), kw_only=True), F("b", OptTy(ty()), kw_only=True)], how=how), SMALL, "kw ", shapes=(True,), limit=1)
                    explore(t, ClassTy("Lists", [F("l", Seq(d)), F("m", DictTy(str_(), d))], how=how), SMALL, "nested ", limit=1)

                yield Case(f"declared {how} {con}.{n}", run)
