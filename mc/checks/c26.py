"""C26: debugging and inspection do not change behaviour."""
import contextlib
import io
import json
import logging
import os
import random
import subprocess
import sys
import tempfile

from ..canon import canon
from ..gen import *  # noqa: F401,F403
from ..junk import fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from . import c17, c19, c27, c29
from .c01 import types as c01_types

RULE = ("for every program (a class of the feature pool with its values and every one-change datum), every history: debug mode, the DEBUG log level and the presence of the code "
        "formatter set differently at each point (before the declaration, between declaration and use, between uses) x inspection and the is_serializable/is_deserializable queries "
        "at each subset of these points; the outcomes of all declarations, conversions and failures equal those of the quiet history, and every inspection succeeds and shows the "
        "generated functions of that class")
BOUNDS = {"quick": "all 64 histories for 130 feature programs, 6 histories for every type composition of depth 1", "thorough": "all 64 histories for depth 1, 6 histories for depth 2 around representative types; inspection command on every program"}
LEVEL = "operation histories"


def outcome(fn, *a, **kw):
    random.seed(1)  # beartype picks the checked item of a container at random
    try:
        return "ok:" + canon(fn(*a, **kw), True)
    except Exception as e:  # noqa: BLE001
        return f"err:{type(e).__module__}.{type(e).__name__}:{e}"


class Null(logging.Handler):
    def emit(self, record):
        try:
            self.format(record)
        except Exception:  # noqa: BLE001 - what the handlers of the standard library do
            self.handleError(record)

    def handleError(self, record):  # noqa: N802 - what the logging module reports and ignores
        pass


NULL = Null()


@contextlib.contextmanager
def quiet_settings():
    import serde.core as core

    log = logging.getLogger("serde")
    level, dbg, black = log.level, core.SETTINGS["debug"], sys.modules.get("black", 0)
    log.addHandler(NULL)
    prop, log.propagate = log.propagate, False
    try:
        yield
    finally:
        core.SETTINGS["debug"] = dbg
        log.setLevel(level)
        log.removeHandler(NULL)
        log.propagate = prop
        if black == 0:
            sys.modules.pop("black", None)
        else:
            sys.modules["black"] = black


def ask(t, cls, obj, debug_declared, lab, want=("to_dict", "to_iter", "from_dict", "from_iter")):
    """Everything a user may ask about a class; none of it may fail."""
    import serde
    import serde.core
    from serde.de import is_deserializable
    from serde.se import is_serializable

    dbg = serde.core.SETTINGS["debug"]
    import serde.inspect as ins  # the import alone turns debug mode on

    serde.core.SETTINGS["debug"] = dbg
    scope = cls.__dict__.get("__serde__")
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            ins.inspect(cls)
        text = buf.getvalue()
    except Exception as e:  # noqa: BLE001
        return t.fail(lab, "inspection failed", got=f"{type(e).__name__}: {e}")
    t.check(cls.__name__ in text.splitlines()[1] if text.count("\n") > 1 else False, lab, "inspection does not name the class", got=text[:200])
    for name in want:
        t.check(f"\n{name}: " in text, lab, f"inspection does not list the generated function {name}", got=text[-600:])
        if debug_declared:
            t.check(f"def {name}(" in text, lab, f"inspection does not show the code of {name}", got=text[:600])
    for name in (scope.funcs if scope else ()):
        t.check(f"\n{name}: " in text, lab, "inspection misses a function", got=name)
        if debug_declared:
            t.check(f"def {name}(" in text, lab, "inspection misses the code of a function", got=name)
    for x in (cls, obj):
        if x is not None:
            t.check(is_serializable(x) is True and is_deserializable(x) is True, lab, "a declared class is reported as not (de)serializable")


def run_history(t, mk, hist, lab):
    """hist: (dbg0, dbg1, dbg2, ask-mask, log, black)"""
    import serde
    import serde.core

    d0, d1, d2, mask, loud, black = hist
    out = []
    s = api()
    with quiet_settings():
        if not black:
            sys.modules["black"] = None
        elif sys.modules.get("black", 1) is None:
            del sys.modules["black"]
        logging.getLogger("serde").setLevel(logging.DEBUG if loud else logging.WARNING)
        serde.init(d0)
        c = mk()
        if mask & 1:  # asked before anything is declared
            from serde.de import is_deserializable
            from serde.se import is_serializable

            for x in (int, str, object(), 3, None, dict):
                t.check(is_serializable(x) is False and is_deserializable(x) is False, lab, "a builtin is reported as (de)serializable", got=repr(x))
        try:
            cls = c.py()
            objs = c.values()
        except Exception as e:  # noqa: BLE001
            return [f"declare {type(e).__name__}: {e}"]
        origin = c.origin() if isinstance(c, ClassTy) else None
        how = getattr(c, "how", None)
        askable = isinstance(origin, type) and how in ("serde", "split", None)

        def q():
            if askable and objs:
                ask(t, origin, objs[0], d0, lab)

        if mask & 2:
            q()
        serde.init(d1)
        for n, o in enumerate(objs):
            w = None
            for shape, fn, rd in (("dict", s.to_dict, s.from_dict), ("tuple", s.to_tuple, s.from_tuple)):
                for kw in ({}, {"reuse_instances": False, "convert_sets": True}):
                    out.append((n, shape, str(kw), outcome(fn, o, **kw)))
                try:
                    w = fn(o, reuse_instances=False, convert_sets=True)
                except Exception:  # noqa: BLE001
                    continue
                out.append((n, shape, "read", outcome(rd, cls, w)))
                if n == 0:
                    seen = set()
                    for k, m in mutations(w, [None, "x", 7]):
                        if canon(m) in seen:
                            continue
                        seen.add(canon(m))
                        out.append((n, shape, "mut " + k, outcome(rd, cls, fresh(m))))
            if n == 0:
                serde.init(d2)
                if mask & 4:
                    q()
            j = outcome(s.json.to_json, o)
            out.append((n, "json", j))
            if j.startswith("ok"):
                out.append((n, "json read", outcome(s.json.from_json, cls, s.json.to_json(o))))
        for bad in (None, 3, "x", [], {}, [1, 2, 3, 4]):
            out.append(("bad", canon(bad), outcome(s.from_dict, cls, bad), outcome(s.from_tuple, cls, bad)))
        if mask & 4:
            q()
    return out


FULL = [(d0, d1, d2, m, loud, False) for d0 in (False, True) for d1 in (False, True) for d2 in (False, True) for m in (0, 2, 4, 7) for loud in (False, True)]
FEW = [(True, True, True, 7, True, False), (True, False, True, 2, False, False), (False, True, False, 4, True, False), (False, False, False, 7, False, False), (False, True, True, 0, False, False)]
BASE = (False, False, False, 0, False, False)


def explore(mk, hists, black=False):
    def run(t):
        base = run_history(t, mk, BASE, "base")
        again = run_history(t, mk, BASE, "base again")
        t.check(base == again, "base", "the quiet history is not reproducible", **diff(base, again))
        for h in hists + ([(True, True, True, 2, False, True)] if black else []):
            if h == BASE:
                continue
            got = run_history(t, mk, h, str(h))
            t.state(str(h), canon([str(x) for x in got]))
            t.outcome("declared" if len(got) > 1 else "refused")
            t.check(got == base, str(h), "the results differ from those of the quiet history", **diff(base, got))
    return run


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return {"quiet": str(x)[:400], "got": str(y)[:400]}
    return {"quiet": len(a), "got": len(b)}


class Loud:
    """Its repr fails: nothing but inspection of a class using it as a default needs the repr."""

    def __repr__(self):
        raise RuntimeError("repr")

    def __eq__(self, o):
        return type(o) is Loud

    __hash__ = object.__hash__


def features():
    out = {}
    for n, mk in c27.surroundings().items():
        out["s " + n] = mk
    for n, mk in c29.places("dict", color_).items():
        out["p " + n] = mk
    for n in c19.SETTINGS:
        out["set " + n] = lambda n=n: c19.mk("C", n)
        if n not in ("plain", "auto", "split"):
            out["sub " + n] = lambda n=n: c19.mk("D", "none", base=c19.mk("C", n), pre="d_")
    for tg in (EXT, INT, ADJ, UNT):
        out["tag " + tg.name] = lambda tg=tg: c27.holder(Seq(UnionTy(In(), In("In2", "plain"), int_(), Seq(str_()))), tagging=tg)
    out["conv"] = lambda: ClassTy("C", [F("a", date_()), F("b", Seq(int_())), F("n", In())], conv=c17.table(["date", "int"], "A"))
    out["default"] = lambda: ClassTy("C", [F("a", int_(), default=3), F("l", Seq(int_()), default_factory=lambda: [1, 2]), F("d", date_(), default=dt.date(2020, 1, 1)), F("e", color_(), default=Color.R)])
    out["quotes"] = lambda: ClassTy("C", [F("a", int_(), rename='"quo\'ted"'), F("b", str_(), default='"""', alias=["\\n"])])
    out["braces"] = lambda: ClassTy("C", [F("a", str_(), default="{x}"), F("b", int_(), rename="{{ y }}", default=2), F("c", str_(), rename="%s", default="%d")])
    out["lits"] = lambda: ClassTy("C", [F("a", LitTy("a\"b", "c'd", "{e}", "\\", "\n")), F("u", UnionTy(LitTy("x\n", 1), int_()))])
    return out


def loud_default(t):
    """Declarations do not need the repr of the defaults, whatever the log level."""
    import dataclasses as dc

    import serde

    for d in (False, True):
        for loud in (False, True):
            with quiet_settings():
                serde.init(d)
                logging.getLogger("serde").setLevel(logging.DEBUG if loud else logging.WARNING)
                cls = dc.make_dataclass("C", [("a", int), ("b", typing.Any, dc.field(default=Loud()))], namespace={"__doc__": "the signature is not needed"})
                got = t.call(serde.serde, cls)
                t.check(got[0] == "ok", f"{d} {loud}", "declaration failed", got=desc(got))
                if got[0] == "ok":
                    r = t.call(serde.from_dict, cls, {"a": 1})
                    t.check(r[0] == "ok" and r[1].a == 1, f"{d} {loud}", "reading failed", got=r[0])
            t.state(d, loud)


SRC = {
    "simple": ("@serde\nclass C:\n    a: int\n    b: list[str]\n", "C"),
    "union": ("@dataclass\nclass P:\n    x: int\n@serde\nclass C:\n    a: Union[P, int]\n    b: Optional[P] = None\n", "C"),
    "nested": ("@dataclass\nclass P:\n    x: int\n@serde\nclass C:\n    a: P\n", "P"),
    "ser": ("@serialize\nclass C:\n    a: int = 3\n", "C"),
    "de": ("@deserialize\nclass C:\n    a: int = 3\n", "C"),
    "inherit": ("@serde\nclass P:\n    x: int\n@dataclass\nclass C(P):\n    y: 'Optional[C]' = None\nserde(C)\n", "C"),
    "plain": ("@dataclass\nclass C:\n    a: int\n", "C"),
    "none": ("class C:\n    pass\n", "C"),
    "used": ("@dataclass\nclass C:\n    a: int\nfrom serde import to_dict\nto_dict(C(3))\n", "C"),
}


def command(t):
    head = "from dataclasses import dataclass\nfrom typing import *\nfrom serde import *\n"
    with tempfile.TemporaryDirectory() as d:
        for n, (src, name) in SRC.items():
            with open(os.path.join(d, f"mod_{n}.py"), "w") as f:
                f.write(head + src)
            for args, cwd in (([os.path.join(d, f"mod_{n}.py"), name], "/"), ([f"mod_{n}.py", name], d), (["-v", os.path.join(d, f"mod_{n}.py"), name], "/")):
                import serde

                env = {**os.environ, "PYTHONPATH": os.path.dirname(os.path.dirname(serde.__file__))}
                p = subprocess.run([sys.executable, "-m", "serde.inspect", *args], cwd=cwd, env=env, capture_output=True, text=True, timeout=60)
                t.state(n, str(len(args)))
                t.check(p.returncode == 0, f"{n} {args[0][:3]}", "the inspection command failed", err=p.stderr[-500:])
                if n in ("plain", "none", "nested"):
                    want = ["def to_dict(", "def from_dict("] if n == "nested" else []
                else:
                    want = [] if n == "de" else ["def to_dict(", "def to_iter("]
                    want += [] if n in ("ser", "used") else ["def from_dict(", "def from_iter("]
                for w in want:
                    t.check(w in p.stdout, f"{n} {args[0][:3]}", "the inspection command does not show a generated function", want=w, out=p.stdout[-500:])


def cases(tier):
    th = tier == "thorough"
    for n, mk in features().items():
        yield Case("feature " + n, explore(mk, FULL, black=True))
    for key, mk in c01_types(tier):
        if mk() is None or key.count(".") > (2 if th else 1):
            continue
        yield Case("type " + key, explore(lambda mk=mk: c27.holder(mk()), FULL if th and key.count(".") <= 1 else FEW))
        if key.count(".") == 0 and not key.startswith("bare"):
            yield Case("direct " + key, explore(lambda mk=mk: Seq(mk()), FEW))
            yield Case("direct opt " + key, explore(lambda mk=mk: OptTy(mk()) if not mk().optional else mk(), FEW))
    yield Case("loud default", loud_default)
    yield Case("command", command)
