"""C15: concurrent use from several threads gives the single-threaded results."""
from __future__ import annotations

import dataclasses
import datetime
import gc
import os
import pathlib
from dataclasses import dataclass
from typing import Generic, List, Literal, Optional, TypeVar, Union

from ..run import Case
from .c14 import E, G, NT, P, PP, Q, R, S, Tree, Un, in_child, o, warm

RULE = ("two threads, each running one activity of an alphabet (first use of plain dataclasses, unions, library types, declarations sharing a plain dataclass, "
        "later uses); the first thread is preempted at each single line it executes in the library and in the generated code (quick: at each line that may access state shared by threads), the second one runs until it "
        "ends or has to wait for a lock; every call must return what it returns alone, and so must a set of calls made afterwards")
BOUNDS = {"quick": "2 threads, 1 preemption at every line that may access shared state, ordered pairs of activities that share types",
          "thorough": "2 threads, 1 preemption at every line, every ordered pair of activities; and 2 preemptions for the pairs of first uses (first one where shared state changes, second one at every line)"}
LEVEL = "all schedules of the real code with the stated number of preemptions, at line granularity"
ASSUMPTIONS = ["a line of library code is taken as atomic; code of other packages (jinja2, beartype, the standard library) runs without being preempted"]

T_ = TypeVar("T_")


@dataclass
class Leaf:
    i: int


@dataclass
class Node:
    leaf: Leaf
    kids: List["Node"] = dataclasses.field(default_factory=list)


@dataclass
class Ext(Leaf):
    x: int = 2


@dataclass
class Ping:
    pong: Optional["Pong"] = None
    n: int = 0


@dataclass
class Pong:
    pings: List[Ping] = dataclasses.field(default_factory=list)
    x: int = 1


OPS = {}
TAGS = {}


def op(*tags):
    def deco(f):
        OPS[f.__name__] = f
        TAGS[f.__name__] = set(tags)
        return f

    return deco


@op("leaf")
def write_leaf():
    return [o(S().to_dict, Leaf(1))]


@op("leaf")
def read_leaf():
    return [o(S().from_dict, Leaf, {"i": 1})]


@op("leaf")
def read_bad_leaf():
    return [o(S().from_dict, Leaf, {}), o(S().from_tuple, Leaf, (3,))]


@op("leaf")
def leaf_list():
    return [o(S().to_tuple, [Leaf(1)]), o(S().from_dict, list[Leaf], [{"i": 1}])]


@op("leaf")
def declare_with_leaf():
    s = S()

    @s.serde
    class D:
        l: Leaf

    return [o(s.to_dict, D(Leaf(1))), o(s.from_dict, D, {"l": {"i": 2}})]


@op("leaf")
def declare_list_of_leaf():
    s = S()

    @s.serde(rename_all="pascalcase", deny_unknown_fields=True)
    class D:
        my_list: List[Leaf]
        o: Optional[Leaf] = None

    return [o(s.from_tuple, D, ([(2,)], None)), o(s.to_tuple, D([Leaf(1)]))]


@op("leaf")
def write_only_declaration():
    s = S()

    @s.serialize
    @dataclass
    class D:
        l: Leaf

    return [o(s.to_dict, D(Leaf(1)))]


@op("leaf")
def union_of_leaf():
    s = S()
    return [o(s.from_dict, Union[Leaf, int], {"Leaf": {"i": 1}}), o(s.to_dict, Leaf(2), c=Union[Leaf, int])]


@op("leaf")
def write_node():
    return [o(S().to_dict, Node(Leaf(1), [Node(Leaf(2))]))]


@op("leaf")
def read_node():
    return [o(S().from_dict, Node, {"leaf": {"i": 1}, "kids": [{"leaf": {"i": 3}, "kids": []}]})]


@op("leaf")
def derived():
    return [o(S().to_dict, Ext(1, 3)), o(S().from_dict, Ext, {"i": 1})]


@op("leaf")
def json_leaf():
    import serde.json

    return [o(serde.json.to_json, Leaf(1)), o(serde.json.from_json, Leaf, '{"i": 5}')]


@op("rec")
def write_ping():
    return [o(S().to_dict, Ping(Pong([Ping(None, 3)], 4)))]


@op("rec")
def read_ping():
    return [o(S().from_dict, Ping, {"pong": {"pings": [{"n": 2, "pong": None}]}}), o(S().from_dict, Ping, {"pong": {"x": "a"}})]


@op("rec")
def write_pong():
    return [o(S().to_tuple, Pong([Ping(Pong(), 3)], 4))]


@op("rec")
def read_pong():
    return [o(S().from_dict, Pong, {"pings": [{"n": 2, "pong": {"x": 5}}]}), o(S().from_dict, Pong, {"pings": [{"pong": 3}]})]


@op("rec")
def declare_with_ping():
    s = S()

    @s.serde
    class D:
        p: Ping

    return [o(s.to_dict, D(Ping(Pong()))), o(s.from_dict, D, {"p": {"pong": {}}})]


@op("union")
def union_read():
    return [o(S().from_dict, Union[int, str], "x")]


@op("union")
def union_write():
    return [o(S().to_dict, 3, c=Union[int, str])]


@op("union")
def union_other_order():
    return [o(S().from_dict, Union[str, int], "1"), o(S().from_dict, S().Untagged(Union[int, str]), 1)]


@op("union")
def union_field():
    s = S()

    @s.serde
    class D:
        u: Union[int, str]

    return [o(s.to_dict, D("a")), o(s.from_dict, D, {"u": 2})]


@op("union", "leaf")
def internal_union():
    s = S()
    U = s.InternalTagging("t")(Union[Leaf, P])
    return [o(s.to_dict, P(2), c=U), o(s.from_dict, U, {"t": "Leaf", "i": 1})]


@op("lib")
def library_types():
    s = S()
    return [o(s.to_dict, datetime.date(2020, 1, 2)), o(s.from_dict, pathlib.PurePosixPath, "/a")]


@op("lib")
def library_types_again():
    s = S()
    return [o(s.to_dict, [pathlib.PurePosixPath("/a"), datetime.date(2020, 1, 2)]), o(s.from_dict, datetime.date, "2020-01-02")]


@op("generic")
def generic_read():
    s = S()
    return [o(s.from_dict, G[int], {"v": 1}), o(s.to_dict, G("a"))]


@op("generic")
def generic_other():
    s = S()

    @s.serde
    class D(Generic[T_]):
        g: T_
        h: List[T_]

    return [o(s.from_dict, D[str], {"g": "a", "h": ["b"]}), o(s.from_dict, G[str], {"v": "x"})]


@op("literal")
def literals():
    s = S()

    @s.serde
    class D:
        a: Literal[1, "x"]
        e: E = E.A

    return [o(s.from_dict, D, {"a": "x", "e": 1}), o(s.to_dict, D(1))]


def run(name):
    try:
        return OPS[name]()
    except Exception as e:  # noqa: BLE001
        return [f"crash:{type(e).__name__}: {e}"]


POST = ["write_leaf", "read_leaf"]
AGAINST = {"write_leaf", "read_leaf", "declare_with_leaf", "write_pong", "read_pong", "union_read", "union_write", "library_types_again", "generic_read"}
HEAVY = {"declare_list_of_leaf", "read_bad_leaf", "internal_union", "union_other_order", "leaf_list", "json_leaf"}
_BASE = {}


def base(n):
    if n not in _BASE:
        _BASE[n] = in_child(lambda: run(n))
    return _BASE[n]


def before_import(root):
    from .. import sched

    sched.install(root)


def prepare(names):
    def f():
        for n in names:
            run(n)

    return f


def related(tier):
    for a in OPS:
        for b in OPS:
            if tier == "thorough" or (TAGS[a] & TAGS[b] and b in AGAINST and not (a in HEAVY and b in ("declare_with_leaf", "union_of_leaf"))):
                yield a, b


def fingerprint():
    """Coarse state of what the threads share; used to choose the first of two preemptions."""
    import serde.core

    out = []
    for c in (Leaf, Node, Ext, P, Ping, Pong, G):
        for k, v in vars(c).items():
            if "serde" in k and hasattr(v, "__dict__"):
                out.append((c.__name__, k, tuple(len(x) if hasattr(x, "__len__") else repr(x) for x in vars(v).values())))
    for k, v in vars(serde.core.CACHE).items() if hasattr(serde.core, "CACHE") else ():
        out.append((k, len(v) if hasattr(v, "__len__") else repr(v)))
    for k, v in vars(getattr(serde.core, "GENERATION", None)).items() if hasattr(serde.core, "GENERATION") else ():
        out.append((k, getattr(v, "count", v)))
    return tuple(map(str, out))


def attached():
    return [tuple(map(id, vars(c).values())) for c in (Leaf, Node, Ext, P, Ping, Pong)]


def records():
    """Attributes of the records the library attaches to classes."""
    for n in POST:
        run(n)
    return sorted({a for v in vars(Leaf).values() if type(v).__module__.split(".")[0] == "serde" and hasattr(v, "__dict__") for a in vars(v)})


def cases(tier):
    import serde
    import serde.inspect, serde.json, serde.msgpack, serde.numpy, serde.pickle, serde.toml, serde.yaml  # noqa: F401,E401
    from .. import sched

    serde.core.init(debug=False)
    root = os.path.dirname(serde.__file__)
    warm()
    gc.collect()
    gc.freeze()
    touches = sched.Touches("serde", in_child(records)) if tier == "quick" else None

    def judge(a, b):
        ra, rb = base(a), base(b)

        def child(res):
            bad = []
            for n, exp, got in ((a, ra, res[0]), (b, rb, res[1])):
                if got != exp:
                    bad.append((n, str(exp)[:300], str(got)[:300]))
            for n in dict.fromkeys([a, b] + POST):
                got = run(n)
                if got != base(n):
                    bad.append((f"afterwards {n}", str(base(n))[:300], str(got)[:300]))
            return bad

        return child

    for n in OPS:
        base(n)
    for a, b in related(tier):
        def one(t, a=a, b=b):
            t.check(not any(r.startswith("crash") for r in base(a) + base(b)), "base", "the activity itself fails", got=str(base(a) + base(b)))
            got = sched.explore_one(lambda: run(a), lambda: run(b), root, judge(a, b), touches, attached)
            if not isinstance(got, list):
                t.fail("explore", f"the exploration failed: {got}")
                return
            for k, bad in got:
                t.trans += 1
                t.state(a, b, k)
                t.outcome("schedule")
                t.check(not bad, f"preempted at {k}", "differs from the single-threaded result", got=str(bad))

        yield Case(f"1 {a} | {b}", one, timeout=600)
    if tier == "thorough":
        firsts = [n for n in OPS if "leaf" in TAGS[n] or n in ("union_read", "union_write", "library_types")]
        for a in firsts:
            for b in firsts:
                if not TAGS[a] & TAGS[b]:
                    continue

                def two(t, a=a, b=b):
                    def points():
                        import sys

                        last, ks, n = [None], [], [0]

                        def point(frame):
                            n[0] += 1
                            f = fingerprint()
                            if f != last[0]:
                                last[0] = f
                                ks.append(n[0])

                        sys.settrace(sched.lines(root)(point))
                        run(a)
                        sys.settrace(None)
                        return ks

                    def length():
                        import sys

                        n = [0]

                        def point(frame):
                            n[0] += 1

                        sys.settrace(sched.lines(root)(point))
                        run(b)
                        sys.settrace(None)
                        return n[0]

                    ks, ln = in_child(points), in_child(length)
                    child = judge(a, b)
                    for k in ks:
                        for j in range(1, ln + 1):
                            def go(k=k, j=j):
                                res, counts = sched.run_two(lambda: run(a), lambda: run(b), root, k, j)
                                return counts, child(res)

                            got = in_child(go)
                            if got[0] == "crash":
                                t.fail(f"{k},{j}", f"the exploration failed: {got}")
                                continue
                            counts, bad = got
                            t.trans += 1
                            t.state(a, b, k, j)
                            t.outcome("schedule2")
                            t.check(not bad, f"preempted at {k},{j}", "differs from the single-threaded result", got=str(bad))
                            if counts[1] < j:
                                break

                yield Case(f"2 {a} | {b}", two, timeout=3000)
