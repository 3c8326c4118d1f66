"""C14: results do not depend on what the process did before."""
from __future__ import annotations

import collections
import dataclasses
import datetime
import decimal
import enum
import os
import pathlib
import pickle
import typing
import uuid
from dataclasses import dataclass
from typing import Any, Generic, List, Literal, NewType, Optional, TypeVar, Union

from ..canon import canon
from ..run import Case

RULE = ("every sequence of operations up to the depth bound over an alphabet of operations (class declarations sharing plain dataclasses, direct use of types, "
        "unions, literals, formats, failing calls and declarations, inspection) is executed in a forked pristine process; the outcome of every operation "
        "must equal its outcome as the first operation of a process")
BOUNDS = {"quick": "all sequences of length 1 and 2 over the whole alphabet", "thorough": "also all sequences of length 3 over the half of the alphabet that generates code for shared types"}
LEVEL = "operation histories"

T_ = TypeVar("T_")
U_ = TypeVar("U_")


# ---- types shared by the operations; nothing is generated for them when a process starts
class E(enum.Enum):
    A = "a"
    B = 1


class IE(enum.IntEnum):
    ONE = 1
    TWO = 2


class BE(enum.Enum):
    T = True
    F = False


@dataclass
class P:
    i: int
    s: str = "x"


@dataclass
class Q:
    p: P
    l: List[P] = dataclasses.field(default_factory=list)
    o: Optional[P] = None


@dataclass
class R(P):
    r: float = 1.5


@dataclass
class PP:
    i: int
    s: str = "y"


@dataclass
class G(Generic[T_]):
    v: T_


@dataclass
class H(Generic[T_, U_]):
    a: T_
    b: U_


@dataclass
class Tree:
    n: int
    kids: List["Tree"] = dataclasses.field(default_factory=list)
    up: Optional["Tree"] = None


@dataclass
class Ping:
    pong: Optional["Pong"] = None


@dataclass
class Pong:
    ping: Optional["Ping"] = None
    x: int = 0


@dataclass
class Un:
    u: Union[P, PP]
    v: Union[int, str] = 0


@dataclass
class Bad:
    p: P
    f: typing.Callable[[int], int]


@dataclass
class Boom:
    i: int

    def __post_init__(self):
        if self.i < 0:
            raise ZeroDivisionError("boom")


@dataclass
class Lit:
    a: Literal[1, "x"]
    b: Literal[True, 1.0] = True


@dataclass
class Dflt:
    l: list = dataclasses.field(default_factory=list)
    d: dict = dataclasses.field(default_factory=dict)
    e: E = E.A


def two_named():
    """Two different classes of the same name."""
    ns = []
    for fs in ([("i", int)], [("s", str), ("i", int, dataclasses.field(default=3))]):
        ns.append(dataclasses.make_dataclass("Same", fs))
    return ns


SA, SB = two_named()
NT = NewType("NT", int)


def o(fn, *a, **kw):
    try:
        return "ok:" + canon(fn(*a, **kw))
    except Exception as e:  # noqa: BLE001
        return f"err:{type(e).__name__}"


OPS = {}
SHARED = set()


def op(shared=True):
    def deco(f):
        OPS[f.__name__] = f
        if shared:
            SHARED.add(f.__name__)
        return f

    return deco


def S():
    import serde

    return serde


@op()
def direct_p():
    s = S()
    return [o(s.to_dict, P(1)), o(s.from_dict, P, {"i": 1, "s": "q"}), o(s.from_dict, P, {"i": "no"}), o(s.from_dict, P, {}), o(s.to_tuple, P(1)), o(s.from_tuple, P, (1, "z"))]


@op()
def direct_p_write_only():
    return [o(S().to_dict, [P(1), P(2)])]


@op()
def direct_p_read_only():
    return [o(S().from_dict, list[P], [{"i": 1}, {"i": 2, "s": ""}])]


@op()
def direct_q():
    s = S()
    q = Q(P(1), [P(2)], P(3))
    return [o(s.to_dict, q), o(s.from_dict, Q, {"p": {"i": 1}, "l": [{"i": 3}], "o": None}), o(s.from_dict, Q, {"p": None})]


@op()
def direct_r():
    s = S()
    return [o(s.to_dict, R(1, "a", 2.5)), o(s.from_dict, R, {"i": 1, "s": "q", "r": 0.5}), o(s.to_dict, [P(1), R(2)])]


@op()
def holder_p():
    s = S()

    @s.serde
    class C:
        p: P
        l: list[P] = s.field(default_factory=list)

    return [o(s.to_dict, C(P(1), [P(2)])), o(s.from_dict, C, {"p": {"i": 1}, "l": [{"i": 2}]}), o(s.from_dict, C, {"p": {"i": "a"}})]


@op()
def holder_p_camel():
    s = S()

    @s.serde(rename_all="pascalcase", deny_unknown_fields=True, type_check=s.coerce)
    class C:
        the_p: P
        o: Optional[P] = None

    return [o(s.to_dict, C(P(1))), o(s.from_dict, C, {"TheP": {"i": 1, "zz": 0}}), o(s.from_dict, C, {"TheP": {"i": "5"}}), o(s.from_dict, C, {"the_p": {"i": 1}})]


@op()
def holder_q_ser():
    s = S()

    @s.serialize(rename_all="uppercase")
    class C:
        q: Q

    return [o(s.to_dict, C(Q(P(1)))), o(s.from_dict, C, {"q": {}})]


@op()
def holder_q_de():
    s = S()

    @s.deserialize
    @dataclass
    class C:
        q: Q

    return [o(s.from_dict, C, {"q": {"p": {"i": 1}}}), o(s.from_dict, C, {"q": {}})]


@op()
def sub_of_p():
    s = S()

    @s.serde(rename_all="uppercase", skip_if_default=True)
    @dataclass
    class C(P):
        t: int = 4

    return [o(s.to_dict, C(1, "q", 5)), o(s.to_dict, C(1)), o(s.from_dict, C, {"I": 1, "T": 2}), o(s.to_dict, [P(1), C(2)])]


@op()
def sub_of_r_plain():
    s = S()

    @dataclass
    class C(R):
        t: int = 4

    return [o(s.to_dict, C(1, "q", 5.0, 6)), o(s.from_dict, C, {"i": 1, "t": 2})]


@op()
def flatten_p():
    s = S()

    @s.serde(rename_all="pascalcase")
    class C:
        a: int
        p: P = s.field(flatten=True)

    return [o(s.to_dict, C(1, P(2))), o(s.from_dict, C, {"A": 1, "i": 2})]


@op()
def generic_p():
    s = S()
    return [o(s.from_dict, G[P], {"v": {"i": 1}}), o(s.from_dict, G[int], {"v": 1}), o(s.to_dict, G(P(1)))]


@op()
def generic_str():
    s = S()
    return [o(s.from_dict, G[str], {"v": "q"}), o(s.from_dict, H[int, str], {"a": 1, "b": "x"}), o(s.from_dict, H[str, P], {"a": "1", "b": {"i": 1}}), o(s.to_dict, H(1, P(2)))]


@op()
def generic_decl():
    s = S()

    @s.serde
    class C(Generic[T_]):
        v: T_
        w: Optional[T_] = None

    return [o(s.from_dict, C[P], {"v": {"i": 1}}), o(s.from_dict, C[int], {"v": 1, "w": 2}), o(s.from_dict, C[datetime.date], {"v": "2020-01-02"})]


@op()
def tree():
    s = S()
    return [o(s.to_dict, Tree(1, [Tree(2)])), o(s.from_dict, Tree, {"n": 1, "kids": [{"n": 2, "kids": [], "up": {"n": 5}}]}), o(s.from_dict, Tree, {"n": 1, "kids": [{}]})]


@op()
def ping():
    s = S()
    return [o(s.to_dict, Ping(Pong(Ping(None), 3))), o(s.from_dict, Ping, {"pong": {"ping": {"pong": None}}})]


@op()
def pong():
    s = S()
    return [o(s.from_dict, Pong, {"ping": {"pong": {"x": 2}}}), o(s.to_dict, Pong(Ping(Pong(None, 1)), 2))]


@op()
def union_int_str():
    s = S()
    return [o(s.to_dict, 1, c=Union[int, str]), o(s.from_dict, Union[int, str], "x"), o(s.from_dict, Union[int, str], 1.5)]


@op()
def union_str_int():
    s = S()
    return [o(s.to_dict, "1", c=Union[str, int]), o(s.from_dict, Union[str, int], 5), o(s.from_dict, Union[str, int], None)]


@op()
def union_int_float():
    import serde.json as j

    return [o(j.from_json, Union[int, float], "1"), o(j.from_json, Union[int, float], "1.5"), o(j.from_json, list[Union[int, float]], "[1, 2.5]")]


@op()
def union_float_int():
    import serde.json as j

    return [o(j.from_json, Union[float, int], "1"), o(j.from_json, list[Union[float, int]], "[1, 2.5]")]


@op()
def union_p_pp():
    s = S()
    U = Union[P, PP]
    return [o(s.to_dict, P(1), c=U), o(s.from_dict, U, {"PP": {"i": 1}}), o(s.from_dict, s.Untagged(U), {"i": 1}), o(s.to_dict, PP(1), c=s.InternalTagging("t", U)),
            o(s.from_dict, s.InternalTagging("t", U), {"t": "P", "i": 4})]


@op()
def union_pp_p():
    s = S()
    U = Union[PP, P]
    return [o(s.to_dict, P(1), c=U), o(s.from_dict, U, {"P": {"i": 1}}), o(s.from_dict, s.Untagged(U), {"i": 1}), o(s.from_dict, s.AdjacentTagging("t", "c", U), {"t": "P", "c": {"i": 4}})]


@op()
def union_fields():
    s = S()

    @s.serde(tagging=s.Untagged)
    class C:
        a: list[Union[P, PP]]
        b: dict[str, Union[PP, P]]

    d = {"a": [{"i": 1}], "b": {"k": {"i": 2}}}
    return [o(s.from_dict, C, d), o(s.to_dict, s.from_dict(C, d))]


@op()
def union_fields_rev():
    s = S()

    @s.serde(tagging=s.Untagged)
    class C:
        a: list[Union[PP, P]]
        b: dict[str, Union[P, PP]]
        c: tuple[Union[PP, P], ...] = ()

    d = {"a": [{"i": 1}], "b": {"k": {"i": 2}}, "c": [{"i": 3}]}
    return [o(s.from_dict, C, d), o(s.to_dict, s.from_dict(C, d))]


@op()
def union_new_syntax():
    s = S()

    @s.serde(tagging=s.InternalTagging("kind"))
    class C:
        a: P | PP
        b: Q | P | None = None

    return [o(s.to_dict, C(P(1), Q(P(2)))), o(s.from_dict, C, {"a": {"kind": "PP", "i": 3}}), o(s.from_dict, C, {"a": {"kind": "Q", "i": 3}})]


@op()
def union_opt_orders():
    s = S()

    @s.serde
    class C:
        a: Union[None, int] = None
        b: Optional[int] = None
        c: Union[int, None, str] = None

    return [o(s.to_dict, C(None, 1, "q")), o(s.from_dict, C, {}), o(s.from_dict, C, {"a": 1, "b": 2, "c": 3})]


@op()
def un_direct():
    s = S()
    return [o(s.to_dict, Un(P(1), "q")), o(s.from_dict, Un, {"u": {"PP": {"i": 1}}, "v": 3}), o(s.from_dict, Un, {"u": {"i": 1}})]


@op()
def un_in_holder():
    s = S()

    @s.serde(tagging=s.AdjacentTagging("t", "c"))
    class C:
        x: Un
        y: Union[P, PP]

    return [o(s.to_dict, C(Un(PP(1)), P(2))), o(s.from_dict, C, {"x": {"u": {"P": {"i": 1}}}, "y": {"t": "PP", "c": {"i": 1}}})]


@op()
def same_a():
    s = S()

    @s.serde
    class C:
        v: SA
        u: Union[SA, int] = 0

    return [o(s.to_dict, C(SA(1), SA(2))), o(s.from_dict, C, {"v": {"i": 1}, "u": {"Same": {"i": 2}}}), o(s.from_dict, Union[SA, str], {"Same": {"i": 1}}), o(s.to_dict, SA(3))]


@op()
def same_b():
    s = S()

    @s.serde
    class C:
        v: SB
        u: Union[SB, int] = 0

    return [o(s.to_dict, C(SB("1"), SB("2"))), o(s.from_dict, C, {"v": {"s": "1"}, "u": {"Same": {"s": "2"}}}), o(s.from_dict, Union[SB, str], {"Same": {"s": "1"}}), o(s.to_dict, SB("3"))]


@op()
def bad_decl():
    s = S()
    return [o(s.from_dict, Bad, {"p": {"i": 1}, "f": None}), o(s.to_dict, Bad(P(1), len)), o(s.serde, dataclasses.make_dataclass("Bd", [("p", P), ("f", typing.Callable[[int], int])]))]


@op()
def bad_holder():
    s = S()

    def decl():
        @s.serde
        class C:
            q: Q
            b: Bad

        return C.__name__

    return [o(decl), o(decl)]


@op()
def bad_transparent():
    s = S()

    def decl():
        @s.serde(transparent=True)
        class C:
            a: P
            b: int

    def decl2():
        @s.serde
        class C:
            p: P = s.field(default_factory=lambda: P(0))
            a: int = s.field(skip_deserializing=True)

    def decl3():
        @s.serde
        class C:
            p: Q
            a: "Missing"  # noqa: F821

    return [o(decl), o(decl2), o(decl3)]


@op()
def boom():
    s = S()
    return [o(s.from_dict, Boom, {"i": -1}), o(s.from_dict, Boom, {"i": 1}), o(s.from_dict, list[Boom], [{"i": 1}, {"i": -1}]), o(s.from_dict, Union[Boom, P], {"Boom": {"i": -1}})]


@op()
def boom_nested():
    s = S()

    @s.serde
    class C:
        b: Boom
        p: P

    return [o(s.from_dict, C, {"b": {"i": -2}, "p": {"i": 1}}), o(s.from_dict, C, {"b": {"i": 2}, "p": {"i": 1}})]


@op()
def literal_int():
    s = S()

    @s.serde
    class C:
        a: Literal[1, 2]
        b: Literal["x", 1] = 1

    return [o(s.from_dict, C, {"a": 1}), o(s.from_dict, C, {"a": True}), o(s.from_dict, C, {"a": 1.0}), o(s.from_dict, C, {"a": 2, "b": "x"}), o(s.from_dict, Literal[1, 2], True)]


@op()
def literal_bool():
    s = S()

    @s.serde
    class C:
        a: Literal[True, 2]
        b: Literal[1, "x"] = 1

    return [o(s.from_dict, C, {"a": True}), o(s.from_dict, C, {"a": 1}), o(s.from_dict, C, {"a": 2, "b": "x"}), o(s.from_dict, Literal[True, 2], 1), o(s.from_dict, list[Literal[True]], [1])]


@op()
def literal_shared():
    s = S()
    return [o(s.from_dict, Lit, {"a": "x"}), o(s.from_dict, Lit, {"a": 1, "b": 1.0}), o(s.from_dict, Lit, {"a": 1, "b": 1}), o(s.to_dict, Lit(1))]


@op()
def plain_ints():
    s = S()
    return [o(s.to_dict, 1), o(s.to_dict, [1, "a", 1.0]), o(s.from_dict, int, 1), o(s.to_dict, {1: 2})]


@op()
def plain_bools():
    s = S()
    return [o(s.to_dict, True), o(s.to_dict, [True, 0.0, False]), o(s.from_dict, bool, True), o(s.to_dict, {True: False})]


@op()
def enum_str():
    s = S()
    return [o(s.to_dict, E.A), o(s.from_dict, E, "a"), o(s.from_dict, E, 1), o(s.from_dict, E, True), o(s.to_dict, {E.B: [E.A]}), o(s.from_dict, dict[E, int], {"a": 1})]


@op()
def enum_int():
    s = S()
    return [o(s.to_dict, IE.ONE), o(s.from_dict, IE, 1), o(s.to_dict, [IE.TWO, 2]), o(s.from_dict, list[IE], [1, 3])]


@op()
def enum_bool():
    s = S()

    @s.serde
    class C:
        e: BE
        f: Optional[IE] = None

    return [o(s.to_dict, C(BE.T, IE.ONE)), o(s.from_dict, C, {"e": True, "f": 2}), o(s.from_dict, BE, False)]


@op()
def lib_direct():
    s = S()
    return [o(s.to_dict, pathlib.PurePosixPath("/a")), o(s.to_dict, datetime.date(2020, 1, 2), reuse_instances=False), o(s.from_dict, decimal.Decimal, "1.50"),
            o(s.from_dict, uuid.UUID, "0" * 32), o(s.to_dict, [decimal.Decimal("1.0"), 1], reuse_instances=False)]


@op()
def lib_decimal_equal():
    s = S()
    return [o(s.to_dict, decimal.Decimal("1"), reuse_instances=False), o(s.to_dict, datetime.datetime(2020, 1, 2), reuse_instances=False), o(s.from_dict, datetime.date, "2020-01-02")]


@op()
def newtype():
    s = S()

    @s.serde
    class C:
        a: NT
        p: P
        l: list[NT] = s.field(default_factory=list)

    return [o(s.from_dict, C, {"a": 1, "p": {"i": 1}}), o(s.to_dict, C(NT(1), P(1))), o(s.from_dict, NT, 5), o(s.from_dict, list[NT], [1])]


@op()
def list_typing():
    s = S()
    return [o(s.from_dict, List[int], [1]), o(s.from_dict, List[P], [{"i": 1}]), o(s.from_dict, list, [1]), o(s.from_dict, List, [1]), o(s.from_dict, dict, {"a": 1})]


@op()
def list_builtin():
    s = S()
    return [o(s.from_dict, list[int], [1]), o(s.from_dict, list[P], [{"i": 1}]), o(s.from_dict, collections.deque, [1]), o(s.from_dict, set, [1]), o(s.from_dict, tuple[int, ...], [1, 2])]


@op()
def json_fmt():
    import serde.json as j

    return [o(j.to_json, P(1)), o(j.from_json, P, '{"i": 1}'), o(j.from_json, P, "{"), o(j.from_json, list[float], "[1]"), o(j.from_json, list[float], "[1]", coerce_numbers=False),
            o(j.to_json, {"a": {1, 2}}), o(j.from_json, R, '{"i": 1, "r": 2}')]


@op()
def other_fmts():
    import serde.msgpack as m
    import serde.pickle as k
    import serde.toml as tm
    import serde.yaml as y

    return [o(m.from_msgpack, P, m.to_msgpack(P(1))), o(m.from_msgpack, P, m.to_msgpack(P(1), named=False), named=False), o(tm.from_toml, P, tm.to_toml(P(1))),
            o(y.from_yaml, P, y.to_yaml(P(1))), o(k.from_pickle, P, k.to_pickle(P(1))), o(y.from_yaml, R, "i: 1\nr: '2'")]


@op()
def ext_dict():
    import serde.msgpack as m

    ext = {0: P, 1: PP}
    return [o(lambda: m.from_msgpack(None, m.to_msgpack(P(1), ext_dict=ext), ext_dict=ext)), o(lambda: m.from_msgpack(None, m.to_msgpack(PP(1), ext_dict=ext), ext_dict=ext)),
            o(lambda: m.to_msgpack(Q(P(1)), ext_dict=ext))]


@op()
def inspecting():
    s = S()
    import contextlib
    import io

    import serde.inspect as ins

    with contextlib.redirect_stdout(io.StringIO()):
        a = o(ins.inspect, P)
    return [a[:4], o(s.is_serializable, int)]


@op()
def skip_none_defaults():
    s = S()

    @s.serde(skip_if_none=True, reuse_instances_default=False, convert_sets_default=True)
    class C:
        o: Optional[P]
        st: set[int]
        p: pathlib.PurePosixPath
        d: Dflt

    c = C(None, {1}, pathlib.PurePosixPath("/x"), Dflt())
    return [o(s.to_dict, c), o(s.to_dict, c, skip_none=False), o(s.from_dict, C, s.to_dict(c)), o(s.to_dict, Dflt()), o(s.from_dict, Dflt, {})]


@op()
def mutated_default():
    s = S()

    def f():
        a = s.from_dict(Dflt, {})
        a.l.append(1)
        a.d["k"] = 1
        return a

    return [o(f), o(s.from_dict, Dflt, {})]


@op()
def class_serializer():
    s = S()
    from plum import dispatch

    class Se:
        @dispatch
        def serialize(self, value: int) -> str:
            return f"#{value}"

    class De:
        @dispatch
        def deserialize(self, cls: type[int], value: Any) -> int:
            return int(value[1:])

    @s.serde(class_serializer=Se(), class_deserializer=De())
    class C:
        i: int
        p: P
        l: list[int] = s.field(default_factory=list)

    return [o(s.to_dict, C(1, P(2), [3])), o(s.from_dict, C, {"i": "#1", "p": {"i": 2}, "l": ["#4"]}), o(s.to_dict, P(5))]


@op()
def field_serializer():
    s = S()

    @s.serde
    class C:
        p: P = s.field(serializer=lambda p: p.i, deserializer=lambda i: P(i))
        q: Optional[P] = None

    return [o(s.to_dict, C(P(1), P(2))), o(s.from_dict, C, {"p": 3, "q": {"i": 4}}), o(s.from_dict, C, {"p": 3, "q": 4})]


@op()
def strict_then_types():
    s = S()

    @s.serde
    class C:
        p: P
        r: R

    def mk():
        return C(1, 2)

    return [o(mk), o(P, "not-an-int"), o(s.from_dict, C, {"p": {"i": "x"}, "r": {"i": 1, "r": "z"}}), o(s.to_dict, C(P("s"), R(1)))]


@op()
def numpy_ops():
    s = S()
    import numpy as np
    import numpy.typing as npt

    C = s.serde(dataclasses.make_dataclass("C", [("a", npt.NDArray[np.int32]), ("b", np.float32)]))

    return [o(lambda: [x.tolist() if hasattr(x, "tolist") else x for x in s.to_dict(C(np.array([1], dtype=np.int32), np.float32(1.5))).values()]),
            o(lambda: str(s.from_dict(C, {"a": [1, 2], "b": 2.5}).a.dtype))]


@op()
def pep695_like():
    s = S()
    A1 = typing.TypeAliasType("A1", Union[P, PP]) if hasattr(typing, "TypeAliasType") else Union[P, PP]
    A2 = typing.TypeAliasType("A1", Union[PP, P]) if hasattr(typing, "TypeAliasType") else Union[PP, P]
    return [o(s.to_dict, P(1), c=A1), o(s.from_dict, A2, {"P": {"i": 1}}), o(s.from_dict, s.Untagged(Union[PP, P]), {"i": 1})]


@op()
def name_clash_holder():
    s = S()

    @s.serde
    class P:  # noqa: F811
        z: int

    @s.serde
    class Q:  # noqa: F811
        p: P

    return [o(s.to_dict, Q(P(1))), o(s.from_dict, Q, {"p": {"z": 1}}), o(s.from_dict, Union[P, int], {"P": {"z": 1}})]


@op()
def forward_after():
    s = S()
    ns = {}
    A = dataclasses.make_dataclass("FwA", [("b", Optional[P]), ("t", Tree)])
    return [o(s.to_dict, A(P(1), Tree(1))), o(s.from_dict, A, {"b": {"i": 1}, "t": {"n": 2, "kids": [{"n": 3}]}})]


@op()
def equal_types():
    s = S()
    return [o(s.from_dict, dict[int, str], {"1": "a"}), o(s.from_dict, dict[NT, str], {1: "a"}), o(s.from_dict, Union[bool, str], True), o(s.from_dict, Union[int, bool], True)]


def run_op(name):
    try:
        return OPS[name]()
    except BaseException as e:  # noqa: BLE001
        return [f"crash:{type(e).__name__}: {e}"]


def in_child(fn):
    """Run in a forked copy of this process and bring the result back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException as e:  # noqa: BLE001
                res = ("crash", repr(e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("crash", "child died")


BASE = {}


def base(name):
    if name not in BASE:
        BASE[name] = in_child(lambda: run_op(name))
    return BASE[name]


def explore(prefix, ops, depth):
    """Results of every continuation of the history executed so far: [(sequence, result)]."""
    out = []
    for name in ops:
        def step(name=name):
            res = [(prefix + (name,), run_op(name))]
            if depth > 1:
                res += explore(prefix + (name,), ops, depth - 1)
            return res

        got = in_child(step)
        out += got if isinstance(got, list) else [(prefix + (name,), [str(got)])]
    return out


def warm():
    """Load what every process loads anyway (templates, modules), without using the library."""
    import casefy  # noqa: F401
    import jaxtyping  # noqa: F401
    import jinja2
    import numpy as np
    import numpy.typing  # noqa: F401
    from beartype import BeartypeConf, beartype
    from beartype.door import is_bearable

    import serde.de
    import serde.se

    for m in (serde.se, serde.de):
        for env in [x for x in vars(m).values() if isinstance(x, jinja2.Environment)]:
            for n in env.list_templates():
                env.get_template(n)
    is_bearable([1], list)

    @beartype(conf=BeartypeConf(violation_type=ValueError))
    @dataclass
    class Warm:
        a: int
        b: Optional[str] = None
        c: List[int] = dataclasses.field(default_factory=list)
        d: Union[int, str] = 0

    Warm(1)
    np.array([1]).tolist()


def cases(tier):
    import serde  # noqa: F401
    import serde.json, serde.msgpack, serde.toml, serde.yaml, serde.pickle, serde.numpy  # noqa: F401,E401

    names = list(OPS)
    warm()

    def compare(t, hist):
        for seq, res in hist:
            exp = base(seq[-1])
            t.trans += len(res)
            t.state(*seq)
            t.outcome(f"len{len(seq)}")
            ok = t.check(res == exp, " > ".join(seq), "the outcome depends on the history", got=str([g for g, e in zip(res, exp) if g != e][:3]),
                         expected=str([e for g, e in zip(res, exp) if g != e][:3]))

    for n in names:
        def run(t, n=n):
            compare(t, [((n,), base(n))])
            t.check(not any(r.startswith("crash") for r in base(n)), "base", "the operation itself failed", got=str(base(n)))
            hist = in_child(lambda: [((n,), run_op(n))] + explore((n,), names, 1))
            compare(t, hist if isinstance(hist, list) else [((n,), [str(hist)])])

        yield Case(f"2 {n}", run, timeout=300)
    if tier == "thorough":
        deep = [n for n in names if n in SHARED]
        for n in deep:
            for m in deep:
                def run(t, n=n, m=m):
                    def first():
                        run_op(n), run_op(m)
                        return explore((n, m), deep, 1)

                    hist = in_child(first)
                    compare(t, hist if isinstance(hist, list) else [((n, m), [str(hist)])])

                yield Case(f"3 {n} {m}", run, timeout=300)
