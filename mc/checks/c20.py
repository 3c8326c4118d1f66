"""C20: recursive and forward-referencing classes convert at any depth."""
import itertools
import sys
import types as types_

from ..junk import fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from ..uni import REG

RULE = ("every reference graph over one, two and three dataclasses whose edges are each of 14 kinds (Optional, list, dict, tuple, nested containers, unions of the classes, "
        "...) x which of the classes are decorated x every order of decorating them x how the references are spelled (quoted, postponed annotations, PEP 604) x taggings and options; "
        "every tree over the graph up to the depth bound (each edge filled alone and all together) is written in both shapes and formats, read back, and read after every one-change "
        "mutation; chains of depth 80")
BOUNDS = {"quick": "one class: pairs of all edge kinds; two classes: one edge each of 6 kinds; three classes: rings of 3 kinds; trees of depth 3",
          "thorough": "two classes: one edge each of all kinds; two edges each of 4 kinds; three classes: rings of 6 kinds; trees of depth 4"}


def q(x):
    return x


# kind -> (annotation, default, type, value holding the children)
def edge(kind, target, all_, tys):
    """(annotation text, default text, model type, empty value, list of children -> value)"""
    me = tys[target]
    other = [n for n in all_ if n != target] or [target]
    un = lambda: UnionTy(me, tys[other[0]]) if other[0] != target else UnionTy(me, int_())  # noqa: E731
    una = f"Union[{target}, {other[0] if other[0] != target else 'int'}]"
    return {
        "opt": (f"Optional[{target}]", "None", lambda: OptTy(me), None, lambda c: c[0]),
        "bar": (f"{target} | None", "None", lambda: OptTy(me, "|"), None, lambda c: c[0]),
        "list": (f"list[{target}]", "field(default_factory=list)", lambda: Seq(me), [], list),
        "dict": (f"dict[str, {target}]", "field(default_factory=dict)", lambda: DictTy(str_(), me), {}, lambda c: {f"k{i}": x for i, x in enumerate(c)}),
        "vtup": (f"tuple[{target}, ...]", "()", lambda: VarTup(me), (), tuple),
        "optlist": (f"Optional[list[{target}]]", "None", lambda: OptTy(Seq(me)), None, list),
        "listopt": (f"list[Optional[{target}]]", "field(default_factory=list)", lambda: Seq(OptTy(me)), [], lambda c: [None, *c, None]),
        "dictlist": (f"dict[str, list[{target}]]", "field(default_factory=dict)", lambda: DictTy(str_(), Seq(me)), {}, lambda c: {"a": list(c), "b": []}),
        "tup": (f"tuple[Optional[{target}], int]", "(None, 3)", lambda: TupTy(OptTy(me), int_()), (None, 3), lambda c: (c[0], 4)),
        "deque": (f"deque[{target}]", "field(default_factory=deque)", lambda: Seq(me, "deque"), collections.deque(), collections.deque),
        "union": (f"Union[{target}, int]", "0", lambda: UnionTy(me, int_()), 0, lambda c: c[0]),
        "ulist": (f"list[{una}]", "field(default_factory=list)", lambda: Seq(un()), [], list),
        "uopt": (f"Union[{target}, str, None]", "None", lambda: UnionTy(me, str_(), none_()), None, lambda c: c[-1]),
        "seq": (f"Sequence[{target}]", "field(default_factory=list)", lambda: Seq(me, "Sequence"), [], list),
    }[kind]


KINDS = ["opt", "bar", "list", "dict", "vtup", "optlist", "listopt", "dictlist", "tup", "deque", "union", "ulist", "uopt", "seq"]
N = itertools.count()


def build(graph, decorated, order, style="future", cfgs=None, base=None):
    """graph: name -> [(kind, target)]. Returns the model types and, per class, the edges."""
    import serde

    names = list(graph)
    cfgs = cfgs or {}
    tys = {}
    for n in names:
        tys[n] = ClassTy(n, [], how="serde" if n in decorated else "plain", lazy=lambda c: None, **(cfgs.get(n, {}) if n in decorated else {}))
    edges = {n: [(f"e{i}_{n}", t, edge(k, t, names, tys)) for i, (k, t) in enumerate(es)] for n, es in graph.items()}
    src = ["from __future__ import annotations"] if style == "future" else []
    src += ["import datetime", "from collections import deque", "from collections.abc import Sequence", "from dataclasses import dataclass, field", "from typing import *"]
    for n in names:
        parent = base.get(n) if base else None
        src += ["@dataclass", f"class {n}({parent}):" if parent else f"class {n}:", f"    v_{n}: datetime.date{' = datetime.date(2000, 1, 1)' if parent else ''}"]
        for fn, _, e in edges[n]:
            ann = e[0]
            if style == "quoted":
                ann = f'"{ann}"'
            elif style == "inner":  # only the name is quoted
                for m in names:
                    ann = ann.replace(f"[{m}", f'["{m}"').replace(f" {m}]", f' "{m}"]').replace(f'"{m}"', f'"{m}"')
                    ann = ann.replace(f'["{m}", ', f'["{m}", ') if True else ann
            src.append(f"    {fn}: {ann} = {e[1]}")
    mod = types_.ModuleType(f"mc_rec_{next(N)}")
    sys.modules[mod.__name__] = mod
    exec("\n".join(src), mod.__dict__)  # noqa: S102
    for n in names:
        tys[n]._cls = mod.__dict__[n]
        REG[tys[n]._cls] = tys[n]
        tys[n].own = [F(f"v_{n}", date_(), **({"default": dt.date(2000, 1, 1)} if base and base.get(n) else {}))]
        for fn, _, e in edges[n]:
            dflt = {"default_factory": lambda e=e: type(e[3])()} if e[1].startswith("field") else {"default": e[3]}
            tys[n].own.append(F(fn, e[2](), **dflt))
        if base and base.get(n):
            tys[n].base = tys[base[n]]
            edges[n] = edges[base[n]] + edges[n]
        tys[n].hashable = False
        tys[n]._memo.clear()
    for n in order:
        serde.serde(tys[n]._cls, **tys[n].real_cfg(tys[n].cfg, "both"))
    return tys, edges, mod.__name__


def trees(tys, edges, n, depth, base=None):
    """Trees rooted at class n: a leaf, each edge filled alone with one child or several, all edges filled."""
    cls = tys[n]._cls
    mine = [f"v_{n}"] + ([f"v_{base[n]}"] if base and base.get(n) else [])
    d = lambda i: {v: dt.date(2020 + i, 1, depth + 1) for v in mine}  # noqa: E731
    out = [cls(**d(0))]
    if depth == 0:
        return out
    filled = {}
    for fn, target, e in edges[n]:
        ch = trees(tys, edges, target, depth - 1, base)
        deep = ch[-1]
        filled[fn] = e[4]([deep, ch[0]])
        out.append(cls(**d(1), **{fn: e[4]([ch[0]])}))
        out.append(cls(**d(2), **{fn: e[4]([deep, ch[0]])}))
        if len(ch) > 2:
            out.append(cls(**d(3), **{fn: e[4]([ch[len(ch) // 2], deep])}))
    out.append(cls(**d(4), **filled))
    return out


def check(t, built, roots, depth, sub="", mut=True, fm=True, base=None):
    tys, edges, modname = built
    s = api()
    for n in roots:
        c = tys[n]
        objs = trees(tys, edges, n, depth, base)
        roundtrip(t, c, objs, opts=[(False, True)], sub=f"{sub}{n} ")
        if fm:
            fmt_paths(t, c, objs[-1:], which={k: v for k, v in fmts().items() if k in ("json", "msgpack-t")}, sub=f"{sub}{n} ", fopts=[{}])
        if mut:
            small = trees(tys, edges, n, 1, base)[-1]
            for named in (True, False):
                w = model(c.ser, small, O(named=named, reuse=False, sets=True))
                if w is None or w[0] != "ok":
                    continue
                seen = set()
                for lab, m in mutations(w[1], [None, "x", 7]):
                    k = canon(m)
                    if k in seen:
                        continue
                    seen.add(k)
                    exp = model(c.de, fresh(m), O(named=named))
                    if exp is None:
                        continue
                    t.state(modname and c.name, sub, k)
                    got = t.call(s.from_dict if named else s.from_tuple, c._cls, m)
                    compare_de(t, f"{sub}{n} {'dict' if named else 'tuple'} {lab}", c, exp, got, data=k)
    sys.modules.pop(modname, None)


def subsets(names):
    for k in range(1, len(names) + 1):
        yield from itertools.combinations(names, k)


def graph_case(graph, th, styles=("future",), cfgs=None, depth=3):
    def run(t):
        names = list(graph)
        for dec in subsets(names):
            for order in itertools.permutations(dec):
                for st in styles:
                    b = build(graph, dec, order, st, cfgs)
                    full = len(dec) == len(names)
                    check(t, b, names, depth if full else 2, f"{'/'.join(order)} {st} ", mut=full, fm=full and order == dec)
    return run


def inherited(t):
    """A derived class whose inherited fields refer to the base, to itself and to a third class."""
    for k1 in ("opt", "list", "union"):
        for k2 in ("opt", "dict", "ulist"):
            for t1, t2 in itertools.product("AB", repeat=2):
                g = {"A": [(k1, t1)], "B": [(k2, t2)]}
                for dec in (("A", "B"), ("B",), ("A",)):
                    for order in itertools.permutations(dec):
                        base = {"B": "A"}
                        b = build(g, dec, order, base=base)
                        check(t, b, "AB", 2, f"{k1}{t1} {k2}{t2} {order} ", mut=False, fm=False, base=base)


def chains(t):
    for dec in (("A", "B"), ("A",)):
        b = build({"A": [("opt", "B"), ("list", "A")], "B": [("dict", "A"), ("union", "B")]}, dec, dec)
        tys = b[0]
        A, B = tys["A"]._cls, tys["B"]._cls
        s = api()
        for depth in (1, 2, 20, 80):
            x = A(dt.date(2020, 1, 1))
            for i in range(depth):
                x = A(dt.date(2020, 1, 1), B(dt.date(2021, 1, 1), {"k": x}), [A(dt.date(2022, 1, 1))] if i % 2 else [x] if i < 4 else [])
            exp = model(tys["A"].ser, x, O(named=True, reuse=False))
            got = t.call(s.to_dict, x, reuse_instances=False)
            compare_ser(t, f"{dec} {depth}", exp, got)
            back = t.call(s.from_dict, A, exp[1], reuse_instances=False)
            t.check(back[0] == "ok" and same(back[1], x), f"{dec} {depth} back", "read differently", got=desc(back)[:300])
            t.state(dec, depth)


def cases(tier):
    th = tier == "thorough"
    dep = 4 if th else 3
    for a in KINDS:
        yield Case(f"A {a}", graph_case({"A": [(a, "A")]}, th, ("future", "quoted"), depth=dep))
        for b in KINDS:
            yield Case(f"A {a} {b}", graph_case({"A": [(a, "A"), (b, "A")]}, th))
    two = KINDS if th else ["opt", "list", "dict", "tup", "union", "ulist"]
    for a, b in itertools.product(two, repeat=2):
        for ta, tb in itertools.product("AB", repeat=2):
            yield Case(f"AB {a}{ta} {b}{tb}", graph_case({"A": [(a, ta)], "B": [(b, tb)]}, th, ("future", "quoted") if a == b else ("future",), depth=dep))
    four = ("opt", "list", "dict", "union") if th else ("opt", "ulist")
    for a, b, c, d in itertools.product(four, repeat=4):
        yield Case(f"AB2 {a}{b}{c}{d}", graph_case({"A": [(a, "A"), (b, "B")], "B": [(c, "A"), (d, "B")]}, th))
    ring = ("opt", "list", "tup", "dictlist", "union", "vtup") if th else ("opt", "list", "ulist")
    for a, b, c in itertools.product(ring, repeat=3):
        yield Case(f"ABC {a}{b}{c}", graph_case({"A": [(a, "B")], "B": [(b, "C")], "C": [(c, "A")]}, th, depth=3))
    for tg in (INT, ADJ, UNT):
        for a, b in (("ulist", "ulist"), ("union", "ulist"), ("uopt", "union")):
            for cf in ({"A": {"tagging": tg}}, {"B": {"tagging": tg}}, {"A": {"tagging": tg}, "B": {"tagging": tg}}):
                yield Case(f"tag {tg.name} {a} {b} {sorted(cf)}", graph_case({"A": [(a, "B")], "B": [(b, "A")]}, th, cfgs=cf))
    for cfg in ({"rename_all": "camelcase"}, {"deny_unknown_fields": True}, {"skip_if_default": True}, {"skip_if_none": True}, {"type_check": "coerce"}, {"type_check": "disabled"}):
        yield Case(f"opt {sorted(cfg.items())}", graph_case({"A": [("opt", "B"), ("list", "A")], "B": [("dict", "A")]}, th, cfgs={"A": cfg}))
    yield Case("inherited", inherited)
    yield Case("chains", chains)
