"""C06: union fields keep the variant under every tagging."""
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c04 import data_of

RULE = ("every ordered pair (and every ordered triple of a smaller set) of member types x 8 taggings, the union as a field, in list, dict, tuple, "
        "Optional and a nested class; every member value, dict and tuple shape, every format; then every one-change datum, including every "
        "member's tag at every text position")
BOUNDS = {"quick": "31 members in pairs, 8 in triples; 11 unions as the element of 21 containers (6 outer ones); every container of 5 element types and every bare one beside 8 others and, for 2 element types, beside every other container", "thorough": "31 members in pairs, 13 in triples; corruption of triples and of container members as well, under four taggings"}

TAGS = [EXT, UNT, INT, Tag("Internal", "i-t y"), ADJ, Tag("Adjacent", "c", "t"), Tag("Internal", 'a"b\\'), Tag("Adjacent", "c'\"", "t\n")]


class M:
    """One consistent family of members: classes are shared between the members of a union."""

    def __init__(self):
        self.c = {}

    def get(self, n):
        if n not in self.c:
            self.c[n] = getattr(self, "m_" + n)()
        return self.c[n]

    def m_A(self): return ClassTy("A", [F("i", int_())])
    def m_B(self): return ClassTy("B", [F("i", int_())])
    def m_S(self): return ClassTy("S", [F("s", str_()), F("i", int_(), default=9)])
    def m_D(self): return ClassTy("D", [F("i", int_())], deny_unknown_fields=True)
    def m_P(self): return ClassTy("P", [F("i", int_())], how="plain")
    def m_R(self): return ClassTy("R", [F("my_val", int_())], rename_all="camelcase")
    def m_E(self): return ClassTy("E", [])
    def m_Sub(self): return ClassTy("Sub", [F("j", int_())], base=self.get("A"))
    def m_L(self): return ClassTy("L", [F("l", Seq(int_())), F("n", OptTy(self.get("A")))])
    def m_FD(self): return ClassTy("FD", [F("k", int_()), F("x", DictTy(str_(), any_()), flatten=True)])
    def m_U(self): return ClassTy("U", [F("u", UnionTy(self.get("A"), self.get("B")))], tagging=ADJ)
    def m_Sets(self): return ClassTy("Sets", [F("s", SetTy(int_())), F("p", path_())])
    def m_FStr(self): return fstr_()
    def m_FInt(self): return fint_()
    def m_StrE(self): return stre_()
    def m_Perm(self): return perm_()
    def m_int(self): return int_()
    def m_str(self): return str_()
    def m_float(self): return float_()
    def m_bool(self): return bool_()
    def m_Path(self): return path_()
    def m_UUID(self): return uuid_()
    def m_Dec(self): return dec_()
    def m_Color(self): return color_()
    def m_Num(self): return num_()
    def m_dt(self): return datetime_()
    def m_date(self): return date_()
    def m_li(self): return Seq(int_())
    def m_lA(self): return Seq(self.get("A"))
    def m_di(self): return DictTy(str_(), int_())
    def m_dA(self): return DictTy(str_(), self.get("A"))
    def m_tup(self): return TupTy(int_(), str_())
    def m_si(self): return SetTy(int_())
    def m_lit(self): return LitTy("r", 7)
    def m_Nt(self): return newint_()
    def m_none(self): return NoneTy()


ALL = [n[2:] for n in dir(M) if n.startswith("m_")]
CLS = {"A", "B", "S", "D", "P", "R", "E", "Sub", "L", "FD", "U", "Sets"}
TRI = {"quick": ["A", "B", "S", "Sub", "int", "str", "lA", "none"], "thorough": ["A", "B", "S", "D", "Sub", "FD", "P", "int", "str", "float", "lA", "dA", "none"]}


def build(names, tag, mode="strict"):
    m = M()
    u = UnionTy(*[m.get(n) if isinstance(n, str) else n for n in names])
    inner = ClassTy("Inner", [F("v", u)], tagging=tag)
    fs = [F("u", u), F("l", Seq(u)), F("d", DictTy(str_(), u)), F("t", TupTy(int_(), u)), F("n", inner)]
    if not u.optional:
        fs.append(F("o", OptTy(u)))
    c = ClassTy("C", fs, tagging=tag, vals=lambda me: vals(me, u, inner))
    return c, u


def vals(c, u, inner):
    out = []
    for v in u.values():
        kw = dict(u=v, l=[v], d={"k": v}, t=(1, v), n=inner.py()(v))
        if len(c.fields) == 6:
            kw["o"] = v
        out.append(c.py()(**kw))
    vs = u.values()
    kw = dict(u=vs[0], l=list(vs), d={str(i): v for i, v in enumerate(vs)}, t=(1, vs[-1]), n=inner.py()(vs[-1]))
    if len(c.fields) == 6:
        kw["o"] = None
    out.append(c.py()(**kw))
    return out


TINY = [None, True, 1, "x", [1], {}, {"i": 1}]


def explore(t, names, tag, corrupt, formats, big=False, kept=True):
    s = api()
    c, u = build(names, tag)
    objs = c.values()
    roundtrip(t, c, objs, opts=((None, None), (True, True)), rt=True)
    if kept and tag.kind != "Untagged":  # a class member always comes back as itself
        for n, v in enumerate(u.values()):
            if type(v) in REG and not any(isinstance(x, DictTy) for x in u.ts):
                for named in (True, False):
                    w = t.call(s.to_dict if named else s.to_tuple, objs[n])
                    b = t.call(s.from_dict if named else s.from_tuple, c.py(), w[1]) if w[0] == "ok" else w
                    t.check(b[0] == "ok" and same(b[1], objs[n]), f"variant v{n} named={named}", "the variant was not kept", obj=canon(objs[n]), got=desc(b))
    if formats:
        fmt_paths(t, c, objs, fopts=({},))
    if corrupt:
        small = ClassTy("W", [F("u", u)], tagging=tag, vals=lambda me: [me.py()(v) for v in u.values()])
        tags = [x.tagname for x in u.ts if isinstance(x, ClassTy)] + ["Nope"]
        for named in (True, False):
            o = O(named=named, sets=True)
            seen = set()
            for n, d in enumerate(data_of(small, o)):
                for lab, m in itertools.chain([("", d)], mutations(d, (SMALL if big else TINY) + tags)):
                    for lab2, mm in retag(lab, m, tags, named):
                        k = canon(mm)
                        if k in seen:
                            continue
                        seen.add(k)
                        exp = model(small.de, fresh(mm), O(named=named))
                        if exp is None:
                            continue
                        t.state(small.name, named, k)
                        compare_de(t, f"corrupt {named} v{n} {lab2}", small, exp, t.call(s.from_dict if named else s.from_tuple, small.py(), mm), data=k)


def retag(lab, m, tags, named):
    yield lab, m
    if lab == "":
        body = m["u"] if named else m[0]
        if isinstance(body, dict):
            for g in tags:  # another member's name as key, an additional key, every key renamed
                for k in body:
                    b = {(g if x == k else x): v for x, v in body.items()}
                    yield f"{k}->{g}", ({"u": b} if named else (b,))
                b = {**body, g: {"i": 1}}
                yield f"+{g}", ({"u": b} if named else (b,))
                b = {g: {"i": 1}, **body}
                yield f"{g}+", ({"u": b} if named else (b,))


HASHABLE_POSITIONS = ("set", "frozenset", "Set", "MutableSet", "keydict", "Counter")
CONTAINERS = [k for k in UNARY if k not in ("opt", "ornone", "cls", "plaincls")]
BARES = [k for k in BareTy.DOM if k != "bare"]


def inside():
    """Unions as the element of every container."""
    mk = {
        "int|str": lambda: (int_(), str_()), "str|Path": lambda: (str_(), path_()), "Fz|G": lambda: (Fz(), ClassTy("G", [F("g", int_())], dc={"frozen": True})),
        "A|str": lambda: (ClassTy("A", [F("i", int_())]), str_()), "lit|int": lambda: (LitTy("r", "g"), int_()), "Color|lit": lambda: (color_(), LitTy(7, "w")),
        "li|A": lambda: (Seq(int_()), ClassTy("A", [F("i", int_())])), "tup|str": lambda: (TupTy(int_(), str_()), str_()), "lit|lit": lambda: (LitTy("r", 1), LitTy("s", 2)),
        "Fz|int|none": lambda: (Fz(), int_(), NoneTy()), "UUID|bytes": lambda: (uuid_(), int_(), bool_()),
    }
    for k, f in mk.items():
        for c in UNARY:
            def ty(f=f, c=c):
                u = UnionTy(*f())
                if c in ("keydict", "Counter") and any(isinstance(x, (ClassTy, NoneTy, TupTy)) for x in u.ts):
                    return None
                return apply(c, u)
            yield f"{c} {k}", ty
            for c2 in ("list", "dict", "frozenset", "tuple2", "opt", "vtuple"):
                def ty2(ty=ty, c2=c2):
                    x = ty()
                    return None if x is None else apply(c2, x)
                yield f"{c2} {c} {k}", ty2


def positions(t, mk, tag):
    ty = mk()
    c = ClassTy("C", [F("p", int_()), F("v", ty), F("q", str_())], tagging=tag)
    c.py()
    objs = c.values()
    roundtrip(t, c, objs, opts=((None, None), (True, False), (False, True)), rt=not ty.ambiguous)
    fmt_paths(t, c, objs[:4], fopts=({},))


def members():
    """Every container as a member of a union, beside something else of it."""
    fz = {"int": int_, "str": str_, "Fz": Fz, "list": lambda: Seq(int_()), "tup": lambda: TupTy(int_(), str_())}
    other = {"str": str_, "int": int_, "A": lambda: ClassTy("A", [F("i", int_())]), "ls": lambda: Seq(str_()), "dsA": lambda: DictTy(str_(), ClassTy("A", [F("i", int_())])),
             "ss": lambda: SetTy(str_()), "ts": lambda: VarTup(str_()), "bool": bool_}
    for c in CONTAINERS:
        for n, a in fz.items():
            def ty(c=c, a=a):
                return apply(c, a())
            if ty() is None:
                continue
            for m, b in other.items():
                if (c == "Sequence" and m == "ts") or (n == "list" and m in ("ss", "dsA")):
                    continue  # a tuple is a Sequence; of the elements only the first is looked at (documented in the code as intended)
                yield f"{c}({n})|{m}", lambda ty=ty, b=b: (ty(), b())
                yield f"{m}|{c}({n})", lambda ty=ty, b=b: (b(), ty())
            for c2 in CONTAINERS:
                for n2 in ("int", "str") if n in ("int", "str") else ():
                    if "Sequence" in (c, c2) and (c + c2).count("tuple"):
                        continue
                    if (c2, n2) != (c, n) and apply(c2, fz[n2]()) is not None:
                        yield f"{c}({n})|{c2}({n2})", lambda ty=ty, c2=c2, n2=n2: (ty(), apply(c2, fz[n2]()))
    for m, b in other.items():
        for k in BARES:
            yield f"bare{k}|{m}", lambda k=k, b=b: (BareTy(k), b())
            yield f"{m}|bare{k}", lambda k=k, b=b: (b(), BareTy(k))


def cases(tier):
    for key, mk in inside():
        if mk() is None:
            continue
        for tag in (EXT, UNT, INT, ADJ) if "Fz" in key or "A" in key else (EXT, UNT):
            if tier == "thorough" or key.count(" ") == 1 or tag is EXT:
                yield Case(f"inside {tag.name} {key}", lambda t, mk=mk, tag=tag: positions(t, mk, tag))
    for key, mk in members():
        for tag in (EXT, UNT, INT, ADJ) if tier == "thorough" else (EXT,):
            yield Case(f"member {tag.name} {key}", lambda t, mk=mk, tag=tag: explore(t, mk(), tag, tier == "thorough", False, kept=False))
    for tag in TAGS:
        for a, b in itertools.permutations([n for n in ALL if n != "none"], 2):
            classes = (a in CLS) + (b in CLS)
            if tier == "quick" and tag in TAGS[6:] and (a not in ("A", "B", "S") or b not in ("A", "S", "R", "U", "FD")):
                continue
            if tier == "quick" and (classes == 1 and tag not in (EXT, INT, TAGS[5]) or classes == 0 and tag not in (EXT, UNT)):
                continue
            yield Case(f"{tag.name} {a}|{b}", lambda t, a=a, b=b, tag=tag: explore(
                t, (a, b), tag, True, tag is EXT or tier == "thorough" or (a < "a" and b < "a" and tag in (UNT, INT, ADJ)), tier == "thorough"))
        for tr in itertools.permutations(TRI[tier], 3) if tier == "thorough" or tag in (EXT, UNT, INT, ADJ) else ():
            yield Case(f"{tag.name} {'|'.join(tr)}", lambda t, tr=tr, tag=tag: explore(t, tr, tag, tier == "thorough", False))
