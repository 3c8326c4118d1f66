"""C07: unions passed directly to the API behave like union fields."""
from ..junk import SMALL, fresh, mutations
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import *  # noqa: F401,F403
from .c06 import ALL, CLS, M, TAGS

RULE = ("every ordered pair of 35 member types x every tagging, given directly (plain or wrapped) to to_*/from_*: every member value x every call "
        "option x every format, every one-change datum, non-member values; then every ordered pair (thorough: triple) of calls over 4 unions of "
        "the same classes x 6 taggings x {write, read}, compared with the model and with a class field")
BOUNDS = {"quick": "pairs of members, histories of length 2", "thorough": "pairs of members with all taggings, histories of length 3"}
TINY = [None, True, 1, "x", [1], {}, {"i": 1}]


def wrapped(u, tag):
    """The real type given to the API."""
    import serde

    p = u.py()
    if tag is None:
        return p
    if tag.kind == "External":
        return serde.ExternalTagging(p)
    if tag.kind == "Untagged":
        return serde.Untagged(p)
    if tag.kind == "Internal":
        return serde.InternalTagging(tag.tag, p)
    return serde.AdjacentTagging(tag.tag, tag.content, p)


OPTS = [(None, None, False), (False, True, True), (True, False, False), (False, False, False), (True, True, True)]


def direct(t, u, tag, opts=OPTS, corrupt=True, formats=True, atoms=TINY, field=True):
    s = api()
    T_ = wrapped(u, tag)
    tg = tag or EXT
    holder = ClassTy("H", [F("u", u)], tagging=tg) if field else None
    for n, v in enumerate(u.values()):
        for reuse, sets, sn in opts:
            o = O(named=True, reuse=True if reuse is None else reuse, sets=bool(sets), skip_none=sn, tagging=tg)
            exp = model(u.ser, v, o)
            if exp is None:
                continue
            lab = f"v{n} reuse={reuse} sets={sets} sn={sn}"
            kw = {"reuse_instances": reuse, "convert_sets": sets, "skip_none": sn}
            t.state(u.name, tg, canon(v), lab)
            for nm in ("dict", "tuple"):
                got = t.call(s.to_dict if nm == "dict" else s.to_tuple, v, c=T_, **kw)
                compare_ser(t, f"{lab} {nm} ser", exp, got, obj=canon(v))
            if field and exp[0] == "ok":
                viaf = t.call(s.to_dict, holder.py()(v), **kw)
                if v is not None or not sn:
                    t.check(viaf[0] == "ok" and same(viaf[1]["u"], exp[1]), lab + " field", "a field of this union is written differently", got=desc(viaf), expected=canon(exp[1]))
            if got[0] == "ok" and exp[0] == "ok":
                de = model(u.de, exp[1], O(named=True, reuse=True, tagging=tg))
                if de is not None:
                    for nm in ("dict", "tuple"):
                        compare_de(t, f"{lab} {nm} de", u, de, t.call(s.from_dict if nm == "dict" else s.from_tuple, T_, exp[1]), wire=canon(exp[1]))
    for v in (None, 5, "zz", 2.5, [1], {"q": 1}, object()):
        if not u.conf(v) and v is not None:
            got = t.call(s.to_dict, v, c=T_)
            t.check(got[0] == "err" and isinstance(got[1], s.SerdeError), f"ser non-member {type(v).__name__}", "serialized a value of no member", got=desc(got))
    if corrupt:
        seen = set()
        tags = [x.tagname for x in u.ts if isinstance(x, ClassTy)] + ["Nope"]
        for n, v in enumerate(u.values()):
            e = model(u.ser, v, O(reuse=False, sets=True, tagging=tg))
            if e is None or e[0] != "ok":
                continue
            for lab, m in itertools.chain([("", e[1])], mutations(e[1], atoms + tags)):
                k = canon(m)
                if k in seen:
                    continue
                seen.add(k)
                exp = model(u.de, fresh(m), O(named=True, reuse=True, tagging=tg))
                if exp is None:
                    continue
                t.state(u.name, tg, "de", k)
                compare_de(t, f"corrupt v{n} {lab}", u, exp, t.call(s.from_dict, T_, m), data=k)
    if formats:
        for name, f in fmts().items():
            for kw in f.opts:
                o = O(named=True, reuse=kw.get("reuse_instances", False), sets=kw.get("convert_sets", True),
                      skip_none=kw.get("skip_none", f.skip_default), tagging=tg)
                for n, v in enumerate(u.values()):
                    exp = model(u.ser, v, o)
                    if exp is None or exp[0] != "ok":
                        continue
                    try:
                        lib = f.dec(f.enc(exp[1]))
                    except Exception:  # noqa: BLE001
                        continue
                    lab = f"{name} v{n} {kw}"
                    got = t.call(f.write, v, cls=T_, **kw)
                    if not t.check(got[0] == "ok" and same(f.dec(got[1]), lib), lab + " write", "wrong text",
                                   got=desc(got) if got[0] == "err" else canon(f.dec(got[1])), expected=canon(lib)):
                        continue
                    de = model(u.de, lib, O(named=f.named, reuse=False, numbers=f.numbers, tagging=tg))
                    if de is not None:
                        compare_de(t, lab + " read", u, de, t.call(f.read, T_, got[1]), wire=canon(lib))


def cases(tier):
    for tag in [None, *TAGS]:
        for a, b in itertools.permutations([n for n in ALL if n != "none"], 2):
            classes = (a in CLS) + (b in CLS)
            if tier == "quick" and tag in TAGS[6:] and (a not in ("A", "B", "S") or b not in ("A", "S", "R", "U", "FD")):
                continue
            if tier == "quick" and (classes == 1 and tag not in (None, INT, TAGS[5]) or classes == 0 and tag not in (None, UNT)):
                continue

            def run(t, a=a, b=b, tag=tag):
                m = M()
                direct(t, UnionTy(m.get(a), m.get(b)), tag, formats=tier == "thorough" or tag is None or tag is ADJ, opts=OPTS if tier == "thorough" else OPTS[:3])

            yield Case(f"{tag.name if tag else 'plain'} {a}|{b}", run)
        for names in (("A", "B", "none"), ("none", "A", "S"), ("L", "Sets", "none"), ("int", "A", "str"), ("Sub", "A", "int"), ("A", "Sub", "none"),
                      ("lA", "dA", "A"), ("A", "B", "S", "D", "P", "R")):
            def run3(t, names=names, tag=tag):
                m = M()
                direct(t, UnionTy(*[m.get(x) for x in names]), tag)
                m = M()
                direct(t, UnionTy(*[m.get(x) for x in names if x != "none"], style="|"), tag, formats=False)

            yield Case(f"{tag.name if tag else 'plain'} {'|'.join(names)}", run3)
    # histories: several unions and taggings over the same classes
    sels = {"A|B": ("A", "B"), "B|A": ("B", "A"), "A|B|S": ("A", "B", "S"), "S|A": ("S", "A")}
    ops = [(n, tag, op) for n in sels for tag in [None, UNT, INT, Tag("Internal", "t2"), ADJ, Tag("Adjacent", "c", "t")] for op in ("ser", "de")]
    n = 3 if tier == "thorough" else 2
    firsts = ops if n == 2 else [(a, b) for a in ops for b in ops]
    for first in firsts:
        def hist(t, first=first):
            pre = [first] if n == 2 else list(first)
            for last in ops:
                m = M()
                us = {k: UnionTy(*[m.get(x) for x in v]) for k, v in sels.items()}
                for i, (u, tag, op) in enumerate([*pre, last]):
                    run_op(t, us[u], tag, op, f"{i} {u} {tag} {op} -> {last}")

        yield Case(f"history {first}", hist)
    # containers and classes around unions in one process: the key of a union is its members in order
    def containers(t):
        s = api()
        m = M()
        A, B = m.get("A"), m.get("B")
        for ts in ((A, B), (B, A)):
            for tag in (EXT, UNT, INT, ADJ):
                u = UnionTy(*ts)
                c = ClassTy("C", [F("l", Seq(u)), F("d", DictTy(str_(), u))], tagging=tag)
                roundtrip(t, c, c.values(), sub=f"{u.name} {tag.name} ")

    yield Case("containers of unions in classes", containers)


def run_op(t, u, tag, op, lab):
    s = api()
    T_ = wrapped(u, tag)
    tg = tag or EXT
    for n, v in enumerate(u.values()):
        exp = model(u.ser, v, O(reuse=True, sets=False, tagging=tg))
        if op == "ser":
            compare_ser(t, f"{lab} v{n}", exp, t.call(s.to_dict, v, c=T_))
        else:
            de = model(u.de, exp[1], O(named=True, reuse=True, tagging=tg))
            compare_de(t, f"{lab} v{n}", u, de, t.call(s.from_dict, T_, exp[1]))
    t.state(u.name, tg, op)
