"""Systematic corruption of plain data: every position x every foreign atom, every missing or extra part."""
import copy

ATOMS = [None, True, False, 0, 1, -1, 2**70, 1.5, float("inf"), "", "x", "1", "1.5", "true", "2021-03-04", b"x", [], [1], ["x"], [None], [[1]],
         {}, {"x": 1}, {"i": 1}, {"x": None}, {1: 1}, (), (1,), ("x",), {1}, frozenset({"x"}), object]
SMALL = [None, True, 1, 1.5, "x", "1", [], [1], {}, {"x": 1}, (1,), {1}]


SAME = {int, float, str, bytes, bool, type(None)}


def fresh(v):
    t = type(v)
    if t in SAME:
        return v
    if t is dict:
        return {(k if type(k) in SAME else fresh(k)): (x if type(x) in SAME else fresh(x)) for k, x in v.items()}
    if t is list:
        return [x if type(x) in SAME else fresh(x) for x in v]
    if t is tuple:
        return tuple([x if type(x) in SAME else fresh(x) for x in v])
    return copy.deepcopy(v)


def mutations(d, atoms):
    """Every datum obtained from ``d`` by one change (label, datum)."""
    for n, a in enumerate(atoms):
        yield f"={a!r}", fresh(a)
    if isinstance(d, dict):
        for k in d:
            yield f"-{k!r}", {x: fresh(v) for x, v in d.items() if x is not k and not (x == k and type(x) is type(k))}
            for lab, m in mutations(d[k], atoms):
                yield f"[{k!r}]{lab}", {x: (m if (x == k and type(x) is type(k)) else fresh(v)) for x, v in d.items()}
    elif isinstance(d, (list, tuple)):
        mk = type(d)
        for i in range(len(d)):
            yield f"-#{i}", mk([fresh(x) for j, x in enumerate(d) if j != i])
            for lab, m in mutations(d[i], atoms):
                yield f"[{i}]{lab}", mk([m if j == i else fresh(x) for j, x in enumerate(d)])
        yield "+1", mk([*fresh(d), 1])
        yield "+None", mk([*fresh(d), None])
