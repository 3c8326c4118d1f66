"""C01: every supported value survives to_dict/from_dict and to_tuple/from_tuple."""
from ..lib import *  # noqa: F401,F403
from ..run import Case
from ..uni import ATOMS, REPS, UNARY, apply, ClassTy, F, BareTy, any_, UnionTy

RULE = ("every composition of type constructors over the atom set up to the depth bound, each as the field of a class, "
        "each value of the boundary domain, each (reuse_instances, convert_sets), dict and tuple shape")
BOUNDS = {
    "quick": "constructor depth 1 over all atoms, depth 2 over representative atoms; all 5 option pairs",
    "thorough": "depth 2 over all atoms, depth 3 over representative atoms",
}


def types(tier):
    from ..uni import fstr_, fint_, ffloat_
    prims = {"FooStr": fstr_, "FooInt": fint_, "FooFloat": ffloat_, "None": NoneTy}
    for n, a in {**ATOMS, **prims}.items():
        yield n, a
    for k in BareTy.DOM:
        yield "bare" + k, (lambda k=k: BareTy(k))
    for c in UNARY:
        for n, a in {**ATOMS, **prims}.items():
            yield f"{c}.{n}", (lambda c=c, a=a: apply(c, a()))
        for k in BareTy.DOM:
            if k == "bare":
                continue
            yield f"{c}.bare{k}", (lambda c=c, k=k: apply(c, BareTy(k)))
    inner = ATOMS if tier == "thorough" else REPS
    for c1 in UNARY:
        for c2 in UNARY:
            for n, a in inner.items():
                def mk(c1=c1, c2=c2, a=a):
                    x = apply(c2, a())
                    return None if x is None else apply(c1, x)
                yield f"{c1}.{c2}.{n}", mk
    if tier == "thorough":
        for c1 in UNARY:
            for c2 in UNARY:
                for c3 in UNARY:
                    for n in ("int", "Path", "Fz", "In"):
                        def mk(c1=c1, c2=c2, c3=c3, a=REPS[n]):
                            x = apply(c3, a())
                            x = None if x is None else apply(c2, x)
                            return None if x is None else apply(c1, x)
                        yield f"{c1}.{c2}.{c3}.{n}", mk


def pad(tier, mk):
    """The type under test sits between two other fields so that a shifted value is visible."""
    ty = mk()
    if ty is None:
        return None
    return ClassTy("C", [F("p", int_()), F("v", ty), F("q", str_())])


def cases(tier):
    for key, mk in types(tier):
        if mk() is None:
            continue

        def run(t, mk=mk):
            c = pad(tier, mk)
            c.py()
            roundtrip(t, c, c.values(), rt="exact")

        yield Case(key, run)
