"""Generic classes: a class declared with type variables, and that class with type arguments."""
import typing

from .uni import *  # noqa: F401,F403
from .uni import AnyTy, ClassTy, Prim, Reject, Ty, Unspec, dyn_ser


class Var(Ty):
    """A type variable. Values are written by what they are; without an argument they are read as they come."""

    hashable = True

    def __init__(self, name, real=None):
        self.name = name
        self.real = real or typing.TypeVar(name)

    def py(self):
        return self.real

    def values(self):
        return AnyTy().values()

    def _ser(self, v, o):
        return dyn_ser(v, replace(o, reuse=False))

    def _de(self, d, o):
        return d

    def de_key(self, d, o):
        return d

    def conf(self, v):
        return True


class Bound(Var):
    """A type variable with its argument."""

    def __init__(self, arg):
        self.arg = arg
        self.name = f"<{arg.name}>"
        self.hashable, self.optional, self.ambiguous = arg.hashable, arg.optional, arg.ambiguous

    def py(self):
        return self.arg.py()

    def values(self):
        return self.arg.values()

    def _de(self, d, o):
        a = self.arg
        try:
            r = a.de(d, o)
        except Reject:
            raise Unspec from None  # may be converted leniently
        if not a.conf(r):
            if isinstance(a, Prim) and a.cls in (int, str, bool, float) and o.mode == "strict":
                raise Reject(f"{r!r} is not {a.name}")
            raise Unspec
        return r

    def de_key(self, d, o):
        try:
            return self.arg.de_key(d, o)
        except Reject:
            raise Unspec from None

    def conf(self, v):
        return True

    def parts(self):
        return (self.arg,)


class Gen(ClassTy):
    """``mk`` builds the own fields and ``gbase`` the base class from the types that stand for the variables."""

    def __init__(self, cname, params, mk, gbase=None, **kw):
        self.params, self.mk, self.gbase = tuple(params), mk, gbase
        super().__init__(cname, mk(*self.params), base=gbase(*self.params) if gbase else None, **kw)

    def pybases(self):
        out = ()
        if self.base:
            out += (self.base.py(),)
        if self.params:
            out += (typing.Generic[tuple(p.py() for p in self.params)],)
        return out

    def at(self, *args):
        return Inst(self, [a.arg if isinstance(a, Bound) else a for a in args])


class Inst(ClassTy):
    def __init__(self, g, args):
        self.__dict__.update(g.__dict__)
        self.g, self.args, self._memo = g, args, {}
        env = [a if type(a) is Var else Bound(a) for a in args]
        self.own = g.mk(*env)
        self.base = g.gbase(*env) if g.gbase else None
        self.ambiguous = any(a.ambiguous for a in args)

    def describe(self):
        return f"{self.g.describe()}[{','.join(a.name for a in self.args)}]"

    def py(self):
        return self.g.py()[tuple(a.py() for a in self.args)]

    def origin(self):
        return self.g.py()
