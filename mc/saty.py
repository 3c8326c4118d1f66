"""Classes mapped by SQLAlchemy (declarative dataclass mapping) for the reference model.

To pyserde such a class is a dataclass whose types are checked by nobody; everything else is as for any other class."""
import sys
import types
import typing

import sqlalchemy as sa
from sqlalchemy import orm

from .uni import *  # noqa: F401,F403
from .uni import MISSING, SPELL

NATIVE = {"int", "str", "float", "bool", "Decimal", "datetime", "date", "time", "UUID"}


class SF(F):
    """A mapped attribute. `col`: pickle, native, key, one (many-to-one), many, set, map, plain (not mapped)."""

    def __init__(self, fname, ty, col="pickle", args=(), sa_kw=None, **kw):
        super().__init__(fname, ty, **kw)
        self.col, self.args, self.sa_kw = col, args, sa_kw or {}

    @property
    def key(self):
        k = super().key
        return f"{k}~{self.col}{'*' if self.args or self.sa_kw else ''}"

    def column(self):
        kw = dict(self.sa_kw)
        if self.default is not MISSING:
            kw["default"] = self.default
        if self.default_factory is not MISSING:
            kw["default_factory"] = self.default_factory
        if not self.init:
            kw["init"] = False
        if self.kw_only:
            kw["kw_only"] = True
        if not self.compare:
            kw["compare"] = False
        if self.col == "pickle":
            return orm.mapped_column(*self.args, sa.PickleType, **kw)
        if self.col == "json":
            return orm.mapped_column(*self.args, sa.JSON, **kw)
        if self.col == "native":
            return orm.mapped_column(*self.args, **kw)
        if self.col == "key":
            return orm.mapped_column(*self.args, primary_key=True, **kw)
        if self.col in ("one", "many", "set"):
            return orm.relationship(*self.args, **kw)
        if self.col == "map":
            return orm.relationship(*self.args, collection_class=orm.attribute_keyed_dict("k"), **kw)
        raise AssertionError(self.col)


def key(n="id"):
    return SF(n, int_(), "key")


class SATy(ClassTy):
    """way: base (a common declarative base), mix (MappedAsDataclass per class), reg (decorator), imp (imperative mapping of a dataclass),
    text / inner (annotations, or what is inside Mapped, as text)"""

    def __init__(self, cname, fields, way="base", family=None, args=None, sqlbase=None, table=None, more=(), **kw):
        super().__init__(cname, fields, **kw)
        self.way, self.family, self.args, self.table, self.more = way, {} if family is None else family, args or {}, table or cname.lower(), more
        if self.args.get("unsafe_hash"):
            self.hashable = True

    def describe(self):
        return super().describe() + f"~sa:{self.way}{sorted(self.args)}"

    def c(self, k, direction="ser"):
        if k == "type_check" and self.cfg.get(k) != "coerce":
            return "disabled"
        return super().c(k, direction)

    @property
    def constructor_checked(self):
        return False

    def build(self):
        import serde

        f = self.family
        if "reg" not in f:
            f["reg"] = orm.registry()
            f["base"] = type("Base", (orm.DeclarativeBase,), {"registry": f["reg"], "__module__": "mc_sa"})
            f["dbase"] = type("DBase", (orm.MappedAsDataclass, orm.DeclarativeBase), {"registry": f["reg"], "__module__": "mc_sa"})
        ns = {"__tablename__": self.table, "__module__": "mc_sa", **self.ns, "_mc_uid": self.uid}
        ann, cols = {}, {}
        for x in self.own:
            t = x.ty.py()
            if x.classvar:
                ann[x.fname], ns[x.fname] = typing.ClassVar[t], x.default
                continue
            if self.way == "imp":
                ann[x.fname] = t
                r = ({"default": x.default} if x.default is not MISSING else {"default_factory": x.default_factory} if x.default_factory is not MISSING else {}) | ({} if x.init else {"init": False})
                if r:
                    ns[x.fname] = dataclasses.field(**r)
                continue
            ann[x.fname] = orm.Mapped[t]
            ns[x.fname] = x.column()
        ns["__annotations__"] = ann
        if self.way in ("text", "inner"):  # names are looked up in the module of the class
            m = sys.modules.setdefault("mc_sa", types.ModuleType("mc_sa"))
            m.Mapped = orm.Mapped
            for n, a in ann.items():
                if typing.get_origin(a) is orm.Mapped:
                    nm = f"T{len(vars(m))}"
                    setattr(m, nm, typing.get_args(a)[0])
                    ann[n] = f"Mapped[{nm}]" if self.way == "text" else orm.Mapped[nm]
        bases = tuple(x.py() if isinstance(x, ClassTy) else x for x in self.more) + ((self.base.py(),) if self.base else ())
        if self.way in ("base", "text", "inner"):
            cls = types.new_class(self.cname, bases if self.base else (*bases, f["dbase"]), dict(self.args), lambda d: d.update(ns))
        elif self.way == "mix":
            cls = types.new_class(self.cname, bases if self.base else (orm.MappedAsDataclass, f["base"]), dict(self.args), lambda d: d.update(ns))
        elif self.way == "reg":
            cls = f["reg"].mapped_as_dataclass(type(self.cname, bases, ns), **self.args)
        elif self.way == "imp":
            ns.pop("__tablename__")
            cls = dataclasses.dataclass(type(self.cname, bases, ns))
            f["reg"].map_imperatively(cls, sa.Table(self.table, f["reg"].metadata, *[
                sa.Column(x.fname, sa.Integer if x.col == "key" else sa.PickleType, primary_key=x.col == "key") for x in self.own]))
        else:
            raise AssertionError(self.way)
        how, self.how = self.how, "serde"
        self._cls = cls
        if how == "serde":
            cls = serde.serde(cls, **self.real_cfg(self.cfg, "both")) if not self.cfg else serde.serde(**self.real_cfg(self.cfg, "both"))(cls)
        self.how = how
        self._cls = cls
        REG[cls] = self

    def conf(self, v):
        return isinstance(v, self.py())
