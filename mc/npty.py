"""NumPy scalar and array types."""
import datetime as dt

import numpy as np
import numpy.typing as npt

from .canon import canon
from .uni import *  # noqa: F401,F403
from .uni import Reject, Ty, Unspec


class NpScalar(Ty):
    def __init__(self, cls, vals):
        self.cls, self.vals, self.name = cls, vals, "np." + cls.__name__

    def py(self):
        return self.cls

    def values(self):
        return [self.cls(v) for v in self.vals]

    def _ser(self, v, o):
        return v.item()

    def good(self, d):
        want = type(self.values()[0].item())
        return type(d) is want or (want is float and type(d) is int)

    def _de(self, d, o):
        if not self.good(d):
            raise Unspec
        try:
            return self.cls(d)
        except Exception:
            raise Reject("does not fit") from None

    def de_key(self, d, o):
        if type(d) is str and self.cls is not np.str_:
            if self.cls is np.bool_:
                raise Unspec
            try:
                return self.cls(d)
            except Exception:
                raise Reject("bad key") from None
        return self._de(d, o)

    def conf(self, v):
        return type(v) is self.cls


class NpDate(Ty):
    """Written as ISO text; the unit is not part of the type."""

    name = "np.datetime64"

    def py(self):
        return np.datetime64

    def values(self):
        return [np.datetime64(x) for x in ("2020-02-29", "1969-12-31T23:59:59", "2021-01-02T03:04:05.000006", "0001-01-01", "9999-12-31")]

    def _ser(self, v, o):
        return v.item().isoformat()

    def _de(self, d, o):
        if type(d) is not str:
            raise Unspec
        try:
            dt.datetime.fromisoformat(d)
        except ValueError:
            raise Unspec from None  # numpy's own date-time texts
        return np.datetime64(d)

    def conf(self, v):
        return type(v) is np.datetime64


def shapes(dtype, xs):
    """Arrays of every shape up to rank 2 (3 once) that lists can express, over the boundary elements."""
    a = np.array(xs, dtype=dtype)
    n = len(a)
    out = [a, a[:1], a[:0], np.array(a[0]), np.stack([a, a[::-1]]), a[:2].reshape(2, 1) if n > 1 else a.reshape(1, n), np.zeros((2, 0), dtype), a[: n // 2 * 2].reshape(2, n // 2), np.stack([np.stack([a, a]), np.stack([a, a])])]
    out.append(np.asfortranarray(np.stack([a, a[::-1], a])))  # memory layout is not observable
    out.append(a[::2])
    return out


class NpArray(Ty):
    hashable = False

    def __init__(self, elem, how="NDArray", only=None):
        self.elem, self.how, self.only = elem, how, only
        self.name = f"{how}[{elem.name}]"

    def py(self):
        c = self.elem.cls
        if self.how == "NDArray":
            return npt.NDArray[c]
        if self.how == "ndarray":
            return np.ndarray[typing.Any, np.dtype[c]]
        if self.how == "bare":
            return np.ndarray
        if self.how == "bareND":
            return npt.NDArray
        import jaxtyping

        return getattr(jaxtyping, self.how)[np.ndarray, "..."]

    @property
    def dtype(self):
        return np.dtype(self.elem.cls)

    def values(self):
        vs = shapes(self.dtype, self.elem.vals)
        if self.how.startswith("bare"):  # the element type is inferred from the data
            vs = [v for v in vs if v.size]
        return [vs[self.only]] if self.only is not None else vs

    def _ser(self, v, o):
        return v.tolist()

    def _de(self, d, o):
        def leaves(x):
            return [y for e in x for y in leaves(e)] if isinstance(x, (list, tuple)) else [x]

        if not all(self.elem.good(x) for x in leaves(d)):
            raise Unspec
        try:
            return np.array(d, dtype=None if self.how.startswith("bare") else self.dtype)
        except Exception:
            raise Reject("does not fit") from None

    def conf(self, v):
        return type(v) is np.ndarray and (self.how.startswith("bare") or v.dtype == self.dtype)


I = np.iinfo
SC = {
    "int8": lambda: NpScalar(np.int8, [1, 0, -128, 127]), "int16": lambda: NpScalar(np.int16, [1, 0, -(2**15), 2**15 - 1]),
    "int32": lambda: NpScalar(np.int32, [1, 0, -(2**31), 2**31 - 1]), "int64": lambda: NpScalar(np.int64, [1, 0, -(2**63), 2**63 - 1]),
    "uint8": lambda: NpScalar(np.uint8, [1, 0, 255]), "uint16": lambda: NpScalar(np.uint16, [1, 0, 2**16 - 1]), "uint32": lambda: NpScalar(np.uint32, [1, 0, 2**32 - 1]),
    "uint64": lambda: NpScalar(np.uint64, [1, 0, 2**64 - 1]), "float16": lambda: NpScalar(np.float16, [1.5, 0.1, -0.0, 65504.0]),
    "float32": lambda: NpScalar(np.float32, [1.5, 0.1, -0.0, 3.4028235e38, 1e-45]), "float64": lambda: NpScalar(np.float64, [1.5, 0.1, -0.0, 1e300, 5e-324]),
    "special": lambda: NpScalar(np.float64, [float("inf"), float("-inf"), float("nan"), 2.0]), "bool": lambda: NpScalar(np.bool_, [True, False]),
    "str": lambda: NpScalar(np.str_, ["x", "", "ü 1"]), "datetime64": NpDate,
}
JAX = {"Float16": "float16", "Float32": "float32", "Float64": "float64", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "UInt8": "uint8", "UInt16": "uint16",
       "UInt32": "uint32", "UInt64": "uint64", "Bool": "bool"}
