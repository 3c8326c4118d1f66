From 033237669d0e1da651f43ea2ba4e81b722531207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 01/57] fix: enum values equal to a member of another enum (1.0
 / True vs IntEnum) failed to serialize

---
 serde/se.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index c3a0e18..a6c0685 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import copy
 import dataclasses
+import enum
 import functools
 import typing
 import itertools
@@ -1148,10 +1149,11 @@ def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
     """
-    if is_enum(e):
+    # Don't use `is_enum` here: it is cached, and a plain value can be equal to an enum member.
+    if isinstance(e, enum.Enum):
         v = e.value
         # Recursively get value of Nested enum.
-        if is_enum(v):
+        if isinstance(v, enum.Enum):
             return enum_value(v.__class__, v)
         else:
             return v
-- 
2.43.0


From 6eae43fc18a2d4b0f018bbd743241e33dcc45a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 02/57] fix: a field of bare frozenset type could not be
 deserialized

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..395cb1f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -574,7 +574,7 @@ def from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1098,7 +1098,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From 46ed660ce118fa40503c9e7bd78e13d4d06f56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 03/57] fix: defaultdict of NewType, abstract container or
 defaultdict values could not be deserialized

---
 serde/de.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 395cb1f..324cafd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1151,14 +1151,15 @@ class Renderer:
         elif is_default_dict(arg.type):
             k = arg.key_field()
             v = arg.value_field()
-            origin = get_origin(v.type)
-            if origin:
-                # When the callable type is of generic type e.g list.
-                # Get origin type "list" from "list[X]".
-                callable = origin.__name__
+            # Get origin type "list" from "list[X]". NewType and abstract container types are
+            # resolved to the concrete type by typename.
+            origin = get_origin(v.type) or v.type
+            if is_default_dict(origin):
+                callable = "collections.defaultdict"
+            elif is_frozen_set(origin):
+                callable = "frozenset"
             else:
-                # When the callable type is non generic type e.g int, Foo.
-                callable = v.type.__name__
+                callable = typename(origin)
             return f"collections.defaultdict({callable}, \
                     {{{self.dict_key(k)}: {self.render(v)} for k, v in {arg.data}.items()}})"
         else:
-- 
2.43.0


From 1e4836c5d0e0e15e66871849bc1afbdf257aa936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 04/57] fix: to_msgpack and to_pickle ignored the documented
 skip_none option

---
 serde/msgpack.py | 8 +++++++-
 serde/pickle.py  | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..bbee20e 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -76,7 +77,12 @@ def to_msgpack(
         if ext_type_code is None:
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
-    kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
+    kwargs: Any = {
+        "c": cls,
+        "reuse_instances": reuse_instances,
+        "convert_sets": convert_sets,
+        "skip_none": skip_none,
+    }
     dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
     return se.serialize(
         dict_or_tuple,
diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From ef418489e0133bde354b259b24d125787f8385f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 05/57] fix: stringified numeric keys of Counter and of NewType
 keys were not converted back

---
 serde/de.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 324cafd..a2418a0 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1120,10 +1120,8 @@ class Renderer:
         if is_bare_counter(arg.type):
             return f"collections.Counter({arg.data})"
         else:
-            k = arg[0]
-            k.name = "k"
-            k.datavar = "k"
-            return f"collections.Counter({{{self.render(k)}: v for k, v in {arg.data}.items()}})"
+            k = arg.key_field()
+            return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
 
     def tuple(self, arg: DeField[Any]) -> str:
         """
@@ -1178,6 +1176,8 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = arg.type
+        while hasattr(typ, "__supertype__"):
+            typ = typ.__supertype__
         if (
             isinstance(typ, type)
             and issubclass(typ, (int, float))
-- 
2.43.0


From 2431809a76ebb6bb12a11f1748c016a32c4868a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 06/57] fix: a float subclass was read from JSON or YAML as a
 plain float

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a2418a0..4475a32 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -619,7 +619,7 @@ def from_obj(
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif isinstance(c, type) and issubclass(c, float):
-            res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            res = c(deserialize_numbers(o)) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
             res = o
         else:
@@ -1216,7 +1216,7 @@ class Renderer:
                 assert arg.name
                 escaped_arg_name = arg.name.replace('"', '\\"')
                 return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
+                    f"{typ}(deserialize_numbers({dat})) if deserialize_numbers else "
                     f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
-- 
2.43.0


From 92c25af05363470c0d250e4e152140e2bcd03875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/57] fix: enum members with bool or nested enum values were
 misread from stringified keys

---
 serde/core.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..96df75b 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1151,23 +1151,36 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
     Formats such as JSON force object keys to ``str``, so an ``IntEnum``/
     ``IntFlag`` used as a dict key arrives as e.g. ``"1"`` instead of ``1``.
     A plain ``typ(value)`` lookup then fails even though the value is valid.
-    When the direct lookup fails for a ``str`` value, retry after coercing it
-    to the type of the enum's member values (e.g. ``int``).
+    When the direct lookup fails, look for the member whose value (recursively
+    for nested enums) is, or is rendered as a key as, the given value.
     """
     try:
         return typ(value)
     except (ValueError, KeyError):
+        for member in typ.__members__.values():
+            if _is_serialized_enum_value(member.value, value):
+                return member
         # A ValueError/KeyError here means ``typ`` has at least one member (an
         # empty enum would raise TypeError instead), so ``__members__`` is never
-        # empty in this branch.
+        # empty in this branch. A combination of flags is not listed in the members.
         member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, list) and member_value_type is tuple:
-            return typ(tuple(value))
-        if isinstance(value, str) and member_value_type is not str:
+        if isinstance(value, str) and member_value_type not in (str, bool):
             return typ(member_value_type(value))
         raise
 
 
+def _is_serialized_enum_value(member_value: Any, value: Any) -> bool:
+    while isinstance(member_value, enum.Enum):
+        member_value = member_value.value
+    if isinstance(value, list) and isinstance(member_value, tuple):
+        return list(member_value) == value
+    if isinstance(value, str) and isinstance(member_value, bool):
+        return str(member_value).lower() == value.lower()
+    if isinstance(value, str) and isinstance(member_value, (int, float)):
+        return str(member_value) == value
+    return bool(member_value == value)
+
+
 def coerce_object(cls: str, field: str, typ: type[Any], obj: Any) -> Any:
     if obj is None:
         raise SerdeError(
-- 
2.43.0


From 412add8040005b6b653c91270d0acbe5aa4383be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 08/57] fix: user exceptions raised inside containers or
 generic fields surfaced as SerdeError

---
 serde/de.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 4475a32..5f07d12 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -318,7 +318,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["get_generic_arg"] = get_generic_arg
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -507,6 +507,23 @@ def from_obj(
       when a float target is encountered. Useful for callers that want to treat ints or strings as
       floats.
     """
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        raise e.inner from None
+
+
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Implementation of `from_obj`. An exception raised by the user code is kept in `UserError`, so
+    that it gets through the enclosing conversions.
+    """
 
     res: Any
 
@@ -549,7 +566,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -627,8 +644,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From 8ad532369eff70f5ad18bc6372797e8ce23ce79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 09/57] fix: variable tuples, enums, literals, NewTypes,
 mapping keys and default factories were not converted when given directly to
 the API

---
 serde/de.py | 65 ++++++++++++++++++++++++++++++++++++++---------------
 serde/se.py |  9 +++++---
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 5f07d12..0382da4 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -492,6 +492,30 @@ def _deserialize_optional(
     return deserializer(type_args(c)[0], o)
 
 
+def _default_dict_factory(typ: Any) -> Any:
+    """
+    Get the default factory of `defaultdict[K, typ]`.
+    """
+    while hasattr(typ, "__supertype__"):
+        typ = typ.__supertype__
+    if is_list(typ):
+        return list
+    elif is_frozen_set(typ):
+        return frozenset
+    elif is_set(typ):
+        return set
+    elif is_dict(typ) and not is_default_dict(typ) and not is_counter(typ):
+        return dict
+    return get_origin(typ) or typ
+
+
+def _deserialize_literal(typ: Any, data: Any) -> Any:
+    for v in type_args(typ):
+        if type(v) is type(data) and v == data:
+            return data
+    raise SerdeError(f"Can not deserialize {data!r} as {typename(typ)}.")
+
+
 def from_obj(
     c: type[T],
     o: Any,
@@ -532,6 +556,10 @@ def _from_obj(
     if is_pep695_type_alias(c):
         c = c.__value__  # type: ignore[attr-defined]
 
+    # A NewType is converted as the type it stands for.
+    while hasattr(c, "__supertype__"):
+        c = c.__supertype__
+
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
     if type(o) is c:
@@ -571,6 +599,9 @@ def _from_obj(
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
         )
+        # Numeric keys may be stringified by the format, so they are not subject to the rule for
+        # the numbers.
+        keyfunc = functools.partial(_from_obj, named=named, reuse_instances=reuse_instances)
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
@@ -605,30 +636,28 @@ def _from_obj(
             if is_bare_counter(c):
                 res = collections.Counter(o)
             else:
-                res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
+                res = collections.Counter({keyfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
-                res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
+                res = tuple(thisfunc(typ, o[i]) for i, typ in enumerate(type_args(c)))
         elif is_dict(c):
             if is_bare_dict(c):
-                res = o
-            elif is_default_dict(c):
-                f = DeField(c, "")
-                v = f.value_field()
-                origin = get_origin(v.type)
-                res = collections.defaultdict(
-                    origin if origin else v.type,
-                    {
-                        thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
-                        for k, v in o.items()
-                    },
-                )
+                res = dict(o)
             else:
-                res = {
-                    thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
-                }
+                res = {keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()}
+                if is_default_dict(c):
+                    res = collections.defaultdict(_default_dict_factory(type_args(c)[1]), res)
+        elif is_enum(c):
+            res = deserialize_enum(c, o)
+        elif is_literal(c):
+            res = _deserialize_literal(c, o)
+        elif is_none(c):
+            ensure(o is None, f"{o!r} is not None")
+            res = None
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
 
diff --git a/serde/se.py b/serde/se.py
index a6c0685..c63e28f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -444,13 +444,16 @@ def to_obj(
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return tuple(thisfunc(e) for e in o)
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v) for k, v in o.items()}
+            return {
+                k if isinstance(k, Set) or is_dataclass(k) else thisfunc(k): thisfunc(v)
+                for k, v in o.items()
+            }
         elif isinstance(o, Set):
             return [thisfunc(e) for e in o]
         elif isinstance(o, deque):
             return [thisfunc(e) for e in o]
-        elif isinstance(o, Counter):
-            return dict(o)
+        elif isinstance(o, enum.Enum):
+            return enum_value(type(o), o)
         elif is_str_serializable_instance(o) or is_datetime_instance(o):
             se_cls = o.__class__ if not c or c is Any else c
             return CACHE.serialize(
-- 
2.43.0


From 992de5db075783cc2f7f49a915db43266045158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 10/57] fix: unions or literals with similar names in one class
 were mixed up, literals accepted values of another type

---
 serde/compat.py |  9 ++++++---
 serde/core.py   | 17 ++++++++++++++++-
 serde/de.py     | 32 ++++++++++++++++++++------------
 serde/se.py     | 16 +++++++++++-----
 4 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..5bc5bc3 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -454,7 +454,8 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
     """
     Iterate over all literals that are used in the dataclass
     """
-    lst: set[Union[type[Any], Any]] = set()
+    # Not a set, because literals with the same values in another order are equal.
+    lst: list[TypeLike] = []
     stack: list[TypeLike] = []  # To prevent infinite recursion
 
     def recursive(cls: Union[type[Any], Any]) -> None:
@@ -462,7 +463,9 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
             return
 
         if is_literal(cls):
-            lst.add(cls)
+            lst.append(cls)
+        elif is_pep695_type_alias(cls):
+            recursive(cls.__value__)
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
@@ -491,7 +494,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
                 recursive(args[1])
 
     recursive(cls)
-    return list(lst)
+    return lst
 
 
 @cache
diff --git a/serde/core.py b/serde/core.py
index 96df75b..8611f4a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -283,6 +283,21 @@ class Scope:
     transparent: bool = False
     """If True, serialize/deserialize as the single inner field (serde-rs `transparent`)."""
 
+    func_names: dict[Any, str] = dataclasses.field(default_factory=dict)
+    """ Names of the functions generated for unions and literals """
+
+    def func_name(self, name: str, args: Sequence[Any]) -> str:
+        """
+        Get the name of the function generated for the union or literal made of `args`. `name` is
+        used unless it is taken by other type arguments, whose name happens to be the same.
+        """
+        # Equal arguments can differ e.g. 1 and True, list[A | B] and list[B | A].
+        key = (name, tuple((type(a), a, repr(a)) for a in args))
+        if key not in self.func_names:
+            taken = sum(1 for k in self.func_names if k[0] == name)
+            self.func_names[key] = f"{name}__{taken}" if taken else name
+        return self.func_names[key]
+
     def __repr__(self) -> str:
         res: list[str] = []
 
@@ -398,7 +413,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return any(type(obj) is type(v) and obj == v for v in type_args(typ))
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
diff --git a/serde/de.py b/serde/de.py
index 0382da4..94e5b78 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -361,7 +361,7 @@ def deserialize(
             union_args = type_args(union)
             add_func(
                 scope,
-                union_func_name(UNION_DE_PREFIX, union_args),
+                scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args),
                 render_union_func(cls, union_args, tagging),
                 g,
             )
@@ -369,9 +369,8 @@ def deserialize(
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
-            add_func(
-                scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
-            )
+            literal_key = scope.func_name(literal_func_name(literal_args), literal_args)
+            add_func(scope, literal_key, render_literal_func(cls, literal_args), g)
 
         # Collect default values and default factories used in the generated code.
         for f in defields(cls):
@@ -1280,8 +1279,13 @@ class Renderer:
             ctor = self.c_tor(arg)
         return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
 
+    def scope_func_name(self, name: str, args: Sequence[Any]) -> str:
+        scope: Scope = getattr(self.cls, SERDE_SCOPE)
+        return scope.func_name(name, args)
+
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
+        union_args = type_args(arg.type)
+        func_name = self.scope_func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1291,7 +1295,8 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_name(type_args(arg.type))
+        literal_args = type_args(arg.type)
+        func_name = self.scope_func_name(literal_func_name(literal_args), literal_args)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1539,8 +1544,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
-    return data
+  for literal in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
+    if type(data) is type(literal) and data == literal:
+      return data
   raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
   """,
         }
@@ -1726,9 +1732,10 @@ def render_union_func(
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
     renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_DE_PREFIX, union_args),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=serde_scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args),
+        serde_scope=serde_scope,
         union_args=union_args,
         union_name=union_name,
         tagging=tagging,
@@ -1745,9 +1752,10 @@ def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
 ) -> str:
     literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
+    serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("literal").render(
-        func=literal_func_name(literal_args),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=serde_scope.func_name(literal_func_name(literal_args), literal_args),
+        serde_scope=serde_scope,
         literal_args=literal_args,
         literal_name=literal_name,
         tagging=tagging,
diff --git a/serde/se.py b/serde/se.py
index c63e28f..08de4df 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -304,7 +304,7 @@ def serialize(
         # render all union functions
         for union in iter_unions(cls):
             union_args = list(type_args(union))
-            union_key = union_func_name(UNION_SE_PREFIX, union_args)
+            union_key = scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args)
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
@@ -780,6 +780,7 @@ def render_to_tuple(
         serialize_class_var=serialize_class_var,
         class_serializer=class_serializer,
         class_name=typename(cls),
+        cls=cls,
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
@@ -817,6 +818,7 @@ def render_to_dict(
         suppress_coerce=(not type_check.is_coerce()),
         class_serializer=class_serializer,
         class_name=typename(cls),
+        cls=cls,
     )
     lrenderer = LRenderer(case, serialize_class_var)
     serde_scope = getattr(cls, SERDE_SCOPE)
@@ -850,10 +852,11 @@ def render_union_func(
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
+    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls), cls=cls)
+    serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_SE_PREFIX, union_args),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=serde_scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args),
+        serde_scope=serde_scope,
         union_args=union_args,
         union_name=union_name,
         tagging=tagging,
@@ -912,6 +915,7 @@ class Renderer:
     serialize_class_var: bool = False
     class_serializer: ClassSerializer | None = None
     class_name: str | None = None
+    cls: type[Any] | None = None
 
     def render(self, arg: SeField[Any]) -> str:
         """
@@ -1138,7 +1142,9 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(arg.type)))
+        union_args = list(type_args(arg.type))
+        scope: Scope = getattr(self.cls, SERDE_SCOPE)
+        func_name = scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args)
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From 4a981e0dc92a64da913caf89fd9a9e87c6485285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 11/57] fix: unions given directly ignored the order of their
 members and the call options

---
 serde/core.py | 32 ++++++++++++++++++++++++++------
 serde/de.py   |  4 +++-
 serde/se.py   |  8 +++++++-
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 8611f4a..220f514 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -179,10 +179,13 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
-        wrapper = self.classes.get(cache_key)
+        wrapper = self.classes.get(self._get_union_key(union_cls, tagging))
         return wrapper or self._generate_union_class(cls)
 
+    def _get_union_key(self, union_cls: Any, tagging: Tagging) -> UnionCacheKey:
+        # Unions of the same types in another order are equal, but they are not the same union.
+        return UnionCacheKey(union=(union_cls, repr(union_cls)), tagging=tagging)
+
     def _generate_union_class(self, cls: type[Any]) -> type[Any]:
         """
         Generate a wrapper dataclass then make the it (de)serializable using
@@ -191,7 +194,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = self._get_union_key(union_cls, tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
@@ -200,7 +203,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -208,12 +218,17 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
-        return scope.funcs[func_name](obj, False, False)
+        if reuse_instances is None:
+            reuse_instances = scope.reuse_instances_default
+        if convert_sets is None:
+            convert_sets = scope.convert_sets_default
+        return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
         self,
         cls: type[T],
         data: Any,
+        reuse_instances: bool | None = None,
         deserialize_numbers: Callable[[str | int], float] | None = None,
     ) -> T:
         """
@@ -223,10 +238,15 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_DE_PREFIX, list(type_args(union_cls)))
+        if reuse_instances is None:
+            reuse_instances = scope.reuse_instances_default
         return cast(
             T,
             scope.funcs[func_name](
-                cls=union_cls, data=data, deserialize_numbers=deserialize_numbers
+                cls=union_cls,
+                data=data,
+                reuse_instances=reuse_instances,
+                deserialize_numbers=deserialize_numbers,
             ),
         )
 
diff --git a/serde/de.py b/serde/de.py
index 94e5b78..2589013 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -580,7 +580,9 @@ def _from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        return CACHE.deserialize_union(
+            c, o, reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers
+        )
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
diff --git a/serde/se.py b/serde/se.py
index 08de4df..7336e39 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -424,7 +424,13 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(
+                c,
+                o,
+                reuse_instances=reuse_instances,
+                convert_sets=convert_sets,
+                skip_none=skip_none,
+            )
 
         if o is None:
             return None
-- 
2.43.0


From 247d512dd82a284be88788050df79b67c6e4d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 12/57] fix: values of Any and type variable fields ignored the
 shape and convert_sets

---
 serde/se.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 7336e39..5ce204a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -985,7 +985,10 @@ class Renderer:
         elif is_none(arg.type):
             res = "None"
         elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
-            res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+            res = (
+                f"to_obj({arg.varname}, {self.func == TO_DICT}, False, convert_sets, "
+                "skip_none, typing.Any)"
+            )
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From e6532a5baa9b3c1940ea97a6ea426932961fdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 13/57] fix: settings of serialize and deserialize depended on
 which one was applied first

---
 serde/de.py | 5 +++++
 serde/se.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 2589013..555ea33 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -300,6 +300,11 @@ def deserialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope may have been created by the declaration of the other direction.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
diff --git a/serde/se.py b/serde/se.py
index 5ce204a..a8e6d02 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -261,6 +261,11 @@ def serialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope may have been created by the declaration of the other direction.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_serializers: list[ClassSerializer] = list(
-- 
2.43.0


From 693fac437cd09e90e0b2bc4202555f9e74c71f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 14/57] fix: using a plain dataclass in a decorated class added
 type checks to it, depending on what used it first

---
 serde/de.py | 3 ++-
 serde/se.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 555ea33..99d0f87 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -348,7 +348,8 @@ def deserialize(
             if is_dataclass_without_de(typ) and typ is not cls:
                 # We call deserialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the deserialization function.
-                deserialize(typ)
+                # No checks are added to such a class, as when it is passed directly to the API.
+                deserialize(typ, type_check=disabled)
 
             # We don't want to add primitive class e.g "str" into the scope, but primitive
             # compatible types such as IntEnum and a subclass of primitives are added,
diff --git a/serde/se.py b/serde/se.py
index a8e6d02..af0ad19 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -300,7 +300,8 @@ def serialize(
             if is_dataclass_without_se(typ) and typ is not cls:
                 # We call serialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the serialization function.
-                serialize(typ)
+                # No checks are added to such a class, as when it is passed directly to the API.
+                serialize(typ, type_check=disabled)
 
             if is_primitive(typ) and not is_enum(typ):
                 continue
-- 
2.43.0


From 2b552f5bb3352e682355ea3b4df4a9d5e199d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 15/57] fix: concurrent use of a dataclass whose code is being
 generated failed

---
 serde/core.py | 31 +++++++++++++++++++++++++++++++
 serde/de.py   | 24 ++++++++++++++++--------
 serde/se.py   | 24 ++++++++++++++++--------
 3 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 220f514..e67a5a6 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -8,6 +8,7 @@ import enum
 import functools
 import logging
 import re
+import threading
 import casefy
 from dataclasses import dataclass
 
@@ -90,6 +91,36 @@ LITERAL_DE_PREFIX = "literal_de"
 SETTINGS = {"debug": False}
 
 
+class _Generation:
+    """
+    Makes sure that the code is generated by one thread at a time, and that the other threads don't
+    use a class until the classes generated together with it are complete.
+    """
+
+    def __init__(self) -> None:
+        self.lock = threading.RLock()
+        self.depth = 0
+
+    def __enter__(self) -> None:
+        self.lock.acquire()
+        self.depth += 1
+
+    def __exit__(self, *_: Any) -> None:
+        self.depth -= 1
+        self.lock.release()
+
+    def wait(self) -> None:
+        """
+        Wait until no other thread is generating the code.
+        """
+        if self.depth:
+            with self.lock:
+                pass
+
+
+GENERATION = _Generation()
+
+
 @dataclass(frozen=True)
 class UnionCacheKey:
     union: Hashable
diff --git a/serde/de.py b/serde/de.py
index 99d0f87..bcdec2b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -70,6 +70,7 @@ from .core import (
     ClassDeserializer,
     FROM_DICT,
     FROM_ITER,
+    GENERATION,
     SERDE_SCOPE,
     CACHE,
     UNION_DE_PREFIX,
@@ -414,16 +415,22 @@ def deserialize(
         return cls
 
     if _cls is None:
-        return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+        def locked_wrap(cls: type[T]) -> type[T]:
+            with GENERATION:
+                return wrap(cls)
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        return locked_wrap  # type: ignore
+
+    with GENERATION:
+        if _cls in GENERATION_STACK:
+            return _cls
+
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_deserializable(instance_or_class: Any) -> bool:
@@ -619,6 +626,7 @@ def _from_obj(
             deserialize(c, type_check=disabled)
             res = deserializable_to_obj(c)
         elif is_deserializable(c):
+            GENERATION.wait()
             res = deserializable_to_obj(c)
         elif is_opt(c):
             res = _deserialize_optional(c, o, thisfunc)
diff --git a/serde/se.py b/serde/se.py
index af0ad19..fc700c0 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -69,6 +69,7 @@ from .compat import (
 from .core import (
     ClassSerializer,
     CACHE,
+    GENERATION,
     SERDE_SCOPE,
     TO_DICT,
     TO_ITER,
@@ -336,16 +337,22 @@ def serialize(
         return cls
 
     if _cls is None:
-        return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+        def locked_wrap(cls: type[T]) -> type[T]:
+            with GENERATION:
+                return wrap(cls)
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        return locked_wrap  # type: ignore
+
+    with GENERATION:
+        if _cls in GENERATION_STACK:
+            return _cls
+
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_serializable(instance_or_class: Any) -> bool:
@@ -450,6 +457,7 @@ def to_obj(
             serialize(type(o), type_check=disabled)
             return serializable_to_obj(o)
         elif is_serializable(o):
+            GENERATION.wait()
             return serializable_to_obj(o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return [thisfunc(e) for e in o]
-- 
2.43.0


From ce4f662de19e41e19bba2743221d2b32ebac5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 16/57] fix: None was accepted for a bare Counter

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index bcdec2b..a8d1775 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -649,6 +649,7 @@ def _from_obj(
                 res = collections.deque(thisfunc(type_args(c)[0], e) for e in o)
         elif is_counter(c):
             if is_bare_counter(c):
+                ensure(o is not None, "None is not a Counter")
                 res = collections.Counter(o)
             else:
                 res = collections.Counter({keyfunc(type_args(c)[0], k): v for k, v in o.items()})
@@ -1179,7 +1180,8 @@ class Renderer:
         Render rvalue for Counter.
         """
         if is_bare_counter(arg.type):
-            return f"collections.Counter({arg.data})"
+            # ``Counter(None)`` is an empty Counter, so None is passed on to the type check.
+            return f"collections.Counter({arg.data}) if {arg.data} is not None else None"
         else:
             k = arg.key_field()
             return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
-- 
2.43.0


From 3ce9f753cc725b55bc527a8d630ec3dce7c51f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 17/57] fix: an instance of a subclass was tagged as the base
 class when both are members of the union

---
 serde/se.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index fc700c0..929b402 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -281,7 +281,7 @@ def serialize(
         g["enum_value"] = enum_value
         g["is_dataclass"] = is_dataclass
         g["typename"] = typename  # used in union functions
-        g["is_instance"] = is_instance  # used in union functions
+        g["is_union_member"] = is_union_member  # used in union functions
         g["to_obj"] = to_obj
         g["typing"] = typing
         g["Literal"] = Literal
@@ -757,7 +757,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
   union_args = serde_scope.union_se_args['{{func}}']
 
   {% for t in union_args %}
-  if is_instance(obj, union_args[{{loop.index0}}]):
+  if is_union_member(obj, {{loop.index0}}, union_args):
     {% if tagging.is_external() and is_taggable(t) %}
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
@@ -865,6 +865,17 @@ def render_to_dict(
         )
 
 
+def is_union_member(obj: Any, index: int, union_args: list[Any]) -> bool:
+    """
+    Test if `obj` is to be serialized as the member of the union at `index`.
+    """
+    if not is_instance(obj, union_args[index]):
+        return False
+    # An instance of a subclass belongs to the member of its own class, if there is one.
+    typ = union_args[index]
+    return not is_dataclass(typ) or type(obj) is typ or type(obj) not in union_args
+
+
 def render_union_func(
     cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
-- 
2.43.0


From fc1818ea76c9f4a176ab27c146aa054cc321e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 18/57] fix: the tag of an internally tagged class was taken
 for one of its fields

---
 serde/de.py | 13 ++++++++++++-
 serde/se.py |  4 +---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a8d1775..cce6fd4 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -194,6 +194,16 @@ def _project_flattened_data(
     return {k: v for k, v in data.items() if k in child_known_fields}
 
 
+def _without_tag(data: dict[str, Any], tag: str, cls: type[Any]) -> dict[str, Any]:
+    """
+    Get the fields of an internally tagged class. The tag isn't a field unless the class has it.
+    """
+    scope: Scope = getattr(cls, SERDE_SCOPE)
+    if tag in scope.de_known_fields:
+        return data
+    return {k: v for k, v in data.items() if k != tag}
+
+
 def _make_deserialize(
     cls_name: str,
     fields: list[Any],
@@ -334,6 +344,7 @@ def deserialize(
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
+        g["_without_tag"] = _without_tag
         g["class_deserializers"] = class_deserializers
         g["BeartypeCallHintParamViolation"] = BeartypeCallHintParamViolation
         g["is_bearable"] = is_bearable
@@ -1533,7 +1544,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
     ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data}
+    fake_dict = {"fake_key": _without_tag(data, "{{tagging.tag}}", {{typename(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
diff --git a/serde/se.py b/serde/se.py
index 929b402..e884292 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -762,9 +762,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
-    return res
+    return {**{{rvalue(arg(t))}}, "{{tagging.tag}}": "{{typename(t)}}"}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-- 
2.43.0


From 7182b198f90b313575d6f90b1ab5ac2dd29202ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 19/57] fix: IntEnum, StrEnum-like and primitive subclass
 members of a union could not be deserialized

---
 serde/compat.py | 14 ++++++++++++++
 serde/de.py     |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 5bc5bc3..fd2fd8e 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -955,6 +955,20 @@ def is_primitive_subclass(typ: type[Any]) -> bool:
     return is_primitive(typ) and typ not in PRIMITIVES and not is_new_type_primitive(typ)
 
 
+def primitive_base(typ: Any) -> Any:
+    """
+    Get the primitive type which the type is a subclass of.
+
+    >>> class Str(str):
+    ...     pass
+    >>> primitive_base(Str)
+    <class 'str'>
+    """
+    if isinstance(typ, type):
+        return next((ty for ty in PRIMITIVES if issubclass(typ, ty)), typ)
+    return typ
+
+
 @cache
 def is_primitive(typ: type[Any] | NewType) -> bool:
     """
diff --git a/serde/de.py b/serde/de.py
index cce6fd4..f95edd1 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -62,6 +62,7 @@ from .compat import (
     iter_literals,
     iter_types,
     iter_unions,
+    primitive_base,
     type_args,
     typename,
 )
@@ -1556,8 +1557,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
+    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
+    if not isinstance(fake_dict["fake_key"], {{typename(primitive_base(t))}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
@@ -1772,7 +1773,9 @@ def render_union_func(
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
+        primitive_base=primitive_base,
         typename=typename,
     )
 
-- 
2.43.0


From 63d55d31183036b1ff9ed9f7f9b2c7d0135ccf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 20/57] fix: None of an optional union was read as an untagged
 class without required fields

---
 serde/de.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index f95edd1..d857cd8 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1535,6 +1535,10 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
   errors = []
+  {% if has_none %}
+  if data is None:
+    return None
+  {% endif %}
   {% for t in union_args %}
   try:
     # create fake dict so we can reuse the normal render function
@@ -1775,6 +1779,7 @@ def render_union_func(
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
+        has_none=any(is_none(t) for t in union_args),
         primitive_base=primitive_base,
         typename=typename,
     )
-- 
2.43.0


From 29aa560cb8e9bf54d1be7e5481c50db85f227e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 21/57] fix: aliases were only honoured for primitive, enum and
 plain Optional fields, and names with quotes broke the generated code

---
 serde/core.py |  8 ++++++++
 serde/de.py   | 50 +++++++++++++++++++++-----------------------------
 serde/se.py   |  3 ++-
 3 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index e67a5a6..6c8ac6e 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 import dataclasses
 import enum
 import functools
+import json
 import logging
 import re
 import threading
@@ -991,6 +992,13 @@ def conv(f: Field[Any], case: str | None = None) -> str:
     return name
 
 
+def str_literal(s: str) -> str:
+    """
+    Render a string literal in the generated code.
+    """
+    return json.dumps(s, ensure_ascii=False)
+
+
 def union_func_name(prefix: str, union_args: Sequence[Any]) -> str:
     """
     Generate a function name that contains all union types
diff --git a/serde/de.py b/serde/de.py
index d857cd8..580360a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -93,6 +93,7 @@ from .core import (
     is_instance,
     literal_func_name,
     logger,
+    str_literal,
     union_func_name,
 )
 
@@ -917,9 +918,11 @@ class DeField(Field[T]):
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
         elif is_union(self.type) and type(None) in get_args(self.type):
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return self.data_or()
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, {self.keys()})"
         else:
-            return f'{self.datavar}["{self.conv_name()}"]'
+            return f"{self.datavar}[{str_literal(self.conv_name())}]"
 
     @data.setter
     def data(self, d: str) -> None:
@@ -928,8 +931,16 @@ class DeField(Field[T]):
     def data_or(self) -> str:
         if self.iterbased:
             return self.data
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, {self.keys()}, raise_error=False)"
         else:
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({str_literal(self.conv_name())})"
+
+    def keys(self) -> list[str]:
+        """
+        Keys this field is read from, in order of precedence.
+        """
+        return [self.conv_name(), *self.alias]
 
 
 @dataclass
@@ -1149,13 +1160,7 @@ class Renderer:
                 ]
             )
         else:
-            name = arg.conv_name()
-            if arg.alias:
-                aliases = (f'"{s}"' for s in [name, *arg.alias])
-                get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
-            else:
-                get = f'{arg.datavar}.get("{name}")'
-            exists = f"{get} is not None"
+            exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
     def list(self, arg: DeField[Any]) -> str:
@@ -1267,11 +1272,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
-        return f"deserialize_enum({typename(arg.type)}, {dat})"
+        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1281,9 +1282,6 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1340,26 +1338,19 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
-
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
             # This ensures that the code checks keys in the data while considering aliases.
             flattened = []
             for subarg in defields(arg.type):
                 if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
+                    aliases = [subarg.name, *subarg.alias]
+                    flattened.append(f"_exists_by_aliases({arg.datavar}, {aliases})")
                 else:
                     flattened.append(f'"{subarg.name}" in {arg.datavar}')
             exists = " and ".join(flattened)
         else:
-            if arg.alias:
-                aliases = get_aliased_fields(arg)
-                exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
-            else:
-                exists = f'"{arg.conv_name()}" in {arg.datavar}'
+            exists = f"_exists_by_aliases({arg.datavar}, {arg.keys()})"
 
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
@@ -1485,7 +1476,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     __{{f.name}} = {{rvalue(field_arg)}}
   except KeyError:
     raise SerdeError(
-      "missing required field '{{field_arg.conv_name()}}' while deserializing {{class_name}}"
+      "missing required field '" {{str_literal(field_arg.conv_name())}} "' while deserializing {{class_name}}"
     )
   {% endif %}
   {% endif %}
@@ -1751,6 +1742,7 @@ def render_from_dict(
             known_fields=known_fields,
             has_flatten_dict=has_flatten_dict,
             is_flatten_dict=is_flatten_dict,
+            str_literal=str_literal,
             flattened_dataclass_child_scopes=flattened_dataclass_child_scopes,
         )
 
diff --git a/serde/se.py b/serde/se.py
index e884292..73f4a2f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -87,6 +87,7 @@ from .core import (
     fields,
     is_instance,
     logger,
+    str_literal,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
 )
@@ -919,7 +920,7 @@ class LRenderer:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
-        return f'res["{arg.conv_name(self.case)}"]'
+        return f"res[{str_literal(arg.conv_name(self.case))}]"
 
     def flatten(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From af049a6a664645d5c74714bdf1d5a3583efb94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 22/57] fix: tags with quotes or backslashes broke the
 generated code

---
 serde/de.py | 24 +++++++++++++-----------
 serde/se.py | 12 +++++++-----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 580360a..ffbf609 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1538,15 +1538,15 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data["{{typename(t)}}"]}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": _without_tag(data, "{{tagging.tag}}", {{typename(t)}})}
+    ensure({{tag}} in data , "'" {{tag}} "' key is not present")
+    ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
+    fake_dict = {"fake_key": _without_tag(data, {{tag}}, {{typename(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{tagging.content}}" in data , "'{{tagging.content}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data["{{tagging.content}}"]}
+    ensure({{tag}} in data , "'" {{tag}} "' key is not present")
+    ensure({{content}} in data , "'" {{content}} "' key is not present")
+    ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
+    fake_dict = {"fake_key": data[{{content}}]}
 
     {% else %}
     fake_dict = {"fake_key": data}
@@ -1563,7 +1563,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
-          typename(type(data)) + " into {{union_name}}.\\nReasons:\\n" + "\\n".join(errors))
+          typename(type(data)) + " into " + {{union_name}} + ".\\nReasons:\\n" + "\\n".join(errors))
 """,
             "literal": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
@@ -1572,7 +1572,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   for literal in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
     if type(data) is type(literal) and data == literal:
       return data
-  raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
+  raise SerdeError("Can not deserialize " + repr(data) + " as " + {{literal_name}} + ".")
   """,
         }
     )
@@ -1763,8 +1763,10 @@ def render_union_func(
         func=serde_scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args),
         serde_scope=serde_scope,
         union_args=union_args,
-        union_name=union_name,
+        union_name=str_literal(union_name),
         tagging=tagging,
+        tag=str_literal(tagging.tag or ""),
+        content=str_literal(tagging.content or ""),
         is_taggable=Tagging.is_taggable,
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
@@ -1786,7 +1788,7 @@ def render_literal_func(
         func=serde_scope.func_name(literal_func_name(literal_args), literal_args),
         serde_scope=serde_scope,
         literal_args=literal_args,
-        literal_name=literal_name,
+        literal_name=str_literal(literal_name),
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
         repr=repr,
diff --git a/serde/se.py b/serde/se.py
index 73f4a2f..cea986f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -763,11 +763,11 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    return {**{{rvalue(arg(t))}}, "{{tagging.tag}}": "{{typename(t)}}"}
+    return {**{{rvalue(arg(t))}}, {{tag}}: "{{typename(t)}}"}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res = { {{content}}: {{rvalue(arg(t))}}}
+    res[{{tag}}] = "{{typename(t)}}"
     return res
 
     {% else %}
@@ -778,7 +778,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
                    repr(obj) + \
                    " of type " + \
                    typename(type(obj)) + \
-                   " for {{union_name}}")
+                   " for " + {{union_name}})
 """,
         }
     )
@@ -888,8 +888,10 @@ def render_union_func(
         func=serde_scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args),
         serde_scope=serde_scope,
         union_args=union_args,
-        union_name=union_name,
+        union_name=str_literal(union_name),
         tagging=tagging,
+        tag=str_literal(tagging.tag or ""),
+        content=str_literal(tagging.content or ""),
         is_taggable=Tagging.is_taggable,
         arg=lambda x: SeField(x, "obj"),
         rvalue=renderer.render,
-- 
2.43.0


From 12ab0b7151ba78b423f4f9f0abccf8fc5d16961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 23/57] fix: classes, enums and other types of the same name
 were mixed up in the generated code

---
 serde/compat.py | 28 ++++++++++++++------------
 serde/core.py   | 50 +++++++++++++++++++++++++++++++++++++++++++++++
 serde/de.py     | 52 +++++++++++++++++++++++++------------------------
 serde/se.py     | 12 ++++++++----
 4 files changed, 101 insertions(+), 41 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index fd2fd8e..9cfa575 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -343,55 +343,59 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
     The correct return type is `Iterator[Union[Type, typing._specialform]],
     but `typing._specialform` doesn't exist for python 3.6. Use `Any` instead.
     """
-    lst: set[Union[type[Any], Any]] = set()
+    # Ordered, so that the same code is generated every time.
+    lst: dict[Union[type[Any], Any], None] = {}
+
+    def add(typ: Union[type[Any], Any]) -> None:
+        lst[typ] = None
 
     def recursive(cls: Union[type[Any], Any]) -> None:
         if cls in lst:
             return
 
         if is_dataclass(cls):
-            lst.add(cls)
+            add(cls)
             if isinstance(cls, type):
                 for f in dataclass_fields(cls):
                     if not f.metadata.get("serde_skip"):
                         recursive(f.type)
         elif isinstance(cls, str):
-            lst.add(cls)
+            add(cls)
         elif is_opt(cls):
-            lst.add(Optional)
+            add(Optional)
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_union(cls):
-            lst.add(Union)
+            add(Union)
             for arg in type_args(cls):
                 recursive(arg)
         elif is_list(cls):
-            lst.add(list)
+            add(list)
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_set(cls):
-            lst.add(set)
+            add(set)
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_deque(cls):
-            lst.add(deque)
+            add(deque)
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_counter(cls):
-            lst.add(Counter)
+            add(Counter)
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_tuple(cls):
-            lst.add(tuple)
+            add(tuple)
             for arg in type_args(cls):
                 recursive(arg)
         elif is_dict(cls):
-            lst.add(dict)
+            add(dict)
             args = type_args(cls)
             if args and len(args) >= 2:
                 recursive(args[0])
@@ -399,7 +403,7 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
         elif is_pep695_type_alias(cls):
             recursive(cls.__value__)
         else:
-            lst.add(cls)
+            add(cls)
 
     recursive(cls)
     return list(lst)
diff --git a/serde/core.py b/serde/core.py
index 6c8ac6e..2251c71 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -294,6 +294,21 @@ CACHE = Cache()
 """ Global cache variable for non-dataclass classes """
 
 
+GENERATED_NAMES = frozenset(
+    """
+    BeartypeCallHintParamViolation Literal SerdeError TypeCheck UserError bool class_deserializers
+    class_serializers cls coerce_object collections convert_sets copy data deserialize_enum
+    deserialize_numbers dict disabled ensure enum_value errors fake_data fake_dict float frozenset
+    from_obj func get_generic_arg int is_bearable is_dataclass is_instance is_union_member
+    isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars numpy obj repr
+    res reuse_instances serde_legacy_custom_class_deserializer
+    serde_legacy_custom_class_serializer serde_scope set skip_none str subres to_obj tuple type
+    typename typing union_args unknown_fields v variable_type_args
+    """.split()
+)
+""" Names used by the generated functions """
+
+
 @dataclass
 class Scope:
     """
@@ -322,6 +337,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    union_de_args: dict[str, tuple[type[Any], ...]] = dataclasses.field(default_factory=dict)
+    """ The union deserializing functions need references to their types """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict & from_dict arguments """
 
@@ -350,6 +368,38 @@ class Scope:
             self.func_names[key] = f"{name}__{taken}" if taken else name
         return self.func_names[key]
 
+    type_names: dict[type[Any], str] = dataclasses.field(default_factory=dict)
+    """ Names by which the generated functions refer to the types """
+
+    def bind_type(self, typ: Any, g: dict[str, Any]) -> None:
+        """
+        Make `typ` available in the globals of the generated functions. Its own name is used unless
+        that name is taken by another type or used by the generated functions for something else.
+        """
+        origin = get_origin(typ) if is_generic(typ) else None
+        typ = origin or typ
+        name = typename(typ)
+        if isinstance(typ, type):
+            if typ not in self.type_names:
+                taken = GENERATED_NAMES | set(self.type_names.values())
+                n = 0
+                while name in taken:
+                    n += 1
+                    name = f"{typename(typ)}__{n}"
+                self.type_names[typ] = name
+            name = self.type_names[typ]
+        g[name] = typ
+
+    def type_name(self, typ: Any) -> str:
+        """
+        Get the name by which the generated functions refer to `typ`.
+        """
+        while hasattr(typ, "__supertype__"):
+            typ = typ.__supertype__
+        if is_generic(typ):
+            typ = get_origin(typ)
+        return (isinstance(typ, type) and self.type_names.get(typ)) or typename(typ)
+
     def __repr__(self) -> str:
         res: list[str] = []
 
diff --git a/serde/de.py b/serde/de.py
index ffbf609..a1813f8 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -371,20 +371,14 @@ def deserialize(
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
 
-            if is_generic(typ):
-                g[typename(typ)] = get_origin(typ)
-            else:
-                g[typename(typ)] = typ
+            scope.bind_type(typ, g)
 
         # render all union functions
         for union in iter_unions(cls):
             union_args = type_args(union)
-            add_func(
-                scope,
-                scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args),
-                render_union_func(cls, union_args, tagging),
-                g,
-            )
+            union_key = scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args)
+            scope.union_de_args[union_key] = union_args
+            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
 
         # render literal functions
         for literal in iter_literals(cls):
@@ -1005,7 +999,7 @@ class Renderer:
         if custom_deserializer_available and not arg.deserializer:
             res = (
                 f"class_deserializers[{implemented_methods[arg.type]}].deserialize("
-                f"{typename(arg.type)}, {arg.data})"
+                f"{self.type_name(arg.type)}, {arg.data})"
             )
         elif arg.deserializer and arg.deserializer.inner is not default_deserializer:
             res = self.custom_field_deserializer(arg)
@@ -1053,8 +1047,9 @@ class Renderer:
         elif is_str_serializable(arg.type):
             res = f"({self.c_tor_with_check(arg)}) if reuse_instances else {self.c_tor(arg)}"
         elif is_datetime(arg.type):
-            from_iso = f"{typename(arg.type)}.fromisoformat({arg.data})"
-            res = f"({arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {from_iso}) \
+            typ = self.type_name(arg.type)
+            from_iso = f"{typ}.fromisoformat({arg.data})"
+            res = f"({arg.data} if isinstance({arg.data}, {typ}) else {from_iso}) \
                     if reuse_instances else {from_iso}"
         elif is_none(arg.type):
             res = "None"
@@ -1110,7 +1105,7 @@ class Renderer:
         # The function takes a closure in order to execute the default value lazily.
         return (
             "serde_legacy_custom_class_deserializer("
-            f"{typename(arg.type)}, "
+            f"{self.type_name(arg.type)}, "
             f"{arg.datavar}, "
             f"{arg.data_or()}, "
             f"default=lambda: {code})"
@@ -1140,7 +1135,7 @@ class Renderer:
         if arg.is_self_referencing():
             class_name = "cls"
         else:
-            class_name = typename(arg.type)
+            class_name = self.type_name(arg.type)
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
@@ -1237,7 +1232,7 @@ class Renderer:
             elif is_frozen_set(origin):
                 callable = "frozenset"
             else:
-                callable = typename(origin)
+                callable = self.type_name(origin)
             return f"collections.defaultdict({callable}, \
                     {{{self.dict_key(k)}: {self.render(v)} for k, v in {arg.data}.items()}})"
         else:
@@ -1264,7 +1259,7 @@ class Renderer:
             and not issubclass(typ, bool)
             and not is_enum(typ)
         ):
-            return f'coerce_object("{self.class_name}", "k", {typename(typ)}, {arg.data})'
+            return f'coerce_object("{self.class_name}", "k", {self.type_name(typ)}, {arg.data})'
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1272,7 +1267,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
+        return f"deserialize_enum({self.type_name(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1280,7 +1275,7 @@ class Renderer:
 
         * `suppress_coerce`: Overrides "suppress_coerce" in the Renderer's field
         """
-        typ = typename(arg.type)
+        typ = self.type_name(arg.type)
         dat = arg.data
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
@@ -1300,12 +1295,16 @@ class Renderer:
             return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
 
     def c_tor(self, arg: DeField[Any]) -> str:
-        return f"{typename(arg.type)}({arg.data})"
+        return f"{self.type_name(arg.type)}({arg.data})"
 
     def c_tor_with_check(self, arg: DeField[Any], ctor: str | None = None) -> str:
         if ctor is None:
             ctor = self.c_tor(arg)
-        return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
+        return f"{arg.data} if isinstance({arg.data}, {self.type_name(arg.type)}) else {ctor}"
+
+    def type_name(self, typ: Any) -> str:
+        scope: Scope | None = getattr(self.cls, SERDE_SCOPE, None)
+        return scope.type_name(typ) if scope else typename(typ)
 
     def scope_func_name(self, name: str, args: Sequence[Any]) -> str:
         scope: Scope = getattr(self.cls, SERDE_SCOPE)
@@ -1526,6 +1525,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
   errors = []
+  union_args = serde_scope.union_de_args['{{func}}']
   {% if has_none %}
   if data is None:
     return None
@@ -1540,7 +1540,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure({{tag}} in data , "'" {{tag}} "' key is not present")
     ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": _without_tag(data, {{tag}}, {{typename(t)}})}
+    fake_dict = {"fake_key": _without_tag(data, {{tag}}, {{type_name(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure({{tag}} in data , "'" {{tag}} "' key is not present")
@@ -1553,14 +1553,14 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% endif %}
 
     {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(primitive_base(t))}}):
+    if not isinstance(fake_dict["fake_key"], {{type_name(primitive_base(t))}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, union_args[{{loop.index0}}]), "object is not of type '" + {{name(t)}} + "'")
     return res
   except Exception as e:
-    errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
+    errors.append(" Failed to deserialize into " + {{name(t)}} + f": {e}")
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
           typename(type(data)) + " into " + {{union_name}} + ".\\nReasons:\\n" + "\\n".join(errors))
@@ -1776,6 +1776,8 @@ def render_union_func(
         has_none=any(is_none(t) for t in union_args),
         primitive_base=primitive_base,
         typename=typename,
+        type_name=renderer.type_name,
+        name=lambda t: str_literal(typename(t)),
     )
 
 
diff --git a/serde/se.py b/serde/se.py
index cea986f..d857169 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -307,7 +307,7 @@ def serialize(
 
             if is_primitive(typ) and not is_enum(typ):
                 continue
-            g[typename(typ)] = typ
+            scope.bind_type(typ, g)
 
         # render all union functions
         for union in iter_unions(cls):
@@ -1034,13 +1034,17 @@ class Renderer:
         if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
             return (
                 "serde_legacy_custom_class_serializer("
-                f"{typename(arg.type)}, "
+                f"{self.type_name(arg.type)}, "
                 f"{arg.varname}, "
                 f"default=lambda: {res})"
             )
         else:
             return res
 
+    def type_name(self, typ: Any) -> str:
+        scope: Scope | None = getattr(self.cls, SERDE_SCOPE, None)
+        return scope.type_name(typ) if scope else typename(typ)
+
     def custom_field_serializer(self, arg: SeField[Any]) -> str:
         """
         Render rvalue for the field with custom serializer.
@@ -1158,13 +1162,13 @@ class Renderer:
             return f"{{{self.render(karg)}: {self.render(varg)} for k, v in {arg.varname}.items()}}"
 
     def enum(self, arg: SeField[Any]) -> str:
-        return f"enum_value({typename(arg.type)}, {arg.varname})"
+        return f"enum_value({self.type_name(arg.type)}, {arg.varname})"
 
     def primitive(self, arg: SeField[Any]) -> str:
         """
         Render rvalue for primitives.
         """
-        typ = typename(arg.type)
+        typ = self.type_name(arg.type)
         var = arg.varname
         if self.suppress_coerce:
             return var
-- 
2.43.0


From 6f9492178725228e98fd6e2d874004b784eb20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 24/57] fix: only the first of several skip conditions of a
 field was applied, and skip_if_default compared the serialized value

---
 serde/core.py | 42 ++++++++++++++++--------------------------
 serde/se.py   | 18 ++++++++++++------
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 2251c71..448a2e2 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -665,8 +665,8 @@ class Func:
     mangeld: str = ""
     """ Mangled function name """
 
-    def __call__(self, v: Any) -> None:
-        return self.inner(v)  # type: ignore
+    def __call__(self, *args: Any) -> Any:
+        return self.inner(*args)
 
     @property
     def name(self) -> str:
@@ -680,27 +680,19 @@ def skip_if_false(v: Any) -> Any:
     return not bool(v)
 
 
-def skip_if_none(v: Any) -> Any:
-    return v is None
-
-
-def skip_if_default(v: Any, default: Any | None = None) -> Any:
+def skip_if_default(v: Any, serialized: Any, default: Any) -> bool:
+    """
+    Test if the value `v` of a field, which is serialized to `serialized`, equals the default.
+    """
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
+    try:
+        return bool(v == default)
+    except Exception:
+        # e.g. the comparison of numpy arrays is not a bool.
+        from .se import to_obj
 
-    serialized_default = default
-
-    # Align the comparison with how serde serializes defaults so nested dataclasses
-    # with class-level skip_if_default are handled correctly.
-    if dataclasses.is_dataclass(default) and not isinstance(default, type):
-        try:
-            from .se import to_dict as serde_to_dict
-
-            serialized_default = serde_to_dict(default)
-        except Exception:
-            serialized_default = dataclasses.asdict(default)
-
-    return v == serialized_default  # Why return type is deduced to be Any?
+        return bool(serialized == to_obj(default, named=True))
 
 
 @dataclass
@@ -795,6 +787,7 @@ class Field(Generic[T]):
     skip_if_false: bool | None = None
     skip_if_none: bool | None = None
     skip_if_default: bool | None = None
+    skip_if_default_func: Func | None = None
     serializer: Func | None = None  # Custom field serializer.
     deserializer: Func | None = None  # Custom field deserializer.
     flatten: FlattenOpts | None = None
@@ -816,14 +809,10 @@ class Field(Generic[T]):
         if f.metadata.get("serde_skip_if_false"):
             skip_if_false_func = Func(skip_if_false, cls.mangle(f, "skip_if_false"))
 
-        skip_if_none_func: Func | None = None
         skip_if_none_flag = f.metadata.get("serde_skip_if_none")
         if skip_if_none_flag is None:
             skip_if_none_flag = skip_if_none_default
 
-        if skip_if_none_flag:
-            skip_if_none_func = Func(skip_if_none, cls.mangle(f, "skip_if_none"))
-
         skip_if_default_func: Func | None = None
         skip_if_default_flag = f.metadata.get("serde_skip_if_default")
         if skip_if_default_flag is None:
@@ -836,7 +825,7 @@ class Field(Generic[T]):
             elif not isinstance(f.default_factory, dataclasses._MISSING_TYPE):
                 default_value = f.default_factory()
             else:
-                default_value = dataclasses._MISSING_TYPE
+                default_value = dataclasses.MISSING
 
             skip_if_def = functools.partial(skip_if_default, default=default_value)
             skip_if_default_func = Func(skip_if_def, cls.mangle(f, "skip_if_default"))
@@ -902,7 +891,8 @@ class Field(Generic[T]):
             skip_deserializing=skip_deserializing,
             skip_if_default=skip_if_default_flag,
             skip_if_none=skip_if_none_flag,
-            skip_if=skip_if or skip_if_false_func or skip_if_default_func or skip_if_none_func,
+            skip_if=skip_if or skip_if_false_func,
+            skip_if_default_func=skip_if_default_func,
             serializer=serializer,
             deserializer=deserializer,
             flatten=flatten,
diff --git a/serde/se.py b/serde/se.py
index d857169..1c96f33 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -661,6 +661,8 @@ def add_field_serializers_to_scope(
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
+        if f.skip_if_default_func:
+            g[f.skip_if_default_func.name] = f.skip_if_default_func
         if f.serializer:
             g[f.serializer.name] = f.serializer
         if f.flatten:
@@ -693,13 +695,17 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
-  {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
-    {{lvalue(f)}} = subres
   {% else -%}
-  if skip_none:
-    if subres is not None:
-      {{lvalue(f)}} = subres
+  if subres is None and (skip_none or {{f.skip_if_none|default(False, true)}}):
+    pass
+  {% if f.skip_if_default_func -%}
+  elif {{f.skip_if_default_func.name}}({{f.varname}}, subres):
+    pass
+  {% endif -%}
+  {% if f.skip_if -%}
+  elif {{f.skip_if.name}}(subres):
+    pass
+  {% endif -%}
   else:
     {{lvalue(f)}} = subres
   {% endif -%}
-- 
2.43.0


From 9e945cf8e9210d5e9a7329483c702fc976730ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 25/57] fix: from_tuple failed with keyword-only fields and
 misplaced the values after init=False and skipped fields

---
 serde/de.py | 61 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a1813f8..b9fdbcd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1381,6 +1381,36 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def constructor_fields(cls: type[Any]) -> list[DeField[Any]]:
+    """
+    Fields of the class. The ones to be passed to the constructor by keyword are marked as kw_only.
+    """
+    fields = {f.name: f for f in defields(cls)}
+    force_kw = False
+    for name in getattr(cls, "__dataclass_fields__", {}):
+        # InitVar is a parameter of the constructor, but not a field.
+        field = fields.get(name)
+        if field is None or not renderable(field):
+            force_kw = True
+        elif force_kw:
+            field.kw_only = True
+    return list(fields.values())
+
+
+def get_positions(fields: list[DeField[Any]]) -> dict[str, int]:
+    """
+    Positions of the fields in the tuple. Only the fields in the tuple written by `to_tuple` have
+    a position, except that a field which can't be constructed otherwise is also expected there.
+    """
+    positions: dict[str, int] = {}
+    for f in fields:
+        assert f.name
+        if f.skip or (f.skip_serializing and (has_default(f) or has_default_factory(f))):
+            continue
+        positions[f.name] = len(positions)
+    return positions
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1393,13 +1423,20 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
 
   try:
     return cls(
       {% for f in fields %}
+      {% if not f.kw_only %}
       __{{f.name}},
+      {% endif %}
+      {% endfor %}
+      {% for f in fields %}
+      {% if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% endif %}
       {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1484,10 +1521,13 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   try:
     return cls(
     {% for f in fields %}
+    {% if not f.kw_only %}
+    __{{f.name}},
+    {% endif %}
+    {% endfor %}
+    {% for f in fields %}
     {% if f.kw_only %}
     {{f.name}}=__{{f.name}},
-    {% else %}
-    __{{f.name}},
     {% endif %}
     {% endfor %}
     )
@@ -1594,7 +1634,8 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = constructor_fields(cls)
+    fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1608,10 +1649,12 @@ def render_from_iter(
             rvalue=renderer.render,
         )
     else:
+        positions = get_positions(all_fields)
         res = jinja2_env.get_template("iter").render(
             func=FROM_ITER,
             serde_scope=serde_scope,
-            fields=fields,
+            fields=[f for f in fields if f.name in positions],
+            positions=positions,
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
@@ -1692,13 +1735,7 @@ def render_from_dict(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    all_fields = defields(cls)
-    force_kw = False
-    for field in all_fields:
-        if not renderable(field):
-            force_kw = True
-        if force_kw:
-            field.kw_only = True
+    all_fields = constructor_fields(cls)
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
-- 
2.43.0


From e10a194f345897917a349e63ca6ce317d663f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 26/57] fix: None was accepted for a class without fields

---
 serde/de.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index b9fdbcd..df2e8a2 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1419,6 +1419,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
+  if data is None:
+    raise SerdeError("None can not be deserialized into {{class_name}}")
 
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
@@ -1473,10 +1475,12 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
+  if data is None:
+    raise SerdeError("None can not be deserialized into {{class_name}}")
 
   {% if deny_unknown_fields and not has_flatten_dict %}
   known_fields = {{ known_fields }}
-  unknown_fields = set((data or {}).keys()) - known_fields
+  unknown_fields = set(data.keys()) - known_fields
   if unknown_fields:
     raise SerdeError(f'unknown fields: {unknown_fields}, expected one of {known_fields}')
   {% endif %}
@@ -1485,7 +1489,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   {% if has_flatten_dict %}
   __flatten_known_fields = {{ known_fields }}
-  __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
+  __flatten_extra = {k: v for k, v in data.items() if k not in __flatten_known_fields}
   {% endif %}
 
   {% for f in fields %}
@@ -1655,6 +1659,7 @@ def render_from_iter(
             serde_scope=serde_scope,
             fields=[f for f in fields if f.name in positions],
             positions=positions,
+            class_name=typename(cls),
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
-- 
2.43.0


From d1bc16c8c20f5977f46f7c6b6a8952a2849c87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 27/57] fix: flattened classes lost their own settings,
 defaults, None and positions

---
 serde/core.py | 12 +++++++
 serde/de.py   | 99 ++++++++++++++++++++++++++++-----------------------
 serde/se.py   | 67 +++++++++++-----------------------
 3 files changed, 87 insertions(+), 91 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 448a2e2..83cc4d9 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1032,6 +1032,18 @@ def conv(f: Field[Any], case: str | None = None) -> str:
     return name
 
 
+def flattened_class(f: Field[Any]) -> type[Any] | None:
+    """
+    Get the class whose fields are flattened into the class that has the field.
+    """
+    if not f.flatten:
+        return None
+    typ = type_args(f.type)[0] if is_opt(f.type) else f.type
+    if is_generic(typ):
+        typ = get_origin(typ)
+    return cast("type[Any]", typ) if dataclasses.is_dataclass(typ) else None
+
+
 def str_literal(s: str) -> str:
     """
     Render a string literal in the generated code.
diff --git a/serde/de.py b/serde/de.py
index df2e8a2..4b9262d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -77,6 +77,7 @@ from .core import (
     UNION_DE_PREFIX,
     DefaultTagging,
     Field,
+    FlattenOpts,
     disabled,
     Scope,
     Tagging,
@@ -90,6 +91,7 @@ from .core import (
     has_default_factory,
     ensure,
     fields,
+    flattened_class,
     is_instance,
     literal_func_name,
     logger,
@@ -196,6 +198,13 @@ def _project_flattened_data(
     return {k: v for k, v in data.items() if k in child_known_fields}
 
 
+def _flattened_exists(data: dict[str, Any], known_fields: set[str], has_flatten_dict: bool) -> bool:
+    """
+    Test if the data has any entry of a flattened child dataclass.
+    """
+    return any(k in known_fields or has_flatten_dict for k in data)
+
+
 def _without_tag(data: dict[str, Any], tag: str, cls: type[Any]) -> dict[str, Any]:
     """
     Get the fields of an internally tagged class. The tag isn't a field unless the class has it.
@@ -346,6 +355,7 @@ def deserialize(
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
+        g["_flattened_exists"] = _flattened_exists
         g["_without_tag"] = _without_tag
         g["class_deserializers"] = class_deserializers
         g["BeartypeCallHintParamViolation"] = BeartypeCallHintParamViolation
@@ -1120,7 +1130,7 @@ class Renderer:
             # e.g. "data" will be used as variable name.
             assert arg.datavar
             if arg.iterbased:
-                var = f"{arg.datavar}[{arg.index}:]"
+                var = f"{arg.datavar}[{arg.index}:{arg.index + get_width(arg)}]"
             else:
                 var = arg.datavar
 
@@ -1146,14 +1156,8 @@ class Renderer:
         inner = arg[0]
         if arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
-        elif arg.flatten:
-            # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+        elif flattened_class(arg):
+            exists = self.flattened_exists(arg)
         else:
             exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
@@ -1332,22 +1336,23 @@ class Renderer:
             "deserialize_numbers=deserialize_numbers)"
         )
 
+    def flattened_exists(self, arg: DeField[Any]) -> str:
+        """
+        Renders the test if the data has any entry of a flattened dataclass.
+        """
+        scope: Scope = getattr(flattened_class(arg), SERDE_SCOPE)
+        return (
+            f"_flattened_exists({arg.datavar}, {scope.de_known_fields}, "
+            f"{scope.de_has_flatten_dict})"
+        )
+
     def default(self, arg: DeField[Any], code: str) -> str:
         """
         Renders supplying default value during deserialization.
         """
 
-        if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    aliases = [subarg.name, *subarg.alias]
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, {aliases})")
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+        if flattened_class(arg):
+            exists = self.flattened_exists(arg)
         else:
             exists = f"_exists_by_aliases({arg.datavar}, {arg.keys()})"
 
@@ -1403,14 +1408,30 @@ def get_positions(fields: list[DeField[Any]]) -> dict[str, int]:
     a position, except that a field which can't be constructed otherwise is also expected there.
     """
     positions: dict[str, int] = {}
+    position = 0
     for f in fields:
         assert f.name
         if f.skip or (f.skip_serializing and (has_default(f) or has_default_factory(f))):
             continue
-        positions[f.name] = len(positions)
+        positions[f.name] = position
+        position += get_width(f)
     return positions
 
 
+def get_width(f: DeField[Any]) -> int:
+    """
+    Number of elements the field takes in the tuple.
+    """
+    child = flattened_class(f)
+    if child is None:
+        return 1
+    fields = {f.name: f for f in defields(child)}
+    if getattr(child, SERDE_SCOPE).transparent:
+        inner = fields[get_transparent_field(child).name]
+        return get_width(dataclasses.replace(inner, flatten=FlattenOpts()))
+    return sum(get_width(fields[name]) for name in get_positions(list(fields.values())))
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1488,24 +1509,24 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% if has_flatten_dict %}
-  __flatten_known_fields = {{ known_fields }}
-  __flatten_extra = {k: v for k, v in data.items() if k not in __flatten_known_fields}
+  _flatten_known_fields = {{ known_fields }}
+  _flatten_extra = {k: v for k, v in data.items() if k not in _flatten_known_fields}
   {% endif %}
 
   {% for f in fields %}
   {% if f.flatten and is_flatten_dict(f.type) %}
-  __{{f.name}} = __flatten_extra
+  __{{f.name}} = _flatten_extra
   {% else %}
   {% set child_scope = flattened_dataclass_child_scopes.get(f.name) %}
   {% if child_scope %}
-  __{{f.name}}_flatten_data = _project_flattened_data(
+  _flatten_data_{{f.name}} = _project_flattened_data(
     data,
     {{ child_scope.de_known_fields }},
     {{ known_fields }},
     {{ child_scope.de_has_flatten_dict }},
     {{ has_flatten_dict }},
   )
-  {% set field_arg = arg(f,loop.index-1, datavar="__" ~ f.name ~ "_flatten_data") %}
+  {% set field_arg = arg(f,loop.index-1, datavar="_flatten_data_" ~ f.name) %}
   {% else %}
   {% set field_arg = arg(f,loop.index-1) %}
   {% endif %}
@@ -1679,23 +1700,8 @@ def get_known_fields(f: DeField[Any], rename_all: str | None) -> list[str]:
 def _collect_flattened_dataclass_child_scopes(fields: list[DeField[Any]]) -> dict[str, Scope]:
     flattened_children: dict[str, Scope] = {}
     for f in fields:
-        if not f.flatten or is_flatten_dict(f.type) or f.name is None:
-            continue
-
-        child_cls: type[Any] | None = None
-        if isinstance(f.type, type) and is_dataclass(f.type):
-            child_cls = cast(type[Any], f.type)
-        elif is_opt(f.type):
-            child_cls = next(
-                (
-                    cast(type[Any], arg)
-                    for arg in get_args(f.type)
-                    if isinstance(arg, type) and is_dataclass(arg)
-                ),
-                None,
-            )
-
-        if child_cls is not None:
+        child_cls = flattened_class(f)
+        if child_cls is not None and f.name is not None:
             flattened_children[f.name] = cast(Scope, getattr(child_cls, SERDE_SCOPE))
     return flattened_children
 
@@ -1747,8 +1753,11 @@ def render_from_dict(
         field.iterbased = False
         field.index = 0
         field.data = "fake_dict"
-        serde_scope.de_known_fields = {field.conv_name()}
-        serde_scope.de_has_flatten_dict = False
+        # A transparent class is flattened as the class of its field.
+        child = flattened_class(dataclasses.replace(field, flatten=FlattenOpts()))
+        child_scope: Scope | None = getattr(child, SERDE_SCOPE, None)
+        serde_scope.de_known_fields = child_scope.de_known_fields if child_scope else set()
+        serde_scope.de_has_flatten_dict = bool(child_scope and child_scope.de_has_flatten_dict)
         res = jinja2_env.get_template("transparent_dict").render(
             func=FROM_DICT,
             serde_scope=serde_scope,
diff --git a/serde/se.py b/serde/se.py
index 1c96f33..1da73ac 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -85,6 +85,7 @@ from .core import (
     get_transparent_field,
     strict,
     fields,
+    flattened_class,
     is_instance,
     logger,
     str_literal,
@@ -316,7 +317,7 @@ def serialize(
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
-        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g, serialize_class_var)
+        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
         add_func(
             scope,
@@ -648,15 +649,9 @@ def sefields(cls: type[Any], serialize_class_var: bool = False) -> Iterator[SeFi
         yield f
 
 
-def add_field_serializers_to_scope(
-    sfields: Iterator[SeField[Any]], g: dict[str, Any], serialize_class_var: bool = False
-) -> None:
+def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
     """
     Register custom field serializers and skip_if predicates in the generated globals.
-
-    A flattened dataclass field is rendered inline in the enclosing class's serialize
-    function, so the custom serializers and skip_if predicates of its inner fields must
-    be available in this scope too, not only those of the top-level fields (#453).
     """
     for f in sfields:
         if f.skip_if:
@@ -665,12 +660,6 @@ def add_field_serializers_to_scope(
             g[f.skip_if_default_func.name] = f.skip_if_default_func
         if f.serializer:
             g[f.serializer.name] = f.serializer
-        if f.flatten:
-            inner = f[0] if is_opt(f.type) else f
-            if is_dataclass(inner.type):
-                add_field_serializers_to_scope(
-                    sefields(inner.type, serialize_class_var), g, serialize_class_var
-                )
 
 
 jinja2_env = jinja2.Environment(
@@ -696,8 +685,13 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
       if __k not in res:
         res[__k] = __v
   {% else -%}
+  {% if flattened_class(f) -%}
+  if subres is None:  # Flattened optional
+    pass
+  {% else -%}
   if subres is None and (skip_none or {{f.skip_if_none|default(False, true)}}):
     pass
+  {% endif -%}
   {% if f.skip_if_default_func -%}
   elif {{f.skip_if_default_func.name}}({{f.varname}}, subres):
     pass
@@ -707,7 +701,11 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     pass
   {% endif -%}
   else:
+    {% if flattened_class(f) -%}
+    res.update(subres)
+    {% else -%}
     {{lvalue(f)}} = subres
+    {% endif %}
   {% endif -%}
   {% endif %}
 
@@ -740,7 +738,7 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
   return (
   {% for f in fields -%}
   {% if not (f.skip|default(False) or f.skip_serializing|default(False)) %}
-  {{rvalue(f)}},
+  {{ "*" if flattened_class(f) else "" }}({{rvalue(f)}}),
   {% endif -%}
   {% endfor -%}
   )
@@ -825,6 +823,7 @@ def render_to_tuple(
             serde_scope=serde_scope,
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
+            flattened_class=flattened_class,
             rvalue=renderer.render,
         )
 
@@ -865,6 +864,7 @@ def render_to_dict(
             serde_scope=serde_scope,
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
+            flattened_class=flattened_class,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
         )
@@ -918,27 +918,12 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
-        elif is_flatten_dict(arg.type) and arg.flatten:
+        if is_flatten_dict(arg.type) and arg.flatten:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
         return f"res[{str_literal(arg.conv_name(self.case))}]"
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1062,17 +1047,10 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
-            flattened = []
-            for f in sefields(arg.type, self.serialize_class_var):
-                f.parent = arg
-                flattened.append(self.render(f))
-            return ", ".join(flattened)
-        else:
-            return (
-                f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
-                "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
-            )
+        return (
+            f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
+            "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
+        )
 
     def opt(self, arg: SeField[Any]) -> str:
         """
@@ -1083,10 +1061,7 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
-            return self.render(inner)
-        else:
-            return f"({self.render(inner)}) if {arg.varname} is not None else None"
+        return f"({self.render(inner)}) if {arg.varname} is not None else None"
 
     def list(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From cfe4439969aa0da3b9cf16c0f4bb2894e4a8bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 28/57] fix: an undecorated dataclass derived from a serde
 class lost its own fields depending on what was used before

---
 serde/core.py | 18 +++++++++++++-----
 serde/de.py   |  3 ++-
 serde/se.py   | 21 ++++++++++++++++++++-
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 83cc4d9..2591fab 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -299,11 +299,11 @@ GENERATED_NAMES = frozenset(
     BeartypeCallHintParamViolation Literal SerdeError TypeCheck UserError bool class_deserializers
     class_serializers cls coerce_object collections convert_sets copy data deserialize_enum
     deserialize_numbers dict disabled ensure enum_value errors fake_data fake_dict float frozenset
-    from_obj func get_generic_arg int is_bearable is_dataclass is_instance is_union_member
-    isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars numpy obj repr
-    res reuse_instances serde_legacy_custom_class_deserializer
-    serde_legacy_custom_class_serializer serde_scope set skip_none str subres to_obj tuple type
-    typename typing union_args unknown_fields v variable_type_args
+    from_obj func get_generic_arg int is_bearable is_dataclass is_dataclass_without_se is_instance
+    is_union_member isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars
+    numpy obj repr res reuse_instances serde_legacy_custom_class_deserializer
+    serde_legacy_custom_class_serializer serde_scope serialize set skip_none str subres to_obj tuple
+    type typename typing union_args unknown_fields v variable_type_args
     """.split()
 )
 """ Names used by the generated functions """
@@ -976,6 +976,14 @@ def fields(
     return fields  # type: ignore
 
 
+def is_derived_dataclass(cls: Any, scope: Scope) -> bool:
+    """
+    Test if the class is a dataclass of its own that got the scope from one of its base classes.
+    """
+    typ = cls if isinstance(cls, type) else type(cls)
+    return scope.cls is not typ and "__dataclass_fields__" in vars(typ)
+
+
 def get_transparent_field(cls: type[Any]) -> Field[Any]:
     """
     Return the single "transparent" field for `cls`.
diff --git a/serde/de.py b/serde/de.py
index 4b9262d..8685d5f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -87,6 +87,7 @@ from .core import (
     deserialize_enum,
     strict,
     get_transparent_field,
+    is_derived_dataclass,
     has_default,
     has_default_factory,
     ensure,
@@ -470,7 +471,7 @@ def is_dataclass_without_de(cls: type[Any]) -> bool:
     if not hasattr(cls, SERDE_SCOPE):
         return True
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
-    if not scope:
+    if not scope or is_derived_dataclass(cls, scope):
         return True
     return FROM_DICT not in scope.funcs
 
diff --git a/serde/se.py b/serde/se.py
index 1da73ac..e18065b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -83,6 +83,7 @@ from .core import (
     coerce_object,
     disabled,
     get_transparent_field,
+    is_derived_dataclass,
     strict,
     fields,
     flattened_class,
@@ -282,6 +283,8 @@ def serialize(
         g["SerdeError"] = SerdeError
         g["enum_value"] = enum_value
         g["is_dataclass"] = is_dataclass
+        g["is_dataclass_without_se"] = is_dataclass_without_se
+        g["serialize"] = serialize
         g["typename"] = typename  # used in union functions
         g["is_union_member"] = is_union_member  # used in union functions
         g["to_obj"] = to_obj
@@ -382,7 +385,7 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     if not hasattr(cls, SERDE_SCOPE):
         return True
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
-    if not scope:
+    if not scope or is_derived_dataclass(cls, scope):
         return True
     return TO_DICT not in scope.funcs
 
@@ -673,6 +676,9 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     convert_sets = {{serde_scope.convert_sets_default}}
   if not is_dataclass(obj):
     return copy.deepcopy(obj)
+  if type(obj) is not cls and is_dataclass_without_se(obj):
+    serialize(type(obj), type_check=disabled)
+    return obj.{{serde_scope_name}}.funcs["{{func}}"](obj, reuse_instances, convert_sets, skip_none)
 
   res = {}
   {% for f in fields -%}
@@ -720,6 +726,9 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     convert_sets = {{serde_scope.convert_sets_default}}
   if not is_dataclass(obj):
     return copy.deepcopy(obj)
+  if type(obj) is not cls and is_dataclass_without_se(obj):
+    serialize(type(obj), type_check=disabled)
+    return obj.{{serde_scope_name}}.funcs["{{func}}"](obj, reuse_instances, convert_sets, skip_none)
 
   res = {{rvalue(field)}}
   if skip_none and res is None:
@@ -734,6 +743,9 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
     convert_sets = {{serde_scope.convert_sets_default}}
   if not is_dataclass(obj):
     return copy.deepcopy(obj)
+  if type(obj) is not cls and is_dataclass_without_se(obj):
+    serialize(type(obj), type_check=disabled)
+    return obj.{{serde_scope_name}}.funcs["{{func}}"](obj, reuse_instances, convert_sets, skip_none)
 
   return (
   {% for f in fields -%}
@@ -751,6 +763,9 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
     convert_sets = {{serde_scope.convert_sets_default}}
   if not is_dataclass(obj):
     return copy.deepcopy(obj)
+  if type(obj) is not cls and is_dataclass_without_se(obj):
+    serialize(type(obj), type_check=disabled)
+    return obj.{{serde_scope_name}}.funcs["{{func}}"](obj, reuse_instances, convert_sets, skip_none)
 
   res = {{rvalue(field)}}
   if skip_none and res is None:
@@ -813,6 +828,7 @@ def render_to_tuple(
         return jinja2_env.get_template("transparent_iter").render(
             func=TO_ITER,
             serde_scope=serde_scope,
+            serde_scope_name=SERDE_SCOPE,
             field=transparent[0],
             type_check=type_check,
             rvalue=renderer.render,
@@ -821,6 +837,7 @@ def render_to_tuple(
         return jinja2_env.get_template("iter").render(
             func=TO_ITER,
             serde_scope=serde_scope,
+            serde_scope_name=SERDE_SCOPE,
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
             flattened_class=flattened_class,
@@ -853,6 +870,7 @@ def render_to_dict(
         return jinja2_env.get_template("transparent_dict").render(
             func=TO_DICT,
             serde_scope=serde_scope,
+            serde_scope_name=SERDE_SCOPE,
             field=transparent[0],
             type_check=type_check,
             lvalue=lrenderer.render,
@@ -862,6 +880,7 @@ def render_to_dict(
         return jinja2_env.get_template("dict").render(
             func=TO_DICT,
             serde_scope=serde_scope,
+            serde_scope_name=SERDE_SCOPE,
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
             flattened_class=flattened_class,
-- 
2.43.0


From eba3499161151acc8abcbac8a410364a341df881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 29/57] fix: legacy class deserializers were called with None
 for absent fields

---
 serde/de.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 8685d5f..a9a230c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1085,21 +1085,19 @@ class Renderer:
         else:
             raise SerdeError(f"Unsupported type: {typename(arg.type)}")
 
-        if arg.supports_default():
-            res = self.default(arg, res)
-
         if (
             self.legacy_class_deserializer
             and not arg.deserializer
             and not custom_deserializer_available
         ):
             # Rerender the code for default deserializer.
-            default = Renderer(
-                self.func, self.cls, None, suppress_coerce=self.suppress_coerce
-            ).render(arg)
-            return self.custom_class_deserializer(arg, default)
-        else:
-            return res
+            default = dataclasses.replace(self, legacy_class_deserializer=None).render(arg)
+            res = self.custom_class_deserializer(arg, default)
+
+        if arg.supports_default():
+            res = self.default(arg, res)
+
+        return res
 
     def custom_field_deserializer(self, arg: DeField[Any]) -> str:
         """
@@ -1113,12 +1111,15 @@ class Renderer:
         """
         Render custom class deserializer.
         """
+        # Only an optional or flattened field may be absent.
+        value = arg.data_or() if is_opt(arg.type) or arg.flatten else arg.data
+
         # The function takes a closure in order to execute the default value lazily.
         return (
             "serde_legacy_custom_class_deserializer("
             f"{self.type_name(arg.type)}, "
             f"{arg.datavar}, "
-            f"{arg.data_or()}, "
+            f"{value}, "
             f"default=lambda: {code})"
         )
 
-- 
2.43.0


From d972510fc65c0ac039463ce96a9435d8e5371bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 30/57] fix: class deserializers were not applied to int and
 float keys of mappings

---
 serde/de.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a9a230c..40ebf94 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -994,9 +994,9 @@ class Renderer:
     class_deserializer: ClassDeserializer | None = None
     class_name: str | None = None
 
-    def render(self, arg: DeField[Any]) -> str:
+    def implemented_methods(self) -> dict[type[Any], int]:
         """
-        Render rvalue
+        Types handled by the custom class deserializers and the index of their deserializer.
         """
         implemented_methods: dict[type[Any], int] = {}
         class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
@@ -1005,7 +1005,13 @@ class Renderer:
         for n, class_deserializer in enumerate(class_deserializers):
             for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
                 implemented_methods[get_args(method.signature.types[1])[0]] = n
+        return implemented_methods
 
+    def render(self, arg: DeField[Any]) -> str:
+        """
+        Render rvalue
+        """
+        implemented_methods = self.implemented_methods()
         custom_deserializer_available = arg.type in implemented_methods
         if custom_deserializer_available and not arg.deserializer:
             res = (
@@ -1264,6 +1270,7 @@ class Renderer:
             and issubclass(typ, (int, float))
             and not issubclass(typ, bool)
             and not is_enum(typ)
+            and arg.type not in self.implemented_methods()
         ):
             return f'coerce_object("{self.class_name}", "k", {self.type_name(typ)}, {arg.data})'
         return self.render(arg)
-- 
2.43.0


From d1099738e81c84581a9aa952efa72f0b7207421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 31/57] fix: class (de)serializers were not applied to the
 members of unions

---
 serde/de.py | 19 +++++++++++++++----
 serde/se.py | 17 ++++++++++++++---
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 40ebf94..6294434 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -389,7 +389,12 @@ def deserialize(
             union_args = type_args(union)
             union_key = scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args)
             scope.union_de_args[union_key] = union_args
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            add_func(
+                scope,
+                union_key,
+                render_union_func(cls, union_args, tagging, class_deserializer),
+                g,
+            )
 
         # render literal functions
         for literal in iter_literals(cls):
@@ -1813,11 +1818,17 @@ def render_from_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: Sequence[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_deserializer: ClassDeserializer | None = None,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
-    renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    renderer = Renderer(
+        FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
+    )
+    implemented_methods = renderer.implemented_methods()
     serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("union").render(
         func=serde_scope.func_name(union_func_name(UNION_DE_PREFIX, union_args), union_args),
@@ -1830,7 +1841,7 @@ def render_union_func(
         is_taggable=Tagging.is_taggable,
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
-        is_primitive=is_primitive,
+        is_primitive=lambda t: is_primitive(t) and t not in implemented_methods,
         is_enum=is_enum,
         is_none=is_none,
         has_none=any(is_none(t) for t in union_args),
diff --git a/serde/se.py b/serde/se.py
index e18065b..a25dccc 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -317,7 +317,9 @@ def serialize(
         for union in iter_unions(cls):
             union_args = list(type_args(union))
             union_key = scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args)
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            add_func(
+                scope, union_key, render_union_func(cls, union_args, tagging, class_serializer), g
+            )
             scope.union_se_args[union_key] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
@@ -901,13 +903,22 @@ def is_union_member(obj: Any, index: int, union_args: list[Any]) -> bool:
 
 
 def render_union_func(
-    cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: list[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_serializer: ClassSerializer | None = None,
 ) -> str:
     """
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls), cls=cls)
+    renderer = Renderer(
+        TO_DICT,
+        suppress_coerce=True,
+        class_serializer=class_serializer,
+        class_name=typename(cls),
+        cls=cls,
+    )
     serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("union").render(
         func=serde_scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args),
-- 
2.43.0


From 1e1dd4e6e144ee66bf3a173c18c474dd1f8ad25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 32/57] fix: a value given directly used the first instead of
 the last registered global (de)serializer of its type

---
 serde/de.py | 2 +-
 serde/se.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 6294434..b3ce03b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -509,7 +509,7 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
     (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
diff --git a/serde/se.py b/serde/se.py
index a25dccc..1e20093 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -400,7 +400,7 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
-- 
2.43.0


From ccee706f3f36615ef26f95f302f92e692be52671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 33/57] fix: global (de)serializers were ignored for unions
 given directly before their registration

---
 serde/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 2591fab..ef9a765 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1408,11 +1408,15 @@ def add_serializer(serializer: ClassSerializer) -> None:
     """
     Register custom global serializer.
     """
-    GLOBAL_CLASS_SERIALIZER.append(serializer)
+    with GENERATION:
+        GLOBAL_CLASS_SERIALIZER.append(serializer)
+        CACHE.classes.clear()
 
 
 def add_deserializer(deserializer: ClassDeserializer) -> None:
     """
     Register custom global deserializer.
     """
-    GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+    with GENERATION:
+        GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+        CACHE.classes.clear()
-- 
2.43.0


From 529b8698472d5bc69095e083310dfa9ef349c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 34/57] fix: a global deserializer was skipped for data that
 already was of its type

---
 serde/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index b3ce03b..713aa63 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -597,7 +597,7 @@ def _from_obj(
 
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
-    if type(o) is c:
+    if type(o) is c and find_global_class_deserializer(c) is None:
         return o
 
     def deserializable_to_obj(cls: type[T]) -> T:
-- 
2.43.0


From f98acf4cc62daa1426c3ed7c0aed42066a3691c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 35/57] fix: a field of type None accepted any value

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 713aa63..7f3491b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1074,7 +1074,8 @@ class Renderer:
             res = f"({arg.data} if isinstance({arg.data}, {typ}) else {from_iso}) \
                     if reuse_instances else {from_iso}"
         elif is_none(arg.type):
-            res = "None"
+            value = arg.data if isinstance(arg, InnerField) else arg.data_or()
+            res = f'ensure({value} is None, "value is not None")'
         elif is_any(arg.type) or is_ellipsis(arg.type):
             res = arg.data
         elif is_pep695_type_alias(arg.type):
-- 
2.43.0


From 307e505acfcd455042915d0770247116fbeffce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 36/57] fix: do not apply @dataclass again to a dataclass with
 a ClassVar or KW_ONLY

---
 serde/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index ef9a765..983f24f 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1221,6 +1221,10 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return True
 
+    # @dataclass has been applied to the class itself.
+    if "__dataclass_fields__" in cls.__dict__:
+        return False
+
     # Checking is_dataclass is not enough in such a case that the class is inherited
     # from another dataclass. To do it correctly, check if all fields in __annotations__
     # are present as dataclass fields.
-- 
2.43.0


From b395cf2d58a260a2b2fe81ec9cc18ac3d757610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 37/57] fix: refuse a transparent class whose field is skipped
 in one direction

---
 serde/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 983f24f..61f6e3b 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -996,7 +996,11 @@ def get_transparent_field(cls: type[Any]) -> Field[Any]:
     def fully_skipped(f: Field[Any]) -> bool:
         return bool(f.skip or (f.skip_serializing and f.skip_deserializing))
 
-    candidates = [f for f in all_fields if f.init and not fully_skipped(f)]
+    candidates = [
+        f
+        for f in all_fields
+        if f.init and not (f.skip or f.skip_serializing or f.skip_deserializing)
+    ]
     if len(candidates) != 1:
         raise SerdeError(
             f"{typename(cls)} with `transparent=True` must have exactly one init=True, "
-- 
2.43.0


From a4cdd6d0ff8fdfb4acfdf60c9d90dca5c9ef7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 38/57] fix: keep the cause and context of an exception raised
 by user code

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 7f3491b..831fe20 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -569,7 +569,9 @@ def from_obj(
     try:
         return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
     except UserError as e:
-        raise e.inner from None
+        user_exception = e.inner
+    # Outside of the handler, so that the cause and the context of the exception are left alone.
+    raise user_exception
 
 
 def _from_obj(
-- 
2.43.0


From 4727f730dd007a5f5d27b8b2e03c91ab950e0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 39/57] fix: an exception of a default factory reaches the
 caller

---
 serde/de.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 831fe20..9103d18 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -167,6 +167,16 @@ def _get_by_aliases(d: dict[str, str], aliases: list[str], raise_error: bool = T
         return _get_by_aliases(d, aliases[1:], raise_error=raise_error)
 
 
+def _call_factory(factory: Callable[[], Any]) -> Any:
+    """
+    Call the default factory of a field. It is user code just as `__post_init__` is.
+    """
+    try:
+        return factory()
+    except Exception as e:
+        raise UserError(e) from e
+
+
 def _exists_by_aliases(d: dict[str, str], aliases: list[str]) -> bool:
     for alias in aliases:
         if alias in d:
@@ -341,6 +351,7 @@ def deserialize(
         g["serde_scope"] = scope
         g["SerdeError"] = SerdeError
         g["UserError"] = UserError
+        g["_call_factory"] = _call_factory
         g["typename"] = typename
         g["ensure"] = ensure
         g["typing"] = typing
@@ -1376,7 +1387,7 @@ class Renderer:
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
         elif has_default_factory(arg):
-            return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]()'
+            return f'({code}) if {exists} else _call_factory(serde_scope.defaults["{arg.name}"])'
         else:
             return code
 
-- 
2.43.0


From dc31c3a95312045388d6d81dbd2c4221a22e604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 40/57] fix: class variables of enum, plain dataclass and union
 types are serialized

---
 serde/se.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index 1e20093..38da4a7 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -299,8 +299,14 @@ def serialize(
                 serde_legacy_custom_class_serializer, custom=serializer
             )
 
+        # Class variables are not the fields of the dataclass.
+        sources: list[Any] = [cls]
+        for f in sefields(cls, serialize_class_var):
+            if is_class_var(f.type):
+                sources.extend(type_args(f.type))
+
         # Collect types used in the generated code.
-        for typ in iter_types(cls):
+        for typ in itertools.chain.from_iterable(iter_types(source) for source in sources):
             # When we encounter a dataclass not marked with serialize, then also generate serialize
             # functions for it.
             if is_dataclass_without_se(typ) and typ is not cls:
@@ -314,7 +320,7 @@ def serialize(
             scope.bind_type(typ, g)
 
         # render all union functions
-        for union in iter_unions(cls):
+        for union in itertools.chain.from_iterable(iter_unions(source) for source in sources):
             union_args = list(type_args(union))
             union_key = scope.func_name(union_func_name(UNION_SE_PREFIX, union_args), union_args)
             add_func(
-- 
2.43.0


From bd599fc7f830950c75be31fb447965e5e7a7025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 41/57] fix: an enum member of a nested sequence is identified
 after a format

---
 serde/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 61f6e3b..dd70220 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1314,8 +1314,9 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
 def _is_serialized_enum_value(member_value: Any, value: Any) -> bool:
     while isinstance(member_value, enum.Enum):
         member_value = member_value.value
-    if isinstance(value, list) and isinstance(member_value, tuple):
-        return list(member_value) == value
+    if isinstance(value, (list, tuple)) and isinstance(member_value, (list, tuple)):
+        # Formats have a single kind of sequence.
+        return bool(_as_lists(member_value) == _as_lists(value))
     if isinstance(value, str) and isinstance(member_value, bool):
         return str(member_value).lower() == value.lower()
     if isinstance(value, str) and isinstance(member_value, (int, float)):
@@ -1323,6 +1324,10 @@ def _is_serialized_enum_value(member_value: Any, value: Any) -> bool:
     return bool(member_value == value)
 
 
+def _as_lists(value: Any) -> Any:
+    return [_as_lists(v) for v in value] if isinstance(value, (list, tuple)) else value
+
+
 def coerce_object(cls: str, field: str, typ: type[Any], obj: Any) -> Any:
     if obj is None:
         raise SerdeError(
-- 
2.43.0


From 8a5ec2b1e1b1440a3aaa8f9312ca11f2a3a22869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 42/57] fix: apply the numeric leniency of JSON and YAML to
 NewTypes of float

---
 serde/de.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 9103d18..38e07bd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1309,7 +1309,10 @@ class Renderer:
         """
         typ = self.type_name(arg.type)
         dat = arg.data
-        if isinstance(arg.type, type) and issubclass(arg.type, float):
+        primitive = arg.type
+        while hasattr(primitive, "__supertype__"):  # NewType
+            primitive = primitive.__supertype__
+        if isinstance(primitive, type) and issubclass(primitive, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
             else:
-- 
2.43.0


From 5dc6cfa0e4601ff2a86074a2fab522e21331a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 43/57] fix: use the type arguments of a generic class in every
 position

---
 serde/compat.py | 79 ++++++++++++++++++++++++++++++++++++++++++++++++-
 serde/core.py   |  7 +++--
 serde/de.py     | 69 ++++++++++++++++++++++++------------------
 3 files changed, 124 insertions(+), 31 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 9cfa575..860d9c2 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -2,6 +2,7 @@
 Compatibility layer which handles mostly differences of `typing` module between python versions.
 """
 
+import copy
 import dataclasses
 import datetime
 import decimal
@@ -330,7 +331,83 @@ def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ig
             if is_generic(real_type) and _is_sqlalchemy_inspectable(cls):
                 f.type = get_args(real_type)[0]
 
-    return iter(raw_fields)
+    return (_inherited_field(cls, f) for f in raw_fields)
+
+
+def _inherited_field(cls: type[Any], f: dataclasses.Field) -> dataclasses.Field:  # type: ignore
+    """
+    Replace the type variables in a field inherited from a generic class with the type arguments
+    given to that class. The field object is shared with the base class, so it's not modified.
+    """
+    if not has_generic_base(cls) or not (isinstance(f.type, TypeVar) or _type_vars(f.type)):
+        return f
+    owner = next((c for c in cls.__mro__ if f.name in c.__dict__.get("__annotations__", {})), cls)
+    if owner is cls:
+        return f
+    f = copy.copy(f)
+    f.type = replace_type_vars(f.type, _base_type_args(cls, owner))
+    return f
+
+
+def _base_type_args(cls: type[Any], base: type[Any]) -> dict[Any, Any]:
+    """
+    Get the types which `cls` gives to the type variables of `base`.
+    """
+    if cls is base:
+        return {p: p for p in _type_vars(cls)}
+    for b in cls.__dict__.get("__orig_bases__", cls.__bases__):
+        origin = get_origin(b) or b
+        if origin is not Generic and isinstance(origin, type) and issubclass(origin, base):
+            given = dict(zip(_type_vars(origin), get_args(b), strict=False))
+            args = _base_type_args(origin, base)
+            return {p: replace_type_vars(typ, given) for p, typ in args.items()}
+    return {}
+
+
+def _type_vars(typ: Any) -> tuple[Any, ...]:
+    """
+    Get the type variables of a generic class, or the ones not yet replaced in a type.
+    """
+    type_vars = getattr(typ, "__parameters__", ())
+    return type_vars if isinstance(type_vars, tuple) else ()
+
+
+def replace_type_vars(typ: Any, args: dict[Any, Any]) -> Any:
+    """
+    Replace the type variables in `typ`. A type variable that is not in `args` becomes Any.
+
+    >>> T = typing.TypeVar('T')
+    >>> replace_type_vars(T, {T: int})
+    <class 'int'>
+    >>> replace_type_vars(list[T], {T: int})
+    list[int]
+    >>> replace_type_vars(list[T], {})
+    list[typing.Any]
+    """
+    if isinstance(typ, TypeVar):
+        return args.get(typ, Any)
+    type_vars = _type_vars(typ)
+    if not type_vars or isinstance(typ, type) and not get_args(typ):
+        return typ
+    return typ[tuple(args.get(p, Any) for p in type_vars)]
+
+
+def resolve_type_vars(typ: Any, cls: type[Any], maybe_generic: Any) -> Any:
+    """
+    Replace the type variables of the generic class `cls` in `typ` with the type arguments in
+    `maybe_generic`, which is `cls` with type arguments such as `Foo[int]`, or anything else if
+    there aren't any.
+
+    >>> T = typing.TypeVar('T')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> resolve_type_vars(T, GenericFoo, GenericFoo[int])
+    <class 'int'>
+    >>> resolve_type_vars(T, GenericFoo, GenericFoo)
+    typing.Any
+    """
+    args = get_args(maybe_generic) if get_origin(maybe_generic) is cls else ()
+    return replace_type_vars(typ, dict(zip(_type_vars(cls), args, strict=False)))
 
 
 TypeLike = Union[type[Any], typing.Any]
diff --git a/serde/core.py b/serde/core.py
index dd70220..c785ba1 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -301,7 +301,7 @@ GENERATED_NAMES = frozenset(
     deserialize_numbers dict disabled ensure enum_value errors fake_data fake_dict float frozenset
     from_obj func get_generic_arg int is_bearable is_dataclass is_dataclass_without_se is_instance
     is_union_member isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars
-    numpy obj repr res reuse_instances serde_legacy_custom_class_deserializer
+    numpy obj repr res resolve_type_vars reuse_instances serde_legacy_custom_class_deserializer
     serde_legacy_custom_class_serializer serde_scope serialize set skip_none str subres to_obj tuple
     type typename typing union_args unknown_fields v variable_type_args
     """.split()
@@ -340,6 +340,9 @@ class Scope:
     union_de_args: dict[str, tuple[type[Any], ...]] = dataclasses.field(default_factory=dict)
     """ The union deserializing functions need references to their types """
 
+    generic_types: list[Any] = dataclasses.field(default_factory=list)
+    """ The types with type variables or type arguments in the generated functions """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict & from_dict arguments """
 
@@ -792,7 +795,7 @@ class Field(Generic[T]):
     deserializer: Func | None = None  # Custom field deserializer.
     flatten: FlattenOpts | None = None
     parent: Any | None = None
-    type_args: list[str] | None = None
+    generic: Any | None = None  # Generic class with the type arguments e.g. Foo[int].
 
     @classmethod
     def from_dataclass(
diff --git a/serde/de.py b/serde/de.py
index 38e07bd..f44020f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,11 +25,8 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
-    find_generic_arg,
     get_args,
-    get_generic_arg,
     get_origin,
-    get_type_var_names,
     is_any,
     is_bare_counter,
     is_bare_deque,
@@ -63,6 +60,7 @@ from .compat import (
     iter_types,
     iter_unions,
     primitive_base,
+    resolve_type_vars,
     type_args,
     typename,
 )
@@ -358,7 +356,7 @@ def deserialize(
         g["collections"] = collections
         g["Literal"] = Literal
         g["from_obj"] = _from_obj
-        g["get_generic_arg"] = get_generic_arg
+        g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
@@ -591,10 +589,13 @@ def _from_obj(
     named: bool,
     reuse_instances: bool | None,
     deserialize_numbers: Callable[[str | int], float] | None = None,
+    suppress_coerce: bool = False,
 ) -> T:
     """
     Implementation of `from_obj`. An exception raised by the user code is kept in `UserError`, so
     that it gets through the enclosing conversions.
+
+    * `suppress_coerce`: Reject a value that is not of the primitive type, instead of converting it
     """
 
     res: Any
@@ -648,6 +649,7 @@ def _from_obj(
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
+            suppress_coerce=suppress_coerce,
         )
         # Numeric keys may be stringified by the format, so they are not subject to the rule for
         # the numbers.
@@ -716,6 +718,9 @@ def _from_obj(
             res = deserialize_numpy_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
+        elif suppress_coerce and is_primitive(c) and not is_primitive_subclass(c):
+            res = deserialize_numbers(o) if c is float and deserialize_numbers else o
+            ensure(isinstance(res, c), f"{res!r} is not of type {typename(c)}")
         elif isinstance(c, type) and issubclass(c, float):
             res = c(deserialize_numbers(o)) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
@@ -1009,6 +1014,8 @@ class Renderer:
     import_numpy: bool = False
     suppress_coerce: bool = False
     """ Disable type coercing in codegen """
+    strict: bool = False
+    """ Check the types of the values """
     class_deserializer: ClassDeserializer | None = None
     class_name: str | None = None
 
@@ -1039,7 +1046,7 @@ class Renderer:
         elif arg.deserializer and arg.deserializer.inner is not default_deserializer:
             res = self.custom_field_deserializer(arg)
         elif is_generic(arg.type):
-            arg.type_args = list(get_args(arg.type))
+            arg.generic = arg.type
             origin = get_origin(arg.type)
             assert origin
             arg.type = origin
@@ -1097,14 +1104,7 @@ class Renderer:
             # For subclasses for primitives e.g. class FooStr(str), coercing is always enabled
             res = self.primitive(arg, not is_primitive_subclass(arg.type))
         elif isinstance(arg.type, TypeVar):
-            if not self.cls:
-                raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
-            res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
-                "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
-            )
+            res = self.type_var(arg, suppress_coerce=self.strict)
         elif is_literal(arg.type):
             res = self.literal(arg)
         else:
@@ -1161,11 +1161,11 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        maybe_generic = self.generic_type(arg.generic) if arg.generic else "maybe_generic"
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"maybe_generic={maybe_generic}, maybe_generic_type_vars=maybe_generic_type_vars, "
+            "variable_type_args=None, reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
@@ -1176,6 +1176,27 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
+    def type_var(self, arg: DeField[Any], suppress_coerce: bool) -> str:
+        """
+        Render rvalue for a type variable of a generic class.
+        """
+        if not self.cls:
+            raise SerdeError("Missing cls")
+        return (
+            f"from_obj({self.generic_type(arg.type)}, {arg.data}, named={not arg.iterbased}, "
+            "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers, "
+            f"suppress_coerce={suppress_coerce})"
+        )
+
+    def generic_type(self, typ: Any) -> str:
+        """
+        Render `typ` with its type variables replaced by the type arguments given to the class.
+        """
+        scope: Scope = getattr(self.cls, SERDE_SCOPE)
+        scope.generic_types.append(typ)
+        index = len(scope.generic_types) - 1
+        return f"resolve_type_vars(serde_scope.generic_types[{index}], cls, maybe_generic)"
+
     def opt(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for Optional.
@@ -1292,6 +1313,8 @@ class Renderer:
             and arg.type not in self.implemented_methods()
         ):
             return f'coerce_object("{self.class_name}", "k", {self.type_name(typ)}, {arg.data})'
+        if isinstance(typ, TypeVar):
+            return self.type_var(arg, suppress_coerce=False)
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1474,8 +1497,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if data is None:
     raise SerdeError("None can not be deserialized into {{class_name}}")
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   {% for f in fields %}
   __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
@@ -1504,8 +1525,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   fake_data = (data,)
   __{{field.name}} = {{rvalue(field)}}
 
@@ -1537,8 +1556,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     raise SerdeError(f'unknown fields: {unknown_fields}, expected one of {known_fields}')
   {% endif %}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   {% if has_flatten_dict %}
   _flatten_known_fields = {{ known_fields }}
   _flatten_extra = {k: v for k, v in data.items() if k not in _flatten_known_fields}
@@ -1598,8 +1615,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   fake_dict = {"__serde_transparent__": data}
   __{{field.name}} = {{rvalue(field)}}
 
@@ -1686,6 +1701,7 @@ def render_from_iter(
         cls=cls,
         legacy_class_deserializer=legacy_class_deserializer,
         suppress_coerce=(not type_check.is_coerce()),
+        strict=type_check.is_strict(),
         class_deserializer=class_deserializer,
         class_name=typename(cls),
     )
@@ -1701,7 +1717,6 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             field=field,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1712,7 +1727,6 @@ def render_from_iter(
             fields=[f for f in fields if f.name in positions],
             positions=positions,
             class_name=typename(cls),
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
         )
@@ -1773,6 +1787,7 @@ def render_from_dict(
         cls=cls,
         legacy_class_deserializer=legacy_class_deserializer,
         suppress_coerce=(not type_check.is_coerce()),
+        strict=type_check.is_strict(),
         class_deserializer=class_deserializer,
         class_name=typename(cls),
     )
@@ -1794,7 +1809,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             field=field,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1816,7 +1830,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             fields=fields,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             class_name=typename(cls),
             rvalue=renderer.render,
             arg=functools.partial(to_arg, rename_all=rename_all),
-- 
2.43.0


From 5a00f7280ee313379ffc397bc06ebd92b2c5c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 44/57] fix: convert the arguments of generic classes in
 tuples, mapping keys, optional and plain classes

---
 serde/compat.py |  3 +++
 serde/core.py   |  2 +-
 serde/de.py     | 23 +++++++++++++++--------
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 860d9c2..f7c0705 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -479,6 +479,9 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
                 recursive(args[1])
         elif is_pep695_type_alias(cls):
             recursive(cls.__value__)
+        elif is_generic(cls):
+            add(cls)
+            recursive(get_origin(cls))
         else:
             add(cls)
 
diff --git a/serde/core.py b/serde/core.py
index c785ba1..f6b92d0 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -300,7 +300,7 @@ GENERATED_NAMES = frozenset(
     class_serializers cls coerce_object collections convert_sets copy data deserialize_enum
     deserialize_numbers dict disabled ensure enum_value errors fake_data fake_dict float frozenset
     from_obj func get_generic_arg int is_bearable is_dataclass is_dataclass_without_se is_instance
-    is_union_member isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars
+    is_opt is_union_member isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars
     numpy obj repr res resolve_type_vars reuse_instances serde_legacy_custom_class_deserializer
     serde_legacy_custom_class_serializer serde_scope serialize set skip_none str subres to_obj tuple
     type typename typing union_args unknown_fields v variable_type_args
diff --git a/serde/de.py b/serde/de.py
index f44020f..e6b8cc5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -358,6 +358,7 @@ def deserialize(
         g["from_obj"] = _from_obj
         g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
+        g["is_opt"] = is_opt
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
         g["coerce_object"] = coerce_object
@@ -1104,7 +1105,7 @@ class Renderer:
             # For subclasses for primitives e.g. class FooStr(str), coercing is always enabled
             res = self.primitive(arg, not is_primitive_subclass(arg.type))
         elif isinstance(arg.type, TypeVar):
-            res = self.type_var(arg, suppress_coerce=self.strict)
+            res = self.type_var(arg)
         elif is_literal(arg.type):
             res = self.literal(arg)
         else:
@@ -1176,17 +1177,23 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
-    def type_var(self, arg: DeField[Any], suppress_coerce: bool) -> str:
+    def type_var(self, arg: DeField[Any], key: bool = False) -> str:
         """
         Render rvalue for a type variable of a generic class.
+
+        * `key`: Render a dict key, whose number may be stringified by the format
         """
         if not self.cls:
             raise SerdeError("Missing cls")
-        return (
-            f"from_obj({self.generic_type(arg.type)}, {arg.data}, named={not arg.iterbased}, "
-            "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers, "
-            f"suppress_coerce={suppress_coerce})"
-        )
+        typ = self.generic_type(arg.type)
+        opts = "reuse_instances=reuse_instances"
+        if not key:
+            opts += f", deserialize_numbers=deserialize_numbers, suppress_coerce={self.strict}"
+        res = f"from_obj({typ}, {arg.data}, named={self.func == FROM_DICT}, {opts})"
+        if key or arg.iterbased or isinstance(arg, InnerField):
+            return res
+        # The field may be absent if the type argument is Optional.
+        return f"(None if is_opt({typ}) and {arg.data_or()} is None else {res})"
 
     def generic_type(self, typ: Any) -> str:
         """
@@ -1314,7 +1321,7 @@ class Renderer:
         ):
             return f'coerce_object("{self.class_name}", "k", {self.type_name(typ)}, {arg.data})'
         if isinstance(typ, TypeVar):
-            return self.type_var(arg, suppress_coerce=False)
+            return self.type_var(arg, key=True)
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
-- 
2.43.0


From 5450e1b64b9adc620452c807529ebaa0107588d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 45/57] fix: coerce mode and NewTypes work with subclasses of
 primitive types

---
 serde/compat.py | 2 ++
 serde/de.py     | 3 +++
 serde/se.py     | 6 +++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index f7c0705..31d7e59 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1036,6 +1036,8 @@ def is_primitive_subclass(typ: type[Any]) -> bool:
     >>> is_primitive_subclass(Str)
     True
     """
+    while hasattr(typ, "__supertype__"):
+        typ = typ.__supertype__
     return is_primitive(typ) and typ not in PRIMITIVES and not is_new_type_primitive(typ)
 
 
diff --git a/serde/de.py b/serde/de.py
index e6b8cc5..8353ffd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -386,6 +386,9 @@ def deserialize(
                 # No checks are added to such a class, as when it is passed directly to the API.
                 deserialize(typ, type_check=disabled)
 
+            while hasattr(typ, "__supertype__"):
+                typ = typ.__supertype__
+
             # We don't want to add primitive class e.g "str" into the scope, but primitive
             # compatible types such as IntEnum and a subclass of primitives are added,
             # so that generated code can use those types.
diff --git a/serde/se.py b/serde/se.py
index 38da4a7..34954af 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -54,6 +54,7 @@ from .compat import (
     is_none,
     is_opt,
     is_primitive,
+    is_primitive_subclass,
     is_set,
     is_str_serializable,
     is_str_serializable_instance,
@@ -315,7 +316,10 @@ def serialize(
                 # No checks are added to such a class, as when it is passed directly to the API.
                 serialize(typ, type_check=disabled)
 
-            if is_primitive(typ) and not is_enum(typ):
+            while hasattr(typ, "__supertype__"):
+                typ = typ.__supertype__
+
+            if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
             scope.bind_type(typ, g)
 
-- 
2.43.0


From 90f9e4eaa8ab93f4975837bdcf0ca78b336d3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 46/57] fix: a union member that is a NewType of a NewType can
 be written

---
 serde/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index f6b92d0..dc9ffd7 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -521,10 +521,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
         return any(type(obj) is type(v) and obj == v for v in type_args(typ))
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
-        if type(inner) is type:
-            return isinstance(obj, inner)
-        else:
-            return False
+        return inner is not None and is_instance(obj, inner)
     elif is_any(typ):
         return True
     elif typ is Ellipsis:
-- 
2.43.0


From ecb08c9b36cd185ad59ed78bca567c2013edda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 47/57] fix: declarations do not format the defaults of the
 fields for debug logging

---
 serde/core.py | 2 +-
 serde/de.py   | 2 +-
 serde/se.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dc9ffd7..f2560c8 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -193,7 +193,7 @@ class Cache:
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         data = scope.funcs[TO_DICT](wrapper(obj), **kwargs)
 
-        logging.debug(f"Intermediate value: {data}")
+        logger.debug("Intermediate value: %s", data)
 
         return data["v"]
 
diff --git a/serde/de.py b/serde/de.py
index 8353ffd..4df4e19 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -445,7 +445,7 @@ def deserialize(
             g,
         )
 
-        logger.debug(f"{typename(cls)}: {SERDE_SCOPE} {scope}")
+        logger.debug("%s: %s %s", typename(cls), SERDE_SCOPE, scope)
 
         stack.pop()
         return cls
diff --git a/serde/se.py b/serde/se.py
index 34954af..04007db 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -349,7 +349,7 @@ def serialize(
             g,
         )
 
-        logger.debug(f"{typename(cls)}: {SERDE_SCOPE} {scope}")
+        logger.debug("%s: %s %s", typename(cls), SERDE_SCOPE, scope)
 
         return cls
 
-- 
2.43.0


From 5e9e570999989c3a83529cd471cdf06875341673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 48/57] fix: reading data that is not an extension type with
 ext_dict raises SerdeError

---
 serde/msgpack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index bbee20e..d118424 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -134,6 +134,8 @@ def from_msgpack(
     """
     if ext_dict is not None:
         ext = de.deserialize(s, **opts)
+        if not hasattr(ext, "code"):
+            raise SerdeError(f"Expected an extension type but got {type(ext).__name__}")
         ext_type = ext_dict.get(ext.code)
         if ext_type is None:
             raise SerdeError(f"Could not find type for code {ext.code} in ext_dict")
-- 
2.43.0


From 619826bf12cb2536e2526c4bec0616b1bb41a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 49/57] fix: a class transparent in one direction only, or
 serialized after its declaration, is flattened properly in tuples

---
 serde/core.py | 5 ++++-
 serde/de.py   | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index f2560c8..95e8714 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -354,7 +354,10 @@ class Scope:
     skip_if_none_default: bool = False
 
     transparent: bool = False
-    """If True, serialize/deserialize as the single inner field (serde-rs `transparent`)."""
+    """If True, serialize as the single inner field (serde-rs `transparent`)."""
+
+    de_transparent: bool = False
+    """If True, deserialize as the single inner field."""
 
     func_names: dict[Any, str] = dataclasses.field(default_factory=dict)
     """ Names of the functions generated for unions and literals """
diff --git a/serde/de.py b/serde/de.py
index 4df4e19..e801c6f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -336,7 +336,7 @@ def deserialize(
         scope.convert_sets_default = convert_sets_default
         scope.skip_if_default_default = skip_if_default
         scope.skip_if_none_default = skip_if_none
-        scope.transparent = transparent
+        scope.de_transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
             itertools.chain(
@@ -1490,7 +1490,7 @@ def get_width(f: DeField[Any]) -> int:
     if child is None:
         return 1
     fields = {f.name: f for f in defields(child)}
-    if getattr(child, SERDE_SCOPE).transparent:
+    if getattr(child, SERDE_SCOPE).de_transparent:
         inner = fields[get_transparent_field(child).name]
         return get_width(dataclasses.replace(inner, flatten=FlattenOpts()))
     return sum(get_width(fields[name]) for name in get_positions(list(fields.values())))
@@ -1718,7 +1718,7 @@ def render_from_iter(
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = constructor_fields(cls)
     fields = list(filter(renderable, all_fields))
-    if serde_scope.transparent:
+    if serde_scope.de_transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
         field.index = 0
@@ -1804,7 +1804,7 @@ def render_from_dict(
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = constructor_fields(cls)
     fields = list(filter(renderable, all_fields))
-    if serde_scope.transparent:
+    if serde_scope.de_transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
         field.iterbased = False
         field.index = 0
-- 
2.43.0


From c5062f23d53aafc2469be836130ae3b5dcbd87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 50/57] fix: is_serializable and is_deserializable tell the
 directions apart

---
 serde/de.py | 3 ++-
 serde/se.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index e801c6f..73c45da 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -480,7 +480,8 @@ def is_deserializable(instance_or_class: Any) -> bool:
     >>> is_deserializable(Foo)
     True
     """
-    return hasattr(instance_or_class, SERDE_SCOPE)
+    scope: Scope | None = getattr(instance_or_class, SERDE_SCOPE, None)
+    return scope is not None and FROM_DICT in scope.funcs
 
 
 def is_dataclass_without_de(cls: type[Any]) -> bool:
diff --git a/serde/se.py b/serde/se.py
index 04007db..385ece4 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -388,7 +388,8 @@ def is_serializable(instance_or_class: Any) -> bool:
     >>> is_serializable(Foo())
     True
     """
-    return hasattr(instance_or_class, SERDE_SCOPE)
+    scope: Scope | None = getattr(instance_or_class, SERDE_SCOPE, None)
+    return scope is not None and TO_DICT in scope.funcs
 
 
 def is_dataclass_without_se(cls: type[Any]) -> bool:
-- 
2.43.0


From 198c7c13b7b3e184da99e84f7095af6276f1f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 51/57] fix: fix: typing.Tuple without arguments is a tuple of
 anything

---
 serde/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index 31d7e59..f6dc841 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -750,8 +750,10 @@ def is_bare_tuple(typ: type[Any]) -> bool:
     False
     >>> is_bare_tuple(tuple)
     True
+    >>> is_bare_tuple(typing.Tuple)
+    True
     """
-    return typ is tuple
+    return typ is tuple or typ is typing.Tuple  # noqa: UP006
 
 
 @cache
-- 
2.43.0


From cef1c557032b98400871ed105a5b88a23f775c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 52/57] fix: PEP 695 type aliases and None are recognized
 inside containers

---
 serde/compat.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index f6dc841..716e303 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -10,6 +10,7 @@ import enum
 import functools
 import ipaddress
 import itertools
+import operator
 import pathlib
 import types
 import uuid
@@ -20,6 +21,7 @@ from collections.abc import Iterator, Sequence, MutableSequence
 from collections.abc import Mapping, MutableMapping, Set, MutableSet
 from dataclasses import is_dataclass
 from typing import TypeVar, Generic, Any, ClassVar, Optional, NewType, Union, Hashable, Callable
+from typing import Literal
 
 import typing_inspect
 from typing_extensions import TypeGuard, ParamSpec
@@ -309,6 +311,33 @@ def union_args(typ: Any) -> tuple[type[Any], ...]:
     return tuple(types)
 
 
+def normalize_type(typ: Any, expanding: tuple[Any, ...] = ()) -> Any:
+    """
+    Replace the PEP 695 type aliases in `typ` with the types they stand for, and None with its type.
+    An alias inside its own definition is left as it is.
+
+    >>> normalize_type(list[typing_extensions.TypeAliasType("Foo", int)])
+    list[int]
+    >>> normalize_type(list[None])
+    list[NoneType]
+    """
+    if typ is None:
+        return type(None)
+    if is_pep695_type_alias(typ):
+        return typ if typ in expanding else normalize_type(typ.__value__, (*expanding, typ))
+    if get_origin(typ) is Literal:
+        return typ
+    args = get_args(typ)
+    expanded = tuple(normalize_type(arg, expanding) for arg in args)
+    if all(new is arg for new, arg in zip(expanded, args, strict=True)):
+        return typ
+    if isinstance(typ, types.UnionType):
+        return functools.reduce(operator.or_, expanded)
+    if isinstance(typ, types.GenericAlias):
+        return types.GenericAlias(typ.__origin__, expanded)
+    return typ.copy_with(expanded)
+
+
 def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ignore
     raw_fields = dataclasses.fields(cls)
 
@@ -327,6 +356,7 @@ def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ig
     for f in raw_fields:
         real_type = resolved_hints.get(f.name)
         if real_type is not None:
+            real_type = normalize_type(real_type)
             f.type = real_type
             if is_generic(real_type) and _is_sqlalchemy_inspectable(cls):
                 f.type = get_args(real_type)[0]
-- 
2.43.0


From d42ed63984953d7f93bd9d39d229d600c4155d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 53/57] fix: PEP 695 type aliases are recognized in class
 variables

---
 serde/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index 95e8714..d006b76 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -53,6 +53,7 @@ from .compat import (
     is_tuple,
     is_union,
     is_variable_tuple,
+    normalize_type,
     type_args,
     typename,
     _WithTagging,
@@ -974,6 +975,7 @@ def fields(
     if serialize_class_var:
         for name, typ in get_type_hints(cls).items():
             if is_class_var(typ):
+                typ = normalize_type(typ)
                 fields.append(field_cls(typ, name, default=getattr(cls, name)))
 
     return fields  # type: ignore
-- 
2.43.0


From eac7e621131f3e30ab6f12dfbc1a67b4a370c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 54/57] fix: PEP 695 type aliases and None are recognized
 inside types given to the API

---
 serde/de.py | 5 +++--
 serde/se.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 73c45da..07e2282 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -56,6 +56,7 @@ from .compat import (
     is_union,
     is_variable_tuple,
     is_pep695_type_alias,
+    normalize_type,
     iter_literals,
     iter_types,
     iter_unions,
@@ -607,8 +608,8 @@ def _from_obj(
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
     # aliased type itself, so unwrap it to recognize e.g. a union.
-    if is_pep695_type_alias(c):
-        c = c.__value__  # type: ignore[attr-defined]
+    if not isinstance(c, type):
+        c = normalize_type(c)
 
     # A NewType is converted as the type it stands for.
     while hasattr(c, "__supertype__"):
diff --git a/serde/se.py b/serde/se.py
index 385ece4..7b5410f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -62,6 +62,7 @@ from .compat import (
     is_union,
     is_variable_tuple,
     is_pep695_type_alias,
+    normalize_type,
     iter_types,
     iter_unions,
     type_args,
@@ -448,8 +449,8 @@ def to_obj(
 
         # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not
         # the aliased type itself, so unwrap it to recognize e.g. a union.
-        if c is not None and is_pep695_type_alias(c):
-            c = c.__value__
+        if c is not None and not isinstance(c, type):
+            c = normalize_type(c)
 
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
-- 
2.43.0


From 84a9b2e73e84429997618f619e1914db7cef6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 55/57] fix: classes and type variables named like something
 used by the generated functions

---
 serde/core.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index d006b76..4105c38 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -3,6 +3,7 @@ pyserde core module.
 """
 
 from __future__ import annotations
+import builtins
 import dataclasses
 import enum
 import functools
@@ -295,16 +296,19 @@ CACHE = Cache()
 """ Global cache variable for non-dataclass classes """
 
 
-GENERATED_NAMES = frozenset(
+GENERATED_NAMES = frozenset(dir(builtins)) | frozenset(
     """
-    BeartypeCallHintParamViolation Literal SerdeError TypeCheck UserError bool class_deserializers
-    class_serializers cls coerce_object collections convert_sets copy data deserialize_enum
-    deserialize_numbers dict disabled ensure enum_value errors fake_data fake_dict float frozenset
-    from_obj func get_generic_arg int is_bearable is_dataclass is_dataclass_without_se is_instance
-    is_opt is_union_member isinstance k known_fields len list literal maybe_generic maybe_generic_type_vars
-    numpy obj repr res resolve_type_vars reuse_instances serde_legacy_custom_class_deserializer
-    serde_legacy_custom_class_serializer serde_scope serialize set skip_none str subres to_obj tuple
-    type typename typing union_args unknown_fields v variable_type_args
+    __k __v _call_factory _exists_by_aliases _flattened_exists _get_by_aliases
+    _project_flattened_data _without_tag actual args BeartypeCallHintParamViolation call
+    class_deserializers class_serializers cls coerce_object collections convert_sets copy counts
+    data datavar deserialize_enum deserialize_numbers disabled e elem ensure enum_value errors
+    expected fake_data fake_dict field fields from_dict from_iter from_obj func get_generic_arg
+    is_bearable is_dataclass is_dataclass_without_se is_instance is_opt is_union_member k
+    known_fields Literal literal maybe_generic maybe_generic_type_vars numpy obj Optional other
+    res resolve_type_vars reuse_instances self serde_legacy_custom_class_deserializer
+    serde_legacy_custom_class_serializer serde_scope SerdeError serialize skip_none subres
+    to_dict to_iter to_obj TypeCheck typename typing Union union_args unknown_fields UserError v
+    value variable_type_args
     """.split()
 )
 """ Names used by the generated functions """
@@ -386,13 +390,14 @@ class Scope:
         origin = get_origin(typ) if is_generic(typ) else None
         typ = origin or typ
         name = typename(typ)
-        if isinstance(typ, type):
+        if isinstance(typ, (type, TypeVar)):
             if typ not in self.type_names:
                 taken = GENERATED_NAMES | set(self.type_names.values())
+                prefixes = (UNION_SE_PREFIX, UNION_DE_PREFIX, LITERAL_DE_PREFIX, "__", "_flatten")
                 n = 0
-                while name in taken:
+                while name in taken or name in g or name.startswith(prefixes):
                     n += 1
-                    name = f"{typename(typ)}__{n}"
+                    name = f"type{n}_{typename(typ)}"
                 self.type_names[typ] = name
             name = self.type_names[typ]
         g[name] = typ
@@ -405,7 +410,8 @@ class Scope:
             typ = typ.__supertype__
         if is_generic(typ):
             typ = get_origin(typ)
-        return (isinstance(typ, type) and self.type_names.get(typ)) or typename(typ)
+        name = self.type_names.get(typ) if isinstance(typ, (type, TypeVar)) else None
+        return name or typename(typ)
 
     def __repr__(self) -> str:
         res: list[str] = []
-- 
2.43.0


From c68c76cd350e9694d4a8931a6b77f75dfd529fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:20 +0000
Subject: [PATCH 56/57] fix: PEP 695 type parameters are resolved in postponed
 annotations

---
 serde/compat.py | 21 ++++++++++++++++++++-
 serde/core.py   |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 716e303..c0306b2 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -338,13 +338,32 @@ def normalize_type(typ: Any, expanding: tuple[Any, ...] = ()) -> Any:
     return typ.copy_with(expanded)
 
 
+def get_type_hints(cls: type[Any]) -> dict[str, Any]:
+    """
+    Same as `typing.get_type_hints`, but also resolves the names of PEP 695 type parameters.
+    """
+    try:
+        return typing.get_type_hints(cls)
+    except NameError:
+        if not any(getattr(base, "__type_params__", ()) for base in cls.__mro__):
+            raise
+    hints = {}
+    for base in reversed(cls.__mro__):
+        namespace = {"__annotations__": base.__dict__.get("__annotations__", {})}
+        names = dict(vars(base))
+        names.update((param.__name__, param) for param in getattr(base, "__type_params__", ()))
+        stub = type(base.__name__, (), {**namespace, "__module__": base.__module__})
+        hints.update(typing.get_type_hints(stub, localns=names))
+    return hints
+
+
 def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ignore
     raw_fields = dataclasses.fields(cls)
 
     try:
         # this resolves types when string forward reference
         # or PEP 563: "from __future__ import annotations" are used
-        resolved_hints = typing.get_type_hints(cls)
+        resolved_hints = get_type_hints(cls)
     except Exception as e:
         raise SerdeError(
             f"Failed to resolve type hints for {typename(cls)}:\n"
diff --git a/serde/core.py b/serde/core.py
index 4105c38..27e4e38 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -23,7 +23,6 @@ from typing import (
     Generic,
     Any,
     Protocol,
-    get_type_hints,
     cast,
 )
 
@@ -32,6 +31,7 @@ from .compat import (
     SerdeError,
     dataclass_fields,
     get_origin,
+    get_type_hints,
     is_bare_counter,
     is_bare_deque,
     is_bare_dict,
-- 
2.43.0


From 52a3304dc0b9e4d66a17e93eba2f4bfafa74d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 57/57] fix: the attributes of an imperatively mapped class can
 be generic classes

---
 serde/compat.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index c0306b2..6a85213 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -377,12 +377,21 @@ def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ig
         if real_type is not None:
             real_type = normalize_type(real_type)
             f.type = real_type
-            if is_generic(real_type) and _is_sqlalchemy_inspectable(cls):
+            if _is_mapped_annotation(real_type) and _is_sqlalchemy_inspectable(cls):
                 f.type = get_args(real_type)[0]
 
     return (_inherited_field(cls, f) for f in raw_fields)
 
 
+def _is_mapped_annotation(typ: Any) -> bool:
+    """
+    Test if the type is an annotation of SQLAlchemy e.g. `Mapped[int]`, and not a generic class of
+    the user, which is the type of an attribute when the class is mapped imperatively.
+    """
+    origin = get_origin(typ)
+    return is_generic(typ) and any(c.__module__.startswith("sqlalchemy.") for c in origin.__mro__)
+
+
 def _inherited_field(cls: type[Any], f: dataclasses.Field) -> dataclasses.Field:  # type: ignore
     """
     Replace the type variables in a field inherited from a generic class with the type arguments
-- 
2.43.0

