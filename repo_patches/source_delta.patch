From 612b16dd356a94c525c9a7bb7decaec35b56190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 01/55] fix: deserialize the elements of tuple[T, ...] passed
 directly

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..0b69d09 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -590,8 +590,10 @@ def from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From b6f971aa9e246237f2c2f87320436062061f2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 02/55] fix: reject a tuple of the wrong length passed directly

---
 serde/de.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 0b69d09..1ebacff 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -595,7 +595,13 @@ def from_obj(
             elif is_variable_tuple(c):
                 res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
-                res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
+                elems = tuple(o)
+                if len(elems) != len(type_args(c)):
+                    raise SerdeError(
+                        f"expected {len(type_args(c))} elements for {typename(c)}, "
+                        f"got {len(elems)}"
+                    )
+                res = tuple(thisfunc(t, e) for t, e in zip(type_args(c), elems, strict=True))
         elif is_dict(c):
             if is_bare_dict(c):
                 res = o
-- 
2.43.0


From 2101b3a31190e4908ca0c622cefd178faec79855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 03/55] fix: do not accept an equal value of another type for a
 Literal

---
 serde/de.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 1ebacff..dae8f36 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1500,8 +1500,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
-    return data
+  for v in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
+    if type(data) is type(v) and data == v:
+      return data
   raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
   """,
         }
-- 
2.43.0


From 07dbe44aebccd84e859561377f09b966307a4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 04/55] fix: deserialize Literal types passed directly

---
 serde/de.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index dae8f36..938ff37 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -620,6 +620,10 @@ def from_obj(
                 res = {
                     thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
+        elif is_literal(c):
+            if not any(type(o) is type(v) and o == v for v in type_args(c)):
+                raise SerdeError(f"Can not deserialize {o!r} as {typename(c)}.")
+            res = o
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
 
-- 
2.43.0


From 231f05868a90ff3328a51b49616c19a1f2522d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 05/55] fix: apply the cls argument of to_dict/to_tuple to the
 elements of containers

---
 serde/se.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index c3a0e18..2917d90 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -387,6 +387,18 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     return None
 
 
+def _inner_type(c: Any, n: int = 0) -> Any:
+    """
+    Type of the n-th type argument of a container type specified by the caller.
+    """
+    if c is None:
+        return None
+    args = type_args(c)
+    if is_tuple(c) and is_variable_tuple(c):
+        return args[0]
+    return args[n] if n < len(args) and not isinstance(args[n], TypeVar) else None
+
+
 def to_obj(
     o: Any,
     named: bool,
@@ -427,6 +439,8 @@ def to_obj(
 
         if o is None:
             return None
+        if c is not None and is_opt(c):
+            c = _inner_type(c)
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
@@ -439,15 +453,15 @@ def to_obj(
         elif is_serializable(o):
             return serializable_to_obj(o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
-            return [thisfunc(e) for e in o]
+            return [thisfunc(e, c=_inner_type(c)) for e in o]
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
-            return tuple(thisfunc(e) for e in o)
+            return tuple(thisfunc(e, c=_inner_type(c, i)) for i, e in enumerate(o))
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v) for k, v in o.items()}
+            return {k: thisfunc(v, c=_inner_type(c, 1)) for k, v in o.items()}
         elif isinstance(o, Set):
-            return [thisfunc(e) for e in o]
+            return [thisfunc(e, c=_inner_type(c)) for e in o]
         elif isinstance(o, deque):
-            return [thisfunc(e) for e in o]
+            return [thisfunc(e, c=_inner_type(c)) for e in o]
         elif isinstance(o, Counter):
             return dict(o)
         elif is_str_serializable_instance(o) or is_datetime_instance(o):
-- 
2.43.0


From eb66d761fd01bd0b8273a8632e1d64bb95796520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 06/55] fix: pass kw_only fields by keyword wherever they are
 declared

---
 serde/de.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 938ff37..aed00e8 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1338,9 +1338,12 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   try:
     return cls(
-      {% for f in fields %}
+      {% for f in fields if not f.kw_only %}
       __{{f.name}},
       {% endfor %}
+      {% for f in fields if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
     raise SerdeError(e)
@@ -1423,12 +1426,11 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   try:
     return cls(
-    {% for f in fields %}
-    {% if f.kw_only %}
-    {{f.name}}=__{{f.name}},
-    {% else %}
+    {% for f in fields if not f.kw_only %}
     __{{f.name}},
-    {% endif %}
+    {% endfor %}
+    {% for f in fields if f.kw_only %}
+    {{f.name}}=__{{f.name}},
     {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
-- 
2.43.0


From cd383d9a4b9ca3a07c8ef79b7d36d091daa3080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 07/55] fix: from_tuple with fields that are skipped or not in
 the constructor

---
 serde/de.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index aed00e8..2458279 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1333,7 +1333,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
 
   try:
@@ -1531,7 +1531,21 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = defields(cls)
+    force_kw = False
+    positions: dict[str, int] = {}
+    position = 0
+    for f in all_fields:
+        if not renderable(f):
+            force_kw = True
+        if force_kw:
+            f.kw_only = True
+        # The tuple has an item for every serialized field, even if it is not deserialized.
+        assert f.name
+        positions[f.name] = position
+        if renderable(f) or not (f.skip or f.skip_serializing):
+            position += 1
+    fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1549,6 +1563,7 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             fields=fields,
+            positions=positions,
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
-- 
2.43.0


From 392c7491253d019a538981c150bbe81297e37007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 08/55] fix: a str or dict is not a sequence member of a union

---
 serde/de.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 2458279..c30b8ac 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1493,6 +1493,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
+    {% if is_list(t) or is_tuple(t) or is_set(t) or is_deque(t) %}
+    ensure(not isinstance(fake_dict["fake_key"], (str, dict)), "not a sequence")
+    {% endif %}
     res = {{rvalue(arg(t))}}
     ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
     return res
@@ -1718,6 +1721,10 @@ def render_union_func(
         is_taggable=Tagging.is_taggable,
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
+        is_list=is_list,
+        is_tuple=is_tuple,
+        is_set=is_set,
+        is_deque=is_deque,
         is_primitive=is_primitive,
         is_none=is_none,
         typename=typename,
-- 
2.43.0


From 9192e3c233003b7a4c8db1504b0b8da3125abeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 09/55] fix: coerce numbers into the declared subclass of float

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index c30b8ac..ebc1909 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -631,7 +631,7 @@ def from_obj(
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif isinstance(c, type) and issubclass(c, float):
-            res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            res = c(deserialize_numbers(o) if deserialize_numbers else o)
         elif is_any(c) or is_ellipsis(c):
             res = o
         else:
@@ -1227,7 +1227,7 @@ class Renderer:
                 assert arg.name
                 escaped_arg_name = arg.name.replace('"', '\\"')
                 return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
+                    f"{typ}(deserialize_numbers({dat})) if deserialize_numbers else "
                     f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
-- 
2.43.0


From 53e8ab20a814b1d2b84f06e18605c8340c635925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 10/55] fix: recover numeric keys of a Counter

---
 serde/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index ebc1909..682130d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1135,7 +1135,7 @@ class Renderer:
             k = arg[0]
             k.name = "k"
             k.datavar = "k"
-            return f"collections.Counter({{{self.render(k)}: v for k, v in {arg.data}.items()}})"
+            return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
 
     def tuple(self, arg: DeField[Any]) -> str:
         """
-- 
2.43.0


From 844a2389a06c4ee69bea3bd4b9685db9adfecda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 11/55] fix: recover numeric and enum keys of mappings passed
 directly

---
 serde/de.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 682130d..9d56919 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -482,6 +482,18 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     return None
 
 
+def is_numeric_key(typ: Any) -> bool:
+    """
+    Test if a dict key of the type is recovered from its stringified form.
+    """
+    return (
+        isinstance(typ, type)
+        and issubclass(typ, (int, float))
+        and not issubclass(typ, bool)
+        and not is_enum(typ)
+    )
+
+
 def _deserialize_optional(
     c: type[Any],
     o: Any,
@@ -554,6 +566,13 @@ def from_obj(
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
         )
+
+        def keyfunc(typ: type[Any], key: Any) -> Any:
+            # Formats such as JSON stringify numeric keys. See also "Renderer.dict_key".
+            if is_numeric_key(typ):
+                return coerce_object(typename(maybe_generic), "k", typ, key)
+            return thisfunc(typ, key)
+
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
@@ -588,7 +607,7 @@ def from_obj(
             if is_bare_counter(c):
                 res = collections.Counter(o)
             else:
-                res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
+                res = collections.Counter({keyfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
             if is_bare_tuple(c):
                 res = tuple(e for e in o)
@@ -612,13 +631,13 @@ def from_obj(
                 res = collections.defaultdict(
                     origin if origin else v.type,
                     {
-                        thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
+                        keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
                         for k, v in o.items()
                     },
                 )
             else:
                 res = {
-                    thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
+                    keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
         elif is_literal(c):
             if not any(type(o) is type(v) and o == v for v in type_args(c)):
@@ -634,6 +653,8 @@ def from_obj(
             res = c(deserialize_numbers(o) if deserialize_numbers else o)
         elif is_any(c) or is_ellipsis(c):
             res = o
+        elif is_enum(c):
+            res = deserialize_enum(c, o)
         else:
             res = cast(Any, c)(o)
 
@@ -1189,12 +1210,7 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = arg.type
-        if (
-            isinstance(typ, type)
-            and issubclass(typ, (int, float))
-            and not issubclass(typ, bool)
-            and not is_enum(typ)
-        ):
+        if is_numeric_key(typ):
             return f'coerce_object("{self.class_name}", "k", {typename(typ)}, {arg.data})'
         return self.render(arg)
 
-- 
2.43.0


From 8bd1179c19ce53caa04ce4e79ae3770f3ce9a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 12/55] fix: serialize enums and mapping keys passed directly

---
 serde/se.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 2917d90..6c6c314 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import copy
 import dataclasses
+import enum
 import functools
 import typing
 import itertools
@@ -452,12 +453,17 @@ def to_obj(
             return serializable_to_obj(o)
         elif is_serializable(o):
             return serializable_to_obj(o)
+        elif isinstance(o, enum.Enum):
+            return enum_value(type(o), o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return [thisfunc(e, c=_inner_type(c)) for e in o]
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return tuple(thisfunc(e, c=_inner_type(c, i)) for i, e in enumerate(o))
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v, c=_inner_type(c, 1)) for k, v in o.items()}
+            return {
+                thisfunc(k, c=_inner_type(c)): thisfunc(v, c=_inner_type(c, 1))
+                for k, v in o.items()
+            }
         elif isinstance(o, Set):
             return [thisfunc(e, c=_inner_type(c)) for e in o]
         elif isinstance(o, deque):
-- 
2.43.0


From 038779cf17192a3983bb38a1e60f89d23fef105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 13/55] fix: serialize enums whose values are floats or
 unhashable

---
 serde/se.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index 6c6c314..267995c 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -1168,10 +1168,10 @@ def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
     """
-    if is_enum(e):
+    if isinstance(e, enum.Enum):
         v = e.value
         # Recursively get value of Nested enum.
-        if is_enum(v):
+        if isinstance(v, enum.Enum):
             return enum_value(v.__class__, v)
         else:
             return v
-- 
2.43.0


From d3e8e26ed0b10f49a5f3b8ca21eb422a350065d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 14/55] fix: honour skip_none in to_pickle

---
 serde/pickle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From 71574ade6e64dd29aaa9b14b10b58d8dd5e485b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 15/55] fix: support the documented skip_none option of
 to_msgpack

---
 serde/msgpack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..bbee20e 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -76,7 +77,12 @@ def to_msgpack(
         if ext_type_code is None:
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
-    kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
+    kwargs: Any = {
+        "c": cls,
+        "reuse_instances": reuse_instances,
+        "convert_sets": convert_sets,
+        "skip_none": skip_none,
+    }
     dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
     return se.serialize(
         dict_or_tuple,
-- 
2.43.0


From d8650e82150d3220048fffc7aff8150bec53ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 16/55] fix: user exceptions inside containers passed directly
 and generic fields reach the caller unchanged

---
 serde/de.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 9d56919..820fbca 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -318,7 +318,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["get_generic_arg"] = get_generic_arg
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -519,6 +519,23 @@ def from_obj(
       when a float target is encountered. Useful for callers that want to treat ints or strings as
       floats.
     """
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        raise e.inner from None
+
+
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Same as `from_obj`, but leaves exceptions of user code wrapped in `UserError`, so that they
+    pass through the enclosing calls unchanged.
+    """
 
     res: Any
 
@@ -561,7 +578,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -660,8 +677,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From 1b7f781c26b82ec6adf1c50d7a277f770d612633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 17/55] fix: options of to_dict and to_tuple also apply to
 unions passed directly

---
 serde/core.py | 11 +++++++++--
 serde/se.py   |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..8c4ac78 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -200,7 +200,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -208,7 +215,7 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
-        return scope.funcs[func_name](obj, False, False)
+        return scope.funcs[func_name](obj, bool(reuse_instances), bool(convert_sets), skip_none)
 
     def deserialize_union(
         self,
diff --git a/serde/se.py b/serde/se.py
index 267995c..c96d5da 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -436,7 +436,7 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(c, o, reuse_instances, convert_sets, skip_none)
 
         if o is None:
             return None
-- 
2.43.0


From 106b49c26aa7ef1676b9cd3acaea235b7faf282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 18/55] fix: deserialize the fields of generic classes into the
 types bound to the type variables

---
 serde/compat.py | 51 ++++++++++++++++++++++++++++++++++---------------
 serde/core.py   |  3 +++
 serde/de.py     | 49 +++++++++++++++++++++++++++++++++++++++++------
 serde/se.py     |  7 ++++++-
 4 files changed, 88 insertions(+), 22 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..94adc26 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1092,15 +1092,10 @@ def get_type_var_names(cls: type[Any]) -> list[str] | None:
     ['T']
     >>> get_type_var_names(int)
     """
-    bases = getattr(cls, "__orig_bases__", ())
-    if not bases:
+    if not getattr(cls, "__orig_bases__", ()):
         return None
 
-    type_arg_names: list[str] = []
-    for base in bases:
-        type_arg_names.extend(arg.__name__ for arg in get_args(base) if hasattr(arg, "__name__"))
-
-    return type_arg_names
+    return [param.__name__ for param in getattr(cls, "__parameters__", ())]
 
 
 def find_generic_arg(cls: type[Any], field: TypeVar) -> int:
@@ -1123,17 +1118,38 @@ def find_generic_arg(cls: type[Any], field: TypeVar) -> int:
     if not bases:
         raise Exception(f'"__orig_bases__" property was not found: {cls}')
 
-    for base in bases:
-        for n, arg in enumerate(get_args(base)):
-            if arg.__name__ == field.__name__:
-                return n
-
-    if not bases:
-        raise Exception(f"Generic field not found in class: {bases}")
+    for n, param in enumerate(getattr(cls, "__parameters__", ())):
+        if param.__name__ == field.__name__:
+            return n
 
     return -1
 
 
+def find_base_generic_arg(cls: type[Any], field: TypeVar) -> Any:
+    """
+    Find what a type variable of a base class is bound to e.g. `int` for `T` in
+    `class Foo(Bar[int])`. `typing.Any` is returned if it's not bound.
+
+    >>> T = typing.TypeVar('T')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> class Foo(GenericFoo[int]):
+    ...     pass
+    >>> find_base_generic_arg(Foo, T).__name__
+    'int'
+    """
+    for klass in getattr(cls, "__mro__", ()):
+        for base in klass.__dict__.get("__orig_bases__", ()):
+            params = getattr(get_origin(base), "__parameters__", ())
+            if field in params:
+                arg = get_args(base)[params.index(field)]
+                if isinstance(arg, TypeVar) and arg != field and find_generic_arg(cls, arg) < 0:
+                    return find_base_generic_arg(cls, arg)
+                return arg
+
+    return typing.Any
+
+
 def get_generic_arg(
     typ: Any,
     maybe_generic_type_vars: list[str] | None,
@@ -1154,7 +1170,12 @@ def get_generic_arg(
     >>> get_generic_arg(GenericFoo[int, str], ['T', 'U'], ['U'], 0).__name__
     'str'
     """
-    if not is_generic(typ) or maybe_generic_type_vars is None or variable_type_args is None:
+    if (
+        not is_generic(typ)
+        or maybe_generic_type_vars is None
+        or variable_type_args is None
+        or index < 0
+    ):
         return typing.Any
 
     args = get_args(typ)
diff --git a/serde/core.py b/serde/core.py
index 8c4ac78..7d67e55 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -277,6 +277,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    generic_types: list[Any] = dataclasses.field(default_factory=list)
+    """ The deserializing functions need references to the generic types of the fields """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict & from_dict arguments """
 
diff --git a/serde/de.py b/serde/de.py
index 820fbca..aa2c73a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,6 +25,7 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
+    find_base_generic_arg,
     find_generic_arg,
     get_args,
     get_generic_arg,
@@ -555,6 +556,7 @@ def _from_obj(
         res = serde_scope.funcs[func_name](
             cls,
             maybe_generic=maybe_generic,
+            variable_type_args=get_type_var_names(cls) if is_generic(maybe_generic) else None,
             data=o,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -1033,10 +1035,9 @@ class Renderer:
         elif isinstance(arg.type, TypeVar):
             if not self.cls:
                 raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
             res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
+                f"from_obj({self.generic_arg(arg.type)}, {arg.data}, "
+                f"named={self.func == FROM_DICT}, "
                 "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
             )
         elif is_literal(arg.type):
@@ -1094,11 +1095,18 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        generic = "maybe_generic"
+        generic_type_vars = "maybe_generic_type_vars"
+        type_vars: list[str] | None = None
+        if arg.type_args and self.cls:
+            # e.g. Foo[int] or Foo[T]
+            generic = self.generic_type(arg.type[tuple(arg.type_args)])  # type: ignore
+            type_vars = get_type_var_names(arg.type)
+            generic_type_vars = str(type_vars)
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"maybe_generic={generic}, maybe_generic_type_vars={generic_type_vars}, "
+            f"variable_type_args={type_vars}, reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
@@ -1109,6 +1117,35 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
+    def generic_arg(self, var: TypeVar) -> str:
+        """
+        Render the type which is bound to the type variable.
+        """
+        assert self.cls
+        index = find_generic_arg(self.cls, var)
+        base_arg = find_base_generic_arg(self.cls, var)
+        if index < 0:
+            return self.generic_type(base_arg)
+        if base_arg not in (var, typing.Any):
+            # The same type variable has another meaning in the base class.
+            return self.generic_type(typing.Any)
+        return (
+            "get_generic_arg(maybe_generic, maybe_generic_type_vars, "
+            f"variable_type_args, {index})"
+        )
+
+    def generic_type(self, typ: Any) -> str:
+        """
+        Render the type in which the type variables are replaced by the types bound to them.
+        """
+        if isinstance(typ, TypeVar):
+            return self.generic_arg(typ)
+        types = getattr(self.cls, SERDE_SCOPE).generic_types
+        types.append(typ)
+        params = [self.generic_arg(var) for var in getattr(typ, "__parameters__", ())]
+        args = f"[{', '.join(params)},]" if params and get_args(typ) else ""
+        return f"serde_scope.generic_types[{len(types) - 1}]{args}"
+
     def opt(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for Optional.
diff --git a/serde/se.py b/serde/se.py
index c96d5da..f8ac98a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -990,8 +990,13 @@ class Renderer:
             res = f"{arg.varname} if reuse_instances else {arg.varname}.isoformat()"
         elif is_none(arg.type):
             res = "None"
-        elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
+        elif is_any(arg.type):
             res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+        elif is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
+            res = (
+                f"to_obj({arg.varname}, {self.func == TO_DICT}, reuse_instances, convert_sets, "
+                "skip_none, typing.Any)"
+            )
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From 0f2d838cd6ea1c26f22b3c680805f6112452e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 19/55] fix: look up aliases for every field type and keep the
 renamed key with them

---
 serde/de.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index aa2c73a..54d510c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -895,7 +895,9 @@ class DeField(Field[T]):
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
         elif is_union(self.type) and type(None) in get_args(self.type):
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return self.data_or()
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, {self.names()})"
         else:
             return f'{self.datavar}["{self.conv_name()}"]'
 
@@ -906,9 +908,17 @@ class DeField(Field[T]):
     def data_or(self) -> str:
         if self.iterbased:
             return self.data
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, {self.names()}, raise_error=False)"
         else:
             return f'{self.datavar}.get("{self.conv_name()}")'
 
+    def names(self) -> list[str]:
+        """
+        Names of the key which possesses the data, in order of precedence.
+        """
+        return [self.conv_name(), *self.alias]
+
 
 @dataclass
 class InnerField(DeField[T]):
@@ -1162,13 +1172,7 @@ class Renderer:
                 ]
             )
         else:
-            name = arg.conv_name()
-            if arg.alias:
-                aliases = (f'"{s}"' for s in [name, *arg.alias])
-                get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
-            else:
-                get = f'{arg.datavar}.get("{name}")'
-            exists = f"{get} is not None"
+            exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
     def list(self, arg: DeField[Any]) -> str:
@@ -1273,11 +1277,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
-        return f"deserialize_enum({typename(arg.type)}, {dat})"
+        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1287,9 +1287,6 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1340,24 +1337,19 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
-
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
             # This ensures that the code checks keys in the data while considering aliases.
             flattened = []
             for subarg in defields(arg.type):
                 if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
+                    flattened.append(f"_exists_by_aliases({arg.datavar}, {subarg.names()})")
                 else:
                     flattened.append(f'"{subarg.name}" in {arg.datavar}')
             exists = " and ".join(flattened)
         else:
             if arg.alias:
-                aliases = get_aliased_fields(arg)
-                exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
+                exists = f"_exists_by_aliases({arg.datavar}, {arg.names()})"
             else:
                 exists = f'"{arg.conv_name()}" in {arg.datavar}'
 
-- 
2.43.0


From fdd81766c87475583cee54345359f35d13d4fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 20/55] fix: (de)serialize flattened classes with their own
 settings and in any position

---
 serde/core.py |  13 +++++++
 serde/de.py   | 100 ++++++++++++++++++++++++++++++++++++--------------
 serde/se.py   |  78 ++++++++++++++++-----------------------
 3 files changed, 118 insertions(+), 73 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 7d67e55..3b7ada6 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -268,6 +268,9 @@ class Scope:
     de_known_fields: set[str] = dataclasses.field(default_factory=set)
     """ Field names accepted by the generated from_dict function """
 
+    de_required_fields: list[list[str]] = dataclasses.field(default_factory=list)
+    """ Names of each field which must have a value in the generated from_dict function """
+
     de_has_flatten_dict: bool = False
     """ True when generated from_dict or a flattened child captures unknown fields """
 
@@ -842,6 +845,16 @@ class Field(Generic[T]):
         """
         return conv(self, case or self.case)
 
+    def flatten_class(self) -> type[Any] | None:
+        """
+        Get the dataclass to be flattened. None if the field isn't a flattened dataclass.
+        """
+        if not self.flatten:
+            return None
+        typ = type_args(self.type)[0] if is_opt(self.type) and type_args(self.type) else self.type
+        typ = get_origin(typ) or typ
+        return typ if dataclasses.is_dataclass(typ) else None  # type: ignore
+
     def supports_default(self) -> bool:
         return not getattr(self, "iterbased", False) and (
             has_default(self) or has_default_factory(self)
diff --git a/serde/de.py b/serde/de.py
index 54d510c..2eedfed 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from beartype import beartype, BeartypeConf
 from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Iterator, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -1101,7 +1101,7 @@ class Renderer:
             # e.g. "data" will be used as variable name.
             assert arg.datavar
             if arg.iterbased:
-                var = f"{arg.datavar}[{arg.index}:]"
+                var = self.flatten_items(arg)
             else:
                 var = arg.datavar
 
@@ -1127,6 +1127,27 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
+    def flatten_items(self, arg: DeField[Any]) -> str:
+        """
+        Render the items of the tuple which belong to the flattened dataclass.
+        """
+        return f"{arg.datavar}[{arg.index}:{arg.index + count_items(arg)}]"
+
+    def flatten_exists(self, arg: DeField[Any], cls: type[Any], required: bool = False) -> str:
+        """
+        Render the condition which tests if the data contains the flattened dataclass.
+        """
+        scope: Scope = getattr(cls, SERDE_SCOPE)
+        if required and scope.de_required_fields:
+            return " and ".join(
+                f"_get_by_aliases({arg.datavar}, {names}, raise_error=False) is not None"
+                for names in scope.de_required_fields
+            )
+        elif scope.de_has_flatten_dict:
+            return f"len({arg.datavar}) > 0"
+        else:
+            return f"_exists_by_aliases({arg.datavar}, {sorted(scope.de_known_fields)})"
+
     def generic_arg(self, var: TypeVar) -> str:
         """
         Render the type which is bound to the type variable.
@@ -1161,16 +1182,13 @@ class Renderer:
         Render rvalue for Optional.
         """
         inner = arg[0]
-        if arg.iterbased or isinstance(arg, InnerField):
+        flatten_class = arg.flatten_class()
+        if arg.iterbased and flatten_class:
+            exists = f"any(v is not None for v in {self.flatten_items(arg)})"
+        elif arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
-        elif arg.flatten:
-            # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+        elif flatten_class:
+            exists = self.flatten_exists(arg, flatten_class, True)
         else:
             exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
@@ -1337,21 +1355,13 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, {subarg.names()})")
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+        flatten_class = arg.flatten_class()
+        if flatten_class:
+            exists = self.flatten_exists(arg, flatten_class)
+        elif arg.alias:
+            exists = f"_exists_by_aliases({arg.datavar}, {arg.names()})"
         else:
-            if arg.alias:
-                exists = f"_exists_by_aliases({arg.datavar}, {arg.names()})"
-            else:
-                exists = f'"{arg.conv_name()}" in {arg.datavar}'
+            exists = f'"{arg.conv_name()}" in {arg.datavar}'
 
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
@@ -1383,6 +1393,23 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def has_item(f: DeField[Any]) -> bool:
+    """
+    Test if the tuple has an item for the field.
+    """
+    return renderable(f) or not (f.skip or f.skip_serializing)
+
+
+def count_items(f: DeField[Any]) -> int:
+    """
+    Get the number of the items that the field has in the tuple.
+    """
+    flatten_class = f.flatten_class()
+    if not flatten_class:
+        return 1
+    return sum(count_items(inner) for inner in defields(flatten_class) if has_item(inner))
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1608,8 +1635,7 @@ def render_from_iter(
         # The tuple has an item for every serialized field, even if it is not deserialized.
         assert f.name
         positions[f.name] = position
-        if renderable(f) or not (f.skip or f.skip_serializing):
-            position += 1
+        position += count_items(f) if has_item(f) else 0
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
@@ -1692,6 +1718,24 @@ def _collect_known_fields(
     return known
 
 
+def _collect_required_fields(fields: list[DeField[Any]], rename_all: str | None) -> list[list[str]]:
+    """
+    Collect the names of each field which is neither optional nor has the default value.
+    For flattened dataclass fields, includes their nested fields.
+    """
+    flattened_children = _collect_flattened_dataclass_child_scopes(fields)
+    required: list[list[str]] = []
+    for f in fields:
+        optional = is_union(f.type) and type(None) in get_args(f.type)
+        if optional or f.supports_default() or is_any(f.type):
+            continue
+        if f.name in flattened_children:
+            required.extend(flattened_children[f.name].de_required_fields)
+        elif not (f.flatten and is_flatten_dict(f.type)):
+            required.append(get_known_fields(f, rename_all))
+    return required
+
+
 def render_from_dict(
     cls: type[Any],
     rename_all: str | None = None,
@@ -1723,6 +1767,7 @@ def render_from_dict(
         field.index = 0
         field.data = "fake_dict"
         serde_scope.de_known_fields = {field.conv_name()}
+        serde_scope.de_required_fields = [[field.conv_name()]]
         serde_scope.de_has_flatten_dict = False
         res = jinja2_env.get_template("transparent_dict").render(
             func=FROM_DICT,
@@ -1744,6 +1789,7 @@ def render_from_dict(
         # Compute known fields - exclude flatten dict field itself since it captures unknown fields
         known_fields = _collect_known_fields(all_fields, rename_all, exclude_flatten_dict=True)
         serde_scope.de_known_fields = known_fields
+        serde_scope.de_required_fields = _collect_required_fields(fields, rename_all)
         serde_scope.de_has_flatten_dict = has_flatten_dict_transitively
 
         res = jinja2_env.get_template("dict").render(
diff --git a/serde/se.py b/serde/se.py
index f8ac98a..dbba99c 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -308,7 +308,7 @@ def serialize(
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
-        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g, serialize_class_var)
+        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
         add_func(
             scope,
@@ -643,27 +643,26 @@ def sefields(cls: type[Any], serialize_class_var: bool = False) -> Iterator[SeFi
         yield f
 
 
-def add_field_serializers_to_scope(
-    sfields: Iterator[SeField[Any]], g: dict[str, Any], serialize_class_var: bool = False
-) -> None:
+def count_items(f: SeField[Any]) -> int:
     """
-    Register custom field serializers and skip_if predicates in the generated globals.
+    Get the number of the items that the field has in the tuple.
+    """
+    flatten_class = f.flatten_class()
+    if not flatten_class:
+        return 1
+    inners = sefields(flatten_class)
+    return sum(count_items(inner) for inner in inners if not (inner.skip or inner.skip_serializing))
+
 
-    A flattened dataclass field is rendered inline in the enclosing class's serialize
-    function, so the custom serializers and skip_if predicates of its inner fields must
-    be available in this scope too, not only those of the top-level fields (#453).
+def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
+    """
+    Register custom field serializers and skip_if predicates in the generated globals.
     """
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
         if f.serializer:
             g[f.serializer.name] = f.serializer
-        if f.flatten:
-            inner = f[0] if is_opt(f.type) else f
-            if is_dataclass(inner.type):
-                add_field_serializers_to_scope(
-                    sefields(inner.type, serialize_class_var), g, serialize_class_var
-                )
 
 
 jinja2_env = jinja2.Environment(
@@ -688,6 +687,12 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
+  {% elif f.flatten_class() -%}
+  # Merge the fields of the flattened class into result
+  if subres is not None{% if f.skip_if %} and not {{f.skip_if.name}}(subres){% endif %}:
+    for __k, __v in subres.items():
+      if __k not in res:
+        res[__k] = __v
   {% elif f.skip_if -%}
   if not {{f.skip_if.name}}(subres):
     {{lvalue(f)}} = subres
@@ -729,7 +734,7 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
   return (
   {% for f in fields -%}
   {% if not (f.skip|default(False) or f.skip_serializing|default(False)) %}
-  {{rvalue(f)}},
+  {% if f.flatten_class() %}*{% endif %}({{rvalue(f)}}),
   {% endif -%}
   {% endfor -%}
   )
@@ -893,27 +898,12 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
-        elif is_flatten_dict(arg.type) and arg.flatten:
+        if is_flatten_dict(arg.type) and arg.flatten:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
         return f'res["{arg.conv_name(self.case)}"]'
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1034,17 +1024,10 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
-            flattened = []
-            for f in sefields(arg.type, self.serialize_class_var):
-                f.parent = arg
-                flattened.append(self.render(f))
-            return ", ".join(flattened)
-        else:
-            return (
-                f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
-                "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
-            )
+        return (
+            f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
+            "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
+        )
 
     def opt(self, arg: SeField[Any]) -> str:
         """
@@ -1055,10 +1038,13 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
-            return self.render(inner)
-        else:
-            return f"({self.render(inner)}) if {arg.varname} is not None else None"
+        # A flattened class takes the same number of items in the tuple even if it's None.
+        none = (
+            f"(None,) * {count_items(inner)}"
+            if self.func == TO_ITER and arg.flatten_class()
+            else "None"
+        )
+        return f"({self.render(inner)}) if {arg.varname} is not None else {none}"
 
     def list(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From 618af5a4eb1cefd99a7d2c88b86507e5ee012c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 21/55] fix: skip_if_default compares field values and skip
 options combine

skip_if_default compared the serialized value with the plain default, so that enums, dates, paths,
sets etc. were never skipped. skip_none and skip_if_none were ignored for the fields with another
skip option.
---
 serde/core.py | 36 +++++++++++++++++++++---------------
 serde/se.py   | 24 ++++++++++++++++++++----
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 3b7ada6..ab97265 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -572,6 +572,10 @@ class Func:
         return self.mangeld
 
 
+def skip_if_any(predicates: list[Func], v: Any) -> bool:
+    return any(predicate(v) for predicate in predicates)
+
+
 def skip_if_false(v: Any) -> Any:
     return not bool(v)
 
@@ -584,19 +588,7 @@ def skip_if_default(v: Any, default: Any | None = None) -> Any:
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
 
-    serialized_default = default
-
-    # Align the comparison with how serde serializes defaults so nested dataclasses
-    # with class-level skip_if_default are handled correctly.
-    if dataclasses.is_dataclass(default) and not isinstance(default, type):
-        try:
-            from .se import to_dict as serde_to_dict
-
-            serialized_default = serde_to_dict(default)
-        except Exception:
-            serialized_default = dataclasses.asdict(default)
-
-    return v == serialized_default  # Why return type is deduced to be Any?
+    return v == default  # Why return type is deduced to be Any?
 
 
 @dataclass
@@ -688,6 +680,9 @@ class Field(Generic[T]):
     skip_serializing: bool | None = None
     skip_deserializing: bool | None = None
     skip_if: Func | None = None
+    """ Predicate for the serialized value """
+    skip_if_value: Func | None = None
+    """ Predicate for the value of the field """
     skip_if_false: bool | None = None
     skip_if_none: bool | None = None
     skip_if_default: bool | None = None
@@ -732,7 +727,7 @@ class Field(Generic[T]):
             elif not isinstance(f.default_factory, dataclasses._MISSING_TYPE):
                 default_value = f.default_factory()
             else:
-                default_value = dataclasses._MISSING_TYPE
+                default_value = dataclasses.MISSING
 
             skip_if_def = functools.partial(skip_if_default, default=default_value)
             skip_if_default_func = Func(skip_if_def, cls.mangle(f, "skip_if_default"))
@@ -742,6 +737,16 @@ class Field(Generic[T]):
             func = f.metadata.get("serde_skip_if")
             if callable(func):
                 skip_if = Func(func, cls.mangle(f, "skip_if"))
+        if skip_if:
+            # The predicate given by the user takes precedence over the other options.
+            skip_if_default_func = None
+        else:
+            builtins = [func for func in (skip_if_false_func, skip_if_none_func) if func]
+            if len(builtins) > 1:
+                any_of = functools.partial(skip_if_any, builtins)
+                skip_if = Func(any_of, cls.mangle(f, "skip_if"))
+            elif builtins:
+                skip_if = builtins[0]
 
         serializer: Func | None = None
         func = f.metadata.get("serde_serializer")
@@ -798,7 +803,8 @@ class Field(Generic[T]):
             skip_deserializing=skip_deserializing,
             skip_if_default=skip_if_default_flag,
             skip_if_none=skip_if_none_flag,
-            skip_if=skip_if or skip_if_false_func or skip_if_default_func or skip_if_none_func,
+            skip_if=skip_if,
+            skip_if_value=skip_if_default_func,
             serializer=serializer,
             deserializer=deserializer,
             flatten=flatten,
diff --git a/serde/se.py b/serde/se.py
index dbba99c..a278265 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -618,6 +618,7 @@ class SeField(Field[T]):
             "skip_serializing": self.skip_serializing,
             "skip_deserializing": self.skip_deserializing,
             "skip_if": self.skip_if,
+            "skip_if_value": self.skip_if_value,
             "skip_if_false": self.skip_if_false,
             "skip_if_default": self.skip_if_default,
             "serializer": self.serializer,
@@ -654,6 +655,18 @@ def count_items(f: SeField[Any]) -> int:
     return sum(count_items(inner) for inner in inners if not (inner.skip or inner.skip_serializing))
 
 
+def skip_condition(f: SeField[Any]) -> str:
+    """
+    Render the condition on which the field isn't serialized.
+    """
+    conditions = ["(skip_none and subres is None)"]
+    if f.skip_if:
+        conditions.append(f"{f.skip_if.name}(subres)")
+    if f.skip_if_value:
+        conditions.append(f"{f.skip_if_value.name}({f.varname})")
+    return " or ".join(conditions)
+
+
 def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
     """
     Register custom field serializers and skip_if predicates in the generated globals.
@@ -661,6 +674,8 @@ def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str,
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
+        if f.skip_if_value:
+            g[f.skip_if_value.name] = f.skip_if_value
         if f.serializer:
             g[f.serializer.name] = f.serializer
 
@@ -683,18 +698,18 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
   subres = {{rvalue(f)}}
   {% if lvalue(f) == '__FLATTEN_DICT__' -%}
   # Merge flattened dict into result (declared fields take precedence)
-  if subres:
+  if subres and not ({{skip_condition(f)}}):
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
   {% elif f.flatten_class() -%}
   # Merge the fields of the flattened class into result
-  if subres is not None{% if f.skip_if %} and not {{f.skip_if.name}}(subres){% endif %}:
+  if subres is not None and not ({{skip_condition(f)}}):
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
-  {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
+  {% elif f.skip_if or f.skip_if_value -%}
+  if not ({{skip_condition(f)}}):
     {{lvalue(f)}} = subres
   {% else -%}
   if skip_none:
@@ -861,6 +876,7 @@ def render_to_dict(
             type_check=type_check,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
+            skip_condition=skip_condition,
         )
 
 
-- 
2.43.0


From 8a0d7aff4157ee2117c45a6cd835567c4edb230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 22/55] fix: do not modify the metadata passed to serde.field

Fields declared with the same metadata dictionary got each other's options.
---
 serde/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index ab97265..532bb3a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -618,8 +618,7 @@ def field(
     """
     Declare a field with parameters.
     """
-    if not metadata:
-        metadata = {}
+    metadata = dict(metadata or {})
 
     if rename is not None:
         metadata["serde_rename"] = rename
-- 
2.43.0


From 6da083f4f4aaad37280317293539ac349cb738f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 23/55] fix: escape names embedded in the generated code

Renamed fields, tags and literals with quotes or backslashes were used as is in string literals of
the generated code.
---
 serde/core.py | 11 +++++++++++
 serde/de.py   | 31 +++++++++++++++++++------------
 serde/se.py   | 12 +++++++-----
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 532bb3a..b3cf2d4 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 import dataclasses
 import enum
 import functools
+import json
 import logging
 import re
 import casefy
@@ -953,6 +954,16 @@ def conv(f: Field[Any], case: str | None = None) -> str:
     return name
 
 
+def str_literal(s: str) -> str:
+    """
+    Get a literal of the string to be embedded in the generated code.
+
+    >>> print(str_literal('say "hi"'))
+    "say \\"hi\\""
+    """
+    return json.dumps(s, ensure_ascii=False)
+
+
 def union_func_name(prefix: str, union_args: Sequence[Any]) -> str:
     """
     Generate a function name that contains all union types
diff --git a/serde/de.py b/serde/de.py
index 2eedfed..e282a4e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -93,6 +93,7 @@ from .core import (
     literal_func_name,
     logger,
     union_func_name,
+    str_literal,
 )
 
 # Lazy numpy imports to improve startup time
@@ -899,7 +900,7 @@ class DeField(Field[T]):
         elif self.alias:
             return f"_get_by_aliases({self.datavar}, {self.names()})"
         else:
-            return f'{self.datavar}["{self.conv_name()}"]'
+            return f"{self.datavar}[{str_literal(self.conv_name())}]"
 
     @data.setter
     def data(self, d: str) -> None:
@@ -911,7 +912,7 @@ class DeField(Field[T]):
         elif self.alias:
             return f"_get_by_aliases({self.datavar}, {self.names()}, raise_error=False)"
         else:
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({str_literal(self.conv_name())})"
 
     def names(self) -> list[str]:
         """
@@ -1361,7 +1362,7 @@ class Renderer:
         elif arg.alias:
             exists = f"_exists_by_aliases({arg.datavar}, {arg.names()})"
         else:
-            exists = f'"{arg.conv_name()}" in {arg.datavar}'
+            exists = f"{str_literal(arg.conv_name())} in {arg.datavar}"
 
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
@@ -1507,7 +1508,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     __{{f.name}} = {{rvalue(field_arg)}}
   except KeyError:
     raise SerdeError(
-      "missing required field '{{field_arg.conv_name()}}' while deserializing {{class_name}}"
+      {{str_literal("missing required field '" ~ field_arg.conv_name() ~ "'")}}
+      " while deserializing {{class_name}}"
     )
   {% endif %}
   {% endif %}
@@ -1556,6 +1558,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
   errors = []
+  {% set tag = str_literal(tagging.tag) %}
+  {% set content = str_literal(tagging.content) %}
   {% for t in union_args %}
   try:
     # create fake dict so we can reuse the normal render function
@@ -1564,15 +1568,15 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data["{{typename(t)}}"]}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
+    ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
+    ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
     fake_dict = {"fake_key": data}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{tagging.content}}" in data , "'{{tagging.content}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data["{{tagging.content}}"]}
+    ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
+    ensure({{content}} in data, "'" + {{content}} + "' key is not present")
+    ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
+    fake_dict = {"fake_key": data[{{content}}]}
 
     {% else %}
     fake_dict = {"fake_key": data}
@@ -1592,7 +1596,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
-          typename(type(data)) + " into {{union_name}}.\\nReasons:\\n" + "\\n".join(errors))
+          typename(type(data)) + " into " + \
+          {{str_literal(union_name)}} + ".\\nReasons:\\n" + "\\n".join(errors))
 """,
             "literal": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
@@ -1601,11 +1606,13 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   for v in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
     if type(data) is type(v) and data == v:
       return data
-  raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
+  raise SerdeError("Can not deserialize " + repr(data) + \
+          " as " + {{str_literal(literal_name)}} + ".")
   """,
         }
     )
 )
+jinja2_env.globals["str_literal"] = str_literal
 
 
 def render_from_iter(
diff --git a/serde/se.py b/serde/se.py
index a278265..0709caa 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -88,6 +88,7 @@ from .core import (
     logger,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
+    str_literal,
 )
 
 # Lazy numpy imports to improve startup time
@@ -779,12 +780,12 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
 
     {% elif tagging.is_internal() and is_taggable(t) %}
     res = {{rvalue(arg(t))}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res[{{str_literal(tagging.tag)}}] = "{{typename(t)}}"
     return res
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res = {{"{"}}{{str_literal(tagging.content)}}: {{rvalue(arg(t))}}}
+    res[{{str_literal(tagging.tag)}}] = "{{typename(t)}}"
     return res
 
     {% else %}
@@ -795,11 +796,12 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
                    repr(obj) + \
                    " of type " + \
                    typename(type(obj)) + \
-                   " for {{union_name}}")
+                   " for " + {{str_literal(union_name)}})
 """,
         }
     )
 )
+jinja2_env.globals["str_literal"] = str_literal
 
 
 def render_to_tuple(
@@ -918,7 +920,7 @@ class LRenderer:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
-        return f'res["{arg.conv_name(self.case)}"]'
+        return f"res[{str_literal(arg.conv_name(self.case))}]"
 
 
 @dataclass
-- 
2.43.0


From 2de0debfb0f7957112de875bcdf37ade9bd0b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 24/55] fix: internal tags are not fields of the union members

A member with deny_unknown_fields was rejected because of the tag, and a flattened dictionary of a
member captured the tag.
---
 serde/de.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index e282a4e..53fecd7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -195,6 +195,16 @@ def _project_flattened_data(
     return {k: v for k, v in data.items() if k in child_known_fields}
 
 
+def _remove_tag(data: dict[str, Any], tag: str, cls: type[Any]) -> dict[str, Any]:
+    """
+    Remove the tag of the internal tagging, unless it's also a field of the class.
+    """
+    scope: Scope | None = getattr(get_origin(cls) or cls, SERDE_SCOPE, None)
+    if not scope or scope.transparent or tag in scope.de_known_fields:
+        return data
+    return {k: v for k, v in data.items() if k != tag}
+
+
 def _make_deserialize(
     cls_name: str,
     fields: list[Any],
@@ -330,6 +340,7 @@ def deserialize(
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
+        g["_remove_tag"] = _remove_tag
         g["class_deserializers"] = class_deserializers
         g["BeartypeCallHintParamViolation"] = BeartypeCallHintParamViolation
         g["is_bearable"] = is_bearable
@@ -1570,7 +1581,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
     ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data}
+    fake_dict = {"fake_key": _remove_tag(data, {{tag}}, {{typename(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
-- 
2.43.0


From 942e45edbd1228d10ab412b60c970bccb65d5710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 25/55] fix: coerce values of primitive subclasses on
 serialization

---
 serde/se.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 0709caa..a729733 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -54,6 +54,7 @@ from .compat import (
     is_none,
     is_opt,
     is_primitive,
+    is_primitive_subclass,
     is_set,
     is_str_serializable,
     is_str_serializable_instance,
@@ -298,7 +299,7 @@ def serialize(
                 # configuration for generating the serialization function.
                 serialize(typ)
 
-            if is_primitive(typ) and not is_enum(typ):
+            if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
             g[typename(typ)] = typ
 
-- 
2.43.0


From 00a5ddc47c6e42dbb4302fc84e8e11539507c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 26/55] fix: test union values against Literals and type
 aliases

---
 serde/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index b3cf2d4..8e4ab0e 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -47,6 +47,7 @@ from .compat import (
     is_new_type_primitive,
     is_any,
     is_opt,
+    is_pep695_type_alias,
     is_opt_dataclass,
     is_set,
     is_tuple,
@@ -412,13 +413,15 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return any(type(obj) is type(arg) and obj == arg for arg in type_args(typ))
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
             return isinstance(obj, inner)
         else:
             return False
+    elif is_pep695_type_alias(typ):
+        return is_instance(obj, typ.__value__)
     elif is_any(typ):
         return True
     elif typ is Ellipsis:
-- 
2.43.0


From b158555c9a77f6a29dc31e6a293a63f4fb12a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 27/55] fix: tell types and generated functions of the same
 name apart

---
 serde/core.py |  65 ++++++++++++++++++++++++++++++-
 serde/de.py   | 104 ++++++++++++++++++++++++++++++++------------------
 serde/se.py   |  48 +++++++++++++++++------
 3 files changed, 167 insertions(+), 50 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 8e4ab0e..a1354f6 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -216,7 +216,10 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
+        union_args = list(type_args(union_cls))
+        func_name = unique_func_name(
+            union_func_name(UNION_SE_PREFIX, union_args), union_args, scope.union_se_args
+        )
         return scope.funcs[func_name](obj, bool(reuse_instances), bool(convert_sets), skip_none)
 
     def deserialize_union(
@@ -231,7 +234,10 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_DE_PREFIX, list(type_args(union_cls)))
+        union_args = list(type_args(union_cls))
+        func_name = unique_func_name(
+            union_func_name(UNION_DE_PREFIX, union_args), union_args, scope.union_de_args
+        )
         return cast(
             T,
             scope.funcs[func_name](
@@ -282,6 +288,15 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    union_de_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
+    """ The union deserializing functions need references to their types """
+
+    literal_args: dict[str, list[Any]] = dataclasses.field(default_factory=dict)
+    """ The values accepted by the literal deserializing functions """
+
+    types: dict[str, Any] = dataclasses.field(default_factory=dict)
+    """ Types by the name the generated code refers to them """
+
     generic_types: list[Any] = dataclasses.field(default_factory=list)
     """ The deserializing functions need references to the generic types of the fields """
 
@@ -298,6 +313,30 @@ class Scope:
     transparent: bool = False
     """If True, serialize/deserialize as the single inner field (serde-rs `transparent`)."""
 
+    def add_type(self, typ: Any, g: dict[str, Any]) -> None:
+        """
+        Make the type available in the generated code.
+        """
+        name = typename(typ)
+        typ = get_origin(typ) if is_generic(typ) else typ
+        if issubclass(type(typ), type) and self.types.setdefault(name, g.get(name, typ)) is not typ:
+            return  # See "type_ref"
+        g[name] = typ
+
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render the reference to the type. Types of the same name (e.g. classes of different
+        modules) are told apart.
+        """
+        base = name = typename(typ)
+        if not issubclass(type(typ), type):
+            return base
+        n = 2
+        while self.types.setdefault(name, typ) is not typ:
+            name = f"{base}_{n}"
+            n += 1
+        return name if name == base else f"serde_scope.types[{name!r}]"
+
     def __repr__(self) -> str:
         res: list[str] = []
 
@@ -981,6 +1020,28 @@ def union_func_name(prefix: str, union_args: Sequence[Any]) -> str:
     return re.sub(r"[^A-Za-z0-9]", "_", f"{prefix}_{'_'.join([typename(e) for e in union_args])}")
 
 
+def unique_func_name(name: str, args: Sequence[Any], registry: dict[str, list[Any]]) -> str:
+    """
+    Get the name of the function generated for the type arguments. Function names are derived from
+    type names, so different arguments may have the same one.
+
+    * `registry`: arguments of the functions by the name
+
+    >>> unique_func_name("union_de_int_str", [int, str], {"union_de_int_str": [int, str]})
+    'union_de_int_str'
+    >>> unique_func_name("union_de_A_B", [int, str], {"union_de_A_B": [int, int]})
+    'union_de_A_B_2'
+    """
+    unique = name
+    n = 2
+    while unique in registry and [(repr(a), a) for a in registry[unique]] != [
+        (repr(a), a) for a in args
+    ]:
+        unique = f"{name}_{n}"
+        n += 1
+    return unique
+
+
 def literal_func_name(literal_args: Sequence[Any]) -> str:
     """
     Generate a function name with all literals and corresponding types specified with Literal[...]
diff --git a/serde/de.py b/serde/de.py
index 53fecd7..81e5d81 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -93,6 +93,7 @@ from .core import (
     literal_func_name,
     logger,
     union_func_name,
+    unique_func_name,
     str_literal,
 )
 
@@ -364,27 +365,29 @@ def deserialize(
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
 
-            if is_generic(typ):
-                g[typename(typ)] = get_origin(typ)
-            else:
-                g[typename(typ)] = typ
+            scope.add_type(typ, g)
 
-        # render all union functions
+        # Name all union and literal functions before rendering, because they call each other.
         for union in iter_unions(cls):
-            union_args = type_args(union)
-            add_func(
-                scope,
-                union_func_name(UNION_DE_PREFIX, union_args),
-                render_union_func(cls, union_args, tagging),
-                g,
+            union_args = list(type_args(union))
+            union_key = unique_func_name(
+                union_func_name(UNION_DE_PREFIX, union_args), union_args, scope.union_de_args
             )
-
-        # render literal functions
+            scope.union_de_args[union_key] = union_args
         for literal in iter_literals(cls):
-            literal_args = type_args(literal)
-            add_func(
-                scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
+            literal_args = list(type_args(literal))
+            literal_key = unique_func_name(
+                literal_func_name(literal_args), literal_args, scope.literal_args
             )
+            scope.literal_args[literal_key] = literal_args
+
+        # render all union functions
+        for union_key, union_args in scope.union_de_args.items():
+            add_func(scope, union_key, render_union_func(cls, union_key, union_args, tagging), g)
+
+        # render literal functions
+        for literal_key, literal_args in scope.literal_args.items():
+            add_func(scope, literal_key, render_literal_func(cls, literal_key, literal_args), g)
 
         # Collect default values and default factories used in the generated code.
         for f in defields(cls):
@@ -978,6 +981,19 @@ class Renderer:
     class_deserializer: ClassDeserializer | None = None
     class_name: str | None = None
 
+    @property
+    def scope(self) -> Scope:
+        """
+        Scope of the class for which the code is generated.
+        """
+        return getattr(self.cls, SERDE_SCOPE, None) or Scope(object)
+
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render the reference to the type.
+        """
+        return self.scope.type_ref(typ)
+
     def render(self, arg: DeField[Any]) -> str:
         """
         Render rvalue
@@ -994,7 +1010,7 @@ class Renderer:
         if custom_deserializer_available and not arg.deserializer:
             res = (
                 f"class_deserializers[{implemented_methods[arg.type]}].deserialize("
-                f"{typename(arg.type)}, {arg.data})"
+                f"{self.type_ref(arg.type)}, {arg.data})"
             )
         elif arg.deserializer and arg.deserializer.inner is not default_deserializer:
             res = self.custom_field_deserializer(arg)
@@ -1042,8 +1058,8 @@ class Renderer:
         elif is_str_serializable(arg.type):
             res = f"({self.c_tor_with_check(arg)}) if reuse_instances else {self.c_tor(arg)}"
         elif is_datetime(arg.type):
-            from_iso = f"{typename(arg.type)}.fromisoformat({arg.data})"
-            res = f"({arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {from_iso}) \
+            from_iso = f"{self.type_ref(arg.type)}.fromisoformat({arg.data})"
+            res = f"({arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {from_iso}) \
                     if reuse_instances else {from_iso}"
         elif is_none(arg.type):
             res = "None"
@@ -1098,7 +1114,7 @@ class Renderer:
         # The function takes a closure in order to execute the default value lazily.
         return (
             "serde_legacy_custom_class_deserializer("
-            f"{typename(arg.type)}, "
+            f"{self.type_ref(arg.type)}, "
             f"{arg.datavar}, "
             f"{arg.data_or()}, "
             f"default=lambda: {code})"
@@ -1135,7 +1151,7 @@ class Renderer:
         if arg.is_self_referencing():
             class_name = "cls"
         else:
-            class_name = typename(arg.type)
+            class_name = self.type_ref(arg.type)
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
@@ -1183,7 +1199,7 @@ class Renderer:
         """
         if isinstance(typ, TypeVar):
             return self.generic_arg(typ)
-        types = getattr(self.cls, SERDE_SCOPE).generic_types
+        types = self.scope.generic_types
         types.append(typ)
         params = [self.generic_arg(var) for var in getattr(typ, "__parameters__", ())]
         args = f"[{', '.join(params)},]" if params and get_args(typ) else ""
@@ -1299,7 +1315,7 @@ class Renderer:
         """
         typ = arg.type
         if is_numeric_key(typ):
-            return f'coerce_object("{self.class_name}", "k", {typename(typ)}, {arg.data})'
+            return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1307,7 +1323,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
+        return f"deserialize_enum({self.type_ref(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1315,7 +1331,7 @@ class Renderer:
 
         * `suppress_coerce`: Overrides "suppress_coerce" in the Renderer's field
         """
-        typ = typename(arg.type)
+        typ = self.type_ref(arg.type)
         dat = arg.data
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
@@ -1335,15 +1351,18 @@ class Renderer:
             return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
 
     def c_tor(self, arg: DeField[Any]) -> str:
-        return f"{typename(arg.type)}({arg.data})"
+        return f"{self.type_ref(arg.type)}({arg.data})"
 
     def c_tor_with_check(self, arg: DeField[Any], ctor: str | None = None) -> str:
         if ctor is None:
             ctor = self.c_tor(arg)
-        return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
+        return f"{arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
+        union_args = list(type_args(arg.type))
+        func_name = unique_func_name(
+            union_func_name(UNION_DE_PREFIX, union_args), union_args, self.scope.union_de_args
+        )
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1353,7 +1372,10 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_name(type_args(arg.type))
+        literal_args = list(type_args(arg.type))
+        func_name = unique_func_name(
+            literal_func_name(literal_args), literal_args, self.scope.literal_args
+        )
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1581,7 +1603,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
     ensure("{{typename(t)}}" == data[{{tag}}], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": _remove_tag(data, {{tag}}, {{typename(t)}})}
+    fake_dict = {"fake_key": _remove_tag(data, {{tag}}, {{type_ref(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure({{tag}} in data, "'" + {{tag}} + "' key is not present")
@@ -1594,17 +1616,18 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% endif %}
 
     {% if is_primitive(t) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
+    if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     {% if is_list(t) or is_tuple(t) or is_set(t) or is_deque(t) %}
     ensure(not isinstance(fake_dict["fake_key"], (str, dict)), "not a sequence")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, serde_scope.union_de_args['{{func}}'][{{loop.index0}}]),
+           "object is not of type " + {{str_literal("'" ~ typename(t) ~ "'")}})
     return res
   except Exception as e:
-    errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
+    errors.append({{str_literal(" Failed to deserialize into " ~ typename(t) ~ ": ")}} + str(e))
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
           typename(type(data)) + " into " + \
@@ -1833,13 +1856,16 @@ def render_from_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    func_name: str,
+    union_args: Sequence[type[Any]],
+    tagging: Tagging = DefaultTagging,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
     renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_DE_PREFIX, union_args),
+        func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1854,15 +1880,19 @@ def render_union_func(
         is_primitive=is_primitive,
         is_none=is_none,
         typename=typename,
+        type_ref=renderer.type_ref,
     )
 
 
 def render_literal_func(
-    cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    func_name: str,
+    literal_args: Sequence[Any],
+    tagging: Tagging = DefaultTagging,
 ) -> str:
     literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
     return jinja2_env.get_template("literal").render(
-        func=literal_func_name(literal_args),
+        func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
         literal_args=literal_args,
         literal_name=literal_name,
diff --git a/serde/se.py b/serde/se.py
index a729733..e7123d6 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -88,6 +88,7 @@ from .core import (
     is_instance,
     logger,
     union_func_name,
+    unique_func_name,
     GLOBAL_CLASS_SERIALIZER,
     str_literal,
 )
@@ -301,15 +302,20 @@ def serialize(
 
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
-            g[typename(typ)] = typ
+            scope.add_type(typ, g)
 
-        # render all union functions
+        # Name all union functions before rendering, because they call each other.
         for union in iter_unions(cls):
             union_args = list(type_args(union))
-            union_key = union_func_name(UNION_SE_PREFIX, union_args)
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            union_key = unique_func_name(
+                union_func_name(UNION_SE_PREFIX, union_args), union_args, scope.union_se_args
+            )
             scope.union_se_args[union_key] = union_args
 
+        # render all union functions
+        for union_key, union_args in scope.union_se_args.items():
+            add_func(scope, union_key, render_union_func(cls, union_key, union_args, tagging), g)
+
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
         add_func(
@@ -815,6 +821,7 @@ def render_to_tuple(
     renderer = Renderer(
         TO_ITER,
         legacy_class_serializer,
+        scope=getattr(cls, SERDE_SCOPE),
         suppress_coerce=(not type_check.is_coerce()),
         serialize_class_var=serialize_class_var,
         class_serializer=class_serializer,
@@ -853,6 +860,7 @@ def render_to_dict(
     renderer = Renderer(
         TO_DICT,
         legacy_class_serializer,
+        scope=getattr(cls, SERDE_SCOPE),
         suppress_coerce=(not type_check.is_coerce()),
         class_serializer=class_serializer,
         class_name=typename(cls),
@@ -884,15 +892,23 @@ def render_to_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    func_name: str,
+    union_args: list[type[Any]],
+    tagging: Tagging = DefaultTagging,
 ) -> str:
     """
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
+    renderer = Renderer(
+        TO_DICT,
+        suppress_coerce=True,
+        class_name=typename(cls),
+        scope=getattr(cls, SERDE_SCOPE),
+    )
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_SE_PREFIX, union_args),
+        func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -937,6 +953,13 @@ class Renderer:
     serialize_class_var: bool = False
     class_serializer: ClassSerializer | None = None
     class_name: str | None = None
+    scope: Scope = dataclasses.field(default_factory=lambda: Scope(object))
+
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render the reference to the type.
+        """
+        return self.scope.type_ref(typ)
 
     def render(self, arg: SeField[Any]) -> str:
         """
@@ -1025,7 +1048,7 @@ class Renderer:
         if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
             return (
                 "serde_legacy_custom_class_serializer("
-                f"{typename(arg.type)}, "
+                f"{self.type_ref(arg.type)}, "
                 f"{arg.varname}, "
                 f"default=lambda: {res})"
             )
@@ -1145,13 +1168,13 @@ class Renderer:
             return f"{{{self.render(karg)}: {self.render(varg)} for k, v in {arg.varname}.items()}}"
 
     def enum(self, arg: SeField[Any]) -> str:
-        return f"enum_value({typename(arg.type)}, {arg.varname})"
+        return f"enum_value({self.type_ref(arg.type)}, {arg.varname})"
 
     def primitive(self, arg: SeField[Any]) -> str:
         """
         Render rvalue for primitives.
         """
-        typ = typename(arg.type)
+        typ = self.type_ref(arg.type)
         var = arg.varname
         if self.suppress_coerce:
             return var
@@ -1164,7 +1187,10 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(arg.type)))
+        union_args = list(type_args(arg.type))
+        func_name = unique_func_name(
+            union_func_name(UNION_SE_PREFIX, union_args), union_args, self.scope.union_se_args
+        )
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From 1ddfb2d29a8b07b5f79741ea24f8ea6f7fb96419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 28/55] fix: deserialize enums with a primitive base in unions

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 81e5d81..ff29e6d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1615,7 +1615,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
+    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1878,6 +1878,7 @@ def render_union_func(
         is_set=is_set,
         is_deque=is_deque,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
         typename=typename,
         type_ref=renderer.type_ref,
-- 
2.43.0


From 8ea29caca0a1c1692afd02bd376961a3db5ccbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 29/55] fix: serialize union values as the most derived member,
 and members behind type aliases

---
 serde/de.py |  3 ++-
 serde/se.py | 25 ++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index ff29e6d..068cb4e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1863,11 +1863,12 @@ def render_union_func(
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
+    members = [t.__value__ if is_pep695_type_alias(t) else t for t in union_args]
     renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
     return jinja2_env.get_template("union").render(
         func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
-        union_args=union_args,
+        union_args=members,
         union_name=union_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
diff --git a/serde/se.py b/serde/se.py
index e7123d6..96710f5 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -780,8 +780,8 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
 def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
   union_args = serde_scope.union_se_args['{{func}}']
 
-  {% for t in union_args %}
-  if is_instance(obj, union_args[{{loop.index0}}]):
+  {% for i, t in members %}
+  if is_instance(obj, union_args[{{i}}]):
     {% if tagging.is_external() and is_taggable(t) %}
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
@@ -891,6 +891,25 @@ def render_to_dict(
         )
 
 
+def union_members(union_args: list[type[Any]]) -> list[tuple[int, type[Any]]]:
+    """
+    Get the union members and their indexes in the order in which a value is tested against them:
+    the declared order, but a class always precedes the classes it's derived from.
+    """
+    members: list[tuple[int, type[Any]]] = []
+    for i, typ in enumerate(union_args):
+        if is_pep695_type_alias(typ):
+            typ = typ.__value__  # type: ignore[attr-defined]
+        position = len(members)
+        if isinstance(typ, type):
+            for j, (_, other) in enumerate(members):
+                if isinstance(other, type) and issubclass(typ, other):
+                    position = j
+                    break
+        members.insert(position, (i, typ))
+    return members
+
+
 def render_union_func(
     cls: type[Any],
     func_name: str,
@@ -910,7 +929,7 @@ def render_union_func(
     return jinja2_env.get_template("union").render(
         func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
-        union_args=union_args,
+        members=union_members(union_args),
         union_name=union_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
-- 
2.43.0


From 4e61f0e498ebcae1507db0d43c00376c22d1ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 30/55] fix: equal unions passed directly to the API do not
 share options or order

---
 serde/core.py | 20 ++++++++++++++++----
 serde/de.py   |  4 +++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index a1354f6..d1b4537 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -96,6 +96,8 @@ SETTINGS = {"debug": False}
 class UnionCacheKey:
     union: Hashable
     tagging: Tagging
+    name: str
+    """ Unions of the same members in a different order are equal, but have another name """
 
 
 def init(debug: bool = False) -> None:
@@ -181,7 +183,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, tagging=tagging, name=repr(union_cls))
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -193,7 +195,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, tagging=tagging, name=repr(union_cls))
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
@@ -220,12 +222,17 @@ class Cache:
         func_name = unique_func_name(
             union_func_name(UNION_SE_PREFIX, union_args), union_args, scope.union_se_args
         )
-        return scope.funcs[func_name](obj, bool(reuse_instances), bool(convert_sets), skip_none)
+        if reuse_instances is None:
+            reuse_instances = scope.reuse_instances_default
+        if convert_sets is None:
+            convert_sets = scope.convert_sets_default
+        return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
         self,
         cls: type[T],
         data: Any,
+        reuse_instances: bool | None = None,
         deserialize_numbers: Callable[[str | int], float] | None = None,
     ) -> T:
         """
@@ -238,10 +245,15 @@ class Cache:
         func_name = unique_func_name(
             union_func_name(UNION_DE_PREFIX, union_args), union_args, scope.union_de_args
         )
+        if reuse_instances is None:
+            reuse_instances = scope.reuse_instances_default
         return cast(
             T,
             scope.funcs[func_name](
-                cls=union_cls, data=data, deserialize_numbers=deserialize_numbers
+                cls=union_cls,
+                data=data,
+                reuse_instances=reuse_instances,
+                deserialize_numbers=deserialize_numbers,
             ),
         )
 
diff --git a/serde/de.py b/serde/de.py
index 068cb4e..909e339 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -582,7 +582,9 @@ def _from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        return CACHE.deserialize_union(
+            c, o, reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers
+        )
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
-- 
2.43.0


From 35bbf402eb575540bf8a0b16c1ac91da905212e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 31/55] fix: generate a function for every Literal, also behind
 type aliases

---
 serde/compat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 94adc26..9628f91 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -454,7 +454,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
     """
     Iterate over all literals that are used in the dataclass
     """
-    lst: set[Union[type[Any], Any]] = set()
+    lst: list[TypeLike] = []  # Literals of the same values in a different order are equal
     stack: list[TypeLike] = []  # To prevent infinite recursion
 
     def recursive(cls: Union[type[Any], Any]) -> None:
@@ -462,10 +462,12 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
             return
 
         if is_literal(cls):
-            lst.add(cls)
+            lst.append(cls)
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
+        elif is_pep695_type_alias(cls):
+            recursive(cls.__value__)
         if is_dataclass(cls):
             stack.append(cls)
             if isinstance(cls, type):
@@ -491,7 +493,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
                 recursive(args[1])
 
     recursive(cls)
-    return list(lst)
+    return lst
 
 
 @cache
-- 
2.43.0


From 086aa7544a4f0ecd3559e10c511ed03da76f8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 32/55] fix: read back enums with nested, tuple and boolean
 values

---
 serde/core.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index d1b4537..38a8593 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1266,23 +1266,39 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
     Formats such as JSON force object keys to ``str``, so an ``IntEnum``/
     ``IntFlag`` used as a dict key arrives as e.g. ``"1"`` instead of ``1``.
     A plain ``typ(value)`` lookup then fails even though the value is valid.
-    When the direct lookup fails for a ``str`` value, retry after coercing it
-    to the type of the enum's member values (e.g. ``int``).
+    Formats also turn tuples into lists, and nested enums are serialized as their
+    innermost value. When the direct lookup fails, retry after converting the value
+    to the types of the enum's member values (e.g. ``int``).
     """
     try:
         return typ(value)
     except (ValueError, KeyError):
-        # A ValueError/KeyError here means ``typ`` has at least one member (an
-        # empty enum would raise TypeError instead), so ``__members__`` is never
-        # empty in this branch.
-        member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, list) and member_value_type is tuple:
-            return typ(tuple(value))
-        if isinstance(value, str) and member_value_type is not str:
-            return typ(member_value_type(value))
+        # Flags may have values without a member, so lookup the converted value.
+        for value_type in {type(member.value): None for member in typ.__members__.values()}:
+            try:
+                return typ(convert_enum_value(value_type, value))
+            except Exception:  # Not a value of this type
+                pass
         raise
 
 
+def convert_enum_value(typ: type[Any], value: Any) -> Any:
+    """
+    Convert a deserialized value to the type of values of an enum.
+    """
+    if issubclass(typ, enum.Enum):
+        return deserialize_enum(typ, value)
+    elif typ is tuple and isinstance(value, list):
+        return tuple(
+            convert_enum_value(tuple, v) if isinstance(v, list) else v for v in value
+        )
+    elif typ is bool and isinstance(value, str):
+        return {"true": True, "false": False}[value]
+    elif isinstance(value, str) and not issubclass(typ, (str, tuple)):
+        return typ(value)
+    return value
+
+
 def coerce_object(cls: str, field: str, typ: type[Any], obj: Any) -> Any:
     if obj is None:
         raise SerdeError(
-- 
2.43.0


From 7de203aac65c784fae7e15db84e510ccb6a76c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 33/55] fix: coerce numbers for NewTypes of float

---
 serde/compat.py | 17 +++++++++++++++++
 serde/de.py     |  5 +++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 9628f91..d6709c1 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -984,6 +984,23 @@ def is_new_type_primitive(typ: type[Any] | NewType) -> bool:
         return any(isinstance(typ, ty) for ty in PRIMITIVES)
 
 
+@cache
+def is_float(typ: type[Any] | NewType) -> bool:
+    """
+    Test if the type is float, its subclass or NewType.
+
+    >>> is_float(float)
+    True
+    >>> is_float(NewType("Meter", float))
+    True
+    >>> is_float(int)
+    False
+    """
+    while hasattr(typ, "__supertype__"):
+        typ = typ.__supertype__
+    return isinstance(typ, type) and issubclass(typ, float)
+
+
 @cache
 def has_generic_base(typ: Any) -> bool:
     return Generic in getattr(typ, "__mro__", ()) or Generic in getattr(typ, "__bases__", ())
diff --git a/serde/de.py b/serde/de.py
index 909e339..38f5c47 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -45,6 +45,7 @@ from .compat import (
     is_dict,
     is_ellipsis,
     is_enum,
+    is_float,
     is_flatten_dict,
     is_frozen_set,
     is_generic,
@@ -685,7 +686,7 @@ def _from_obj(
             res = deserialize_numpy_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
-        elif isinstance(c, type) and issubclass(c, float):
+        elif is_float(c):
             res = c(deserialize_numbers(o) if deserialize_numbers else o)
         elif is_any(c) or is_ellipsis(c):
             res = o
@@ -1335,7 +1336,7 @@ class Renderer:
         """
         typ = self.type_ref(arg.type)
         dat = arg.data
-        if isinstance(arg.type, type) and issubclass(arg.type, float):
+        if is_float(arg.type):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
             else:
-- 
2.43.0


From 2c2ef27dcbd31e55c35ba1e10b7a6280cde267da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 34/55] fix: offer legacy class (de)serializers the fields with
 their declared types and no elements

---
 serde/core.py | 10 ++++++++++
 serde/de.py   |  6 ++----
 serde/se.py   | 22 ++++++++++++----------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 38a8593..d38d220 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -45,6 +45,7 @@ from .compat import (
     is_list,
     is_literal,
     is_new_type_primitive,
+    is_primitive,
     is_any,
     is_opt,
     is_pep695_type_alias,
@@ -349,6 +350,15 @@ class Scope:
             n += 1
         return name if name == base else f"serde_scope.types[{name!r}]"
 
+    def declared_type_ref(self, typ: Any) -> str:
+        """
+        Render the reference to the type exactly as it is declared.
+        """
+        if is_primitive(typ):
+            return self.type_ref(typ)
+        self.generic_types.append(typ)
+        return f"serde_scope.generic_types[{len(self.generic_types) - 1}]"
+
     def __repr__(self) -> str:
         res: list[str] = []
 
diff --git a/serde/de.py b/serde/de.py
index 38f5c47..6ca29c2 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1095,9 +1095,7 @@ class Renderer:
             and not custom_deserializer_available
         ):
             # Rerender the code for default deserializer.
-            default = Renderer(
-                self.func, self.cls, None, suppress_coerce=self.suppress_coerce
-            ).render(arg)
+            default = dataclasses.replace(self, legacy_class_deserializer=None).render(arg)
             return self.custom_class_deserializer(arg, default)
         else:
             return res
@@ -1117,7 +1115,7 @@ class Renderer:
         # The function takes a closure in order to execute the default value lazily.
         return (
             "serde_legacy_custom_class_deserializer("
-            f"{self.type_ref(arg.type)}, "
+            f"{self.scope.declared_type_ref(arg.type)}, "
             f"{arg.datavar}, "
             f"{arg.data_or()}, "
             f"default=lambda: {code})"
diff --git a/serde/se.py b/serde/se.py
index 96710f5..981dd73 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -993,6 +993,17 @@ class Renderer:
                 implemented_methods[method.signature.types[1]] = n
 
         custom_serializer_available = arg.type in implemented_methods
+
+        # Custom field serializer overrides custom class serializer.
+        if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
+            default = dataclasses.replace(self, legacy_class_serializer=None).render(arg)
+            return (
+                "serde_legacy_custom_class_serializer("
+                f"{self.scope.declared_type_ref(arg.type)}, "
+                f"{arg.varname}, "
+                f"default=lambda: {default})"
+            )
+
         if custom_serializer_available and not arg.serializer:
             res = f"class_serializers[{implemented_methods[arg.type]}].serialize({arg.varname})"
         elif arg.serializer and arg.serializer.inner is not default_serializer:
@@ -1063,16 +1074,7 @@ class Renderer:
         else:
             raise SerdeError(f"Unsupported type: {typename(arg.type)}")
 
-        # Custom field serializer overrides custom class serializer.
-        if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
-            return (
-                "serde_legacy_custom_class_serializer("
-                f"{self.type_ref(arg.type)}, "
-                f"{arg.varname}, "
-                f"default=lambda: {res})"
-            )
-        else:
-            return res
+        return res
 
     def custom_field_serializer(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From e6db82c0912d05dd11017a4a6e4aaa66014544f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 35/55] fix: apply class-level (de)serializers to union members
 and the last registered global ones everywhere

---
 serde/core.py |  2 ++
 serde/de.py   | 33 ++++++++++++++++++++++++---------
 serde/se.py   | 13 ++++++++++---
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index d38d220..7dc8aec 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1403,6 +1403,7 @@ def add_serializer(serializer: ClassSerializer) -> None:
     Register custom global serializer.
     """
     GLOBAL_CLASS_SERIALIZER.append(serializer)
+    CACHE.classes.clear()  # Generated for the previous serializers
 
 
 def add_deserializer(deserializer: ClassDeserializer) -> None:
@@ -1410,3 +1411,4 @@ def add_deserializer(deserializer: ClassDeserializer) -> None:
     Register custom global deserializer.
     """
     GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+    CACHE.classes.clear()  # Generated for the previous deserializers
diff --git a/serde/de.py b/serde/de.py
index 6ca29c2..fb97350 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -384,7 +384,12 @@ def deserialize(
 
         # render all union functions
         for union_key, union_args in scope.union_de_args.items():
-            add_func(scope, union_key, render_union_func(cls, union_key, union_args, tagging), g)
+            add_func(
+                scope,
+                union_key,
+                render_union_func(cls, union_key, union_args, tagging, class_deserializer),
+                g,
+            )
 
         # render literal functions
         for literal_key, literal_args in scope.literal_args.items():
@@ -491,7 +496,7 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
     (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
@@ -563,7 +568,7 @@ def _from_obj(
 
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
-    if type(o) is c:
+    if type(o) is c and find_global_class_deserializer(c) is None:
         return o
 
     def deserializable_to_obj(cls: type[T]) -> T:
@@ -606,7 +611,7 @@ def _from_obj(
 
         def keyfunc(typ: type[Any], key: Any) -> Any:
             # Formats such as JSON stringify numeric keys. See also "Renderer.dict_key".
-            if is_numeric_key(typ):
+            if is_numeric_key(typ) and find_global_class_deserializer(typ) is None:
                 return coerce_object(typename(maybe_generic), "k", typ, key)
             return thisfunc(typ, key)
 
@@ -997,9 +1002,9 @@ class Renderer:
         """
         return self.scope.type_ref(typ)
 
-    def render(self, arg: DeField[Any]) -> str:
+    def implemented_methods(self) -> dict[type[Any], int]:
         """
-        Render rvalue
+        Types handled by custom class deserializers and the indexes of the deserializers.
         """
         implemented_methods: dict[type[Any], int] = {}
         class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
@@ -1008,7 +1013,13 @@ class Renderer:
         for n, class_deserializer in enumerate(class_deserializers):
             for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
                 implemented_methods[get_args(method.signature.types[1])[0]] = n
+        return implemented_methods
 
+    def render(self, arg: DeField[Any]) -> str:
+        """
+        Render rvalue
+        """
+        implemented_methods = self.implemented_methods()
         custom_deserializer_available = arg.type in implemented_methods
         if custom_deserializer_available and not arg.deserializer:
             res = (
@@ -1315,7 +1326,7 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = arg.type
-        if is_numeric_key(typ):
+        if is_numeric_key(typ) and typ not in self.implemented_methods():
             return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
         return self.render(arg)
 
@@ -1616,7 +1627,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
+    {% if not is_custom(t) and ((is_primitive(t) and not is_enum(t)) or is_none(t)) %}
     if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1861,11 +1872,14 @@ def render_union_func(
     func_name: str,
     union_args: Sequence[type[Any]],
     tagging: Tagging = DefaultTagging,
+    class_deserializer: ClassDeserializer | None = None,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
     members = [t.__value__ if is_pep695_type_alias(t) else t for t in union_args]
-    renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    renderer = Renderer(
+        FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
+    )
     return jinja2_env.get_template("union").render(
         func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
@@ -1882,6 +1896,7 @@ def render_union_func(
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
+        is_custom=lambda x: x in renderer.implemented_methods(),
         typename=typename,
         type_ref=renderer.type_ref,
     )
diff --git a/serde/se.py b/serde/se.py
index 981dd73..ae06358 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -314,7 +314,12 @@ def serialize(
 
         # render all union functions
         for union_key, union_args in scope.union_se_args.items():
-            add_func(scope, union_key, render_union_func(cls, union_key, union_args, tagging), g)
+            add_func(
+                scope,
+                union_key,
+                render_union_func(cls, union_key, union_args, tagging, class_serializer),
+                g,
+            )
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
@@ -388,7 +393,7 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
@@ -450,7 +455,7 @@ def to_obj(
             return None
         if c is not None and is_opt(c):
             c = _inner_type(c)
-        class_serializer = find_global_class_serializer(type(o))
+        class_serializer = find_global_class_serializer(c) or find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
         if is_dataclass_without_se(o):
@@ -915,6 +920,7 @@ def render_union_func(
     func_name: str,
     union_args: list[type[Any]],
     tagging: Tagging = DefaultTagging,
+    class_serializer: ClassSerializer | None = None,
 ) -> str:
     """
     Render function that serializes a field with union type.
@@ -923,6 +929,7 @@ def render_union_func(
     renderer = Renderer(
         TO_DICT,
         suppress_coerce=True,
+        class_serializer=class_serializer,
         class_name=typename(cls),
         scope=getattr(cls, SERDE_SCOPE),
     )
-- 
2.43.0


From 6dbb64eb3fbd2e955776d6acb519e1029cdf48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 36/55] fix: reject transparent classes whose single field is
 skipped one way

---
 serde/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 7dc8aec..17b759c 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -974,7 +974,9 @@ def get_transparent_field(cls: type[Any]) -> Field[Any]:
     def fully_skipped(f: Field[Any]) -> bool:
         return bool(f.skip or (f.skip_serializing and f.skip_deserializing))
 
-    candidates = [f for f in all_fields if f.init and not fully_skipped(f)]
+    candidates = [
+        f for f in all_fields if f.init and not (f.skip or f.skip_serializing or f.skip_deserializing)
+    ]
     if len(candidates) != 1:
         raise SerdeError(
             f"{typename(cls)} with `transparent=True` must have exactly one init=True, "
-- 
2.43.0


From 371c1e300e6782647bc8095846d44c3881bccfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 37/55] fix: generate functions for undecorated generic
 dataclasses in fields

---
 serde/de.py | 5 +++--
 serde/se.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index fb97350..dfda429 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -355,10 +355,11 @@ def deserialize(
         for typ in iter_types(cls):
             # When we encounter a dataclass not marked with deserialize, then also generate
             # deserialize functions for it.
-            if is_dataclass_without_de(typ) and typ is not cls:
+            origin = get_origin(typ) if is_generic(typ) else typ
+            if is_dataclass_without_de(origin) and origin is not cls:
                 # We call deserialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the deserialization function.
-                deserialize(typ)
+                deserialize(origin)
 
             # We don't want to add primitive class e.g "str" into the scope, but primitive
             # compatible types such as IntEnum and a subclass of primitives are added,
diff --git a/serde/se.py b/serde/se.py
index ae06358..e3e2f4e 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -295,10 +295,11 @@ def serialize(
         for typ in iter_types(cls):
             # When we encounter a dataclass not marked with serialize, then also generate serialize
             # functions for it.
-            if is_dataclass_without_se(typ) and typ is not cls:
+            origin = get_origin(typ) if is_generic(typ) else typ
+            if is_dataclass_without_se(origin) and origin is not cls:
                 # We call serialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the serialization function.
-                serialize(typ)
+                serialize(origin)
 
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
-- 
2.43.0


From 852584042f042f4ebb0c527038212cac955938ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 38/55] fix: refer to classes named like local variables of the
 generated code

---
 serde/core.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 17b759c..e9e07a2 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -3,6 +3,7 @@ pyserde core module.
 """
 
 from __future__ import annotations
+import builtins
 import dataclasses
 import enum
 import functools
@@ -90,6 +91,13 @@ UNION_DE_PREFIX = "union_de"
 
 LITERAL_DE_PREFIX = "literal_de"
 
+# names of the local variables in the generated code
+GENERATED_LOCALS = frozenset(
+    "cls convert_sets data deserialize_numbers e errors fake_data fake_dict k maybe_generic "
+    "maybe_generic_type_vars obj res reuse_instances serde_scope skip_none subres union_args v "
+    "variable_type_args".split()
+)
+
 SETTINGS = {"debug": False}
 
 
@@ -332,10 +340,21 @@ class Scope:
         """
         name = typename(typ)
         typ = get_origin(typ) if is_generic(typ) else typ
-        if issubclass(type(typ), type) and self.types.setdefault(name, g.get(name, typ)) is not typ:
+        if issubclass(type(typ), type) and self._named(name, g.get(name, typ)) is not typ:
             return  # See "type_ref"
         g[name] = typ
 
+    def _named(self, name: str, typ: Any) -> Any:
+        """
+        Get the type of the name in the generated code. Names of built-in functions and of
+        the local variables are not available.
+        """
+        if name not in GENERATED_LOCALS:
+            typ = getattr(builtins, name, typ)
+        else:
+            typ = None
+        return self.types.setdefault(name, typ)
+
     def type_ref(self, typ: Any) -> str:
         """
         Render the reference to the type. Types of the same name (e.g. classes of different
@@ -345,7 +364,7 @@ class Scope:
         if not issubclass(type(typ), type):
             return base
         n = 2
-        while self.types.setdefault(name, typ) is not typ:
+        while self._named(name, typ) is not typ:
             name = f"{base}_{n}"
             n += 1
         return name if name == base else f"serde_scope.types[{name!r}]"
-- 
2.43.0


From 7ce9ad3a8c725c2776a2c1fee9e16e0a4157a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 39/55] fix: do not use functions of the base class for
 undecorated dataclasses

---
 serde/de.py | 3 +++
 serde/se.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index dfda429..978f8ae 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -463,6 +463,9 @@ def is_dataclass_without_de(cls: type[Any]) -> bool:
         return False
     if not hasattr(cls, SERDE_SCOPE):
         return True
+    typ = cls if isinstance(cls, type) else type(cls)
+    if "__dataclass_fields__" in vars(typ) and SERDE_SCOPE not in vars(typ):
+        return True  # The functions of the base class know nothing about the other fields
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
diff --git a/serde/se.py b/serde/se.py
index e3e2f4e..e4f4d1e 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -380,6 +380,9 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
         return False
     if not hasattr(cls, SERDE_SCOPE):
         return True
+    typ = cls if isinstance(cls, type) else type(cls)
+    if "__dataclass_fields__" in vars(typ) and SERDE_SCOPE not in vars(typ):
+        return True  # The functions of the base class know nothing about the other fields
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
-- 
2.43.0


From fbefb333591930db00b5f06199e3dea24bf3812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 40/55] fix: pass values by keyword to classes with InitVar

---
 serde/core.py | 18 ++++++++++--------
 serde/de.py   | 13 +++++++++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index e9e07a2..fb934bd 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -91,11 +91,13 @@ UNION_DE_PREFIX = "union_de"
 
 LITERAL_DE_PREFIX = "literal_de"
 
-# names of the local variables in the generated code
-GENERATED_LOCALS = frozenset(
-    "cls convert_sets data deserialize_numbers e errors fake_data fake_dict k maybe_generic "
-    "maybe_generic_type_vars obj res reuse_instances serde_scope skip_none subres union_args v "
-    "variable_type_args".split()
+# names of the functions and of the local variables in the generated code
+GENERATED_NAMES = frozenset(
+    (
+        "cls convert_sets data deserialize_numbers e errors fake_data fake_dict k maybe_generic "
+        "maybe_generic_type_vars obj res reuse_instances serde_scope skip_none subres union_args v "
+        f"variable_type_args {FROM_ITER} {FROM_DICT} {TO_ITER} {TO_DICT}"
+    ).split()
 )
 
 SETTINGS = {"debug": False}
@@ -346,10 +348,10 @@ class Scope:
 
     def _named(self, name: str, typ: Any) -> Any:
         """
-        Get the type of the name in the generated code. Names of built-in functions and of
-        the local variables are not available.
+        Get the type of the name in the generated code. Names of built-in functions and
+        "GENERATED_NAMES" are not available.
         """
-        if name not in GENERATED_LOCALS:
+        if name not in GENERATED_NAMES:
             typ = getattr(builtins, name, typ)
         else:
             typ = None
diff --git a/serde/de.py b/serde/de.py
index 978f8ae..ef7a3ea 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1439,6 +1439,15 @@ def to_iter_arg(f: DeField[T], *args: Any, **kwargs: Any) -> DeField[T]:
     return f
 
 
+def has_init_var(cls: type[Any]) -> bool:
+    """
+    Test if the class has parameters which are not fields, so that the positions of the fields
+    are not the ones of the parameters.
+    """
+    pseudo_fields = getattr(cls, "__dataclass_fields__", {}).values()
+    return any(f._field_type is dataclasses._FIELD_INITVAR for f in pseudo_fields)  # type: ignore
+
+
 def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
@@ -1681,7 +1690,7 @@ def render_from_iter(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw = False
+    force_kw = has_init_var(cls)
     positions: dict[str, int] = {}
     position = 0
     for f in all_fields:
@@ -1811,7 +1820,7 @@ def render_from_dict(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw = False
+    force_kw = has_init_var(cls)
     for field in all_fields:
         if not renderable(field):
             force_kw = True
-- 
2.43.0


From f74e1f3a59bb07c516457f9927707826e17242f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 41/55] fix: do not apply dataclass to dataclasses again

---
 serde/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index fb934bd..b2086af 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1235,6 +1235,11 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return True
 
+    # The class itself is a dataclass. Its annotations may contain names which are not fields e.g.
+    # ClassVar and KW_ONLY. "dataclass" can't be applied again without losing field options.
+    if "__dataclass_fields__" in vars(cls):
+        return False
+
     # Checking is_dataclass is not enough in such a case that the class is inherited
     # from another dataclass. To do it correctly, check if all fields in __annotations__
     # are present as dataclass fields.
-- 
2.43.0


From 566a4dec0f1ae2b3ba4fc03eb576b4a6585e45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 42/55] fix: do not modify dicts returned by custom serializers
 when tagging internally

---
 serde/se.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index e4f4d1e..9c71c73 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -795,9 +795,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
-    res[{{str_literal(tagging.tag)}}] = "{{typename(t)}}"
-    return res
+    return {{"{"}}**{{rvalue(arg(t))}}, {{str_literal(tagging.tag)}}: "{{typename(t)}}"}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     res = {{"{"}}{{str_literal(tagging.content)}}: {{rvalue(arg(t))}}}
-- 
2.43.0


From b96832229b90e4837c6c58799a886e2a02a46d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 43/55] fix: keep instances of type variables and directly
 passed types with reuse_instances

---
 serde/de.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index ef7a3ea..2d7fa52 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -693,6 +693,8 @@ def _from_obj(
             from .numpy import deserialize_numpy_array_direct
 
             res = deserialize_numpy_array_direct(c, o)
+        elif reuse_instances and (is_str_serializable(c) or is_datetime(c)) and isinstance(o, c):
+            res = o
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif is_float(c):
-- 
2.43.0


From 8d20534c10ea3b962b1ca19013d96f710ae9e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 44/55] fix: treat aliases of aliases like the aliased type

---
 serde/compat.py | 9 +++++++++
 serde/de.py     | 6 +++---
 serde/se.py     | 7 +++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d6709c1..6dfc7b4 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1099,6 +1099,15 @@ def is_pep695_type_alias(typ: Any) -> bool:
     return isinstance(typ, _PEP695_TYPES)
 
 
+def unwrap_pep695_type_alias(typ: Any) -> Any:
+    """
+    Get the type behind a PEP695 type alias, which may be an alias of another alias.
+    """
+    while is_pep695_type_alias(typ):
+        typ = typ.__value__
+    return typ
+
+
 @cache
 def get_type_var_names(cls: type[Any]) -> list[str] | None:
     """
diff --git a/serde/de.py b/serde/de.py
index 2d7fa52..839e934 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -61,6 +61,7 @@ from .compat import (
     is_union,
     is_variable_tuple,
     is_pep695_type_alias,
+    unwrap_pep695_type_alias,
     iter_literals,
     iter_types,
     iter_unions,
@@ -567,8 +568,7 @@ def _from_obj(
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
     # aliased type itself, so unwrap it to recognize e.g. a union.
-    if is_pep695_type_alias(c):
-        c = c.__value__  # type: ignore[attr-defined]
+    c = unwrap_pep695_type_alias(c)
 
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
@@ -1891,7 +1891,7 @@ def render_union_func(
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
-    members = [t.__value__ if is_pep695_type_alias(t) else t for t in union_args]
+    members = [unwrap_pep695_type_alias(t) for t in union_args]
     renderer = Renderer(
         FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
     )
diff --git a/serde/se.py b/serde/se.py
index 9c71c73..eb35793 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -62,6 +62,7 @@ from .compat import (
     is_union,
     is_variable_tuple,
     is_pep695_type_alias,
+    unwrap_pep695_type_alias,
     iter_types,
     iter_unions,
     type_args,
@@ -446,8 +447,7 @@ def to_obj(
 
         # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not
         # the aliased type itself, so unwrap it to recognize e.g. a union.
-        if c is not None and is_pep695_type_alias(c):
-            c = c.__value__
+        c = unwrap_pep695_type_alias(c)
 
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
@@ -905,8 +905,7 @@ def union_members(union_args: list[type[Any]]) -> list[tuple[int, type[Any]]]:
     """
     members: list[tuple[int, type[Any]]] = []
     for i, typ in enumerate(union_args):
-        if is_pep695_type_alias(typ):
-            typ = typ.__value__  # type: ignore[attr-defined]
+        typ = unwrap_pep695_type_alias(typ)
         position = len(members)
         if isinstance(typ, type):
             for j, (_, other) in enumerate(members):
-- 
2.43.0


From 278d84dd1d578df3884f949cf8136c97fe28047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 45/55] fix: find the default factory of defaultdicts of any
 value type

---
 serde/de.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 839e934..eba3fe9 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -673,9 +673,8 @@ def _from_obj(
             elif is_default_dict(c):
                 f = DeField(c, "")
                 v = f.value_field()
-                origin = get_origin(v.type)
                 res = collections.defaultdict(
-                    origin if origin else v.type,
+                    default_dict_factory(v.type),
                     {
                         keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
                         for k, v in o.items()
@@ -1306,14 +1305,7 @@ class Renderer:
         elif is_default_dict(arg.type):
             k = arg.key_field()
             v = arg.value_field()
-            origin = get_origin(v.type)
-            if origin:
-                # When the callable type is of generic type e.g list.
-                # Get origin type "list" from "list[X]".
-                callable = origin.__name__
-            else:
-                # When the callable type is non generic type e.g int, Foo.
-                callable = v.type.__name__
+            callable = self.scope.declared_type_ref(default_dict_factory(v.type))
             return f"collections.defaultdict({callable}, \
                     {{{self.dict_key(k)}: {self.render(v)} for k, v in {arg.data}.items()}})"
         else:
@@ -1461,6 +1453,21 @@ def has_item(f: DeField[Any]) -> bool:
     return renderable(f) or not (f.skip or f.skip_serializing)
 
 
+def default_dict_factory(typ: Any) -> Callable[[], Any] | None:
+    """
+    Get the default factory of the defaultdict which has values of the type e.g. "list" for
+    "list[X]". None if there is no class to construct e.g. for Optional or Any.
+    """
+    typ = unwrap_pep695_type_alias(typ)
+    while hasattr(typ, "__supertype__"):
+        typ = unwrap_pep695_type_alias(typ.__supertype__)
+    if is_none(typ):
+        return type(None)
+    if is_any(typ) or is_union(typ) or is_literal(typ):
+        return None
+    return get_origin(typ) or typ  # type: ignore
+
+
 def count_items(f: DeField[Any]) -> int:
     """
     Get the number of the items that the field has in the tuple.
-- 
2.43.0


From dcb358f23857a06601aa60d8eba2b42ee0a78d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 46/55] fix: do not confuse fields with variables of the
 generated code when flattening

---
 serde/de.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index eba3fe9..20250bd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1547,24 +1547,24 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% if has_flatten_dict %}
-  __flatten_known_fields = {{ known_fields }}
-  __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
+  _flatten_known_fields = {{ known_fields }}
+  _flatten_extra = {k: v for k, v in (data or {}).items() if k not in _flatten_known_fields}
   {% endif %}
 
   {% for f in fields %}
   {% if f.flatten and is_flatten_dict(f.type) %}
-  __{{f.name}} = __flatten_extra
+  __{{f.name}} = _flatten_extra
   {% else %}
   {% set child_scope = flattened_dataclass_child_scopes.get(f.name) %}
   {% if child_scope %}
-  __{{f.name}}_flatten_data = _project_flattened_data(
+  _flatten_data_{{f.name}} = _project_flattened_data(
     data,
     {{ child_scope.de_known_fields }},
     {{ known_fields }},
     {{ child_scope.de_has_flatten_dict }},
     {{ has_flatten_dict }},
   )
-  {% set field_arg = arg(f,loop.index-1, datavar="__" ~ f.name ~ "_flatten_data") %}
+  {% set field_arg = arg(f,loop.index-1, datavar="_flatten_data_" ~ f.name) %}
   {% else %}
   {% set field_arg = arg(f,loop.index-1) %}
   {% endif %}
-- 
2.43.0


From ff2b93e148337df826ec5c77e30b3b3eac58887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:41 +0000
Subject: [PATCH 47/55] fix: tell classes apart from the helpers of the
 generated code

---
 serde/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index b2086af..f3ea373 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -91,12 +91,16 @@ UNION_DE_PREFIX = "union_de"
 
 LITERAL_DE_PREFIX = "literal_de"
 
-# names of the functions and of the local variables in the generated code
+# names of the functions and of the variables in the generated code
 GENERATED_NAMES = frozenset(
     (
         "cls convert_sets data deserialize_numbers e errors fake_data fake_dict k maybe_generic "
         "maybe_generic_type_vars obj res reuse_instances serde_scope skip_none subres union_args v "
-        f"variable_type_args {FROM_ITER} {FROM_DICT} {TO_ITER} {TO_DICT}"
+        "BeartypeCallHintParamViolation Literal Optional SerdeError TypeCheck Union UserError "
+        "class_deserializers class_serializers coerce_object collections copy deserialize_enum "
+        "disabled ensure enum_value from_obj get_generic_arg is_bearable is_dataclass is_instance "
+        "serde_legacy_custom_class_deserializer serde_legacy_custom_class_serializer to_obj "
+        f"typename typing variable_type_args {FROM_ITER} {FROM_DICT} {TO_ITER} {TO_DICT}"
     ).split()
 )
 
-- 
2.43.0


From 60e9ab50fba179b526d2797e0844e39bd3268695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:18 +0000
Subject: [PATCH 48/55] fix: apply the options of stacked serialize and
 deserialize decorators

---
 serde/de.py | 2 ++
 serde/se.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 20250bd..5838444 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -316,6 +316,8 @@ def deserialize(
             )
             setattr(cls, SERDE_SCOPE, scope)
         scope.transparent = transparent
+        # The scope may have been created by "serialize", which has own options.
+        scope.reuse_instances_default = reuse_instances_default
 
         class_deserializers: list[ClassDeserializer] = list(
             itertools.chain(
diff --git a/serde/se.py b/serde/se.py
index eb35793..2570def 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -266,6 +266,11 @@ def serialize(
             )
             setattr(cls, SERDE_SCOPE, scope)
         scope.transparent = transparent
+        # The scope may have been created by "deserialize", which has own options.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
 
         class_serializers: list[ClassSerializer] = list(
             itertools.chain(GLOBAL_CLASS_SERIALIZER, [class_serializer] if class_serializer else [])
-- 
2.43.0


From 7e3cb0c40e8455bbf740fe91e39a96537033f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 49/55] fix: make subclasses which override fields dataclasses

---
 serde/core.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index f3ea373..aa70f0a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1239,31 +1239,13 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return True
 
-    # The class itself is a dataclass. Its annotations may contain names which are not fields e.g.
-    # ClassVar and KW_ONLY. "dataclass" can't be applied again without losing field options.
+    # The class itself is a dataclass.
     if "__dataclass_fields__" in vars(cls):
         return False
 
-    # Checking is_dataclass is not enough in such a case that the class is inherited
-    # from another dataclass. To do it correctly, check if all fields in __annotations__
-    # are present as dataclass fields.
-    annotations = getattr(cls, "__annotations__", {})
-    if not annotations:
-        return False
-
-    field_names = [field.name for field in dataclass_fields(cls)]
-    for field_name, annotation in annotations.items():
-        # Omit InitVar field because it doesn't appear in dataclass fields.
-        if is_instance(annotation, dataclasses.InitVar):
-            continue
-        # This field in __annotations__ is not a part of dataclass fields.
-        # This means this class does not implement dataclass directly.
-        if field_name not in field_names:
-            return True
-
-    # If all of the fields in __annotation__ are present as dataclass fields,
-    # the class already implemented dataclass, thus returns False.
-    return False
+    # The class is inherited from a dataclass. Its own annotations, if any, are new fields or
+    # override the ones of the base class.
+    return bool(getattr(cls, "__annotations__", {}))
 
 
 @dataclass
-- 
2.43.0


From b764a6dc255f2341d513f09210cc0d3a63986296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 50/55] fix: make subclasses dataclasses in serialize and
 deserialize, too

---
 serde/de.py | 3 ++-
 serde/se.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 5838444..f2a1def 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -94,6 +94,7 @@ from .core import (
     is_instance,
     literal_func_name,
     logger,
+    should_impl_dataclass,
     union_func_name,
     unique_func_name,
     str_literal,
@@ -290,7 +291,7 @@ def deserialize(
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
-        if not is_dataclass(cls):
+        if should_impl_dataclass(cls):
             dataclass(cls)
 
         if transparent:
diff --git a/serde/se.py b/serde/se.py
index 2570def..74b7660 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -88,6 +88,7 @@ from .core import (
     fields,
     is_instance,
     logger,
+    should_impl_dataclass,
     union_func_name,
     unique_func_name,
     GLOBAL_CLASS_SERIALIZER,
@@ -240,7 +241,7 @@ def serialize(
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
-        if not is_dataclass(cls):
+        if should_impl_dataclass(cls):
             dataclass(cls)
 
         if transparent:
-- 
2.43.0


From 481cd6d73049da17028c678715de725ee8b31a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 51/55] fix: recover numeric dict keys of new types and type
 aliases

---
 serde/de.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index f2a1def..288cc4f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -512,16 +512,21 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     return None
 
 
-def is_numeric_key(typ: Any) -> bool:
+def numeric_key_type(typ: Any) -> Any:
     """
-    Test if a dict key of the type is recovered from its stringified form.
+    Get the class of a dict key which is recovered from its stringified form. None if a key of the
+    type isn't.
     """
-    return (
+    typ = unwrap_pep695_type_alias(typ)
+    while hasattr(typ, "__supertype__"):
+        typ = unwrap_pep695_type_alias(typ.__supertype__)
+    numeric = (
         isinstance(typ, type)
         and issubclass(typ, (int, float))
         and not issubclass(typ, bool)
         and not is_enum(typ)
     )
+    return typ if numeric else None
 
 
 def _deserialize_optional(
@@ -618,8 +623,10 @@ def _from_obj(
 
         def keyfunc(typ: type[Any], key: Any) -> Any:
             # Formats such as JSON stringify numeric keys. See also "Renderer.dict_key".
-            if is_numeric_key(typ) and find_global_class_deserializer(typ) is None:
-                return coerce_object(typename(maybe_generic), "k", typ, key)
+            typ = unwrap_pep695_type_alias(typ)
+            key_type = numeric_key_type(typ)
+            if key_type and find_global_class_deserializer(typ) is None:
+                return coerce_object(typename(maybe_generic), "k", key_type, key)
             return thisfunc(typ, key)
 
         class_deserializer = find_global_class_deserializer(c)
@@ -1326,9 +1333,14 @@ class Renderer:
         ``strict``), mirroring how stringified ``IntEnum``/``IntFlag`` keys are handled.
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
-        typ = arg.type
-        if is_numeric_key(typ) and typ not in self.implemented_methods():
-            return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
+        typ = unwrap_pep695_type_alias(arg.type)
+        key_type = numeric_key_type(typ)
+        if key_type and typ not in self.implemented_methods():
+            if key_type is typ:
+                key_class = self.type_ref(typ)
+            else:
+                key_class = self.generic_type(key_type)
+            return f'coerce_object("{self.class_name}", "k", {key_class}, {arg.data})'
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
-- 
2.43.0


From c6e656d26218a0bdf01fe22dd2fd5abb04621db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 52/55] fix: support enum members in Literal

---
 serde/core.py | 26 +++++++++++++++++++++++++-
 serde/de.py   | 22 ++++++----------------
 serde/se.py   | 10 ++++++++++
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index aa70f0a..1101d70 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -98,7 +98,8 @@ GENERATED_NAMES = frozenset(
         "maybe_generic_type_vars obj res reuse_instances serde_scope skip_none subres union_args v "
         "BeartypeCallHintParamViolation Literal Optional SerdeError TypeCheck Union UserError "
         "class_deserializers class_serializers coerce_object collections copy deserialize_enum "
-        "disabled ensure enum_value from_obj get_generic_arg is_bearable is_dataclass is_instance "
+        "disabled ensure enum_value find_literal from_obj get_generic_arg is_bearable is_dataclass "
+        "is_instance literal_value "
         "serde_legacy_custom_class_deserializer serde_legacy_custom_class_serializer to_obj "
         f"typename typing variable_type_args {FROM_ITER} {FROM_DICT} {TO_ITER} {TO_DICT}"
     ).split()
@@ -1091,6 +1092,29 @@ def unique_func_name(name: str, args: Sequence[Any], registry: dict[str, list[An
     return unique
 
 
+def find_literal(literal_args: Sequence[Any], data: Any) -> Any:
+    """
+    Get the argument of a Literal which is equal to the value. Enum members are found by the value
+    as which they are serialized.
+
+    >>> find_literal([1, "a"], "a")
+    'a'
+    """
+    for v in literal_args:
+        if type(data) is type(v) and data == v:
+            return v
+    for v in literal_args:
+        if isinstance(v, enum.Enum):
+            try:
+                if deserialize_enum(type(v), data) is v:
+                    return v
+            except Exception:  # Not a value of this enum
+                pass
+    raise SerdeError(
+        f"Can not deserialize {data!r} as Literal[{', '.join(repr(a) for a in literal_args)}]."
+    )
+
+
 def literal_func_name(literal_args: Sequence[Any]) -> str:
     """
     Generate a function name with all literals and corresponding types specified with Literal[...]
diff --git a/serde/de.py b/serde/de.py
index 288cc4f..58ad9d0 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -84,6 +84,7 @@ from .core import (
     TypeCheck,
     add_func,
     coerce_object,
+    find_literal,
     deserialize_enum,
     strict,
     get_transparent_field,
@@ -343,6 +344,7 @@ def deserialize(
         g["disabled"] = disabled
         g["coerce_object"] = coerce_object
         g["deserialize_enum"] = deserialize_enum
+        g["find_literal"] = find_literal
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
@@ -397,8 +399,8 @@ def deserialize(
             )
 
         # render literal functions
-        for literal_key, literal_args in scope.literal_args.items():
-            add_func(scope, literal_key, render_literal_func(cls, literal_key, literal_args), g)
+        for literal_key in scope.literal_args:
+            add_func(scope, literal_key, render_literal_func(cls, literal_key), g)
 
         # Collect default values and default factories used in the generated code.
         for f in defields(cls):
@@ -695,9 +697,7 @@ def _from_obj(
                     keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
         elif is_literal(c):
-            if not any(type(o) is type(v) and o == v for v in type_args(c)):
-                raise SerdeError(f"Can not deserialize {o!r} as {typename(c)}.")
-            res = o
+            res = find_literal(type_args(c), o)
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
 
@@ -1686,11 +1686,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  for v in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
-    if type(data) is type(v) and data == v:
-      return data
-  raise SerdeError("Can not deserialize " + repr(data) + \
-          " as " + {{str_literal(literal_name)}} + ".")
+  return find_literal(serde_scope.literal_args['{{func}}'], data)
   """,
         }
     )
@@ -1942,17 +1938,11 @@ def render_union_func(
 def render_literal_func(
     cls: type[Any],
     func_name: str,
-    literal_args: Sequence[Any],
     tagging: Tagging = DefaultTagging,
 ) -> str:
-    literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
     return jinja2_env.get_template("literal").render(
         func=func_name,
         serde_scope=getattr(cls, SERDE_SCOPE),
-        literal_args=literal_args,
-        literal_name=literal_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
-        repr=repr,
-        type=type,
     )
diff --git a/serde/se.py b/serde/se.py
index 74b7660..bc90586 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -283,6 +283,7 @@ def serialize(
         g["serde_scope"] = scope
         g["SerdeError"] = SerdeError
         g["enum_value"] = enum_value
+        g["literal_value"] = literal_value
         g["is_dataclass"] = is_dataclass
         g["typename"] = typename  # used in union functions
         g["is_instance"] = is_instance  # used in union functions
@@ -1232,9 +1233,18 @@ class Renderer:
         )
 
     def literal(self, arg: SeField[Any]) -> str:
+        if any(isinstance(v, enum.Enum) for v in type_args(arg.type)):
+            return f"literal_value({arg.varname})"
         return f"{arg.varname}"
 
 
+def literal_value(v: Any) -> Any:
+    """
+    Get the value as which an argument of a Literal is serialized.
+    """
+    return enum_value(type(v), v) if isinstance(v, enum.Enum) else v
+
+
 def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
-- 
2.43.0


From 8e2720929285b0152efc4f6f18e61fdf51d16346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 53/55] fix: deserialize bare frozenset to frozenset

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 58ad9d0..6bf45e4 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -651,7 +651,7 @@ def _from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1262,7 +1262,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From 11bf7c13511f7803286b09ad7bf571b9e5777390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 54/55] fix: treat typing.Tuple as a bare tuple

---
 serde/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index 6dfc7b4..e781534 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -666,7 +666,7 @@ def is_bare_tuple(typ: type[Any]) -> bool:
     >>> is_bare_tuple(tuple)
     True
     """
-    return typ is tuple
+    return typ in (tuple, typing.Tuple)
 
 
 @cache
-- 
2.43.0


From 00cbda1ecbe031e5e2c96786d70bd2df93298ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 55/55] fix: serialize frozenset elements of sets as frozenset

---
 serde/se.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index bc90586..3df58bb 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -48,6 +48,7 @@ from .compat import (
     is_dict,
     is_enum,
     is_flatten_dict,
+    is_frozen_set,
     is_generic,
     is_list,
     is_literal,
@@ -1145,9 +1146,11 @@ class Renderer:
         else:
             earg = arg[0]
             earg.name = "v"
+            # A frozenset stays hashable, so that it can be an element of a set.
+            ctor = "frozenset" if is_frozen_set(arg.type) else "set"
             return (
                 f"[{self.render(earg)} for v in {arg.varname}] "
-                f"if convert_sets else set({self.render(earg)} for v in {arg.varname})"
+                f"if convert_sets else {ctor}({self.render(earg)} for v in {arg.varname})"
             )
 
     def deque(self, arg: SeField[Any]) -> str:
-- 
2.43.0

