From 411a56cb0e1fe38545d7fe25263f946932361931 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 01/62] fix: keep the order of Union parameters when the cache
 holds an equal Union

---
 jsons/_compatibility_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..ae88d39 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -49,8 +49,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Not cached: Union[A, B] equals (and hashes as) Union[B, A], but the order
+    # of the parameters matters.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0


From 192da3cbc82f9fabca83d133e9b79ee61d5c9fa4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 02/62] fix: accept any collection of names for strip_attr

---
 jsons/serializers/default_object.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..a3f4535 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -162,10 +162,9 @@ def _add_dumped_elem(
 def _normalize_strip_attr(strip_attr) -> tuple:
     # Make sure that strip_attr is always a tuple.
     strip_attr = strip_attr or tuple()
-    if (not isinstance(strip_attr, MutableSequence)
-            and not isinstance(strip_attr, tuple)):
+    if isinstance(strip_attr, str):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 2cafbee2fb6409d4ab78f6011b8f47a9d05443a7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 03/62] fix: keep dumping the other attributes when one
 attribute cannot be dumped

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index a3f4535..07d6e5e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -138,7 +138,7 @@ def _do_serialize(
                                 'attribute.'
                                 .format(attr, get_class_name(cls), err.args[0]),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From c8f8c8a3b6867fd40754d669823dfcf7dfadc629 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 04/62] fix: do not fail on an exception without arguments
 while dumping an attribute

---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 07d6e5e..b53cecb 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -130,13 +130,14 @@ def _do_serialize(
                                      **kwargs)
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
+            reason = err.args[0] if err.args else str(err)
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=reason) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr, get_class_name(cls), reason),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From ec99df279f18557d1205ede6de5394a2211015e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 05/62] fix: load a dump with a -meta without class info;
 reject a malformed -meta with a DeserializationError

---
 jsons/_common_impl.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..7c72046 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,7 @@ from typing import Callable, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import DeserializationError, UnknownClassError
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -86,7 +86,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+    except (ImportError, AttributeError, ValueError, TypeError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
@@ -121,9 +121,17 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        # The class info may be absent (e.g. with Verbosity.WITH_DUMP_TIME).
+        classes = meta.get('classes', {}) if isinstance(meta, dict) else None
+        if (not isinstance(classes, dict)
+                or not all(isinstance(classes[k], str) for k in classes)):
+            raise DeserializationError(
+                'Invalid {}: {}'.format(META_ATTR, meta), json_obj, None)
+        cls = None
+        if '/' in classes:
+            cls = get_cls_from_str(classes['/'], json_obj, fork_inst)
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From 437e1e8655976846f3f827a0a11f6b2e33b2a8a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 06/62] fix: load a time with microseconds

---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 849f2d856b357edf4d90a0bc26caed1cac9fc2e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 07/62] fix: dump the right offset for negative timezone
 offsets with minutes

---
 jsons/_datetime_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..a36a26e 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -86,9 +86,8 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     :return: the offset for ``tdelta``.
     """
     offset_s = tdelta.total_seconds()
-    offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
-    offset_t = time(abs(offset_h), abs(offset_m))
+    offset_h, offset_m = divmod(int(abs(offset_s) / 60), 60)
+    offset_t = time(offset_h, offset_m)
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
-- 
2.43.0


From b7b8ef0bb3589a0dbf34e93b0a64564c0b0eb33f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 08/62] fix: zero-pad years when dumping dates and datetimes

---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index a36a26e..db3ae26 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,9 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    if isinstance(dt, date):
+        # strftime does not zero-pad the year on every platform.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 74e3bef71a0c6d15bdb25b3a6fc59886700875b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/62] fix: dump a datetime without timezone with the local
 offset

---
 jsons/_datetime_impl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index db3ae26..17dba58 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -71,9 +71,12 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
-            return '+00:00'
+        try:
+            tdelta = obj.astimezone().utcoffset()
+        except (OverflowError, ValueError, OSError):
+            # The local time cannot be determined for this datetime.
+            tdelta = timedelta(0)
+        return _timedelta_offset_str(tdelta) if tdelta else '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
         tdelta = tzone.utcoffset(None) or \
-- 
2.43.0


From f5e0fa3f3d1a3769e4494417a0e484708774c65d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 10/62] fix: do not mutate the given object when loading hashed
 keys

---
 jsons/deserializers/default_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..68bba6c 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -50,12 +50,11 @@ def _load_hashed_keys(
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
+            original_key = obj['-keys'][key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
-            del result['-keys'][key]
             del result[key]
 
         del result['-keys']
-- 
2.43.0


From 667c433aebbc46133dedfd231f42dc1dcc46289f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 11/62] fix: drop outdated cache entries upon registering
 (de)serializers, validators or class names

---
 jsons/_extra_impl.py  | 2 --
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..70f7807 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()  # Any cached serializer may now be outdated.
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()  # Any cached deserializer may now be outdated.
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..6b31625 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+    clear()  # Any cached validator may now be outdated.
 
 
 @cached
-- 
2.43.0


From d854da68abc9a0df37f995f1cc4986c3ae205e62 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 12/62] fix: give a fork its own validators

---
 jsons/_fork_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..6a319ea 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,8 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From ff3cd1c817a437a2db1fd4525fa07003ab22beed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 13/62] fix: do not lose entries of a dict of which the keys
 have the same hash

---
 jsons/serializers/default_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..cef04c4 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -39,7 +39,7 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, obj,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
@@ -62,6 +62,7 @@ def default_dict_serializer(
 def _store_and_hash(
         obj: dict,
         key: object,
+        original: dict,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -75,6 +76,8 @@ def _store_and_hash(
             # Apparently, this was not enough; the key is still not "jsonable".
             key_hash = hash(key)
             obj_ = {**obj}
+            while key_hash in obj_ or key_hash in original:
+                key_hash += 1  # Different keys may have the same hash.
             obj_.setdefault('-keys', {})
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
-- 
2.43.0


From 5625d98e84377eea6e89aea116f72149e44d1836 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 14/62] fix: do not apply a key transformer to dict keys that
 are no strings

---
 jsons/deserializers/default_dict.py | 13 +++++++++----
 jsons/serializers/default_dict.py   |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 68bba6c..af19a9b 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -64,11 +64,16 @@ def _load_hashed_keys(
 def _deserialize(
         obj: dict,
         cls_args: tuple,
-        key_transformer: Callable[[str], str],
+        key_transformer: Optional[Callable[[str], str]],
         keys_were_hashed: bool,
         kwargs: dict) -> dict:
-    key_transformer = key_transformer or (lambda key: key)
-    key_func = key_transformer
+    def key_func(key):
+        # Only strings have a casing that can be transformed.
+        if key_transformer and isinstance(key, str):
+            return key_transformer(key)
+        return key
+
+    transform_key = key_func
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
 
     if len(cls_args) == 2:
@@ -79,7 +84,7 @@ def _deserialize(
             # ensure that the keys in the result are <key>. If the keys were
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+            key_func = lambda key: load(transform_key(key), **kwargs_k)
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index cef04c4..80ba182 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -53,7 +53,7 @@ def default_dict_serializer(
                            strict=strict,
                            **kwargs)
         if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
+            if key_transformer and isinstance(key, str):
                 key = key_transformer(key)
             result[key] = dumped_elem
     return result
-- 
2.43.0


From c2991bfd81e639a93fe58f13807c68edc1f00be9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 15/62] fix: make multitasking yield what sequential processing
 yields (empty collections, failures, fork_inst, warn_on_fail)

---
 jsons/_multitasking.py                | 27 +++++++++++++++++++---
 jsons/deserializers/default_list.py   | 32 ++++++++++++++++++---------
 jsons/exceptions.py                   | 11 +++++++++
 jsons/serializers/default_iterable.py |  5 ++++-
 4 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..786c581 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,9 +8,20 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
+class TaskFailure:
+    """
+    Takes the place of the result of a call that failed.
+    """
+
+    def __init__(self, err: Exception):
+        self.err = err
+
+
 def multi_task(
         func: Callable,
         obj: Subscriptable,
@@ -18,6 +29,13 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    """
+    Apply ``func`` to every element of ``obj`` by means of multiple tasks.
+    :return: a list of the results in which the element of every failed call is
+    a ``TaskFailure``.
+    """
+    if not len(obj):
+        return []
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
@@ -30,7 +48,8 @@ def multi_task(
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    # Any spot that remains unfilled is considered a failure.
+    result = [TaskFailure(JsonsError('A task did not finish.'))] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -78,5 +97,7 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            list_to_fill[i_] = func(obj[i_], tasks=tasks, *args, **kwargs)
+        except Exception as err:
+            list_to_fill[i_] = TaskFailure(err)
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..3380614 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -1,11 +1,12 @@
+from functools import partial
 from multiprocessing import Process
-from typing import Type
+from typing import Callable, Iterable, Type
 
 from typish import get_args
 
 from jsons._common_impl import StateHolder
 from jsons._load_impl import load
-from jsons._multitasking import multi_task
+from jsons._multitasking import TaskFailure, multi_task
 from jsons.exceptions import JsonsError, DeserializationError
 
 
@@ -39,24 +40,33 @@ def default_list_deserializer(
         kwargs_['_inferred_cls'] = True
 
     if tasks == 1:
-        result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
+        loaders = (partial(load, elem, cls=cls_, tasks=1, fork_inst=fork_inst,
+                           **kwargs_) for elem in obj)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        loaded = multi_task(partial(load, task_type=task_type), list(obj),
+                            tasks, task_type, cls_, fork_inst=fork_inst,
+                            **kwargs_)
+        loaders = (partial(_unpack, elem) for elem in loaded)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
-    return result
+    return _do_load(loaders, warn_on_fail, fork_inst)
+
+
+def _unpack(elem: object) -> object:
+    # Return the given result of a task or raise if that task failed.
+    if isinstance(elem, TaskFailure):
+        raise elem.err
+    return elem
 
 
 def _do_load(
-        obj: list,
-        cls: type,
+        loaders: Iterable[Callable[[], object]],
         warn_on_fail: bool,
-        fork_inst: Type[StateHolder],
-        kwargs) -> list:
+        fork_inst: Type[StateHolder]) -> list:
     result = []
-    for index, elem in enumerate(obj):
+    for index, loader in enumerate(loaders):
         try:
-            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
+            result.append(loader())
         except DeserializationError as err:
             new_msg = ('Could not deserialize element at index %s. %s' %
                        (index, err.message))
diff --git a/jsons/exceptions.py b/jsons/exceptions.py
index fae7459..926f61b 100644
--- a/jsons/exceptions.py
+++ b/jsons/exceptions.py
@@ -22,6 +22,17 @@ class JsonsError(Exception):
     def message(self):
         return self._message
 
+    def __reduce__(self):
+        # Allow any subclass to be pickled, whatever its constructor takes.
+        return _restore_error, (self.__class__, self.args, self.__dict__)
+
+
+def _restore_error(cls: type, args: tuple, state: dict) -> JsonsError:
+    error = cls.__new__(cls)
+    error.args = args
+    error.__dict__.update(state)
+    return error
+
 
 class ValidationError(JsonsError):
     """
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..3686c21 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -5,7 +5,7 @@ from typing import Tuple, Optional
 from typish import get_args, get_type
 
 from jsons._dump_impl import dump
-from jsons._multitasking import multi_task
+from jsons._multitasking import TaskFailure, multi_task
 from jsons.exceptions import SerializationError
 
 
@@ -45,6 +45,9 @@ def default_iterable_serializer(
     else:
         zipped_objs = list(zip(obj, subclasses))
         result = multi_task(_do_dump, zipped_objs, tasks, task_type, **kwargs_)
+        for elem in result:
+            if isinstance(elem, TaskFailure):
+                raise elem.err
 
     return result
 
-- 
2.43.0


From 083db2e329f5077ba925d4633d8d1df929f9e124 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 16/62] fix: dump tuples given the bare types tuple, Tuple and
 Tuple[()]

---
 jsons/_compatibility_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index ae88d39..1daff39 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From 614668d8e7107abfbbaf5a4b8011f0c6c7015ec5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 17/62] fix: load mappings into parameterized builtins such as
 dict[str, int]

---
 jsons/deserializers/default_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..c3438e7 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,6 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
+    if not isinstance(result, get_naked_class(cls)):
         result = cls(dict_)
     return result
-- 
2.43.0


From 334bcdcd7f7df8871fce91c41dbf82de1be1c6b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 18/62] fix: load and dump a NewType the way its supertype is
 loaded and dumped

---
 jsons/_common_impl.py |  2 ++
 jsons/_lizers_impl.py | 26 ++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7c72046..587c65e 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -137,6 +137,8 @@ def get_cls_and_meta(
 
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__  # In case of a NewType.
     result = cls in (Any, object, None, NoneType)
     if not result:
         cls_name = get_class_name(cls).lower()
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 70f7807..e08215b 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -94,6 +94,12 @@ def get_serializer(
     :param fork_inst: if given, it uses this fork of ``JsonSerializable``.
     :return: a serializer function.
     """
+    if _is_unregistered_newtype(cls, fork_inst._serializers):
+        supertype = cls.__supertype__
+        serializer = get_serializer(supertype, fork_inst)
+        return serializer and (
+            lambda obj, cls=None, **kwargs:
+            serializer(obj, cls=supertype, **kwargs))
     serializer = _get_lizer(cls, fork_inst._serializers,
                             fork_inst._classes_serializers, fork_inst)
     return serializer
@@ -109,6 +115,12 @@ def get_deserializer(
     :param fork_inst: if given, it uses this fork of ``JsonSerializable``.
     :return: a deserializer function.
     """
+    if _is_unregistered_newtype(cls, fork_inst._deserializers):
+        supertype = cls.__supertype__
+        deserializer = get_deserializer(supertype, fork_inst)
+        return deserializer and (
+            lambda obj, cls=None, **kwargs:
+            deserializer(obj, supertype, **kwargs))
     deserializer = _get_lizer(cls, fork_inst._deserializers,
                               fork_inst._classes_deserializers, fork_inst)
     return deserializer
@@ -118,17 +130,23 @@ def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
-        fork_inst: type,
-        recursive: bool = False) -> callable:
+        fork_inst: type) -> callable:
     cls_name = get_class_name(cls, str.lower, fully_qualified=True)
     lizer = (lizers.get(cls_name, None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
-    if not lizer and not recursive and hasattr(cls, '__supertype__'):
+    if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
-                          classes_lizers, fork_inst, True)
+                          classes_lizers, fork_inst)
     return lizer
 
 
+def _is_unregistered_newtype(cls: type, lizers: Dict[str, callable]) -> bool:
+    # Return True if cls is a NewType that has no (de)serializer of its own.
+    return (hasattr(cls, '__supertype__') and not isinstance(cls, type)
+            and get_class_name(cls, str.lower, fully_qualified=True)
+            not in lizers)
+
+
 def _get_lizer_by_parents(
         cls: type,
         lizers: Dict[str, callable],
-- 
2.43.0


From d692b238f7a76d627bc05ec89141cd040d01bfe4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 19/62] fix: do not fail on empty keys in the key transformers

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From cbaa6085957d37d2b5c69cf3646132965ae808d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 20/62] fix: use the fork of the class in
 JsonSerializable.with_dump

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From c5d226098627e63b07b673ca0908e0e49a536dc7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 21/62] fix: do not fail on None for classes that have 'union'
 or 'optional' in their name

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 587c65e..6a61cb2 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -143,7 +143,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From 7b903b01b34e79a0597f2897bf82302b7d37071a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 22/62] fix: call every attr_getter once and do not set
 attributes again that went through the constructor

---
 jsons/deserializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..b6951bd 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -37,6 +37,8 @@ def default_object_deserializer(
     """
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
+    # The getters that are used for the constructor are removed from this copy.
+    kwargs['attr_getters'] = dict(kwargs.get('attr_getters') or {})
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
@@ -56,7 +58,7 @@ def _get_constructor_args(
     # json_obj.
     signature_parameters = _get_signature(cls)
     hints = get_type_hints(cls.__init__, fallback_ns=cls.__module__)
-    attr_getters = dict(**(attr_getters or {}))
+    attr_getters = {} if attr_getters is None else attr_getters
 
     result = {}
     for sig_key, sig in signature_parameters.items():
-- 
2.43.0


From 182b82a42631f88dd405b07342521acf2c55cf50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 23/62] fix: accept a -meta with attributes of an unknown class

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 6a61cb2..384eddc 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -125,7 +125,7 @@ def get_cls_and_meta(
         # The class info may be absent (e.g. with Verbosity.WITH_DUMP_TIME).
         classes = meta.get('classes', {}) if isinstance(meta, dict) else None
         if (not isinstance(classes, dict)
-                or not all(isinstance(classes[k], str) for k in classes)):
+                or not isinstance(classes.get('/', ''), str)):
             raise DeserializationError(
                 'Invalid {}: {}'.format(META_ATTR, meta), json_obj, None)
         cls = None
-- 
2.43.0


From 292f56a62108d8bdf96db3ceb78a06adf28a34c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 24/62] fix: apply the class hints of a verbose dump to the
 attributes that they belong to

---
 jsons/_common_impl.py                 |  8 +++++
 jsons/_load_impl.py                   |  5 ++-
 jsons/deserializers/default_dict.py   |  6 +++-
 jsons/deserializers/default_object.py | 46 ++++++++++++++++-----------
 4 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 384eddc..c1e9ce3 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -135,6 +135,14 @@ def get_cls_and_meta(
     return None, None
 
 
+def get_nested_hints(meta_hints: Optional[dict], key: object) -> dict:
+    # Return the hints for what is stored under key; key becomes the new root.
+    root = '/{}'.format(key)
+    return {hint_key[len(root):] or '/': cls_str
+            for hint_key, cls_str in (meta_hints or {}).items()
+            if hint_key == root or hint_key.startswith(root + '/')}
+
+
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
     while hasattr(cls, '__supertype__'):
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..a74ff26 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -89,7 +89,7 @@ def load(
     initial = kwargs.get('_initial', True)
 
     kwargs_ = {
-        'meta_hints': meta_hints,  # Overridable by kwargs.
+        'meta_hints': {},
         **kwargs,
         'strict': strict,
         'fork_inst': fork_inst,
@@ -97,6 +97,9 @@ def load(
         '_initial': False,
         '_inferred_cls': cls is not original_cls,
     }
+    if meta_hints:
+        # The hints of json_obj itself precede those of any parent.
+        kwargs_['meta_hints'] = meta_hints
 
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
 
diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index af19a9b..de2c701 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -2,6 +2,7 @@ from typing import Callable, Optional, Tuple
 
 from typish import get_args
 
+from jsons._common_impl import get_nested_hints
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -85,7 +86,10 @@ def _deserialize(
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
             key_func = lambda key: load(transform_key(key), **kwargs_k)
+    meta_hints = kwargs_.pop('meta_hints', None)
     return {
-        key_func(key): load(obj[key], **kwargs_)
+        key_func(key): load(obj[key],
+                            meta_hints=get_nested_hints(meta_hints, key),
+                            **kwargs_)
         for key in obj
     }
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index b6951bd..dd5a70c 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -6,6 +6,7 @@ from jsons._common_impl import (
     get_class_name,
     META_ATTR,
     get_cls_from_str,
+    get_nested_hints,
     determine_precedence,
     can_match_with_none
 )
@@ -115,37 +116,33 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
-
-
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # Obtain the value for the attribute with the given signature from the
     # given obj. Try to obtain the class of this attribute from the meta info
     # or from type hints.
-    cls_key = '/{}'.format(sig_key)
-    cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
+    cls_, new_hints = _get_cls_and_hints(obj, sig_key, cls, meta_hints,
+                                         kwargs['fork_inst'])
+    value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
+    return value
+
+
+def _get_cls_and_hints(obj, attr_name, cls, meta_hints, fork_inst):
+    # Return the class for the attribute with the given name together with the
+    # class hints for what is inside that attribute.
+    new_hints = get_nested_hints(meta_hints, attr_name)
+    cls_str_from_meta = new_hints.get('/', None)
     cls_from_meta = None
     if cls_str_from_meta:
-        cls_from_meta = get_cls_from_str(
-            cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
+        cls_from_meta = get_cls_from_str(cls_str_from_meta, obj, fork_inst)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
-    value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
-    return value
+    return cls_, new_hints
 
 
 def _set_remaining_attrs(instance,
                          remaining_attrs,
                          attr_getters,
+                         meta_hints,
                          **kwargs):
     # Set any remaining attributes on the newly created instance.
     attr_getters = attr_getters or {}
@@ -162,9 +159,15 @@ def _set_remaining_attrs(instance,
                             'that you did not provide an annotation in your '
                             'class (ending up in __annotations__).'
                             .format(attr_name), 'hashed-keys-without-hint')
+        new_hints = {}
+        if not _is_readonly(instance, attr_name):
+            attr_type, new_hints = _get_cls_and_hints(
+                remaining_attrs, attr_name, attr_type, meta_hints,
+                kwargs['fork_inst'])
         attr_type = attr_type or type(remaining_attrs[attr_name])
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        loaded_attr = load(remaining_attrs[attr_name], attr_type,
+                           meta_hints=new_hints, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
@@ -173,6 +176,11 @@ def _set_remaining_attrs(instance,
         setattr(instance, attr_name, getter())
 
 
+def _is_readonly(instance, attr_name) -> bool:
+    attr = getattr(instance.__class__, attr_name, None)
+    return isinstance(attr, property) and attr.fset is None
+
+
 def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
-- 
2.43.0


From 3414ba31a6ec37be723bd79779034ce4405116f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 25/62] fix: keep the classes of objects in dicts and named
 tuples in a verbose dump

---
 jsons/serializers/default_dict.py   | 3 +++
 jsons/serializers/default_object.py | 2 +-
 jsons/serializers/default_tuple.py  | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 80ba182..1b59646 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -31,6 +31,9 @@ def default_dict_serializer(
     process.
     :return: a dict of which all elements are serialized.
     """
+    # The meta kwarg store_cls is filtered out, because the objects in a dict
+    # should have their own -meta attribute.
+    kwargs.pop('_store_cls', None)
     result = dict()
     types = types or dict()
     for key in obj:
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index b53cecb..d67bc3c 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -295,7 +295,7 @@ def _fill_collection_of_types(
     # class names. All of the -cls attributes are removed in the process.
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
-        if attr != META_ATTR and isinstance(obj_[attr], dict):
+        if isinstance(obj_[attr], dict) and '-cls' in obj_[attr]:
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
                                                    prefix + attr + '/',
diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..a46bceb 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -36,6 +36,9 @@ def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
     process.
     :return: a dict of which all elements are serialized.
     """
+    # The meta kwarg store_cls is filtered out, because the objects in a named
+    # tuple should have their own -meta attribute.
+    kwargs.pop('_store_cls', None)
     result = {field_name: dump(getattr(obj, field_name), **kwargs)
               for field_name in obj._fields}
     return result
-- 
2.43.0


From 5d595bef5f36ffad630adee53cb70415e925c333 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 26/62] fix: let the class in a verbose dump precede the T of
 Dict[K, T] and Tuple[T]

---
 jsons/deserializers/default_dict.py  | 3 +++
 jsons/deserializers/default_tuple.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index de2c701..7ba4d9b 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -79,7 +79,10 @@ def _deserialize(
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
+        # Mark the cls as 'inferred' so that later it is known where cls came
+        # from and the precedence of classes can be determined.
         kwargs_['cls'] = cls_v
+        kwargs_['_inferred_cls'] = True
         if not keys_were_hashed:
             # In case of cls is something like Dict[<key>, <value>], we need to
             # ensure that the keys in the result are <key>. If the keys were
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..32e90ac 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -29,6 +29,9 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        # Mark the cls as 'inferred' so that later it is known where cls came
+        # from and the precedence of classes can be determined.
+        kwargs['_inferred_cls'] = True
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
@@ -56,6 +59,8 @@ def default_namedtuple_deserializer(
     if is_dict:
         tfm_obj = {key_tfr(k): v for k, v in obj.items()}
 
+    # The types of the fields are 'inferred'.
+    kwargs['_inferred_cls'] = True
     args = []
     for index, field_name in enumerate(cls._fields):
         if index < len(obj):
-- 
2.43.0


From d022b7f9f19482219812ad09a900c467ef3c402e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 27/62] fix: do not let the class of a dict in a verbose dump
 override a more specific type hint

---
 jsons/deserializers/default_object.py | 25 +++++++++++++++++++++++--
 jsons/serializers/default_object.py   |  4 +++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index dd5a70c..a82f2dd 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -1,16 +1,22 @@
 import inspect
+from collections.abc import Mapping
 from typing import Optional, Callable, Tuple
 
 from jsons._cache import cached
 from jsons._common_impl import (
     get_class_name,
     META_ATTR,
+    NoneType,
     get_cls_from_str,
     get_nested_hints,
     determine_precedence,
     can_match_with_none
 )
-from jsons._compatibility_impl import get_type_hints
+from jsons._compatibility_impl import (
+    get_naked_class,
+    get_type_hints,
+    get_union_params
+)
 from jsons._load_impl import load
 from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
 
@@ -132,13 +138,28 @@ def _get_cls_and_hints(obj, attr_name, cls, meta_hints, fork_inst):
     new_hints = get_nested_hints(meta_hints, attr_name)
     cls_str_from_meta = new_hints.get('/', None)
     cls_from_meta = None
-    if cls_str_from_meta:
+    if cls_str_from_meta == 'dict':
+        cls_str_from_meta = 'typing.Dict'
+    # The class of a dict was derived from the elements it happened to contain,
+    # so if there is a type hint for a mapping, that hint tells more.
+    if cls_str_from_meta and not (cls_str_from_meta.startswith('typing.Dict')
+                                  and _is_mapping(cls)):
         cls_from_meta = get_cls_from_str(cls_str_from_meta, obj, fork_inst)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     return cls_, new_hints
 
 
+def _is_mapping(cls) -> bool:
+    # Return True if cls is a mapping type (or the Optional of one).
+    params = [param for param in get_union_params(cls) or []
+              if param is not NoneType]
+    if len(params) == 1 and can_match_with_none(cls):
+        cls = params[0]
+    naked_cls = get_naked_class(cls)
+    return isinstance(naked_cls, type) and issubclass(naked_cls, Mapping)
+
+
 def _set_remaining_attrs(instance,
                          remaining_attrs,
                          attr_getters,
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index d67bc3c..5dce3d5 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -315,7 +315,9 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        cls = get_type(original_obj)
+        is_namedtuple = (isinstance(original_obj, tuple)
+                         and hasattr(original_obj, '_fields'))
+        cls = type(original_obj) if is_namedtuple else get_type(original_obj)
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From 2fcafbafb20c8ce43e1df859d26729d28cee8111 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 28/62] fix: parse the names of nested generic types in a
 verbose dump

---
 jsons/_common_impl.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index c1e9ce3..a4e3c01 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -18,6 +18,7 @@ JSON_KEYS = (str, int, float, bool, NoneType)
 VALID_TYPES = (str, int, float, bool, list, tuple, set, dict, NoneType)
 META_ATTR = '-meta'  # The name of the attribute holding meta info.
 T = TypeVar('T')
+_SPECIAL_TYPES = {'NoneType': NoneType, '...': ...}
 
 
 class StateHolder:
@@ -78,6 +79,8 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     cls = getattr(builtins, cls_str, None)
     if cls:
         return cls
+    if cls_str in _SPECIAL_TYPES:
+        return _SPECIAL_TYPES[cls_str]
     if '[' in cls_str and ']' in cls_str:
         return _get_generic_cls_from_str(cls_str, source, fork_inst)
     try:
@@ -93,14 +96,28 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
-    subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
+    origin_str, subtypes_str = cls_str.split('[', 1)
+    subtypes_str = subtypes_str.rsplit(']', 1)[0]
     origin = get_cls_from_str(origin_str, source, fork_inst)
-    subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
+    subtypes = [get_cls_from_str(s, source, fork_inst)
+                for s in _split_subtypes(subtypes_str)]
     return origin[tuple(subtypes)]
 
 
+def _split_subtypes(subtypes_str: str) -> list:
+    # Split by comma, but leave the commas of any nested generics alone.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += (char == '[') - (char == ']')
+        if char == ',' and depth == 0:
+            result.append('')
+        else:
+            result[-1] += char
+    result = [elem.strip() for elem in result]
+    return [] if result == ['()'] else result
+
+
 def determine_precedence(
         cls: type,
         cls_from_meta: type,
-- 
2.43.0


From 8c2217d64ab9ebda0706c92d64403e865935ef1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 29/62] fix: leave -meta and its class hints usable when
 loading with a key transformer

---
 jsons/deserializers/default_object.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index a82f2dd..14ce264 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -206,14 +206,29 @@ def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
     if key_transformer:
-        obj = {key_transformer(key): obj[key] for key in obj}
+        # The key of the meta info is no attribute.
+        obj = {key if key == META_ATTR else key_transformer(key): obj[key]
+               for key in obj}
         kwargs = {
             **kwargs,
+            'meta_hints': _transform_hints(kwargs.get('meta_hints'),
+                                           key_transformer),
             'key_transformer': key_transformer
         }
     return obj, kwargs
 
 
+def _transform_hints(meta_hints: Optional[dict],
+                     key_transformer: Callable[[str], str]) -> dict:
+    # Transform the first key of every path, just like the keys of the object.
+    result = {}
+    for path, cls_str in (meta_hints or {}).items():
+        key, *rest = path[1:].split('/')
+        key = key_transformer(key) if key else key
+        result['/{}'.format('/'.join([key, *rest]))] = cls_str
+    return result
+
+
 def _get_remaining_args(obj: dict,
                         cls: type,
                         constructor_args: dict,
-- 
2.43.0


From f171fbfaa1928ee2dfe8a29ad8afbf4dd7c0cb67 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 30/62] fix: dump values under a hint of Any, object or of a
 class they are no instance of by their own type

---
 jsons/serializers/default_object.py | 42 ++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 5dce3d5..f24d49f 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,7 +1,7 @@
 import inspect
 from datetime import datetime, timezone
 from inspect import isfunction
-from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
+from typing import Any, Optional, Callable, Union, MutableSequence, Tuple, Dict
 
 from typish import get_type, get_mro
 
@@ -58,6 +58,22 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
+    serializer = _get_other_serializer(obj, cls, fork_inst)
+    if serializer:
+        return serializer(obj,
+                          cls=None,
+                          key_transformer=key_transformer,
+                          strip_nulls=strip_nulls,
+                          strip_privates=strip_privates,
+                          strip_properties=strip_properties,
+                          strip_class_variables=strip_class_variables,
+                          strip_attr=strip_attr,
+                          verbose=verbose,
+                          strict=strict,
+                          fork_inst=fork_inst,
+                          **kwargs)
+    if cls in (Any, object):
+        cls = None
     if cls and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
@@ -97,6 +113,30 @@ def default_object_serializer(
     return result
 
 
+def _get_other_serializer(
+        obj: object,
+        cls: Optional[type],
+        fork_inst: type) -> Optional[Callable]:
+    # Return the serializer for obj if cls does not tell what obj is (e.g. an
+    # int when cls is Any) and obj should not be serialized as an object.
+    serializer = None
+    if cls in (Any, object):
+        serializer = get_serializer(type(obj), fork_inst)
+    elif _is_mismatch(obj, cls):
+        serializer = get_serializer(type(obj), fork_inst)
+        module = getattr(serializer, '__module__', None) or ''
+        if not module.startswith('jsons.serializers.'):
+            serializer = None  # Do not interfere with custom serializers.
+    return None if serializer is default_object_serializer else serializer
+
+
+def _is_mismatch(obj: object, cls: Optional[type]) -> bool:
+    try:
+        return cls is not None and not isinstance(obj, cls)
+    except TypeError:
+        return False  # Some types do not support isinstance.
+
+
 def _do_serialize(
         obj: object,
         cls: type,
-- 
2.43.0


From 5865aa72a76ef327c8c3e6b42624e3b183127786 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 31/62] fix: load values into object by their own type

---
 jsons/_common_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index a4e3c01..67561a9 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -128,9 +128,10 @@ def determine_precedence(
         # The type from a verbose dumped object takes precedence over an
         # inferred type (e.g. T in List[T]).
         order = [cls_from_meta, cls, cls_from_type]
-    # Now to return the first element in the order that holds a value.
+    # Now to return the first element in the order that holds a value. The
+    # class object tells nothing about what to deserialize into.
     for elem in order:
-        if elem:
+        if elem and elem is not object:
             return elem
 
 
-- 
2.43.0


From 59f2b2ffca396a87abbb411139b683269b263ed3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 32/62] fix: dump and load subclasses of datetime as datetimes
 rather than dates

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..3152988 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -276,8 +276,8 @@ __all__ = [
 
 set_serializer(default_tuple_serializer, (tuple, Tuple))
 set_serializer(default_complex_serializer, complex)
-set_serializer(default_datetime_serializer, datetime)
 set_serializer(default_date_serializer, date)
+set_serializer(default_datetime_serializer, datetime)  # must be after date_serializer
 set_serializer(default_time_serializer, time)
 set_serializer(default_timezone_serializer, timezone)
 set_serializer(default_timedelta_serializer, timedelta)
@@ -296,8 +296,8 @@ set_deserializer(default_list_deserializer, (list, List))
 set_deserializer(default_tuple_deserializer, (tuple, Tuple))
 set_deserializer(default_union_deserializer, (Union, Optional))
 set_deserializer(default_defaultdict_deserializer, DefaultDict)
-set_deserializer(default_datetime_deserializer, datetime)
 set_deserializer(default_date_deserializer, date)
+set_deserializer(default_datetime_deserializer, datetime)  # must be after date_deserializer
 set_deserializer(default_time_deserializer, time)
 set_deserializer(default_timezone_deserializer, timezone)
 set_deserializer(default_timedelta_deserializer, timedelta)
-- 
2.43.0


From ebce78639acb8c26a050c6ccc7ad81ec9542a55b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 33/62] fix: let the decorators map keyword arguments and
 variable arguments too

---
 jsons/decorators.py | 57 +++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..6db0647 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -138,26 +138,50 @@ def _get_async_wrapper(
 
 def _get_params_sig(args, func):
     sig = signature(func)
-    params = sig.parameters
-    param_names = [param_name for param_name in params]
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
+    params = list(sig.parameters.values())
+    positionals = [p for p in params if p.kind in (
+        Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)]
+    var_positional = _get_param_of_kind(params, Parameter.VAR_POSITIONAL)
+    result = [(arg, positionals[i] if i < len(positionals) else var_positional)
+              for i, arg in enumerate(args)]
     return result
 
 
+def _get_kwparams_sig(kwargs, func):
+    params = signature(func).parameters
+    var_keyword = _get_param_of_kind(params.values(), Parameter.VAR_KEYWORD)
+    keywords = {name: p for name, p in params.items() if p.kind in (
+        Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)}
+    return {name: (kwargs[name], keywords.get(name, var_keyword))
+            for name in kwargs}
+
+
+def _get_param_of_kind(params, kind):
+    return next((p for p in params if p.kind == kind), None)
+
+
 def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     params_sig = _get_params_sig(args, decorated)
-    new_args = []
-    for arg, sig in params_sig:
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
-            # `decorated` is a method and arg is either `self` or `cls`.
-            new_arg = arg
-        else:
-            cls = sig.annotation if sig.annotation != Parameter.empty else None
-            new_arg = mapper(arg, cls=cls, fork_inst=fork_inst,
-                             **mapper_kwargs)
+    return [_map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs)
+            for arg, sig in params_sig]
+
+
+def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    params_sig = _get_kwparams_sig(kwargs, decorated)
+    return {name: _map_arg(arg, sig, decorated, fork_inst, mapper,
+                           mapper_kwargs)
+            for name, (arg, sig) in params_sig.items()}
+
 
-        new_args.append(new_arg)
-    return new_args
+def _map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs):
+    if sig is None:
+        # There is no such parameter; let the call itself raise.
+        return arg
+    if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
+        # `decorated` is a method and arg is either `self` or `cls`.
+        return arg
+    cls = sig.annotation if sig.annotation != Parameter.empty else None
+    return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
@@ -169,9 +193,12 @@ def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
 
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
     new_args = args
+    new_kwargs = kwargs
     if mapper:
         new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
-    result = decorated(*new_args, **kwargs)
+        new_kwargs = _map_kwargs(kwargs, decorated, fork_inst, mapper,
+                                 mapper_kwargs)
+    result = decorated(*new_args, **new_kwargs)
     return result
 
 
-- 
2.43.0


From 834fa9864b594f5c0b452fb1d50a2f39ad8de6af Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 34/62] fix: raise a DeserializationError when loadb gets
 undecodable bytes

---
 jsons/_load_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index a74ff26..9e57ddb 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -184,7 +184,11 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        raise DeserializationError('Could not decode the given bytes. {}'
+                                   .format(err), bytes_, cls) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From b91f7832fdacf565d9ac17ec210518f8159ab401 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 35/62] fix: raise a DeserializationError upon a -meta that
 names something that is no type or a Union

---
 jsons/_common_impl.py                | 6 +++++-
 jsons/deserializers/default_union.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 67561a9..674ba25 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -89,6 +89,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
+        hash(cls)  # Anything that cannot be hashed is not a type.
     except (ImportError, AttributeError, ValueError, TypeError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
@@ -101,7 +102,10 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s, source, fork_inst)
                 for s in _split_subtypes(subtypes_str)]
-    return origin[tuple(subtypes)]
+    try:
+        return origin[tuple(subtypes)]
+    except TypeError:  # E.g. int[str].
+        return _lookup_announced_class(cls_str, source, fork_inst)
 
 
 def _split_subtypes(subtypes_str: str) -> list:
diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..4b2b113 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -17,9 +17,11 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     deserialized successfully.
     """
+    # The type of obj was settled already, so no -meta may precede a sub type.
+    kwargs_ = {**kwargs, '_inferred_cls': False}
     for sub_type in get_union_params(cls):
         try:
-            return load(obj, sub_type, **kwargs)
+            return load(obj, sub_type, **kwargs_)
         except JsonsError:
             pass  # Try the next one.
     else:
-- 
2.43.0


From e0072ae3ba85370b267294524c4b98007c19bd1b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 36/62] fix: pass the key transformer to the elements when
 loading a tuple

---
 jsons/deserializers/default_tuple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 32e90ac..18873fc 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -24,6 +24,7 @@ def default_tuple_deserializer(obj: list,
     """
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
+    kwargs['key_transformer'] = key_transformer
     cls_args = get_args(cls)
     if cls_args:
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
-- 
2.43.0


From 7adb1b1f3c6fbd6c0d8f2340caba31af505e68be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 37/62] fix: let the -meta of an attribute precede the type
 hint of that attribute

---
 jsons/deserializers/default_object.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 14ce264..0c6acbc 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -44,6 +44,9 @@ def default_object_deserializer(
     """
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
+    # Mark the types of the attributes as 'inferred', so that the class in the
+    # -meta of an attribute itself takes precedence.
+    kwargs['_inferred_cls'] = True
     # The getters that are used for the constructor are removed from this copy.
     kwargs['attr_getters'] = dict(kwargs.get('attr_getters') or {})
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
-- 
2.43.0


From 7861d7de114a6190c2289982dbcae9bb17f745d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 38/62] fix: use the given fork inside of timezones and complex
 numbers too

---
 jsons/deserializers/default_complex.py  | 4 +++-
 jsons/deserializers/default_timezone.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..d9f10c6 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -1,5 +1,6 @@
 from typing import Dict
 
+from jsons._common_impl import StateHolder
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -16,7 +17,8 @@ def default_complex_deserializer(obj: Dict[str, float],
     """
     try:
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
+                         cls=Dict[str, float],
+                         fork_inst=kwargs.get('fork_inst', StateHolder))
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..7cdf26f 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -13,4 +13,4 @@ def default_timezone_deserializer(obj: dict,
     :param kwargs: not used.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    return timezone(load(obj['offset'], timedelta, **kwargs), obj['name'])
-- 
2.43.0


From f4688bc8529459d50b3022f34c2e54ac539f6b01 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 39/62] fix: accept None for untyped fields of named tuples and
 take their default values as they are

---
 jsons/deserializers/default_tuple.py | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 18873fc..c7d7af0 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import UnfulfilledArgumentError
 
@@ -64,13 +63,14 @@ def default_namedtuple_deserializer(
     kwargs['_inferred_cls'] = True
     args = []
     for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
+        if field_name in tfm_obj if is_dict else index < len(obj):
+            field = tfm_obj[field_name] if is_dict else obj[index]
+        elif field_name in cls._field_defaults:
+            # There is no value to load, take the default value as it is.
+            args.append(cls._field_defaults[field_name])
+            continue
         else:
-            field = cls._field_defaults.get(field_name, None)
+            field = None
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
@@ -80,13 +80,11 @@ def default_namedtuple_deserializer(
         else:
             field_types = getattr(cls, '_field_types', {})
 
-        if field is None:
-            hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
-                # The value 'None' is not permitted here.
-                msg = ('No value present in {} for argument "{}"'
-                       .format(obj, field_name))
-                raise UnfulfilledArgumentError(msg, field_name, obj, cls)
+        if field is None and not can_match_with_none(field_types.get(field_name)):
+            # The value 'None' is not permitted here.
+            msg = ('No value present in {} for argument "{}"'
+                   .format(obj, field_name))
+            raise UnfulfilledArgumentError(msg, field_name, obj, cls)
         cls_ = field_types.get(field_name) if field_types else None
         loaded_field = load(field, cls_, key_transformer=key_transformer, **kwargs)
         args.append(loaded_field)
-- 
2.43.0


From 1841bb35b1a22947024bb1ac27f598fc915c7035 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 40/62] fix: do not store the key of a stripped entry of a dict

---
 jsons/serializers/default_dict.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 1b59646..d1daaab 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -40,6 +40,14 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
+        dumped_elem = dump(obj_,
+                           cls=cls_,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           **kwargs)
+        if strip_nulls and dumped_elem is None:
+            continue
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
         dict_and_key = _store_and_hash(result, key, obj,
@@ -48,17 +56,9 @@ def default_dict_serializer(
                                        types=types, **kwargs)
         if dict_and_key:
             result, key = dict_and_key
-
-        dumped_elem = dump(obj_,
-                           cls=cls_,
-                           key_transformer=key_transformer,
-                           strip_nulls=strip_nulls,
-                           strict=strict,
-                           **kwargs)
-        if not (strip_nulls and dumped_elem is None):
-            if key_transformer and isinstance(key, str):
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        if key_transformer and isinstance(key, str):
+            key = key_transformer(key)
+        result[key] = dumped_elem
     return result
 
 
-- 
2.43.0


From b2d260e90cf16c1fb4531438b4ddab6d8d689a07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 41/62] fix: load the keys that were not hashed in a dict with
 hashed keys

---
 jsons/deserializers/default_dict.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 7ba4d9b..9e69856 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -34,10 +34,11 @@ def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, bool]:
+        **kwargs) -> Tuple[dict, set]:
     # Load any hashed keys and return a copy of the given obj if any hashed
-    # keys are unpacked.
+    # keys are unpacked together with the keys that have been loaded.
     result = obj
+    loaded_keys = set()
 
     stored_keys = set(obj.get('-keys', set()))
     if stored_keys:
@@ -55,18 +56,19 @@ def _load_hashed_keys(
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
+            loaded_keys.add(loaded_key)
             result[loaded_key] = result[key]
             del result[key]
 
         del result['-keys']
-    return result, len(stored_keys) > 0
+    return result, loaded_keys
 
 
 def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Optional[Callable[[str], str]],
-        keys_were_hashed: bool,
+        loaded_keys: set,
         kwargs: dict) -> dict:
     def key_func(key):
         # Only strings have a casing that can be transformed.
@@ -83,12 +85,16 @@ def _deserialize(
         # from and the precedence of classes can be determined.
         kwargs_['cls'] = cls_v
         kwargs_['_inferred_cls'] = True
-        if not keys_were_hashed:
-            # In case of cls is something like Dict[<key>, <value>], we need to
-            # ensure that the keys in the result are <key>. If the keys were
-            # hashed though, they have been loaded already.
-            kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(transform_key(key), **kwargs_k)
+        # In case of cls is something like Dict[<key>, <value>], we need to
+        # ensure that the keys in the result are <key>. Any keys that were
+        # hashed, have been loaded already.
+        kwargs_k = {**kwargs, 'cls': cls_k}
+
+        def key_func(key):
+            if key in loaded_keys:
+                return key
+            return load(transform_key(key), **kwargs_k)
+
     meta_hints = kwargs_.pop('meta_hints', None)
     return {
         key_func(key): load(obj[key],
-- 
2.43.0


From 42dd4562fcd5ba0717b4a84de5ace2b6bed71b21 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 42/62] fix: let the annotations of __init__ count for classes
 with a metaclass too

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 1daff39..902aaad 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -83,7 +83,7 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             context_dict = sys.modules[fallback_ns].__dict__
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
-    if sys.version_info.minor >= 10 and type(callable_) is type:
+    if sys.version_info.minor >= 10 and isinstance(callable_, type):
         annotations_from_init = typing.get_type_hints(callable_.__init__)
         if 'return' in annotations_from_init:
             # Python3.10: 'return' is a key that holds the returning type.
-- 
2.43.0


From 39172f551677fc874b82085d75e31c08f5563fef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 43/62] fix: dump a zero offset as +00:00, -00:00 is an unknown
 offset

---
 jsons/_datetime_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 17dba58..2c8406c 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -76,7 +76,7 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         except (OverflowError, ValueError, OSError):
             # The local time cannot be determined for this datetime.
             tdelta = timedelta(0)
-        return _timedelta_offset_str(tdelta) if tdelta else '+00:00'
+        return _timedelta_offset_str(tdelta)
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
         tdelta = tzone.utcoffset(None) or \
@@ -94,7 +94,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     offset_s = tdelta.total_seconds()
     offset_h, offset_m = divmod(int(abs(offset_s) / 60), 60)
     offset_t = time(offset_h, offset_m)
-    operator = '+' if offset_s > 0 else '-'
+    operator = '-' if offset_s < 0 else '+'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
 
-- 
2.43.0


From fac395c7fc98fcb087a301cc3031be72bb101fc6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 44/62] fix: dump a timezone given its type as well

---
 jsons/serializers/default_timezone.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..f14814c 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -1,14 +1,20 @@
 from datetime import timezone
+from typing import Optional
 
 from jsons._dump_impl import dump
 
 
-def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
+def default_timezone_serializer(
+        obj: timezone,
+        cls: Optional[type] = None,
+        **kwargs) -> dict:
     """
     Serialize the given timezone instance to a dict holding the total
     seconds.
     :param obj: the timezone instance that is to be serialized.
-    :param kwargs: not used.
+    :param cls: not used.
+    :param kwargs: any keyword arguments that are passed on to the
+    serialization of the offset.
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-- 
2.43.0


From e74676a1322cffa232883e0ac62ecf30938d6fb2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 45/62] fix: dump the keys of a dict that are members of a str
 or int enum

---
 jsons/serializers/default_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index d1daaab..88a93e3 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Callable, Dict, Optional, Tuple
 
 from jsons._common_impl import JSON_KEYS
@@ -88,4 +89,6 @@ def _store_and_hash(
 
 
 def _is_valid_json_key(key: object) -> bool:
-    return any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
+    # The members of an enum are dumped first, even if they are str or int.
+    return (not isinstance(key, Enum)
+            and any(issubclass(type(key), json_key) for json_key in JSON_KEYS))
-- 
2.43.0


From 1e457cd389b8b5c051977014717079b1aeec56d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 46/62] fix: do not dump inner classes of superclasses

---
 jsons/serializers/default_object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index f24d49f..3e69543 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -367,9 +367,13 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
 
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
+    # An inner class may have been defined in any of the superclasses.
     attr_obj = getattr(cls, attr, None)
-    return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+    return isinstance(attr_obj, type) and any(
+        attr_obj.__module__ == elder.__module__
+        and attr_obj.__qualname__ == '{}.{}'.format(elder.__qualname__,
+                                                    attr_obj.__name__)
+        for elder in get_mro(cls))
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From e68f99d18a794692dbf7e853b50e1a35da9969b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 47/62] fix: let the class info of a dict precede a bare dict
 annotation, and a generic mapping annotation precede that of an OrderedDict
 or defaultdict

---
 jsons/deserializers/default_object.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 0c6acbc..6c18ea5 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -2,6 +2,8 @@ import inspect
 from collections.abc import Mapping
 from typing import Optional, Callable, Tuple
 
+from typish import get_args
+
 from jsons._cache import cached
 from jsons._common_impl import (
     get_class_name,
@@ -20,6 +22,9 @@ from jsons._compatibility_impl import (
 from jsons._load_impl import load
 from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
 
+_MAPPINGS = ('typing.Dict', 'collections.OrderedDict',
+             'collections.defaultdict')
+
 
 def default_object_deserializer(
         obj: dict,
@@ -144,23 +149,24 @@ def _get_cls_and_hints(obj, attr_name, cls, meta_hints, fork_inst):
     if cls_str_from_meta == 'dict':
         cls_str_from_meta = 'typing.Dict'
     # The class of a dict was derived from the elements it happened to contain,
-    # so if there is a type hint for a mapping, that hint tells more.
-    if cls_str_from_meta and not (cls_str_from_meta.startswith('typing.Dict')
-                                  and _is_mapping(cls)):
+    # so a type hint for a mapping of certain types tells more.
+    if cls_str_from_meta and not (cls_str_from_meta.startswith(_MAPPINGS)
+                                  and _is_generic_mapping(cls)):
         cls_from_meta = get_cls_from_str(cls_str_from_meta, obj, fork_inst)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     return cls_, new_hints
 
 
-def _is_mapping(cls) -> bool:
-    # Return True if cls is a mapping type (or the Optional of one).
+def _is_generic_mapping(cls) -> bool:
+    # Return True if cls is a generic mapping type (or the Optional of one).
     params = [param for param in get_union_params(cls) or []
               if param is not NoneType]
     if len(params) == 1 and can_match_with_none(cls):
         cls = params[0]
     naked_cls = get_naked_class(cls)
-    return isinstance(naked_cls, type) and issubclass(naked_cls, Mapping)
+    return (bool(get_args(cls)) and isinstance(naked_cls, type)
+            and issubclass(naked_cls, Mapping))
 
 
 def _set_remaining_attrs(instance,
-- 
2.43.0


From 1de8092da88550a5b90a25b2d05fbbf4604a7da6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 48/62] fix: store a class info that fits for dicts with nested
 collections

---
 jsons/serializers/default_object.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 3e69543..61ff8ae 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -358,6 +358,8 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         is_namedtuple = (isinstance(original_obj, tuple)
                          and hasattr(original_obj, '_fields'))
         cls = type(original_obj) if is_namedtuple else get_type(original_obj)
+        if not _fits_generic(original_obj, cls):
+            cls = type(original_obj)
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
@@ -365,6 +367,29 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         result['-cls'] = cls_name
 
 
+def _fits_generic(obj: object, cls: type) -> bool:
+    # Return whether all that is inside obj is of the types inside the generic
+    # cls. It may not be: typish mixes up the levels of nested collections.
+    args = getattr(cls, '__args__', None)
+    if args is None:
+        return True
+    if isinstance(obj, dict):
+        elems = [(elem, arg) for item in obj.items()
+                 for elem, arg in zip(item, args)]
+    elif isinstance(obj, tuple):
+        if len(obj) != len(args):
+            return False
+        elems = list(zip(obj, args))
+    else:
+        elems = [(elem, args[0]) for elem in obj]
+    return all(_is_a(elem, getattr(arg, '__origin__', arg))
+               and _fits_generic(elem, arg) for elem, arg in elems)
+
+
+def _is_a(obj: object, cls: type) -> bool:
+    return isinstance(cls, type) and isinstance(obj, cls)  # No unions.
+
+
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     # An inner class may have been defined in any of the superclasses.
-- 
2.43.0


From 7c32d5a04c501effa8a139c00e8361c68e444c32 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 49/62] fix: keep the order of the entries of a dict with
 hashed keys

---
 jsons/deserializers/default_dict.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 9e69856..018ff97 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -48,19 +48,19 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
+        if not stored_keys <= set(obj):
+            raise DeserializationError('Some of the hashed keys have no value.',
+                                       obj, cls)
         key_type = cls_args[0]
-        for key in stored_keys:
-            # Get the original (unhashed) key and load it.
-            original_key = obj['-keys'][key]
-            loaded_key = load(original_key, cls=key_type, **kwargs)
-
-            # Replace the hashed key by the loaded key entirely.
-            loaded_keys.add(loaded_key)
-            result[loaded_key] = result[key]
-            del result[key]
-
-        del result['-keys']
+        # Get the original (unhashed) keys and load them.
+        originals = {key: load(obj['-keys'][key], cls=key_type, **kwargs)
+                     for key in stored_keys}
+        loaded_keys = set(originals.values())
+
+        # Replace the hashed keys by the loaded keys entirely, the order of the
+        # entries remains.
+        result = {originals.get(key, key): obj[key]
+                  for key in obj if key != '-keys'}
     return result, loaded_keys
 
 
-- 
2.43.0


From 995b05ea5eeb044c3850e683d20ddddac30c8d7e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 50/62] fix: warn about an attribute that cannot be dumped by
 its name, its value may not be printable

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 61ff8ae..0606190 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -177,7 +177,7 @@ def _do_serialize(
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), reason),
+                                .format(attr_name, get_class_name(cls), reason),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From 243d48a46a022d77d856de68f1536ccd89eae008 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 51/62] fix: distinguish registered classes of which the names
 only differ in case

---
 jsons/_lizers_impl.py | 14 +++++++-------
 jsons/_validation.py  |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index e08215b..5427e25 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -41,9 +41,9 @@ def set_serializer(
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         fork_inst._classes_serializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name.lower()] = func
+        fork_inst._serializers[cls_name] = func
     else:
-        fork_inst._serializers['nonetype'] = func
+        fork_inst._serializers['NoneType'] = func
     clear()  # Any cached serializer may now be outdated.
 
 
@@ -78,9 +78,9 @@ def set_deserializer(
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name.lower()] = func
+        fork_inst._deserializers[cls_name] = func
     else:
-        fork_inst._deserializers['nonetype'] = func
+        fork_inst._deserializers['NoneType'] = func
     clear()  # Any cached deserializer may now be outdated.
 
 
@@ -131,7 +131,7 @@ def _get_lizer(
         lizers: Dict[str, callable],
         classes_lizers: list,
         fork_inst: type) -> callable:
-    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
+    cls_name = get_class_name(cls, fully_qualified=True)
     lizer = (lizers.get(cls_name, None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
     if not lizer and hasattr(cls, '__supertype__'):
@@ -143,7 +143,7 @@ def _get_lizer(
 def _is_unregistered_newtype(cls: type, lizers: Dict[str, callable]) -> bool:
     # Return True if cls is a NewType that has no (de)serializer of its own.
     return (hasattr(cls, '__supertype__') and not isinstance(cls, type)
-            and get_class_name(cls, str.lower, fully_qualified=True)
+            and get_class_name(cls, fully_qualified=True)
             not in lizers)
 
 
@@ -155,7 +155,7 @@ def _get_lizer_by_parents(
     result = None
     parents = _get_parents(cls, classes_lizers)
     if parents:
-        pname = get_class_name(parents[0], str.lower, fully_qualified=True)
+        pname = get_class_name(parents[0], fully_qualified=True)
         result = lizers[pname]
     return result
 
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6b31625..86681b6 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -31,7 +31,7 @@ def set_validator(
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name.lower()] = func
+        fork_inst._validators[cls_name] = func
         fork_inst._classes_validators.append(cls)
     clear()  # Any cached validator may now be outdated.
 
-- 
2.43.0


From 5c69387123740fd76d1208227d343718c73b0fe3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 52/62] fix: find the class of a dumped attribute without
 taking its text

---
 jsons/serializers/default_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 0606190..4bda176 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -355,11 +355,11 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        is_namedtuple = (isinstance(original_obj, tuple)
-                         and hasattr(original_obj, '_fields'))
-        cls = type(original_obj) if is_namedtuple else get_type(original_obj)
-        if not _fits_generic(original_obj, cls):
-            cls = type(original_obj)
+        cls = type(original_obj)
+        if isinstance(original_obj, dict):
+            generic = get_type(original_obj)
+            if _fits_generic(original_obj, generic):
+                cls = generic
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From 1e8ad5c86ed2a629b9c7b9cf60821112cfcfcc07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 53/62] fix: decorated functions keep their signature, so that
 decorators can be stacked

---
 jsons/decorators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 6db0647..3c640f8 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -2,6 +2,7 @@
 This module contains decorators that facilitate the `jsons` functions in an
 alternative fashion.
 """
+from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
@@ -105,6 +106,7 @@ def _get_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     def _wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
@@ -123,6 +125,7 @@ def _get_async_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     async def _async_wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
-- 
2.43.0


From 9ce5176c63b4d0b5554ebd2e38bb73ac02c30644 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 54/62] fix: resolve forward references in the annotations of
 decorated functions

---
 jsons/decorators.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 3c640f8..49be64f 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -4,6 +4,7 @@ alternative fashion.
 """
 from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
+from typing import get_type_hints
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
 from jsons.exceptions import InvalidDecorationError
@@ -183,17 +184,27 @@ def _map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs):
     if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
         # `decorated` is a method and arg is either `self` or `cls`.
         return arg
-    cls = sig.annotation if sig.annotation != Parameter.empty else None
+    cls = _get_annotation(decorated, sig.name, sig.annotation)
     return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
-    cls = return_annotation if return_annotation != Parameter.empty else None
+    cls = _get_annotation(decorated, 'return', return_annotation)
     result = mapper(returnvalue, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
     return result
 
 
+def _get_annotation(decorated, name, annotation):
+    # Return the given annotation with any forward references resolved.
+    if annotation is None or annotation is Parameter.empty:
+        return None
+    try:
+        return get_type_hints(decorated).get(name, annotation)
+    except (AttributeError, NameError, TypeError):
+        return annotation
+
+
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
     new_args = args
     new_kwargs = kwargs
-- 
2.43.0


From 439ea870e263393175ceb4ac823fbb0670966035 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 55/62] fix: recognize self and cls in decorated methods with a
 mangled name

---
 jsons/decorators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 49be64f..45a3e0b 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -181,13 +181,22 @@ def _map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs):
     if sig is None:
         # There is no such parameter; let the call itself raise.
         return arg
-    if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
+    if sig.name in ('self', 'cls') and _has_method(arg, decorated.__name__):
         # `decorated` is a method and arg is either `self` or `cls`.
         return arg
     cls = _get_annotation(decorated, sig.name, sig.annotation)
     return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
 
+def _has_method(arg, name):
+    # Return whether arg has a method of that name, also if it is mangled.
+    if name.startswith('__') and not name.endswith('__'):
+        cls = arg if isinstance(arg, type) else type(arg)
+        return any('_{}{}'.format(c.__name__.lstrip('_'), name) in vars(c)
+                   for c in cls.__mro__)
+    return hasattr(arg, name)
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
     cls = _get_annotation(decorated, 'return', return_annotation)
-- 
2.43.0


From 217a8d4c2e0caaeffbb308924aeaf96261837a90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 56/62] fix: reject the decoration of a classmethod object

---
 jsons/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 45a3e0b..a741a34 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -226,7 +226,7 @@ def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
 
 
 def _validate_decoration(decorated, fork_inst):
-    if isinstance(decorated, staticmethod):
+    if isinstance(decorated, (staticmethod, classmethod)):
         fork_inst._warn('You cannot decorate a static- or classmethod. '
                         'You can still obtain the desired behavior by '
                         'decorating your method first and then place '
-- 
2.43.0


From 32c32b12a0c5dc45ba365a972d1ccc758dc2efb1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 57/62] fix: A NewType of a mapping keeps its element types
 next to a -meta

---
 jsons/_common_impl.py                 | 10 ++++++++--
 jsons/deserializers/default_object.py |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 674ba25..bd16e42 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -165,10 +165,16 @@ def get_nested_hints(meta_hints: Optional[dict], key: object) -> dict:
             if hint_key == root or hint_key.startswith(root + '/')}
 
 
+def get_supertype(cls: type) -> type:
+    # Return the type that was given a new name with NewType (or cls itself).
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__
+    return cls
+
+
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
-    while hasattr(cls, '__supertype__'):
-        cls = cls.__supertype__  # In case of a NewType.
+    cls = get_supertype(cls)
     result = cls in (Any, object, None, NoneType)
     if not result:
         cls_name = get_class_name(cls).lower()
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 6c18ea5..62d700b 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -11,6 +11,7 @@ from jsons._common_impl import (
     NoneType,
     get_cls_from_str,
     get_nested_hints,
+    get_supertype,
     determine_precedence,
     can_match_with_none
 )
@@ -159,11 +160,13 @@ def _get_cls_and_hints(obj, attr_name, cls, meta_hints, fork_inst):
 
 
 def _is_generic_mapping(cls) -> bool:
-    # Return True if cls is a generic mapping type (or the Optional of one).
+    # Return True if cls is a generic mapping type (or the Optional of one),
+    # whether or not a NewType was made of it.
+    cls = get_supertype(cls)
     params = [param for param in get_union_params(cls) or []
               if param is not NoneType]
     if len(params) == 1 and can_match_with_none(cls):
-        cls = params[0]
+        cls = get_supertype(params[0])
     naked_cls = get_naked_class(cls)
     return (bool(get_args(cls)) and isinstance(naked_cls, type)
             and issubclass(naked_cls, Mapping))
-- 
2.43.0


From d40fc785e9dafafef4ef5c45266020d554dc9a64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 58/62] fix: strict dumping tolerates parameters that are
 stored elsewhere

---
 jsons/serializers/default_object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 4bda176..4db183e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -78,6 +78,11 @@ def default_object_serializer(
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
             strip_attr, strict)
+        if not _is_mismatch(obj, cls):
+            # Parameters of the constructor are not necessarily attributes.
+            parameters = get_type_hints(cls.__init__)
+            attributes = {attr: type_ for attr, type_ in attributes.items()
+                          if hasattr(obj, attr) or attr not in parameters}
     else:
         attributes = _get_attributes_from_object(
             obj, strip_privates, strip_properties, strip_class_variables,
-- 
2.43.0


From 16c517cc1a4473c942aac5fd13fb4a54d2af8047 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 59/62] fix: a timezone that is merely named UTC keeps its
 offset

---
 jsons/_datetime_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 2c8406c..9301b47 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -78,7 +78,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
             tdelta = timedelta(0)
         return _timedelta_offset_str(tdelta)
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+            or tzone.utcoffset(None)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 10476d11f0e586fa18b9f9e2697a9086a9ceb659 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 60/62] fix: attributes named like a member of JsonSerializable
 are dumped

---
 jsons/serializers/default_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 4db183e..6068b63 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -275,7 +275,9 @@ def _filter_attributes(
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    # Other classes may have attributes of their own with such names.
+    excluded_elems = (dir(JsonSerializable)
+                      if StateHolder in getattr(cls, '__mro__', ()) else ())
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -284,7 +286,7 @@ def _filter_attributes(
             and not (strip_properties and attr in props)
             and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
-            and attr != 'json'
+            and not (attr == 'json' and attr in props)
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From 33a699f4dc8ec3b30002b62e9f1fc0560c5135b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:25:48 +0000
Subject: [PATCH 61/62] fix: State the reason why an attribute could not be
 dumped, if its error has several arguments

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 6068b63..20cb70e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -175,7 +175,7 @@ def _do_serialize(
                                      **kwargs)
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
-            reason = err.args[0] if err.args else str(err)
+            reason = str(err)
             if strict:
                 raise SerializationError(message=reason) from err
             else:
-- 
2.43.0


From 4586a5d70c2fc4ee7e9ad69907231d81723c6937 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:27:17 +0000
Subject: [PATCH 62/62] fix: State the reason of a validator that raises an
 error with several arguments

---
 jsons/_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_validation.py b/jsons/_validation.py
index 86681b6..f6a1a24 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -70,7 +70,7 @@ def validate(
             result = validator(obj)
         except Exception as err:
             if err.args:
-                msg = err.args[0]
+                msg = err.args[0] if len(err.args) == 1 else str(err)
             result = False
     if not result:
         raise ValidationError(msg)
-- 
2.43.0

