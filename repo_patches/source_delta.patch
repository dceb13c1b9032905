From 4c66885d942b606b8da8be96862f0d4af2e49955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 01/49] fix: keep observed container attached when an in-place
 operator is not (or cannot be) assigned back

`x = obj.prop; x += [...]` and a rejected `obj.prop += [...]` detached the
container the instance still holds, so later mutations skipped validation
and notification.
---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 09c7432b6120a32292967cf8f2d98eac8bf1bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 02/49] fix: listeners_disabled counts open contexts instead of
 restoring a snapshot

Entering the same context manager object twice, or leaving contexts in an
order other than the reverse of entering them, left listeners disabled for
ever (or re-enabled them too early).
---
 properties/handlers.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..53a5ade 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -24,10 +24,11 @@ class listeners_disabled(object):                                              #
             self.quietly_update()
     """
 
-    _quarantine = set()
+    _quarantine = {typ: 0 for typ in LISTENER_TYPES}
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._entered = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,16 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
-        if self.disable_type is None:
-            listeners_disabled._quarantine = set(LISTENER_TYPES)
-        else:
-            listeners_disabled._quarantine.update(self.disable_type)
+        types = tuple(
+            LISTENER_TYPES if self.disable_type is None else self.disable_type
+        )
+        self._entered.append(types)
+        for typ in types:
+            listeners_disabled._quarantine[typ] += 1
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        for typ in self._entered.pop():
+            listeners_disabled._quarantine[typ] -= 1
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
@@ -101,7 +104,7 @@ def _set_listener(instance, obs):
 def _get_listeners(instance, change):
     """Gets listeners of changed Property on a HasProperties instance"""
     if (
-            change['mode'] not in listeners_disabled._quarantine and           #pylint: disable=protected-access
+            not listeners_disabled._quarantine[change['mode']] and             #pylint: disable=protected-access
             change['name'] in instance._listeners
     ):
         return instance._listeners[change['name']][change['mode']]
-- 
2.43.0


From 5c7257c1508d6c88ece62ed98a27bd9dfcabef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 03/49] fix: listeners_disabled only affects the thread that
 entered it

Constructing or deserializing an object in one thread silently suppressed
validators and observers of unrelated objects in every other thread.
---
 properties/handlers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 53a5ade..dd6ca95 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -4,6 +4,8 @@ from __future__ import division
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import threading
+
 from six import string_types
 
 from .utils import everything
@@ -11,6 +13,14 @@ from .utils import everything
 LISTENER_TYPES = {'validate', 'observe_set', 'observe_change'}
 
 
+class _Quarantine(threading.local):                                            #pylint: disable=too-few-public-methods
+    """Per-thread count of the open contexts that disable a listener type"""
+
+    def __init__(self):
+        super(_Quarantine, self).__init__()
+        self.counts = {typ: 0 for typ in LISTENER_TYPES}
+
+
 class listeners_disabled(object):                                              #pylint: disable=invalid-name, too-few-public-methods
     """Context manager for disabling all HasProperties listeners
 
@@ -24,7 +34,7 @@ class listeners_disabled(object):                                              #
             self.quietly_update()
     """
 
-    _quarantine = {typ: 0 for typ in LISTENER_TYPES}
+    _quarantine = _Quarantine()
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
@@ -59,11 +69,11 @@ class listeners_disabled(object):                                              #
         )
         self._entered.append(types)
         for typ in types:
-            listeners_disabled._quarantine[typ] += 1
+            listeners_disabled._quarantine.counts[typ] += 1
 
     def __exit__(self, *exc):
         for typ in self._entered.pop():
-            listeners_disabled._quarantine[typ] -= 1
+            listeners_disabled._quarantine.counts[typ] -= 1
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
@@ -104,7 +114,7 @@ def _set_listener(instance, obs):
 def _get_listeners(instance, change):
     """Gets listeners of changed Property on a HasProperties instance"""
     if (
-            not listeners_disabled._quarantine[change['mode']] and             #pylint: disable=protected-access
+            not listeners_disabled._quarantine.counts[change['mode']] and      #pylint: disable=protected-access
             change['name'] in instance._listeners
     ):
         return instance._listeners[change['name']][change['mode']]
-- 
2.43.0


From 35ae35ee81dceb560488644c65cb3fa8b6b0162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 04/49] fix: Singleton.deserialize no longer removes
 _singleton_id from the caller's dictionary

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 13ecd59877a8829ac06fbcf192f0d3d920bcc438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 05/49] fix: concurrent or re-entrant Singleton construction
 always yields one object per name

---
 properties/extras/singleton.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..b40d350 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -18,8 +18,7 @@ class SingletonMetaclass(PropertyMetaclass):
             oldinst = cls._SINGLETONS[name]
             return oldinst
         newinst = super(SingletonMetaclass, cls).__call__(name, **kwargs)
-        cls._SINGLETONS[name] = newinst
-        return newinst
+        return cls._SINGLETONS.setdefault(name, newinst)
 
 
 class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
-- 
2.43.0


From 9da1a00fd3e4224297a822d27622e1416b555b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 06/49] fix: failed Singleton.deserialize does not leave a
 partially-loaded singleton registered

---
 properties/extras/singleton.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index b40d350..ec7c377 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -84,13 +84,18 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
         value.update({'name': identifier})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        if name:
-            newinst.name = name
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            if name:
+                newinst.name = name
+        except BaseException:
+            # Do not keep a partially-loaded singleton
+            cls._SINGLETONS.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From 63bde2fa50e455c1bcd2eb2927b3ea2c5ab5b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 07/49] fix: Singleton classes without a 'name' property can be
 deserialized

The identifying name was dropped with the non-property keys, so restoring
such a singleton in a fresh process failed with TypeError.
---
 properties/extras/singleton.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index ec7c377..4d2627f 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import six
 
+from .. import handlers
 from ..base import HasProperties, PropertyMetaclass
 
 
@@ -83,8 +84,15 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
+        output_cls = cls._deserialize_class(
+            value.get('__class__'), trusted, strict
+        )
         try:
+            if 'name' in output_cls._props:
+                value.update({'name': identifier})
+            else:
+                with handlers.listeners_disabled():
+                    kwargs.update({'_instance': output_cls(identifier)})
             newinst = super(Singleton, cls).deserialize(
                 value,
                 trusted=trusted,
-- 
2.43.0


From 12cf6500cb2793c2c5639868829be91c13f9a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 08/49] fix: failed HasUID construction releases the uid it
 claimed

---
 properties/extras/uid.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..e5d4ece 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 
 import uuid
 
-from six import string_types, text_type
+from six import iteritems, string_types, text_type
 
 from .. import base, basic, handlers, utils
 
@@ -28,9 +28,19 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        super(HasUID, self).__init__(**kwargs)
+        try:
+            super(HasUID, self).__init__(**kwargs)
+        except BaseException:
+            self._forget_instance()
+            raise
         self._INSTANCES[self.uid] = self
 
+    def _forget_instance(self):
+        """Remove a partially-constructed instance from the registry"""
+        for uid, inst in list(iteritems(self._INSTANCES)):
+            if inst is self:
+                self._INSTANCES.pop(uid, None)
+
     @handlers.validator('uid')
     def _ensure_unique(self, change):
         if self.uid == change['value']:
-- 
2.43.0


From c63c2a2f00f867cbbf34ab9720d52c21eda86859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 09/49] fix: deleting the uid of a HasUID instance does not
 register 'undefined' as a uid

Deleting uid on a second instance failed with 'UID already used'.
---
 properties/extras/uid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index e5d4ece..2338402 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -43,7 +43,7 @@ class HasUID(base.HasProperties):
 
     @handlers.validator('uid')
     def _ensure_unique(self, change):
-        if self.uid == change['value']:
+        if self.uid == change['value'] or change['value'] is utils.undefined:
             pass
         elif change['value'] in self._INSTANCES:
             raise utils.ValidationError(
@@ -56,6 +56,8 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
+        if change['value'] is utils.undefined:
+            return
         self._INSTANCES.update({change['value']: self})
 
     @classmethod
-- 
2.43.0


From f183b7f85db1f5100385d0077d5cb3f5d541962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 10/49] fix: HasUID.deserialize accepts instances that are
 referenced more than once

A child shared by two properties (or listed twice) serialized fine but
failed to load with 'UID already used'.
---
 properties/extras/uid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 2338402..b52095d 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -157,6 +157,8 @@ class HasUID(base.HasProperties):
             uid = kwargs.get('root', registry.get('__root__'))
         else:
             uid = value
+        if isinstance(registry.get(uid), HasUID):
+            return registry[uid]
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
         if uid in cls._INSTANCES:
-- 
2.43.0


From c4ab2e3ebed998c32622736fc5d51b790100199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 11/49] fix: failed HasUID.deserialize releases every uid it
 loaded

Instances loaded before the failure (and the temporary uid of each loaded
instance) stayed registered, so loading the corrected data failed with
'UID already used'.
---
 properties/extras/uid.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index b52095d..393ec57 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 
 import uuid
 
-from six import iteritems, string_types, text_type
+from six import iteritems, itervalues, string_types, text_type
 
 from .. import base, basic, handlers, utils
 
@@ -150,7 +150,8 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
+        root = registry is None
+        if root:
             if not isinstance(value, dict):
                 raise ValueError('HasUID must deserialize from dictionary')
             registry = value.copy()
@@ -173,15 +174,26 @@ class HasUID(base.HasProperties):
                 input_class = None
             new_cls = cls._deserialize_class(input_class, trusted, strict)
             new_inst = new_cls()
+            temp_uid = new_inst.uid
             registry.update({uid: new_inst})
-            super(HasUID, cls).deserialize(
-                value=value,
-                trusted=trusted,
-                strict=strict,
-                registry=registry,
-                _instance=new_inst,
-                **kwargs
-            )
+            try:
+                super(HasUID, cls).deserialize(
+                    value=value,
+                    trusted=trusted,
+                    strict=strict,
+                    registry=registry,
+                    _instance=new_inst,
+                    **kwargs
+                )
+            except BaseException:
+                # Forget everything loaded so far so the uids are available
+                for inst in itervalues(registry if root else {uid: new_inst}):
+                    if isinstance(inst, HasUID):
+                        inst._forget_instance()
+                registry.update({uid: value})
+                raise
+            if new_inst.uid != temp_uid:
+                new_inst._INSTANCES.pop(temp_uid, None)
         cls._INSTANCES[uid] = registry[uid]
         return registry[uid]
 
-- 
2.43.0


From d5929e1068db05bee66a417a74cef9cc217b29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 12/49] fix: HasUID.deserialize honours assert_valid

---
 properties/extras/uid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 393ec57..6516059 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -185,6 +185,10 @@ class HasUID(base.HasProperties):
                     _instance=new_inst,
                     **kwargs
                 )
+                if root and assert_valid and not new_inst.validate():
+                    raise utils.ValidationError(
+                        'Deserialized instance is not valid'
+                    )
             except BaseException:
                 # Forget everything loaded so far so the uids are available
                 for inst in itervalues(registry if root else {uid: new_inst}):
-- 
2.43.0


From 95477c26e2e993487a1a5006a8afc8b174a2434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 13/49] fix: ImagePNG serializes the whole image wherever the
 stream position is

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From cb95fc88864776804bb1cddd7ba1d9cf23369e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 14/49] fix: Vector3Array and Vector2Array do not modify the
 list being assigned

Direction names were replaced in the caller's list (by references to the
module's own direction constants), and tuples of names failed.
---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 8633f111ff0f6e6cc49f18dc758fa19e58944bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 15/49] fix: a rejected deletion of a File property does not
 close the file

The instance kept holding a closed (invalid) file.
---
 properties/basic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..08c8aee 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1367,9 +1367,12 @@ class File(Property):
 
         def fdel(self):
             """Set value to utils.undefined on delete"""
-            if self._get(scope.name) is not None:
-                self._get(scope.name).close()
-            self._set(scope.name, undefined)
+            value = self._get(scope.name)
+            try:
+                self._set(scope.name, undefined)
+            finally:
+                if value is not None and self._get(scope.name) is not value:
+                    value.close()
 
         new_prop = property(fget=prop.fget, fset=prop.fset,
                             fdel=fdel, doc=scope.sphinx())
-- 
2.43.0


From b8522266d571edcfde8161819c56b5c479bd1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 16/49] fix: DateTime serializes years before 1000 in the
 format it can load

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 08c8aee..674d040 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1256,7 +1256,7 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        return '{:04d}{}'.format(value.year, value.strftime('-%m-%dT%H:%M:%SZ'))
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From e3c174c1148d8d81e51591ec74a8f0dd2a6eea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 17/49] fix: numbers too large to convert are rejected as
 invalid instead of raising OverflowError

---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 674d040..ead89fc 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From 09f76990758135eeedd65eb7b1f481c1a1410267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 18/49] fix: BaseTask.report_status accepts a status without
 progress

---
 properties/extras/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..d4b6fc1 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,10 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=(
+                '?' if status.progress is None
+                else int(round(100*status.progress))
+            ),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From 8c9ade51be842b63c69fae45ee03ec56ab853d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 19/49] fix: a HasUID instance can take back a uid that is
 still registered to it

After renaming or deleting its uid, assigning the former uid again failed
with 'UID already used' although no other instance uses it.
---
 properties/extras/uid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 6516059..d17b698 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -45,7 +45,7 @@ class HasUID(base.HasProperties):
     def _ensure_unique(self, change):
         if self.uid == change['value'] or change['value'] is utils.undefined:
             pass
-        elif change['value'] in self._INSTANCES:
+        elif self._INSTANCES.get(change['value'], self) is not self:
             raise utils.ValidationError(
                 message='UID already used: {}'.format(change['value']),
                 reason='invalid',
-- 
2.43.0


From 84962eec92ed395aea6de53c951ce89620af7ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 20/49] fix: a new uid is registered before any other observer
 of uid runs

A failing change-only observer left the instance holding a uid that was not
registered, so a second instance could claim it.
---
 properties/extras/uid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index d17b698..cf30e57 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -54,7 +54,7 @@ class HasUID(base.HasProperties):
             )
         return True
 
-    @handlers.observer('uid')
+    @handlers.observer('uid', change_only=True)
     def _update_instances(self, change):
         if change['value'] is utils.undefined:
             return
-- 
2.43.0


From 3ad3f4d3ecd6a6daf477e863dd9d86cd518b3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 21/49] fix: an infinite or nan Float (or Complex) equals
 itself

Such values are accepted, serialized and loaded, but compared unequal to
themselves, so validate() rejected them and setting them again counted as a
change.
---
 properties/basic.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ead89fc..173372d 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -879,7 +879,11 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return (
+                abs(value_a - value_b) <= TOL or
+                value_a == value_b or
+                (value_a != value_a and value_b != value_b)                    #pylint: disable=comparison-with-itself
+            )
         except TypeError:
             return False
 
@@ -928,8 +932,14 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal, imag_equal = (
+                abs(part_a - part_b) <= TOL or
+                part_a == part_b or
+                (part_a != part_a and part_b != part_b)                        #pylint: disable=comparison-with-itself
+                for part_a, part_b in (
+                    (value_a.real, value_b.real), (value_a.imag, value_b.imag)
+                )
+            )
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From 689f69c2dbc846cc3f4d065167cba040747c67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 22/49] fix: a document key naming a Renamed property is loaded
 by the property it points to

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..3f80af2 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -573,7 +573,10 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            prop = output_cls._props[key]
+            while isinstance(prop, basic.Renamed) and prop.deserializer is None:
+                prop = output_cls._props[prop.new_name]
+            newstate[key] = prop.deserialize(val, **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
-- 
2.43.0


From 507b06353018b49cbd977e3b35ecdc596fc4f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 23/49] fix: save_dynamic converts a Renamed property to JSON
 like the property it points to

---
 properties/base/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 3f80af2..ceb4c58 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -504,11 +504,14 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 prop_source = self._props
             else:
                 prop_source = self._backend
-            data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
-                for key in prop_source
-            )
-            json_dict = {k: v for k, v in data if v is not None}
+            json_dict = {}
+            for key in prop_source:
+                prop = self._props[key]
+                while isinstance(prop, basic.Renamed) and not prop.serializer:
+                    prop = self._props[prop.new_name]
+                val = prop.serialize(getattr(self, key), **kwargs)
+                if val is not None:
+                    json_dict[key] = val
             if include_class:
                 json_dict.update({'__class__': self.__class__.__name__})
             return json_dict
-- 
2.43.0


From 26819c98a84ba9bfbd28bfd92999aa67e5b0a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 24/49] fix: a HasUID construction that fails after
 HasUID.__init__ releases the uid it claimed

---
 properties/base/base.py  |  9 ++++++++-
 properties/extras/uid.py | 10 +++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index ceb4c58..3659977 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -277,7 +277,11 @@ class PropertyMetaclass(type):
         # Set the other defaults without triggering change notifications
         with handlers.listeners_disabled():
             obj._reset()
-        obj.__init__(*args, **kwargs)
+        try:
+            obj.__init__(*args, **kwargs)
+        except BaseException:
+            obj._abandon()
+            raise
         return obj
 
 
@@ -343,6 +347,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             self._validation_error_tuples = None
             self._non_validation_error = None
 
+    def _abandon(self):
+        """Method called on an instance if its construction fails"""
+
     def _get(self, name):
         return self._backend.get(name, None)
 
diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index cf30e57..eb14d4a 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -28,14 +28,10 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        try:
-            super(HasUID, self).__init__(**kwargs)
-        except BaseException:
-            self._forget_instance()
-            raise
+        super(HasUID, self).__init__(**kwargs)
         self._INSTANCES[self.uid] = self
 
-    def _forget_instance(self):
+    def _abandon(self):
         """Remove a partially-constructed instance from the registry"""
         for uid, inst in list(iteritems(self._INSTANCES)):
             if inst is self:
@@ -193,7 +189,7 @@ class HasUID(base.HasProperties):
                 # Forget everything loaded so far so the uids are available
                 for inst in itervalues(registry if root else {uid: new_inst}):
                     if isinstance(inst, HasUID):
-                        inst._forget_instance()
+                        inst._abandon()
                 registry.update({uid: value})
                 raise
             if new_inst.uid != temp_uid:
-- 
2.43.0


From 9fe8e674a1e3c4c0b4de5d5f6c64cccc36093d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 25/49] fix: a Pointer holding a uid stays valid once the uid
 can be loaded

---
 properties/extras/uid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index eb14d4a..e89eef2 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -278,6 +278,17 @@ class Pointer(base.Instance):
             return super(Pointer, self).validate(instance, instance_value)
         return value
 
+    def assert_valid(self, instance, value=None):
+        """Checks if valid; a UID remains valid once it can be loaded"""
+        if value is None:
+            value = instance._get(self.name)
+        if (
+                self.load and isinstance(value, string_types) and
+                not isinstance(self.validate(instance, value), string_types)
+        ):
+            return True
+        return super(Pointer, self).assert_valid(instance, value)
+
     def deserialize(self, value, **kwargs):
         """Deserialize instance from JSON value
 
-- 
2.43.0


From c38adfa7ec6eb74c62887593a3c015c372fc9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 26/49] fix: a link that fails while it is being made links
 nothing

---
 properties/link.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/properties/link.py b/properties/link.py
index 6afaa50..47bd2d4 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -185,11 +185,18 @@ class link(object):                                                            #
         if kwargs.get('transform', None) is not None:
             raise ValueError('Only directional_links may specify transform')
         self._dlinks = ()
-        for i, item_i in enumerate(items):
-            for j, item_j in enumerate(items):
-                if i == j:
-                    continue
-                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
+        try:
+            for i, item_i in enumerate(items):
+                for j, item_j in enumerate(items):
+                    if i == j:
+                        continue
+                    self._dlinks += (
+                        directional_link(item_i, item_j, **kwargs),
+                    )
+        except BaseException:
+            # Nobody could unlink the links made before the failure
+            self.unlink()
+            raise
 
     @property
     def dlinks(self):
-- 
2.43.0


From add1e2b07b6b10442ec7c0f3a63ea0cdb3487be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 27/49] fix: operators of observed containers let the other
 operand try

---
 properties/base/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..fefe1e5 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -98,6 +98,8 @@ def properties_operator(cls, name):
     def wrapper(self, *args, **kwargs):
         """Perform operation and cast to container class"""
         output = getattr(super(cls, self), name)(*args, **kwargs)
+        if output is NotImplemented:
+            return output
         return cls(output)
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From ca28280f81ab02464a9147ac9ea8887c485d46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 28/49] fix: an observed container kept by a validator stays
 observed

---
 properties/base/containers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index fefe1e5..91945a9 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -79,12 +79,15 @@ def properties_mutator(cls, name, ioper=False):
                 self is not getattr(self._instance, self._name)
         ):
             return getattr(super(cls, self), name)(*args, **kwargs)
+        instance, prop_name = self._instance, self._name
         copy = cls(self)
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
-            setattr(self._instance, self._name, copy)
-            self._instance = None
-            self._name = ''
+            setattr(instance, prop_name, copy)
+            # A validator may have kept this container as the value
+            if self is not getattr(instance, prop_name):
+                self._instance = None
+                self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 4fdd77b026257d10e796b086375695f284f997ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 29/49] fix: observed containers do not gain operators their
 builtin lacks

---
 properties/base/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 91945a9..4fc8ec9 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -49,16 +49,18 @@ MUTATOR_CATEGORIES = {
 
 def add_properties_callbacks(cls):
     """Class decorator to add change notifications to builtin containers"""
+    # dir does not include metaclass operators, unlike hasattr
+    names = dir(cls)
     for name in cls._mutators:                                                 #pylint: disable=protected-access
-        if not hasattr(cls, name):
+        if name not in names:
             continue
         setattr(cls, name, properties_mutator(cls, name))
     for name in cls._operators:                                                #pylint: disable=protected-access
-        if not hasattr(cls, name):
+        if name not in names:
             continue
         setattr(cls, name, properties_operator(cls, name))
     for name in cls._ioperators:                                               #pylint: disable=protected-access
-        if not hasattr(cls, name):
+        if name not in names:
             continue
         setattr(cls, name, properties_mutator(cls, name, True))
     return cls
-- 
2.43.0


From ea70ddff006179a3727f1d78f44345d747ea2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 30/49] fix: validate reports every invalid property when
 checking one raises another error

---
 properties/base/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 3659977..9231188 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -471,6 +471,12 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                     self._validation_error_tuples += val_err.error_tuples
                 else:
                     raise
+            except GENERIC_ERRORS as err:
+                # Check the other properties before raising this
+                if getattr(self, '_validation_error_tuples', None) is None:
+                    raise
+                if not self._non_validation_error:
+                    self._non_validation_error = err
         return True
 
     def _error_hook(self, error_tuples):
-- 
2.43.0


From 34e44b5a14a1509626d34adeaa5b45f78b4240fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 31/49] fix: save_dynamic does not pass undefined properties to
 their serializers

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 9231188..1d3c880 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -522,7 +522,10 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 prop = self._props[key]
                 while isinstance(prop, basic.Renamed) and not prop.serializer:
                     prop = self._props[prop.new_name]
-                val = prop.serialize(getattr(self, key), **kwargs)
+                val = getattr(self, key)
+                if val is None:
+                    continue
+                val = prop.serialize(val, **kwargs)
                 if val is not None:
                     json_dict[key] = val
             if include_class:
-- 
2.43.0


From 9d23aae223b9980446cd7e526e600baf0e5e92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 32/49] fix: a class-level default is not undone by a sibling
 class that only inherits the base's default

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 1d3c880..67a68fd 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -221,8 +221,11 @@ class PropertyMetaclass(type):
 
         # Update the class defaults to include inherited values
         _defaults = dict()
+        newcls._own_defaults = newcls.__dict__.get('_defaults', dict())
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            _defaults.update(parent.__dict__.get(
+                '_own_defaults', getattr(parent, '_defaults', dict())
+            ))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From e6417599841569ff371a611003e629d23818ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 33/49] fix: comparing property values never raises because
 they are arrays

---
 properties/base/instance.py |  7 ++++++-
 properties/basic.py         | 13 ++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index 2b622fc..a2140b8 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -155,7 +155,12 @@ class Instance(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return equal(value_a, value_b)
+        if (
+                isinstance(value_a, HasProperties) and
+                isinstance(value_b, HasProperties)
+        ):
+            return equal(value_a, value_b)
+        return super(Instance, self).equal(value_a, value_b)
 
     @staticmethod
     def to_json(value, **kwargs):
diff --git a/properties/basic.py b/properties/basic.py
index 173372d..8c3b679 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -269,7 +269,14 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
+        if (
+                hasattr(value_a, 'shape') and hasattr(value_b, 'shape') and
+                value_a.shape != value_b.shape
+        ):
+            return False
         equal = value_a == value_b
+        if hasattr(equal, 'all'):
+            return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
         return equal
@@ -825,7 +832,7 @@ class Integer(Boolean):
 
     def equal(self, value_a, value_b):                                         #pylint: disable=no-self-use
         """Check if two valid Property values are equal"""
-        return value_a == value_b
+        return Property.equal(self, value_a, value_b)
 
     @property
     def info(self):
@@ -884,7 +891,7 @@ class Float(Integer):
                 value_a == value_b or
                 (value_a != value_a and value_b != value_b)                    #pylint: disable=comparison-with-itself
             )
-        except TypeError:
+        except (TypeError, ValueError):
             return False
 
     @staticmethod
@@ -941,7 +948,7 @@ class Complex(Boolean):
                 )
             )
             return real_equal and imag_equal
-        except (TypeError, AttributeError):
+        except (TypeError, ValueError, AttributeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 7193dc16cb647a759d6d71e88f895817d296b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 34/49] fix: an array input that cannot be converted is
 reported as a ValidationError

---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..20dc62d 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,11 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (TypeError, ValueError):
+                self.error(instance, value,
+                           extra='Cannot coerce to the correct type.')
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From 2928567e18622ca7ce804b14114336469c0ef172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 35/49] fix: scaling a vector to its length does not modify the
 vector passed in

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 20dc62d..f05ca0f 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -285,6 +285,8 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            # The value may still be the caller's own (if coerce is False)
+            value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 5956698c616ec551126f7ac4ea82a784013cda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 36/49] fix: a vector component too large for a float is
 reported as a ValidationError

---
 properties/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index f05ca0f..678df7e 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -144,7 +144,7 @@ class Array(Property):
         if self.coerce:
             try:
                 value = self.wrapper(value)
-            except (TypeError, ValueError):
+            except (TypeError, ValueError, OverflowError):
                 self.error(instance, value,
                            extra='Cannot coerce to the correct type.')
         valid_class = (
-- 
2.43.0


From 4b48269f588ed3794110f64053a7ffe7d9db62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 37/49] fix: deserializing an Array keeps values that its first
 dtype cannot hold

---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 678df7e..e0bc46a 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -225,7 +225,11 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        value = self.wrapper(value)
+        if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
+            # Casting would only lose information
+            return value
+        return value.astype(float if float in self.dtype else self.dtype[0])
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 269c2c9bbe1224bb6792ae43aa5844ea8a9e6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 38/49] fix: empty and 0-dimensional arrays survive
 serialization

---
 properties/math.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index e0bc46a..dac1a4d 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -89,6 +89,15 @@ class Array(Property):
                                     "must be '*' or int".format(val))
         return value
 
+    @property
+    def _empty_shape(self):
+        """Shape of an array of length 0, which its JSON list does not keep"""
+        shapes = [shp for shp in self.shape or () if shp and shp[0] in ('*', 0)]
+        if not shapes:
+            return (0,)
+        shape = min(shapes, key=lambda shp: (len(shp), str(shp)))
+        return (0,) + tuple(0 if val == '*' else val for val in shape[1:])
+
     @property
     def dtype(self):
         """Valid type of the array
@@ -225,6 +234,8 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
+        if isinstance(value, list) and not value:
+            value = np.empty(self._empty_shape)
         value = self.wrapper(value)
         if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
             # Casting would only lose information
@@ -238,9 +249,9 @@ class Array(Property):
         nan values are converted to string 'nan', inf values to 'inf'.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            return str(val) if np.isnan(val) or np.isinf(val) else val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 73a059f04cbb6328d7ab870f50340691772f68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 39/49] fix: a dynamic or contained URL property can be
 declared, as URL has a description again

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From 652239e4cc9ea3192c0d26468a29eb05991a2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 40/49] fix: deserialize does not store dynamic properties

A document saved with save_dynamic left the dynamic values in the loaded
object, which then serialized them even without save_dynamic.
---
 properties/base/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 67a68fd..62c353e 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -607,8 +607,10 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
-            valid_val = output_cls._props[key].validate(instance, val)
-            instance._backend[key] = valid_val
+            prop = output_cls._props[key]
+            valid_val = prop.validate(instance, val)
+            if not isinstance(prop, basic.DynamicProperty):
+                instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
             raise utils.ValidationError('Deserialized instance is not valid')
         return instance
-- 
2.43.0


From 996cf808d6094b4564d8c1e5c3c6914195f8cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 41/49] fix: dynamic properties serialize, load and compare as
 the property they decorate

serialize(save_dynamic=True) left values such as dates, colors or arrays
unconverted, so the document was not JSON.
---
 properties/basic.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 8c3b679..475eebb 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -525,6 +525,18 @@ class DynamicProperty(GettableProperty):                                       #
         """Validate using prop validation"""
         return self.prop.validate(instance, value)
 
+    def equal(self, value_a, value_b):
+        """Compare values as prop does"""
+        return self.prop.equal(value_a, value_b)
+
+    def serialize(self, value, **kwargs):
+        """Serialize the value as prop does"""
+        return self.prop.serialize(value, **kwargs)
+
+    def deserialize(self, value, **kwargs):
+        """Deserialize the value as prop does"""
+        return self.prop.deserialize(value, **kwargs)
+
     def setter(self, func):
         """Register a set function for the DynamicProperty
 
-- 
2.43.0


From c00e2ebc18a178ebf989003a2a57accaa0f1ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 42/49] fix: vectors with nan or inf components load again

Vector2 and Vector3 refused the 'nan' and 'inf' strings they serialize to.
---
 properties/math.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index dac1a4d..2037e53 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -234,8 +234,12 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        if isinstance(value, list) and not value:
-            value = np.empty(self._empty_shape)
+        def _recurse_list(val):
+            if isinstance(val, list):
+                return [_recurse_list(v) for v in val]
+            return float(val) if val in ('nan', 'inf', '-inf') else val
+        if isinstance(value, list):
+            value = _recurse_list(value) or np.empty(self._empty_shape)
         value = self.wrapper(value)
         if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
             # Casting would only lose information
-- 
2.43.0


From d9b43acd77af2e26d358b92a50492d1505468a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 43/49] fix: comparing instances compares a Renamed value as
 the property it stands for

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 62c353e..589fb06 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -671,6 +671,8 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                continue  # the property it stands for is compared instead
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From a2916cd458c5870526d8c344bea59bc339f044e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 44/49] fix: a Union loads a subclass instance through the
 alternative it belongs to

---
 properties/base/union.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..f22eaaa 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 
 from warnings import warn
 
-from six import PY2
+from six import PY2, string_types
 
 from .base import GENERIC_ERRORS, HasProperties
 from .instance import Instance
@@ -242,6 +242,13 @@ class Union(basic.Property):
             for prop in instance_props:
                 if clsname == prop.instance_class.__name__:
                     return prop.deserialize(value, **kwargs)
+            if kwargs['trusted'] and isinstance(clsname, string_types):
+                # Subclasses are only found in the registry of their base
+                for prop in instance_props:
+                    registry = getattr(prop.instance_class, '_REGISTRY', {})
+                    cls = registry.get(clsname)
+                    if cls and issubclass(cls, prop.instance_class):
+                        return prop.deserialize(value, **kwargs)
         for prop in self.props:
             try:
                 out_val = prop.deserialize(value, **kwargs)
-- 
2.43.0


From 91d1d2424168de5c131c09f065e61703b2c2b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 45/49] fix: a vector too long to be scaled to its length is
 refused

---
 properties/math.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 2037e53..cb27db2 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -306,6 +306,13 @@ class BaseVector(Array):
         if self.length is not None:
             # The value may still be the caller's own (if coerce is False)
             value = value.copy()
+            with np.errstate(over='ignore'):
+                infinite = np.any(np.isinf(value.length))
+            if infinite:
+                self.error(
+                    instance, value,
+                    extra='The vector must have a finite length.'
+                )
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 986288243714eeddb7bf1a4f78101737f298d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 46/49] fix: a closed image is not accepted as a valid image

---
 properties/images.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..b5a4572 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -57,6 +57,8 @@ class ImagePNG(File):
         """
         # Pass if already validated
         if getattr(value, '__valid__', False):
+            if getattr(value, 'closed', False):
+                self.error(instance, value, extra='File is closed.')
             return value
         # Validate that value is PNG
         if isinstance(value, png.Image):
-- 
2.43.0


From a246bb8f2c7c810712a57b18d0f71831843f7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 47/49] fix: an empty file given as an image is a validation
 error

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index b5a4572..d9813e5 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -67,7 +67,7 @@ class ImagePNG(File):
             value = super(ImagePNG, self).validate(instance, value)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From c937139029fe07ce0cfab9ab628a0b9b29a049f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 48/49] fix: the web color firebrick is a known color name

Its entry was misspelt, so an input inside the documented domain of Color
was rejected.
---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 475eebb..e2d3445 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1560,7 +1560,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From 294ef68ceb7075375a5c57612b911ed516566ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 49/49] fix: a String that strips and changes case is stable
 once coerced

'HELLO' with strip='h' and change_case='lower' was stored as 'hello', which
does not validate to itself: the object was then invalid, and became 'ello'
when it was saved and loaded.
---
 properties/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index e2d3445..f9872be 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1061,6 +1061,8 @@ class String(Property):
             value = value.upper()
         elif self.change_case == 'lower':
             value = value.lower()
+        # Changing case may have produced more characters to strip
+        value = value.strip(self.strip)
         if self.unicode:
             value = text_type(value)
         else:
-- 
2.43.0

