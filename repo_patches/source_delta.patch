From 20849aa1683a82b5e078c05d9d99fa062f5b8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 01/23] fix: check __index__ in the C security proxy

The C proxy type did not fill nb_index and so inherited zope.proxy's
unchecked slot: operator.index(), indexing and hex() read the wrapped
integer without asking the checker.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..6d7837c 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -71,6 +71,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -562,6 +563,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -722,6 +724,9 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+
+    /* Added in release 2.5 */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -891,6 +896,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 296a5b4426c0ef3c994e667ff02345521e03ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 02/23] fix: read attribute names without encoding them in the
 C checker

The name was encoded to UTF-8 up to three times per check: each encoding
leaked a bytes object, and a name with a lone surrogate (which cannot be
encoded) dereferenced a null pointer.
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..d25897d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GetLength(name) >= 2
+              && PyUnicode_ReadChar(name, 0) == '_'
+              && PyUnicode_ReadChar(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From b5223e932d5e991b0a4ff2f49d2f5c1b46a393a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 03/23] fix: forbid names whose permission is None in the C
 checker

A None value in the permission dictionaries means that access is
forbidden. The C checker asked the interaction about a permission None
instead, so a permissive interaction granted it.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d25897d..3b30a4c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -228,7 +228,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From 77e9a712a348938a87ec528cad0d698c494037ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 04/23] fix: hold the permission while the C checker asks the
 interaction

The permission was borrowed from the checker's dictionary across a call
of arbitrary code, which may remove it from there.
---
 src/zope/security/_zope_security_checker.c | 24 ++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 3b30a4c..46b3479 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -100,26 +100,38 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
       PyObject *interaction, *r;
       int i;
 
+      /* The permission is borrowed from a dictionary, which the
+         interaction may change while it decides. */
+      Py_INCREF(permission);
+
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
-        return -1;
+        {
+          Py_DECREF(permission);
+          return -1;
+        }
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        {
+          Py_DECREF(permission);
+          return -1;
+        }
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
-      if (i < 0)
-        return -1;
-      if (i)
-        return 0;
+      if (i != 0)
+        {
+          Py_DECREF(permission);
+          return i < 0 ? -1 : 0;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
+      Py_DECREF(permission);
       if (r == NULL)
         return -1;
       PyErr_SetObject(Unauthorized, r);
-- 
2.43.0


From 3f850276c203ad987a82593e0ee188aff70c0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 05/23] fix: refuse item deletion on C checkers instead of
 crashing

---
 src/zope/security/_zope_security_checker.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 46b3479..78fe9be 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -151,6 +151,14 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   PyObject *permission=NULL;
   int operator;
 
+  if (name == NULL)
+    {
+      /* We fill mp_ass_subscript: del checker[object] */
+      PyErr_SetString(PyExc_TypeError,
+                      "Checker doesn't support item deletion");
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From a3682ef070befe2189756addc57eb148dea2eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:48 +0000
Subject: [PATCH 06/23] fix: release replaced and rejected references in the C
 checker

---
 src/zope/security/_zope_security_checker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 78fe9be..804a7fd 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -322,6 +322,7 @@ Checker_proxy(Checker *self, PyObject *value)
           Py_DECREF(errv);
         }
 
+      Py_DECREF(checker);
       return NULL;
     }
 
@@ -391,9 +392,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
+  Py_XSETREF(self->getperms, getperms);
   Py_XINCREF(setperms);
-  self->setperms = setperms;
+  Py_XSETREF(self->setperms, setperms);
 
   return 0;
 }
-- 
2.43.0


From 590a247c37f00f272ac24aef853b54aec12d564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 07/23] fix: propagate unexpected errors while the C checker
 selects a checker

---
 src/zope/security/_zope_security_checker.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 804a7fd..9a9cdb2 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -294,6 +294,8 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         if checker is None: */
   if (checker == NULL)
     {
+      if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+        return NULL;
       PyErr_Clear();
 
 /*             checker = selectChecker(value) */
@@ -539,11 +541,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int is_exception = PyObject_IsInstance(object, PyExc_Exception);
+      if (is_exception < 0)
+        return NULL;
+      if (is_exception)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 1facd9df74594f2db2e24c53b4c1003f27db4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 08/23] fix: raise TypeError for next() of a proxied
 non-iterator in C

PyIter_Next was called without checking that the object is an iterator,
and called a null function pointer.
---
 src/zope/security/_proxy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 6d7837c..5ad1643 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -354,6 +354,13 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (! PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError,
+                       "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From 84dd8447658f7194ec7dc355c9d60147c1ff5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:43 +0000
Subject: [PATCH 09/23] fix: format names without encoding them in the C
 proxy's default repr

Each encoding leaked a bytes object, and a class name or module that is
not a string, or that cannot be encoded, dereferenced a null pointer.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5ad1643..7bc6afb 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -392,7 +389,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -401,22 +397,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From 7b4c88bc972a76a778ebfb7837429b922671589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:17 +0000
Subject: [PATCH 10/23] fix: perform in-place operations of the Python proxy
 like the C proxy

The Python proxy replaced its own wrapped object with whatever the
in-place method returned, NotImplemented included, and gave the result of
the binary fallback its own checker instead of the result's checker.
---
 src/zope/security/proxy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..b3b5bb1 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,18 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    operation = getattr(operator, name)
 
     def _wrapper(self, *args, **kw):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = operation(wrapped, *args, **kw)
+        if res is wrapped:
+            # If the operation was really carried out inplace,
+            # don't create a new proxy, but use the old one.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From cb2078fe59b45cce6d59f7120b6f5432ce2fb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:26 +0000
Subject: [PATCH 11/23] fix: proxy comparison results that are not booleans in
 the Python proxy

As the C implementation does; the raw object was handed out.
---
 src/zope/security/proxy.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index b3b5bb1..4f8ea80 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -56,6 +56,14 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _proxy_comparison(self, result):
+    # Comparisons aren't checked, but they may return anything.
+    if result is True or result is False:
+        return result
+    checker = super(PyProxyBase, self).__getattribute__('_checker')
+    return checker.proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -178,32 +186,32 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        return _proxy_comparison(self, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        return _proxy_comparison(self, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        return _proxy_comparison(self, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        return _proxy_comparison(self, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        return _proxy_comparison(self, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        return _proxy_comparison(self, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From 578acf1ee4a6092271de1892f5de9ebfca5c0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 12/23] fix: refuse to replace a Python proxy's object or
 checker from outside

---
 src/zope/security/proxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 4f8ea80..4b997ba 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -169,6 +169,12 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
+            # Only allow _wrapped and _checker to be set from inside:
+            # by methods, and by the constructors, which say 'inst'.
+            f_locals = sys._getframe(1).f_locals
+            if (f_locals.get('self') is not self
+                    and f_locals.get('inst') is not self):
+                raise AttributeError(name)
             return super().__setattr__(name, value)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
-- 
2.43.0


From 5c2cbe839bd88f7a3571ef83af07bc440311f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:40 +0000
Subject: [PATCH 13/23] fix: leave a current interaction that is false in a
 boolean context alone

---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From ebbd44ca382ec47fa1e9958301c6cb51fa296a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 14/23] fix: remove the participation itself, not one that is
 equal to it

---
 src/zope/security/simplepolicies.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..166efbb 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,14 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        # By identity: another participation may be equal to this one.
+        for index, member in enumerate(self.participations):
+            if member is participation:
+                del self.participations[index]
+                break
+        else:
+            raise ValueError("%r does not belong to this interaction"
+                             % participation)
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From b53912acc870ff93c4378e101524617b20292f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:21 +0000
Subject: [PATCH 15/23] fix: keep the registry in step when BasicTypes is
 updated from an iterator

---
 src/zope/security/checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..d17b2e1 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -767,6 +767,7 @@ class _BasicTypes(dict):
         raise NotImplementedError
 
     def update(self, d):
+        d = dict(d)  # d may be an iterator, which can be used only once
         dict.update(self, d)
         _checkers.update(d)
 
-- 
2.43.0


From 382f2f0ea7f21100ec1ff2c7c2fd43985c5759d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 16/23] fix: keep the permission tables alive while a name is
 looked up in them

---
 src/zope/security/_zope_security_checker.c | 70 +++++++++++++---------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 9a9cdb2..da30774 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -54,23 +54,36 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
+/* The permission recorded for a name, as a new reference, or NULL.
+   Looking up the name may run its methods, which may replace the
+   dictionary, so we have to hold on to it. */
+static PyObject *
+find_permission(PyObject *permissions, PyObject *name)
+{
+  PyObject *result = NULL;
+
+  if (permissions)
+    {
+      Py_INCREF(permissions);
+      result = PyDict_GetItem(permissions, name);
+      Py_XINCREF(result);
+      Py_DECREF(permissions);
+    }
+  return result;
+}
+
 /*     def permission_id(self, name): */
 static PyObject *
 Checker_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._permission_func(name) */
-  PyObject *result;
+  PyObject *result = find_permission(self->getperms, name);
 
-  if (self->getperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->getperms, name);
-      if (result == NULL)
-        result = Py_None;
+      result = Py_None;
+      Py_INCREF(result);
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -79,18 +92,13 @@ static PyObject *
 Checker_setattr_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._setattr_permission_func(name) */
-  PyObject *result;
+  PyObject *result = find_permission(self->setperms, name);
 
-  if (self->setperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->setperms, name);
-      if (result == NULL)
-        result = Py_None;
+      result = Py_None;
+      Py_INCREF(result);
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -160,21 +168,23 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     }
 
 /*         permission = self._permission_func(name) */
-  if (self->getperms)
-    permission = PyDict_GetItem(self->getperms, name);
+  permission = find_permission(self->getperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
+      int result = 0;
+
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission == CheckerPublic)
-        return 0;
+      if (permission != CheckerPublic
+          && checkPermission(permission, object, name) < 0)
+        result = -1;
 
-      if (checkPermission(permission, object, name) < 0)
-        return -1;
-      return 0;
+      Py_DECREF(permission);
+      return result;
     }
+  Py_XDECREF(permission);
 
 
   operator = (IS_STRING(name)
@@ -244,8 +254,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     return NULL;
 
 /*         permission = self._permission_func(name) */
-  if (self->setperms)
-    permission = PyDict_GetItem(self->setperms, name);
+  permission = find_permission(self->setperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
@@ -254,11 +263,16 @@ Checker_check_setattr(Checker *self, PyObject *args)
 /*                 return # Public */
       if (permission != CheckerPublic
           && checkPermission(permission, object, name) < 0)
-        return NULL;
+        {
+          Py_DECREF(permission);
+          return NULL;
+        }
 
+      Py_DECREF(permission);
       Py_INCREF(Py_None);
       return Py_None;
     }
+  Py_XDECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From 34426f1d417175b341a694df0a149d262a6d1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:08 +0000
Subject: [PATCH 17/23] fix: let a C checker pass on what the garbage
 collector's visitor returns

---
 src/zope/security/_zope_security_checker.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index da30774..23e8281 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -388,11 +388,8 @@ Checker_dealloc(Checker *self)
 static int
 Checker_traverse(Checker *self, visitproc visit, void *arg)
 {
-  if (self->getperms != NULL && visit(self->getperms, arg) < 0)
-    return -1;
-  if (self->setperms != NULL && visit(self->setperms, arg) < 0)
-    return -1;
-
+  Py_VISIT(self->getperms);
+  Py_VISIT(self->setperms);
   return 0;
 }
 
-- 
2.43.0


From 74aee6692e68294cb3b3083978ad41852f633523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 18/23] fix: report errors of looking up a permission from the
 C checker

---
 src/zope/security/_zope_security_checker.c | 42 +++++++++++-----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23e8281..0f08b8d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -54,7 +54,8 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
-/* The permission recorded for a name, as a new reference, or NULL.
+/* The permission recorded for a name, as a new reference, or None if there
+   isn't any, or NULL if looking it up fails.
    Looking up the name may run its methods, which may replace the
    dictionary, so we have to hold on to it. */
 static PyObject *
@@ -65,9 +66,16 @@ find_permission(PyObject *permissions, PyObject *name)
   if (permissions)
     {
       Py_INCREF(permissions);
-      result = PyDict_GetItem(permissions, name);
+      result = PyDict_GetItemWithError(permissions, name);
       Py_XINCREF(result);
       Py_DECREF(permissions);
+      if (result == NULL && PyErr_Occurred())
+        return NULL;
+    }
+  if (result == NULL)
+    {
+      result = Py_None;
+      Py_INCREF(result);
     }
   return result;
 }
@@ -77,14 +85,7 @@ static PyObject *
 Checker_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._permission_func(name) */
-  PyObject *result = find_permission(self->getperms, name);
-
-  if (result == NULL)
-    {
-      result = Py_None;
-      Py_INCREF(result);
-    }
-  return result;
+  return find_permission(self->getperms, name);
 }
 
 /*     def setattr_permission_id(self, name): */
@@ -92,14 +93,7 @@ static PyObject *
 Checker_setattr_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._setattr_permission_func(name) */
-  PyObject *result = find_permission(self->setperms, name);
-
-  if (result == NULL)
-    {
-      result = Py_None;
-      Py_INCREF(result);
-    }
-  return result;
+  return find_permission(self->setperms, name);
 }
 
 static int
@@ -169,9 +163,11 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 /*         permission = self._permission_func(name) */
   permission = find_permission(self->getperms, name);
+  if (permission == NULL)
+    return -1;
 
 /*         if permission is not None: */
-  if (permission != NULL && permission != Py_None)
+  if (permission != Py_None)
     {
       int result = 0;
 
@@ -184,7 +180,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
       Py_DECREF(permission);
       return result;
     }
-  Py_XDECREF(permission);
+  Py_DECREF(permission);
 
 
   operator = (IS_STRING(name)
@@ -255,9 +251,11 @@ Checker_check_setattr(Checker *self, PyObject *args)
 
 /*         permission = self._permission_func(name) */
   permission = find_permission(self->setperms, name);
+  if (permission == NULL)
+    return NULL;
 
 /*         if permission is not None: */
-  if (permission != NULL && permission != Py_None)
+  if (permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -272,7 +270,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
       Py_INCREF(Py_None);
       return Py_None;
     }
-  Py_XDECREF(permission);
+  Py_DECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From ebc541c0e12f5bf5947c4c6662624d3ee86631d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:51 +0000
Subject: [PATCH 19/23] fix: an error of __iter__ does not make the C checker
 grant it

---
 src/zope/security/_zope_security_checker.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 0f08b8d..be293ea 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -202,11 +202,20 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
-          && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0)
+        {
+          PyObject *iter = PyObject_GetAttr(object, name);
+          if (iter == NULL)
+            {
+              if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+                return -1;
+              /* We want an attr error if we're asked for __iter__ and we
+                 don't have it. We'll get one by allowing the access. */
+              PyErr_Clear();
+              return 0;
+            }
+          Py_DECREF(iter);
+        }
     }
 
   {
-- 
2.43.0


From b059d543b52f0bc5d243f04c869c8ca9b528dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:03 +0000
Subject: [PATCH 20/23] fix: report errors of looking up the checker of a type
 from C selectChecker

---
 src/zope/security/_zope_security_checker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index be293ea..e7f71e0 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -543,9 +543,13 @@ selectChecker(PyObject *ignored, PyObject *object)
 
 /*     checker = _getChecker(type(object), _defaultChecker) */
 
-  checker = PyDict_GetItem(_checkers, (PyObject*)Py_TYPE(object));
+  checker = PyDict_GetItemWithError(_checkers, (PyObject*)Py_TYPE(object));
   if (checker == NULL)
-    checker = _defaultChecker;
+    {
+      if (PyErr_Occurred())
+        return NULL;
+      checker = _defaultChecker;
+    }
 
 /*     if checker is NoProxy: */
 /*         return None */
-- 
2.43.0


From 37496a3df155ccb769e03277e2cfa5973be8a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:34 +0000
Subject: [PATCH 21/23] fix: protect what the views of dictionaries hand out

The views of plain dictionaries were left unproxied, so iterating over the
keys, values or items of a proxied dictionary handed out bare objects.
---
 src/zope/security/checker.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index d17b2e1..d8fc689 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -787,9 +787,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -848,6 +845,12 @@ _default_checkers = {
     list: NamesChecker(['__getitem__', '__len__', '__iter__',
                         '__contains__', 'index', 'count', '__str__',
                         '__add__', '__radd__', ]),
+    # The views of a dictionary hand out what it contains, so what they hand
+    # out needs to be protected just like what the dictionary itself does.
+    type({}.keys()): _setChecker,
+    type({}.items()): _setChecker,
+    type({}.values()): NamesChecker(['__iter__', '__len__', '__contains__',
+                                     '__str__']),
     set: _setChecker,
     frozenset: _setChecker,
     # XXX: actually decimal.Decimal has more methods, which are unlisted here
@@ -939,6 +942,7 @@ def _fixup_odict():
     # The `_fixup_dictlike` is detected as undefined because it is deleted
     # later on but this function is called beforehand:
     _fixup_dictlike(OrderedDict)  # noqa: F821 undefined name '_fixup_dictlike'
+    _fixup_dictlike(dict)  # noqa: F821 undefined name '_fixup_dictlike'
 
 
 _fixup_odict()
-- 
2.43.0


From fc394ac668e4e996f6c753d5892faa0b54ba045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:01 +0000
Subject: [PATCH 22/23] fix: a combined checker asks its first checker,
 whatever that is

The tables of the first checker were used instead of its decisions, so that
what the second checker of a first checker that is combined itself grants was
lost.
---
 src/zope/security/checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index d8fc689..3d09644 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -559,12 +559,13 @@ class CombinedChecker(Checker):
                          checker1.get_permissions,
                          checker1.set_permissions)
 
+        self._checker1 = checker1
         self._checker2 = checker2
 
     def check(self, object, name):
         'See IChecker'
         try:
-            Checker.check(self, object, name)
+            self._checker1.check(object, name)
         except ForbiddenAttribute:
             self._checker2.check(object, name)
         except Unauthorized as unauthorized_exception:
@@ -578,7 +579,7 @@ class CombinedChecker(Checker):
     def check_setattr(self, object, name):
         'See IChecker'
         try:
-            Checker.check_setattr(self, object, name)
+            self._checker1.check_setattr(object, name)
         except ForbiddenAttribute:
             self._checker2.check_setattr(object, name)
         except Unauthorized as unauthorized_exception:
-- 
2.43.0


From 12009a974b69cd0f313c5b2a007e354601e81206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:19 +0000
Subject: [PATCH 23/23] fix: module require directive accepts the documented
 interface attribute

---
 src/zope/security/metadirectives.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..a4f395b 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -198,6 +198,15 @@ class IRequire(Interface):
         value_type=PythonIdentifier(),
         required=False)
 
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require the permission for. "
+                     "The permission is required for all of the names "
+                     "defined by the interface(s). Multiple interfaces can "
+                     "be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
+
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
-- 
2.43.0

