From b65a82b53b5690161bfa63c47e47dd8a9dcd728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 01/33] fix: restore an unlocked RLock as unlocked

_create_rlock called _acquire_restore((0, 0)) for a lock without an owner,
which left the restored lock permanently unacquirable.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..59c6d60 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -819,7 +819,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if owner: # an unlocked RLock has no owner (i.e. owner is 0)
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From b0fc7ddf9965be955046d664c2ac565b8fb53f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 02/33] fix: do not leak a warnings filter from pickles

If comparing the copy with the original raised, the 'ignore' filter stayed
installed for the rest of the process.
---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 59c6d60..f207901 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2187,9 +2187,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.filterwarnings('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From 6216587cd5c85487e9fd0545b21aed2fd1909fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 03/33] fix: honor the ignore argument of parents and parent

The ids to ignore were computed but never passed to find_chain.
---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..17b96db 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -46,7 +46,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
     ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
     ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, ignore)[::-1]
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From 11f72912bf2969a1f219a22d830c0c83111e75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 04/33] fix: pickle classes with private names in __slots__

The slot descriptors of private names are stored mangled in the class dict,
were not dropped from it, and conflicted with __slots__ on load.
---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index f207901..251f273 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1874,6 +1874,10 @@ def save_type(pickler, obj, postproc_list=None):
                 slots = (slots,)
 
             for name in slots:
+                if name.startswith('__') and not name.endswith('__'):
+                    # private names are mangled in the class dict
+                    mangled = obj.__name__.lstrip('_')
+                    if mangled: name = '_%s%s' % (mangled, name)
                 _dict.pop(name, None)
 
             if isinstance(obj, abc.ABCMeta):
-- 
2.43.0


From 2002e066413c75d146982d4a57535ec683a042c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 05/33] fix: support binary files with FILE_FMODE

The contents were always read as text when dumping and always written as text
when loading, which failed for (or corrupted) files opened in binary mode.
---
 dill/_dill.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 251f273..94906d8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -863,7 +863,9 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         try:
             #FIXME: missing: *buffering*, encoding, softspace
             if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
+                f = open(name, mode if "w" in mode else "wb" if "b" in mode else "w")
+                if "b" in mode and isinstance(fdata, str): # "" or an old pickle
+                    fdata = fdata.encode()
                 f.write(fdata)
                 if "w" not in mode:
                     f.close()
@@ -1397,7 +1399,7 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
+        f = open_(obj.name, "rb" if "b" in obj.mode else "r")
         fdata = f.read()
         f.close()
     else:
-- 
2.43.0


From 9139e4bfb8a6abdc45e240eca47d01be90cf6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 06/33] fix: keep stderr silent after a nested trace
 redirection

Leaving the inner of two nested trace(file) contexts reinstalled the stderr
handler although the outer context had replaced it.
---
 dill/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..9899ad1 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -271,6 +271,7 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
         self.old_level = adapter.getEffectiveLevel()
@@ -280,6 +281,7 @@ class TraceManager(contextlib.AbstractContextManager):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.had_stderr: # could have been replaced by an outer context
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From 750edb57e91414ae0294917d204137335c24d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 07/33] fix: resolve PyCapsules that live in submodules

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 94906d8..8d27f51 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1011,9 +1011,9 @@ def _create_capsule(pointer, name, context, destructor):
         for i in range(1, uname.count('.')+1):
             names = uname.rsplit('.', i)
             try:
-                module = __import__(names[0])
+                module = _import_module(names[0])
             except ImportError:
-                pass
+                continue
             obj = module
             for attr in names[1:]:
                 obj = getattr(obj, attr)
-- 
2.43.0


From 68668aeccd29ea58842c5876d3010ffa08a7fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 08/33] fix: load runtime modules with load_module_asdict

---
 dill/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dill/session.py b/dill/session.py
index db556c8..3ea4943 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -638,6 +638,11 @@ def load_module_asdict(
     try:
         file = _make_peekable(file)
         main_name = _identify_module(file)
+        if main_name.startswith('__runtime__.'):
+            # a module-type object, there's no original module to preserve
+            main = load_module(file, **kwds)
+            main.__session__ = str(filename)
+            return main.__dict__
         old_main = sys.modules.get(main_name)
         main = ModuleType(main_name)
         if update:
-- 
2.43.0


From 6f2af3163704da774c6360ff1cab830ad314a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 09/33] fix: preserve the original submodule in
 load_module_asdict

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 8d27f51..417db66 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1065,6 +1065,8 @@ def _import_module(import_name, safe=False):
             module = '.'.join(items[:-1])
             obj = items[-1]
             submodule = getattr(__import__(module, None, None, [obj]), obj)
+            if isinstance(submodule, ModuleType): # could be temporarily replaced
+                return sys.modules.get(import_name, submodule)
             if isinstance(submodule, (ModuleType, type)):
                 return submodule
             return __import__(import_name, None, None, [obj])
-- 
2.43.0


From 043e639f3a29eadcb81743bee5e8af6f29871bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 10/33] fix: keep a removed docstring removed in pickled
 functions

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 417db66..eab81e6 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2039,6 +2039,10 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
+        if '__doc__' not in state_dict:
+            consts = getattr(obj.__code__, 'co_consts', None)
+            if consts and isinstance(consts[0], str): # the original docstring
+                state_dict['__doc__'] = None
         if obj.__qualname__ != obj.__name__:
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
-- 
2.43.0


From 1d980a0855b15429dbcf10a9495a048f17448205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 11/33] fix: pickle weak proxies of objects with an
 address-like string

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index eab81e6..66de20f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1642,6 +1642,7 @@ def _proxy_helper(obj): # a dead proxy returns a reference to None
         return id(None)
     if _str == _repr: return id(obj) # it's a repr
     try: # either way, it's a proxy from here
+        if not IS_PYPY: _str = _repr # not the object's own string
         address = int(_str.rstrip('>').split(' at ')[-1], base=16)
     except ValueError: # special case: proxy of a 'type'
         if not IS_PYPY:
-- 
2.43.0


From 68d08d31d51d65b26fab2420453128ede3ddbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 12/33] fix: store a dictionary as a reference to main's
 namespace only if it is that dictionary

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 66de20f..de230d4 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1247,16 +1247,16 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
             and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
-- 
2.43.0


From 89c6b5b594dd18aa71c9d6ec4b4bac743d48bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 13/33] fix: pickle the PyCapsule type by its registered name

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index de230d4..353aef8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2132,6 +2132,7 @@ if HAS_CTYPES and hasattr(ctypes, 'pythonapi'):
         logger.trace(pickler, "# Cap")
     _incedental_reverse_typemap['PyCapsuleType'] = PyCapsuleType
     _reverse_typemap['PyCapsuleType'] = PyCapsuleType
+    _typemap[PyCapsuleType] = 'PyCapsuleType'
     _incedental_types.add(PyCapsuleType)
 else:
     _testcapsule = None
-- 
2.43.0


From a6fb8a39a3b07283d53d74d829f827c347a7fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 14/33] fix: do not close unseekable streams given to
 load_module

---
 dill/session.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 3ea4943..569f947 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -19,6 +19,7 @@ class SecurityWarning(UserWarning):
     """Warning for insecure default temp file paths."""
     pass
 
+import io
 import re
 import os
 import sys
@@ -348,14 +349,18 @@ class _PeekableReader:
         except (AttributeError, OSError):
             raise NotImplementedError("stream is not peekable: %r", stream) from None
 
+class _BufferedReader(io.BufferedReader):
+    """buffered reader that does not close the wrapped stream"""
+    def close(self):
+        pass
+
 def _make_peekable(stream):
     """return stream as an object with a peek() method"""
-    import io
     if hasattr(stream, 'peek'):
         return stream
     if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
         try:
-            return io.BufferedReader(stream)
+            return _BufferedReader(stream)
         except Exception:
             pass
     return _PeekableReader(stream)
-- 
2.43.0


From 8e4401927d5d0d81f58e3214ef1b8d744d36946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 15/33] fix: trace pickling to streams that are not tellable

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 9899ad1..2a5fad5 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -151,7 +151,7 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError):
+        except (AttributeError, TypeError, OSError):
             pass
         if size is not None:
             if not pushed_obj:
-- 
2.43.0


From c92ef81dbb9b952db6b2af52abef19b5af1cfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 16/33] fix: restore an unset level after tracing

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 2a5fad5..8c0bbea 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -274,7 +274,7 @@ class TraceManager(contextlib.AbstractContextManager):
             self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
-        self.old_level = adapter.getEffectiveLevel()
+        self.old_level = logger.level
         adapter.setLevel(logging.INFO)
         return adapter.info
     def __exit__(self, *exc_info):
-- 
2.43.0


From ab9552a9e396cc1295e6353d552e861f28f365bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 17/33] fix: do not import a module for a dictionary that names
 it

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 353aef8..1f66316 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1258,7 +1258,7 @@ def save_module_dict(pickler, obj):
         logger.trace(pickler, "# D3")
     elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
-            and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
+            and obj is getattr(sys.modules.get(obj['__name__']), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c%s\n__dict__\n' % obj['__name__'], 'UTF-8'))
         logger.trace(pickler, "# D4")
-- 
2.43.0


From cee8a3e85184f7ace5cc9a1622ba9d098bf256a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 18/33] fix: treat an invalid module name as not importable

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 1f66316..146f6dd 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1072,7 +1072,7 @@ def _import_module(import_name, safe=False):
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-    except (ImportError, AttributeError, KeyError):
+    except (ImportError, AttributeError, KeyError, ValueError):
         if safe:
             return None
         raise
-- 
2.43.0


From 4b075096b4cf3ffcbb75b48a38d6ae18eecf7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 19/33] fix: write the source of objects in utf-8

---
 dill/temp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..98e129c 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -42,7 +42,7 @@ def capture(stream='stdout'):
 
 def b(x): # deal with b'foo' versus 'foo'
     import codecs
-    return codecs.latin_1_encode(x)[0]
+    return codecs.utf_8_encode(x)[0]
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,6 +60,7 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
     source = open(fname, mode=mode, **kwds).read()
     if not alias:
         tag = source.strip().splitlines()[-1].split()
-- 
2.43.0


From 891c2bf0e61637fad281be8e1f6d29ff248d55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 20/33] fix: load source from a file opened in binary mode

---
 dill/temp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/temp.py b/dill/temp.py
index 98e129c..577e150 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -62,6 +62,7 @@ def load_source(file, **kwds):
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
     if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
     source = open(fname, mode=mode, **kwds).read()
+    if isinstance(source, bytes): source = source.decode()
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
-- 
2.43.0


From 6b19988493e17cbcc9819fd48f5cb78cf81bb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 21/33] fix: end the search for global variables at circular
 references

---
 dill/detect.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..4bb0c79 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -169,7 +169,13 @@ def globalvars(func, recurse=True, builtin=False):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
+    return _globalvars(func, recurse, builtin, {})
+
+def _globalvars(func, recurse, builtin, seen):
+    # seen is {id:result} of the objects visited, and ends circular references
     if ismethod(func): func = func.__func__
+    if id(func) in seen: return seen[id(func)]
+    seen[id(func)] = found = {}
     if isfunction(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
@@ -180,7 +186,7 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
+                _vars = _globalvars(cell_contents, recurse, builtin, seen)
                 func.update(_vars) #XXX: (above) be wary of infinte recursion?
                 globs.update(_vars)
         # get globals
@@ -196,7 +202,7 @@ def globalvars(func, recurse=True, builtin=False):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
@@ -211,11 +217,12 @@ def globalvars(func, recurse=True, builtin=False):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 nested_func = globs.get(key)
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     else:
-        return {}
+        return found
     #NOTE: if name not in __globals__, then we skip it...
-    return dict((name,globs[name]) for name in func if name in globs)
+    found.update((name,globs[name]) for name in func if name in globs)
+    return found
 
 
 def varnames(func):
-- 
2.43.0


From 0cf04b7c17aafe93885d60439e4b9787050c688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 22/33] fix: find the globals used in the class bodies of a
 function

---
 dill/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index 4bb0c79..4bc1987 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -150,7 +150,7 @@ def nestedglobals(func, recurse=True):
         except IndexError:
             pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
+        if '_GLOBAL' in line or 'LOAD_NAME' in line: # class bodies use NAME
             name = line.split('(')[-1].split(')')[0]
             if CAN_NULL:
                 names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-- 
2.43.0


From 906ad920c927438293ef0d7b9039e67204040d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 23/33] fix: correct the order of chains given in the
 docstrings of parents and children

---
 dill/pointers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index 17b96db..f0a888b 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -35,7 +35,7 @@ Parent finds *one* parent (e.g. the last member of the sequence).
 
 
 def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
-    """Find the chain of referents for obj. Chain will end with obj.
+    """Find the chain of referents for obj. Chain will start with obj.
 
     objtype: an object type or tuple of types to search for
     depth: search depth (e.g. depth=2 is 'grandparents')
@@ -52,7 +52,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
 
 
 def children(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
-    """Find the chain of referrers for obj. Chain will start with obj.
+    """Find the chain of referrers for obj. Chain will end with obj.
 
     objtype: an object type or tuple of types to search for
     depth: search depth (e.g. depth=2 is 'grandchildren')
-- 
2.43.0


From 073d61f0b38a214ad19fab0585f544ecb247c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 24/33] fix: pickle numpy arrays that contain themselves

---
 dill/_dill.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 146f6dd..345f14e 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -412,7 +412,7 @@ class Pickler(StockPickler):
                     logger.trace(pickler, "Nu: (%s, %s)", obj.shape, obj.dtype)
                     npdict = getattr(obj, '__dict__', None)
                     f, args, state = obj.__reduce__()
-                    pickler.save_reduce(_create_array, (f,args,state,npdict), obj=obj)
+                    pickler.save_reduce(f, args, (state,npdict), obj=obj, state_setter=_set_array_state)
                     logger.trace(pickler, "# Nu")
                     return
         # end numpy hack
@@ -981,7 +981,7 @@ def _create_weakproxy(obj, callable=False, *args):
 def _eval_repr(repr_str):
     return eval(repr_str)
 
-def _create_array(f, args, state, npdict=None):
+def _create_array(f, args, state, npdict=None): # in pickles of older versions
    #array = numpy.core.multiarray._reconstruct(*args)
     array = f(*args)
     array.__setstate__(state)
@@ -989,6 +989,12 @@ def _create_array(f, args, state, npdict=None):
         array.__dict__.update(npdict)
     return array
 
+def _set_array_state(array, state):
+    state, npdict = state
+    array.__setstate__(state)
+    if npdict is not None: # we also have saved state in __dict__
+        array.__dict__.update(npdict)
+
 def _create_dtypemeta(scalar_type):
     if NumpyDType is True: __hook__() # a bit hacky I think
     if scalar_type is None:
-- 
2.43.0


From ff7033203f44061b7878ac811ea518d4d4803e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 25/33] fix: keep deferred assignments when pickling with a
 stock pickler

After dill.extend() the handlers run under pickle's own pickler, which has
no _postproc queue: save_function failed on the missing attribute and
_save_with_postproc dropped the assignments it was given.
---
 dill/_dill.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 345f14e..810f0d8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1149,24 +1149,26 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
         # print(pickler.x*' ', 'pop', obj, id(obj))
         postproc = pickler._postproc.pop(id(obj))
         # assert postproc_list == postproc, 'Stack tampered!'
-        for reduction in reversed(postproc):
-            if reduction[0] is _setitems:
-                # use the internal machinery of pickle.py to speedup when
-                # updating a dictionary in postproc
-                dest, source = reduction[1]
-                if source:
-                    pickler.write(pickler.get(pickler.memo[id(dest)][0]))
-                    if sys.hexversion < 0x30e00a1:
-                        pickler._batch_setitems(iter(source.items()))
-                    else:
-                        pickler._batch_setitems(iter(source.items()), obj=obj)
+    else: # a stock pickler has no postprocessing of its own
+        postproc = postproc_list or ()
+    for reduction in reversed(postproc):
+        if reduction[0] is _setitems:
+            # use the internal machinery of pickle.py to speedup when
+            # updating a dictionary in postproc
+            dest, source = reduction[1]
+            if source:
+                pickler.write(pickler.get(pickler.memo[id(dest)][0]))
+                if sys.hexversion < 0x30e00a1:
+                    pickler._batch_setitems(iter(source.items()))
                 else:
-                    # Updating with an empty dictionary. Same as doing nothing.
-                    continue
+                    pickler._batch_setitems(iter(source.items()), obj=obj)
             else:
-                pickler.save_reduce(*reduction)
-            # pop None created by calling preprocessing step off stack
-            pickler.write(POP)
+                # Updating with an empty dictionary. Same as doing nothing.
+                continue
+        else:
+            pickler.save_reduce(*reduction)
+        # pop None created by calling preprocessing step off stack
+        pickler.write(POP)
 
 #@register(CodeType)
 #def save_code(pickler, obj):
@@ -1999,7 +2001,7 @@ def save_function(pickler, obj):
 
         logger.trace(pickler, "F1: %s", obj)
         _recurse = getattr(pickler, '_recurse', None)
-        _postproc = getattr(pickler, '_postproc', None)
+        _postproc = getattr(pickler, '_postproc', ()) # not in a stock pickler
         _main_modified = getattr(pickler, '_main_modified', None)
         _original_main = getattr(pickler, '_original_main', __builtin__)#'None'
         postproc_list = []
-- 
2.43.0


From 69bfcefc3bdbfb0692093fa2966fcdaead5fe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 26/33] fix: unit of the object sizes in the trace (2 KiB were
 shown as 2 MiB)

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 8c0bbea..ee9c92c 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -204,7 +204,7 @@ class TraceFormatter(logging.Formatter):
             # Show object size in human-readable form.
             power = int(math.log(record.size, 2)) // 10
             size = record.size >> power*10
-            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power] + "i" if power else "")
+            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power-1] + "i" if power else "")
         vars(record).update(fields)
         return super().format(record)
 
-- 
2.43.0


From d4783e1a329f5059ff07ae983c3503ef273a35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 27/33] fix: nestedglobals takes only operands of global
 instructions, and nested code only on recurse

---
 dill/detect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 4bc1987..9de823b 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -146,11 +146,12 @@ def nestedglobals(func, recurse=True):
     names = set()
     with capture('stdout') as out:
         try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
+            dis.dis(func, depth=0) #XXX: dis.dis(None) disassembles last traceback
         except IndexError:
             pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line or 'LOAD_NAME' in line: # class bodies use NAME
+        opcode = line.split('(')[0] # the argument may contain anything
+        if '_GLOBAL' in opcode or 'LOAD_NAME' in opcode: # class bodies use NAME
             name = line.split('(')[-1].split(')')[0]
             if CAN_NULL:
                 names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-- 
2.43.0


From e374829e2b810dc6a09eb7b8ab13aa46415cb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 28/33] fix: compare arrays in all elements in pickles

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 810f0d8..0d98bc6 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2206,8 +2206,8 @@ def pickles(obj,exact=False,safe=False,**kwds):
         pik = copy(obj, **kwds)
         #FIXME: should check types match first, then check content if "exact"
         try:
-            #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
-            result = bool(pik.all() == obj.all())
+            # arrays are compared in all elements (and so must agree in shape)
+            result = pik.shape == obj.shape and bool((pik == obj).all())
         except (AttributeError, TypeError):
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore') #FIXME: be specific
-- 
2.43.0


From 4c79c2efaf35cdd7b3e451ccc622cb6b9bcf629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 29/33] fix: compare arrays in all elements in detect.errors

---
 dill/detect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index 9de823b..309469f 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -271,7 +271,10 @@ def errors(obj, depth=0, exact=False, safe=False):
         try:
             pik = copy(obj)
             if exact:
-                assert pik == obj, \
+                same = pik == obj
+                if hasattr(same, 'all'): # compare arrays in all elements
+                    same = pik.shape == obj.shape and same.all()
+                assert same, \
                     "Unpickling produces %s instead of %s" % (pik,obj)
             assert type(pik) == type(obj), \
                 "Unpickling produces %s instead of %s" % (type(pik),type(obj))
-- 
2.43.0


From 0435179342cf7a8afe6baa1d601af37d396b706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:56 +0000
Subject: [PATCH 30/33] fix: outdenting source code removes leading blanks
 only, also for tabs and blank lines

---
 dill/source.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..42a4c66 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -511,13 +511,17 @@ def indent(code, spaces=4):
     return '\n'.join(lines)
 
 
+def _nblanks(line):
+    '''number of whitespace characters a line of code is indented with'''
+    return len(line) - len(line.lstrip(' \t\f'))
+
 def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
-    indent = indentsize(lines[0])
+    indent = _nblanks(lines[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
     for i in range(len(lines) if all else 1):
         #FIXME: works... but shouldn't outdent 2nd+ lines of multiline doc
-        _indent = indentsize(lines[i])
+        _indent = _nblanks(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
         lines[i] = lines[i][_spaces:]
@@ -525,7 +529,7 @@ def _outdent(lines, spaces=None, all=True):
 
 def outdent(code, spaces=None, all=True):
     '''outdent a block of code (default is to strip all leading whitespace)'''
-    indent = indentsize(code)
+    indent = _nblanks(code)
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
     #XXX: will this delete '\n' in some cases?
     if not all: return code[spaces:]
-- 
2.43.0


From dbf2c3313ec9d08cdd4eae02966b25a556eb4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 31/33] fix: getting the source of a module doesn't alter the
 lines cached by linecache

---
 dill/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/source.py b/dill/source.py
index 42a4c66..a2cd69f 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -271,6 +271,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
     lines, lnum = findsource(object)
 
     if ismodule(object):
+        lines = lines[:] # don't expose the list held by linecache
         if lstrip: lines = _outdent(lines)
         return ([lines], [0]) if locate is True else [lines]
 
-- 
2.43.0


From efd8cd6ffa44bccfeb3b4985f8ca4c7343d5b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:30 +0000
Subject: [PATCH 32/33] fix: only names are executed when an import statement
 is verified

---
 dill/source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index a2cd69f..bc0f762 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -715,6 +715,10 @@ def _getimport(head, tail, alias='', verify=True, builtin=False):
     #        (could fix in 'namespace' to check obj for closure)
     if verify and not head.startswith('dill.'):# weird behavior for dill
        #print(_str)
+        # the name may come from a repr, so make sure that it's only a name
+        names = head.split('.') if head else []
+        if not all(i.isidentifier() for i in names + [tail]):
+            raise SyntaxError('invalid syntax')
         try: exec(_str) #XXX: check if == obj? (name collision)
         except ImportError: #XXX: better top-down or bottom-up recursion?
             _head = head.rsplit(".",1)[0] #(or get all, then compare == obj?)
-- 
2.43.0


From 1d1130cd2b42814ed6c2b7411b4688c04d83a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 33/33] fix: importable keeps the object when it falls back
 from source to import

---
 dill/source.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index bc0f762..608ec3b 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -1003,13 +1003,13 @@ def importable(obj, alias='', source=None, builtin=True):
                 src = '\n'.join(_src)
             # get source code of objects referred to by obj in global scope
             from .detect import globalvars
-            obj = globalvars(obj) #XXX: don't worry about alias? recurse? etc?
-            obj = list(getsource(_obj,name,force=True) for (name,_obj) in obj.items() if not isbuiltin(_obj))
-            obj = '\n'.join(obj) if obj else ''
+            refs = globalvars(obj) #XXX: don't worry about alias? recurse? etc?
+            refs = list(getsource(_obj,name,force=True) for (name,_obj) in refs.items() if not isbuiltin(_obj))
+            refs = '\n'.join(refs) if refs else ''
             # combine all referred-to source (global then enclosing)
-            if not obj: return src
-            if not src: return obj
-            return obj + src
+            if not refs: return src
+            if not src: return refs
+            return refs + src
         except Exception:
             if tried_import: raise
             tried_source = True
-- 
2.43.0

