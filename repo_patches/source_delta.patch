From 68dd157c50d5e99552114042f5fc130da8b4774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 001/105] fix: an interrupted or failing export no longer
 destroys existing data

export_to_file truncated the target before writing, so a crash, a full disk
or an unpicklable object left a torn file in place of the previous one.
Write to a temporary file, then replace the target.
---
 IMTreatment/file_operation/file_operation.py | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..ffa72c8 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -347,21 +347,27 @@ def export_to_file(obj, filepath, compressed=True, **kw):
         # creating/filling up the file
         raise TypeError("'compressed' must be a boolean")
     if compressed:
-        gc.disable()
         if path.splitext(filepath)[1] != ".cimt":
             filepath = filepath + ".cimt"
-        f = gzip.open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        open_func = gzip.open
     else:
-        gc.disable()
         if path.splitext(filepath)[1] != ".imt":
             filepath = filepath + ".imt"
-        f = open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        open_func = open
+    # Write next to the target, and replace it once everything is written,
+    # so an export that fails or is interrupted cannot damage existing data
+    filepath = path.realpath(filepath)
+    tmp_filepath = "{}.{}.tmp".format(filepath, os.getpid())
+    gc.disable()
+    try:
+        with open_func(tmp_filepath, 'wb') as f:
+            pickle.dump(obj, f, protocol=-1)
+        os.replace(tmp_filepath, filepath)
+    except BaseException:
+        if path.exists(tmp_filepath):
+            os.remove(tmp_filepath)
+        raise
+    gc.enable()
 
 
 def imts_to_imt(imts_path, imt_path, kind):
-- 
2.43.0


From 34b91a557fdbb185f7c17f6a7ac536fc7134c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 002/105] fix: import/export leave the garbage collector as
 they found it

It stayed disabled for the rest of the process when reading or writing
failed, and got enabled when the caller had disabled it.
---
 IMTreatment/file_operation/file_operation.py | 33 +++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index ffa72c8..efe4b51 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -303,19 +303,21 @@ def import_from_file(filepath, **kw):
     filepath = check_path(filepath)
     extension = path.splitext(filepath)[1]
     # importing file
-    if extension == ".imt":
-        gc.disable()
-        with open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
-    elif extension == ".cimt":
+    gc_enabled = gc.isenabled()
+    try:
         gc.disable()
-        with gzip.open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
-    else:
-        raise IOError("File is not readable "
-                      "(unknown extension : {})".format(extension))
+        if extension == ".imt":
+            with open(filepath, 'rb') as f:
+                obj = pickle.load(f)
+        elif extension == ".cimt":
+            with gzip.open(filepath, 'rb') as f:
+                obj = pickle.load(f)
+        else:
+            raise IOError("File is not readable "
+                          "(unknown extension : {})".format(extension))
+    finally:
+        if gc_enabled:
+            gc.enable()
     # For backward support
     attr_name = f"_values_dtype"
     if isinstance(obj, (VectorField, ScalarField)):
@@ -358,8 +360,9 @@ def export_to_file(obj, filepath, compressed=True, **kw):
     # so an export that fails or is interrupted cannot damage existing data
     filepath = path.realpath(filepath)
     tmp_filepath = "{}.{}.tmp".format(filepath, os.getpid())
-    gc.disable()
+    gc_enabled = gc.isenabled()
     try:
+        gc.disable()
         with open_func(tmp_filepath, 'wb') as f:
             pickle.dump(obj, f, protocol=-1)
         os.replace(tmp_filepath, filepath)
@@ -367,7 +370,9 @@ def export_to_file(obj, filepath, compressed=True, **kw):
         if path.exists(tmp_filepath):
             os.remove(tmp_filepath)
         raise
-    gc.enable()
+    finally:
+        if gc_enabled:
+            gc.enable()
 
 
 def imts_to_imt(imts_path, imt_path, kind):
-- 
2.43.0


From 67328aa59dc4e88bb397f9dc436f093fb6ecb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 003/105] fix: verify the checksum of compressed files when
 importing them

The unpickler stops before the end of the archive, so the checksum was not
verified and a damaged file could be loaded as different data.
---
 IMTreatment/file_operation/file_operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index efe4b51..49880c0 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -310,8 +310,9 @@ def import_from_file(filepath, **kw):
             with open(filepath, 'rb') as f:
                 obj = pickle.load(f)
         elif extension == ".cimt":
+            # read everything first: the checksum is only verified at the end
             with gzip.open(filepath, 'rb') as f:
-                obj = pickle.load(f)
+                obj = pickle.loads(f.read())
         else:
             raise IOError("File is not readable "
                           "(unknown extension : {})".format(extension))
-- 
2.43.0


From c14c305384de52f9eb1a7f1603c58a199736709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 004/105] fix: a damaged or torn cache file no longer breaks
 memoized functions

Only missing files were handled: anything left by a crash in the middle of
a write made the decoration raise (with the garbage collector disabled), and
a flipped bit could be loaded as another result.
---
 IMTreatment/utils/memoization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dcc8be3..dd6ba76 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -30,13 +30,18 @@ def memoize_to_file(file_name):
     """ Decorator that memoize the function result in a file. """
 
     def decorator(original_func):
+        gc_enabled = gc.isenabled()
         gc.disable()
         try:
+            # read everything first: the checksum is only verified at the end
             with gzip.open(file_name, 'rb') as f:
-                cache = pickle.load(f)
-        except (IOError, ValueError):
+                cache = pickle.loads(f.read())
+        except Exception:
+            # missing or damaged cache file
             cache = {}
-        gc.enable()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
         def new_func(*args, **kwargs):
             key = pickle.dumps((args, kwargs))
-- 
2.43.0


From 00fa32000fd24810b2c26ba19ec8b7ebc144a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 005/105] fix: memoized functions leave the garbage collector
 as they found it

It stayed disabled when writing the cache failed.
---
 IMTreatment/utils/memoization.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dd6ba76..b688e10 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -31,8 +31,8 @@ def memoize_to_file(file_name):
 
     def decorator(original_func):
         gc_enabled = gc.isenabled()
-        gc.disable()
         try:
+            gc.disable()
             # read everything first: the checksum is only verified at the end
             with gzip.open(file_name, 'rb') as f:
                 cache = pickle.loads(f.read())
@@ -47,10 +47,14 @@ def memoize_to_file(file_name):
             key = pickle.dumps((args, kwargs))
             if key not in cache:
                 cache[key] = original_func(*args, **kwargs)
-                gc.disable()
-                with gzip.open(file_name, 'wb') as f:
-                    pickle.dump(cache, f, protocol=-1)
-                gc.enable()
+                gc_enabled = gc.isenabled()
+                try:
+                    gc.disable()
+                    with gzip.open(file_name, 'wb') as f:
+                        pickle.dump(cache, f, protocol=-1)
+                finally:
+                    if gc_enabled:
+                        gc.enable()
             return cache[key]
 
         return new_func
-- 
2.43.0


From 681958b937dc738b35a344f2f91f86f5f47cd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 006/105] fix: altering a memoized result no longer alters the
 cache

The cached object itself was returned: modifying it changed what later
calls (and later sessions) get.
---
 IMTreatment/utils/memoization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index b688e10..8ae4520 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -21,6 +21,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import gc
 import gzip
 import pickle
@@ -55,7 +56,8 @@ def memoize_to_file(file_name):
                 finally:
                     if gc_enabled:
                         gc.enable()
-            return cache[key]
+            # the caller may modify what it gets, not the cache
+            return copy.deepcopy(cache[key])
 
         return new_func
 
-- 
2.43.0


From deb40a0b3375104931a64420e8906ac2905921c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:19 +0000
Subject: [PATCH 007/105] fix: Files.remove_files removes the given indices or
 regex matches

---
 IMTreatment/utils/files.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 68daf5b..b67dda5 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -28,7 +28,7 @@ import os
 from os.path import join
 import copy
 import re
-from ..utils.types import ARRAYTYPES
+from ..utils.types import ARRAYTYPES, INTEGERTYPES
 from ..utils.progresscounter import ProgressCounter
 
 try:
@@ -172,22 +172,23 @@ class Files(object):
             if a regex, remove the paths that match,
             if an array, delete paths for each element.
         """
-        if isinstance(arg, int):
-            ind = arg
+        # get the indices of the paths to remove
+        inds = set()
+        for thing in (arg if isinstance(arg, ARRAYTYPES) else [arg]):
+            if isinstance(thing, INTEGERTYPES):
+                inds.add(range(len(self.paths))[thing])
+            elif isinstance(thing, str):
+                for i, path in enumerate(self.paths):
+                    if re.match(thing, path) is not None:
+                        print("remove {}".format(path))
+                        inds.add(i)
+            else:
+                raise TypeError()
+        # remove, starting from the end to keep the indices valid
+        for ind in sorted(inds, reverse=True):
             del self.paths[ind]
             del self.exist[ind]
             del self.isdir[ind]
-        elif isinstance(arg, ARRAYTYPES):
-            for thing in arg:
-                self.remove_files(thing)
-        elif isinstance(arg, str):
-            for i in np.arange(len(self.paths) - 1, -1, -1):
-                res = re.match(arg, self.paths[i])
-                if res is not None:
-                    print("remove {}".format(self.paths[i]))
-                    self.remove_files(i)
-        else:
-            raise TypeError()
 
     def remove_empty_directories():
         """
-- 
2.43.0


From 40f3d529e812cd4459984904246b25cafc5f1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:19 +0000
Subject: [PATCH 008/105] fix: a depth limit no longer stops the search in
 sibling folders

---
 IMTreatment/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index b67dda5..c005191 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -211,7 +211,8 @@ class Files(object):
                 tmp_depth = (root[len(rootpath) + len(os.path.sep):]
                              .count(os.path.sep))
                 if depth < tmp_depth:
-                    break
+                    dirs[:] = []
+                    continue
             # load direcories
             if load_dirs:
                 for d in dirs:
-- 
2.43.0


From cb71d4879c477777f5a6d202fd4e5b882ed4da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:41 +0000
Subject: [PATCH 009/105] fix: ask before deleting a non-empty folder on every
 platform

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index c005191..6e340db 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -302,7 +302,7 @@ class Files(object):
                         # else, check if each folder is empty
                         try:
                             os.rmdir(p)
-                        except WindowsError:
+                        except OSError:
                             print("+++ Following folder is not empty\n"
                                   "{}".format(p))
                             while True:
-- 
2.43.0


From bb9800979e44c4e836ffc31eee6ab5bf15739a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:58 +0000
Subject: [PATCH 010/105] fix: delete_existing_files handles nested, repeated,
 vanished and kept paths

---
 IMTreatment/utils/files.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 6e340db..51f257d 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -262,8 +262,9 @@ class Files(object):
         self.tree = dic
 
     def delete_existing_files(self, recursive=False):
-        tmp_isdir = list(np.array(self.isdir)[np.array(self.exist)])
-        tmp_paths = list(np.array(self.paths)[np.array(self.exist)])
+        exist = np.array(self.exist, dtype=bool)
+        tmp_isdir = list(np.array(self.isdir)[exist])
+        tmp_paths = list(np.array(self.paths)[exist])
         nmb_dir = np.sum(tmp_isdir)
         nmb_files = len(tmp_paths) - nmb_dir
         print("+++ Ready to remove {} files and {} directories "
@@ -290,11 +291,13 @@ class Files(object):
                 if tmp_isdir[i]:
                     continue
                 PG.print_progress()
-                os.remove(p)
+                if os.path.lexists(p):
+                    os.remove(p)
 
-            # remove dirs
-            for i, p in enumerate(np.array(tmp_paths)):
-                if tmp_isdir[i]:
+            # remove dirs (sub-folders first)
+            for i in np.argsort(tmp_paths)[::-1]:
+                p = tmp_paths[i]
+                if tmp_isdir[i] and os.path.lexists(p):
                     # force recursive removing
                     if recursive:
                         shutil.rmtree(p)
@@ -320,7 +323,7 @@ class Files(object):
                                 shutil.rmtree(p)
             #
             for i in range(len(self.exist)):
-                self.exist[i] = False
+                self.exist[i] = os.path.lexists(self.paths[i])
 
 
 def remove_files_in_dirs(rootpath, dir_regex, file_regex,
-- 
2.43.0


From 728373b23e348ec1d61e9038cd6faebfd5ce7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 011/105] fix: find_file_in_path handles folders without files,
 in a reproducible order

---
 IMTreatment/file_operation/file_operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 49880c0..859051b 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -137,6 +137,8 @@ def find_file_in_path(regs, dirpath, ask=False):
     dir_paths = []
     # recursive loop on folders
     for root, dirs, files in os.walk(dirpath):
+        dirs.sort()
+        match = False
         for f in files:
             match = np.any([re.match(reg, f) for reg in regs])
             if match:
-- 
2.43.0


From e59e91fa70264e03f5f38392c39917abd276390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 012/105] fix: imts_to_imt takes the files in name order,
 whatever the file system

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 859051b..1596efc 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -399,7 +399,7 @@ def imts_to_imt(imts_path, imt_path, kind):
     if not isinstance(kind, STRINGTYPES):
         raise TypeError()
     # getting paths
-    paths = glob(imts_path + "/*")
+    paths = sorted(glob(imts_path + "/*"))
     # getting data type
     if kind == 'TSF':
         imts_type = 'SF'
-- 
2.43.0


From 435a1985e697cac8ca8190e9dfd6230b8ffb3408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 013/105] fix: import_from_VC7s can make SpatialVectorFields

---
 IMTreatment/file_operation/file_operation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 1596efc..c88f1ad 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1170,7 +1170,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
                 dt = 1.
                 unit_time = make_unit("")
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
     # return
     if add_fields:
         return fields, suppl_fields
-- 
2.43.0


From fd0b4a8d660373aac2a2ee7ec1ce70640360dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 014/105] fix: VC7_to_imt converts single files and creates new
 files

---
 IMTreatment/file_operation/file_operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index c88f1ad..adfd9ca 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1247,7 +1247,7 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
     """
     # checking parameters
     vc7_path = check_path(vc7_path)
-    imt_path = check_path(imt_path)
+    imt_path = check_path(imt_path, newfile=True)
     # checking if file or directory
     if path.isdir(vc7_path):
         if kind in ['SVF', 'TVF']:
@@ -1264,8 +1264,8 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
                 export_to_file(VF, imt_path + "/{}".format(name),
                                compressed=compressed)
     elif path.isfile(vc7_path):
-        SF = import_from_IM7(vc7_path, **kwargs)
-        export_to_file(SF, imt_path)
+        VF = import_from_VC7(vc7_path, **kwargs)
+        export_to_file(VF, imt_path)
     else:
         raise ValueError()
 
-- 
2.43.0


From 1fc1f2e604271b86ccc7c12347b124322176c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 015/105] fix: import_vfs_from_ascii works, and takes the files
 in name order

---
 IMTreatment/file_operation/file_operation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index adfd9ca..a3677c4 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1885,13 +1885,14 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
             raise ValueError("'interval' must be a 2x1 array")
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
-    filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = sorted(glob(filepath))
+    if len(paths) == 0:
+        raise ValueError("No file found")
     if interval is None:
         interval = [0, len(paths)-1]
-    if interval[0] < 0 or interval[1] > len(paths):
+    if interval[0] < 0 or interval[1] >= len(paths):
         raise ValueError("'interval' is out of bounds")
-    if times == []:
+    if len(times) == 0:
         times = np.arange(len(paths))
     if len(paths) != len(times):
         raise ValueError("Not enough values in 'times'")
@@ -1907,11 +1908,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if len(path) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(path, x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, times[i], unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From 8a079470b04f6f7d536001921b3f18a2e67d6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 016/105] fix: fields or points added at the same time keep
 their order

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..9abfba6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1556,7 +1556,7 @@ class TemporalFields(flds.Fields, fld.Field):
     def __sort_field_by_time(self):
         if len(self.fields) in [0, 1]:
             return None
-        ind_sort = np.argsort(self.times)
+        ind_sort = np.argsort(self.times, kind='mergesort')
         self.times = self.times[ind_sort]
         self.fields = self.fields[ind_sort]
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..e483663 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -338,7 +338,7 @@ class TemporalPoints(object):
     def __sort_field_by_time(self):
         if len(self.point_sets) in [0, 1]:
             return None
-        ind_sort = np.argsort(self.times)
+        ind_sort = np.argsort(self.times, kind='mergesort')
         self.times = self.times[ind_sort]
         self.point_sets = [self.point_sets[i] for i in ind_sort]
 
-- 
2.43.0


From 27de433526cb862b0db9bd01de6d0ec3756109d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 017/105] fix: profiles and points of one element can be
 imported from text files

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index a3677c4..19ea2eb 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1613,7 +1613,7 @@ def import_profile_from_ascii(filepath, x_col=1, y_col=2,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1656,7 +1656,7 @@ def import_pts_from_ascii(filepath, x_col=1, y_col=2, v_col=None,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
-- 
2.43.0


From 9623398d8cbbd4eeb7347608b690fa95f376dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 018/105] fix: export_to_picture can create a new file

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 19ea2eb..265278a 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1502,7 +1502,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
-- 
2.43.0


From ba5f75001d48b2b06163e66f5170fa48f9e61dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:20 +0000
Subject: [PATCH 019/105] fix: points without values can be imported back from
 matlab files

---
 IMTreatment/file_operation/file_operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 265278a..58e263b 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -518,6 +518,8 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
     for key, entry in kwargs.items():
         if entry in keys:
             tdata = data[entry]
+            if len(tdata) == 0:
+                continue
             while not isinstance(tdata, str) and len(tdata) == 1:
                 tdata = tdata[0]
             print(tdata)
-- 
2.43.0


From 3b549bc5c0e7d1c7b7b31f21b4befacb41da4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:53 +0000
Subject: [PATCH 020/105] fix: the progress counter displays the right number
 of days

---
 IMTreatment/utils/progresscounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index b822c18..294a8bc 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -167,5 +167,5 @@ class ProgressCounter(object):
         if h != 0:
             repr_time = '{:d}h'.format(h) + repr_time
         if j != 0:
-            repr_time = '{:d}j'.format(m) + repr_time
+            repr_time = '{:d}j'.format(j) + repr_time
         return repr_time
-- 
2.43.0


From c2de3f3b3ff34c97a27c5d960904175a80ef9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 021/105] fix: the progress counter no longer fails when
 nothing was expected

---
 IMTreatment/utils/progresscounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index 294a8bc..d84098b 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -107,7 +107,7 @@ class ProgressCounter(object):
                 tf = self.t0 + dt*self.nmb_max
                 tf = self._format_time(tf - self.t0)
             ti = self._format_time(ti - self.t0)
-            perc = np.round(i*1./self.nmb_max*100)
+            perc = np.round(i*1./max(self.nmb_max, 1)*100)
             pgbar_nmb = int(perc/100*self.pgbar_len)
             pgbar = ("[" + "#"*pgbar_nmb +
                      "."*(self.pgbar_len - pgbar_nmb) + "]")
-- 
2.43.0


From 7745ef069441b377c50cc4076577c4a1b093b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 022/105] fix: the progress counter displays no absurd time
 when the clock is set back

---
 IMTreatment/utils/progresscounter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index d84098b..2920dc9 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -152,6 +152,8 @@ class ProgressCounter(object):
             return 0
 
     def _format_time(self, second):
+        # the clock may have been set back
+        second = max(second, 0)
         ms = int((second % 1)*1000)
         second = int(second)
         m, s = divmod(second, 60)
-- 
2.43.0


From 8058c69d77849ac3e59afbdb8c401efd5d61eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 023/105] fix: progress of VC7 and picture importations counts
 the imported files

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 58e263b..b27e148 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1138,7 +1138,7 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
     # initialize counter
     start = fieldnumbers[0]
     end = fieldnumbers[1]
-    nmb_files = int((end - start)/incr)
+    nmb_files = len(paths[start:end:incr])
     pc = ProgressCounter(init_mess="Begin importation of {} VC7 files"
                          .format(nmb_files),
                          nmb_max=nmb_files,
@@ -1383,7 +1383,7 @@ def import_from_pictures(filepath, axe_x=None, axe_y=None, unit_x='',
         end = fieldnumbers[1]
     if verbose:
         pg = ProgressCounter(init_mess="Importing pictures",
-                             nmb_max=int((end - start + 1)/incr),
+                             nmb_max=len(range(start, end, incr)),
                              name_things="pictures")
     # loop on paths
     for i in np.arange(start, end, incr):
-- 
2.43.0


From 5b7f193951b60d4c61469a158d7a3069396cdee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 024/105] fix: RemoveFortranOutput no longer leaks two
 descriptors at each use

---
 IMTreatment/utils/codeinteraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 95ae4ce..cd9db1e 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -47,3 +47,5 @@ class RemoveFortranOutput(object):
         os.dup2(self.save[1], 2)
         os.close(self.null_fds[0])
         os.close(self.null_fds[1])
+        os.close(self.save[0])
+        os.close(self.save[1])
-- 
2.43.0


From 99ea15cde11f2ae2e0c10bbd6303159b09f34b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 025/105] fix: RemoveFortranOutput keeps the outputs when it
 fails to enter

---
 IMTreatment/utils/codeinteraction.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index cd9db1e..ee1f00f 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -37,10 +37,21 @@ class RemoveFortranOutput(object):
     """
 
     def __enter__(self):
-        self.null_fds = [os.open(os.devnull, os.O_RDWR) for x in range(2)]
-        self.save = os.dup(1), os.dup(2)
-        os.dup2(self.null_fds[0], 1)
-        os.dup2(self.null_fds[1], 2)
+        self.null_fds = []
+        self.save = []
+        try:
+            for fd in (1, 2):
+                self.save.append(os.dup(fd))
+                self.null_fds.append(os.open(os.devnull, os.O_RDWR))
+            os.dup2(self.null_fds[0], 1)
+            os.dup2(self.null_fds[1], 2)
+        except BaseException:
+            # put back what has been changed
+            for fd, save in zip((1, 2), self.save):
+                os.dup2(save, fd)
+            for fd in self.null_fds + self.save:
+                os.close(fd)
+            raise
 
     def __exit__(self, type, value, traceback):
         os.dup2(self.save[0], 1)
-- 
2.43.0


From db576564ba8f65518581bb79020d717fc98caf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 026/105] fix: get_critical_points no longer smooths the given
 field itself

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..e22d7eb 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2717,7 +2717,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             tmp_vf = obj
         # smoothing if necessary
         if smoothing_size != 0:
-            tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
+            tmp_vf = tmp_vf.smooth(tos='gaussian', size=smoothing_size,
+                                   inplace=False)
         # get cp positions
         if kind == 'pbi':
             res = _get_cp_pbi_on_VF(tmp_vf, time=time, unit_time=unit_time,
-- 
2.43.0


From cb82d26f28065628e23636a39fda5ce01e76406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 027/105] fix: get_critical_points uses mirror_interp on
 temporal fields too

---
 IMTreatment/vortex_detection/vortex_detection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index e22d7eb..4833726 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2775,6 +2775,7 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
                                       unit_time=obj.unit_times,
                                       window_size=window_size,
                                       kind=kind, mirroring=mirroring,
+                                      mirror_interp=mirror_interp,
                                       smoothing_size=smoothing_size,
                                       thread=1)
             return res
-- 
2.43.0


From ace01de53d452242e2f8b27f95ad9e5448d0e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 028/105] fix: parallel get_critical_points handles empty
 temporal fields

---
 IMTreatment/vortex_detection/vortex_detection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 4833726..1ec7bde 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2788,12 +2788,12 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
                 pool = Pool()
             else:
                 pool = Pool(thread)
-            res = pool.map_async(get_cp_on_one_field, list(zip(obj.fields,
-                                                               obj.times)))
+            all_res = pool.map_async(get_cp_on_one_field,
+                                     list(zip(obj.fields, obj.times)))
             pool.close()
             pool.join()
-            res = res.get()
-        res = np.sum(res)
+            for tmp_res in all_res.get():
+                res += tmp_res
     else:
         raise TypeError()
     return res
-- 
2.43.0


From 94d2c2de6c5e41746f385c41303450f5b3a98531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:59 +0000
Subject: [PATCH 029/105] fix: vortex detection handles sequences with fields
 without vortex

---
 IMTreatment/vortex_detection/vortex_detection.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 1ec7bde..eee18fb 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2906,6 +2906,12 @@ def _get_vortex_position_on_VF(vectorfield, criterion=get_residual_vorticity,
     vort = sf.get_zones_centers(bornes=bornes_n, rel=False, kind='ponderated')
     vort_c = sf.get_zones_centers(bornes=bornes_p, rel=False,
                                   kind='ponderated')
+    # no center is an empty set of points (with the right units)
+    no_pts = Points(unit_x=vectorfield.unit_x, unit_y=vectorfield.unit_y)
+    if vort is None:
+        vort = no_pts
+    if vort_c is None:
+        vort_c = no_pts
     return vort, vort_c
 
 
@@ -3278,6 +3284,13 @@ def _get_gamma2_vortex_center_on_VF(vectorfield, time=0,
     # get zones centers
     centers_c = gamma.get_zones_centers(bornes=[-1., -2/np.pi], rel=False)
     centers_cv = gamma.get_zones_centers(bornes=[2/np.pi, 1.], rel=False)
+    # no center is an empty set of points (with the right units)
+    no_pts = Points(unit_x=vectorfield.unit_x, unit_y=vectorfield.unit_y,
+                    unit_v=unit_time)
+    if centers_c is None:
+        centers_c = no_pts
+    if centers_cv is None:
+        centers_cv = no_pts
     # return
     pts = CritPoints(unit_time=unit_time)
     pts.add_point(foc=centers_cv, foc_c=centers_c, time=time)
-- 
2.43.0


From 46ea05d3c0bbb7d44c7ab1d2f5e215b48b5c8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 030/105] fix: adding points no longer rescales the added
 points themselves

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..f0b7d6e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,14 +101,14 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
+                xy = another.xy.copy()
                 xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
                 xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
+                xy = another.xy.copy()
                 xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
                 xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
-- 
2.43.0


From a80d6b70614e0dac2f3197107c1dbe287fdbdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 031/105] fix: get_zones_centers no longer alters the given (or
 default) bornes

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..fcf7999 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -642,16 +642,15 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if bornes[0] == bornes[1]:
             return None
         if not bornes[0] < bornes[1]:
-- 
2.43.0


From 98c1529e63361c4fbf3db35fb57a10c45613b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 032/105] fix: adding a field to SpatialFields no longer alters
 the field

---
 IMTreatment/core/spatialfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..cafa9f5 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -154,6 +154,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -170,7 +172,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
-- 
2.43.0


From f2aa99616684d474412748b44bd7828b59d6f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 033/105] fix: cropping a copy of critical points in time
 leaves the original alone

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index eee18fb..17fac79 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1334,10 +1334,12 @@ class CritPoints(object):
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
+            for traj_type in tmp_cp.iter_traj:
+                if traj_type is None:
+                    continue
                 [traj.crop(intervv=intervt, ind=ind, inplace=True)
                  for traj in traj_type]
-            self._remove_void_trajectories()
+            tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
-- 
2.43.0


From 31e1d6bfeac47ccff6c264623513469270376473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 034/105] fix: TemporalPoints.crop leaves the original points
 alone

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index e483663..bcfecaa 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -293,7 +293,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 3c7b37a467b27aa76cef1513130597c1315bbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 035/105] fix: computing the spatial coherence no longer alters
 the modes

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..e58a775 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -711,7 +711,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
-- 
2.43.0


From f3afb1a951318c3ddda8107f43e78f1793c7c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 036/105] fix: get_spectral_filtering leaves the original
 scalar fields alone

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9abfba6..3f6fec2 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -859,7 +859,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         # check
         try:
-            tf = self.__getattribute__("{}_as_sf".format(comp))
+            tf = self.__getattribute__("{}_as_sf".format(comp)).copy()
         except AttributeError():
             raise ValueError()
         # loop on space
-- 
2.43.0


From 3c621edc5d163484613f381d2725820e3f2473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:13 +0000
Subject: [PATCH 037/105] fix: critical points without trajectories can be
 cropped in time

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 17fac79..d254349 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1568,7 +1568,9 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
+            if trajs is None:
+                continue
+            filt = np.array([len(traj) != 0 for traj in trajs], dtype=bool)
             self.__setattr__(traj_type, trajs[filt])
 
     def _sort_by_time(self):
-- 
2.43.0


From f5efa40551dfd19255369cf0d56ef49d2c6e8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:13 +0000
Subject: [PATCH 038/105] fix: fill(inplace=False) leaves the original fields
 alone

---
 IMTreatment/core/scalarfield.py          | 14 +++++++----
 IMTreatment/core/temporalscalarfields.py | 24 +++++++------------
 IMTreatment/core/temporalvectorfields.py | 30 ++++++++++--------------
 IMTreatment/core/vectorfield.py          | 13 ++++++----
 4 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fcf7999..8be5fa7 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1817,12 +1817,16 @@ class ScalarField(fld.Field):
             raise TypeError("'kind' must be a string")
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
+        if inplace:
+            tmp_sf = self
+        else:
+            tmp_sf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_sf.crop_masked_border(hard=False, inplace=True)
         # getting data
-        x, y = self.axe_x, self.axe_y
-        values = self.values
-        mask = self.mask
+        x, y = tmp_sf.axe_x, tmp_sf.axe_y
+        values = tmp_sf.values
+        mask = tmp_sf.mask
         if kind in ['nearest', 'linear', 'cubic']:
             X, Y = np.meshgrid(x, y, indexing='ij')
             xy = [X.flat[:], Y.flat[:]]
@@ -1832,7 +1836,7 @@ class ScalarField(fld.Field):
         # getting the zone to interpolate
         if reduce_tri and kind in ['nearest', 'linear', 'cubic']:
             import scipy.ndimage as spim
-            dilated = spim.binary_dilation(self.mask,
+            dilated = spim.binary_dilation(mask,
                                            np.arange(9).reshape((3, 3)))
             filt_good = np.logical_and(filt, dilated)
             xy_good = xy[filt_good.flatten()]
diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..2453b9d 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -355,20 +355,25 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if inplace:
+            tmp_tsf = self
+        else:
+            tmp_tsf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', i, j, ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -388,8 +393,6 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
                 for ind_masked in prof.mask:
                     try:
@@ -401,19 +404,10 @@ class TemporalScalarFields(tf.TemporalFields):
                     fields[prof.mask].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..b10b825 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,23 +288,28 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        if inplace:
+            tmp_tvf = self
+        else:
+            tmp_tvf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
@@ -336,8 +341,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +361,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..090d545 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -941,11 +941,15 @@ class VectorField(field.Field):
         value = np.array(value)
         if not value.shape == (2,):
             raise ValueError()
+        if inplace:
+            tmp_vf = self
+        else:
+            tmp_vf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_vf.crop_masked_border(hard=False, inplace=True)
         # filling components
-        comp_x = self.comp_x_as_sf
-        comp_y = self.comp_y_as_sf
+        comp_x = tmp_vf.comp_x_as_sf
+        comp_y = tmp_vf.comp_y_as_sf
         new_comp_x = comp_x.fill(kind=kind, value=value[0], inplace=False,
                                  reduce_tri=reduce_tri)
         new_comp_y = comp_y.fill(kind=kind, value=value[1], inplace=False,
@@ -959,7 +963,8 @@ class VectorField(field.Field):
             self.__mask = mask
         else:
             vf = VectorField()
-            vf.import_from_arrays(self.axe_x, self.axe_y, new_comp_x.values,
+            vf.import_from_arrays(tmp_vf.axe_x, tmp_vf.axe_y,
+                                  new_comp_x.values,
                                   new_comp_y.values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=self.unit_values)
-- 
2.43.0


From 3283ad3f702c4454489556d841f0dc47f08cd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 039/105] fix: displaying critical points no longer alters the
 given plotting arguments

---
 IMTreatment/vortex_detection/vortex_detection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index d254349..07774de 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1886,7 +1886,9 @@ class CritPoints(object):
         if field is not None:
             if not isinstance(field, VectorField):
                 raise TypeError()
-        # Set default params
+        # Set default params (without altering the given dictionaries)
+        cpkw = dict(cpkw)
+        lnkw = dict(lnkw)
         if 'color' in list(cpkw.keys()):
             colors = [cpkw.pop('color')]*len(self.colors)
         else:
@@ -1938,7 +1940,9 @@ class CritPoints(object):
                 if not isinstance(fields, TemporalVectorFields):
                     raise TypeError()
                 fields = fields.fields
-        # Set default params
+        # Set default params (without altering the given dictionaries)
+        cpkw = dict(cpkw)
+        lnkw = dict(lnkw)
         if 'color' in list(cpkw.keys()):
             colors = [cpkw.pop('color')]*len(self.colors)
         else:
-- 
2.43.0


From e65f2b222ea58774fad48d67783355b288de65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:32 +0000
Subject: [PATCH 040/105] fix: scalar fields no longer share the given values
 and mask arrays

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8be5fa7..e48714e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -328,7 +328,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -355,7 +355,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From 98a6363d7d35ceaeb16f1569f0ab4d6541871e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:32 +0000
Subject: [PATCH 041/105] fix: points no longer share the given array of
 positions

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f0b7d6e..61dd283 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 69b5008202f5b7ec07fac223a7ae1564f6e16452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:13 +0000
Subject: [PATCH 042/105] fix: cropped fields no longer share memory with the
 original one

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..3acbb11 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = cropfield.axe_x[indmin_x:indmax_x + 1]
+            cropfield.__axe_y = cropfield.axe_y[indmin_y:indmax_y + 1]
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e48714e..cba682b 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1410,9 +1410,9 @@ class ScalarField(fld.Field):
             indmin_x, indmax_x, indmin_y, indmax_y, cropfield = \
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
-            cropfield.__values = self.values[indmin_x:indmax_x + 1,
+            cropfield.__values = cropfield.values[indmin_x:indmax_x + 1,
                                              indmin_y:indmax_y + 1]
-            cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
+            cropfield.__mask = cropfield.mask[indmin_x:indmax_x + 1,
                                          indmin_y:indmax_y + 1]
             return cropfield
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 090d545..f8ed14a 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1001,11 +1001,11 @@ class VectorField(field.Field):
             indmin_x, indmax_x, indmin_y, indmax_y, cropfield = \
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
-            cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
+            cropfield.__comp_x = cropfield.comp_x[indmin_x:indmax_x + 1,
                                              indmin_y:indmax_y + 1]
-            cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
+            cropfield.__comp_y = cropfield.comp_y[indmin_x:indmax_x + 1,
                                              indmin_y:indmax_y + 1]
-            cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
+            cropfield.__mask = cropfield.mask[indmin_x:indmax_x + 1,
                                          indmin_y:indmax_y + 1]
             return cropfield
 
-- 
2.43.0


From 2c8e728aa890719c6cfa5b946b276b6d67c074d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 043/105] fix: profiles no longer share (and nanify) the given
 masked array

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..b2ec391 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -286,7 +286,7 @@ class Profile(object):
     @y.setter
     def y(self, values):
         if isinstance(values, np.ma.MaskedArray):
-            self.__y = values.data
+            self.__y = np.array(values.data)*1.
             self.mask = values.mask
         elif isinstance(values, ARRAYTYPES):
             self.__y = np.array(values)*1.
-- 
2.43.0


From d7c9004030859dafa3c4f6df49f53fbf75128d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 044/105] fix: ScalarField.extend(inplace=False) returns the
 extended field

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index cba682b..d641881 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1489,9 +1489,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From 1f6cb162272cc390215702be3d93d10c44809baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 045/105] fix: crop_masked_border(inplace=False) returns a
 field when nothing is masked

---
 IMTreatment/core/scalarfield.py    | 2 +-
 IMTreatment/core/temporalfields.py | 4 ++--
 IMTreatment/core/vectorfield.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d641881..6bfbe1d 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1740,7 +1740,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3f6fec2..ee70a4c 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1302,7 +1302,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1351,7 +1351,7 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                return None if inplace else self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f8ed14a..00348f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1026,7 +1026,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From b2599bff5a78567eda50ca041a1c6a844379cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 046/105] fix: smooth_spatial_evolutions(inplace=False) works

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index e58a775..3e26b0c 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -388,7 +388,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 8be46a89802daaaa017094e543e4db2997db3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:04 +0000
Subject: [PATCH 047/105] fix: reduce_spatial_resolution(inplace=True) keeps
 the units

---
 IMTreatment/core/scalarfield.py | 1 -
 IMTreatment/core/vectorfield.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 6bfbe1d..1cb4a28 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2051,7 +2051,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 00348f2..f21710f 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1208,7 +1208,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 8a41c6f906f9c9ba40709cf0e8348a46c856983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:04 +0000
Subject: [PATCH 048/105] fix: reduced copies of temporal fields get the
 reduced axes

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ee70a4c..7cf1dd9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1181,8 +1181,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 5a3600e1e220b6db87419913362fd2e56d89c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:04 +0000
Subject: [PATCH 049/105] fix: get_interpolated_field returns a new field also
 at existing times

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 7cf1dd9..aaceae9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -332,7 +332,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[self.times == time][0].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From cda36e0f02bcf1cc24260630acb03a4595ed2c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:04 +0000
Subject: [PATCH 050/105] fix: TemporalPoints stores copies of the given
 points, as temporal fields do

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index bcfecaa..d7df1ce 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -221,7 +221,7 @@ class TemporalPoints(object):
             time = (time*self.unit_times/unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From 85298d9a6f31fb6e55837783c9057b03de6d845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:04 +0000
Subject: [PATCH 051/105] fix: TemporalScalarFields.values_as_sf returns a new
 object

---
 IMTreatment/core/temporalscalarfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 2453b9d..5da840a 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -38,7 +38,7 @@ class TemporalScalarFields(tf.TemporalFields):
 
     @property
     def values_as_sf(self):
-        return self
+        return self.copy()
 
     @property
     def values(self):
-- 
2.43.0


From 9d820ced737ee0af6f20ff044c1f63487854e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:25 +0000
Subject: [PATCH 052/105] fix: the sum of critical points shares nothing with
 its terms

---
 IMTreatment/vortex_detection/vortex_detection.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 07774de..b5d6efc 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -467,6 +467,12 @@ class CritPoints(object):
         self.current_epsilon = None
 
     def __add__(self, obj):
+        return self._concatenate(obj).copy()
+
+    def _concatenate(self, obj):
+        """
+        Gather two sets of critical points, without copying the points.
+        """
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
                 return self
@@ -2790,7 +2796,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
         # Mapping with multiprocess or not
         if thread == 1:
             for i in np.arange(len(obj.fields)):
-                res += get_cp_on_one_field((obj.fields[i], obj.times[i]))
+                res = res._concatenate(
+                    get_cp_on_one_field((obj.fields[i], obj.times[i])))
         else:
             if thread == 'all':
                 pool = Pool()
@@ -2801,7 +2808,7 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             pool.close()
             pool.join()
             for tmp_res in all_res.get():
-                res += tmp_res
+                res = res._concatenate(tmp_res)
     else:
         raise TypeError()
     return res
-- 
2.43.0


From b763833bdce029a5c2c32e442c4be7ca8d8baccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:25 +0000
Subject: [PATCH 053/105] fix: decomposing one oriented point returns a new
 object

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..c154ada 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -323,7 +323,7 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From b8e8c98170a837a7e8241781c40296e369f4447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:21 +0000
Subject: [PATCH 054/105] fix: decomposing one point returns a new object

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 61dd283..d22c835 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1195,7 +1195,7 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From 913c3e934a18cc790a02580064abde29149ef216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 055/105] fix: reduce_spatial_resolution(1, inplace=True) does
 nothing instead of failing

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1cb4a28..72378fa 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1981,7 +1981,7 @@ class ScalarField(fld.Field):
             raise ValueError()
         if fact == 1:
             if inplace:
-                pass
+                return None
             else:
                 return self.copy()
         if fact % 2 == 0:
-- 
2.43.0


From cf613de2e09646459a7ff18a1dea53ba267f90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 056/105] fix: fields of one row or one column can be imported
 from arrays

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 72378fa..9fc5c82 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -485,8 +485,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f21710f..9c1e792 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -537,8 +537,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From 4ada8b0ccdaf5002e385d3fe1c95eaf5e84b94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 057/105] fix: cropped copies of profiles keep their name

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index b2ec391..5bee17c 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1474,7 +1474,7 @@ class Profile(object):
             return None
         else:
             tmp_prof = Profile(new_x, new_y, new_mask, self.unit_x,
-                               self.unit_y)
+                               self.unit_y, name=self.name)
             return tmp_prof
 
     def scale(self, scalex=1., scaley=1., inplace=False):
-- 
2.43.0


From 4c28a7195c6f0595b87d19d04e096e999183f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 058/105] fix: Profile.fill(kind='value') fills the masked
 values, not the other ones

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 5bee17c..19ba4c8 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1589,7 +1589,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From c6c7a7c943a36fbf86f59984ac9df000bf89207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:37 +0000
Subject: [PATCH 059/105] fix: mirrored temporal fields get the axes of their
 fields

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index aaceae9..3f75eae 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1410,8 +1410,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        fld.Field.axe_x.fset(tmp_tf, tmp_tf.fields[0].axe_x)
+        fld.Field.axe_y.fset(tmp_tf, tmp_tf.fields[0].axe_y)
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From dbb52cb4ab3ac383ff5f6120a37530dc8ba08b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:37 +0000
Subject: [PATCH 060/105] fix: filled and smoothed copies of scalar fields keep
 the type of the values

---
 IMTreatment/core/scalarfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 9fc5c82..762eb4c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1879,7 +1879,8 @@ class ScalarField(fld.Field):
             sf = ScalarField()
             sf.import_from_arrays(x, y, values, mask=False, unit_x=self.unit_x,
                                   unit_y=self.unit_y,
-                                  unit_values=self.unit_values)
+                                  unit_values=self.unit_values,
+                                  dtype=self._values_dtype)
             return sf
 
     def smooth(self, tos='uniform', size=None, inplace=False, **kw):
-- 
2.43.0


From 7219c23120792d8af3283127d385579d3356319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:45 +0000
Subject: [PATCH 061/105] fix: ScalarField.extend(inplace=True) keeps the type
 of the values

---
 IMTreatment/core/scalarfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 762eb4c..226ce7c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1487,7 +1487,8 @@ class ScalarField(fld.Field):
                                     values=new_values, mask=new_mask,
                                     unit_x=tmpsf.unit_x,
                                     unit_y=tmpsf.unit_y,
-                                    unit_values=tmpsf.unit_values)
+                                    unit_values=tmpsf.unit_values,
+                                    dtype=self._values_dtype)
         else:
             tmpsf.values = new_values
             tmpsf.mask = new_mask
-- 
2.43.0


From cba1b2d3333a57bdb4020419d79ab3231b40350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:13 +0000
Subject: [PATCH 062/105] fix: dividing profiles no longer alters the divisor

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 19ba4c8..a48f46f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -202,8 +202,9 @@ class Profile(object):
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
                 y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                other_y = otherone.y.copy()
+                other_y[other_y == 0] = 1
+                y = y_tmp/other_y*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From b540a63cffd8c517408569f4d5c18ca918d4e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:18 +0000
Subject: [PATCH 063/105] fix: times given in another unit are converted the
 right way

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3f75eae..99e9c30 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index d7df1ce..c0af1de 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,7 +218,7 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt.copy())
-- 
2.43.0


From a553cc3bff368cbb5b2459c85a8d54439e495592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:18 +0000
Subject: [PATCH 064/105] fix: the time unit can be set with a string

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 99e9c30..07c63ef 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index c0af1de..4f66801 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From d891e45f02f961fec583034c6565430675c8cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:18 +0000
Subject: [PATCH 065/105] fix: temporal fields refuse fields with other axes,
 along y too

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 07c63ef..de2d21c 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1130,7 +1130,8 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.array_equal(axe_x, vaxe_x) and
+                    np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From 09c1724d7efcd1af2d1c35c6bfb20212f3c8f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 066/105] fix: a failing addition leaves temporal fields and
 points as they were

---
 IMTreatment/core/temporalfields.py | 10 ++++++----
 IMTreatment/core/temporalpoints.py |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index de2d21c..c089daa 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1099,9 +1099,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # checking parameters
         if not isinstance(field, (vf.VectorField, sf.ScalarField)):
             raise TypeError()
-        if self.field_type is None:
-            self.field_type = field.__class__
-        if not isinstance(field, self.field_type):
+        if self.field_type is not None and \
+                not isinstance(field, self.field_type):
             raise TypeError()
         if not isinstance(time, NUMBERTYPES):
             raise TypeError("'time' should be a number, not {}"
@@ -1113,6 +1112,9 @@ class TemporalFields(flds.Fields, fld.Field):
             unit_times = make_unit(unit_times)
         else:
             raise TypeError()
+        # copying first, to alter nothing if it fails
+        if copy:
+            field = field.copy()
         # if this is the first field
         if len(self.fields) == 0:
             self.axe_x = field.axe_x
@@ -1138,7 +1140,7 @@ class TemporalFields(flds.Fields, fld.Field):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
         # sorting the field with time
         self.__sort_field_by_time()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 4f66801..35bed44 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -209,6 +209,8 @@ class TemporalPoints(object):
             unit_times = make_unit(unit_times)
         else:
             raise TypeError()
+        # copying first, to alter nothing if it fails
+        pt = pt.copy()
         # if this is the first field
         if len(self.point_sets) == 0:
             self.unit_x = pt.unit_x
@@ -221,7 +223,7 @@ class TemporalPoints(object):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt.copy())
+        self.point_sets.append(pt)
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From 64bb988c483afc281c4046badfb803e43869b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 067/105] fix: several fields or points can be removed at once,
 with their times

---
 IMTreatment/core/fields.py         | 5 +----
 IMTreatment/core/temporalfields.py | 8 ++++----
 IMTreatment/core/temporalpoints.py | 8 +++-----
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..020cdf3 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -146,10 +146,7 @@ class Fields(object):
         fieldnumber : integer or list of integers
             Velocity field(s) number(s) to remove.
         """
-        if isinstance(fieldnumbers, INTEGERTYPES):
-            fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c089daa..53719f7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1153,11 +1153,11 @@ class TemporalFields(flds.Fields, fld.Field):
         fieldnumber : integer or list of integers
             Velocity field(s) number(s) to remove.
         """
-        if isinstance(fieldnumbers, INTEGERTYPES):
-            fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
+        self.__times = times
+
+    remove_field = remove_fields
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
         """
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 35bed44..90996e1 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -236,11 +236,9 @@ class TemporalPoints(object):
         indice : integer or list of integers
             Point indice(s) to remove.
         """
-        if isinstance(indice, INTEGERTYPES):
-            indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        kept = np.delete(np.arange(len(self.point_sets)), indice)
+        self.__times = self.times[kept]
+        self.point_sets = [self.point_sets[i] for i in kept]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 478bae0e5c2b1aa566b8e385b7c7d39980f7c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 068/105] fix: temporal fields and points no longer share the
 given array of times

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 53719f7..59e7156 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -243,7 +243,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 90996e1..86062e2 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,7 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From d68e2968df8f902c47e83775b2f6d5f8f30c8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 069/105] fix: multiplied, divided and raised temporal fields
 keep their times

---
 IMTreatment/core/temporalfields.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 59e7156..c05d73f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -99,12 +99,14 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -123,7 +125,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not np.all(self.axe_x == other.axe_x) \
@@ -131,12 +134,13 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other,
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
@@ -149,8 +153,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 2bf78533f1aa1811ce718c261e987292def4e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 070/105] fix: fields concatenated to temporal fields keep
 their times

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c05d73f..e86d860 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -68,7 +68,8 @@ class TemporalFields(flds.Fields, fld.Field):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
-- 
2.43.0


From b1883b2a6cb3e25900b4ef506c3e13fb73d5ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 071/105] fix: reduce_temporal_resolution keeps the last
 complete interval

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index e86d860..5608be1 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1241,7 +1241,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From 8e057ff386186ed6e6fc163d37e9435184c0d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 072/105] fix: temporal fields stay usable after
 augment_temporal_resolution

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5608be1..606ac24 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1285,9 +1285,9 @@ class TemporalFields(flds.Fields, fld.Field):
         new_times = np.array(new_times).flatten()
         new_times = np.append(new_times, tf.times[-1])
         # loop on new times
-        new_fields = []
-        for time in new_times:
-            new_fields.append(tf.get_interpolated_field(time))
+        new_fields = np.empty(len(new_times), dtype=object)
+        for i, time in enumerate(new_times):
+            new_fields[i] = tf.get_interpolated_field(time)
         # store
         tf.fields = new_fields
         tf.times = new_times
-- 
2.43.0


From 58e562bd293bbd40b8172ed2afbcb4905e8be30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 073/105] fix: adding one field to several simultaneous ones
 loses none

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 606ac24..8bf5cdb 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,7 +63,7 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if np.array_equal(self.times, other.times):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
-- 
2.43.0


From d458ea4f3919b675db52bf049850763f92cb0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 074/105] fix: temporal points can be cropped in time by
 indices

---
 IMTreatment/core/temporalpoints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 86062e2..d8ab4ac 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -283,6 +283,8 @@ class TemporalPoints(object):
                 else:
                     ind2 = np.where(intervt[1] >= self.times)[0][-1]
                 intervt = [ind1, ind2]
+            else:
+                intervt = [int(intervt[0]), int(intervt[1])]
         # crop
         if inplace:
             croppts = self
-- 
2.43.0


From 56c7758b62e5e16e348363a6953b3f6cf2257e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 075/105] fix: temporal points can be scaled along some of the
 axes only

---
 IMTreatment/core/temporalpoints.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index d8ab4ac..579adde 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -131,11 +131,17 @@ class TemporalPoints(object):
             tmp_ps = self
         else:
             tmp_ps = self.copy()
+        scalex = 1. if scalex is None else scalex
+        scaley = 1. if scaley is None else scaley
+        scalev = 1. if scalev is None else scalev
         for i in range(len(self.point_sets)):
             tmp_ps.point_sets[i].scale(scalex=scalex,
                                        scaley=scaley,
                                        scalev=scalev,
                                        inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From 8f8ca12a43eaea3a01d16e122d027b72ec0354a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:40 +0000
Subject: [PATCH 076/105] fix: the units of temporal points change with the
 ones of their points

---
 IMTreatment/core/temporalpoints.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 579adde..9e2691e 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -140,8 +140,8 @@ class TemporalPoints(object):
                                        scalev=scalev,
                                        inplace=True)
         if len(tmp_ps.point_sets) != 0:
-            tmp_ps.unit_x = tmp_ps.point_sets[0].unit_x
-            tmp_ps.unit_y = tmp_ps.point_sets[0].unit_y
+            tmp_ps.__unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.__unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
@@ -180,7 +180,11 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if axe == 'x' and len(self.point_sets) != 0:
+                self.__unit_x = self.point_sets[0].unit_x
+            elif axe == 'y' and len(self.point_sets) != 0:
+                self.__unit_y = self.point_sets[0].unit_y
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
-- 
2.43.0


From e5c37901508d4d1866eee0dc8c030d7621e5c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:55 +0000
Subject: [PATCH 077/105] fix: evenly spaced temporal fields no longer share
 the axes of their first field

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 8bf5cdb..83ad768 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1050,8 +1050,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # raise NotImplementedError('Not implemented yet')
         for field in self.fields:
             field.make_evenly_spaced(interp=interp, res=res)
-        self._Field__axe_x = self.fields[0].axe_x
-        self._Field__axe_y = self.fields[0].axe_y
+        self._Field__axe_x = self.fields[0].axe_x.copy()
+        self._Field__axe_y = self.fields[0].axe_y.copy()
         self.__mask = False
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From 01aa13b8217538d43d5fce25a041723d1d06c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:45 +0000
Subject: [PATCH 078/105] fix: the spatial coherence of given modes is always
 the same

---
 IMTreatment/pod/pod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 3e26b0c..ec28a48 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -718,8 +718,9 @@ class ModalFields(Field):
                 return np.std(spec)
             # computing minimal variance
             min_std = 0.
+            random_state = np.random.RandomState(0)
             for i in np.arange(20):
-                min_std_field = np.random.rand(*shape)*2. - 1.
+                min_std_field = random_state.rand(*shape)*2. - 1.
                 min_std += get_field_spec_std(min_std_field)
             min_std /= 20.
             # computing maximal variance
-- 
2.43.0


From 606c392cc10619df7d7d298afba9b74649bf2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:45 +0000
Subject: [PATCH 079/105] fix: the background image no longer depends on what
 lies under the masks

---
 IMTreatment/core/temporalscalarfields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 5da840a..44f265e 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -115,6 +115,8 @@ class TemporalScalarFields(tf.TemporalFields):
         # Data
         min_len = len(self.times)/10
         values = np.zeros(self.shape)
+        all_values = np.array([field.values for field in self.fields])
+        masks = self.mask
         if verbose:
             pg = ProgressCounter(init_mess="Computing background image",
                                  nmb_max=self.shape[0]*self.shape[1],
@@ -122,8 +124,7 @@ class TemporalScalarFields(tf.TemporalFields):
                                  perc_interv=1)
         # Spatial loop
         for i, j in np.ndindex(self.shape):
-            vals = np.array([self.fields[n]._ScalarField__values[i, j]
-                             for n in range(len(self.fields))])
+            vals = all_values[~masks[:, i, j], i, j]
             # # HIST
             # hist = np.bincount(vals)
             # val = np.argmax(hist)
-- 
2.43.0


From da3a0b5a122c1c36cbb2b6356fc98f9ad8e87f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:30 +0000
Subject: [PATCH 080/105] fix: the raw coherences returned to the caller are
 not the stored ones

---
 IMTreatment/pod/pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index ec28a48..b9a237b 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -668,7 +668,7 @@ class ModalFields(Field):
             self._ModalFields__temp_coh = var_spec
         # returning
         if raw:
-            return var_spec
+            return var_spec.copy()
         else:
             prof = Profile(np.arange(len(self.modes)), var_spec, unit_x='',
                            unit_y='', name="")
@@ -749,7 +749,7 @@ class ModalFields(Field):
             # storing in object
             self._ModalFields__spat_coh = var_spec
         if raw:
-            return var_spec
+            return var_spec.copy()
         else:
             prof = Profile(np.arange(len(self.modes)), var_spec, unit_x='',
                            unit_y='', name="")
-- 
2.43.0


From 1df89bc6809af9e851e90efd970ae244efae20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:30 +0000
Subject: [PATCH 081/105] fix: scaled spatial fields get the units of their
 fields

---
 IMTreatment/core/spatialfields.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index cafa9f5..2398744 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -148,6 +148,27 @@ class SpatialFields(flds.Fields):
     def y_max(self):
         return np.max([field.axe_y[-1] for field in self.fields])
 
+    def scale(self, scalex=None, scaley=None, scalev=None, inplace=False):
+        """
+        Scale the fields.
+
+        Parameters
+        ----------
+        scalex, scaley, scalev : numbers or Unum objects
+            Scale for the axis and the values.
+        inplace : boolean
+            .
+        """
+        tmp_f = self if inplace else self.copy()
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley, scalev=scalev,
+                          inplace=True)
+        if len(tmp_f.fields) != 0:
+            tmp_f.__unit_x = tmp_f.fields[0].unit_x
+            tmp_f.__unit_y = tmp_f.fields[0].unit_y
+            tmp_f.__unit_values = tmp_f.fields[0].unit_values
+        if not inplace:
+            return tmp_f
+
     def add_field(self, field, copy=True):
         """
         """
-- 
2.43.0


From c1aaee48cf7824e2cda9017c18d5510ad40e66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 082/105] fix: the coherences are computed again when the modes
 or their evolutions change

---
 IMTreatment/pod/pod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index b9a237b..f51f362 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -307,6 +307,7 @@ class ModalFields(Field):
             for mode in tmp_mf.modes:
                 mode.crop(intervx=intervx, intervy=intervy,
                           ind=ind, inplace=True)
+            tmp_mf._ModalFields__spat_coh = None
         # return
         if not inplace:
             return tmp_mf
@@ -340,6 +341,8 @@ class ModalFields(Field):
         for i in range(len(tmp_mf.modes)):
             tmp_mf.modes[i].scale(scalex=scalex, scaley=scaley,
                                   inplace=True)
+        tmp_mf._ModalFields__spat_coh = None
+        tmp_mf._ModalFields__temp_coh = None
         # return
         if not inplace:
             return tmp_mf
@@ -362,10 +365,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__temp_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__temp_coh = None
             return tmp_MF
 
     def smooth_spatial_evolutions(self, tos='uniform', size=None, inplace=True):
@@ -385,10 +390,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.modes[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__spat_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__spat_coh = None
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From b5d173f2fd37e31e836143d60d26111ee4eded32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:18 +0000
Subject: [PATCH 083/105] fix: the stored type of the values follows the values

---
 IMTreatment/core/scalarfield.py | 1 +
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 226ce7c..5d25631 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -334,6 +334,7 @@ class ScalarField(fld.Field):
             self.__mask = np.isnan(new_values)
             # storing data
             self.__values = new_values
+            self._values_dtype = new_values.dtype
         else:
             raise ValueError("'values' should have the same shape as the "
                              "original values : {}, not {}."
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 9c1e792..7b0c335 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -303,6 +303,7 @@ class VectorField(field.Field):
             raise ValueError("'comp_x' must be coherent with axis system")
         # storing dat
         self.__comp_x = new_comp_x
+        self._values_dtype = np.result_type(self.__comp_x, self.__comp_y)
 
     @comp_x.deleter
     def comp_x(self):
@@ -330,6 +331,7 @@ class VectorField(field.Field):
             raise ValueError()
         # storing data
         self.__comp_y = new_comp_y
+        self._values_dtype = np.result_type(self.__comp_x, self.__comp_y)
 
     @comp_y.deleter
     def comp_y(self):
-- 
2.43.0


From 163f53c75ffc3edda338b175c5f1ae492dadc995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 084/105] fix: the viewers of fields open with the installed
 matplotlib

---
 IMTreatment/plotlib/plotlib.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index d25b995..3818f59 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -440,8 +440,6 @@ class ButtonManager(object):
             self.cb_norm = cb_norm
             self.cb = mpl.colorbar.ColorbarBase(self.cbax, norm=self.cb_norm,
                                                 cmap=cmap)
-            self.cb.set_norm(self.cb_norm)
-            self.cb.draw_all()
         # update with initial data
         self.update()
         # set texts and rescale
@@ -749,8 +747,7 @@ class ButtonManager(object):
                        rescale=False)
         if self.is_cb and not self.sharecb:
             norm = self.displ_cb.get_norm(self.ind)
-            self.cb.set_norm(norm)
-            self.cb.draw_all()
+            self.cb.mappable.set_norm(norm)
         # update linked graphs
         self._update_linked_graphs()
         # reactivate buttons
-- 
2.43.0


From 0cac0eea32e5bd149ac88ce395ecbf54a793642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 085/105] fix: the colour bar of a frame goes up to its maximum

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 3818f59..5565486 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1095,7 +1095,7 @@ class Displayer(object):
 
     def get_norm(self, i):
         vmin = np.min(self.colors[i])
-        vmax = np.min(self.colors[i])
+        vmax = np.max(self.colors[i])
         return mpl.colors.Normalize(vmin=vmin, vmax=vmax)
 
     def get_global_norm(self):
-- 
2.43.0


From f4559ca04af3c3e8cb5a3d0b17ffd5ea506decf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 086/105] fix: the previous frame leaves the viewer whatever
 the size of the buffer

---
 IMTreatment/plotlib/plotlib.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 5565486..da9a0e1 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -968,7 +968,7 @@ class Displayer(object):
         self.curr_ind = 0
         # place to store the drawings
         self.draws = [None]*self.length
-        self.curr_draw = None
+        self.curr_plot = None
         self.displ_saved_inds = np.zeros(self.length, dtype=int)
         self.displ_saved_curr_ind = 1
         if buffer_size is None:
@@ -1169,20 +1169,18 @@ class Displayer(object):
         if i is None:
             i = 0
         # remove current draw
-        if (self.curr_draw is not None and
-                self.draws[self.curr_draw] is not None and
-                remove_current):
-            self._toggle_visibility(self.draws[self.curr_draw])
+        if self.curr_plot is not None and remove_current:
+            self._toggle_visibility(self.curr_plot)
+        self.curr_plot = None
         if self.use_buffer:
             # if draw already computed
             if self.draws[i] is not None:
                 self._toggle_visibility(self.draws[i])
-                self.curr_draw = i
             # else make a new one
             else:
-                self.curr_draw = i
                 self.draws[i] = self.draw_new(i=i, ax=ax, cb=cb,
                                               rescale=rescale)
+            self.curr_plot = self.draws[i]
             # keep trace of saved displ
             # (deleting first ones if too much of them)
             self.displ_saved_inds[i] = self.displ_saved_curr_ind
@@ -1195,11 +1193,11 @@ class Displayer(object):
                     ind = ind[0]
                     self.draws[ind] = None
                     self.displ_saved_inds[ind] = 0.
-            # returning
-            return self.draws[i]
         else:
-            # returning
-            return self.draw_new(i=i, ax=ax, cb=cb, rescale=rescale)
+            self.curr_plot = self.draw_new(i=i, ax=ax, cb=cb,
+                                           rescale=rescale)
+        # returning
+        return self.curr_plot
 
     def draw_new(self, i=None, ax=None, cb=False, rescale=True):
         # check data
-- 
2.43.0


From 5a146a1e6fbcdb79cacd5d1f9c5b8c4868751f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 087/105] fix: the viewer goes to the last frame, and to no
 frame before the first

---
 IMTreatment/plotlib/plotlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index da9a0e1..4abffae 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -593,7 +593,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             return None
-        if key_number > self.ind_max or key_number < 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
@@ -602,7 +602,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             key_number = self.ind_max + 1
-        if key_number > self.ind_max + 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
@@ -611,7 +611,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             key_number = 1
-        if key_number > self.ind_max + 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
-- 
2.43.0


From f04872dba21fc418544777817bccb4ec874df26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 088/105] fix: the viewer plays the last frame, and with only
 one limit set

---
 IMTreatment/plotlib/plotlib.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 4abffae..c89b720 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -576,7 +576,7 @@ class ButtonManager(object):
 
     def timer_play(self):
         # check if lims are set
-        if self.ind_lims[1] is not None:
+        if self.ind_lims[0] is not None and self.ind_lims[1] is not None:
             ind1, ind2 = self.ind_lims
         else:
             ind1 = 0
@@ -585,8 +585,6 @@ class ButtonManager(object):
         self.ind += self.incr
         if self.ind >= ind2:
             self.ind = ind1
-        elif self.ind >= self.ind_max:
-            self.ind = 0
         self.update()
 
     def goto(self):
-- 
2.43.0


From 28058ff5d7790556c71d784700a3303d75a481a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 089/105] fix: the limits of the viewer are existing frames, in
 order

---
 IMTreatment/plotlib/plotlib.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index c89b720..76cfa29 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -645,11 +645,12 @@ class ButtonManager(object):
                     text = self.axslid.text(x=lim2+0.5, y=1.1, ha='center',
                                             s="{}".format(lim2 + 1))
                     self.ind_lims_texts[1] = text
-                    # sort if necessary
-                    if self.ind_lims[1] < self.ind_lims[0]:
-                        self.ind_lims = self.ind_lims[::-1]
-                        self.ind_lims_faces = self.ind_lims_faces[::-1]
-                        self.ind_lims_texts = self.ind_lims_texts[::-1]
+            # sort if necessary
+            if None not in self.ind_lims:
+                if self.ind_lims[1] < self.ind_lims[0]:
+                    self.ind_lims = self.ind_lims[::-1]
+                    self.ind_lims_faces = self.ind_lims_faces[::-1]
+                    self.ind_lims_texts = self.ind_lims_texts[::-1]
             return None
         # get ind
         key_nmb = self._get_key_number()
@@ -657,6 +658,8 @@ class ButtonManager(object):
             key_nmb = self.ind
         else:
             key_nmb -= 1
+        if key_nmb > self.ind_max or key_nmb < 0:
+            return None
         # If ind is already a limite, remove it
         if key_nmb in self.ind_lims:
             if key_nmb == self.ind_lims[0]:
-- 
2.43.0


From 5d030864b75e2cd623cecf04c2f5ae240e1d574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 090/105] fix: a drawing that fails does not leave the buttons
 of the viewer dead

---
 IMTreatment/plotlib/plotlib.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 76cfa29..83ab3be 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -740,19 +740,21 @@ class ButtonManager(object):
     def update(self):
         # deactivate buttons
         self.deactivate_buttons()
-        # actualize slider
-        self.bslid.set_val(self.ind + 1)
-        # actualize all displayers
-        for displ in self.displayers:
-            displ.draw(self.ind, ax=self.ax, cb=False, remove_current=True,
-                       rescale=False)
-        if self.is_cb and not self.sharecb:
-            norm = self.displ_cb.get_norm(self.ind)
-            self.cb.mappable.set_norm(norm)
-        # update linked graphs
-        self._update_linked_graphs()
-        # reactivate buttons
-        self.activate_buttons()
+        try:
+            # actualize slider
+            self.bslid.set_val(self.ind + 1)
+            # actualize all displayers
+            for displ in self.displayers:
+                displ.draw(self.ind, ax=self.ax, cb=False,
+                           remove_current=True, rescale=False)
+            if self.is_cb and not self.sharecb:
+                norm = self.displ_cb.get_norm(self.ind)
+                self.cb.mappable.set_norm(norm)
+            # update linked graphs
+            self._update_linked_graphs()
+        finally:
+            # reactivate buttons
+            self.activate_buttons()
         # update slide apparence
         self._update_slider_faces()
 
-- 
2.43.0


From fad9d2707b5fa47f35183f50576f9d321a1a838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 091/105] fix: films hold each frame once, and leave the viewer
 where it was

---
 IMTreatment/plotlib/plotlib.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 83ab3be..357b2d9 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -884,15 +884,16 @@ class ButtonManager(object):
                         codec=codec)
         # write
         backup_ind = self.ind
-        self.ind = fields[0]
-        self.update()
-        with writer.saving(self.fig, animpath, dpi):
-            for i in range(fields[1] - fields[0]):
-                self.nextf(None)
-                writer.grab_frame()
+        try:
+            with writer.saving(self.fig, animpath, dpi):
+                for ind in range(fields[0], fields[1] + 1):
+                    self.ind = ind
+                    self.update()
+                    writer.grab_frame()
         # restore
-        self.ind = backup_ind
-        self.update()
+        finally:
+            self.ind = backup_ind
+            self.update()
 
     def close(self):
         if self.on_play:
-- 
2.43.0


From f4ff0329c5333296ac4137c3528674428dd5c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 092/105] fix: save_animation films the figure it is given

---
 IMTreatment/plotlib/plotlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 357b2d9..2de6924 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -205,7 +205,8 @@ def save_animation(animpath, fig=None, fields='all', writer='ffmpeg', fps=24,
         title, artist, comment : strings
             Information added to the file metadata
         """
-        fig = plt.gcf()
+        if fig is None:
+            fig = plt.gcf()
         try:
             bm = fig.button_manager
         except AttributeError:
-- 
2.43.0


From 625d941c60b39ff2cbe0c45dd2e22870f9a8eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 093/105] fix: the viewers of streamlines change frames

---
 IMTreatment/plotlib/plotlib.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 2de6924..4920c2e 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1132,7 +1132,8 @@ class Displayer(object):
         # Remove or add obj according to its type
         # Classic type
         if isinstance(obj, (mpl.lines.Line2D, mpl.image.AxesImage,
-                            mpl.collections.Collection)):
+                            mpl.collections.Collection,
+                            mpl.patches.FancyArrowPatch)):
             try:
                 obj.remove()
             except ValueError:
@@ -1147,16 +1148,8 @@ class Displayer(object):
                     self.ax.add_artist(tmp_obj)
         # Streamplot type
         elif isinstance(obj, mpl.streamplot.StreamplotSet):
-            try:
-                obj.lines.remove()
-                if not hasattr(obj.arrows, 'patches'):
-                    obj.arrows.patches = self.ax.patches
-                # TODO : memory leak
-                #       (because arrows removing is not implemented)
-                self.ax.patches = []
-            except ValueError:
-                self.ax.add_artist(obj.lines)
-                self.ax.patches = obj.arrows.patches
+            for tmp_obj in [obj.lines] + obj.arrow_patches:
+                self._toggle_visibility(tmp_obj)
         else:
             raise ValueError("{}".format(obj))
 
@@ -1309,8 +1302,11 @@ class Displayer(object):
             # plot
             Vx = tmp_values[0].transpose()
             Vy = tmp_values[1].transpose()
+            old_patches = list(ax.patches)
             plot = ax.streamplot(tmp_x, tmp_y, Vx, Vy, color=tmp_colors,
                                  linewidth=tmp_lw, **dargs)
+            plot.arrow_patches = [patch for patch in ax.patches
+                                  if patch not in old_patches]
         else:
             raise Exception("Unknown kind of plot : {}".format(kind))
         if aspect is not None:
-- 
2.43.0


From 238ce4ba4d79aa119cce36f3177615072df641c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 094/105] fix: the protocol can use all the processors

---
 IMTreatment/protocols/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/protocols/protocols.py b/IMTreatment/protocols/protocols.py
index 242e54d..07dfef3 100644
--- a/IMTreatment/protocols/protocols.py
+++ b/IMTreatment/protocols/protocols.py
@@ -59,7 +59,7 @@ class POD_CP_protocol(object):
         self.nmb_min_in_traj = nmb_min_in_traj
         self.len_data = None
         if thread == "all":
-            self.thread = psutil.cpu_coun()
+            self.thread = psutil.cpu_count()
         else:
             self.thread = thread
         self.remove_weird = remove_weird
-- 
2.43.0


From ea6998d73e12173337aa836c7a9ab6a3f743a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 095/105] fix: the protocol goes on when loading the fields
 takes no free memory

---
 IMTreatment/protocols/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/protocols/protocols.py b/IMTreatment/protocols/protocols.py
index 07dfef3..e46e405 100644
--- a/IMTreatment/protocols/protocols.py
+++ b/IMTreatment/protocols/protocols.py
@@ -173,7 +173,7 @@ class POD_CP_protocol(object):
             rec = imtio.import_from_file(join(self.imtpath, "{}_rec.cimt"
                                               .format(self.name)))
         # Check if there is enough memory to use
-        filesize = mem_available - psutil.virtual_memory().free
+        filesize = max(mem_available - psutil.virtual_memory().free, 1)
         possible_nmb_of_copies = int(mem_available/(filesize*2))
         if possible_nmb_of_copies < 1:
             possible_nmb_of_copies = 1
-- 
2.43.0


From 6377e5eb1738fa151d4d124fcb659de470e2ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 096/105] fix: a protocol stopped while preparing the data
 makes the mean field again

---
 IMTreatment/protocols/protocols.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/protocols/protocols.py b/IMTreatment/protocols/protocols.py
index e46e405..97ebfb6 100644
--- a/IMTreatment/protocols/protocols.py
+++ b/IMTreatment/protocols/protocols.py
@@ -92,12 +92,13 @@ class POD_CP_protocol(object):
         plt.savefig(join(self.respath, "{}/mean_field.png".format(self.name)))
         plt.close(plt.gcf())
         # store
-        imtio.export_to_file(tvf,
-                             join(self.imtpath,
-                                  "{}_cln.cimt".format(self.name)))
+        # ('_cln' last: this step is done once it exists)
         imtio.export_to_file(mean_field,
                              join(self.imtpath,
                                   "{}_mean.cimt".format(self.name)))
+        imtio.export_to_file(tvf,
+                             join(self.imtpath,
+                                  "{}_cln.cimt".format(self.name)))
         del tvf
 
     def pod_decomp(self):
-- 
2.43.0


From 57bbec7dc52dcb6df658681949b54f086190f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:59 +0000
Subject: [PATCH 097/105] fix: the default mirroring of the protocol names
 existing axes

---
 IMTreatment/protocols/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/protocols/protocols.py b/IMTreatment/protocols/protocols.py
index 97ebfb6..9303db3 100644
--- a/IMTreatment/protocols/protocols.py
+++ b/IMTreatment/protocols/protocols.py
@@ -36,7 +36,7 @@ class POD_CP_protocol(object):
     def __init__(self, name, imtpath, respath, crop_x=[-np.inf, np.inf],
                  crop_y=[-np.inf, np.inf], crop_t=[-np.inf, np.inf],
                  hard_crop=True,
-                 pod_coh=0.05, mirroring=[[2, 0], [1, 0]], eps_traj=15.,
+                 pod_coh=0.05, mirroring=[['y', 0], ['x', 0]], eps_traj=15.,
                  red_fact=1., nmb_min_in_traj=1, det_fact=1,
                  thread='all', remove_weird=False):
         self.name = name
-- 
2.43.0


From a18746a33c602921df2fb2972bc1e90d36bca4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:05 +0000
Subject: [PATCH 098/105] fix: recomputing everything includes the detailled
 study

---
 IMTreatment/protocols/protocols.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/protocols/protocols.py b/IMTreatment/protocols/protocols.py
index 9303db3..fd98dc2 100644
--- a/IMTreatment/protocols/protocols.py
+++ b/IMTreatment/protocols/protocols.py
@@ -267,6 +267,9 @@ class POD_CP_protocol(object):
         self.pod_decomp()
         self.pod_reconstr()
         self.CP_detection()
+        if self.detailled:
+            self.pod_reconstr(detailled=True)
+            self.CP_detection(detailled=True)
 
     def _display_heading(self):
         title = "=   {}   =".format(self.name)
-- 
2.43.0


From 8e5f2a6406fa41a16b6067f4cd189a7c81cbf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 099/105] fix: get_compounded_vector(detailed=True) refreshes
 the imaginary vortex

---
 IMTreatment/vortex_creation/vortex_creation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..aa792a7 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -894,6 +894,9 @@ class VortexSystem(object):
         """
         vects = []
         vects_cf = []
+        # refresh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         if detailed:
             vortex_ids = []
             cf_ids = []
-- 
2.43.0


From 923cd154174b09f03cd6b6d6702d047dc95253b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 100/105] fix: a vortex system holds copies of its walls and
 custom fields

---
 IMTreatment/vortex_creation/vortex_creation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index aa792a7..ef9faab 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -718,7 +718,7 @@ class VortexSystem(object):
         """
         if not isinstance(wall, Wall):
             raise TypeError()
-        self.walls.append(wall)
+        self.walls.append(copy.deepcopy(wall))
         self.to_refresh = True
 
     def add_custom_field(self, custfield):
@@ -732,9 +732,10 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
-        custfield.id = self.curr_cf_id
+        cfield = custfield.copy()
+        cfield.id = self.curr_cf_id
         self.curr_cf_id += 1
-        self.custfields.append(custfield)
+        self.custfields.append(cfield)
 
     def remove_vortex(self, ind):
         """
-- 
2.43.0


From 23a08249ccfbf80b3ed81ce3b1b3310908f83bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 101/105] fix: remove_vortex updates the number of vortex

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index ef9faab..5e5205a 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -765,6 +765,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
-- 
2.43.0


From 9010f35d668a06a10272ff4f71ed0d5c088b27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 102/105] fix: refresh_imaginary_vortex replaces the imaginary
 vortex at once

---
 IMTreatment/vortex_creation/vortex_creation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 5e5205a..08fac5f 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -931,19 +931,20 @@ class VortexSystem(object):
     def refresh_imaginary_vortex(self):
         """
         """
-        self.im_vortex = []
+        im_vortex = []
         for wall in self.walls:
-            for i, ivort in enumerate(self.im_vortex[:]):
+            for i, ivort in enumerate(im_vortex[:]):
                 im_vort = ivort.symetrize()
                 im_vort.movable = True
                 im_vort.x0, im_vort.y0 = wall.get_symmetry((ivort.x0,
                                                             ivort.y0))
-                self.im_vortex.append(im_vort)
+                im_vortex.append(im_vort)
             for i, vort in enumerate(self.vortex):
                 im_vort = vort.symetrize()
                 im_vort.movable = True
                 im_vort.x0, im_vort.y0 = wall.get_symmetry((vort.x0, vort.y0))
-                self.im_vortex.append(im_vort)
+                im_vortex.append(im_vort)
+        self.im_vortex = im_vortex
         self.to_refresh = False
 
     def get_vector_field(self, axe_x, axe_y, unit_x='', unit_y=''):
-- 
2.43.0


From 51b4b32aa6163d689565dbc3ab881de1e51e5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:53 +0000
Subject: [PATCH 103/105] fix: a potential flow is solved again when what it
 depends on has changed

---
 IMTreatment/potential_flow/potential_flow.py | 27 +++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..49579de 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -51,6 +51,7 @@ class System(object):
         self.objects_1D = []
         self.objects_2D = []
         self.sigma_to_refresh = False
+        self._solved_for = None
 
     def add_object(self, dim, coords, kind='wall', res=1):
         """
@@ -118,6 +119,8 @@ class System(object):
         # getting solid panels
         solid_panels = self.get_solid_panels()
         nmb_solid_panels = len(solid_panels)
+        self.sigma_to_refresh = True
+        state = [self.u_inf, self.alpha] + list(solid_panels)
         # computes the source influence matrix
         A = np.empty((nmb_solid_panels, nmb_solid_panels), dtype=float)
         np.fill_diagonal(A, 0.5)
@@ -133,7 +136,6 @@ class System(object):
         sigma = np.linalg.solve(A, b)
         for i, panel in enumerate(solid_panels):
             panel.sigma = sigma[i]
-        self.sigma_to_refresh = False
 
         # computes the matrix of the linear system
         A = np.empty((len(solid_panels), len(solid_panels)), dtype=float)
@@ -151,18 +153,31 @@ class System(object):
         vt = np.dot(A, sigma) + b
         for i, panel in enumerate(solid_panels):
             panel.vt = vt[i]
+        # remember what has been solved
+        self._solved_for = state
+        self.sigma_to_refresh = False
 #
 #        ### cp ###
 #        for panel in self.solid_panels:
 #            panel.cp = 1.0 - (panel.vt/u_inf)**2
 
+    def _refresh_sigma(self):
+        """
+        Solve sigma values if the boundaries or the free stream have changed
+        since the last resolution.
+        """
+        state = [self.u_inf, self.alpha] + list(self.get_solid_panels())
+        if len(state) == 2:
+            return
+        if self.sigma_to_refresh or state != self._solved_for:
+            self.solving_sigma()
+
     def compute_velocity(self, x, y):
         """
         Return the velocity at the given point.
         """
         # update sigma if necessary
-        if self.sigma_to_refresh:
-            self.solving_sigma()
+        self._refresh_sigma()
         solid_panels = self.get_solid_panels()
         # check if on panel
         for pan in solid_panels:
@@ -188,8 +203,7 @@ class System(object):
         Returns the velocity field on the given grid.
         """
         # update sigma if necessary
-        if self.sigma_to_refresh:
-            self.solving_sigma()
+        self._refresh_sigma()
         # creating the grid
         X, Y = np.meshgrid(grid_x, grid_y)
         Nx, Ny = X.shape
@@ -230,8 +244,7 @@ class System(object):
         Return the velocity on the given line.
         """
         # update sigma if necessary
-        if self.sigma_to_refresh:
-            self.solving_sigma()
+        self._refresh_sigma()
         # creating the line
         xa, ya = xya
         xb, yb = xyb
-- 
2.43.0


From 3357ce00c2d382897338695e9d99545c5d12d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:53 +0000
Subject: [PATCH 104/105] fix: velocities inside the solids are not left
 uninitialised

---
 IMTreatment/potential_flow/potential_flow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index 49579de..11cb480 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -207,7 +207,7 @@ class System(object):
         # creating the grid
         X, Y = np.meshgrid(grid_x, grid_y)
         Nx, Ny = X.shape
-        u, v = np.empty((Nx, Ny), dtype=float), np.empty((Nx, Ny), dtype=float)
+        u, v = np.full((Nx, Ny), np.nan), np.full((Nx, Ny), np.nan)
         # mask if we don't want velocities in the solids
         paths = self.get_solid_paths()
         mask = np.zeros((Nx, Ny), dtype=bool)
@@ -250,8 +250,8 @@ class System(object):
         xb, yb = xyb
         x = np.linspace(xa, xb, res)
         y = np.linspace(ya, yb, res)
-        vx = np.empty(x.shape)
-        vy = np.empty(x.shape)
+        vx = np.full(x.shape, np.nan)
+        vy = np.full(x.shape, np.nan)
         # mask if we don't want velocities on solid
         mask = np.zeros(x.shape)
         paths = self.get_solid_paths()
-- 
2.43.0


From e1fc5738c8c7c22846bf6faaece9c4ff3b3c6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:02 +0000
Subject: [PATCH 105/105] fix: importing pictures or a video leaves the given
 range as it was

---
 IMTreatment/file_operation/file_operation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index b27e148..bb8f718 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1377,10 +1377,8 @@ def import_from_pictures(filepath, axe_x=None, axe_y=None, unit_x='',
     else:
         if fieldnumbers[0] < 0:
             raise ValueError()
-        if fieldnumbers[1] > len(paths):
-            fieldnumbers[1] = len(paths)
         start = fieldnumbers[0]
-        end = fieldnumbers[1]
+        end = min(fieldnumbers[1], len(paths))
     if verbose:
         pg = ProgressCounter(init_mess="Importing pictures",
                              nmb_max=len(range(start, end, incr)),
@@ -1454,8 +1452,7 @@ def import_from_video(filepath, dx=1, dy=1, unit_x='',
     # filter by field number
     if frame_inds is None:
         frame_inds = [0, max_frame]
-    if frame_inds[1] > max_frame:
-        frame_inds[1] = max_frame
+    frame_inds = [frame_inds[0], min(frame_inds[1], max_frame)]
     if verbose:
         start = frame_inds[0]
         end = frame_inds[1]
-- 
2.43.0

