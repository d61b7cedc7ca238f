From a4d9f452bcdf784d002a27b71b78b9d697b49262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 01/22] fix: align_axis used the wrong larry's axis for inner
 and outer joins

---
 la/flarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 1b2ca9b..c6224c7 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -504,10 +504,10 @@ def align_axis(lars, axis=0, join='inner'):
         label = frozenset(lars[0].label[axis[0]])
         if join == 'inner':
             for i, lar in enumerate(lars[1:]):
-                label = label.intersection(lar.label[axis[i]])
+                label = label.intersection(lar.label[axis[i + 1]])
         elif join == 'outer':
             for i, lar in enumerate(lars[1:]):
-                label = label.union(lar.label[axis[i]])
+                label = label.union(lar.label[axis[i + 1]])
         label = list(label)
         label.sort()
     lars_out = []
-- 
2.43.0


From df1210791347e42f1818c606dbe7186ceaae85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 02/22] fix: binaryop with missone or misstwo modified its
 input larrys

---
 la/flarry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/la/flarry.py b/la/flarry.py
index c6224c7..a469278 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -767,6 +767,11 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
 
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
+        # align_raw returns views when possible; do not modify the input larrys
+        if ign1:
+            x1 = x1.copy()
+        if ign2:
+            x2 = x2.copy()
         miss1 = ismissing(x1)
         miss2 = ismissing(x2)
     if missone != 'ignore':
-- 
2.43.0


From 01b3a9a9386655cad3ad53be58ab5fbb17fd7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 03/22] fix: merge modified and returned its input when the
 labels were identical

---
 la/deflarry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 83f9919..b3c832f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3471,6 +3471,8 @@ class larry(object):
                 mergelabel = sorted(mergelabel)
                 lar1 = lar1.morph(mergelabel, ax)
                 lar2 = lar2.morph(mergelabel, ax)
+        if lar1 is self:
+            lar1 = self.copy()
 
         # Mask
         dtype1 = self.dtype
-- 
2.43.0


From c9bc6b4eab7b57f3c1c46de3c585635898398ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/22] fix: larry.move_func dropped the keyword arguments of
 func

---
 la/deflarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index b3c832f..9db6331 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3054,7 +3054,8 @@ class larry(object):
         array([ NaN,   3.,   5.,   7.])
 
         """
-        x = move_func(func, self.x, window, axis=axis, method=method)
+        x = move_func(func, self.x, window, axis=axis, method=method,
+                      **kwargs)
         return larry(x, self.copylabel(), validate=False)
 
     def movingsum_forward(self, window, skip=0, axis=-1, norm=False):
-- 
2.43.0


From ffa6349ed392377de659e1db43a7e45bc510bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 05/22] fix: pull returned a scalar when one label was left in
 a 2d larry

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 9db6331..20ba79a 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2362,7 +2362,7 @@ class larry(object):
         index = [slice(None)] * self.ndim
         index[axis] = idx
         x = self.x[index]
-        if x.shape == (1,):
+        if self.ndim == 1:
             return x[0]
         return larry(x, label)
 
-- 
2.43.0


From 62d57854876627dfae0ed337d81952abd5e1f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 06/22] fix: vacuum ignored negative axes

---
 la/deflarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 20ba79a..7bd5d80 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4031,11 +4031,11 @@ class larry(object):
         if axis is None:
             axes = range(ndim)
         elif not hasattr(axis, '__iter__'):
-            axes = [axis]
+            axes = [range(ndim)[axis]]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
         else:
-            axes = axis
+            axes = [range(ndim)[a] for a in axis]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
 
-- 
2.43.0


From 9209efdfdf1d770808242291066fab4c3eaa8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 07/22] fix: align could not fill from a larry with an empty
 axis

---
 la/flarry.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index a469278..99df120 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -300,8 +300,8 @@ def align_raw(lar1, lar2, join='inner', cast=True):
                 list3.sort()
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x1 = x1.take(idx1, ax)
-                x2 = x2.take(idx2, ax)
+                x1 = _take_fill(x1, idx1, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -332,7 +332,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list1)
             if list1 != list2:
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x2 = x2.take(idx2, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx2_miss) > 0:
                     if miss2 == undefined:
                         miss2 = missing_marker(lar2)
@@ -354,7 +354,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list2)
             if list1 != list2:
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
-                x1 = x1.take(idx1, ax)
+                x1 = _take_fill(x1, idx1, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -376,6 +376,14 @@ def align_raw(lar1, lar2, join='inner', cast=True):
 
     return x1, x2, label, x1isview, x2isview
 
+def _take_fill(x, idx, axis):
+    "Like x.take(idx, axis) but can also take (filler) from an empty axis."
+    if x.shape[axis] == 0:
+        shape = list(x.shape)
+        shape[axis] = len(idx)
+        return np.empty(shape, dtype=x.dtype)
+    return x.take(idx, axis)
+
 def align_axis(lars, axis=0, join='inner'):
     """
     Align many larrys along potentially different axes.
-- 
2.43.0


From f020083856cff3aa170c64d4d61ca28d3a755860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 08/22] fix: indexing with both a scalar and a sequence could
 misplace the data

---
 la/deflarry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 7bd5d80..5a4e53f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1826,7 +1826,15 @@ class larry(object):
                     lab = self.label[ax]
                 if lab is not None:
                     label.append(lab)
-            x = self.x[index]
+            if validate and any([isscalar(z) for z in index]):
+                # When mixed with a sequence, NumPy treats a scalar as one
+                # more sequence, which can reorder the axes of the output. So
+                # index with the scalars first.
+                x = self.x[tuple([z if isscalar(z) else slice(None)
+                                  for z in index])]
+                x = x[tuple([z for z in index if not isscalar(z)])]
+            else:
+                x = self.x[index]
             if allscalar:
                 return x
         elif typidx is slice:
-- 
2.43.0


From ea8fcd1b05225320e1de81320cc6e3ff9ffb0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 09/22] fix: lix raised on slices that select nothing

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 5a4e53f..8560f44 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5066,9 +5066,9 @@ class Lix(object):
                     s = slicemaker(idx, y.labelindex, ax)
                     slar = range(*s.indices(y.shape[ax]))
                     lab = y.label[ax][s]
-                    if len(lab) > 1:
+                    if len(lab) != 1:
                         label.append(lab)
-                    index2.append(slar)
+                    index2.append(np.asarray(slar, dtype=int))
                 elif isscalar(idx):
                     index2.append([idx])
                 else:
@@ -5125,9 +5125,9 @@ class Lix(object):
                     s = slicemaker(idx, y.labelindex, ax)
                     slar = range(*s.indices(y.shape[ax]))
                     lab = y.label[ax][s]
-                    if len(lab) > 1:
+                    if len(lab) != 1:
                         label.append(lab)
-                    index2.append(slar)
+                    index2.append(np.asarray(slar, dtype=int))
                 elif isscalar(idx):
                     index2.append([idx])
                 else:
-- 
2.43.0


From 8195899184a8aea31d0df374e8bf9c12e5d75eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 10/22] fix: a failed archive lookup left the archive open in
 read mode

---
 la/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/io.py b/la/io.py
index aa7b6b4..ef6d727 100644
--- a/la/io.py
+++ b/la/io.py
@@ -168,9 +168,11 @@ class IO(object):
                 x = lara(self.filename, key)
                 return x
             else:
+                f.close()
                 msg = "%s is in the archive but it is not a larry."
                 raise KeyError(msg % key)
         else:
+            f.close()
             raise KeyError("A larry named %s is not in the archive." % key)
 
     def __setitem__(self, key, value):
-- 
2.43.0


From 773aa9c74913951a315fc9fa1685ecdc4bd62201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 11/22] fix: could not overwrite a larry with a nested name in
 an archive

---
 la/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index ef6d727..4f0cb9f 100644
--- a/la/io.py
+++ b/la/io.py
@@ -188,7 +188,7 @@ class IO(object):
         # Does an item (larry or otherwise) with given key already exist? If
         # so delete. Note that f.keys() [all keys] is used instead of
         # self.keys() [keys that are larrys].
-        if key in f.keys():
+        if key in f:
             self.__delitem__(key)
 
         # If you've made it this far the data looks OK so save it
-- 
2.43.0


From 6a68824f9ad8cbf61731c16f7c2f6e288c8c3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 12/22] fix: overwriting an archived larry with one that cannot
 be saved lost it

---
 la/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/io.py b/la/io.py
index 4f0cb9f..b25e432 100644
--- a/la/io.py
+++ b/la/io.py
@@ -182,6 +182,10 @@ class IO(object):
             raise TypeError('key must be a string of type str.')
         if not isinstance(value, larry):
             raise TypeError('value must be a larry.')
+        arrays = [_list2array(label)[0] for label in value.label]
+        for array in arrays + [value.x]:
+            # Raises if there is no HDF5 equivalent of the dtype
+            h5py.h5t.py_create(array.dtype, logical=1)
 
         f = h5py.File(self.filename)
 
-- 
2.43.0


From 426d8b8b91a7d9741dfd743eeab27c6524319a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 13/22] fix: the keys of an archive were not accepted as keys,
 so clear failed

---
 la/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/io.py b/la/io.py
index b25e432..ca8bf71 100644
--- a/la/io.py
+++ b/la/io.py
@@ -630,6 +630,9 @@ def archive_directory(file):
     keys = []
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
+            if type(name) is not str:
+                # Python 2: h5py gives unicode names but keys must be str
+                name = name.encode('utf-8')
             keys.append(name)
     f.visititems(append_larrys)
     if opened:
-- 
2.43.0


From ccba5633870d1bcb0d022d61f1343dea802c0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 14/22] fix: assignment with both a scalar and a sequence in
 the index could misplace the values

---
 la/deflarry.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 8560f44..f940917 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2126,11 +2126,23 @@ class larry(object):
                 # function that indexes into labels without indexing into x.
                 # Then use that function in getitem
                 if self[index].label == value.label:
-                    self.x[index] = value.x
+                    value = value.x
                 else:
                     raise IndexError('larrys are not aligned.')
-            else:
-                self.x[index] = value
+            x = self.x
+            if type(index) is tuple and type(x) is np.ndarray:
+                # A scalar mixed with a sequence: index with the scalars
+                # first; see __getitem__
+                scalars = [isscalar(z) for z in index]
+                seqs = [type(z) in (list, tuple, np.ndarray) for z in index]
+                slices = [type(z) is slice for z in index]
+                if any(scalars) and any(seqs) and (
+                   sum(scalars) + sum(seqs) + sum(slices) == len(index)):
+                    x = x[tuple([z if s else slice(None)
+                                 for z, s in zip(index, scalars)])]
+                    index = tuple([z for z, s in zip(index, scalars)
+                                   if not s])
+            x[index] = value
 
     def set(self, label, value):
         """
-- 
2.43.0


From 63dc8743cd384ca83f30f8393615575438f70713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 15/22] fix: merge could not merge int or bool larrys when only
 one needed missing markers

---
 la/deflarry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index f940917..b5c804f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3521,6 +3521,11 @@ class larry(object):
             raise ValueError('Overlapping values')
         else:
             if mask2.any():
+                # The dtypes differ if only one larry needed missing markers
+                type1 = lar1.x.dtype
+                type2 = lar2.x.dtype
+                if type1 != type2 and (type1.char == 'S') == (type2.char == 'S'):
+                    lar1.x = lar1.x.astype(np.promote_types(type1, type2))
                 np.putmask(lar1.x, mask2, lar2.x)
 
         return lar1
-- 
2.43.0


From 2ad18f08e440aa8fc3ec4e4f3aa2a2d7e0e7dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 16/22] fix: panel failed if the first axis was empty

---
 la/flarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index 99df120..6c87fc9 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1478,7 +1478,7 @@ def panel(lar):
         raise ValueError("lar must be 3d.")
     y = lar.copy()
     y.label = [flattenlabel([y.label[1], y.label[2]])[0], y.label[0]]
-    y.x = y.x.T.reshape(-1, y.shape[0], order="F")
+    y.x = y.x.T.reshape(len(y.label[0]), y.shape[0], order="F")
     return y
 
 def cov(lar):
-- 
2.43.0


From 182541e09e999d72a95a9ddc58099bec0aa9ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 17/22] fix: reductions of empty int and bool larrys gave
 garbage instead of NaN

---
 la/deflarry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index b5c804f..e015008 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1471,8 +1471,11 @@ class larry(object):
             else:
                 if op == np.any or op == np.all:
                     dtype = bool
-                else:
+                elif issubclass(self.dtype.type, np.inexact):
                     dtype = self.dtype
+                else:
+                    # The default, NaN, only fits in a float array
+                    dtype = float
                 x = np.empty(shape, dtype=dtype)
                 x.fill(default)
                 label = self.copylabel()
-- 
2.43.0


From 3f1927a6bbe1d5e3db5b669d21d437c0025a5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 18/22] fix: prod of an int larry along an axis raised
 ValueError

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index e015008..d4d7815 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1162,7 +1162,7 @@ class larry(object):
         if idx.ndim == 0:
             if idx:
                 y = np.nan
-        else:
+        elif idx.any():
             np.putmask(y.x, idx, np.nan)
         return y
 
-- 
2.43.0


From a0c0c57a5da8c3c7459a47bb794f8d02bb8fa9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 19/22] fix: shuffle raised IndexError along an empty axis

---
 la/farray/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index 09636b2..9dfcdfe 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -179,4 +179,7 @@ def shuffle(x, axis=0):
         The data is shuffled inplace.        
     
     """
-    np.random.shuffle(np.rollaxis(x, axis))
+    x = np.rollaxis(x, axis)
+    if len(x) > 0:
+        # np.random.shuffle cannot handle 2d, 3d, ... arrays with no rows
+        np.random.shuffle(x)
-- 
2.43.0


From f0a00bd1ef446a20dcb6e256e79aae75f6d9dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 20/22] fix: true division of int larrys floored the quotient

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index d4d7815..fe6dba0 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -825,15 +825,15 @@ class larry(object):
         """
         if isinstance(other, larry):
             if self.label == other.label:
-                x = self.x / other.x
+                x = np.true_divide(self.x, other.x)
                 label = self.copylabel()
                 return larry(x, label, validate=False)
             else:
                 x, y, label = self.__align(other)
-                x = x / y
+                x = np.true_divide(x, y)
                 return larry(x, label, validate=False)
         if np.isscalar(other) or isinstance(other, np.ndarray):
-            x = self.x / other
+            x = np.true_divide(self.x, other)
             label = self.copylabel()
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
@@ -891,7 +891,7 @@ class larry(object):
             raise RuntimeError(msg)
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
-            x = other / self.x
+            x = np.true_divide(other, self.x)
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
 
-- 
2.43.0


From 8ef41939d770c950836eafb8c697e7dc45ec2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:21 +0000
Subject: [PATCH 21/22] fix: correlation of 1d arrays along axis -1 raised
 IndexError

---
 la/farray/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index 9dfcdfe..76f4cb6 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -99,7 +99,7 @@ def correlation(arr1, arr2, axis=None):
             x2 = arr2.copy()
             np.putmask(x1, mask, np.nan)
             np.putmask(x2, mask, np.nan)
-            if axis == 0:
+            if axis == 0 or x1.ndim == 1:
                 x1 = x1 - bn.nanmean(x1, axis)
                 x2 = x2 - bn.nanmean(x2, axis)              
             else:
@@ -121,7 +121,7 @@ def correlation(arr1, arr2, axis=None):
         else:
             x1 = arr1
             x2 = arr2
-            if axis == 0:
+            if axis == 0 or x1.ndim == 1:
                 x1 = x1 - x1.mean(axis)
                 x2 = x2 - x2.mean(axis)              
             else:
-- 
2.43.0


From 219d9eda8b950f1ca9d4d3db506d8a78d20eb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:21 +0000
Subject: [PATCH 22/22] fix: correlation along an axis failed on an int array
 with NaNs in the other

---
 la/farray/misc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index 76f4cb6..92bcbe3 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -95,10 +95,9 @@ def correlation(arr1, arr2, axis=None):
             num = (x1 * x2).sum()
             den = np.sqrt((x1**2).sum() * (x2**2).sum()) 
         else:
-            x1 = arr1.copy()
-            x2 = arr2.copy()
-            np.putmask(x1, mask, np.nan)
-            np.putmask(x2, mask, np.nan)
+            # An integer array cannot hold NaNs
+            x1 = np.where(mask, np.nan, arr1)
+            x2 = np.where(mask, np.nan, arr2)
             if axis == 0 or x1.ndim == 1:
                 x1 = x1 - bn.nanmean(x1, axis)
                 x2 = x2 - bn.nanmean(x2, axis)              
-- 
2.43.0

