From d46e5f8e62f00683784c48d3f4d36ef7a50b3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/35] fix: NLLS and NllsClass ignored a user supplied cond

The default termination function was defined unconditionally and shadowed
the documented cond argument.
---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..05e2d41 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1183,16 +1183,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1380,16 +1382,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From 8d364cb8a2c52a556a8358d209222095f20decb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:05 +0000
Subject: [PATCH 02/35] fix: LsClass.run without the timer used an undefined
 name

LsClass.run called the name ls, which only exists in __init__, so every
run of a class built with timer=False (the default) raised NameError.
---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 05e2d41..0ce8029 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1036,7 +1036,7 @@ class LsClass:
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi += self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From 92e105dfce27dfae9b65359f745fefbe89d176a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:24 +0000
Subject: [PATCH 03/35] fix: pe mishandled unordered, pytree and output-only
 constants

constant_arg_nums not given in ascending order swapped arguments, constant
arguments that are pytrees were not flattened, and outputs that depend only
on constant arguments were dropped from the returned function.
---
 src/tfc/utils/TFCUtils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 0ce8029..1f740ab 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -235,7 +235,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     # Reorder to put knowns first, then unknowns
     order = [k for k in range(len(args))]
     for k in constant_arg_nums:
-        order.insert(0, order.pop(k))
+        order.insert(0, order.pop(order.index(range(len(args))[k])))
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
 
@@ -261,7 +261,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
@@ -276,7 +276,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From b58bea572db64b17300b06ee5106b92c48345486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:24 +0000
Subject: [PATCH 04/35] fix: LS and NLLS reordered the caller's
 constant_arg_nums list

The list passed in was sorted and reversed in place, so a list shared
between calls changed under the caller.
---
 src/tfc/utils/TFCUtils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 1f740ab..cb21087 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -861,9 +861,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -988,9 +986,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1231,9 +1227,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1432,9 +1426,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From 10ebb8b000919d4b486b6d994c23369767a022e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 05/35] fix: TFCDict + and - modified their operands when
 values were numpy arrays

The result shared its arrays with the left operand and was then updated in
place.
---
 src/tfc/utils/TFCUtils.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index cb21087..435dd23 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -445,11 +445,11 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]]
+                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]]
         return self
 
     def __isub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -468,11 +468,11 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]]
+                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]]
         return self
 
     def __add__(self, o: TFCDictAddable) -> "TFCDict":
@@ -492,11 +492,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -516,11 +516,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
         return out
 
 
@@ -652,11 +652,11 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return self
 
     def __isub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -675,11 +675,11 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return self
 
     def __add__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -699,11 +699,11 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -723,11 +723,11 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return out
 
 
-- 
2.43.0


From 58ffe5dc61207c40c294fa83eb07ee4ae8f3c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 06/35] fix: TFCDict and TFCDictRobust did not support numpy
 arrays

Adding or subtracting a flat numpy array silently did nothing, and a
TFCDictRobust holding numpy arrays had no slices, so toDict and adding a
flat array failed.
---
 src/tfc/utils/TFCUtils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 435dd23..d9fa672 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -446,7 +446,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]]
@@ -469,7 +469,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]]
@@ -493,7 +493,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
@@ -517,7 +517,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
@@ -556,7 +556,7 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(isinstance(value, (np.ndarray, onp.ndarray)) for value in self.values()):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
@@ -653,7 +653,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -676,7 +676,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -700,7 +700,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -724,7 +724,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
-- 
2.43.0


From 1c31ee3dd18f4753793d6445882b0b9065714928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:00 +0000
Subject: [PATCH 07/35] fix: TFCDict ignored keys set or deleted after
 construction

Item assignment and deletion left the recorded keys and slices stale, so
toDict, + and - dropped or misplaced entries.
---
 src/tfc/utils/TFCUtils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d9fa672..32a57d7 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -346,14 +346,14 @@ class TFCDict(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
         self.getSlices()
 
     def getSlices(self) -> None:
         """
         Function that creates slices for each of the keys in the dictionary.
         """
+        self._keys = list(self.keys())
+        self._nKeys = len(self._keys)
         if all(
             isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
             for value in self.values()
@@ -384,8 +384,6 @@ class TFCDict(OrderedDict):
             Same as *args for the update method of ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
         self.getSlices()
 
     def toArray(self) -> np.ndarray:
@@ -413,6 +411,7 @@ class TFCDict(OrderedDict):
         TFCDict
             JAX array as a TFCDict
         """
+        self.getSlices()
         arr = arr.flatten()
         return TFCDict(zip(self._keys, [arr[self._slices[k]] for k in range(self._nKeys)]))
 
@@ -443,6 +442,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after adding in the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
@@ -466,6 +466,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after subtracting the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
@@ -490,6 +491,7 @@ class TFCDict(OrderedDict):
             A TFCDict with values = self + o.
         """
         out = TFCDict(self)
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
@@ -514,6 +516,7 @@ class TFCDict(OrderedDict):
             A TFCDict with values = self - o.
         """
         out = TFCDict(self)
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
@@ -548,14 +551,14 @@ class TFCDictRobust(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
         self.getSlices()
 
     def getSlices(self) -> None:
         """
         Function that creates slices for each of the keys in the dictionary.
         """
+        self._keys = list(self.keys())
+        self._nKeys = len(self._keys)
         if all(isinstance(value, (np.ndarray, onp.ndarray)) for value in self.values()):
             arrLen = 0
             self._slices = [
@@ -583,8 +586,6 @@ class TFCDictRobust(OrderedDict):
             Same as *args for the update method on ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
         self.getSlices()
 
     def toArray(self) -> np.ndarray:
@@ -612,6 +613,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             JAX array as a TFCDictRobust
         """
+        self.getSlices()
         arr = arr.flatten()
         return TFCDictRobust(
             zip(
@@ -650,6 +652,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after adding in the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
@@ -673,6 +676,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after subtracting the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
@@ -697,6 +701,7 @@ class TFCDictRobust(OrderedDict):
             A TFCDictRobust with values = self + o.
         """
         out = TFCDictRobust(self)
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
@@ -721,6 +726,7 @@ class TFCDictRobust(OrderedDict):
             A TFCDictRobust with values = self - o.
         """
         out = TFCDictRobust(self)
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-- 
2.43.0


From 58e567112027be678688f83e4b7d6cddb77f753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:09 +0000
Subject: [PATCH 08/35] fix: derivatives of H failed for zero and for traced
 tangents

The JVP rules branched on the value of the tangent. For utfc a zero tangent
(e.g., egrad with respect to another argument) raised UnboundLocalError, and
for utfc and mtfc a traced tangent (jit of a composition such as H(2*x),
jacfwd, grad, ...) raised TracerBoolConversionError.
---
 src/tfc/mtfc.py |  3 ++-
 src/tfc/utfc.py | 23 +++++++++--------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..2699e5b 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -623,7 +623,8 @@ class mtfc:
             out_tans = np.zeros((dim0, dim1))
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    # The value of a traced tangent is unknown, so it must be treated as non-zero.
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..699bc2d 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,16 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
-            else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
+            out = Hjax(x, d=d, full=full)
+            # The value of a traced tangent is unknown, so it must be treated as non-zero.
+            if not (type(dx) is ad.Zero) and (isinstance(dx, core.Tracer) or onp.any(dx != 0)):
+                if len(dx.shape) == 1:
+                    out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
                 else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+                    out_tans = Hjax(x, d=d + 1, full=full) * dx
+            else:
+                out_tans = np.zeros_like(out)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From e21687c08630813901a96ee72a1d1f341b2b0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:48 +0000
Subject: [PATCH 09/35] fix: vmap of H was only right for scalars mapped over
 axis 0

The batching rules ignored the mapped axis, unmapped arguments and any
unmapped dimension: jit(vmap(H)) of 2-D points silently returned wrong
values, and the eager version raised.
---
 src/tfc/mtfc.py | 19 +++++++++++--------
 src/tfc/utfc.py |  9 ++++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 2699e5b..f65fdb5 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -607,7 +607,14 @@ class mtfc:
 
         # Batching translation
         def H_batch(vec, batch, d: tuple[int, ...] = d0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # Move the mapped axis of every argument to the front, and flatten: H evaluates 1-D arrays of points.
+            n = next(v.shape[b] for v, b in zip(vec, batch) if b is not None)
+            vec = [
+                np.broadcast_to(v, (n, *v.shape)) if b is None else np.moveaxis(v, b, 0)
+                for v, b in zip(vec, batch)
+            ]
+            out = Hjax(*[v.flatten() for v in vec], d=d, full=full)
+            return out.reshape((*vec[0].shape, out.shape[-1])), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
@@ -615,12 +622,8 @@ class mtfc:
         def H_jvp(arg_vals, arg_tans, d: tuple[int, ...] = d0, full: bool = False):
             n = len(arg_vals)
             flat = len(arg_vals[0].shape) == 1
-            dim0 = arg_vals[0].shape[0]
-            if full:
-                dim1 = self.basisClass.numBasisFuncFull
-            else:
-                dim1 = self.basisClass.numBasisFunc
-            out_tans = np.zeros((dim0, dim1))
+            out = Hjax(*arg_vals, d=d, full=full)
+            out_tans = np.zeros_like(out)
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
                     # The value of a traced tangent is unknown, so it must be treated as non-zero.
@@ -633,7 +636,7 @@ class mtfc:
                             )
                         else:
                             out_tans += Hjax(*arg_vals, d=dark, full=full) * arg_tans[k]
-            return (Hjax(*arg_vals, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 699bc2d..94a4ac6 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -353,7 +353,14 @@ class utfc:
 
         # Define batching translation
         def H_batch(vec, batch, d: uint = 0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # Move the mapped axis of every argument to the front, and flatten: H evaluates 1-D arrays of points.
+            n = next(v.shape[b] for v, b in zip(vec, batch) if b is not None)
+            vec = [
+                np.broadcast_to(v, (n, *v.shape)) if b is None else np.moveaxis(v, b, 0)
+                for v, b in zip(vec, batch)
+            ]
+            out = Hjax(*[v.flatten() for v in vec], d=d, full=full)
+            return out.reshape((*vec[0].shape, out.shape[-1])), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
-- 
2.43.0


From 43cdd1fb99b72777f1104aa29c569bade33d0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:17 +0000
Subject: [PATCH 10/35] fix: jit of H with points that are not doubles
 corrupted memory

The C++ custom call reads and writes doubles, but was given buffers of the
type of x: float32 points overflowed the heap, integer points were
reinterpreted. The eager version already converted.
---
 src/tfc/mtfc.py | 3 +++
 src/tfc/utfc.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index f65fdb5..e5ef654 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -540,6 +540,9 @@ class mtfc:
         H_p = Primitive("H")
 
         def Hjax(*x: JaxOrNumpyArray, d: tuple[int, ...] = d0, full: bool = False):
+            if self._backend == "C++":
+                # The C++ layer reads and writes doubles
+                x = tuple(np.asarray(k, dtype=np.float64) for k in x)
             return cast(npt.NDArray, H_p.bind(*x, d=d, full=full))
 
         # Implicit translations
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 94a4ac6..b8f09f2 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -292,6 +292,9 @@ class utfc:
         H_p = Primitive("H")
 
         def Hjax(x: JaxOrNumpyArray, d: uint = 0, full: bool = False) -> npt.NDArray:
+            if self._backend == "C++":
+                # The C++ layer reads and writes doubles
+                x = np.asarray(x, dtype=np.float64)
             return cast(npt.NDArray, H_p.bind(x, d=d, full=full))
 
         # Implicit translation
-- 
2.43.0


From c4bdbc28a3b28d5769a3d97c615a8cc2cd53be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 11/35] fix: H of wrongly shaped points read out of bounds or
 dropped points

mtfc.H with too few point arrays read past the end of the points, and jit of
H with 2-D points, or with point arrays of different lengths, silently
evaluated the wrong points.
---
 src/tfc/mtfc.py        | 8 ++++++++
 src/tfc/utfc.py        | 2 ++
 src/tfc/utils/BF_Py.cc | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index e5ef654..d07508f 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -547,6 +547,8 @@ class mtfc:
 
         # Implicit translations
         def H_impl(*x: npt.NDArray, d: tuple[int, ...] = d0, full: bool = False):
+            if len(x) != self.dim:
+                raise ValueError(f"Expected {self.dim} input arrays, but got {len(x)}.")
             return self.basisClass.H(np.array(x), d, full)
 
         H_p.def_impl(H_impl)
@@ -557,6 +559,12 @@ class mtfc:
                 dim1 = self.basisClass.numBasisFuncFull
             else:
                 dim1 = self.basisClass.numBasisFunc
+            if len(x) != self.dim:
+                raise ValueError(f"Expected {self.dim} input arrays, but got {len(x)}.")
+            if any(k.shape != x[0].shape for k in x):
+                raise ValueError("The input arrays must all have the same shape.")
+            if len(x[0].shape) > 1 and x[0].size != x[0].shape[0]:
+                raise ValueError("The input arrays must be 1-dimensional.")
             if len(x[0].shape) == 0:
                 dims = (dim1,)
             else:
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b8f09f2..37b2218 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -309,6 +309,8 @@ class utfc:
                 dim1 = self.basisClass.m
             else:
                 dim1 = self.basisClass.m - self.basisClass.numC
+            if len(x.shape) > 1 and x.size != x.shape[0]:
+                raise ValueError('The "x" input array must be 1-dimensional.')
             if len(x.shape) == 0:
                 dims = (dim1,)
             else:
diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..b379f1d 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -239,9 +239,15 @@ PYBIND11_MODULE(BF, m) {
                 if (x.ndim() != 2) {
                     throw py::value_error("The \"x\" input array must be 2-dimensional.");
                 }
+                if (x.shape()[0] != self.dim) {
+                    throw py::value_error("The \"x\" input array must have one row per dimension.");
+                }
                 if (d.ndim() != 1) {
                     throw py::value_error("The \"d\" input array must be 1-dimensional.");
                 }
+                if (d.shape()[0] > self.dim) {
+                    throw py::value_error("The \"d\" input array must not be longer than the number of dimensions.");
+                }
                 int nOut = 0;
                 int mOut = 0;
                 double *F = nullptr;
-- 
2.43.0


From 7a2bf79151b421b93d9751efc5cae4d0b7fb99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:16 +0000
Subject: [PATCH 12/35] fix: nC given as a numpy array, numpy integer or tuple
 raised AttributeError

The documentation of nC says int, list or array.
---
 src/tfc/mtfc.py | 8 ++++----
 src/tfc/utfc.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index d07508f..7e14354 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -199,11 +199,11 @@ class mtfc:
 
         # Create nC matrix based on user input
         if basis in self._elm_classes:
-            if isinstance(nC, int):
+            if isinstance(nC, (int, onp.integer)):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
-            elif isinstance(nC, list):
+            elif isinstance(nC, (list, tuple)):
                 self.nC = onp.array(nC, dtype=np.int32)
             if self.nC.shape[0] > self.deg:
                 TFCPrint.Error("Number of basis functions is less than number of constraints!")
@@ -212,7 +212,7 @@ class mtfc:
                     "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
                 )
         else:
-            if isinstance(nC, int):
+            if isinstance(nC, (int, onp.integer)):
                 TFCPrint.Error(
                     "Cannot use type int for nC when specifying non-ELM type basis function."
                 )
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 37b2218..ff88007 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -95,11 +95,11 @@ class utfc:
         self.deg = deg
         self._backend = backend
 
-        if isinstance(nC, int):
+        if isinstance(nC, (int, onp.integer)):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
-        elif isinstance(nC, list):
+        elif isinstance(nC, (list, tuple)):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
         if self.nC.shape[0] > self.deg:
             TFCPrint.Error("Number of basis functions is less than number of constraints!")
-- 
2.43.0


From e62e13551ff7db478548f63d25b5f5b9eaa8110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:50 +0000
Subject: [PATCH 13/35] fix: reject repeated or out of range basis functions in
 nC

The C++ layer allocates m - len(nC) columns, so repeated or out of range
entries wrote past the end of the output or left columns uninitialized.
---
 src/tfc/mtfc.py | 4 ++++
 src/tfc/utfc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 7e14354..466a70e 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -211,6 +211,10 @@ class mtfc:
                 TFCPrint.Error(
                     "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
                 )
+            if np.any(self.nC > self.deg) or np.unique(self.nC).shape[0] != self.nC.shape[0]:
+                TFCPrint.Error(
+                    "The basis functions given in nC must be distinct and can be at most deg. Otherwise, this will cause issues in the C++ layer."
+                )
         else:
             if isinstance(nC, (int, onp.integer)):
                 TFCPrint.Error(
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index ff88007..df368db 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -107,6 +107,10 @@ class utfc:
             TFCPrint.Error(
                 "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
             )
+        if np.any(self.nC > self.deg) or np.unique(self.nC).shape[0] != self.nC.shape[0]:
+            TFCPrint.Error(
+                "The basis functions given in nC must be distinct and can be at most deg. Otherwise, this will cause issues in the C++ layer."
+            )
 
         self.basis = basis
 
-- 
2.43.0


From d5d84aefff00b8ea62ba0e3e86e261571d0dde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:50 +0000
Subject: [PATCH 14/35] fix: mtfc took a one element list in nC as a number of
 functions

The documentation says a list names the basis functions to remove, and the
equivalent 2-D array was already treated that way.
---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 466a70e..39b2f02 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -248,7 +248,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -267,7 +267,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From f4a4a1a540b9c59e8448a469f021bbd04c6dbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:50 +0000
Subject: [PATCH 15/35] fix: mtfc with x0=None raised TypeError for CP and LeP

---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 39b2f02..1b2b3fb 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -339,7 +339,7 @@ class mtfc:
                 j = self.n[k] - 1
                 # Multiplying x0 by 0 here so the array will have the
                 # same type as x0.
-                I = onp.linspace(0 * x0[0], j, j + 1).reshape((j + 1, 1))
+                I = onp.linspace(0 * self.x0[0], j, j + 1).reshape((j + 1, 1))
                 dark = onp.cos(np.pi * (j - I) / float(j))
                 dark = onp.hstack([dark] * nProd).flatten()
                 self.z[k, :] = onp.array([dark] * nStack).flatten()
-- 
2.43.0


From 887e41b7e11a3bb682e74b4a5fe58ce25e373fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:04 +0000
Subject: [PATCH 16/35] fix: weights, biases, domains and nC given as strided
 arrays were misread

These arguments accepted any memory layout, but were read as if they were
contiguous, e.g. elm.b = v[::2] used v[0], v[1], ... instead.
---
 src/tfc/utils/BF_Py.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index b379f1d..5f8e9ab 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,7 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +57,7 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +175,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +189,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -299,7 +299,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From b0cb65597625893ae17e9001684929a884325ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:04 +0000
Subject: [PATCH 17/35] fix: setting c of a multivariate basis class did
 nothing

---
 src/tfc/utils/BF_Py.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index 5f8e9ab..283ae4e 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -227,6 +227,7 @@ PYBIND11_MODULE(BF, m) {
                        << std::endl;
                     throw py::value_error(ss.str());
                 }
+                std::copy(c.data(), c.data() + self.dim, self.c);
             })
         .def_readwrite("numBasisFunc", &nBasisFunc::numBasisFunc)
         .def_readwrite("numBasisFuncFull", &nBasisFunc::numBasisFuncFull)
-- 
2.43.0


From 30d5fdf9625a507abdc24f107249ff76d4c527d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:11 +0000
Subject: [PATCH 18/35] fix: creating a basis class raced with compiled calls
 of the others

The table of instances could be reallocated while an XLA thread, which does
not hold the GIL, was looking up an instance in it.
---
 src/tfc/utils/BF.cc | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 82504d0..b27d41b 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1,13 +1,22 @@
 #include "BF.h"
+#include <mutex>
 
 // Initialize static BasisFunc variables
 int BasisFunc::nIdentifier = 0;
 std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
 
+// XLA threads look up instances without holding the GIL, possibly while another instance is being created
+static std::mutex containerMutex;
+
 // xlaWrapper function
 void xlaWrapper(void *out, void **in) {
     int N = (reinterpret_cast<int *>(in[0]))[0];
-    BasisFunc::BasisFuncContainer[N]->xla(out, in);
+    BasisFunc *bf;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        bf = BasisFunc::BasisFuncContainer[N];
+    }
+    bf->xla(out, in);
 }
 
 #ifdef HAS_CUDA
@@ -41,9 +50,12 @@ BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int mi
     }
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
@@ -1050,9 +1062,12 @@ nBasisFunc::nBasisFunc(const double *x0in,
     delete[] vec;
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
@@ -1308,9 +1323,12 @@ nELM::nELM(const double *x0in,
     numBasisFuncFull = m;
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
-- 
2.43.0


From 9dc329f336db58d46cfecd852915489ff748c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:25 +0000
Subject: [PATCH 19/35] fix: Python ELMReLU returned a transposed matrix for
 second and higher derivatives

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..cf94d3b 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
-- 
2.43.0


From 55573f8a9f1bf5fffe08b4543ccde300b86fa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:25 +0000
Subject: [PATCH 20/35] fix: Python FS and nFS dropped the imaginary part of
 complex points

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index cf94d3b..1dfa1f6 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
-- 
2.43.0


From 95f44e3d64a2c5c987e0ce9688327e12ac32ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:25 +0000
Subject: [PATCH 21/35] fix: Python nELMReLU failed for derivative orders given
 as a tuple

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 1dfa1f6..3d2d395 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.array(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From 202d89d8e69755e9868291faf13d884cdddc15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:25 +0000
Subject: [PATCH 22/35] fix: Python n-dimensional H raised NameError instead of
 its dimension error

---
 src/tfc/utils/BF_Py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 3d2d395..2a8b572 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1028,7 +1028,7 @@ class nBasisFunc(BasisFunc):
         N = x.shape[1]
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
@@ -1357,7 +1357,7 @@ class nELM(nBasisFunc):
         # Check dimensions
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
-- 
2.43.0


From cafffa4322f9048e038579571c45f6bcb828f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 23/35] fix: setting phi did not update the constrained
 expression

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From e60b16d941e468aaab7c6be05d0dcd1d460bcfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 24/35] fix: creating a TfcPrinter changed sympy's other Python
 code printers

---
 src/tfc/utils/CeSolver.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..5df61e1 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -373,12 +373,9 @@ class CeSolver:
 class TfcPrinter(PythonCodePrinter):
     def __init__(self, settings=None):
         # Switch math to numpy
-        for k, v in self._kf.items():
-            if "math" in v:
-                self._kf[k] = v.replace("math", "np")
-        for k, v in self._kc.items():
-            if "math" in v:
-                self._kc[k] = v.replace("math", "np")
+        # (in copies: the originals belong to all of sympy's Python code printers)
+        self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
+        self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
         super().__init__(settings=settings)
 
-- 
2.43.0


From 4a8f152ad26dd81f13610b8ae3fa8d457b46a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 25/35] fix: TfcPrinter misprinted mixed and higher
 derivatives, substitutions and nested functions

---
 src/tfc/utils/CeSolver.py | 41 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 5df61e1..9773e70 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -430,7 +430,7 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
-        return self._print(str(expr))
+        return expr.func.__name__ + "(" + ", ".join(self._print(arg) for arg in expr.args) + ")"
 
     def _print_Subs(self, subs: Expr) -> str:
         """
@@ -447,10 +447,11 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+        # Only the arguments of derivatives are to be substituted, not their variables.
+        expr = expr.replace(lambda e: isinstance(e, sp.Derivative), self._egrad)
+        expr = expr.subs(list(zip(old, new)), simultaneous=True)
+        ret = self._print(expr)
+        return ret if expr.is_Function or expr.is_Symbol else "(" + ret + ")"
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
@@ -466,6 +467,22 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
+        return self._print(self._egrad(expr))
+
+    def _egrad(self, expr: Expr) -> Expr:
+        """
+        Write a derivative as the application of a function named after its egrad calls.
+
+        Parameters
+        ----------
+        expr : Expr
+            Derivative.
+
+        Returns
+        -------
+        Expr
+            Application of the egrad function to the arguments of the function that is derived.
+        """
         # Function will be the full function, e.g., g(x,y)
         # vars will be the derivative symbol and order.
         # For example, dg/dx will have vars [(x,1)]
@@ -478,19 +495,9 @@ class TfcPrinter(PythonCodePrinter):
             ind = function_vars.index(var[0])
             position_vars.append((ind, var[1]))
 
-        # If you want the printer to work correctly for nested
-        # expressions then use self._print() instead of str() or latex().
-        # See the example of nested modulo below in the custom printing
-        # method section.
         name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
         for pv in position_vars:
             for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+                name = "egrad(" + name + "," + str(pv[0]) + ")"
 
-        return ret
+        return sp.Function(name)(*function_vars)
-- 
2.43.0


From 62c8f6072b46039b1f90967ece9b22b67598f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:51 +0000
Subject: [PATCH 26/35] fix: latex tables lost cells when numpy abbreviates
 arrays

---
 src/tfc/utils/Latex.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 819cac1..26f0409 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -1,3 +1,4 @@
+import sys
 import numpy as np
 from numpy import typing as npt
 from typing import Optional
@@ -70,12 +71,18 @@ class table:
                 numRows = arrIn.shape[0]
                 for k in range(numRows):
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :],
+                        separator=" & ",
+                        threshold=sys.maxsize,
+                        formatter={"float_kind": lambda x: form % x},
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                    arrIn[k, :],
+                    separator=" & ",
+                    threshold=sys.maxsize,
+                    formatter={"float_kind": lambda x: form % x},
                 ).strip("[]")
                 out += "\\\\\n"
         else:
@@ -84,12 +91,18 @@ class table:
                 for k in range(numRows):
                     out += rowHeader[k] + " & "
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :],
+                        separator=" & ",
+                        threshold=sys.maxsize,
+                        formatter={"float_kind": lambda x: form % x},
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                    arrIn[k, :],
+                    separator=" & ",
+                    threshold=sys.maxsize,
+                    formatter={"float_kind": lambda x: form % x},
                 ).strip("[]")
                 out += "\\\\\n"
         return out.rstrip()
-- 
2.43.0


From bf5a4f25213a23c46f016d0b31bd3f25e362add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:14 +0000
Subject: [PATCH 27/35] fix: TFCDict.block_until_ready raised KeyError once the
 first key was deleted

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 32a57d7..47eafda 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -425,7 +425,7 @@ class TFCDict(OrderedDict):
         TFCDict
             This TFCDict.
         """
-        self[self._keys[0]].block_until_ready()
+        next(iter(self.values())).block_until_ready()
         return self
 
     def __iadd__(self, o: TFCDictAddable) -> "TFCDict":
@@ -635,7 +635,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             This TFCDictRobust
         """
-        self[self._keys[0]].block_until_ready()
+        next(iter(self.values())).block_until_ready()
         return self
 
     def __iadd__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
-- 
2.43.0


From 0248834d5241f3b29be63d5ad3ab7e97014b7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:14 +0000
Subject: [PATCH 28/35] fix: ScaledQrLs scaled the wrong axis of the solution
 when B is a matrix

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 47eafda..7d9a01d 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1708,7 +1708,7 @@ def ScaledQrLs(A: np.ndarray, B: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
     S = 1.0 / np.sqrt(np.sum(A * A, 0))
     S = np.reshape(S, (A.shape[1],))
     q, r = np.linalg.qr(A.dot(np.diag(S)))
-    x: np.ndarray = S * np.linalg.multi_dot([_MatPinv(r), q.T, B])
+    x: np.ndarray = (S * np.linalg.multi_dot([_MatPinv(r), q.T, B]).T).T
     cn: np.ndarray = cast(np.ndarray, np.linalg.cond(r))
     return x, cn
 
-- 
2.43.0


From 6605901bdc3a5209d6aa9bd63d6689fb1dfb9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:58 +0000
Subject: [PATCH 29/35] fix: pe failed for remaining arguments that are
 integers

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 7d9a01d..cea2fac 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -256,7 +256,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                 if unknown:
                     return tree_flatten(
                         (
-                            tree_map(lambda x: PartialVal.unknown(typeof(x).at_least_vspace()), a),
+                            tree_map(lambda x: PartialVal.unknown(typeof(x)), a),
                             {},
                         )
                     )[0]
-- 
2.43.0


From 81c8f1d27e50e070e033077666108256fb3a2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:04 +0000
Subject: [PATCH 30/35] fix: least squares failed for TFCDictRobust unknowns
 with a scalar entry

The product of an empty shape is a float, which is not a dimension.
---
 src/tfc/utils/TFCUtils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index cea2fac..d7eaf9a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -841,7 +841,7 @@ def LS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int))
                             for k in xi.keys()
                         ]
                     )
@@ -964,7 +964,7 @@ class LsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int)
                                 )
                                 for k in xi.keys()
                             ]
@@ -1206,7 +1206,7 @@ def NLLS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int))
                             for k in xi.keys()
                         ]
                     )
@@ -1404,7 +1404,7 @@ class NllsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int)
                                 )
                                 for k in xi.keys()
                             ]
-- 
2.43.0


From 1ac4af3e002286931431a0b7b4d8e0575c3a1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:49 +0000
Subject: [PATCH 31/35] fix: derivatives above the eighth of sigmoid, tanh and
 swish networks were wrong or uninitialised memory

---
 src/tfc/utils/BF.cc | 88 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index b27d41b..8764fea 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -601,6 +601,29 @@ void FS::Hint(const int d, const double *x, const int nOut, double *dark) {
     return;
 }
 
+// Derivatives of the activation functions: ************************************************************
+// Coefficients of the polynomial in s that is the d-th derivative of s, where s' = a0 + a1*s + a2*s^2
+static std::vector<double> DerivPoly(int d, double a0, double a1, double a2) {
+    std::vector<double> p = {0., 1.};
+    for (; d > 0; d--) {
+        std::vector<double> q(p.size() + 1, 0.);
+        for (size_t k = 1; k < p.size(); k++) {
+            q[k - 1] += k * p[k] * a0;
+            q[k] += k * p[k] * a1;
+            q[k + 1] += k * p[k] * a2;
+        }
+        p = q;
+    }
+    return p;
+}
+
+static double EvalPoly(const std::vector<double> &p, double s) {
+    double out = 0.;
+    for (size_t k = p.size(); k > 0; k--)
+        out = out * s + p[k - 1];
+    return out;
+}
+
 // ELM: **********************************************************************
 // ELM base class
 ELM::ELM(double x0, double xf, const int *nCin, int ncDim0, int min)
@@ -772,6 +795,14 @@ void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark
         }
         break;
     }
+    default: {
+        const std::vector<double> p = DerivPoly(d, 0., 1., -1.);
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], d) * EvalPoly(p, dark[m * j + k]);
+        }
+        break;
+    }
     }
     return;
 }
@@ -853,6 +884,14 @@ void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
         }
         break;
     }
+    default: {
+        const std::vector<double> p = DerivPoly(d, 1., 0., -1.);
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], d) * EvalPoly(p, dark[m * j + k]);
+        }
+        break;
+    }
     }
     return;
 }
@@ -1012,6 +1051,16 @@ void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark)
             }
             break;
         }
+        default: {
+            const std::vector<double> p = DerivPoly(d, 0., 1., -1.);
+            const std::vector<double> p1 = DerivPoly(d - 1, 0., 1., -1.);
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] = pow(w[k], d) * (d * EvalPoly(p1, sig[m * j + k]) +
+                                                      zint[m * j + k] * EvalPoly(p, sig[m * j + k]));
+            }
+            break;
+        }
         }
     }
 
@@ -1555,6 +1604,18 @@ void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int i
         }
         break;
     }
+    default: {
+        const std::vector<double> p = DerivPoly(dark1, 0., 1., -1.);
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * EvalPoly(p, F[m * j + k]);
+            }
+        }
+        break;
+    }
     }
     return;
 }
@@ -1679,6 +1740,18 @@ void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in,
         }
         break;
     }
+    default: {
+        const std::vector<double> p = DerivPoly(dark1, 1., 0., -1.);
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * EvalPoly(p, F[m * j + k]);
+            }
+        }
+        break;
+    }
     }
     return;
 }
@@ -1914,6 +1987,21 @@ void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in,
             }
             break;
         }
+        default: {
+            const std::vector<double> p = DerivPoly(dark1, 0., 1., -1.);
+            const std::vector<double> p1 = DerivPoly(dark1 - 1, 0., 1., -1.);
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (dark1 * EvalPoly(p1, sig[m * j + k]) +
+                                    zint[m * j + k] * EvalPoly(p, sig[m * j + k]));
+                }
+            }
+            break;
+        }
         }
     }
     delete[] sig;
-- 
2.43.0


From 9e4e1376d151063b29a18b34df31c2cf8e837337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:14 +0000
Subject: [PATCH 32/35] fix: put matplotlib titles on their own subplots when
 some subplots have no title

---
 src/tfc/utils/MakePlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 2b646d5..baf19a5 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -178,9 +178,10 @@ class MakePlot:
             count = 0
             for j in range(n[0]):
                 for k in range(n[1]):
-                    if titles[j, k] is None:
+                    if xlabs[j, k] is None:
                         continue
-                    self.ax[count].set_title(titles[j, k])
+                    if titles[j, k] is not None:
+                        self.ax[count].set_title(titles[j, k])
                     count += 1
 
         # Set tight layout for the figure
-- 
2.43.0


From 3aa35fa022909cb791dadd75628ef616875177c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:14 +0000
Subject: [PATCH 33/35] fix: egrad accepts callables without a qualified name,
 such as functools.partial

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d7eaf9a..df85311 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -177,7 +177,7 @@ def egradRobust(g: Callable[..., Any], j: uint = 0):
     wrapped : function
         Derivative function
     """
-    if g.__qualname__ == "jit.<locals>.f_jitted":
+    if getattr(g, "__qualname__", None) == "jit.<locals>.f_jitted":
         g = g.__wrapped__
 
     def wrapped(*args: Any) -> Any:
-- 
2.43.0


From 77b32335656fcb6109b1772836051765f099e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:14 +0000
Subject: [PATCH 34/35] fix: NormalizeColorScale with given limits and no data,
 and with traces that do not have the data

---
 src/tfc/utils/PlotlyMakePlot.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index b820a81..c4cd023 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -696,14 +696,9 @@ class MakePlot:
             cmin = np.inf
             for k in dark:
                 if k.__class__.__name__ in types:
-                    if data in k:
-                        kmax = k[data].max()
-                        kmin = k[data].min()
-
-                    if kmax > cmax:
-                        cmax = kmax
-                    if kmin < cmin:
-                        cmin = kmin
+                    if data in k and k[data] is not None:
+                        cmax = max(cmax, k[data].max())
+                        cmin = min(cmin, k[data].min())
 
         colorScaleUpdate = {}
         if not cmax is None:
@@ -713,5 +708,5 @@ class MakePlot:
 
         for k in dark:
             if k.__class__.__name__ in types:
-                if data in k:
+                if data is None or data in k:
                     k.update(colorScaleUpdate)
-- 
2.43.0


From c4177d3f1605d2e8a0269283d15d6851db7673fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:15 +0000
Subject: [PATCH 35/35] fix: label and view the right subplots of plotly grids
 with several rows and columns

---
 src/tfc/utils/PlotlyMakePlot.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index c4cd023..0792bbf 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -159,6 +159,8 @@ class MakePlot:
                     "The titles provided are not of a valid type. Please provide valid titles."
                 )
 
+        self._numCols = xlabs.shape[1]
+
         if int(np.prod(xlabs.shape)) != 1:
             from plotly.subplots import make_subplots
 
@@ -203,13 +205,13 @@ class MakePlot:
                                 title=zlabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                                 title=zlabs[row, col], exponentformat="e"
                             )
 
@@ -222,10 +224,10 @@ class MakePlot:
                                 title=ylabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["xaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["xaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["yaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["yaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
 
@@ -262,17 +264,17 @@ class MakePlot:
                             "backgroundcolor"
                         ] = self._backgroundColor
                     else:
-                        self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
@@ -604,7 +606,7 @@ class MakePlot:
             ]
         )
         if row and col:
-            sceneNum = row + col - 1
+            sceneNum = (row - 1) * self._numCols + col
             if sceneNum == 1:
                 sceneNum = ""
             else:
-- 
2.43.0

