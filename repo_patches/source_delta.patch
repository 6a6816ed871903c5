From be581633a184bdb72b29e94374e0cd8de3769bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:16 +0000
Subject: [PATCH 01/53] fix: count the binary digits of a number exactly
 instead of by a float logarithm

---
 discretehelpers/binv/a/binary_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From d106b939cf760de2ab6292d9c0e088e4ff20eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:41 +0000
Subject: [PATCH 02/53] fix: a binary vector with integer value 0 and length 0
 is empty

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..818cce4 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -56,7 +56,7 @@ class Binv(object):
                     true_except(length >= binary_length(intval), LengthError)
                 else:
                     length = max(minimal_length, binary_length(intval))
-                vector = "{0:b}".format(intval).zfill(length)[::-1]
+                vector = "{0:b}".format(intval).zfill(length)[::-1][:length]
 
         elif case_exposet:
 
-- 
2.43.0


From f940c8068a06cba5dc575bee55fe704f000c5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:41 +0000
Subject: [PATCH 03/53] fix: reject negative positions in the exponent set of a
 binary vector

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 818cce4..0565bb6 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -62,7 +62,7 @@ class Binv(object):
 
             true_except(type(exposet) in [set, list, tuple], IndicesTypeError)
             for e in exposet:
-                true_except(type(e) == int, IndicesEntryError)
+                true_except(type(e) == int and e >= 0, IndicesEntryError)
             if case_exposet_only:
                 if len(exposet) == 0:
                     self.set_empty()
-- 
2.43.0


From 1928f9d171970b2ea648e64cf165684ba47e8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:41 +0000
Subject: [PATCH 04/53] fix: an empty exponent set with a minimal length is a
 zero vector

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 0565bb6..dd58b7a 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max(minimal_length, max(exposet, default=-1) + 1)
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From 70782008fe44bbb2920ca928d17cdc92d3f1bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:41 +0000
Subject: [PATCH 05/53] fix: reject fractional entries of a binary vector
 instead of rounding them down

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index dd58b7a..f2a5eb9 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -41,7 +41,7 @@ class Binv(object):
             if not trust:
                 for e in vector:
                     try_except(lambda: int(e), do_raise=VectorEntryError, if_raised=ValueError)
-                    true_except(int(e) in [0, 1], VectorEntryError)
+                    true_except(int(e) in [0, 1] and (isinstance(e, str) or int(e) == e), VectorEntryError)
 
         elif case_intval:
 
-- 
2.43.0


From 7c229e77cdd1c0f7920f5b35b01581f31872e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 06/53] fix: reject overlapping cycles, which denote no
 permutation

---
 discretehelpers/perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 65ef3c9..1a922a3 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -32,6 +32,8 @@ class Perm(object):
                     if key != val:
                         mapping[key] = val
             elif element_type == list:  # `arg` is list of cycles
+                true_except(all(type(cycle) == list for cycle in arg), CyclesError)
+                true_except(len(set(sum(arg, []))) == len(sum(arg, [])), CyclesError)  # cycles must be disjoint
                 for cycle in arg:
                     true_except(type(cycle) == list and all(is_natural(e) for e in cycle), CyclesError)
                     length = len(cycle)
-- 
2.43.0


From 19e1bac7c8b019e07ca77f1cb69fefb068c0e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 07/53] fix: reject mappings of anything but natural numbers as
 permutations

---
 discretehelpers/perm/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 1a922a3..aadd039 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -43,6 +43,7 @@ class Perm(object):
                         if map_from != map_to:
                             mapping[map_from] = map_to
         elif type(arg) == dict:
+            true_except(all(is_natural(e) for e in arg.keys()), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
                 if key != val:
-- 
2.43.0


From b5dc0cf8e83360621cc86c9ee8876bc3e6722bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 08/53] fix: reject sequences of unsupported type instead of
 taking them for the neutral permutation

---
 discretehelpers/perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index aadd039..838e8b8 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -42,6 +42,8 @@ class Perm(object):
                         map_to = cycle[(key + 1) % length]
                         if map_from != map_to:
                             mapping[map_from] = map_to
+            else:
+                raise ArgTypeError
         elif type(arg) == dict:
             true_except(all(is_natural(e) for e in arg.keys()), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
-- 
2.43.0


From 6fe1a8276c4f85d7f284669d0050be0be520c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:01 +0000
Subject: [PATCH 09/53] fix: products of periodic permutations have plain
 integer entries and periods

---
 discretehelpers/perm/a/broaden_moved/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/perm/a/broaden_moved/__init__.py b/discretehelpers/perm/a/broaden_moved/__init__.py
index 20a3826..34ceb02 100644
--- a/discretehelpers/perm/a/broaden_moved/__init__.py
+++ b/discretehelpers/perm/a/broaden_moved/__init__.py
@@ -1,9 +1,9 @@
-import numpy as np
+from math import lcm
 
 
 def broaden_moved(a_len, b_len, a_moved, b_moved):
 
-    big_len = np.lcm(a_len, b_len)
+    big_len = lcm(a_len, b_len)
 
     a_repetitions = big_len // a_len
     b_repetitions = big_len // b_len
-- 
2.43.0


From 7dcdea631d1c3c1c19490db59bba19409ce2165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:01 +0000
Subject: [PATCH 10/53] fix: the order of a permutation does not overflow

---
 discretehelpers/perm/metributes/order.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/perm/metributes/order.py b/discretehelpers/perm/metributes/order.py
index c14032c..f411122 100644
--- a/discretehelpers/perm/metributes/order.py
+++ b/discretehelpers/perm/metributes/order.py
@@ -1,6 +1,5 @@
 from functools import cached_property
-
-import numpy as np
+from math import lcm
 
 
 @cached_property
@@ -12,6 +11,6 @@ def order(self):
         return 1
 
     cycle_lengths = [len(cycle) for cycle in self.cycles]
-    result = np.lcm.reduce(cycle_lengths)
+    result = lcm(*cycle_lengths)
 
     return result
-- 
2.43.0


From 78faa6cf24ac459bb975786586110c9b148c1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:01 +0000
Subject: [PATCH 11/53] fix: the neutral permutation has a right rank

---
 discretehelpers/perm/metributes/ranks/right_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/perm/metributes/ranks/right_rank.py b/discretehelpers/perm/metributes/ranks/right_rank.py
index 9dde9d9..c0c5f6c 100644
--- a/discretehelpers/perm/metributes/ranks/right_rank.py
+++ b/discretehelpers/perm/metributes/ranks/right_rank.py
@@ -15,7 +15,7 @@ def right_rank(self):
     true_except(not have(self.perilen), PermNotFiniteError)
 
     if self.neutral:
-        result = 0
+        return 0
 
     ric = right_inversion_count(self.sequence())
     ric_reflected = ric[::-1]
-- 
2.43.0


From 38545a674fcd54342631cdb990904b02a9116cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:09 +0000
Subject: [PATCH 12/53] fix: trailing unnegated places do not distinguish equal
 signed permutations

---
 discretehelpers/sig_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..122f53c 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -105,7 +105,7 @@ class SigPerm(Perm):
 
         self.length = max(raw_binv.required_length, self.perm.length)
         missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv(raw_binv.vector[:self.length] + [False] * missing_length)
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From 34157c1b119438ec3e5094fc623428edb7d017c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:09 +0000
Subject: [PATCH 13/53] fix: an unsigned signed permutation hashes like the
 permutation it is equal to

---
 discretehelpers/sig_perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 122f53c..2c3b2dc 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -132,6 +132,8 @@ class SigPerm(Perm):
         return self.__str__()
 
     def __hash__(self):
+        if self.unsigned:
+            return hash(self.perm)
         return hash(self.__str__())
 
     def __mul__(self, other):  # a * b means a after b (function composition)
-- 
2.43.0


From a027acc575a992faa6df09459692e76f14b73551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:39 +0000
Subject: [PATCH 14/53] fix: reject matrices that are no signed permutation
 matrices

---
 discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
index 9dbecf3..29395b8 100644
--- a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
+++ b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
@@ -8,6 +8,8 @@ def matrix_to_sequence(matrix, inverse=False):
     mat = matrix if type(matrix) == np.ndarray else np.array(matrix)
     size, also_size = mat.shape
     true_except(size == also_size and type(size) == int, ValueError)
+    for axis in (0, 1):  # exactly one 1 or -1 in each column and row
+        true_except(((abs(mat) == 1).sum(axis=axis) == 1).all() and (abs(mat).sum(axis=axis) == 1).all(), ValueError)
 
     if inverse:
         mat = mat.transpose()
-- 
2.43.0


From 69a9890695476f21856d9735b4a9ba4abd12a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:52 +0000
Subject: [PATCH 15/53] fix: reject singular and non-binary matrices also where
 they shrink to degree 1

---
 discretehelpers/walsh_perm/a/shrink_matrix/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
index c784e96..b98a267 100644
--- a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
@@ -3,6 +3,7 @@ import numpy as np
 from discretehelpers.a import true_except
 from discretehelpers.perm.ex import IsNeutralFail
 
+from ...ex import InvalidMatrixError
 from .ex import *
 
 
@@ -10,6 +11,8 @@ def shrink_matrix(matrix):
 
     matrix = np.array(matrix, dtype=int)  # should be redundant
 
+    true_except(set(matrix.flat) <= {0, 1}, InvalidMatrixError)
+    true_except(matrix.size != 1 or matrix.all(), InvalidMatrixError)
     true_except(matrix.size > 1, IsNeutralFail)
     true_except(matrix.shape[0] == matrix.shape[1], NotSquareError)
 
@@ -17,6 +20,7 @@ def shrink_matrix(matrix):
 
     while True:
         if degree < 2:
+            true_except(matrix[0, 0] == 1, InvalidMatrixError)
             raise IsNeutralFail
 
         last = degree - 1
-- 
2.43.0


From faedf49139b67780f83db2532912bab26eca52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:52 +0000
Subject: [PATCH 16/53] fix: make Walsh permutations from all linear
 permutations, also from neutral, finite and Walsh permutations

---
 discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
index 36cb7bb..2981d2e 100644
--- a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
@@ -2,8 +2,9 @@ import numpy as np
 from math import log
 
 from discretehelpers.binv import Binv
+from discretehelpers.binv.a import binary_length
 from discretehelpers.perm import Perm
-from discretehelpers.a import true_except, is_natural
+from discretehelpers.a import true_except, is_natural, have
 
 from discretehelpers.perm.ex import IsNeutralFail
 from ...ex import NotEvenPermutationError, InvalidPermError
@@ -14,8 +15,8 @@ from discretehelpers.a.walsh_function_to_index.ex import NotWalshRowError
 def perm_to_matrix(perm, trust=False):
     from discretehelpers.a import walsh_function_to_index
 
-    if type(perm) == Perm:
-        perm = perm.sequence()
+    if isinstance(perm, Perm):
+        perm = perm.sequence() if have(perm.perilen) else perm.sequence(2 ** binary_length(max(perm.length - 1, 0)))
     else:
         true_except(sorted(perm) == list(range(len(perm))), NotEvenPermutationError)
 
-- 
2.43.0


From a41bd615fc574cfd0404f365cc640b2fc13b0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:52 +0000
Subject: [PATCH 17/53] fix: sequences and cycles of the neutral Walsh
 permutation at every length

---
 discretehelpers/walsh_perm/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 4adeb03..ef9343e 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -93,7 +93,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
@@ -103,8 +103,10 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
+        if self.neutral:
+            return []
         return super(WalshPerm, self).cycles_dynamic(length)
-- 
2.43.0


From c29a34b97617c6cc1ca7be31dfd300d75bae7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:52 +0000
Subject: [PATCH 18/53] fix: Walsh permutations have a length like all
 permutations

---
 discretehelpers/walsh_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index ef9343e..b7dcf37 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -43,7 +43,7 @@ class WalshPerm(Perm):
         self.neutral = False
         self.vector_object = Vector(matrix_to_vector(matrix))
         self.transpose_vector_object = Vector(matrix_to_vector(matrix, by_row=True))
-        self.perilen = 2 ** self.degree
+        self.perilen = self.length = 2 ** self.degree
 
         if not trust:
             self.mapping  # just call metribute, because verification happens there
-- 
2.43.0


From 657b16dd5c15271d9d841ab8d965fa5cb1f67441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:52 +0000
Subject: [PATCH 19/53] fix: Walsh permutations are hashable and hash like
 equal permutations

---
 discretehelpers/walsh_perm/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index b7dcf37..dcd5f90 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -74,6 +74,9 @@ class WalshPerm(Perm):
         else:
             return super(WalshPerm, self).__eq__(other)
 
+    def __hash__(self):
+        return hash(Perm(self.cycles, self.perilen))
+
     def __mul__(self, other):
         if not isinstance(other, WalshPerm):
             return super(WalshPerm, self).__mul__(other)
-- 
2.43.0


From b24f18c8ad74df89e10f3bcbfa5e63f3b3588b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 20/53] fix: views of a set partition follow merges and
 refinements

---
 discretehelpers/set_part/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..c6ea3c9 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -77,6 +77,8 @@ class SetPart(object):
         self._intval = None
         self._canonical_blocks_with_singletons = None
         self._singletons = None
+        for view in ('pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons'):
+            self.__dict__.pop(view, None)  # forget views of the partition before the change
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
-- 
2.43.0


From f21fa067657876607b32462c7fc4ef9f8e9dedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 21/53] fix: labels of singletons survive when a set partition
 becomes trivial

---
 discretehelpers/set_part/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index c6ea3c9..5cbb77d 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -15,6 +15,11 @@ class SetPart(object):
         else:
             self.domain = domain  # keep the letters
 
+        if have(block_labels):
+            self.block_labels = bidict(block_labels)
+        else:
+            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
+
         if blocks is None:
             self.set_trivial()
             return
@@ -43,11 +48,6 @@ class SetPart(object):
 
         self.trivial = False
 
-        if have(block_labels):
-            self.block_labels = bidict(block_labels)
-        else:
-            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
-
         self.set_dummies()
 
     from .metributes import pairs, intval, canonical_blocks_with_singletons, singletons
@@ -65,7 +65,6 @@ class SetPart(object):
         self.blocks = []
         self.non_singleton_to_block_index = dict()
         self.non_singletons = set()
-        self.block_labels = bidict()
 
         if self.domain == 'N':
             self.length = 0
-- 
2.43.0


From ca480009ff2dd82b8470aa07250a4c71d0c240e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 22/53] fix: a rejected refinement changes nothing, and labels
 belong to sorted blocks

---
 .../set_part/methods/refine_block/__init__.py      | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..98a9a14 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -15,19 +15,15 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
-    self.blocks.remove(old_block)
-    self.blocks += new_blocks
-
-    try:  # The old block may have a label. If so, delete it. If not, do nothing.
-        del self.block_labels[tuple(old_block)]
-    except KeyError:
-        pass
+    blocks = [block for block in self.blocks if block != old_block] + list(new_blocks)
+    block_labels = self.block_labels.copy()  # nothing is changed before all arguments are accepted
+    block_labels.pop(tuple(old_block), None)  # The old block may have a label. If so, delete it. If not, do nothing.
 
     if have(new_labels):
         true_except(type(new_labels) in [list, tuple], ArgTypeError)
         true_except(len(new_labels) == len(new_blocks), ArgValueError)
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+            block_labels[tuple(sorted(block))] = label
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(blocks, self.domain, block_labels)  # reinitialize
-- 
2.43.0


From 7c45a72c5fb6bffc30b91309a7a96ae8bfe7162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 23/53] fix: a rejected merge of many elements changes nothing

---
 .../set_part/methods/merge_many/__init__.py          | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/discretehelpers/set_part/methods/merge_many/__init__.py b/discretehelpers/set_part/methods/merge_many/__init__.py
index d3cff86..3095f99 100644
--- a/discretehelpers/set_part/methods/merge_many/__init__.py
+++ b/discretehelpers/set_part/methods/merge_many/__init__.py
@@ -1,7 +1,19 @@
 from itertools import combinations
 
+from discretehelpers.a import true_except, have
+
+from ...ex import NotInDomainError
+from ...methods.block_labels.ex import LabelContradictionError
+
 
 def merge_many(self, many):
+    many = list(many)
+
+    # nothing is changed before all elements are accepted
+    true_except(all(self.element_in_domain(element) for element in many), NotInDomainError)
+    labels = {self.get_label_from_element(element) for element in many}
+    true_except(len([label for label in labels if have(label)]) <= 1, LabelContradictionError)
+
     for a, b in combinations(many, 2):
         self.merge_pair(a, b)
 
-- 
2.43.0


From b97435f10a27c099c09cc3b007d3d54311680975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 24/53] fix: the join of set partitions has the domain of its
 operands

---
 .../set_part/methods/meet_and_join/join/_1_fast.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
-- 
2.43.0


From bc8a79232b5607aada8901f23113253bdb3ab527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 25/53] fix: blocks with singletons of a trivial partition of
 the integers

---
 .../set_part/methods/blocks_with_singletons/__init__.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
index ac712b7..0f0ba2a 100644
--- a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
+++ b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
@@ -12,8 +12,8 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         if self.domain == 'N':
             elements = range(self.length)
         elif self.domain == 'Z':
-            low = min(self.non_singletons)
-            high = max(self.non_singletons) + 1
+            low = min(self.non_singletons, default=0)
+            high = max(self.non_singletons, default=-1) + 1
             elements = range(low, high)
         else:
             elements = self.domain
@@ -30,7 +30,7 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         true_except(self.domain == 'Z', RangeNotAllowedError)
         low, high = range_pair
         true_except(type(low) == type(high) == int, RangeWrongTypeError)
-        true_except(low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
+        true_except(all(low <= _ < high for _ in self.non_singletons), RangeMismatchError)
         elements = range(low, high)
 
     elif not have(length) and not have(range_pair) and have(elements):  # elements (not restricted by domain)
-- 
2.43.0


From d9c5e48839d39eb4c567ec7e98e073338c617c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 26/53] fix: every element is in the same block as itself

---
 discretehelpers/set_part/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 5cbb77d..77867fc 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -104,6 +104,8 @@ class SetPart(object):
             return None
 
     def pair_in_same_block(self, a, b):
+        if a == b:
+            return True
         if not {a, b}.issubset(self.non_singletons):
             return False
         return self.non_singleton_to_block_index[a] == self.non_singleton_to_block_index[b]
-- 
2.43.0


From 95f2cbd971ecd998c158b4fdc346e9aaf1c370e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 27/53] fix: every element equals itself, so it can not be made
 its own complement

---
 discretehelpers/set_part_comp/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..9871df5 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -40,6 +40,8 @@ class SetPartComp():
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
+        if a == b:
+            return True
         a_index, b_index = _exposet(self, a, b)
         if not (have(a_index) and have(b_index)):
             return False
-- 
2.43.0


From 4727d98ccd5495d058b2db9b96bb3e8b564f806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 28/53] fix: complement pairs in the constructor have the same
 consequences as stated one by one

---
 discretehelpers/set_part_comp/__init__.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 9871df5..4e81fa4 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -21,21 +21,12 @@ class SetPartComp():
         else:
             self.equal_part = SetPart([], 'Z')
 
+        self.comp_pairs = set()
         if have(comp_pairs):
-            canonical_comp_pairs = set()
             for a, b in comp_pairs:
-                canonical_a = min(self.equal_part.element_to_block(a))
-                canonical_b = min(self.equal_part.element_to_block(b))
-                canonical_pair = tuple(sorted([canonical_a, canonical_b]))
-                canonical_comp_pairs.add(canonical_pair)
-            self.comp_pairs = canonical_comp_pairs
-        else:
-            self.comp_pairs = set()
-
-        if have(equal_part) and have(comp_pairs):  # check if arguments do not contradict each other
-            for pair in self.comp_pairs:
-                if self.equal_part.pair_in_same_block(*pair):
+                if self.are_equal(a, b):  # check if arguments do not contradict each other
                     raise PartCompMismatchError
+                self.set_comp(a, b)
 
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
-- 
2.43.0


From cd4e0ead0e10316afd36e8c498a693343463a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 29/53] fix: equalities and complements do not change the
 partition they were made from

---
 discretehelpers/set_part_comp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 4e81fa4..d018b07 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -17,7 +17,7 @@ class SetPartComp():
             if type(equal_part) == list:
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
-                self.equal_part = equal_part
+                self.equal_part = SetPart(equal_part.blocks, equal_part.domain, equal_part.block_labels)
         else:
             self.equal_part = SetPart([], 'Z')
 
-- 
2.43.0


From 0415ee363a4947b0abde84064e11fdc2e69add41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 30/53] fix: length without equalities and complements

---
 discretehelpers/set_part_comp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index d018b07..fc1efb9 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -83,7 +83,7 @@ class SetPartComp():
         return len(self.related_part().blocks)
 
     def length(self):
-        return max(self.related_part().non_singletons) + 1  # not `related_part().length`, because its domain is Z
+        return max(self.related_part().non_singletons, default=-1) + 1  # not `related_part().length`, because its domain is Z
 
     def affected_elements(self):
         elements = set()
-- 
2.43.0


From 83b93d1c324492e36e105350731e85f7ff642aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 31/53] fix: reject truth tables whose length is no power of
 two and negative arguments also for constant functions

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 516b354..9c91140 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -39,16 +39,17 @@ def _subinit_truth_table(self):
     if have(atomvals):
         valency = len(atomvals)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
+        true_except(all(_ >= 0 for _ in atomvals), AtomvalNegativeError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
+    true_except(length & (length - 1) == 0, ArgValueError)  # and their number is a power of two
 
     if weight in [0, length] and not skip_deflation:  # if only 0s or only 1s
         self.set_constant(bool(weight))  # tautology if weight not 0
         return True
 
     if have(atomvals):
-        true_except(min(atomvals) >= 0, AtomvalNegativeError)
         binv, atomvals = reorder_if_atomvals_not_asc(binv, atomvals)
     else:
         from discretehelpers.a import log_int
-- 
2.43.0


From 6ea9f87032bdda625d9a45e0e7edee85cd070e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 32/53] fix: check the arguments of a function given by
 fullspots before any are dropped

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..ab9590e 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -1,5 +1,7 @@
 from discretehelpers.a import have, true_except, subinit_bouncer
 
+from discretehelpers.boolf.ex import AtomvalsNotUniqueError, AtomvalNegativeError
+
 from discretehelpers.ex import ArgMismatchError, ArgComboError
 
 
@@ -15,6 +17,11 @@ def _subinit_fullspots(self):
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
+    if have(atomvals):
+        atomvals = list(atomvals)
+        true_except(len(set(atomvals)) == len(atomvals), AtomvalsNotUniqueError)
+        true_except(all(_ >= 0 for _ in atomvals), AtomvalNegativeError)
+
     if len(fullspots) == 0:  # constant False
         self.set_constant(False)
         return True
-- 
2.43.0


From d4b87aff0c16a02696c051043032d84cfc0aeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 33/53] fix: reject contradicting arguments of a Boolean
 function instead of looping forever

---
 discretehelpers/boolf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/boolf/__init__.py b/discretehelpers/boolf/__init__.py
index fd98c7f..d3176ee 100644
--- a/discretehelpers/boolf/__init__.py
+++ b/discretehelpers/boolf/__init__.py
@@ -1,6 +1,7 @@
 from discretehelpers.binv import Binv
 
 from .ex import *
+from discretehelpers.ex import ArgComboError
 
 from .a import reorder_if_atomvals_not_asc, deflate
 
@@ -40,6 +41,7 @@ class Boolf(object):
                 break
             if self._subinit_multi():
                 break
+            raise ArgComboError  # contradicting arguments
 
         self.set_dummies()
 
-- 
2.43.0


From 179b385dee014c18873f9cff56a4795f3243b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 34/53] fix: reject Walsh spectra whose length is no power of
 two

---
 discretehelpers/boolf/subinit_methods/ws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/ws/__init__.py b/discretehelpers/boolf/subinit_methods/ws/__init__.py
index 30b5676..0cf4843 100644
--- a/discretehelpers/boolf/subinit_methods/ws/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/ws/__init__.py
@@ -11,7 +11,7 @@ def _subinit_walsh_spectrum(self):
     from sympy.discrete.transforms import ifwht
     tt = ifwht(ws)
 
-    if not set(tt).issubset({0, 1}):
+    if len(tt) != len(ws) or not set(tt).issubset({0, 1}):
         from discretehelpers.ex import ArgValueError
         raise ArgValueError
 
-- 
2.43.0


From ae5527dc2d05dd32378cb357eb27a9339c4ef4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 35/53] fix: constant functions can be evaluated and applied

---
 discretehelpers/boolf/methods/vals_apply/val.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/boolf/methods/vals_apply/val.py b/discretehelpers/boolf/methods/vals_apply/val.py
index 9b783ed..6ddab95 100644
--- a/discretehelpers/boolf/methods/vals_apply/val.py
+++ b/discretehelpers/boolf/methods/vals_apply/val.py
@@ -9,6 +9,9 @@ def val(self, *args):
 
     true_except(len(args) == self.valency, SarityMismatchError)
 
+    if self.is_constant:
+        return self.root[0]
+
     first_arg = args[0]
     case_single = type(first_arg) in [int, bool] and int(first_arg) in [0, 1]
     case_multiple = type(first_arg) in [list, Binv]
-- 
2.43.0


From 10f6948f4a07edecdd42f1a52de07abff71cfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 36/53] fix: a Boolean function is not strictly greater than
 itself

---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From 9281f65283d5edb626f412fe62c71145fd37af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:26 +0000
Subject: [PATCH 37/53] fix: the truth table of an applied constant function

---
 discretehelpers/boolf/methods/vals_apply/vals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/boolf/methods/vals_apply/vals.py b/discretehelpers/boolf/methods/vals_apply/vals.py
index cc53d74..5d36eed 100644
--- a/discretehelpers/boolf/methods/vals_apply/vals.py
+++ b/discretehelpers/boolf/methods/vals_apply/vals.py
@@ -13,6 +13,9 @@ def vals(self, *atomkey_signed_perm):
 
     true_except(len(atomkey_signed_perm) == self.valency, SarityMismatchError)
 
+    if self.is_constant:
+        return self.root
+
     # only permutations and negations of 0 ... valency-1 are allowed
     atomkey_positive_perm = logic_abs_vector(atomkey_signed_perm)
     true_except(sorted(atomkey_positive_perm) == list(range(self.valency)), UnexpectedArgumentError)
-- 
2.43.0


From c84a1b31efe9c9ef2a323bdd5d79d74032c6fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:33 +0000
Subject: [PATCH 38/53] fix: negations of a truth table given as binary vector

---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index c7611e2..a9347f4 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -7,9 +7,9 @@ def mod_tt_neg(tt, signet):
         signet_index = signet
     elif type(signet) == list:
         signet_binv = Binv(signet)
-        signet_index = signet_binv.index
+        signet_index = signet_binv.intval
     elif type(signet) == Binv:
-        signet_index = signet.index
+        signet_index = signet.intval
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From 912c8be90cef3e735bdf26c5c9f657d14f1aeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:04 +0000
Subject: [PATCH 39/53] fix: exact binary logarithms of large numbers

---
 discretehelpers/a/_log/log_ceil/__init__.py   | 3 +--
 discretehelpers/a/_log/log_floor/__init__.py  | 3 +--
 discretehelpers/a/_log/log_int/__init__.py    | 7 +++----
 discretehelpers/a/is_power_of_two/__init__.py | 7 +------
 4 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..f154892 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,4 +1,3 @@
-from math import log2
 from discretehelpers.a import is_natural, true_except
 from discretehelpers.ex import ArgValueError
 
@@ -10,8 +9,8 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
+    result = int(x).bit_length() - 1
+    if 1 << result == x:
+        return result
     else:
         raise ArgValueError('not a power of two')
diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..dad5557 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,4 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    return int(n).bit_count() == 1
-- 
2.43.0


From f0b7cd3280419181eb7ff55e16526b9efc13a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:04 +0000
Subject: [PATCH 40/53] fix: decimal length of powers of ten

---
 discretehelpers/a/decimal_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/a/decimal_length/__init__.py b/discretehelpers/a/decimal_length/__init__.py
index c0eebd4..fe0d31b 100644
--- a/discretehelpers/a/decimal_length/__init__.py
+++ b/discretehelpers/a/decimal_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def decimal_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 10)) + 1
+    return len(str(int(n)))
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From 39a4f32feaa9eeb4cfc8d54d578065b21c71d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:04 +0000
Subject: [PATCH 41/53] fix: a subset of a dictionary without new entries

---
 discretehelpers/a/subdict/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/subdict/__init__.py b/discretehelpers/a/subdict/__init__.py
index 6e9f684..95f427b 100644
--- a/discretehelpers/a/subdict/__init__.py
+++ b/discretehelpers/a/subdict/__init__.py
@@ -14,7 +14,8 @@ def subdict(original, drop=None, fresh=None):
     for key in kept_keys:
         result[key] = original[key]
 
-    for key, val in fresh.items():
-        result[key] = val
+    if have(fresh):
+        for key, val in fresh.items():
+            result[key] = val
 
     return result
-- 
2.43.0


From 88959f9944a9dce3ae55e11bd0660b8185d4b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:30 +0000
Subject: [PATCH 42/53] fix: fullspots denote the same function as the truth
 table they are the places of

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index ab9590e..4c18576 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -13,7 +13,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -40,10 +39,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From 8bdcb337bf377d564be3f7bc39bd414212afaf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:02 +0000
Subject: [PATCH 43/53] fix: octant uses the adicity when no arity is given

---
 discretehelpers/boolf/methods/_quadrant_extensions/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_quadrant_extensions/__init__.py b/discretehelpers/boolf/methods/_quadrant_extensions/__init__.py
index ca3384c..c7baf88 100644
--- a/discretehelpers/boolf/methods/_quadrant_extensions/__init__.py
+++ b/discretehelpers/boolf/methods/_quadrant_extensions/__init__.py
@@ -17,7 +17,7 @@ def acute_quadrant(self, arity=None):
     return self.is_ugly + 2 * self.is_acute(arity)
 
 
-def octant(self, arity):
+def octant(self, arity=None):
 
     if not have(arity):
         arity = self.adicity
-- 
2.43.0


From cd6ebba6388df14bb1ae32d09cc6330160ac9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:02 +0000
Subject: [PATCH 44/53] fix: partition the clan of a function whose arguments
 are not the first ones

---
 .../boolf/methods/_ec/ec_clan_partitioned/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
index 2e18426..e315650 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
@@ -12,7 +12,7 @@ def ec_clan_partitioned(self):
     set_of_perm_tuples = set()
     perm_sum = 0
     for boolf in negperm_set:
-        perm = boolf.ec_faction()
+        perm = boolf.ec_faction(self.adicity)
         perm_tuple = tuple(sorted(perm.block_labels.values()))
         if perm_tuple not in set_of_perm_tuples:
             set_of_perm_tuples.add(perm_tuple)
-- 
2.43.0


From 60b087ea15c6bebc9baa1d61730d3107dd5717a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:25 +0000
Subject: [PATCH 45/53] fix: the filtrate of a descending pair swaps the two
 mixed entries

---
 discretehelpers/boolf/methods/filtrated_pair/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/filtrated_pair/__init__.py b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
index 296ba49..f390532 100644
--- a/discretehelpers/boolf/methods/filtrated_pair/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
@@ -10,7 +10,4 @@ def filtrated_pair(self, a, b):
 
         raw_result = self.filtrated_pairs[(b, a)]
 
-        if raw_result in ['1011', '1101']:  # subset, superset
-            return raw_result[::-1]
-        else:
-            return raw_result
+        return raw_result[0] + raw_result[2] + raw_result[1] + raw_result[3]  # swap arguments
-- 
2.43.0


From ec4ad121512a716f5f9cf8932dc6ec3b38466e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:25 +0000
Subject: [PATCH 46/53] fix: list the links between true places by argument

---
 .../_pretty/fullspotlinks_by_atom_pretty/__init__.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py b/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
index 137164c..54917cb 100644
--- a/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
+++ b/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, alphabet_subset
+from discretehelpers.a import have, true_except, alphabet_subset, log_int
 from discretehelpers.ex import ArgMismatchError
 
 
@@ -13,7 +13,10 @@ def fullspotlinks_by_atom_pretty(self, atomnames=None, print_only=False):
     else:
         atomnames = alphabet_subset(self.atomvals)
 
-    unpretty = self.fullspotlinks_by_atom
+    unpretty = {atomkey: [] for atomkey in range(self.valency)}
+    for list_of_pairs in self.fullspotlinks_by_weight.values():
+        for a, b in list_of_pairs:
+            unpretty[log_int(a ^ b)].append((a, b))
     pretty = dict()
 
     for atomkey, list_of_pairs in unpretty.items():
-- 
2.43.0


From 5d36f74c0f999df26058966c4fb0dbe6322a43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:21 +0000
Subject: [PATCH 47/53] fix: letters for an empty list of arguments

The readable forms of relations, links and bundles raised an error for
constant functions, because there is no maximum of no arguments.
---
 discretehelpers/a/alphabet_subset/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/alphabet_subset/__init__.py b/discretehelpers/a/alphabet_subset/__init__.py
index 5b50fc9..15aa89a 100644
--- a/discretehelpers/a/alphabet_subset/__init__.py
+++ b/discretehelpers/a/alphabet_subset/__init__.py
@@ -4,7 +4,7 @@ from discretehelpers.ex import ArgValueError
 
 def alphabet_subset(exposet):
 
-    if max(exposet) < 26:
+    if max(exposet, default=0) < 26:
 
         alphabet = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z']
 
-- 
2.43.0


From 2928f85299b61899c54610976b96e2571a8232a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:21 +0000
Subject: [PATCH 48/53] fix: filtrate to arguments listed in any order

Three or more arguments in an order like 2, 0, 1 gave a function with
permuted arguments instead of the projection of the original.
---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 90217d8..1b43b96 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -11,6 +11,7 @@ def filtrated_boolf(self, small_atomvals):
 
     big_atomvals = self.atomvals
     true_except(set(small_atomvals).issubset(big_atomvals), AtomvalsMismatchError)
+    small_atomvals = sorted(small_atomvals)
     
     big_valency = self.valency
     big_length = 2 ** big_valency
-- 
2.43.0


From aed293be8253849de14946ef56d8ce7e5d4a9661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:21 +0000
Subject: [PATCH 49/53] fix: keep rows of the Sierpinski triangle ascending
 when exponents come as a set

---
 discretehelpers/a/int_to_sierpinski_row/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/a/int_to_sierpinski_row/__init__.py b/discretehelpers/a/int_to_sierpinski_row/__init__.py
index a608134..3a08de7 100644
--- a/discretehelpers/a/int_to_sierpinski_row/__init__.py
+++ b/discretehelpers/a/int_to_sierpinski_row/__init__.py
@@ -21,6 +21,9 @@ def int_to_sierpinski_row(intval=None, exposet=None):
         if not exposet:  # empty list
             return [0]
 
+    if type(exposet) == set:
+        exposet = sorted(exposet)  # iterating over a set is not always ascending
+
     addends = [1 << i for i in exposet]
     short = len(addends)
     long = 2**short
-- 
2.43.0


From a8a0594cee775ddf3aac262a9f940d8e168948f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:21 +0000
Subject: [PATCH 50/53] fix: accept an empty list of nodes for a Hasse diagram

---
 discretehelpers/a/create_hasse_matrix/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/create_hasse_matrix/__init__.py b/discretehelpers/a/create_hasse_matrix/__init__.py
index 873fb8f..3168a52 100644
--- a/discretehelpers/a/create_hasse_matrix/__init__.py
+++ b/discretehelpers/a/create_hasse_matrix/__init__.py
@@ -20,7 +20,7 @@ def create_hasse_matrix(list_of_nodes, is_under, with_indirect_edges=False):
     # print('########################')
 
     new_matrix = old_matrix.copy()
-    last_sum = sum(sum(new_matrix))
+    last_sum = new_matrix.sum()
     while True:
         for i in range(n):
             for j in range(n):
@@ -30,7 +30,7 @@ def create_hasse_matrix(list_of_nodes, is_under, with_indirect_edges=False):
                     for k in range(n):
                         if old_matrix[i, k] == 1 and old_matrix[k, j] == 1:
                             new_matrix[i, j] = 2
-        current_sum = sum(sum(new_matrix % 2))  # modulo?
+        current_sum = (new_matrix % 2).sum()  # modulo?
 
         if current_sum == last_sum:
             break
-- 
2.43.0


From fece913b3d8e162aaf162047ed5a3f34573b5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:21 +0000
Subject: [PATCH 51/53] fix: return as many lists as given when sorting empty
 lists together

---
 discretehelpers/a/sort_together/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/a/sort_together/__init__.py b/discretehelpers/a/sort_together/__init__.py
index db3e157..bd8db15 100644
--- a/discretehelpers/a/sort_together/__init__.py
+++ b/discretehelpers/a/sort_together/__init__.py
@@ -9,6 +9,9 @@ def sort_together(*args):
     for arg in args:
         true_except(len(arg) == length, LengthMismatchError)
 
+    if length == 0:
+        return tuple([] for _ in args)
+
     zipped = zip(*args)
     sorted_zipped = sorted(zipped)
     unzipped = zip(*sorted_zipped)
-- 
2.43.0


From 27f366576bd6fb0b38b0a75e394eb38f1c7ae316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:17 +0000
Subject: [PATCH 52/53] fix: decimal digits of values just below one in the
 catalogue row

---
 discretehelpers/boolf/methods/wiki_table_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/wiki_table_row/__init__.py b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
index f52d663..2d8cc34 100644
--- a/discretehelpers/boolf/methods/wiki_table_row/__init__.py
+++ b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
@@ -52,7 +52,7 @@ def wiki_table_row(self, names_cell):
 
     wnum_big = int(wnum * reducing_factor)
 
-    vdec = format(vnum / vden, '.20f')[1::]  # with trailing zeros
+    vdec = '.' + str(10 ** 20 * vnum // vden).zfill(20)  # with trailing zeros
     wdec = format(wnum / wden, '.20g')[1::]  # without trailing zeros
 
     zhegalkin = self.zhe
-- 
2.43.0


From 0263cedce7ad923d1d1c2802ec5691670e82448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:06:16 +0000
Subject: [PATCH 53/53] fix: unabbreviated clan of a constant function

Asking for the unabbreviated clan of the constant false with an arity
recursed without end, as did both constants at arity zero.
List the single block of all signed permutations directly.
---
 discretehelpers/boolf/methods/_ec/ec_clan/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
index 1600461..99fe11f 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
@@ -13,17 +13,16 @@ from discretehelpers.ex import ArgTooSmallError, ArgNotFeasibleError
 def ec_clan(self, arity=None, suppress_abbreviation=False):
 
     if self.is_constant:
-        if not suppress_abbreviation:
+        if not suppress_abbreviation or not arity:
             pair_or_triple = (0, 0) if not arity else (0, 0, 0)
             part = SetPart(blocks=[], domain={pair_or_triple})
             part.add_label_to_element(pair_or_triple, self)
             return part
         else:
-            from discretehelpers.boolf import Boolf
-            fullspots = list(range(2 ** arity)) if self.root[0] else []
-            atomvals = list(range(arity))
-            boolf = Boolf(fullspots=fullspots, atomvals=atomvals, skip_deflation=True)
-            return boolf.ec_clan(arity, suppress_abbreviation)
+            pairs_m_n = list(product(range(2 ** arity), range(factorial(arity))))
+            part = SetPart(blocks=[pairs_m_n], domain=pairs_m_n)
+            part.add_label_to_element(pairs_m_n[0], self)
+            return part
 
     true_except(self.adicity <= 5, ArgNotFeasibleError)
 
-- 
2.43.0

