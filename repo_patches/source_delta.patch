From e4e43002dba697a9c8027b10239355b5529bc734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 01/23] fix: rim hook sign uses the sum of hook heights, so
 qmult_rh is right beyond one hook

remove_rim_hooks returned the height of the whole removed skew shape instead of
the total of the hook heights, and qmult_rh used (-1)^(height-kp) whatever the
number of hooks (docs/remove_rim_hooks.md: height - k*q_num).  Products that need
two or more hooks came out wrong (Gr(3,6): S[3,2]*S[3,3,1] had an extra 2*q^2),
and a negative exponent turned integer coefficients into floats.
---
 schubertpy/grassmannian.py |  2 +-
 schubertpy/partition.py    | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..b1e0dc6 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = (-1)**(kp*q_num-height)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..97ec8b4 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -98,6 +98,7 @@ class Partition:
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_height = 0  # Sum of the heights of the removed rim hooks
         
         while True:
             _partition = current_partition + [0]  # Append 0 to handle the difference calculation
@@ -111,7 +112,8 @@ class Partition:
                     _partition[i] -= _rim_size
                     _rim_size = 0
                     total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Height of single-row rim hook is 0
+                    # This rim hook occupies rows 0..i
+                    total_height += i + 1
                     rim_hook_removed_this_iteration = True
                     break
                 if _partition[i + 1] > 0:
@@ -122,7 +124,8 @@ class Partition:
                     if _partition[i] < _partition[i+1]:
                         break
                     total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Rim hook spans two rows, height = 1
+                    # This rim hook occupies rows 0..i
+                    total_height += i + 1
                     rim_hook_removed_this_iteration = True
                     break
 
@@ -131,18 +134,18 @@ class Partition:
                 # Accumulate the height of the removed rim hook
                 if not _is_non_increasing(_partition):
                     # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 _partition = part_clip(_partition)
                 new_partition = Partition(_partition)
 
                 if new_partition.is_in_range(nrow, ncol):
                     # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
+                    return new_partition, total_rim_hooks_removed, total_height
 
                 if new_partition.partition == current_partition:
                     # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 # Update the partition for the next iteration
                 current_partition = new_partition.partition
-- 
2.43.0


From c823c76ba631739fe8e65b17e366d60b07f0d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 02/23] fix: remove_rim_hooks finds removable rim hooks that
 start below the first row

Only hooks whose top row is the first row were tried, so Partition([3,2]) with
rim size 2 and grid (1,1) was reported as irreducible although its second row is
a removable hook.
---
 schubertpy/partition.py | 47 +++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index 97ec8b4..b4c108c 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -101,35 +101,32 @@ class Partition:
         total_height = 0  # Sum of the heights of the removed rim hooks
         
         while True:
-            _partition = current_partition + [0]  # Append 0 to handle the difference calculation
-            _rim_size = rim_size
             rim_hook_removed_this_iteration = False  # Flag to check if a rim hook was removed
-        
-            for i in range(len(_partition) - 1):
-                delta = _partition[i] - _partition[i + 1]
-                if delta >= _rim_size:
-                    # Rim hook is entirely within a single row
-                    _partition[i] -= _rim_size
-                    _rim_size = 0
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # This rim hook occupies rows 0..i
-                    total_height += i + 1
-                    rim_hook_removed_this_iteration = True
-                    break
-                if _partition[i + 1] > 0:
-                    delta += 1
-                _rim_size -= delta
-                _partition[i] -= delta
-                if _rim_size <= 0:
-                    if _partition[i] < _partition[i+1]:
+
+            # Look for a removable rim hook, trying each row as its topmost row
+            for start in range(len(current_partition)):
+                _partition = current_partition + [0]  # Append 0 to handle the difference calculation
+                _rim_size = rim_size
+                for i in range(start, len(_partition) - 1):
+                    delta = _partition[i] - _partition[i + 1]
+                    if delta >= _rim_size:
+                        # Rim hook ends in row i
+                        _partition[i] -= _rim_size
+                        _rim_size = 0
+                        total_rim_hooks_removed += 1  # Increment the rim hook count
+                        # This rim hook occupies rows start..i
+                        total_height += i - start + 1
+                        rim_hook_removed_this_iteration = True
                         break
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # This rim hook occupies rows 0..i
-                    total_height += i + 1
-                    rim_hook_removed_this_iteration = True
+                    if _partition[i + 1] > 0:
+                        delta += 1
+                    _rim_size -= delta
+                    _partition[i] -= delta
+                    if _rim_size <= 0:
+                        break
+                if rim_hook_removed_this_iteration:
                     break
 
-
             if rim_hook_removed_this_iteration:
                 # Accumulate the height of the removed rim hook
                 if not _is_non_increasing(_partition):
-- 
2.43.0


From c5cabee56a4f30138ca229477309b2da0bf3b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 03/23] fix: OrthogonalGrassmannian rejects isotropic subspaces
 of dimension > n//2

There are none, and the negative k made schub_classes() run until memory was
exhausted.  IsotropicGrassmannian already rejects the same input.
---
 schubertpy/orthogonal_grassmannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..6529ef4 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -37,6 +37,8 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
             
         if n % 2 == 1:
             self._type = "B"
-- 
2.43.0


From 21527e9c094c5623f45d3cb0b9d297db17602822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 04/23] fix: one-point Grassmannians Gr(0,n) and Gr(n,n) have
 the single class S[]

schub_classes() of Gr(0,n) was empty, and point_class() of Gr(n,n) was an empty
list instead of a Schur object (mult(point_class(), ...) then failed on str ops).
---
 schubertpy/grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index b1e0dc6..c3c204a 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -67,7 +67,7 @@ class Grassmannian(AbstractGrassmannian):
             raise ValueError("Must set type with IG or OG or set_type functions.")
 
         mu = [self._k] * (self._n - self._k)
-        partitions = part_gen(mu)
+        partitions = part_gen(mu) if mu else [[]]
         partitions.sort()
         res = [Schur(lam) for lam in partitions]
         res = unique_schur_list(res)
@@ -90,7 +90,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From cf2bed0b075289aad9d575a902848de45e97d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 05/23] fix: act/qact treat q1 and q2 as quantum parameters

On OG(n,2n+2) products carry q1 and q2; feeding such a product back into qmult,
qact or qtoS tried to read q1 as a special Schubert class and raised ValueError.
---
 schubertpy/abstract_grassmannian.py | 4 ++--
 schubertpy/qcalc.py                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..792448d 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -192,8 +192,8 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        q, q1, q2 = sp.symbols('q q1 q2')
+        vars = expc.free_symbols - {q, q1, q2}
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 70e8b9b..de6ef8c 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -606,8 +606,8 @@ def act_lc(expc: sp.Expr, lc: Union[sp.Expr, LinearCombination, str], pieri: Cal
     # print("act_lc")
     lc = LinearCombination(lc)
 
-    q = sp.Symbol('q')
-    vars = expc.free_symbols - {q}
+    q, q1, q2 = sp.symbols('q q1 q2')
+    vars = expc.free_symbols - {q, q1, q2}
     vars = sorted(vars, key=lambda x: str(x))
     
     # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From 6f3e8189be02076030525fe2198ab9c7f0b6831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 06/23] fix: clone() of isotropic and orthogonal Grassmannians
 returns the same space

The constructor takes the dimension of the ambient vector space, which is n only
in type A; IsotropicGrassmannian(2,6).clone() raised and
OrthogonalGrassmannian(2,9).clone() was a different space.
---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 792448d..339a2de 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,7 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        return self.__class__(*self.get_type_data()[4:6])
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From 2375c94b7c6c3119aeddaca4abdbfa7952cf2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 07/23] fix: part2index accepts a plain list

The list branch called the module-level qcalc.part2index, whose type is never
set, and always raised 'Must set type ...'.
---
 schubertpy/grassmannian.py            | 3 +--
 schubertpy/isotropic_grassmannian.py  | 3 +--
 schubertpy/orthogonal_grassmannian.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index c3c204a..e3aeaab 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..be63b56 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -114,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 6529ef4..eb6468b 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -156,7 +155,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
-- 
2.43.0


From f345d58656ef152b5ec69f0d6ddf1badba19dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 08/23] fix: OrthogonalGrassmannian.part2pair and pair2part
 accept plain lists

They passed a sympy symbol to helpers that take the list itself and raised
TypeError (the isotropic versions already pass the list).
---
 schubertpy/orthogonal_grassmannian.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index eb6468b..8b3ed13 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -138,7 +138,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -147,7 +146,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
-- 
2.43.0


From 03b0947cdaffc2bfa15f0c63bd0c413ce10829a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 09/23] fix: type_swap accepts a plain list (the recursive call
 dropped k)

---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index e3aeaab..b238837 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -119,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index be63b56..971ddf2 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -132,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8b3ed13..bfe6f95 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -185,7 +185,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From b22e87694556b6a4969417010b4d2b6a54fc4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 10/23] fix: schub_type accepts a Schur object, as its
 signature says

The inverted isinstance test rejected every Schur object and let anything else through.
---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index bfe6f95..8f3eaea 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -193,8 +193,10 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if self._type != "D" or not isinstance(lam, (list, Schur)):
             raise ValueError("No type defined.")
+        if isinstance(lam, Schur):
+            lam = lam.p
         
         if self._k not in lam:
             return 0
-- 
2.43.0


From a1f30c0e3d3e1766826d3cb83f27dee0fccde740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 11/23] fix: Schur polynomials no longer strip zeros from the
 caller's partition

to_polinomial_str popped the trailing zeros off Schur.p itself, turning S[2,1,0]
into a different class, and failed on tuples.
---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..4aa54bd 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From e7f66e5496ba8bc7826837b59e18396a3c347799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 12/23] fix: schur_to_sage_schur calls partition() instead of
 passing the method

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From 6874ef422c9fe9a8a713eb8314a386a508e5a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 13/23] fix: Schur keeps its own list, so tuples work and later
 edits of the argument do not leak in

A tuple was stored as is and printed as S(2,1), which no operation accepts; a
list was aliased, so changing it afterwards changed the Schur object and its hash.
---
 schubertpy/schur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..e9f9ca3 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -12,7 +12,7 @@ class Schur(object):
     def __init__(self, p: Union[List[int], sp.Expr, str, 'Schur']):
         # Set self.p to p or [] if p is None
         if isinstance(p, (list, tuple)):
-            self.p = p if p is not None else []
+            self.p = list(p)
             return
         if isinstance(p, Schur):
             self.p = p.p
-- 
2.43.0


From e248e1fb8e349949f50a64f9e89455a9ef0bb8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 14/23] fix: LinearCombination and Schur combine in either
 order, zero included

LinearCombination + Schur, - Schur and * Schur raised (so Schur.__radd__ and
__rmul__ were never reached), and Schur + LinearCombination(0) raised because
the zero expression is falsy.
---
 schubertpy/lc.py    | 8 ++++++++
 schubertpy/schur.py | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..afe3804 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -38,6 +38,8 @@ class LinearCombination(object):
         return self.__str__()
     
     def __add__(self, other):
+        if isinstance(other, Schur):
+            other = other.symbol()
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr + other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
@@ -47,6 +49,8 @@ class LinearCombination(object):
     __radd__ = __add__
 
     def __mul__(self, other):
+        if isinstance(other, Schur):
+            other = other.symbol()
         # Handle scalar multiplication
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr * other.expr)
@@ -67,6 +71,8 @@ class LinearCombination(object):
     
 
     def __sub__(self, other):
+        if isinstance(other, Schur):
+            other = other.symbol()
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
@@ -77,6 +83,8 @@ class LinearCombination(object):
             raise TypeError(f"Unsupported operand type(s) for -: '{type(self)}' and '{type(other)}'")
     
     def __rsub__(self, other):
+        if isinstance(other, Schur):
+            other = other.symbol()
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             return other - self.expr
diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index e9f9ca3..9e435df 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From 365bb3ecb461ae0742e58664e5868de98c93eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 15/23] fix: subtracting a scalar or expression from a
 LinearCombination yields a LinearCombination

Like +, * and ** do; it returned a bare sympy expression with encoded symbol names.
---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index afe3804..32c0183 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -76,7 +76,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -87,7 +87,7 @@ class LinearCombination(object):
             other = other.symbol()
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From 30e8fd1558a04f23a9198e69dab4bef2d1527526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 16/23] fix: LinearCombination parses partitions written with
 spaces, like 'S[2, 1]'

Schur('S[2, 1]') was accepted but the same text in a linear combination was a SyntaxError.
---
 schubertpy/lc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 32c0183..39803f9 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -1,3 +1,4 @@
+import re
 from typing import *
 import sympy as sp
 
@@ -17,6 +18,8 @@ class LinearCombination(object):
             return
         if isinstance(expr, str):
             expr = expr.replace('^', '**')
+            # spaces inside a partition, as in str([2, 1])
+            expr = re.sub(r'(?<=[\[,])\s+|\s+(?=[,\]])', '', expr)
             expr = expr.translate(ftable)
             self.expr = sp.parse_expr(expr)
             return
-- 
2.43.0


From 48bbf2efe2b405e9f29c8c15a15d306452ff3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 17/23] fix: schur_expansion keeps fractional constant terms
 (1/2 became 0)

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 39803f9..9c07ea0 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -286,7 +286,7 @@ class LinearCombination(object):
             expression type is not supported for Schur expansion.
         """
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_Integer else LinearCombination(expr), [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if isinstance(expr, sp.Mul):
-- 
2.43.0


From 62711760966a9a2e02069cae310848a101eac460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 18/23] fix: schur_expansion of a sum with a bare q term raises
 ValueError, not RecursionError

The recursive helper tested and expanded self.expr instead of the term it was given.
---
 schubertpy/lc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 9c07ea0..bec58d2 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -294,16 +294,16 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
             sorted_array = sorted(res, key=lambda x: x[1])
             return sorted_array
-        raise ValueError(f"Invalid type for schur_expansion: {self.expr}")
+        raise ValueError(f"Invalid type for schur_expansion: {expr}")
 
     def schur_expansion(self, include_q=True) -> 'LinearCombination':
         """
-- 
2.43.0


From 626a44d9f6c660b3c06e37c51bef5154ef7b839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 19/23] fix: schur_expansion(include_q=False) drops a q term
 that is the whole expression

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index bec58d2..bd65ca0 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -322,6 +322,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
+        if not include_q and not isinstance(self.expr, sp.Add) and 'q' in str(self.expr):
+            return []
         return self._schur_expansion(self.expr, include_q)
 
     def draw_ascii_partition(self, include_q=True):
-- 
2.43.0


From 5cbb600c57e54796c1470a25c164f572bb461850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 20/23] fix: schur_expansion rejects products whose coefficient
 still contains Schur classes

S[1]*S[2]^2 and (S[1]+S[2])*S[3] were split into a non-scalar coefficient and one
class instead of raising the documented ValueError.
---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index bd65ca0..fde454e 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -253,6 +253,8 @@ class LinearCombination(object):
             ss = [arg for arg in expr.args if isSchur(arg)]
             if len(ss) <=0:
                 raise ValueError(f"Schur function absent or not in order 1: {expr}")
+            if any(isSchur(sym) for sym in new_expr.free_symbols):
+                raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {expr}")
             s = ss[0]
             return (LinearCombination(new_expr), Schur(s).partition())
         raise ValueError(f"Invalid type for cutoff Schur: {expr}")
-- 
2.43.0


From 9618f0c51652faa746e593dd29b2662e061008aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 21/23] fix: draw_ascii_partition draws expressions that
 contain the unit class S[]

---
 schubertpy/lc.py        | 4 ++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index fde454e..1169e0c 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -348,14 +348,14 @@ class LinearCombination(object):
         
         # Prepare the ASCII art lines
         ascii_lines = []
-        max_height = 0
+        max_height = 1 if expansion else 0
         
         for coeff, part in expansion:
             max_height = max(max_height, len(part))
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index 4aa54bd..f77303b 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From 34c22ec91c00934ec06e66ab9e3630627cd3b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 22/23] fix: quantum Pieri on OG(n,2n+2) does not rely on the
 iteration order of a set

Small-int sets iterate in ascending order only while they fit their hash table;
from n = 8 on (OG(8,18), {1,8}) the complement partition came out unsorted and
qpieri raised or returned a wrong class.
---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8f3eaea..61422bb 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -297,7 +297,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From 244a3b1fdef386d7abbbf3d225888c064a31da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 23/23] fix: skew_partition_height does not count trailing
 zeros as rows

---
 schubertpy/partition.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b4c108c..d6e4b88 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -183,11 +183,8 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
-
     # Validation: Ensure lambda is contained within mu
-    for i in range(len(lambda_partition)):
+    for i in range(len(part_clip(lambda_partition))):
         if i >= len(mu_partition):
             raise ValueError("Partition lambda is not contained within partition mu (lambda has more rows).")
         if lambda_partition[i] > mu_partition[i]:
-- 
2.43.0

