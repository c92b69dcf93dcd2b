From 367c3e6022a1b60d30af24e268adcc9e50fcfbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 01/37] fix: treat < > as angle brackets in every spinor
 string, not only in composite expressions

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..dc71919 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From e54584e032af9b7e0f3f5fedf71712ea0be2ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 02/37] fix: sign of tr5 when the massless leg is not the first
 entry

---
 lips/particles_compute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index dc71919..d3b2636 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,13 +84,15 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+            sign = 1
             for _ in range(4):
                 if len(a) == 1:
                     break
                 a, b, c, d = b, c, d, a
+                sign = -sign                                        # tr5 is odd under cyclic rotations
             else:
                 raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]")
+            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From e5e94003700e2fa349b69e0d85458f87fe2b9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 03/37] fix: rational numbers in expressions: keep precedence
 and exactness

---
 lips/particles_eval.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..57ebd30 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -18,8 +18,22 @@ from syngular.monomial import non_unicode_powers
 from .tools import LeviCivita
 
 
+def exact_truediv(a, b):
+    """Division, keeping ratios of integers exact."""
+    if isinstance(a, int) and isinstance(b, int):
+        return Fraction(a, b)
+    return op.truediv(a, b)
+
+
+def exact_pow(a, b):
+    """Power, keeping negative powers of integers exact."""
+    if isinstance(a, int) and isinstance(b, int) and b < 0:
+        return Fraction(a) ** b
+    return op.pow(a, b)
+
+
 operators = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul,
-             ast.Div: op.truediv, ast.Pow: op.pow, ast.BitXor: op.xor,
+             ast.Div: exact_truediv, ast.Pow: exact_pow, ast.BitXor: op.xor,
              ast.USub: op.neg, ast.UAdd: op.pos, ast.MatMult: op.matmul}
 
 
@@ -158,8 +172,6 @@ class Particles_Eval:
         string = re.sub(r'(?<!tr)(\d)\(', r'\1*(', string)
         string = re.sub(r'\)(\d)', r')*\1', string)
         string = string.replace(')(', ')*(').replace(")o", ")*o")
-        re_rat_nbr = re.compile(r"(?<!\*\*)(\d+)\/(\d+)")
-        string = re_rat_nbr.sub(r"Fraction(\1,\2)", string)
         string = re.sub(r'(?<!numpy\.)block', r'numpy.block', string)
         return string
 
-- 
2.43.0


From 8dceb274b8b94880819e7f770158b49423a6996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 04/37] fix: particle masses m_i in composite expressions

---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 57ebd30..e0d9077 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -50,7 +50,7 @@ pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
 pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
-pMVar = re.compile(r'(?<![a-zA-Z])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
+pMVar = re.compile(r'(?<![a-zA-Z\'])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
 pDijk_adjacent = re.compile(r'(?:Δ_(\d+)(?![\d\|]))')
-- 
2.43.0


From b95bba43243cf3c0756fd336011746e503c03ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 05/37] fix: LaTeX fractions, sub- and superscripts

---
 lips/particles_eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index e0d9077..d7a8ddd 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -123,14 +123,14 @@ class Particles_Eval:
     def _parse(string):
         string = string.replace("−", "-")
         string = string.replace(r"\scriptscriptstyle", "").replace("<", "⟨").replace(">", "⟩")
-        string = string.replace(r"\frac{", "(")
-        string = string.replace(r"}{", ")/(")
-        string = string.replace("}+\\", ")+")
         string = string.replace("\n", "").replace(" ", "")
-        string = re.sub(r"}$", ")", string)
+        string = re.sub(r"(?<=[_\^]){([\d\|]+)}", r"\1", string)
+        while re.search(r"\\frac{[^{}]*}{[^{}]*}", string):  # innermost fractions first
+            string = re.sub(r"\\frac{([^{}]*)}{([^{}]*)}", r"((\1)/(\2))", string)
         string = non_unicode_powers(string)
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
         string = re.sub(r"{([\d\|]+)}", r"\1", string)
+        string = string.replace("{", "(").replace("}", ")")
         # this needs to be at top because it relies on the rest
         string = pMassiveSAu_SpinIndexd.sub(
             lambda match: f"(ϵ@block([[⟨{int(match.group(1))}|], [⟨{int(match.group(1)) + 1}|]]))[0:1, :]@|", string)
-- 
2.43.0


From 99d845ce109e36e8c12ab3678dfbbcb1f723a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 06/37] fix: image of points where two particles have the same
 momentum

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..c8c4ee3 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,7 +146,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
+            oResParticles = copy.deepcopy(Particles([self[i] for i in sorted(range(1, len(self) + 1), key=lambda i: permutation_or_rule[i - 1])],
                                                     field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
-- 
2.43.0


From 4a1e3c05edac47a6c1633cd46d48cc7fed219357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 07/37] fix: copy of points with ten or more particles

---
 lips/particles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index c8c4ee3..b6c3488 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From 18e2b2eeeb4ec9a00337b0c4536de4d4da7397b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 08/37] fix: sums with a single term return an independent
 particle

---
 lips/particle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..6216406 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -9,7 +9,7 @@ import numpy
 import sympy
 import lips
 
-from copy import copy
+from copy import deepcopy
 from sympy import NotInvertible
 
 from syngular import Field
@@ -72,21 +72,21 @@ class Particle(object):
     def __add__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __radd__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __sub__(self, other):
         """Sub: subtract the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp - other.r2_sp, field=self.field)
 
-- 
2.43.0


From 082363cfd2f96188967301d85f3d80036bf37d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 09/37] fix: contraction of polarisations given in mixed
 helicity notation

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index d3b2636..2a36c70 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -64,7 +64,7 @@ class Particles_Compute:
 
     def ee(self, i, j):
         """Contraction of two polarization tensors. Requires .helconf property to be set."""
-        if self.helconf[i - 1] == self.helconf[j - 1]:
+        if (self.helconf[i - 1] in ["-", "m"]) == (self.helconf[j - 1] in ["-", "m"]):
             return 0
         elif self.helconf[i - 1] in ["-", "m"]:
             # ε⁻ᵢ⋅ε⁺ⱼ = ⟨i|q|j] / ⟨j|q|i]
-- 
2.43.0


From 91e371bf79241cd1abe3ad022e0fe0a019123079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 10/37] fix: internal masses given as a list or tuple

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index b6c3488..b6a71fb 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,7 +65,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
+            self.internal_masses = set()
             for internal_mass in internal_masses:
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
-- 
2.43.0


From aee9e2002c137cb51a85e548cf92ee24048a6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 11/37] fix: equality of points with different number of
 particles

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index b6a71fb..02db904 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -89,7 +89,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From 789a176e0c95b1a12fe52c124ce9703460ecffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 12/37] fix: second shift of square spinors in bivariate slice

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..8c89eb5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -75,7 +75,7 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-- 
2.43.0


From f0e0b45f7ecb564dbed9a655d05c61eb38f9611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 13/37] fix: invariants without further restriction of
 4-brackets

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..b004885 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -454,7 +454,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From c52d985a2bd5b401eb3eecadc9eb8ebbe6ab0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 14/37] fix: cache of invariants is only used for requests with
 the options it was written with

---
 lips/invariants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b004885..300f923 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,8 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        if (no_cached is False and no_hard_coded_ones is False and
+           Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
-- 
2.43.0


From ff7a13d9c0217da8d2386da181be1247372a2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 15/37] fix: incomplete or damaged cache of invariants is
 regenerated

---
 lips/invariants.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index 300f923..f6a23b6 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -13,7 +13,6 @@ import os
 import re
 import itertools
 import shelve
-import dbm
 
 pA2 = re.compile(r'^(?:⟨)([0-9])(?:\|)([0-9])(?:⟩)$')
 pNB = re.compile(r'^(?:⟨|\[)(?P<start>\d)(?:\|)(?P<middle>(?:(?:\([\d[\+|-]{1,}]{,1}\))|(?:[\d[\+|-]{1,}]{,1}))*)(?:\|)(?P<end>\d)(?:⟩|\])$')
@@ -47,22 +46,26 @@ class Invariants(object):
                     else:
                         raise Exception("Missing piece - regenerate invariants.")
 
-            except dbm.error[0]:
+            except Exception:                                      # missing, incomplete or damaged cache
                 if verbose:
                     print("Regenerating from scratch")
                 # Generate Them & Write To Cache
-                with shelve.open(self.pw_invariants, 'c') as sInvariants:
-                    self.GenerateFromScratch(n, no_hard_coded_ones,
-                                             Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
-                    sInvariants[str("invs_2")] = self.invs_2
-                    sInvariants[str("invs_3")] = self.invs_3
-                    sInvariants[str("invs_4")] = self.invs_4
-                    sInvariants[str("invs_5")] = self.invs_5
-                    sInvariants[str("invs_s")] = self.invs_s
-                    sInvariants[str("invs_D")] = self.invs_D
-                    sInvariants[str("invs_O")] = self.invs_O
-                    sInvariants[str("invs_P")] = self.invs_P
-                    sInvariants[str("invs_tr5")] = self.invs_tr5
+                self.GenerateFromScratch(n, no_hard_coded_ones,
+                                         Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
+                try:
+                    with shelve.open(self.pw_invariants, 'n') as sInvariants:
+                        sInvariants[str("invs_2")] = self.invs_2
+                        sInvariants[str("invs_3")] = self.invs_3
+                        sInvariants[str("invs_4")] = self.invs_4
+                        sInvariants[str("invs_5")] = self.invs_5
+                        sInvariants[str("invs_s")] = self.invs_s
+                        sInvariants[str("invs_D")] = self.invs_D
+                        sInvariants[str("invs_O")] = self.invs_O
+                        sInvariants[str("invs_P")] = self.invs_P
+                        sInvariants[str("invs_tr5")] = self.invs_tr5
+                except Exception:                                  # the cache is an optimisation only
+                    if verbose:
+                        print("Failed to write to cache")
         else:
             self.GenerateFromScratch(n, no_hard_coded_ones, Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
 
-- 
2.43.0


From ae7c6f090c2a1268a2a3541aa8c407edd6cc9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 16/37] fix: LaTeX superscripts with a sign inside fractions

---
 lips/particles_eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index d7a8ddd..7a49491 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -125,6 +125,7 @@ class Particles_Eval:
         string = string.replace(r"\scriptscriptstyle", "").replace("<", "⟨").replace(">", "⟩")
         string = string.replace("\n", "").replace(" ", "")
         string = re.sub(r"(?<=[_\^]){([\d\|]+)}", r"\1", string)
+        string = re.sub(r"\^{([^{}]*)}", r"^(\1)", string)
         while re.search(r"\\frac{[^{}]*}{[^{}]*}", string):  # innermost fractions first
             string = re.sub(r"\\frac{([^{}]*)}{([^{}]*)}", r"((\1)/(\2))", string)
         string = non_unicode_powers(string)
-- 
2.43.0


From d5140af0a3522e19472ca6437d773caf9c62e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:36 +0000
Subject: [PATCH 17/37] fix: tr5 with massive entries

---
 lips/particles_compute.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 2a36c70..9d4e5e6 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -81,18 +81,10 @@ class Particles_Compute:
         # Consistency of string check is left to ast parser.
         temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
-        if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
+        if ptr5.findall(temp_string) != []:                         # tr5_ijkl = tr(i|j|k|l) - tr(j|k|l|i), [i|j|k|l|i⟩ - ⟨i|j|k|l|i] if i is massless
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
-            sign = 1
-            for _ in range(4):
-                if len(a) == 1:
-                    break
-                a, b, c, d = b, c, d, a
-                sign = -sign                                        # tr5 is odd under cyclic rotations
-            else:
-                raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
+            return self.compute(f"tr({a}|{b}|{c}|{d})") - self.compute(f"tr({b}|{c}|{d}|{a})")
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From dc1ce5c377ddbf6d6d594c943dc7888041844960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:04 +0000
Subject: [PATCH 18/37] fix: masses defined as aliases of invariants, when
 clustering

---
 lips/particles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 02db904..c687671 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -165,9 +165,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
+        def to_clustered_labels(match):                             # e.g.: s_34 -> s_3, for llIntegers = [[1], [2], [3, 4]]
+            legs = [i for i, corner in enumerate(llIntegers, 1) if set(map(str, corner)) <= set(match.group(2))]
+            is_union_of_corners = sorted(str(i) for leg in legs for i in llIntegers[leg - 1]) == sorted(match.group(2))
+            return match.group(1) + "".join(map(str, legs)) if is_union_of_corners else match.group(0)
+
+        clustered_internal_masses = {key: (re.sub(r"([sS]_?)(\d+)", to_clustered_labels, val) if isinstance(val, str) else val)
                                      for key, val in self.internal_masses_dict.items()}
         selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
-- 
2.43.0


From be4166c80f9f379399516f10b0521775dc1915dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 19/37] fix: momenta with vanishing P0+P3 in the asymmetric
 spinor convention

---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index 6216406..e4528f0 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -380,7 +380,7 @@ class Particle(object):
         self._set_l_sp_d(self._four_mom[0] + self._four_mom[3], self._four_mom[1] - self._four_mom[2] * 1j)
 
     def _set_l_sp_d(self, P0_plus_P3, P1_minus_iP2):  # l_sp_d is \bar{\lambda}_{\dot\alpha}
-        if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
+        if abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
-- 
2.43.0


From 557b4906b5c995512cda58234c9e41c124ac4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 20/37] fix: hash of massless particles whose spinors are
 undefined

---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index e4528f0..73777d7 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -110,7 +110,7 @@ class Particle(object):
         return self.four_mom[key]
 
     def __hash__(self):
-        if abs(self.m2) <= self.field.tollerance:
+        if abs(self.m2) <= self.field.tollerance and self.r_sp_d is not None:
             return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
         else:
             return hash(tuple(self.r2_sp.flatten()))
-- 
2.43.0


From 9e771b90d1e99b180c5e508fe056c8a174855268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:48 +0000
Subject: [PATCH 21/37] fix: seed of generic univariate slices

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 8c89eb5..4eacf39 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0


From 5641e542380522bf4f9122c092f46be0514d72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:48 +0000
Subject: [PATCH 22/37] fix: random masses named by a set do not depend on the
 hash seed

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index c687671..5028f1b 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -66,7 +66,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
             self.internal_masses = set()
-            for internal_mass in internal_masses:
+            for internal_mass in (sorted(internal_masses) if isinstance(internal_masses, set) else internal_masses):
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
             self.internal_masses = set()
-- 
2.43.0


From 1cc7e8fc14ae40750260a1cbb16fc3a0bb3e04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 23/37] fix: unseeded slices retry when a shift coefficient
 vanishes

---
 lips/particles_slices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 4eacf39..a81a36b 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From f5c625127db6196e1269282c4c53e4dcc823619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:52 +0000
Subject: [PATCH 24/37] fix: lists of four-brackets do not depend on the hash
 seed

---
 lips/invariants.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index f6a23b6..adec469 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -285,6 +285,8 @@ def all_strings(n, temp_string):
                 result.remove(invariant)
         _result = [entry for entry in result]
         for i, iInv in enumerate(_result):                                      # remove some doubles, eg: '⟨2|(3+4)|(5+6)|2⟩' = '⟨2|(1+7)|(5+6)|2⟩'
+            if iInv not in result:                                              # already removed
+                continue
             abcd = pNB.search(iInv)
             a = abcd.group('start')
             bc = abcd.group('middle')
@@ -300,9 +302,9 @@ def all_strings(n, temp_string):
             alt = [set(entry.split("+")) for entry in alt]
             if bc[0].issubset(alt[1]):
                 new_alt = alt[1] - bc[0]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[0]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_bc, new_alt, d)
                 else:
@@ -317,9 +319,9 @@ def all_strings(n, temp_string):
                         result.remove(equal_inv)
             if bc[1].issubset(alt[0]):
                 new_alt = alt[0] - bc[1]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[1]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_alt, new_bc, d)
                 else:
-- 
2.43.0


From 4bfee23b0b8024cf299d72be75fc8421b3f03d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:52 +0000
Subject: [PATCH 25/37] fix: seven-point Gram determinant is not listed as a
 four-bracket

---
 lips/invariants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index adec469..588f097 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -104,7 +104,8 @@ class Invariants(object):
         if n == 6:
             self.invs_D += ["Δ_15|26|34", "Δ_14|23|56", "Δ_13|24|56"]
         if n == 7:
-            self.invs_4 += ["⟨1|(5+6)|(2+7)|1⟩", "[1|(5+6)|(2+7)|1]", "Δ_12|347|56", ]
+            self.invs_4 += ["⟨1|(5+6)|(2+7)|1⟩", "[1|(5+6)|(2+7)|1]", ]
+            self.invs_D += ["Δ_12|347|56", ]
 
     @property
     def full(self):
-- 
2.43.0


From 4b80405c44cf367a156d3bd4edc4e13f64025c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:22 +0000
Subject: [PATCH 26/37] fix: setting s_ijk and <i|(j+k)|i] together gives each
 its own value

---
 lips/hardcoded_limits/particles_set_pair.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index e2deced..203ee41 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -22,10 +22,8 @@ class Particles_SetPair:
 
     def _set_pair(self, t_s1, t_v1, t_s2, t_v2):
         """Constructs a doubly singular phase space point."""
-        new_invs = self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)     # set it --- note: if a list is returned then switch invariants to those
-        if type(new_invs) is list:                                  # used for example for s_123&⟨1|(2+3)|1] ---> s_123&⟨2|3⟩
-            t_s1, t_s2 = new_invs[0], new_invs[1]
-        elif type(new_invs) is str and new_invs == "Not implemented.":
+        outcome = self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)      # set it
+        if outcome == "Not implemented.":
             raise myException("Failed to set {} to {} and {} to {}. Pair not implemented.".format(t_s1, t_v1, t_s2, t_v2))
         abs_diff1 = min(abs(self.compute(t_s1) - t_v1), abs(self.compute(t_s1) + t_v1))
         abs_diff2 = min(abs(self.compute(t_s2) - t_v2), abs(self.compute(t_s2) + t_v2))
@@ -626,11 +624,11 @@ class Particles_SetPair:
                 else:
                     t_s1 = '[{}|({})|{}⟩'.format(l3Bs, l3Bc, l3Be)
                 use_mode = 2
-            else:                                         # ijk contained in l3B and viceversa
-                t_s1 = t_s2                               # this is the s_ijk, s_ij+s_ik, hence s_jk case basically
-                t_s2 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
-                self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-                return [t_s2, t_s1]                       # cheeky fix
+            elif l3Bs != l3Be or sorted(ijk) != sorted([l3Bs] + l3Bm) or len(ijk) != 3:
+                return "Not implemented."
+            else:                                         # this is the s_ijk, s_ij+s_ik, hence s_jk=⟨j|k⟩[k|j] case basically
+                j, k = l3Bm
+                return self._set_pair_inner('⟨{}|{}⟩'.format(j, k), (t_v2 - t_v1) / self.compute('[{}|{}]'.format(k, j)), t_s2, t_v2)
         elif len(free_first_flipped) >= 2:                # flip it and try again
             t_s2 = 's_{}'.format(''.join(self._complementary(list(map(str, ijk)))))
             return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-- 
2.43.0


From 381b2af843404c2e9a7edcff7fe7101ebbccfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:52 +0000
Subject: [PATCH 27/37] fix: setting a chain with an even number of sums keeps
 its sign when the chain is reversed

---
 lips/hardcoded_limits/particles_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index e5cfbb5..13f8616 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -183,7 +183,7 @@ class Particles_Set:
                 temp_string = temp_string.replace("(", "X").replace(")", "(").replace("X", ")")
                 temp_string = temp_string.replace("⟨", "X").replace("⟩", "⟨").replace("X", "⟩")
                 temp_string = temp_string.replace("[", "X").replace("]", "[").replace("X", "]")
-                self._set_inner(temp_string, temp_value, fix_mom, mode)
+                self._set_inner(temp_string, -temp_value if len(lNBms) % 2 == 0 else temp_value, fix_mom, mode)  # ⟨a|b|c|d⟩=-⟨d|c|b|a⟩
                 return
             rest = numpy.array([[1, 0], [0, 1]])
             if temp_string[0] == "⟨":
@@ -242,9 +242,12 @@ class Particles_Set:
                     end = "|" + str(a) + "]"
                 a, d = d, a
                 bc.reverse()
+                if len(bc) % 2 == 0:                            # ⟨a|b|c|d⟩=-⟨d|c|b|a⟩
+                    temp_value = -temp_value
                 middle = "".join(["(" + item + ")|" for item in bc])
                 middle = middle[:-1]
             temp_string = start + middle + end
+            a_or_s = temp_string[0]
 
             total = self.compute(temp_string)                   # compute the all thing: ⟨i|j+k|l]
             b = int(temp_string[4])
-- 
2.43.0


From 7b27dfcee63e72120c13a523b9f220f30ea673eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:52 +0000
Subject: [PATCH 28/37] fix: setting tr5 at five points has the right sign for
 every choice of legs

---
 lips/hardcoded_limits/particles_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index 13f8616..064bca0 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -491,7 +491,8 @@ class Particles_Set:
             a5, b5 = self[5].r_sp_d.flatten().tolist()
             c5, d5 = self[5].l_sp_d.flatten().tolist()
 
-            x = 4 * temp_value
+            labels = list(map(int, flatten(re.findall(r"\d+", x) for x in (a, b, c, d)))) + plist    # tr5_abcd = ±tr5_1234, by mom. cons.
+            x = 4 * temp_value * (-1) ** sum(l1 > l2 for i, l1 in enumerate(labels) for l2 in labels[i + 1:])
 
             b1 = (a2**2*b3**2*b4*c1*c2*c3*d2*d3*d4 - a2**2*b3**2*b4*c1*c2*c4*d2*d3**2 - a2**2*b3**2*b4*c1*c3**2*d2**2*d4 + a2**2*b3**2*b4*c1*c3*c4*d2**2*d3 - a2**2*b3**2*b4*c2**2*c3*d1*d3*d4 + a2**2*b3**2*b4*c2**2*c4*d1*d3**2 + a2**2*b3**2*b4*c2*c3**2*d1*d2*d4 - a2**2*b3**2*b4*c2*c3*c4*d1*d2*d3 + a2**2*b3*b4**2*c1*c2*c3*d2*d4**2 - a2**2*b3*b4**2*c1*c2*c4*d2*d3*d4 - a2**2*b3*b4**2*c1*c3*c4*d2**2*d4 + a2**2*b3*b4**2*c1*c4**2*d2**2*d3 - a2**2*b3*b4**2*c2**2*c3*d1*d4**2 + a2**2*b3*b4**2*c2**2*c4*d1*d3*d4 + a2**2*b3*b4**2*c2*c3*c4*d1*d2*d4 - a2**2*b3*b4**2*c2*c4**2*d1*d2*d3 - a2*a3*b2*b3*b4*c1*c2**2*d3**2*d4 + 2*a2*a3*b2*b3*b4*c1*c2*c4*d2*d3**2 + a2*a3*b2*b3*b4*c1*c3**2*d2**2*d4 - 2*a2*a3*b2*b3*b4*c1*c3*c4*d2**2*d3 + 2*a2*a3*b2*b3*b4*c2**2*c3*d1*d3*d4 - a2*a3*b2*b3*b4*c2**2*c4*d1*d3**2 - 2*a2*a3*b2*b3*b4*c2*c3**2*d1*d2*d4 + a2*a3*b2*b3*b4*c3**2*c4*d1*d2**2 - a2*a3*b2*b4**2*c1*c2**2*d3*d4**2 + 2*a2*a3*b2*b4**2*c1*c2*c4*d2*d3*d4 - a2*a3*b2*b4**2*c1*c4**2*d2**2*d3 + a2*a3*b2*b4**2*c2**2*c3*d1*d4**2 - 2*a2*a3*b2*b4**2*c2*c3*c4*d1*d2*d4 + a2*a3*b2*b4**2*c3*c4**2*d1*d2**2 + a2*a3*b3*b4**2*c1*c3**2*d2*d4**2 - 2*a2*a3*b3*b4**2*c1*c3*c4*d2*d3*d4 + a2*a3*b3*b4**2*c1*c4**2*d2*d3**2 - a2*a3*b3*b4**2*c2*c3**2*d1*d4**2 + 2*a2*a3*b3*b4**2*c2*c3*c4*d1*d3*d4 - a2*a3*b3*b4**2*c2*c4**2*d1*d3**2 + a2*a4*b2*b3**2*c1*c2**2*d3**2*d4 - 2*a2*a4*b2*b3**2*c1*c2*c3*d2*d3*d4 + a2*a4*b2*b3**2*c1*c3**2*d2**2*d4 - a2*a4*b2*b3**2*c2**2*c4*d1*d3**2 + 2*a2*a4*b2*b3**2*c2*c3*c4*d1*d2*d3 - a2*a4*b2*b3**2*c3**2*c4*d1*d2**2 + a2*a4*b2*b3*b4*c1*c2**2*d3*d4**2 - 2*a2*a4*b2*b3*b4*c1*c2*c3*d2*d4**2 + 2*a2*a4*b2*b3*b4*c1*c3*c4*d2**2*d4 - a2*a4*b2*b3*b4*c1*c4**2*d2**2*d3 + a2*a4*b2*b3*b4*c2**2*c3*d1*d4**2 - 2*a2*a4*b2*b3*b4*c2**2*c4*d1*d3*d4 + 2*a2*a4*b2*b3*b4*c2*c4**2*d1*d2*d3 - a2*a4*b2*b3*b4*c3*c4**2*d1*d2**2 - a2*a4*b3**2*b4*c1*c3**2*d2*d4**2 + 2*a2*a4*b3**2*b4*c1*c3*c4*d2*d3*d4 - a2*a4*b3**2*b4*c1*c4**2*d2*d3**2 + a2*a4*b3**2*b4*c2*c3**2*d1*d4**2 - 2*a2*a4*b3**2*b4*c2*c3*c4*d1*d3*d4 + a2*a4*b3**2*b4*c2*c4**2*d1*d3**2 + a3**2*b2**2*b4*c1*c2**2*d3**2*d4 - a3**2*b2**2*b4*c1*c2*c3*d2*d3*d4 - a3**2*b2**2*b4*c1*c2*c4*d2*d3**2 + a3**2*b2**2*b4*c1*c3*c4*d2**2*d3 - a3**2*b2**2*b4*c2**2*c3*d1*d3*d4 + a3**2*b2**2*b4*c2*c3**2*d1*d2*d4 + a3**2*b2**2*b4*c2*c3*c4*d1*d2*d3 - a3**2*b2**2*b4*c3**2*c4*d1*d2**2 - a3**2*b2*b4**2*c1*c2*c3*d3*d4**2 + a3**2*b2*b4**2*c1*c2*c4*d3**2*d4 + a3**2*b2*b4**2*c1*c3*c4*d2*d3*d4 - a3**2*b2*b4**2*c1*c4**2*d2*d3**2 + a3**2*b2*b4**2*c2*c3**2*d1*d4**2 - a3**2*b2*b4**2*c2*c3*c4*d1*d3*d4 - a3**2*b2*b4**2*c3**2*c4*d1*d2*d4 + a3**2*b2*b4**2*c3*c4**2*d1*d2*d3 - a3*a4*b2**2*b3*c1*c2**2*d3**2*d4 + 2*a3*a4*b2**2*b3*c1*c2*c3*d2*d3*d4 - a3*a4*b2**2*b3*c1*c3**2*d2**2*d4 + a3*a4*b2**2*b3*c2**2*c4*d1*d3**2 - 2*a3*a4*b2**2*b3*c2*c3*c4*d1*d2*d3 + a3*a4*b2**2*b3*c3**2*c4*d1*d2**2 + a3*a4*b2**2*b4*c1*c2**2*d3*d4**2 - 2*a3*a4*b2**2*b4*c1*c2*c4*d2*d3*d4 + a3*a4*b2**2*b4*c1*c4**2*d2**2*d3 - a3*a4*b2**2*b4*c2**2*c3*d1*d4**2 + 2*a3*a4*b2**2*b4*c2*c3*c4*d1*d2*d4 - a3*a4*b2**2*b4*c3*c4**2*d1*d2**2 + 2*a3*a4*b2*b3*b4*c1*c2*c3*d3*d4**2 - 2*a3*a4*b2*b3*b4*c1*c2*c4*d3**2*d4 - a3*a4*b2*b3*b4*c1*c3**2*d2*d4**2 + a3*a4*b2*b3*b4*c1*c4**2*d2*d3**2 - a3*a4*b2*b3*b4*c2*c3**2*d1*d4**2 + a3*a4*b2*b3*b4*c2*c4**2*d1*d3**2 + 2*a3*a4*b2*b3*b4*c3**2*c4*d1*d2*d4 - 2*a3*a4*b2*b3*b4*c3*c4**2*d1*d2*d3 - a4**2*b2**2*b3*c1*c2**2*d3*d4**2 + a4**2*b2**2*b3*c1*c2*c3*d2*d4**2 + a4**2*b2**2*b3*c1*c2*c4*d2*d3*d4 - a4**2*b2**2*b3*c1*c3*c4*d2**2*d4 + a4**2*b2**2*b3*c2**2*c4*d1*d3*d4 - a4**2*b2**2*b3*c2*c3*c4*d1*d2*d4 - a4**2*b2**2*b3*c2*c4**2*d1*d2*d3 + a4**2*b2**2*b3*c3*c4**2*d1*d2**2 - a4**2*b2*b3**2*c1*c2*c3*d3*d4**2 + a4**2*b2*b3**2*c1*c2*c4*d3**2*d4 + a4**2*b2*b3**2*c1*c3**2*d2*d4**2 - a4**2*b2*b3**2*c1*c3*c4*d2*d3*d4 + a4**2*b2*b3**2*c2*c3*c4*d1*d3*d4 - a4**2*b2*b3**2*c2*c4**2*d1*d3**2 - a4**2*b2*b3**2*c3**2*c4*d1*d2*d4 + a4**2*b2*b3**2*c3*c4**2*d1*d2*d3 - b2*c1*d2*x/4 + b2*c2*d1*x/4 - b3*c1*d3*x/4 + b3*c3*d1*x/4 - b4*c1*d4*x/4 + b4*c4*d1*x/4)/(a2**2*b3*b4*c1**2*c3*d2**2*d4 - a2**2*b3*b4*c1**2*c4*d2**2*d3 - 2*a2**2*b3*b4*c1*c2*c3*d1*d2*d4 + 2*a2**2*b3*b4*c1*c2*c4*d1*d2*d3 + a2**2*b3*b4*c2**2*c3*d1**2*d4 - a2**2*b3*b4*c2**2*c4*d1**2*d3 - a2*a3*b2*b4*c1**2*c3*d2**2*d4 + a2*a3*b2*b4*c1**2*c4*d2**2*d3 + 2*a2*a3*b2*b4*c1*c2*c3*d1*d2*d4 - 2*a2*a3*b2*b4*c1*c2*c4*d1*d2*d3 - a2*a3*b2*b4*c2**2*c3*d1**2*d4 + a2*a3*b2*b4*c2**2*c4*d1**2*d3 + a2*a3*b3*b4*c1**2*c2*d3**2*d4 - a2*a3*b3*b4*c1**2*c4*d2*d3**2 - 2*a2*a3*b3*b4*c1*c2*c3*d1*d3*d4 + 2*a2*a3*b3*b4*c1*c3*c4*d1*d2*d3 + a2*a3*b3*b4*c2*c3**2*d1**2*d4 - a2*a3*b3*b4*c3**2*c4*d1**2*d2 + a2*a3*b4**2*c1**2*c2*d3*d4**2 - a2*a3*b4**2*c1**2*c3*d2*d4**2 - 2*a2*a3*b4**2*c1*c2*c4*d1*d3*d4 + 2*a2*a3*b4**2*c1*c3*c4*d1*d2*d4 + a2*a3*b4**2*c2*c4**2*d1**2*d3 - a2*a3*b4**2*c3*c4**2*d1**2*d2 - a2*a4*b2*b3*c1**2*c3*d2**2*d4 + a2*a4*b2*b3*c1**2*c4*d2**2*d3 + 2*a2*a4*b2*b3*c1*c2*c3*d1*d2*d4 - 2*a2*a4*b2*b3*c1*c2*c4*d1*d2*d3 - a2*a4*b2*b3*c2**2*c3*d1**2*d4 + a2*a4*b2*b3*c2**2*c4*d1**2*d3 - a2*a4*b3**2*c1**2*c2*d3**2*d4 + a2*a4*b3**2*c1**2*c4*d2*d3**2 + 2*a2*a4*b3**2*c1*c2*c3*d1*d3*d4 - 2*a2*a4*b3**2*c1*c3*c4*d1*d2*d3 - a2*a4*b3**2*c2*c3**2*d1**2*d4 + a2*a4*b3**2*c3**2*c4*d1**2*d2 - a2*a4*b3*b4*c1**2*c2*d3*d4**2 + a2*a4*b3*b4*c1**2*c3*d2*d4**2 + 2*a2*a4*b3*b4*c1*c2*c4*d1*d3*d4 - 2*a2*a4*b3*b4*c1*c3*c4*d1*d2*d4 - a2*a4*b3*b4*c2*c4**2*d1**2*d3 + a2*a4*b3*b4*c3*c4**2*d1**2*d2 - a3**2*b2*b4*c1**2*c2*d3**2*d4 + a3**2*b2*b4*c1**2*c4*d2*d3**2 + 2*a3**2*b2*b4*c1*c2*c3*d1*d3*d4 - 2*a3**2*b2*b4*c1*c3*c4*d1*d2*d3 - a3**2*b2*b4*c2*c3**2*d1**2*d4 + a3**2*b2*b4*c3**2*c4*d1**2*d2 + a3*a4*b2**2*c1**2*c3*d2**2*d4 - a3*a4*b2**2*c1**2*c4*d2**2*d3 - 2*a3*a4*b2**2*c1*c2*c3*d1*d2*d4 + 2*a3*a4*b2**2*c1*c2*c4*d1*d2*d3 + a3*a4*b2**2*c2**2*c3*d1**2*d4 - a3*a4*b2**2*c2**2*c4*d1**2*d3 + a3*a4*b2*b3*c1**2*c2*d3**2*d4 - a3*a4*b2*b3*c1**2*c4*d2*d3**2 - 2*a3*a4*b2*b3*c1*c2*c3*d1*d3*d4 + 2*a3*a4*b2*b3*c1*c3*c4*d1*d2*d3 + a3*a4*b2*b3*c2*c3**2*d1**2*d4 - a3*a4*b2*b3*c3**2*c4*d1**2*d2 - a3*a4*b2*b4*c1**2*c2*d3*d4**2 + a3*a4*b2*b4*c1**2*c3*d2*d4**2 + 2*a3*a4*b2*b4*c1*c2*c4*d1*d3*d4 - 2*a3*a4*b2*b4*c1*c3*c4*d1*d2*d4 - a3*a4*b2*b4*c2*c4**2*d1**2*d3 + a3*a4*b2*b4*c3*c4**2*d1**2*d2 + a4**2*b2*b3*c1**2*c2*d3*d4**2 - a4**2*b2*b3*c1**2*c3*d2*d4**2 - 2*a4**2*b2*b3*c1*c2*c4*d1*d3*d4 + 2*a4**2*b2*b3*c1*c3*c4*d1*d2*d4 + a4**2*b2*b3*c2*c4**2*d1**2*d3 - a4**2*b2*b3*c3*c4**2*d1**2*d2)  # noqa
             a1 = (a2**2*b1*b3*b4*c1*c3*d2**2*d4 - a2**2*b1*b3*b4*c1*c4*d2**2*d3 - a2**2*b1*b3*b4*c2*c3*d1*d2*d4 + a2**2*b1*b3*b4*c2*c4*d1*d2*d3 - a2**2*b3**2*b4*c2*c3*d2*d3*d4 + a2**2*b3**2*b4*c2*c4*d2*d3**2 + a2**2*b3**2*b4*c3**2*d2**2*d4 - a2**2*b3**2*b4*c3*c4*d2**2*d3 - a2**2*b3*b4**2*c2*c3*d2*d4**2 + a2**2*b3*b4**2*c2*c4*d2*d3*d4 + a2**2*b3*b4**2*c3*c4*d2**2*d4 - a2**2*b3*b4**2*c4**2*d2**2*d3 - a2*a3*b1*b2*b4*c1*c3*d2**2*d4 + a2*a3*b1*b2*b4*c1*c4*d2**2*d3 + a2*a3*b1*b2*b4*c2**2*d1*d3*d4 - 2*a2*a3*b1*b2*b4*c2*c4*d1*d2*d3 + a2*a3*b1*b2*b4*c3*c4*d1*d2**2 + a2*a3*b1*b3*b4*c1*c2*d3**2*d4 - a2*a3*b1*b3*b4*c1*c4*d2*d3**2 - a2*a3*b1*b3*b4*c2*c4*d1*d3**2 - a2*a3*b1*b3*b4*c3**2*d1*d2*d4 + 2*a2*a3*b1*b3*b4*c3*c4*d1*d2*d3 + a2*a3*b1*b4**2*c1*c2*d3*d4**2 - a2*a3*b1*b4**2*c1*c3*d2*d4**2 - a2*a3*b1*b4**2*c2*c4*d1*d3*d4 + a2*a3*b1*b4**2*c3*c4*d1*d2*d4 + a2*a3*b2*b3*b4*c2**2*d3**2*d4 - 2*a2*a3*b2*b3*b4*c2*c4*d2*d3**2 - a2*a3*b2*b3*b4*c3**2*d2**2*d4 + 2*a2*a3*b2*b3*b4*c3*c4*d2**2*d3 + a2*a3*b2*b4**2*c2**2*d3*d4**2 - 2*a2*a3*b2*b4**2*c2*c4*d2*d3*d4 + a2*a3*b2*b4**2*c4**2*d2**2*d3 - a2*a3*b3*b4**2*c3**2*d2*d4**2 + 2*a2*a3*b3*b4**2*c3*c4*d2*d3*d4 - a2*a3*b3*b4**2*c4**2*d2*d3**2 - a2*a4*b1*b2*b3*c1*c3*d2**2*d4 + a2*a4*b1*b2*b3*c1*c4*d2**2*d3 - a2*a4*b1*b2*b3*c2**2*d1*d3*d4 + 2*a2*a4*b1*b2*b3*c2*c3*d1*d2*d4 - a2*a4*b1*b2*b3*c3*c4*d1*d2**2 - a2*a4*b1*b3**2*c1*c2*d3**2*d4 + a2*a4*b1*b3**2*c1*c4*d2*d3**2 + a2*a4*b1*b3**2*c2*c3*d1*d3*d4 - a2*a4*b1*b3**2*c3*c4*d1*d2*d3 - a2*a4*b1*b3*b4*c1*c2*d3*d4**2 + a2*a4*b1*b3*b4*c1*c3*d2*d4**2 + a2*a4*b1*b3*b4*c2*c3*d1*d4**2 - 2*a2*a4*b1*b3*b4*c3*c4*d1*d2*d4 + a2*a4*b1*b3*b4*c4**2*d1*d2*d3 - a2*a4*b2*b3**2*c2**2*d3**2*d4 + 2*a2*a4*b2*b3**2*c2*c3*d2*d3*d4 - a2*a4*b2*b3**2*c3**2*d2**2*d4 - a2*a4*b2*b3*b4*c2**2*d3*d4**2 + 2*a2*a4*b2*b3*b4*c2*c3*d2*d4**2 - 2*a2*a4*b2*b3*b4*c3*c4*d2**2*d4 + a2*a4*b2*b3*b4*c4**2*d2**2*d3 + a2*a4*b3**2*b4*c3**2*d2*d4**2 - 2*a2*a4*b3**2*b4*c3*c4*d2*d3*d4 + a2*a4*b3**2*b4*c4**2*d2*d3**2 - a3**2*b1*b2*b4*c1*c2*d3**2*d4 + a3**2*b1*b2*b4*c1*c4*d2*d3**2 + a3**2*b1*b2*b4*c2*c3*d1*d3*d4 - a3**2*b1*b2*b4*c3*c4*d1*d2*d3 - a3**2*b2**2*b4*c2**2*d3**2*d4 + a3**2*b2**2*b4*c2*c3*d2*d3*d4 + a3**2*b2**2*b4*c2*c4*d2*d3**2 - a3**2*b2**2*b4*c3*c4*d2**2*d3 + a3**2*b2*b4**2*c2*c3*d3*d4**2 - a3**2*b2*b4**2*c2*c4*d3**2*d4 - a3**2*b2*b4**2*c3*c4*d2*d3*d4 + a3**2*b2*b4**2*c4**2*d2*d3**2 + a3*a4*b1*b2**2*c1*c3*d2**2*d4 - a3*a4*b1*b2**2*c1*c4*d2**2*d3 - a3*a4*b1*b2**2*c2*c3*d1*d2*d4 + a3*a4*b1*b2**2*c2*c4*d1*d2*d3 + a3*a4*b1*b2*b3*c1*c2*d3**2*d4 - a3*a4*b1*b2*b3*c1*c4*d2*d3**2 - 2*a3*a4*b1*b2*b3*c2*c3*d1*d3*d4 + a3*a4*b1*b2*b3*c2*c4*d1*d3**2 + a3*a4*b1*b2*b3*c3**2*d1*d2*d4 - a3*a4*b1*b2*b4*c1*c2*d3*d4**2 + a3*a4*b1*b2*b4*c1*c3*d2*d4**2 - a3*a4*b1*b2*b4*c2*c3*d1*d4**2 + 2*a3*a4*b1*b2*b4*c2*c4*d1*d3*d4 - a3*a4*b1*b2*b4*c4**2*d1*d2*d3 + a3*a4*b2**2*b3*c2**2*d3**2*d4 - 2*a3*a4*b2**2*b3*c2*c3*d2*d3*d4 + a3*a4*b2**2*b3*c3**2*d2**2*d4 - a3*a4*b2**2*b4*c2**2*d3*d4**2 + 2*a3*a4*b2**2*b4*c2*c4*d2*d3*d4 - a3*a4*b2**2*b4*c4**2*d2**2*d3 - 2*a3*a4*b2*b3*b4*c2*c3*d3*d4**2 + 2*a3*a4*b2*b3*b4*c2*c4*d3**2*d4 + a3*a4*b2*b3*b4*c3**2*d2*d4**2 - a3*a4*b2*b3*b4*c4**2*d2*d3**2 + a4**2*b1*b2*b3*c1*c2*d3*d4**2 - a4**2*b1*b2*b3*c1*c3*d2*d4**2 - a4**2*b1*b2*b3*c2*c4*d1*d3*d4 + a4**2*b1*b2*b3*c3*c4*d1*d2*d4 + a4**2*b2**2*b3*c2**2*d3*d4**2 - a4**2*b2**2*b3*c2*c3*d2*d4**2 - a4**2*b2**2*b3*c2*c4*d2*d3*d4 + a4**2*b2**2*b3*c3*c4*d2**2*d4 + a4**2*b2*b3**2*c2*c3*d3*d4**2 - a4**2*b2*b3**2*c2*c4*d3**2*d4 - a4**2*b2*b3**2*c3**2*d2*d4**2 + a4**2*b2*b3**2*c3*c4*d2*d3*d4 + b2*d2*x/4 + b3*d3*x/4 + b4*d4*x/4)/(d1*(a2*b3**2*b4*c2*c3*d3*d4 - a2*b3**2*b4*c2*c4*d3**2 - a2*b3**2*b4*c3**2*d2*d4 + a2*b3**2*b4*c3*c4*d2*d3 + a2*b3*b4**2*c2*c3*d4**2 - a2*b3*b4**2*c2*c4*d3*d4 - a2*b3*b4**2*c3*c4*d2*d4 + a2*b3*b4**2*c4**2*d2*d3 + a3*b2**2*b4*c2**2*d3*d4 - a3*b2**2*b4*c2*c3*d2*d4 - a3*b2**2*b4*c2*c4*d2*d3 + a3*b2**2*b4*c3*c4*d2**2 - a3*b2*b4**2*c2*c3*d4**2 + a3*b2*b4**2*c2*c4*d3*d4 + a3*b2*b4**2*c3*c4*d2*d4 - a3*b2*b4**2*c4**2*d2*d3 - a4*b2**2*b3*c2**2*d3*d4 + a4*b2**2*b3*c2*c3*d2*d4 + a4*b2**2*b3*c2*c4*d2*d3 - a4*b2**2*b3*c3*c4*d2**2 - a4*b2*b3**2*c2*c3*d3*d4 + a4*b2*b3**2*c2*c4*d3**2 + a4*b2*b3**2*c3**2*d2*d4 - a4*b2*b3**2*c3*c4*d2*d3))  # noqa
-- 
2.43.0


From 921be7feb7e6602b31b7e83a8ebb5280ebd853e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:17 +0000
Subject: [PATCH 29/37] fix: substituting symbols for spinor components when a
 value is one or minus one

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 5028f1b..a9a9d35 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -240,34 +240,34 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
+                    oP.r_sp_d[0, 0] = ModP(int(oP.r_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[0, 0] = PAdic(int(oP.r_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
+                    oP.r_sp_d[1, 0] = ModP(int(oP.r_sp_d[1, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[1, 0] = PAdic(oP.r_sp_d[1, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[1, 0] = PAdic(int(oP.r_sp_d[1, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
             if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
+                    oP.l_sp_d[0, 0] = ModP(int(oP.l_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 0] = PAdic(int(oP.l_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
+                    oP.l_sp_d[0, 1] = ModP(int(oP.l_sp_d[0, 1]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 1] = PAdic(oP.l_sp_d[0, 1], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 1] = PAdic(int(oP.l_sp_d[0, 1]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
-- 
2.43.0


From 403d65d547de795ed12b5f3b4ae2f1b8c46ec67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:17 +0000
Subject: [PATCH 30/37] fix: changing the field of a point also converts its
 internal masses

---
 lips/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index a9a9d35..6384466 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -76,6 +76,9 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def to_field(self, field):
         for oP in self:
             oP.to_field(field)
+        for mass in self.internal_masses:
+            if not isinstance(getattr(self, mass), str):
+                setattr(self, mass, field(getattr(self, mass)))
         self.field = field
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 545869f9d2c04e299b249730612c116c4202f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:06 +0000
Subject: [PATCH 31/37] fix: residues of p-adic spinor components of positive
 valuation

---
 lips/algebraic_geometry/particles_singular_variety.py | 6 +++---
 lips/particle.py                                      | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lips/algebraic_geometry/particles_singular_variety.py b/lips/algebraic_geometry/particles_singular_variety.py
index 5d385c0..366ee08 100644
--- a/lips/algebraic_geometry/particles_singular_variety.py
+++ b/lips/algebraic_geometry/particles_singular_variety.py
@@ -49,10 +49,10 @@ class Particles_SingularVariety:
 
 def padic_to_finite_field(oParticles):
     # prime, digits = oParticles.field.characteristic, oParticles.field.digits
-    for oParticle in oParticles:
-        oParticle._l_sp_d = numpy.array([[ModP(oParticle.l_sp_d[0, 0]), ModP(oParticle.l_sp_d[0, 1])]], dtype=object)
+    for oParticle in oParticles:   # int(...) since ModP(PAdic) is the residue of the unit part, rather than of the number itself
+        oParticle._l_sp_d = numpy.array([[ModP(int(oParticle.l_sp_d[0, 0]), oParticle.l_sp_d[0, 0].p), ModP(int(oParticle.l_sp_d[0, 1]), oParticle.l_sp_d[0, 1].p)]], dtype=object)
         oParticle._l_sp_d_to_l_sp_u()
-        oParticle.r_sp_d = numpy.array([[ModP(oParticle.r_sp_d[0, 0])], [ModP(oParticle.r_sp_d[1, 0])]], dtype=object)
+        oParticle.r_sp_d = numpy.array([[ModP(int(oParticle.r_sp_d[0, 0]), oParticle.r_sp_d[0, 0].p)], [ModP(int(oParticle.r_sp_d[1, 0]), oParticle.r_sp_d[1, 0].p)]], dtype=object)
     # oParticles.field = Field('finite field', prime, 0)
 
 
diff --git a/lips/particle.py b/lips/particle.py
index 73777d7..677d57f 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -14,6 +14,7 @@ from sympy import NotInvertible
 
 from syngular import Field
 
+from pyadic import PAdic
 from pyadic.field_extension import FieldExtension
 
 from .tools import MinkowskiMetric, LeviCivita, rand_frac, Pauli, Pauli_bar, flatten
@@ -52,9 +53,11 @@ class Particle(object):
             raise Exception('Bad Particle Constructor')
 
     def to_field(self, field):
-        self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)
+        def cast(x):  # the residue of a p-adic integer, rather than that of its unit part
+            return field(int(x)) if isinstance(x, PAdic) and field.name == "finite field" else field(x)
+        self._r_sp_d = numpy.vectorize(cast)(self.r_sp_d)
         self._r_sp_d_to_r_sp_u()
-        self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)
+        self.l_sp_d = numpy.vectorize(cast)(self.l_sp_d)
         self.field = field
 
     def __eq__(self, other):
-- 
2.43.0


From 0ba3c1d13bc0cca9477d133891ab46b7e6e4b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:06 +0000
Subject: [PATCH 32/37] fix: substitution also converts constant spinor
 components of slices to the field

---
 lips/particles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 6384466..8782f78 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -240,7 +240,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[0, 0] = ModP(int(oP.r_sp_d[0, 0]), self.field.characteristic)
@@ -248,7 +248,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.r_sp_d[0, 0] = PAdic(int(oP.r_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[1, 0] = ModP(int(oP.r_sp_d[1, 0]), self.field.characteristic)
@@ -257,7 +257,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
-            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 0] = ModP(int(oP.l_sp_d[0, 0]), self.field.characteristic)
@@ -265,7 +265,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 0] = PAdic(int(oP.l_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 1] = ModP(int(oP.l_sp_d[0, 1]), self.field.characteristic)
-- 
2.43.0


From 7b5629089aa8d3cb9a204271d959f394cb62a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:00 +0000
Subject: [PATCH 33/37] fix: symbolic internal masses that become 1 or -1 can
 be substituted

---
 lips/particles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 8782f78..f727e72 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -277,9 +277,11 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         for mass in self.internal_masses:
             if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
-            if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
+            if isinstance(getattr(self, mass), sympy.Integer):      # sympy's own 1 and -1 are not accepted by the fields
+                setattr(self, mass, int(getattr(self, mass)))
+            if isinstance(getattr(self, mass), (int, ModP)) and self.field.name == "finite field":
                 setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-            elif isinstance(getattr(self, mass), (sympy.Integer, PAdic)) and self.field.name == "padic":
+            elif isinstance(getattr(self, mass), (int, PAdic)) and self.field.name == "padic":
                 setattr(self, mass, PAdic(getattr(self, mass), self.field.characteristic, self.field.digits))
             elif not isinstance(getattr(self, mass), str):
                 setattr(self, mass, sympy.poly(getattr(self, mass), modulus=self.field.characteristic ** self.field.digits).as_expr())
-- 
2.43.0


From 47530117f4a39d71cc7c60344295d95da6192c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 34/37] fix: substitution reaches components and masses that
 are a power of a symbol

---
 lips/particles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index f727e72..8875ec5 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -240,7 +240,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
+            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol, sympy.Integer)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[0, 0] = ModP(int(oP.r_sp_d[0, 0]), self.field.characteristic)
@@ -248,7 +248,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.r_sp_d[0, 0] = PAdic(int(oP.r_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
+            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol, sympy.Integer)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[1, 0] = ModP(int(oP.r_sp_d[1, 0]), self.field.characteristic)
@@ -257,7 +257,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
-            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
+            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol, sympy.Integer)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 0] = ModP(int(oP.l_sp_d[0, 0]), self.field.characteristic)
@@ -265,7 +265,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 0] = PAdic(int(oP.l_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol, sympy.Integer)):
+            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol, sympy.Integer)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 1] = ModP(int(oP.l_sp_d[0, 1]), self.field.characteristic)
@@ -275,7 +275,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
         for mass in self.internal_masses:
-            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
             if isinstance(getattr(self, mass), sympy.Integer):      # sympy's own 1 and -1 are not accepted by the fields
                 setattr(self, mass, int(getattr(self, mass)))
-- 
2.43.0


From 93f3b5fbcd9c302bd23cfcf5fd2983dd961d1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:14 +0000
Subject: [PATCH 35/37] fix: chains with labels of two digits in composite
 expressions

---
 lips/particles_eval.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 7a49491..167e45a 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -101,6 +101,12 @@ pMassiveSBd_SpinIndexu = re.compile(r'\[(\d+)(\^|u)\|')
 pMassiveSBu_SpinIndexu = re.compile(r'\|(\d+)(\^|u)\]')
 
 
+def sub_unparsed(pattern, repl, string):
+    """Substitutes pattern with repl, leaving the already parsed oPs('...') as they are."""
+    return re.sub(r"oPs\('[^']*'\)|" + pattern.pattern,
+                  lambda match: match.group(0) if match.group(1) is None else match.expand(repl), string)
+
+
 def as_scalar_if_scalar(func):
     """Turns numpy arrays with zero dimensions into 'real' scalars."""
     @functools.wraps(func)
@@ -158,14 +164,14 @@ class Particles_Eval:
         string = pDijk_non_adjacent.sub(r"oPs('Δ_\1')", string)
         string = pNB.sub(r"oPs('\1')", string)
         # open index start
-        string = pAu.sub(r"oPs('⟨\1|')", string)
-        string = pAd.sub(r"oPs('|\1⟩')", string)
-        string = pSd.sub(r"oPs('[\1|')", string)
-        string = pSu.sub(r"oPs('|\1]')", string)
-        string = pNB_open_begin.sub(r"oPs('\1')", string)
-        string = pNB_open_end.sub(r"oPs('\1')", string)
-        string = pNB_double_open.sub(r"oPs('\1')", string)
-        string = pNB_double_open_disambiguate_alphadot.sub(r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = sub_unparsed(pAu, r"oPs('⟨\1|')", string)
+        string = sub_unparsed(pAd, r"oPs('|\1⟩')", string)
+        string = sub_unparsed(pSd, r"oPs('[\1|')", string)
+        string = sub_unparsed(pSu, r"oPs('|\1]')", string)
+        string = sub_unparsed(pNB_open_begin, r"oPs('\1')", string)
+        string = sub_unparsed(pNB_open_end, r"oPs('\1')", string)
+        string = sub_unparsed(pNB_double_open, r"oPs('\1')", string)
+        string = sub_unparsed(pNB_double_open_disambiguate_alphadot, r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From fbb30ac51454234392aa0edf8820417cec2e0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:53 +0000
Subject: [PATCH 36/37] fix: spin-index strings with several sums, and as
 factors

Chains starting with a square bracket and a spin index contracted every sum
with the index positions of chains starting with an angle bracket, and chains
between spin indices were not grouped, so that dividing by one or taking a
power acted on their last factor only.
---
 lips/particles_eval.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 167e45a..6c786dc 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -99,12 +99,22 @@ pMassiveSAu_SpinIndexd = re.compile(r'(?:⟨|<)(\d+)(_|d)\|')
 pMassiveSAd_SpinIndexd = re.compile(r'\|(\d+)(_|d)(?:⟩|>)')
 pMassiveSBd_SpinIndexu = re.compile(r'\[(\d+)(\^|u)\|')
 pMassiveSBu_SpinIndexu = re.compile(r'\|(\d+)(\^|u)\]')
+pMassiveChain = re.compile(r'(?:⟨\d+[_d]?|\[\d+[\^u]?)\|(?:[\d\+\-\(\)]+\|)*\d+(?:[_d]?⟩|[\^u]?\])')
 
 
 def sub_unparsed(pattern, repl, string):
     """Substitutes pattern with repl, leaving the already parsed oPs('...') as they are."""
-    return re.sub(r"oPs\('[^']*'\)|" + pattern.pattern,
-                  lambda match: match.group(0) if match.group(1) is None else match.expand(repl), string)
+    def sub_unless_parsed(match):
+        if match.group(1) is None:
+            return match.group(0)
+        return repl(match) if callable(repl) else match.expand(repl)
+    return re.sub(r"oPs\('[^']*'\)|" + pattern.pattern, sub_unless_parsed, string)
+
+
+def chain_from_alphadot(match):
+    """Product of slashed momenta starting from an alpha-dot index, i.e. with the index positions opposite to oPs('|...|')."""
+    slashed = [f"oPs('|{entry}|')" for entry in match.group(1).strip("|").split("|")]
+    return "@".join(f"numpy.transpose(-ϵ @ {entry} @ ϵ)" if i % 2 == 0 else entry for i, entry in enumerate(slashed))
 
 
 def as_scalar_if_scalar(func):
@@ -139,6 +149,7 @@ class Particles_Eval:
         string = re.sub(r"{([\d\|]+)}", r"\1", string)
         string = string.replace("{", "(").replace("}", ")")
         # this needs to be at top because it relies on the rest
+        string = pMassiveChain.sub(lambda match: f"({match.group(0)})" if re.search(r"[_d\^u]", match.group(0)) else match.group(0), string)
         string = pMassiveSAu_SpinIndexd.sub(
             lambda match: f"(ϵ@block([[⟨{int(match.group(1))}|], [⟨{int(match.group(1)) + 1}|]]))[0:1, :]@|", string)
         string = pMassiveSAd_SpinIndexd.sub(
@@ -171,7 +182,7 @@ class Particles_Eval:
         string = sub_unparsed(pNB_open_begin, r"oPs('\1')", string)
         string = sub_unparsed(pNB_open_end, r"oPs('\1')", string)
         string = sub_unparsed(pNB_double_open, r"oPs('\1')", string)
-        string = sub_unparsed(pNB_double_open_disambiguate_alphadot, r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = sub_unparsed(pNB_double_open_disambiguate_alphadot, chain_from_alphadot, string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From 2ab174c2a47585134dd47fcd3538a8e2543ec489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:53 +0000
Subject: [PATCH 37/37] fix: stray quotes in the saved spinors of a phase space
 point

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 8875ec5..ddcf568 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -536,12 +536,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.r_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.r_sp_d[1, 0]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r'Subscript[\[Lambda], ' + str(i) + ',1] = ' + a + ";\n"
             msg += r'Subscript[\[Lambda], ' + str(i) + ',2] = ' + b + ";\n"
@@ -553,12 +553,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.l_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.l_sp_d[0, 1]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",1] = " + a + ";\n"
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",2] = " + b + ";\n"
-- 
2.43.0

