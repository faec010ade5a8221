From 8db4ad272f0c621a6856bd2ef45e3db7c0bda267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 01/21] fix: isym.ts evaluates each constraint at the candidate
 point instead of ignoring it

---
 vts/uni_vts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..fc1cba9 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,7 +777,7 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    sum = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
     if not strategy.condition(sum):
-- 
2.43.0


From 2cbab687d48812bc9586f743c8d7784775f43327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 02/21] fix: decide constraints on the zero polynomial instead
 of failing in root isolation

---
 vts/uni_vts.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index fc1cba9..76f5692 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -62,6 +62,10 @@ def internal_ts(le, lt, eq, ne):
   return boolean corresponding to satisfiability of constraints
   """
   
+  if any(map(is_zero_poly, lt + ne)):
+    return False
+  le, eq = drop_zero_polies(le), drop_zero_polies(eq)
+
   # iterate over all points that might be end points of closed intervals
   for equality in (eq + le):
     roots = z3rcf.MkRoots(equality)
@@ -96,7 +100,18 @@ def internal_ts(le, lt, eq, ne):
   return False
   
   
+def is_zero_poly(poly):
+  return all(map(lambda c: c == 0, poly))
+
+def drop_zero_polies(polies):
+  return filter(lambda poly: not is_zero_poly(poly), polies)
+
 def internal_vts(le, lt, eq, ne):
+  # zero polynomial is = 0 and <= 0 everywhere, and nowhere < 0 or != 0
+  if any(map(is_zero_poly, lt + ne)):
+    return False
+  le, eq = drop_zero_polies(le), drop_zero_polies(eq)
+
   sign_lookup = sign_conditions_lookup(le, lt, eq, ne)
   all_polies = (le + lt + eq + ne)
   # print "internal"
-- 
2.43.0


From a5be03f44cf0a4a0f8af22edb4d475d3ae43f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 03/21] fix: isym.convert turns every zero polynomial into [],
 as documented

---
 vts/isym.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..216b89b 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -19,12 +19,14 @@ def convert(poly):
       return []
     return [poly]
 
+  poly = poly.expand()
+  if poly == 0:
+    return []
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
     return convert_rationals_to_ints([poly])
 
-  poly = poly.expand()
-
   if len(symbols) > 1:
     raise Exception("more than one symbol")
   x = symbols.pop()
-- 
2.43.0


From afe446f8f7bc4ab942caa207a63495d515222e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 04/21] fix: parsing a variable no longer overwrites the
 parser's own globals

---
 vts/grf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..2970a12 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,8 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  # sympy.var would also assign to the global of that name in this module
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From d161ac252c0035f1063d1de77c575f729d409a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 05/21] fix: make_univariate accepts relations that sympy has
 already evaluated to true or false

---
 vts/examples_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..f9ed10d 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -80,6 +80,10 @@ def make_univariate(relations):
   """
   acc = []
   for relation in relations:
+    # sympy has already decided it (eg. 1 <= 2)
+    if not isinstance(relation, sympy.Rel):
+      acc.append(relation)
+      continue
     old_relation = relation.lhs - relation.rhs
     vars = old_relation.free_symbols
     zipped_vars = zip(vars, map(lambda p: x, range(len(vars))))
-- 
2.43.0


From 351261ef9700f48d18395314359c32f607e1fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 06/21] fix: vts_preformat handles relations that sympy has
 evaluated to false

---
 vts/checker.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..322ea66 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -112,10 +112,15 @@ def vts_preformat(uni_ante, uni_succ):
     raise Exception('antecedent or succedent became zero')
   
   
+  # False implies everything, no clause can be satisfiable
+  if any(map(lambda p: p == False, filtered_ante)):
+    return []
+  false_succ = set(filter(lambda p: p == False, filtered_succ))
+
   # rewrite everything > and >= (to < and <=)
   # also negate the succedent
   rewritten_ante = rewrite_to_less(filtered_ante)
-  negated_succ = negate_relations(filtered_succ)
+  negated_succ = negate_relations(filtered_succ - false_succ)
   rewritten_succ = rewrite_to_less(negated_succ)
   
   """print
@@ -132,6 +137,9 @@ def vts_preformat(uni_ante, uni_succ):
     tempList = list(rewritten_ante)
     tempList.append(succ)
     ret.append(tempList)
+  # negated False is True, only the antecedent is left
+  if len(false_succ) > 0:
+    ret.append(list(rewritten_ante))
   return ret
 
 def rewrite_to_less(relations):
-- 
2.43.0


From 5b8dd6213650938298560f86d926caacbb84b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 07/21] fix: check_examples reports false formulas instead of
 failing on them

---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 322ea66..c46e0d7 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From 4b574db8233dd88cc5ad4cd6bd2c9132ebd7abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:19 +0000
Subject: [PATCH 08/21] fix: read pickled examples from the directory they are
 written to

---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index f9ed10d..461b79f 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -94,7 +94,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -131,7 +131,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From c97957172f680195197a6f37432f60ba899f1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:19 +0000
Subject: [PATCH 09/21] fix: an interrupted cache write no longer breaks every
 later run

---
 vts/matrix_of_signs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index 8bcdb07..4698915 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -12,8 +12,13 @@ def write_to_cache(name, obj):
   except OSError as exception:
     if exception.errno != errno.EEXIST:
       raise exception
-  with open(os.path.join('cache', name), 'wb') as f:
+  # written aside and moved into place, so that being interrupted can't leave
+  # a partial file that is later taken for a hit
+  path = os.path.join('cache', name)
+  temp = '%s.%d.tmp' %(path, os.getpid())
+  with open(temp, 'wb') as f:
     pickle.dump(obj, f)
+  os.rename(temp, path)
 def cache_hit(name):
   return os.path.isfile(os.path.join('cache', name))
 def read_cache(name):
-- 
2.43.0


From cd08e37163ef4d754e4d6f828bb41f4db13db8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:13 +0000
Subject: [PATCH 10/21] fix: showing a Cohen-Hormander sign diagram with
 several rows raised TypeError

---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..6ed2869 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -614,7 +614,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From 7c6ec200011f870bbb76d2e8d2abd1210180c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:23 +0000
Subject: [PATCH 11/21] fix: Cohen-Hormander elimination lost cases where an
 input polynomial's leading coefficient vanishes

---
 highschool_qe/cohenhorm.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 6ed2869..a00db53 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -25,7 +25,19 @@ class CohenHormander:
     polynomials that are: ( < 0, == 0, > 0)
     """
     polys = lesser + equalities + greater
-    contexted_tables = self._real_table(polys, {})
+    # an empty conjunction is true
+    if len(polys) == 0:
+      return [([], [], [])]
+
+    # the leading coefficients of the input can vanish, so assign signs to
+    # them first and continue with the polynomials that are left
+    contexted_tables = []
+    for (con, pols, mpg) in self.expand_context({}, polys, {}):
+      nonzero = filter(lambda p: self._algebra.degree(p) >= 0, pols)
+      for (table, table_con) in self._real_table(nonzero, con):
+        cond_table = self.copy_table(table, pols, table_con)
+        contexted_tables.append(
+          (self.table_map_back(cond_table, polys, mpg), table_con))
     print
     
     # determine which whether diagrams satisify input conditions
@@ -73,15 +85,16 @@ class CohenHormander:
     
     return -- tuple of sign diagram and context
     """
+    # only zero polynomials are left, they are zero everywhere
     if len(polys) == 0:
-      return {}
+      return self.get_initial_table(self._algebra.zero(), context)
       
     # sort polynomials by their degrees  
     set = sortedset(polys, key = lambda p: - self._algebra.degree(p))
     # pick the next polynomial (which is of maximum degree)
     max_poly = set.pop(0)
     
-    sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
+    sys.stdout.write("\rdeg of max_poly: %s" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
     derivative = self._algebra.derivative(max_poly)
-- 
2.43.0


From dee89283bd69a8d0d65fef1c5d056c1bdc202c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 12/21] fix: promoted equations no longer reduce each other
 away

RCF_Goal.add_goal_hyp simplified the earlier goal hypotheses by a new equation
and then the new equation by the earlier ones, so that two equations with a
common consequence could both become 0 = 0.
---
 GRF/grf.sage | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..e31e877 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -204,8 +204,10 @@ class RCF_Goal(RCF):
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
+            elif self.gb != []:
+                # Simplify new gb using current goal_hyps. We must not do
+                # this to an equation, as the equations in goal_hyps have
+                # just been simplified using it.
                 gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
-- 
2.43.0


From ba93335168e634e9ece239e517ccd7fda98cb9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 13/21] fix: an atom reduced by a Groebner basis knows its new
 variables

Evaluating it at a partial point compared a polynomial with free variables
with 0.
---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index e31e877..d19f68b 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = new_poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From 2aab2763bfb3c9654972522caa774e80742783e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 14/21] fix: isolate all roots of polynomials that also have a
 rational root

iso_root_intvls dropped the irrational roots of every polynomial with a
rational root, and its intervals could overlap.
---
 GRF/grf.sage | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index d19f68b..1b5387f 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -444,19 +444,23 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
             prod = 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
+                prod = prod * p
+            rri = prod.real_root_intervals()
+            easy_roots = [a for (a, m) in prod.roots()]
             #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+            #print "easy_roots:", easy_roots
+            # Every interval isolates one root of the product. If this
+            # root is rational, then we replace its interval by the root.
+            out = []
+            for ((l, u), m) in rri:
+                for a in easy_roots:
+                    if l <= a and a <= u:
+                        l, u = a, a
+                        break
+                out.append(((l, u), m))
+            return out
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From 18a02f4348b7cd959efa7ab088ac407970d3056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 15/21] fix: project irreducible factors, so that resultants
 and discriminants do not vanish

bm_proj lost cell boundaries when polynomials had common or multiple factors.
---
 GRF/grf.sage | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 1b5387f..5cf2d8d 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -356,7 +356,10 @@ class QE_Factory(RCF):
 
     def bm_proj(self, i):
         x_to_elim = self.proj_ord[i]
-        ps = set(self.proj_sets[i])
+        # We must project the irreducible factors of the polynomials, as
+        # resultants of polynomials with a common factor and discriminants
+        # of polynomials with a multiple factor vanish.
+        ps = set([f for p in self.proj_sets[i] for (f, m) in p.factor()])
         if len(ps) > 1:
             resultants = [Singular.MPolynomial_libsingular.resultant(p1, p2, x_to_elim)
                           for p1 in ps for p2 in ps if p1 != p2]
@@ -376,10 +379,7 @@ class QE_Factory(RCF):
 
     #
     # The projection phase: Compute a full (filtered) Brown-McCallum
-    # hierarchy of projection sets, bound to self.proj_sets.  Note
-    # that we currently don't compute projection factor sets, only
-    # projection sets.  (This affects neither completeness nor
-    # soundness, only efficiency.)
+    # hierarchy of projection sets, bound to self.proj_sets.
     #
 
     def projection_phase(self):
-- 
2.43.0


From 799afc147c7dd5b7285a81dbd2802df15278a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 16/21] fix: stack_over_cell accepts having no goal

check_conj_strict calls it without one.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 5cf2d8d..c2f526b 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -639,7 +639,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From eea769e668826768a1f3523a3a012db7c2490bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 17/21] fix: keep the empty bad subset

good_hyps failed with an IndexError when no hypothesis is true where the goal
fails, as in valid sequents with one hypothesis.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index c2f526b..a17f710 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -880,7 +880,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 74ba9955de7420de11dd2b6ccd81c41434d17bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 18/21] fix: hide_antecedent names formulas of the given
 antecedent only

The negated succedents that perform_grf adds to it got indices of their own.
---
 GRF/smt2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..d661874 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,10 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        # The negated succedents added to the antecedent below are hidden as
+        # members of the succedent.
+        original_antecedent = self.antecedent
+
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +172,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in original_antecedent:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From dd18b454b491ae9651ece5d016c2d53a01f29c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 19/21] fix: local search does not reuse the variable order of
 an earlier problem

---
 GRF/local_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..df5c040 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -44,7 +44,8 @@ class VarOrder:
     order = None
     @staticmethod
     def var_order(D):
-        if not VarOrder.order:
+        # Every problem has variables of its own
+        if not VarOrder.order or set(VarOrder.order) != set(D.keys()):
             VarOrder.order = D.keys()
         return VarOrder.order
     @staticmethod
-- 
2.43.0


From 801bf7f92ee25cb50929c7a152531e967ca9e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:31 +0000
Subject: [PATCH 20/21] fix: complex_partial works with its default assignment

---
 highschool_qe/muchnik.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highschool_qe/muchnik.py b/highschool_qe/muchnik.py
index 2c0a36b..5ec49ee 100644
--- a/highschool_qe/muchnik.py
+++ b/highschool_qe/muchnik.py
@@ -359,7 +359,7 @@ class Muchniker:
       diagram[p][column] = (0, p)
     return self.complex_extend(diagram, todo)
 
-  def complex_partial(self, ps, assigner = c_assignment_interactive):
+  def complex_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over complexes
     
     Keyword arguments:
@@ -368,6 +368,8 @@ class Muchniker:
                 Either c_assignment_all_zero, c_assigment_all_one or
                 c_assigment_interactive
     """
+    if assigner is None:
+      assigner = self.c_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), ps)
     
-- 
2.43.0


From 3eeaebc3cd25db87ac82126b07462703220469ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:31 +0000
Subject: [PATCH 21/21] fix: real_partial works with its default assignment

---
 highschool_qe/muchnik.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highschool_qe/muchnik.py b/highschool_qe/muchnik.py
index 5ec49ee..cd94044 100644
--- a/highschool_qe/muchnik.py
+++ b/highschool_qe/muchnik.py
@@ -628,7 +628,7 @@ class Muchniker:
         diagram[q][right_new_col] = diagram[q][col]
     return self.real_extend(diagram, todo)
 
-  def real_partial(self, ps, assigner = r_assignment_interactive):
+  def real_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over reals
     
     Keyword arguments:
@@ -637,6 +637,8 @@ class Muchniker:
                 Either r_assignment_all_pos, r_assigment_all_zero, 
                 r_assignment_all_neg or r_assigment_interactive
     """
+    if assigner is None:
+      assigner = self.r_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), 
       ps
-- 
2.43.0

