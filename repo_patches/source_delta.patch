From 4d3b6811bb9443695a7e5c3a061ef994b7ba239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 01/39] fix: pow(pow(x, y), c) reads a non-constant exponent as
 a constant

---
 .../dreal/symbolic/symbolic_expression.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..ba68ff0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,11 +729,13 @@ Expression pow(const Expression& e1, const Expression& e2) {
     //
     // only if both of exponent and e2 are integers.
     const Expression& exponent{get_second_argument(e1)};
-    const double v1{get_constant_value(exponent)};
-    const double v2{get_constant_value(e2)};
-    if (is_integer(v1) && is_integer(v2)) {
-      const Expression& base{get_first_argument(e1)};
-      return Expression{new ExpressionPow(base, v1 * v2)};
+    if (is_constant(exponent)) {
+      const double v1{get_constant_value(exponent)};
+      const double v2{get_constant_value(e2)};
+      if (is_integer(v1) && is_integer(v2)) {
+        const Expression& base{get_first_argument(e1)};
+        return Expression{new ExpressionPow(base, v1 * v2)};
+      }
     }
   }
   return Expression{new ExpressionPow(e1, e2)};
-- 
2.43.0


From 33f2a90220f32216c904cb7c2e1bd780cb7d3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 02/39] fix: (x^2)^0.5 is merged into x^1 inside products

---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From 5042b061dad2621b1fbfd38b469d4de33417820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 03/39] fix: pow of a negative base rejects integral exponents
 beyond the range of int

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..7e2b50e 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1453,7 +1453,10 @@ ExpressionPow::ExpressionPow(const Expression& e1, const Expression& e2)
                            determine_polynomial(e1, e2)} {}
 
 void ExpressionPow::check_domain(const double v1, const double v2) {
-  if (std::isfinite(v1) && (v1 < 0.0) && std::isfinite(v2) && !is_integer(v2)) {
+  // Note that is_integer() does not consider numbers outside of the range of int
+  // as integers.
+  if (std::isfinite(v1) && (v1 < 0.0) && std::isfinite(v2) &&
+      std::trunc(v2) != v2) {
     ostringstream oss;
     oss << "pow(" << v1 << ", " << v2
         << ") : numerical argument out of domain. " << v1
-- 
2.43.0


From 03c41849f59d562dc8e87225fa5ceca6615378a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 04/39] fix: substitution drops the unsubstituted arguments of
 an uninterpreted function

---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 7e2b50e..1c284ac 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2142,10 +2142,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars += var;
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars += var;
       }
     }
   }
-- 
2.43.0


From d4c8bdcbb0d38b4125511cb1932d05ebb7c5cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 05/39] fix: e += e and e *= e lose one of the operands when e
 is a sum or a product

---
 .../dreal/symbolic/symbolic_expression.cc                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index ba68ff0..d12731c 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Note that rhs can be an alias of lhs (i.e. e += e and e *= e).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,8 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    // Note that rhs can be an alias of lhs (i.e. e += e and e *= e).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From f79ddfb51838dd2793e77a4a5f38b81367744229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 06/39] fix: a product evaluates a power of a negative base
 with a fractional exponent to NaN

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 ++++-
 .../dreal/symbolic/symbolic_expression_cell.h                | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 1c284ac..11d8b33 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -845,7 +845,10 @@ double ExpressionMul::Evaluate(const Environment& env) const {
   return accumulate(
       base_to_exponent_map_.begin(), base_to_exponent_map_.end(), constant_,
       [&env](const double init, const pair<const Expression, Expression>& p) {
-        return init * std::pow(p.first.Evaluate(env), p.second.Evaluate(env));
+        const double base{p.first.Evaluate(env)};
+        const double exponent{p.second.Evaluate(env)};
+        ExpressionPow::check_domain(base, exponent);
+        return init * std::pow(base, exponent);
       });
 }
 
diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
index 72b6c64..d73197e 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
@@ -624,6 +624,9 @@ class ExpressionPow : public BinaryExpressionCell {
 
   friend Expression pow(const Expression& e1, const Expression& e2);
 
+  // ExpressionMul evaluates the powers that it holds.
+  friend class ExpressionMul;
+
  private:
   /* Throws std::domain_error if v1 is finite negative and v2 is finite
      non-integer. */
-- 
2.43.0


From f04d5ee2a6ab60d836d10255fdeadb2cf0de9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 07/39] fix: expanding an expression aborts when dividing
 introduced like terms

---
 .../dreal/symbolic/symbolic_expression_cell.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 11d8b33..abb03d7 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -129,12 +129,10 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
                                 const Expression& e3);
 
 // Helper function expanding (e1 * e2). It assumes that both of e1 and e2 are
-// already expanded.
+// results of Expand(). Note that it does not imply `e1.EqualTo(e1.Expand())`
+// because expanding an expression including divisions can introduce a term
+// which is expandable (i.e. like terms `x / 10` and `x`).
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
-  // Precondition: e1 and e2 are already expanded.
-  assert(e1.EqualTo(e1.Expand()));
-  assert(e2.EqualTo(e2.Expand()));
-
   if (is_addition(e1)) {
     //   (c0 + c1 * e_{1,1} + ... + c_n * e_{1, n}) * e2
     // = c0 * e2 + c1 * e_{1,1} * e2 + ... + c_n * e_{1,n} * e2
@@ -196,10 +194,9 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
   return ExpandMultiplication(ExpandMultiplication(e1, e2), e3);
 }
 
-// Helper function expanding pow(base, n). It assumes that base is expanded.
+// Helper function expanding pow(base, n). It assumes that base is a result of
+// Expand().
 Expression ExpandPow(const Expression& base, const int n) {
-  // Precondition: base is already expanded.
-  assert(base.EqualTo(base.Expand()));
   assert(n >= 1);
   if (n == 1) {
     return base;
@@ -214,11 +211,8 @@ Expression ExpandPow(const Expression& base, const int n) {
 }
 
 // Helper function expanding pow(base, exponent). It assumes that both of base
-// and exponent are already expanded.
+// and exponent are results of Expand().
 Expression ExpandPow(const Expression& base, const Expression& exponent) {
-  // Precondition: base and exponent are already expanded.
-  assert(base.EqualTo(base.Expand()));
-  assert(exponent.EqualTo(exponent.Expand()));
   // Expand if
   //     1) base is an addition expression and
   //     2) exponent is a positive integer.
-- 
2.43.0


From e583d040b228ae6723a9a57f9d1de68e9c3347d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 08/39] fix: expanding a power of a product leaves it
 unexpanded

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index abb03d7..e7b06ac 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -214,9 +214,10 @@ Expression ExpandPow(const Expression& base, const int n) {
 // and exponent are results of Expand().
 Expression ExpandPow(const Expression& base, const Expression& exponent) {
   // Expand if
-  //     1) base is an addition expression and
+  //     1) base is an addition or a multiplication expression and
   //     2) exponent is a positive integer.
-  if (!is_addition(base) || !is_constant(exponent)) {
+  if (!(is_addition(base) || is_multiplication(base)) ||
+      !is_constant(exponent)) {
     return pow(base, exponent);
   }
   const double e{get_constant_value(exponent)};
-- 
2.43.0


From 651cf5404c7f9d3845c0706f63eaa0392d889750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 09/39] fix: erasing a variable set from itself reads freed
 memory

---
 .../dreal/symbolic/symbolic_variables.cc                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..430a0f2 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -40,6 +40,12 @@ string Variables::to_string() const {
 
 Variables::size_type Variables::erase(const Variables& vars) {
   size_type num_of_erased_elements{0};
+  if (&vars == this) {
+    // Do not iterate over the set while erasing its elements.
+    num_of_erased_elements = vars_.size();
+    vars_.clear();
+    return num_of_erased_elements;
+  }
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
   }
-- 
2.43.0


From b0062a4c1ba1a22cefb5518b2720f4b2011a86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 10/39] fix: the order of interval constants disagrees with
 their equality

---
 .../dreal/symbolic/symbolic_expression_cell.cc              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index e7b06ac..df3db7e 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -12,6 +12,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <tuple>
 #include <utility>
 
 #include "dreal/symbolic/hash.h"
@@ -442,8 +443,9 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  return std::tie(lb_, ub_, use_lb_as_representative_) <
+         std::tie(r.lb_, r.ub_, r.use_lb_as_representative_);
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From d22ad49203c51720cc114453907e0f18c3d798dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:38 +0000
Subject: [PATCH 11/39] fix: delta-strengthening changes which branch of an
 if-then-else is taken

---
 dreal/symbolic/symbolic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..6ceab85 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -265,7 +265,9 @@ class DeltaStrengthenVisitor {
                Visit(get_second_argument(e), delta));
   }
   Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
+    // The condition selects a branch rather than asserting anything. It has to
+    // stay as it is since strengthening it would select the other branch.
+    return if_then_else(get_conditional_formula(e),
                         Visit(get_then_expression(e), delta),
                         Visit(get_else_expression(e), delta));
   }
-- 
2.43.0


From 95ece9235803b5fe2b3c32487dbcd6403978b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:38 +0000
Subject: [PATCH 12/39] fix: a negated quantified formula is not accepted as a
 literal of a clause

---
 dreal/symbolic/symbolic.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index 6ceab85..79c0cc2 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -91,12 +91,19 @@ bool is_atomic(const Formula& f) {
   DREAL_UNREACHABLE();
 }
 
+namespace {
+// A literal is an atomic formula or the negation of one.
+bool is_literal(const Formula& f) {
+  return is_atomic(f) || (is_negation(f) && is_atomic(get_operand(f)));
+}
+}  // namespace
+
 bool is_clause(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
   if (is_negation(f)) {
-    return is_atomic(get_operand(f));
+    return is_literal(f);
   }
   if (is_conjunction(f)) {
     return false;
@@ -105,7 +112,7 @@ bool is_clause(const Formula& f) {
     const auto& operands = get_operands(f);
     const bool result{
         all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+               [](const Formula& formula) { return is_literal(formula); })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,7 +136,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From 69123d560de18f117e651a3012fa470d0d6dce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 13/39] fix: definitional CNF fails on quantified formulas with
 clauses free of the quantified variables

---
 dreal/util/tseitin_cnfizer.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..a0957a4 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -74,6 +74,7 @@ void CnfizeConjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
 void CnfizeDisjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
+void AddIff(const Formula& f1, const Formula& f2, vector<Formula>* clauses);
 }  // namespace
 
 // The main function of the TseitinCnfizer:
@@ -133,12 +134,15 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this,
+                             &quantified_variables](const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // The clause leaves the quantifier and becomes an operand of the
+          // enclosing formula, which has to be a literal.
+          return this->Visit(clause);
         }
       })};
 
@@ -195,26 +199,19 @@ namespace {
 // pattern-matching.
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses) {
   switch (f.get_kind()) {
+    // The operands of a conjunction (or disjunction) may coincide or cancel
+    // after the transformation, which leaves a literal or a truth constant.
     case FormulaKind::False:
-      DREAL_UNREACHABLE();
     case FormulaKind::True:
-      DREAL_UNREACHABLE();
     case FormulaKind::Var:
-      DREAL_UNREACHABLE();
     case FormulaKind::Eq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Neq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Gt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Geq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Lt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Leq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Forall:
-      DREAL_UNREACHABLE();
+      return AddIff(Formula{b}, f, clauses);
     case FormulaKind::And:
       return CnfizeConjunction(b, f, clauses);
     case FormulaKind::Or:
-- 
2.43.0


From 4b2ba271dc88dc28006dfe48df49bafb73ca4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 14/39] fix: ScopedVector::operator< compares lexicographically
 and within bounds

---
 dreal/util/scoped_vector.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dreal/util/scoped_vector.h b/dreal/util/scoped_vector.h
index 4b3b747..408e7d2 100644
--- a/dreal/util/scoped_vector.h
+++ b/dreal/util/scoped_vector.h
@@ -102,12 +102,7 @@ class ScopedVector {
   reference operator[](size_type n) { return vector_[n]; }
   const_reference operator[](size_type n) const { return vector_[n]; }
   bool operator<(ScopedVector<T> const& v) const {
-    for (size_t i = 0; i < vector_.size(); i++) {
-      if (vector_[i] < v.vector_[i]) {
-        return true;
-      }
-    }
-    return false;
+    return vector_ < v.vector_;
   }
   vector get_reverse() const {
     vector tmp = vector_;
-- 
2.43.0


From 6eede3d5ed396660e34ff4ff398d78bf4d9d5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 15/39] fix: get_extension ignores dots in directory names

---
 dreal/util/filesystem.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/util/filesystem.cc b/dreal/util/filesystem.cc
index 68cedeb..5e61b08 100644
--- a/dreal/util/filesystem.cc
+++ b/dreal/util/filesystem.cc
@@ -29,7 +29,9 @@ bool file_exists(const string& name) {
 
 string get_extension(const string& name) {
   const auto idx = name.rfind('.');
-  if (idx != string::npos) {
+  const auto slash = name.rfind('/');
+  // A dot in a directory name does not start an extension.
+  if (idx != string::npos && (slash == string::npos || slash < idx)) {
     return name.substr(idx + 1);
   } else {
     // No extension found
-- 
2.43.0


From 189c3a8f9219d1a7acc1a6100adf335785d2da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 16/39] fix: Term::Substitute refuses a replacement of the
 wrong kind

---
 dreal/smt2/term.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dreal/smt2/term.cc b/dreal/smt2/term.cc
index 6d27af2..d9c2b74 100644
--- a/dreal/smt2/term.cc
+++ b/dreal/smt2/term.cc
@@ -65,9 +65,9 @@ Term Term::Substitute(const Variable& v, const Term& t) {
         case Variable::Type::CONTINUOUS:
         case Variable::Type::INTEGER:
         case Variable::Type::BINARY:
-          return Term{f_.Substitute(v, t.e_)};
+          return Term{f_.Substitute(v, t.expression())};
         case Variable::Type::BOOLEAN:
-          return Term{f_.Substitute(v, t.f_)};
+          return Term{f_.Substitute(v, t.formula())};
       }
       DREAL_UNREACHABLE();
     }
@@ -76,9 +76,9 @@ Term Term::Substitute(const Variable& v, const Term& t) {
         case Variable::Type::CONTINUOUS:
         case Variable::Type::INTEGER:
         case Variable::Type::BINARY:
-          return Term{e_.Substitute(v, t.e_)};
+          return Term{e_.Substitute(v, t.expression())};
         case Variable::Type::BOOLEAN:
-          return Term{e_.Substitute({}, {{v, t.f_}})};
+          return Term{e_.Substitute({}, {{v, t.formula()}})};
       }
       DREAL_UNREACHABLE();
     }
-- 
2.43.0


From e822ed11700609fddeef594619d666aad5005d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 17/39] fix: normal-form converters draw fresh names race-free

---
 dreal/util/if_then_else_eliminator.cc | 3 ++-
 dreal/util/tseitin_cnfizer.cc         | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreal/util/if_then_else_eliminator.cc b/dreal/util/if_then_else_eliminator.cc
index ccf7f9d..1eed349 100644
--- a/dreal/util/if_then_else_eliminator.cc
+++ b/dreal/util/if_then_else_eliminator.cc
@@ -26,6 +26,7 @@
 #include "dreal/util/stat.h"
 #include "dreal/util/timer.h"
 
+using std::atomic;
 using std::cout;
 using std::set;
 using std::to_string;
@@ -225,7 +226,7 @@ Expression IfThenElseEliminator::VisitMax(const Expression& e,
 
 Expression IfThenElseEliminator::VisitIfThenElse(const Expression& e,
                                                  const Formula& guard) {
-  static int counter{0};
+  static atomic<int> counter{0};
   const Variable new_var{"ITE" + to_string(counter++),
                          Variable::Type::CONTINUOUS};
   ite_variables_.insert(new_var);
diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index a0957a4..8caf8b9 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -30,6 +30,7 @@
 
 namespace dreal {
 
+using std::atomic;
 using std::cout;
 using std::set;
 using std::string;
@@ -150,7 +151,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   if (new_clauses.size() == 1) {
     return *(new_clauses.begin());
   } else {
-    static size_t id{0};
+    static atomic<size_t> id{0};
     const Variable bvar{string("forall") + to_string(id++),
                         Variable::Type::BOOLEAN};
     map_.emplace(bvar, make_conjunction(new_clauses));
@@ -161,7 +162,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
 Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
   // Introduce a new Boolean variable, `bvar` for `f` and record the
   // relation `bvar ⇔ f`.
-  static size_t id{0};
+  static atomic<size_t> id{0};
   const set<Formula> transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
@@ -172,7 +173,7 @@ Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
 }
 
 Formula TseitinCnfizer::VisitDisjunction(const Formula& f) {
-  static size_t id{0};
+  static atomic<size_t> id{0};
   const set<Formula>& transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
-- 
2.43.0


From 53635041a5f335ab4275ccc9cee6bb4d12b95de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 18/39] fix: thread identifiers of pool workers are 1..N
 whoever owns the pool

---
 .../ThreadPool/ThreadPool.cc                  |  1 +
 .../ThreadPool/ThreadPool.h                   | 22 ++++++++-----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc
index 3048f60..6a05e7e 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc
@@ -1,3 +1,4 @@
 #include "ThreadPool/ThreadPool.h"
 
 std::atomic<int> ThreadPool::global_thread_id_index_;
+thread_local int ThreadPool::thread_id_{0};
diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index d9b7cfa..400e8ce 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -20,12 +20,10 @@ class ThreadPool {
       -> std::future<typename std::result_of<F(Args...)>::type>;
   ~ThreadPool();
 
-  // Returns the thread ID.
+  // Returns the thread ID: 1, ..., N for the N workers of a pool, and 0 for a
+  // thread which is not a worker.
   // Added by Soonho Kong
-  static int get_thread_id() {
-    thread_local const int tid{global_thread_id_index_++};
-    return tid;
-  }
+  static int get_thread_id() { return thread_id_; }
 
  private:
   // need to keep track of threads so we can join them
@@ -40,16 +38,18 @@ class ThreadPool {
   bool stop;
 
   // Added by Soonho Kong
+  static thread_local int thread_id_;
+
+  // No longer used. It is kept for object files which were compiled against the
+  // previous inline functions of this class.
   static std::atomic<int> global_thread_id_index_;
 };
 
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
-  // To make sure that the thread that created this pool gets the ID 0.
-  get_thread_id();
-
   for (size_t i = 0; i < threads; ++i)
-    workers.emplace_back([this] {
+    workers.emplace_back([this, i] {
+      thread_id_ = static_cast<int>(i) + 1;
       for (;;) {
         std::function<void()> task;
 
@@ -97,10 +97,6 @@ inline ThreadPool::~ThreadPool() {
   }
   condition.notify_all();
   for (std::thread& worker : workers) worker.join();
-
-  // Reset to 1 instead of 0 since 0 is preserved for the main thread.
-  // Added by Soonho Kong
-  global_thread_id_index_ = 1;
 }
 
 #endif
-- 
2.43.0


From bc079adec08cc07b997769af9466b4d7b36865db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 19/39] fix: printing sums and products keeps the stream's
 precision and prints all digits

---
 .../symbolic/symbolic_expression_cell.cc      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index df3db7e..5ba5506 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -43,6 +43,13 @@ using std::setprecision;
 using std::string;
 
 namespace {
+// Prints @p c in full precision without changing the precision of @p os.
+ostream& DisplayConstant(ostream& os, const double c) {
+  ostringstream oss;
+  oss << setprecision(numeric_limits<double>::max_digits10) << c;
+  return os << oss.str();
+}
+
 bool is_integer(const double v) {
   // v should be in [int_min, int_max].
   if (!((numeric_limits<int>::lowest() <= v) &&
@@ -414,9 +421,7 @@ Expression ExpressionConstant::Differentiate(const Variable&) const {
 }
 
 ostream& ExpressionConstant::Display(ostream& os) const {
-  ostringstream oss;
-  oss << setprecision(numeric_limits<double>::max_digits10) << v_;
-  return os << oss.str();
+  return DisplayConstant(os, v_);
 }
 
 ExpressionRealConstant::ExpressionRealConstant(const double lb, const double ub,
@@ -626,7 +631,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -647,13 +652,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      DisplayConstant(os, coeff) << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      DisplayConstant(os, -coeff) << " * ";
     }
   }
   os << term;
@@ -922,7 +927,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From 1c47859691748086244344631536e70698e9bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 20/39] fix: a strict upper bound excludes only the bound
 itself

---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From 381554b79100521002c7278c65d35ec81b2a8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 21/39] fix: a sequence of identity contractors is the identity
 contractor

---
 dreal/contractor/contractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor.cc b/dreal/contractor/contractor.cc
index e46bcc6..752f4ff 100644
--- a/dreal/contractor/contractor.cc
+++ b/dreal/contractor/contractor.cc
@@ -133,7 +133,12 @@ Contractor make_contractor_integer(const Box& box, const Config& config) {
 
 Contractor make_contractor_seq(const vector<Contractor>& contractors,
                                const Config& config) {
-  return Contractor{make_shared<ContractorSeq>(Flatten(contractors), config)};
+  vector<Contractor> ctcs{Flatten(contractors)};
+  if (ctcs.empty()) {
+    return make_contractor_id(config);
+  } else {
+    return Contractor{make_shared<ContractorSeq>(std::move(ctcs), config)};
+  }
 }
 
 Contractor make_contractor_ibex_fwdbwd(Formula f, const Box& box,
-- 
2.43.0


From 2acd789f443308ca8e1a36b0f52c61004ae97588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 22/39] fix: the work-list contractor checks its termination
 condition after each pass

---
 dreal/contractor/contractor_worklist_fixpoint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dreal/contractor/contractor_worklist_fixpoint.cc b/dreal/contractor/contractor_worklist_fixpoint.cc
index bd627a2..7c8d63c 100644
--- a/dreal/contractor/contractor_worklist_fixpoint.cc
+++ b/dreal/contractor/contractor_worklist_fixpoint.cc
@@ -136,7 +136,8 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
   do {
     DynamicBitset::size_type ctc_idx = worklist.find_first();
     old_iv = iv;
-    while (true) {
+    // Go over the worklist once, then check the termination condition.
+    while (ctc_idx != DynamicBitset::npos) {
       worklist.set(ctc_idx, false);
       cs->mutable_output().reset();
       contractors_[ctc_idx].Prune(cs);
@@ -148,9 +149,6 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
         return;
       }
       ctc_idx = worklist.find_next(ctc_idx);
-      if (ctc_idx == DynamicBitset::npos) {
-        ctc_idx = worklist.find_first();
-      }
     }
   } while (!term_cond_(old_iv, iv));
 }
-- 
2.43.0


From bbd3c28db253665e3f4cd52b6028ce9bf12b76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 23/39] fix: literals with a leading plus sign are converted

---
 dreal/util/string_to_interval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..72034c8 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -29,7 +29,8 @@ Box::Interval StringToInterval(const string& s) {
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
   } else {
-    lb = -stod("-" + s);
+    // A leading '+' is dropped, "-+1.5" is not a number.
+    lb = -stod("-" + (s[0] == '+' ? s.substr(1) : s));
   }
   return Box::Interval{lb, ub};
 }
-- 
2.43.0


From e491b67b08c45185a08f4f67256d3315edcf55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 24/39] fix: integer variables have integral bounds before
 branching

---
 dreal/solver/theory_solver.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..5e26853 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -216,12 +216,17 @@ optional<Contractor> TheorySolver::BuildContractor(
       DREAL_LOG_TRACE("TheorySolver::BuildContractor: CTCS = empty");
     }
   }
-  if (config_.use_worklist_fixpoint()) {
-    return make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
-                                             config_);
-  } else {
-    return make_contractor_fixpoint(DefaultTerminationCondition, ctcs, config_);
-  }
+  const Contractor fixpoint{
+      config_.use_worklist_fixpoint()
+          ? make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
+                                              config_)
+          : make_contractor_fixpoint(DefaultTerminationCondition, ctcs,
+                                     config_)};
+  // A fixed-point computation may stop right after a contractor left a
+  // non-integral bound on an integer variable. The brancher and the returned
+  // model need integral ones.
+  return make_contractor_seq({fixpoint, make_contractor_integer(box, config_)},
+                             config_);
 }
 
 vector<FormulaEvaluator> TheorySolver::BuildFormulaEvaluator(
-- 
2.43.0


From 6eb62d404d82ef8cf6cc66ee1bb1dd04e713f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 25/39] fix: models assign integral values to integer and
 binary variables

---
 dreal/solver/context_impl.cc | 26 +++++++++++++++++++-------
 dreal/solver/context_impl.h  |  5 +++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..e4885fb 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -52,8 +52,10 @@ namespace {
 void Tighten(Box* box, const double delta) {
   for (int i = 0; i < box->size(); ++i) {
     auto& interval = (*box)[i];
-    if (interval.diam() > delta) {
-      const Variable& var{box->variable(i)};
+    const Variable& var{box->variable(i)};
+    if (interval.diam() > delta ||
+        (var.get_type() != Variable::Type::CONTINUOUS &&
+         !interval.is_degenerated())) {
       switch (var.get_type()) {
         case Variable::Type::BINARY:
         case Variable::Type::BOOLEAN:
@@ -66,8 +68,8 @@ void Tighten(Box* box, const double delta) {
           interval &= Box::Interval(mid - half_delta, mid + half_delta);
         } break;
         case Variable::Type::INTEGER: {
-          const double mid{interval.mid()};
-          interval = static_cast<int>(mid);
+          // The bounds are integral, so is the largest integer below mid.
+          interval = std::floor(interval.mid());
         } break;
       }
     }
@@ -124,6 +126,17 @@ void Context::Impl::Assert(const Formula& f) {
   }
 }
 
+optional<Box> Context::Impl::CheckBox(const Box& box) {
+  // There is no theory literal to check but the bounds of an integer or binary
+  // variable may not be integral or may exclude every integer.
+  if (!theory_solver_.CheckSat(box, {})) {
+    return {};
+  }
+  DREAL_LOG_DEBUG("ContextImpl::CheckBox() - Found Model\n{}",
+                  theory_solver_.GetModel());
+  return theory_solver_.GetModel();
+}
+
 optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
                                           Box box,
                                           SatSolver* const sat_solver) {
@@ -140,8 +153,7 @@ optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
   }
   // If stack = ∅ or stack = {true}, it's trivially SAT.
   if (stack.empty() || (stack.size() == 1 && is_true(stack.first()))) {
-    DREAL_LOG_DEBUG("ContextImpl::CheckSatCore() - Found Model\n{}", box);
-    return box;
+    return CheckBox(box);
   }
   while (true) {
     // Note that 'DREAL_CHECK_INTERRUPT' is only defined in setup.py,
@@ -195,7 +207,7 @@ optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
           }
         }
       } else {
-        return box;
+        return CheckBox(box);
       }
     } else {
       // UNSAT from SATSolver. Escape the loop.
diff --git a/dreal/solver/context_impl.h b/dreal/solver/context_impl.h
index 03f8134..a8e6da4 100644
--- a/dreal/solver/context_impl.h
+++ b/dreal/solver/context_impl.h
@@ -67,6 +67,11 @@ class Context::Impl {
   // should not call it directly.
   void AddToBox(const Variable& v);
 
+  // Checks @p box without any theory literal. Returns a box whose dimensions of
+  // integer and binary variables have integral bounds. Returns nullopt if there
+  // is no such box.
+  optional<Box> CheckBox(const Box& box);
+
   // Returns the current box in the stack.
   optional<Box> CheckSatCore(const ScopedVector<Formula>& stack, Box box,
                              SatSolver* sat_solver);
-- 
2.43.0


From 45f0a0eb6293d59866e2674efb5d4b7d90098836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 26/39] fix: models never expose auxiliary variables after a
 pop

---
 dreal/solver/context_impl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index e4885fb..a6bff05 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -35,6 +35,7 @@
 
 namespace dreal {
 
+using std::all_of;
 using std::find_if;
 using std::isfinite;
 using std::ostringstream;
@@ -431,7 +432,12 @@ void Context::Impl::SetOption(const string& key, const string& val) {
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-  if (static_cast<int>(model_variables_.size()) == box.size()) {
+  const auto& variables = box.variables();
+  // Note that model_variables_ may include variables which are not in the
+  // current scope so that we cannot compare their sizes.
+  if (all_of(variables.begin(), variables.end(), [this](const Variable& v) {
+        return is_model_variable(v);
+      })) {
     // Every variable is a model variable. Simply return the @p box.
     return box;
   }
-- 
2.43.0


From 8e2f1dc0badc627cd3d5fa394daabb69f00da5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 27/39] fix: cached contractors are not used for a box with
 other dimensions

---
 dreal/solver/theory_solver.cc | 8 ++++++++
 dreal/solver/theory_solver.h  | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 5e26853..5e1c181 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,7 +15,9 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -146,6 +148,12 @@ optional<Contractor> TheorySolver::BuildContractor(
   }
   DREAL_LOG_TRACE("TheorySolver::BuildContractor: Filtering Assertions\n{}",
                   box);
+  const vector<Variable>& variables{box.variables()};
+  if (!std::equal(variables.begin(), variables.end(), cached_variables_.begin(),
+                  cached_variables_.end(), std::equal_to<Variable>{})) {
+    contractor_cache_.clear();
+    cached_variables_ = variables;
+  }
   vector<Contractor> ctcs;
   Box old_box;
   for (const Formula& f : assertions) {
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..b9d902b 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -62,7 +62,10 @@ class TheorySolver {
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
+  // A contractor refers to the dimensions of the box for which it was built.
+  // The contractors in the cache are for boxes over `cached_variables_`.
   std::unordered_map<Formula, Contractor> contractor_cache_;
+  std::vector<Variable> cached_variables_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
 
-- 
2.43.0


From 9e00990bdd1e602ecc32b0c4c269d01a4f494fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 28/39] fix: declaring a variable does not revive an infeasible
 context

---
 dreal/solver/context_impl.cc |  4 ++++
 dreal/util/box.cc            | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index a6bff05..84586df 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -368,6 +368,10 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
+  if (box().empty()) {
+    // The constraints asserted so far are already known to be infeasible.
+    return;
+  }
   box()[v] = Box::Interval{lb, ub};
 }
 
diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 7791f9b..c956ef4 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -79,6 +79,9 @@ void Box::Add(const Variable& v) {
             *var_to_idx_);
     idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);
   }
+  // An empty box stays empty. Note that `values_` has a dimension even when
+  // there is no variable.
+  const bool was_empty{empty()};
   const int n{size()};
   idx_to_var_->emplace(n, v);
   var_to_idx_->emplace(v, n);
@@ -94,6 +97,9 @@ void Box::Add(const Variable& v) {
     values_[n] =
         Interval(-numeric_limits<int>::max(), numeric_limits<int>::max());
   }
+  if (was_empty) {
+    set_empty();
+  }
 }
 
 void Box::Add(const Variable& v, const double lb, const double ub) {
@@ -109,7 +115,9 @@ void Box::Add(const Variable& v, const double lb, const double ub) {
   DREAL_ASSERT(v.get_type() != Variable::Type::INTEGER ||
                (is_integer(lb) && is_integer(ub)));
 
-  values_[(*var_to_idx_)[v]] = Interval{lb, ub};
+  if (!empty()) {
+    values_[(*var_to_idx_)[v]] = Interval{lb, ub};
+  }
 }
 
 bool Box::empty() const { return values_.is_empty(); }
-- 
2.43.0


From 0f6b300dcb3d63777505caff75e8da6892efdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 29/39] fix: the evaluator of a forall formula sets only the
 variables it declared

---
 dreal/solver/forall_formula_evaluator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..cf7b4f3 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,9 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  // Note that @p box may have variables which `context` does not know.
+  const Variables& exist_variables{formula().GetFreeVariables()};
+  for (const Variable& v : exist_variables) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,7 +110,7 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : exist_variables) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
-- 
2.43.0


From cb87329879b0ac9ad5d4d52a134090399e4e242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 30/39] fix: clauses learned in a box are forgotten when the
 box is widened

---
 dreal/solver/context_impl.cc |  7 ++++++-
 dreal/solver/sat_solver.cc   | 13 +++++++++++++
 dreal/solver/sat_solver.h    |  7 +++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 84586df..14ba58a 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -372,7 +372,12 @@ void Context::Impl::SetInterval(const Variable& v, const double lb,
     // The constraints asserted so far are already known to be infeasible.
     return;
   }
-  box()[v] = Box::Interval{lb, ub};
+  const Box::Interval interval{lb, ub};
+  if (!interval.is_subset(box()[v])) {
+    // What we have learned may not hold in the new box.
+    sat_solver_.ForgetLearnedClauses();
+  }
+  box()[v] = interval;
 }
 
 void Context::Impl::SetLogic(const Logic& logic) {
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..8a71aa0 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -74,9 +74,19 @@ void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddLiteral(!predicate_abstractor_.Convert(f));
   }
+  if (learned_clause_guard_ == 0) {
+    learned_clause_guard_ = picosat_inc_max_var(sat_);
+  }
+  picosat_add(sat_, -learned_clause_guard_);
   picosat_add(sat_, 0);
 }
 
+void SatSolver::ForgetLearnedClauses() {
+  // Without the assumption, the old guard satisfies them. The next learned
+  // clause will introduce a new guard.
+  learned_clause_guard_ = 0;
+}
+
 void SatSolver::AddClauses(const vector<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddClause(f);
@@ -126,6 +136,9 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
   // Call SAT solver.
   TimerGuard check_sat_timer_guard(&stat.timer_check_sat_,
                                    DREAL_LOG_INFO_ENABLED);
+  if (learned_clause_guard_ != 0) {
+    picosat_assume(sat_, learned_clause_guard_);
+  }
   const int ret{picosat_sat(sat_, -1 /* decision_limit == no limit */)};
   check_sat_timer_guard.pause();
 
diff --git a/dreal/solver/sat_solver.h b/dreal/solver/sat_solver.h
index 71163b4..41c4372 100644
--- a/dreal/solver/sat_solver.h
+++ b/dreal/solver/sat_solver.h
@@ -73,6 +73,9 @@ class SatSolver {
   /// the solver.
   void AddLearnedClause(const std::set<Formula>& formulas);
 
+  /// Makes the clauses added by `AddLearnedClause` so far ineffective.
+  void ForgetLearnedClauses();
+
   /// Checks the satisfiability of the current configuration.
   ///
   /// @returns a witness, satisfying model if the problem is satisfiable.
@@ -137,6 +140,10 @@ class SatSolver {
   ///
   /// TODO(soonho): Remove this hack when it's not needed.
   bool has_picosat_pop_used_{false};
+
+  /// Learned clauses have a literal `¬learned_clause_guard_` and the guard is
+  /// assumed in `CheckSat()`.
+  int learned_clause_guard_{0};
 };
 
 }  // namespace dreal
-- 
2.43.0


From a751938d6faec678446c8df8edb1252218e43b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 31/39] fix: counterexamples with integer variables are not
 refined by local optimization

---
 dreal/contractor/counterexample_refiner.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 62e8bfe..97fd281 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -34,6 +34,11 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
   // Build forall_vec_ (of vector<Variable>).
   for (const Variable& var : forall_variables_) {
     forall_vec_.push_back(var);
+    if (var.get_type() != Variable::Type::CONTINUOUS) {
+      // The optimizer would move the variable to a non-integral value, which is
+      // not a counterexample. Leave opt_ as nullptr.
+      return;
+    }
   }
 
   // 1. Filter bound constraints.
-- 
2.43.0


From 03a6e7a76ef53a96d012e8bfccc5311c98d05532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 32/39] fix: DR files are solved only after they turned out to
 be well-formed

---
 dreal/dr/driver.cc | 7 ++++++-
 dreal/dr/parser.yy | 3 ---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreal/dr/driver.cc b/dreal/dr/driver.cc
index d3c6228..34d9169 100644
--- a/dreal/dr/driver.cc
+++ b/dreal/dr/driver.cc
@@ -47,7 +47,12 @@ bool DrDriver::parse_stream(istream& in, const string& sname) {
 
   DrParser parser(*this);
   parser.set_debug_level(trace_parsing_);
-  return (parser.parse() == 0);
+  if (parser.parse() != 0) {
+    return false;
+  }
+  // Solve only after the whole input turned out to be well-formed.
+  Solve();
+  return true;
 }
 
 bool DrDriver::parse_file(const string& filename) {
diff --git a/dreal/dr/parser.yy b/dreal/dr/parser.yy
index 6df1b03..5ba61f8 100644
--- a/dreal/dr/parser.yy
+++ b/dreal/dr/parser.yy
@@ -104,9 +104,6 @@
 script:         var_decl_sec
                 opt_ctr_decl_sec
 		opt_cost_decl_sec
-		{
-                    driver.Solve();
-		}
 		;
 
 // =============================
-- 
2.43.0


From 117b98c2d91598ccd8837f742dceee7c262393b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 33/39] fix: DR scanner reads a comment at the end of a file,
 and refuses bytes outside of the language

---
 dreal/dr/scanner.ll | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dreal/dr/scanner.ll b/dreal/dr/scanner.ll
index 4655ca0..b86959e 100644
--- a/dreal/dr/scanner.ll
+++ b/dreal/dr/scanner.ll
@@ -73,8 +73,8 @@ dr_yycolumn += yyleng;
 
  /*** BEGIN - lexer rules ***/
 
-"#".*[\n\r]+ {
-    dr_yycolumn=1;
+"#"[^\n\r]* {
+    yylloc->step();
 }
 
 "var"                   { return DrParser::token::TK_VAR; }
@@ -154,7 +154,9 @@ dr_yycolumn += yyleng;
 
  /* pass all other characters up to bison */
 . {
-    return static_cast<token_type>(*yytext);
+    // No byte of the input is the end of it (0, or less if char is signed).
+    const int c{static_cast<unsigned char>(*yytext)};
+    return static_cast<token_type>(c ? c : 255);
 }
 %% /*** Additional Code ***/
 
-- 
2.43.0


From 2071b9e57d0b46ce011991fadacdb2d1df0294d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 34/39] fix: SMT-LIB scanner reads a comment at the end of a
 script, and refuses bytes outside of the language and unterminated symbols

---
 dreal/smt2/scanner.ll | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index 28734f8..8ae4d93 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -87,8 +87,8 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /*** BEGIN - lexer rules ***/
 
-";".*[\n\r]+ {
-    smt2_yycolumn=1;
+";"[^\n\r]* {
+    yylloc->step();
 }
 
 "!"                     { return Smt2Parser::token::TK_EXCLAMATION; }
@@ -236,12 +236,24 @@ simple_symbol   {sym_begin}{sym_continue}*
     yylval->build<std::string>(std::string(yytext, yyleng));
     return token::SYMBOL;
 }
-<quoted>\\              { }
+<quoted>\\              {
+    // SMT-LIB has no backslash in quoted symbols.
+    BEGIN 0;
+    return static_cast<token_type>('\\');
+}
 <quoted>.               { yymore(); }
 
+<str,quoted><<EOF>>     {
+    // An unterminated string or quoted symbol.
+    BEGIN 0;
+    return static_cast<token_type>(255);
+}
+
  /* pass all other characters up to bison */
 . {
-    return static_cast<token_type>(*yytext);
+    // No byte of the input is the end of it (0, or less if char is signed).
+    const int c{static_cast<unsigned char>(*yytext)};
+    return static_cast<token_type>(c ? c : 255);
 }
 %% /*** Additional Code ***/
 
-- 
2.43.0


From adff9a7c73ffa6c013d77cd6d49431ad4aa3379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 35/39] fix: get-value needs a model, and prints unbounded and
 undefined values

---
 dreal/smt2/driver.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 798d3aa..295bcfb 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/smt2/driver.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -188,8 +189,21 @@ string ToRational(const double d) {
 }
 
 // Returns the string representation of @p interval.
-// It returns `(exact c)` or `(interval lb ub)`.
+// It returns `(exact c)` or `(interval lb ub)`. An infinite end of an interval
+// is open. It returns `undefined` for the empty interval.
 string ToString(const Box::Interval& interval) {
+  if (interval.is_empty()) {
+    return "undefined";
+  }
+  if (interval.is_unbounded()) {
+    const string lb{std::isfinite(interval.lb())
+                        ? fmt::format("(closed {})", ToRational(interval.lb()))
+                        : "(open (- oo))"};
+    const string ub{std::isfinite(interval.ub())
+                        ? fmt::format("(closed {})", ToRational(interval.ub()))
+                        : "(open oo)"};
+    return fmt::format("(interval {} {})", lb, ub);
+  }
   if (interval.lb() == interval.ub()) {
     return ToRational(interval.lb());
   } else {
@@ -211,6 +225,21 @@ void Smt2Driver::GetModel() const {
 
 void Smt2Driver::GetValue(const vector<Term>& term_list) const {
   const Box& box{context_.get_model()};
+  if (box.empty()) {
+    cout << "(error \"model is not available\")\n";
+    cout.flush();
+    return;
+  }
+  for (const auto& term : term_list) {
+    const Variables variables{term.type() == Term::Type::EXPRESSION
+                                  ? term.expression().GetVariables()
+                                  : term.formula().GetFreeVariables()};
+    for (const Variable& var : variables) {
+      if (!box.has_variable(var)) {
+        throw DREAL_RUNTIME_ERROR("The model has no value for {}.", var);
+      }
+    }
+  }
   fmt::print("(\n");
   for (const auto& term : term_list) {
     string term_str;
-- 
2.43.0


From 8dc71177f2f7c4cd2b9afc2d8da5ae1e503df5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 36/39] fix: push and pop of SMT-LIB scripts scope declarations
 and definitions

---
 dreal/smt2/driver.cc | 14 ++++++++++++++
 dreal/smt2/driver.h  |  6 ++++++
 dreal/smt2/parser.yy |  4 ++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 295bcfb..aad69cd 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -337,6 +337,20 @@ Variable Smt2Driver::DeclareLocalVariable(const string& name, const Sort sort) {
   return v;
 }
 
+void Smt2Driver::Push(int n) {
+  context_.Push(n);
+  while (n-- > 0) {
+    PushScope();
+  }
+}
+
+void Smt2Driver::Pop(int n) {
+  context_.Pop(n);
+  while (n-- > 0) {
+    PopScope();
+  }
+}
+
 const Variable& Smt2Driver::lookup_variable(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..b36a510 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -137,6 +137,12 @@ class Smt2Driver {
     scope_.pop();
   }
 
+  /// Handles `(push n)`.
+  void Push(int n);
+
+  /// Handles `(pop n)`.
+  void Pop(int n);
+
   Term LookupFunction(const std::string& name,
                       const std::vector<Term>& arguments);
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..e60e753 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -272,12 +272,12 @@ command_get_option:
 
 
 command_push:   '(' TK_PUSH INT ')' {
-                    driver.mutable_context().Push(convert_int64_to_int($3));
+                    driver.Push(convert_int64_to_int($3));
                 }
                 ;
 
 command_pop:    '(' TK_POP INT ')' {
-                    driver.mutable_context().Pop(convert_int64_to_int($3));
+                    driver.Pop(convert_int64_to_int($3));
                 }
                 ;
 
-- 
2.43.0


From 235bbb42c032af2ca3eee16e73eb0951ba033cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 37/39] fix: bounds of quantified variables are quantified when
 the body does not use the variables

---
 dreal/smt2/parser.yy | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index e60e753..6925295 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -365,7 +365,8 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
-	    const Variables quantified_variables = intersect(vars, body.GetFreeVariables());
+	    const Variables quantified_variables = intersect(
+	        vars, body.GetFreeVariables() + domain.GetFreeVariables());
 	    if (quantified_variables.empty()) {
 	        $$ = body;
 	    } else {
-- 
2.43.0


From 689431d5c3646de0def158589a580d8bdebd6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 38/39] fix: let under forall and in the body of a definition
 binds terms over the bound variables

---
 dreal/smt2/driver.cc | 33 +++++++++++++++++++++++++++++++++
 dreal/smt2/driver.h  | 28 ++++++++++++++++++++++++++++
 dreal/smt2/parser.yy | 38 ++++++++++++++++----------------------
 3 files changed, 77 insertions(+), 22 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index aad69cd..8435275 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -351,6 +351,39 @@ void Smt2Driver::Pop(int n) {
   }
 }
 
+void Smt2Driver::Bind(const string& name, const Term& term) {
+  const bool is_formula{term.type() == Term::Type::FORMULA};
+  const Sort sort{is_formula ? Sort::Bool : Sort::Real};
+  if (binder_depth_ > 0) {
+    // The term may include bound variables, so it cannot be asserted.
+    const Variable v{ParseVariableSort(MakeUniqueName(name), sort)};
+    scope_.insert(name, v);
+    let_terms_.insert(v.get_id(), term);
+    return;
+  }
+  const Variable v{DeclareLocalVariable(name, sort)};
+  if (is_formula) {
+    const Formula fv{v};
+    const Formula& ft{term.formula()};
+    context_.Assert((fv && ft) || (!fv && !ft));
+  } else {
+    const Expression ev{v};
+    context_.Assert(ev == term.expression());
+  }
+}
+
+Term Smt2Driver::LookupTerm(const string& name) {
+  const Variable& var{lookup_variable(name)};
+  const auto it = let_terms_.find(var.get_id());
+  if (it != let_terms_.cend()) {
+    return it->second;
+  }
+  if (var.get_type() == Variable::Type::BOOLEAN) {
+    return Term{Formula{var}};
+  }
+  return Term{Expression{var}};
+}
+
 const Variable& Smt2Driver::lookup_variable(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index b36a510..b522706 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -130,19 +130,41 @@ class Smt2Driver {
   void PushScope() {
     scope_.push();
     function_definition_map_.push();
+    let_terms_.push();
   }
 
   void PopScope() {
+    let_terms_.pop();
     function_definition_map_.pop();
     scope_.pop();
   }
 
+  /// Opens the scope of the variables bound by `forall` or of the parameters
+  /// of `define-fun`. They do not occur in assertions of the context.
+  void EnterBinder() {
+    PushScope();
+    ++binder_depth_;
+  }
+
+  void ExitBinder() {
+    --binder_depth_;
+    PopScope();
+  }
+
   /// Handles `(push n)`.
   void Push(int n);
 
   /// Handles `(pop n)`.
   void Pop(int n);
 
+  /// Binds @p name to @p term in the current scope, for `let`.
+  void Bind(const std::string& name, const Term& term);
+
+  /// Returns the term associated with a name @p name.
+  ///
+  /// @throws if no variable is associated with @p name.
+  Term LookupTerm(const std::string& name);
+
   Term LookupFunction(const std::string& name,
                       const std::vector<Term>& arguments);
 
@@ -183,6 +205,12 @@ class Smt2Driver {
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
 
+  /** Scoped map from a variable bound by `let` under a binder to its term. */
+  ScopedUnorderedMap<Variable::Id, Term> let_terms_;
+
+  /// The number of open `forall` and `define-fun` terms.
+  int binder_depth_{0};
+
   /// Sequential value concatenated to names to make them unique.
   int64_t nextUniqueId_{};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 6925295..48c5f0d 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -173,7 +173,7 @@ command_declare_fun:
         ;
 
 command_define_fun:
-                '(' TK_DEFINE_FUN SYMBOL enter_scope '(' name_sort_list ')' sort term exit_scope ')' {
+                '(' TK_DEFINE_FUN SYMBOL enter_binder '(' name_sort_list ')' sort term exit_binder ')' {
                     if ($6.empty()) {
                         // No parameters - treat as variable, just like declare-fun.
                         const Variable v{driver.DeclareVariable($3, $8)};
@@ -201,8 +201,8 @@ command_get_model:
                 ;
 
 command_get_value:
-                '(' TK_GET_VALUE '(' term_list ')' ')' {
-                    driver.GetValue($4);
+                '(' TK_GET_VALUE enter_binder '(' term_list ')' exit_binder ')' {
+                    driver.GetValue($5);
                 }
                 ;
 
@@ -361,7 +361,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
                 YYABORT;
             }
         }
-        |       '(' TK_FORALL enter_scope '(' variable_sort_list ')' term exit_scope ')' {
+        |       '(' TK_FORALL enter_binder '(' variable_sort_list ')' term exit_binder ')' {
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
@@ -391,12 +391,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
         |       INT { $$ = convert_int64_to_double($1); }
         |       SYMBOL {
             try {
-                const Variable& var = driver.lookup_variable($1);
-                if (var.get_type() == Variable::Type::BOOLEAN) {
-                    $$ = Formula(var);
-                } else {
-                    $$ = Expression(var);
-                }
+                $$ = driver.LookupTerm($1);
             } catch (std::runtime_error& e) {
                 std::cerr << @1 << " : " << e.what() << std::endl;
                 YYABORT;
@@ -491,18 +486,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
 let_binding_list: '(' var_binding_list ')' {
             // Locals must be bound simultaneously.
             for (auto& binding : $2) {
-                const std::string& name{ binding.first };
-                const Term& term{ binding.second };
-                const bool is_formula = term.type() == Term::Type::FORMULA;
-                const Sort sort = is_formula ? Sort::Bool : Sort::Real;
-                const Variable v{ driver.DeclareLocalVariable(name, sort) };
-                if (is_formula) {
-                    const Formula fv{v};
-                    const Formula& ft{ term.formula() };
-                    driver.mutable_context().Assert((fv && ft) || (!fv && !ft));
-                } else {
-                    driver.mutable_context().Assert(Expression{v} == term.expression());
-                }
+                driver.Bind(binding.first, binding.second);
             }
         }
         ;
@@ -517,6 +501,16 @@ exit_scope: /* */ {
         }
         ;
 
+enter_binder: /* */ {
+            driver.EnterBinder();
+        }
+        ;
+
+exit_binder: /* */ {
+            driver.ExitBinder();
+        }
+        ;
+
 name_sort: '(' SYMBOL sort ')' {
             $$ = Variable{driver.DeclareLocalVariable($2, $3)};
         }
-- 
2.43.0


From 5ef4a46c45286a9ba5f7c32b30fbff5cd54f905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 39/39] fix: the local optimiser adds the negation of a negated
 relation, not the relation

---
 dreal/optimization/nlopt_optimizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/optimization/nlopt_optimizer.cc b/dreal/optimization/nlopt_optimizer.cc
index 89f328a..a615e96 100644
--- a/dreal/optimization/nlopt_optimizer.cc
+++ b/dreal/optimization/nlopt_optimizer.cc
@@ -121,7 +121,8 @@ void NloptOptimizer::AddConstraint(const Formula& formula) {
   if (is_negation(formula)) {
     const Formula& negated_formula{get_operand(formula)};
     if (is_relational(negated_formula)) {
-      return AddRelationalConstraint(nnfizer_.Convert(negated_formula));
+      // Push the negation into the relational operator.
+      return AddRelationalConstraint(nnfizer_.Convert(formula, true));
     }
   }
   throw DREAL_RUNTIME_ERROR(
-- 
2.43.0

