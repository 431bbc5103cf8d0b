From be3a1fb9c4cd7ff9e0276d3bdeb071f9aa0cccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 01/33] fix: use the complex principal value for powers of
 negative floats

---
 components/core/wf/expressions/power.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index 0f6bfe5..d316466 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -4,6 +4,8 @@
 #include "wf/expressions/power.h"
 
 #include <algorithm>
+#include <cmath>
+#include <complex>
 
 #include "wf/expression_visitor.h"
 #include "wf/expressions/multiplication.h"
@@ -61,9 +63,14 @@ struct power_numerics_visitor {
     if (base.is_zero() && exp.is_negative()) {
       return constants::complex_infinity;
     }
-    const auto result = std::pow(static_cast<float_constant>(base).value(),
-                                 static_cast<float_constant>(exp).value());
-    return make_expr<float_constant>(result);
+    const double base_value = static_cast<float_constant>(base).value();
+    const double exp_value = static_cast<float_constant>(exp).value();
+    if (base_value < 0 && std::floor(exp_value) != exp_value) {
+      // Negative base and fractional exponent, the principal value is complex.
+      const std::complex<double> result = std::pow(std::complex<double>{base_value}, exp_value);
+      return scalar_expr::from_complex(result.real(), result.imag());
+    }
+    return scalar_expr(std::pow(base_value, exp_value));
   }
 
   // If both operands are integers:
-- 
2.43.0


From 30da640da67802c74b916b3efbaa2d94caf8a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 02/33] fix: fractional powers of possibly negative numbers are
 not real

---
 components/core/wf/number_set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/number_set.cc b/components/core/wf/number_set.cc
index 561e885..b26cf2a 100644
--- a/components/core/wf/number_set.cc
+++ b/components/core/wf/number_set.cc
@@ -227,6 +227,11 @@ class determine_set_visitor {
           exp_int != nullptr && exp_int->is_even()) {
         return contains_zero(base) ? number_set::real_non_negative : number_set::real_positive;
       }
+      if (!is_non_negative(base) &&
+          pow.exponent().is_type<rational_constant, float_constant, symbolic_constant>()) {
+        // A fractional power of a (possibly) negative number is not real.
+        return number_set::complex;
+      }
       if (is_non_negative(base) && is_non_negative(exp)) {
         // base is either real_non_negative or real_positive
         return base;
-- 
2.43.0


From 927ed9e4430cbcfaf64a5c99b8f403d7afdee7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 03/33] fix: derivatives of substitutions and of nested
 symbolic functions

---
 components/core/wf/derivative.cc       |  6 ++++--
 components/core/wf/utility_visitors.cc | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/derivative.cc b/components/core/wf/derivative.cc
index 7634587..34fa4fa 100644
--- a/components/core/wf/derivative.cc
+++ b/components/core/wf/derivative.cc
@@ -298,9 +298,11 @@ scalar_expr derivative_visitor::operator()(const substitution& sub,
           // The target is itself a variable, so create: sub(f(y).diff(y), y, g(x))
           return substitution::create(sub.input().diff(sub.target()), sub.target(),
                                       sub.replacement());
-        } else if (sub.replacement()
+        } else if (is_zero(input_diff) &&
+                   sub.replacement()
                        .is_type<variable, unique_variable, function_argument_variable>()) {
-          // We don't need to introduce another variable, just take the derivative:
+          // The input is not otherwise a function of `x`, so we don't need to introduce
+          // another variable, just take the derivative:
           // d[sub(f(y), y, z)]/dz --> diff(sub(f(y), y, z), z) * dz/dx
           // Either dz/dx (replacement_diff) will be one or zero.
           return derivative::create(sub_abstract, sub.replacement(), 1);
diff --git a/components/core/wf/utility_visitors.cc b/components/core/wf/utility_visitors.cc
index 538beec..59995ff 100644
--- a/components/core/wf/utility_visitors.cc
+++ b/components/core/wf/utility_visitors.cc
@@ -99,12 +99,18 @@ bool is_function_of_visitor<T>::operator()(const U& x) const {
     return visit(x, *this);
   } else if constexpr (std::is_same_v<U, any_expression>) {
     return std::visit(*this, x);
-  } else if constexpr (std::is_same_v<U, T>) {
-    return are_identical(target_, x);
-  } else if constexpr (!U::is_leaf_node) {
-    return any_of(x.children(), *this);
   } else {
-    return false;
+    if constexpr (std::is_same_v<U, T>) {
+      if (are_identical(target_, x)) {
+        return true;
+      }
+    }
+    if constexpr (!U::is_leaf_node) {
+      // Keep searching: expressions of type `T` may be nested, as in f(f(x)).
+      return any_of(x.children(), *this);
+    } else {
+      return false;
+    }
   }
 }
 
-- 
2.43.0


From 97ef99972e8091be740365380fbe5ff914c313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 04/33] fix: overflow of the loop bound in prime factorisation

---
 components/core/wf/integer_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/core/wf/integer_utils.h b/components/core/wf/integer_utils.h
index 0581fdf..0f9c9fa 100644
--- a/components/core/wf/integer_utils.h
+++ b/components/core/wf/integer_utils.h
@@ -26,7 +26,7 @@ constexpr int64_t wheel_factorization(const int64_t n_in) noexcept {
   // These are the increments between the first primes: [7, 11, 13, 17, 19, 23, 29, 31]
   constexpr int inc_length = 8;
   constexpr int inc[inc_length] = {4, 2, 4, 2, 4, 6, 2, 6};
-  while (k * k <= n_in) {
+  while (k <= n_in / k) {  // k * k <= n_in, without overflow
     if (n_in % k == 0) {
       return k;
     }
-- 
2.43.0


From 96d1dd5d43b497b111ccbe077d5346bcbe54efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 05/33] fix: order and construct rationals without overflow,
 hash of negative zero

---
 .../core/wf/expressions/numeric_expressions.h | 60 +++++++++++++++----
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..8ceb5e5 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -113,11 +113,13 @@ class rational_constant {
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  constexpr bool is_proper() const noexcept { return n_ < d_ && -d_ < n_; }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
+    if (d == 0) {
+      throw arithmetic_error("Rational number has a denominator of zero: {} / 0", n);
+    }
     // Find the largest common denominator and reduce:
     const auto gcd = std::gcd(n.value(), d.value());
     n = n / gcd;
@@ -238,12 +240,46 @@ constexpr auto operator%(const rational_constant& a, const rational_constant& b)
   return rational_constant{quotient.numerator() % quotient.denominator(), quotient.denominator()};
 }
 
-constexpr bool operator<(const rational_constant& a, const rational_constant& b) {
-  return a.numerator() * b.denominator() < b.numerator() * a.denominator();
+namespace detail {
+// Compare rationals `a` and `b` without forming the products of numerators and denominators, since
+// these may exceed the range of 64-bit integers.
+constexpr relative_order compare_rationals(const rational_constant& a,
+                                           const rational_constant& b) noexcept {
+  using int_type = checked_int::value_type;
+  int_type a_num = a.numerator().value(), a_den = a.denominator().value();
+  int_type b_num = b.numerator().value(), b_den = b.denominator().value();
+  // Compare the continued fraction expansions of `a` and `b`. Denominators are always positive.
+  for (bool reversed = false;; reversed = !reversed) {
+    int_type a_int = a_num / a_den, a_rem = a_num % a_den;
+    if (a_rem < 0) {
+      a_int -= 1;
+      a_rem += a_den;
+    }
+    int_type b_int = b_num / b_den, b_rem = b_num % b_den;
+    if (b_rem < 0) {
+      b_int -= 1;
+      b_rem += b_den;
+    }
+    if (a_int != b_int || a_rem == 0 || b_rem == 0) {
+      const relative_order order = a_int != b_int ? order_by_comparison(a_int, b_int)
+                                                  : order_by_comparison(a_rem, b_rem);
+      return reversed ? static_cast<relative_order>(-static_cast<int>(order)) : order;
+    }
+    // Both fractional parts are positive: compare their reciprocals, in the opposite order.
+    a_num = a_den;
+    a_den = a_rem;
+    b_num = b_den;
+    b_den = b_rem;
+  }
 }
+}  // namespace detail
 
-constexpr bool operator>(const rational_constant& a, const rational_constant& b) {
-  return a.numerator() * b.denominator() > b.numerator() * a.denominator();
+constexpr bool operator<(const rational_constant& a, const rational_constant& b) noexcept {
+  return detail::compare_rationals(a, b) == relative_order::less_than;
+}
+
+constexpr bool operator>(const rational_constant& a, const rational_constant& b) noexcept {
+  return detail::compare_rationals(a, b) == relative_order::greater_than;
 }
 
 constexpr bool operator==(const rational_constant& a, const rational_constant& b) noexcept {
@@ -280,12 +316,7 @@ template <>
 struct order_struct<rational_constant> {
   constexpr relative_order operator()(const rational_constant& a,
                                       const rational_constant& b) const noexcept {
-    if (a.denominator() == b.denominator()) {
-      return order_by_comparison(a.numerator(), b.numerator());
-    }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
+    return detail::compare_rationals(a, b);
   }
 };
 
@@ -331,6 +362,9 @@ struct hash_struct<float_constant> {
   std::size_t operator()(const float_constant& f) const noexcept {
     static_assert(std::is_trivially_copyable_v<float_constant> &&
                   sizeof(float_constant) == sizeof(std::size_t));
+    if (f.is_zero()) {
+      return 0;  // Positive and negative zero are identical.
+    }
     std::size_t hash;
     std::memcpy(&hash, static_cast<const void*>(&f), sizeof(f));
     return hash;
-- 
2.43.0


From 79397a01e2da033b9c88f044bced2712d0e21446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 06/33] fix: floor of floats that do not fit into an integer

---
 components/core/wf/functions.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/core/wf/functions.cc b/components/core/wf/functions.cc
index 23466da..2a83b41 100644
--- a/components/core/wf/functions.cc
+++ b/components/core/wf/functions.cc
@@ -600,6 +600,9 @@ struct floor_visitor {
       return std::nullopt;
     }
     const auto floored = std::floor(f.value());
+    if (floored < -9223372036854775808.0 || floored >= 9223372036854775808.0) {
+      return scalar_expr{floored};  // Does not fit into a 64-bit integer.
+    }
     return scalar_expr{static_cast<std::int64_t>(floored)};
   }
 
-- 
2.43.0


From 27957755689f21e42740e73e7d86377ec8e39f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 07/33] fix: reduce rationals with the minimum integer without
 undefined behaviour

---
 .../core/wf/expressions/numeric_expressions.h   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 8ceb5e5..317a0a3 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -121,9 +121,14 @@ class rational_constant {
       throw arithmetic_error("Rational number has a denominator of zero: {} / 0", n);
     }
     // Find the largest common denominator and reduce:
-    const auto gcd = std::gcd(n.value(), d.value());
-    n = n / gcd;
-    d = d / gcd;
+    // This is done with unsigned magnitudes, because std::gcd requires that |n| and |d| fit.
+    const std::uint64_t gcd = std::gcd(magnitude(n), magnitude(d));
+    if (gcd > magnitude(checked_int::max())) {
+      // `d` is the minimum integer, and `n` is zero or also the minimum integer.
+      return std::make_pair(n == 0 ? 0 : 1, 1);
+    }
+    n = n / static_cast<std::int64_t>(gcd);
+    d = d / static_cast<std::int64_t>(gcd);
     if (d < 0) {
       // If denominator is < 0, transfer sign to numerator.
       // If both are negative, this will make both positive.
@@ -133,6 +138,12 @@ class rational_constant {
     }
   }
 
+  // Absolute value as an unsigned integer, which can always be represented.
+  static constexpr std::uint64_t magnitude(value_type x) noexcept {
+    const auto bits = static_cast<std::uint64_t>(x.value());
+    return x < 0 ? ~bits + 1 : bits;
+  }
+
   // Private constructor to allow direct initialization.
   explicit constexpr rational_constant(const std::pair<value_type, value_type>& pair) noexcept
       : n_(pair.first), d_(pair.second) {}
-- 
2.43.0


From 7efb5069816ca34cda17e5f313966b9dc62653ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 08/33] fix: partial and list substitutions

Partial matches no longer search the inserted replacement again, coefficients of
the target that are floating point values are not ignored, and lists of pairs are
only applied at once if no replacement is matched by another target.
---
 components/core/wf/substitute.cc | 147 +++++++++++++++++++------------
 1 file changed, 90 insertions(+), 57 deletions(-)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 23f7a47..1db61ad 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -8,6 +8,7 @@
 #include "wf/expression_cache.h"
 #include "wf/expression_visitor.h"
 #include "wf/expressions/compound_expression_element.h"
+#include "wf/expressions/custom_type_expressions.h"
 #include "wf/expressions/variable.h"
 #include "wf/matrix_expression.h"
 
@@ -20,6 +21,14 @@
 
 namespace wf {
 
+// Result of a partial substitution in an addition, multiplication, or power.
+struct partial_match {
+  // What is left of the input after the target has been removed from it.
+  scalar_expr remainder;
+  // The expression that takes the place of the target.
+  scalar_expr inserted;
+};
+
 // Visitor that performs a substitution.
 // TargetExpressionType is the concrete type of the expression we are replacing.
 template <typename Derived, typename TargetConcreteExpressionType,
@@ -49,21 +58,14 @@ struct substitute_visitor_base {
 
       if constexpr (Derived::performs_partial_substitution) {
         // The derived type supports looking for partial matches, so try that:
-        scalar_expr partial_sub =
-            static_cast<Derived&>(*this).attempt_partial(input_expression, other);
-
-        // Irrespective of whether that succeeded, one of the children may still contain the
-        // expression we are searching for as well:
-        return visit(partial_sub, [this, &partial_sub](const auto& arg) {
-          using T = std::decay_t<decltype(arg)>;
-          if constexpr (T::is_leaf_node) {
-            // This type has no children, so return the input expression unmodified:
-            return partial_sub;
-          } else {
-            // This type does have children, so apply to all of them:
-            return arg.map_children(static_cast<Derived&>(*this));
-          }
-        });
+        if (const std::optional<partial_match> match =
+                static_cast<Derived&>(*this).attempt_partial(other);
+            match.has_value()) {
+          // The remainder may still contain the expression we are searching for. We do not search
+          // the part that was inserted, since it was already replaced.
+          return Derived::combine(visit(match->remainder, static_cast<Derived&>(*this)),
+                                  match->inserted);
+        }
       }
     }
     // If these expressions don't match, and the target has no sub-expressions, we can stop here.
@@ -100,16 +102,20 @@ struct substitute_add_visitor
   substitute_add_visitor(const addition& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const addition& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& inserted) {
+    return remainder + inserted;
+  }
+
+  std::optional<partial_match> attempt_partial(const addition& candidate) const {
     // Create map representation for the input:
     addition_parts input_parts{candidate};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff)) {
+    if (std::holds_alternative<float_constant>(input_parts.coeff) ||
+        std::holds_alternative<float_constant>(target_parts.coeff)) {
       if (input_parts.coeff != target_parts.coeff) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so subtract it out and proceed w/ the rest of the
         // replacement:
@@ -122,7 +128,7 @@ struct substitute_add_visitor
       auto it = input_parts.terms.find(target_mul);
       if (it == input_parts.terms.end() || !it->second.is_identical_to(target_coeff)) {
         // One of the terms in the target is missing in the input, so we can't substitute:
-        return input_expression;
+        return std::nullopt;
       }
       input_parts.terms.erase(it);  //  Remove it from the input.
     }
@@ -132,9 +138,8 @@ struct substitute_add_visitor
       input_parts.add_terms(-std::visit([](auto x) { return scalar_expr(x); }, target_parts.coeff));
     }
 
-    // Add in the replacement and build a new addition:
-    input_parts.add_terms(replacement_);
-    return input_parts.create_addition();
+    // Build a new addition from what is left, the replacement will be added to it:
+    return partial_match{input_parts.create_addition(), replacement_};
   }
 
  private:
@@ -151,17 +156,22 @@ struct substitute_mul_visitor
   substitute_mul_visitor(const multiplication& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target, true) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const multiplication& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& inserted) {
+    return remainder * inserted;
+  }
+
+  std::optional<partial_match> attempt_partial(const multiplication& candidate) const {
     // Take this multiplication and break it into constituent parts.
     // TODO: Should we just store multiplications pre-factored in this format?
     multiplication_parts input_parts{candidate, true};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff())) {
+    const bool has_float_coeff = std::holds_alternative<float_constant>(input_parts.coeff()) ||
+                                 std::holds_alternative<float_constant>(target_parts.coeff());
+    if (has_float_coeff) {
       if (input_parts.coeff() != target_parts.coeff()) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so divide it out and proceed w/ the rest of the replacement:
         input_parts.coeff() = integer_constant{1};
@@ -174,7 +184,7 @@ struct substitute_mul_visitor
     for (const auto& [base, exponent] : target_parts.terms()) {
       const auto it = input_parts.terms().find(base);
       if (it == input_parts.terms().end()) {
-        return input_expression;
+        return std::nullopt;
       }
 
       // See how many times we can divide term into the target expression
@@ -201,27 +211,34 @@ struct substitute_mul_visitor
         }
       } else {
         // If we can't get an integer multiple, this division won't work.
-        return input_expression;
+        return std::nullopt;
       }
     }
 
-    // Deduct the replaced expression from the input:
+    if (has_float_coeff) {
+      // The float coefficient can be divided out exactly once.
+      if (!max_valid_integer_exponent->is_positive()) {
+        return std::nullopt;
+      }
+      max_valid_integer_exponent = integer_constant{1};
+    }
+
     const integer_constant max_valid_exponent = max_valid_integer_exponent.value();
+    if (max_valid_exponent.is_zero()) {
+      // The target does not fit into the input, even once.
+      return std::nullopt;
+    }
+
+    // Deduct the replaced expression from the input:
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
       WF_ASSERT(it != input_parts.terms().end());
       it->second = it->second - (exponent * max_valid_exponent.value());
     }
 
-    // Insert the replacement
-    const scalar_expr replacement_exp(max_valid_exponent);
-    if (const auto [it, was_inserted] = input_parts.terms().emplace(replacement_, replacement_exp);
-        !was_inserted) {
-      it->second = it->second + replacement_exp;
-    }
-
     input_parts.normalize_coefficients();
-    return std::move(input_parts).create_multiplication();
+    return partial_match{std::move(input_parts).create_multiplication(),
+                         power::create(replacement_, scalar_expr(max_valid_exponent))};
   }
 
  protected:
@@ -238,14 +255,18 @@ struct substitute_pow_visitor
   substitute_pow_visitor(const power& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression, const power& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& inserted) {
+    return remainder * inserted;
+  }
+
+  std::optional<partial_match> attempt_partial(const power& candidate) const {
     const scalar_expr& target_base = target_.base();
     const scalar_expr& target_exponent = target_.exponent();
     const scalar_expr& candidate_base = candidate.base();
 
     // If the bases don't match, there can't be a valid substitution:
     if (!target_base.is_identical_to(candidate_base)) {
-      return input_expression;
+      return std::nullopt;
     }
 
     // If the exponent is an addition, it might contain a multiple of our target exponent.
@@ -265,22 +286,23 @@ struct substitute_pow_visitor
           parts.terms.erase(it);
           // Put the exponent back together and swap in the replacement:
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, ratio) * power::create(candidate_base, new_exponent);
+          return partial_match{power::create(candidate_base, new_exponent),
+                               power::create(replacement_, ratio)};
         } else if (const rational_constant* const as_rational =
                        get_if<const rational_constant>(ratio);
                    as_rational != nullptr) {
           const auto [int_part, _] = as_rational->normalized();
           if (int_part.is_zero()) {
             // If int_part is zero, the rest of this logic just wastes time.
-            return input_expression;
+            return std::nullopt;
           }
           // Subtract the integer part from the exponent.
           // For example, this would handle the replacement:
           // x**(4/3*y + z) replacing [x**y -> w] producing w * x**(1/3y + z)
           it->second = it->second - target_exp_coeff * int_part.value();
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, int_part.value()) *
-                 power::create(candidate_base, new_exponent);
+          return partial_match{power::create(candidate_base, new_exponent),
+                               power::create(replacement_, int_part.value())};
         }
       }
     } else {
@@ -289,21 +311,22 @@ struct substitute_pow_visitor
       const scalar_expr multiple = candidate.exponent() / target_exponent;
       if (const integer_constant* const as_int = get_if<const integer_constant>(multiple);
           as_int != nullptr) {
-        return power::create(replacement_, multiple);
+        return partial_match{constants::one, power::create(replacement_, multiple)};
       } else if (const rational_constant* const as_rational =
                      get_if<const rational_constant>(multiple);
                  as_rational != nullptr) {
         const auto [int_part, frac_remainder] = as_rational->normalized();
         if (int_part.is_zero()) {
           // Can't do a full division
-          return input_expression;
+          return std::nullopt;
         }
-        return power::create(replacement_, int_part.value()) *
-               power::create(candidate_base, target_exponent * scalar_expr(frac_remainder));
+        return partial_match{
+            power::create(candidate_base, target_exponent * scalar_expr(frac_remainder)),
+            power::create(replacement_, int_part.value())};
       }
     }
 
-    return input_expression;
+    return std::nullopt;
   }
 };
 
@@ -393,7 +416,14 @@ static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
   // This constexpr-if is temporary. It is here because we only support variables
   // of _scalar_ type for now, but that will change shortly.
   if constexpr (std::is_same_v<X, scalar_expr>) {
-    if (!target.template is_type<variable, compound_expression_element>()) {
+    if (const compound_expression_element* const element =
+            get_if<const compound_expression_element>(target);
+        element != nullptr) {
+      if (!element->provenance().template is_type<custom_type_argument>()) {
+        // The element depends on other expressions, which may be the subject of substitutions.
+        return false;
+      }
+    } else if (!target.template is_type<variable>()) {
       return false;
     }
 
@@ -414,13 +444,7 @@ static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
     return false;
   }
 
-  // If the replacement _is_ a leaf, we still need to check if it matches one
-  // of our targets. If so, we have an order specific dependency.
-  if constexpr (std::is_same_v<X, scalar_expr>) {
-    return !visitor.contains_target_variable(replacement);
-  } else {
-    return true;
-  }
+  return true;
 }
 
 static std::optional<substitute_variables_visitor> create_unordered_subs_visitor(
@@ -439,6 +463,15 @@ static std::optional<substitute_variables_visitor> create_unordered_subs_visitor
       return std::nullopt;
     }
   }
+  if (!force_unordered_execution) {
+    // Even if all the replacements are leaf nodes, we still need to check if they match one of our
+    // targets. If so, we have an order specific dependency.
+    for (const auto& pair : pairs) {
+      if (visitor.contains_target_variable(std::get<1>(std::get<scalar_pair>(pair)))) {
+        return std::nullopt;
+      }
+    }
+  }
   return {std::move(visitor)};
 }
 
-- 
2.43.0


From 872af1205109ef8fce4e6a612e837c101582d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 09/33] fix: names of variables introduced by
 eliminate_subexpressions

The default names v0, v1, ... could be those of variables in the input.
---
 components/core/wf/cse.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/cse.cc b/components/core/wf/cse.cc
index c4dbfcd..c7d7e49 100644
--- a/components/core/wf/cse.cc
+++ b/components/core/wf/cse.cc
@@ -4,6 +4,7 @@
 #include "wf/cse.h"
 
 #include <cstddef>
+#include <string>
 #include <type_traits>
 #include <unordered_map>
 #include <unordered_set>
@@ -12,6 +13,7 @@
 #include "wf/expression_cache.h"
 #include "wf/expression_iteration.h"
 #include "wf/expression_visitor.h"
+#include "wf/expressions/variable.h"
 #include "wf/utility/hashing.h"
 
 namespace wf {
@@ -57,7 +59,21 @@ cse_visitor::cse_visitor(const counter_visitor& counter, variable_function make_
       make_variable_(std::move(make_variable)),
       min_occurrences_(min_occurrences) {
   if (!make_variable_) {
-    make_variable_ = [](std::size_t index) { return scalar_expr{fmt::format("v{}", index)}; };
+    // Use v0, v1, ... but skip the names of variables that appear in the input.
+    std::unordered_set<std::string> used_names{};
+    for (const auto& [expr, _] : counter.counts()) {
+      if (const variable* var = get_if<const variable>(expr); var != nullptr) {
+        used_names.insert(var->name());
+      }
+    }
+    make_variable_ = [used_names = std::move(used_names), next_index = std::size_t{0}](
+                         std::size_t) mutable {
+      std::string name = fmt::format("v{}", next_index++);
+      while (used_names.count(name)) {
+        name = fmt::format("v{}", next_index++);
+      }
+      return scalar_expr{std::move(name)};
+    };
   }
   replacements_.reserve(10);
 }
-- 
2.43.0


From 36cd0bf39fa1ef295463db4d7baaa05a9bd1ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 10/33] fix: negative sizes and derivative orders of matrices
 raise errors

---
 components/core/wf/expressions/matrix.cc | 2 +-
 components/core/wf/matrix_expression.cc  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/matrix.cc b/components/core/wf/expressions/matrix.cc
index 7ddbb95..eea7fb0 100644
--- a/components/core/wf/expressions/matrix.cc
+++ b/components/core/wf/expressions/matrix.cc
@@ -21,7 +21,7 @@ matrix::matrix(const index_t rows, const index_t cols, container_type data)
 
 matrix matrix::get_block(const index_t row, const index_t col, const index_t nrows,
                          const index_t ncols) const {
-  if (row < 0 || row + nrows > rows_ || col < 0 || col + ncols > cols_) {
+  if (row < 0 || nrows < 0 || row + nrows > rows_ || col < 0 || ncols < 0 || col + ncols > cols_) {
     throw dimension_error(
         "Block [position: ({}, {}), size: ({}, {})] is out of bounds for matrix of shape ({}, {})",
         row, col, nrows, ncols, rows_, cols_);
diff --git a/components/core/wf/matrix_expression.cc b/components/core/wf/matrix_expression.cc
index c01f283..4d2ad57 100644
--- a/components/core/wf/matrix_expression.cc
+++ b/components/core/wf/matrix_expression.cc
@@ -88,6 +88,9 @@ static matrix_expr map_matrix_expression(const matrix_expr& expr, F&& f) {
 
 matrix_expr matrix_expr::diff(const scalar_expr& var, const int reps,
                               const non_differentiable_behavior behavior) const {
+  if (reps < 0) {
+    throw invalid_argument_error("Derivative order must be >= 0, received: {}", reps);
+  }
   derivative_visitor visitor{var, behavior};
   return map_matrix_expression(*this, [&visitor, reps](const scalar_expr& x) {
     scalar_expr result = x;
-- 
2.43.0


From 4d96b1889dbee13887935948f5a82298d4f43d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 11/33] fix: outputs of custom type that are arguments, results
 of calls, or written twice

---
 .../core/wf/code_generation/ast_conversion.cc | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 3a2df5b..b8f7dc8 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -122,7 +122,8 @@ void ast_form_visitor::push_back_output_operations(const ir::const_block_ptr blo
 
     const ir::save& save = value->as_op<ir::save>();
     const output_key& key = save.key();
-    auto converted_value = visit_operation_argument(value->first_operand(), std::nullopt);
+    const ir::const_value_ptr saved = value->first_operand();
+    auto converted_value = visit_operation_argument(saved, std::nullopt);
 
     if (key.usage == expression_usage::return_value) {
       WF_ASSERT(block->has_no_descendants(), "Must be the final block");
@@ -140,9 +141,27 @@ void ast_form_visitor::push_back_output_operations(const ir::const_block_ptr blo
             emplace_operation<ast::assign_output_matrix>(
                 *arg, *get_if<construct_matrix>(converted_value));
           },
-          [&](const custom_type&) {
+          [&](const custom_type& custom) {
+            if (const auto construct = get_if<construct_custom_type>(converted_value); construct) {
+              emplace_operation<ast::assign_output_struct>(*arg, *construct);
+              return;
+            }
+            // The object was not constructed in this function: it is an input argument, or the
+            // result of a call. Copy the members into the output.
+            if (!declared_values_.contains(saved) && !get_if<get_argument>(converted_value)) {
+              emplace_operation<ast::declaration>(format_variable_name(saved),
+                                                  saved->non_void_type(),
+                                                  std::move(converted_value));
+              declared_values_.insert(saved);
+            }
+            std::vector<ast::ast_element> members{};
+            members.reserve(custom.total_size());
+            for (std::size_t i = 0; i < custom.total_size(); ++i) {
+              members.push_back(make_field_access_sequence(
+                  visit_operation_argument(saved, std::nullopt), custom, i));
+            }
             emplace_operation<ast::assign_output_struct>(
-                *arg, *get_if<construct_custom_type>(converted_value));
+                *arg, type_constructor{std::move(members)}(custom));
           });
     }
   }
@@ -199,15 +218,16 @@ inline bool is_argument_read_operation(const ir::const_value_ptr val) {
   return false;
 }
 
-inline bool is_output_matrix_construction(const ir::const_value_ptr val) {
+// Return true if the specified value constructs a matrix or custom type that is written to an
+// output. These are always written in-line, in the statement that assigns the output.
+inline bool is_output_construction(const ir::const_value_ptr val) {
   const bool is_output =
       std::any_of(val->consumers().begin(), val->consumers().end(),
                   [](const ir::const_value_ptr& v) { return v->is_op<ir::save>(); });
   if (!is_output || !val->is_op<ir::construct>()) {
     return false;
   }
-  const auto& construct = val->as_op<ir::construct>();
-  return std::holds_alternative<matrix_type>(construct.type());
+  return true;
 }
 
 void ast_form_visitor::process_block(const ir::const_block_ptr block) {
@@ -250,7 +270,7 @@ void ast_form_visitor::process_block(const ir::const_block_ptr block) {
       const bool needs_declaration = (is_argument_read_operation(value) ||
                                       (!should_inline_constant(value) &&
                                        (num_non_phi_consumers > 1 || phi_consumers.size() > 1))) &&
-                                     !is_output_matrix_construction(value);
+                                     !is_output_construction(value);
       if (needs_declaration) {
         declared_values_.insert(value);
       }
-- 
2.43.0


From 1c6fa6ab8d75a53c8188b1320f2685d98cebb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 12/33] fix: parenthesise conditional expressions and
 comparisons used as operands in generated code

---
 components/core/wf/code_generation/ast_conversion.cc | 10 +++++-----
 components/core/wf/enumerations.h                    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index b8f7dc8..a3e030a 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -435,8 +435,8 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::ca
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::compare& compare) {
   return ast::ast_element{std::in_place_type_t<ast::compare>{}, compare.operation(),
-                          visit_operation_argument(val[0], std::nullopt),
-                          visit_operation_argument(val[1], std::nullopt)};
+                          visit_operation_argument(val[0], precedence::relational),
+                          visit_operation_argument(val[1], precedence::relational)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
@@ -448,9 +448,9 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cond&) {
   return ast::ast_element{std::in_place_type_t<ast::ternary>{},
-                          visit_operation_argument(val[0], precedence::ternary),
-                          visit_operation_argument(val[1], precedence::ternary),
-                          visit_operation_argument(val[2], precedence::ternary)};
+                          visit_operation_argument(val[0], precedence::power),
+                          visit_operation_argument(val[1], precedence::power),
+                          visit_operation_argument(val[2], precedence::power)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::copy&) {
diff --git a/components/core/wf/enumerations.h b/components/core/wf/enumerations.h
index 115e5b0..f1ffdf4 100644
--- a/components/core/wf/enumerations.h
+++ b/components/core/wf/enumerations.h
@@ -13,11 +13,11 @@ using index_t = int;
 
 // Mathematical precedence of operators.
 enum class precedence : int {
-  relational = 0,
+  ternary = 0,
+  relational,
   addition,
   multiplication,
   power,
-  ternary,
   none = std::numeric_limits<int>::max(),
 };
 
-- 
2.43.0


From b5a3f9af179d70d453b2d6931ca583164b9277bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 13/33] fix: parenthesise the sign function and its argument in
 generated C++ and Rust

---
 .../core/wf/code_generation/cpp_code_generator.cc      |  2 +-
 components/core/wf/code_generation/ir_value.cc         |  4 ++++
 .../core/wf/code_generation/rust_code_generator.cc     | 10 ++++++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index dadd09d..e0f76cf 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -265,7 +265,7 @@ std::string cpp_code_generator::operator()(const ast::call_std_function& x) cons
                          make_view(x[0]));
     case std_math_function::signum:
       // TODO: Casts should be different, depending on type of first arg.
-      return fmt::format("(static_cast<Scalar>(0) < {arg}) - ({arg} < static_cast<Scalar>(0))",
+      return fmt::format("(static_cast<Scalar>(0) < ({arg})) - (({arg}) < static_cast<Scalar>(0))",
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("static_cast<{}>(std::floor({}))",
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 993a3d2..338b21b 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -36,6 +36,10 @@ precedence value::operation_precedence() const {
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
       [](const ir::cond&) constexpr { return precedence::ternary; },
+      [](const ir::call_std_function& f) constexpr {
+        // C++ and Rust have no sign function, so it is generated as a subtraction.
+        return f.name() == std_math_function::signum ? precedence::addition : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 88e30c1..d88c594 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -235,9 +235,15 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
                          string_from_standard_library_function(x.function));
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
-    case std_math_function::signum:
+    case std_math_function::signum: {
+      // Anything other than a variable must be wrapped before it can be compared (eg. a cast).
+      std::string arg = operator()(x[0]);
+      if (!ast::get_if<ast::variable_ref>(x[0])) {
+        arg = "(" + arg + ")";
+      }
       return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
-                         fmt::arg("arg", make_view(x[0])));
+                         fmt::arg("arg", arg));
+    }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
     case std_math_function::atan2:
-- 
2.43.0


From a5df8bf28c5fb84a7d012434d01bb9255a7aff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 14/33] fix: cast integer arguments of math functions to
 floating point

---
 components/core/wf/code_generation/ir_form_visitor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 3bd44bc..4ff37c2 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -202,6 +202,17 @@ ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& fu
   // Convert args to values:
   auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
 
+  if (enum_value == std_math_function::floor &&
+      args[0]->numeric_type() == numeric_primitive_type::integral) {
+    return args[0];  //  Already an integer.
+  }
+  if (enum_value != std_math_function::abs) {
+    // The other math functions are defined for floating point arguments.
+    for (ir::value_ptr& arg : args) {
+      arg = maybe_cast(arg, numeric_primitive_type::floating_point);
+    }
+  }
+
   const numeric_primitive_type numeric_type = std_function_output_type(enum_value, args);
   return push_operation(ir::call_std_function{enum_value}, numeric_type, args);
 }
-- 
2.43.0


From dae31d18cd25e2c1485b1eed2f43ddec3495396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 15/33] fix: integer powers, negated casts and returned custom
 arguments in generated Rust

---
 .../wf/code_generation/rust_code_generator.cc | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index d88c594..a575d8a 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -3,6 +3,8 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/code_generation/rust_code_generator.h"
 
+#include <limits>
+
 #include "wf/code_generation/ast_visitor.h"
 #include "wf/utility/index_range.h"
 #include "wf/utility/overloaded_visit.h"
@@ -197,7 +199,7 @@ std::string rust_code_generator::operator()(const ast::call_external_function& x
   result += join_enumerate(", ", x.args, [&](const std::size_t index, const ast::ast_element& v) {
     std::string arg_str = operator()(v);
     if (is_get_argument_with_custom_type(v)) {
-      return arg_str;
+      return arg_str;  //  Already borrowed.
     }
     if (const argument& arg = x.function.argument_at(index);
         arg.is_custom_type() || arg.is_matrix()) {
@@ -246,8 +248,16 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
+    case std_math_function::powi: {
+      // The exponent is an i64, but `powi` accepts an i32.
+      const auto literal = ast::get_if<ast::integer_literal>(x[1]);
+      if (literal && literal->value >= std::numeric_limits<std::int32_t>::min() &&
+          literal->value <= std::numeric_limits<std::int32_t>::max()) {
+        return fmt::format("({}).powi({})", make_view(x[0]), literal->value);
+      }
+      return fmt::format("({}).powf(({}) as f64)", make_view(x[0]), make_view(x[1]));
+    }
     case std_math_function::atan2:
-    case std_math_function::powi:
     case std_math_function::powf:
       return fmt::format("({}).{}({})", make_view(x[0]),
                          string_from_standard_library_function(x.function), make_view(x[1]));
@@ -357,6 +367,11 @@ std::string rust_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string rust_code_generator::operator()(const ast::negate& x) const {
+  if (const auto cast = ast::get_if<ast::cast>(x.arg);
+      cast && cast->source_type == numeric_primitive_type::boolean) {
+    // Unary minus has higher precedence than `as`, and cannot be applied to a bool.
+    return fmt::format("-({})", make_view(x.arg));
+  }
   return fmt::format("-{}", make_view(x.arg));
 }
 
@@ -368,7 +383,11 @@ std::string rust_code_generator::operator()(const ast::optional_output_branch& x
 }
 
 std::string rust_code_generator::operator()(const ast::return_object& x) const {
-  return operator()(x.value);
+  std::string result = operator()(x.value);
+  if (is_get_argument_with_custom_type(x.value)) {
+    result.append(".clone()");  //  The argument is borrowed.
+  }
+  return result;
 }
 
 std::string rust_code_generator::operator()(const ast::parenthetical& x) const {
-- 
2.43.0


From 781144b3688ce116c79bfd65b622ac36ed921b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 16/33] fix: powers in code generated for PyTorch call th.pow

---
 .../core/wf/code_generation/python_code_generator.cc       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index cead274..8d64ada 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -359,7 +359,7 @@ std::string python_code_generator::operator()(const ast::call_external_function&
 }
 
 constexpr static std::string_view python_string_from_std_math_function(
-    const std_math_function function) {
+    const python_generator_target target, const std_math_function function) {
   switch (function) {
     case std_math_function::cos:
     case std_math_function::sin:
@@ -400,7 +400,8 @@ constexpr static std::string_view python_string_from_std_math_function(
     }
     case std_math_function::powi:
     case std_math_function::powf: {
-      return "power";
+      // torch does not have `power`.
+      return target == python_generator_target::pytorch ? "pow" : "power";
     }
   }
   WF_ASSERT_ALWAYS("Unhandled standard math function: {}",
@@ -409,7 +410,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
-                     python_string_from_std_math_function(x.function),
+                     python_string_from_std_math_function(target_, x.function),
                      fmt::join(x.args | std::views::transform(*this), ", "));
 }
 
-- 
2.43.0


From fe6674e5145d6edeae3d085ee2a001245a4c5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 17/33] fix: sizes of optional output tensors in code generated
 for PyTorch

---
 .../core/wf/code_generation/python_code_generator.cc  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 8d64ada..f8714dd 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -494,11 +494,14 @@ std::string python_code_generator::operator()(const ast::optional_output_branch&
   if (use_output_arguments_) {
     fmt::format_to(std::back_inserter(result), "if {} is not None:", x.arg.name());
     if (const matrix_type* mat = std::get_if<matrix_type>(&x.arg.type()); mat != nullptr) {
+      // On torch tensors `size` is a method that returns the shape.
+      const std::string_view size =
+          target_ == python_generator_target::pytorch ? "numel()" : "size";
       fmt::format_to(std::back_inserter(result),
-                     "\n{:{}}assert {}.size == {}, f\"Matrix {} should have {} elements, but it "
-                     "has {{{}.size}}\"",
-                     "", indent_, x.arg.name(), mat->size(), x.arg.name(), mat->size(),
-                     x.arg.name());
+                     "\n{:{}}assert {}.{} == {}, f\"Matrix {} should have {} elements, but it "
+                     "has {{{}.{}}}\"",
+                     "", indent_, x.arg.name(), size, mat->size(), x.arg.name(), mat->size(),
+                     x.arg.name(), size);
     }
   } else {
     fmt::format_to(std::back_inserter(result), "if compute_{}:", x.arg.name());
-- 
2.43.0


From d5e6f386c18114207a5c62a0b12bdca925af5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 18/33] fix: literals are tensors in code generated for PyTorch

---
 .../wf/code_generation/python_code_generator.cc  | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index f8714dd..27aee5f 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -457,12 +457,8 @@ std::string python_code_generator::operator()(const ast::divide& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::float_literal& x) const {
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, fmt::format("{}", x.value),
-                                   numeric_primitive_type::floating_point, float_width_);
-  } else {
-    return fmt::format("{}", x.value);
-  }
+  return format_scalar_type_cast(target_, fmt::format("{}", x.value),
+                                 numeric_primitive_type::floating_point, float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::get_argument& x) const {
@@ -526,12 +522,8 @@ std::string python_code_generator::operator()(const ast::return_object&) const {
 std::string python_code_generator::operator()(const ast::special_constant& x) const {
   const auto constant = fmt::format("{}.{}", python_module_prefix_from_target(target_),
                                     x.value == symbolic_constant_enum::euler ? "e" : "pi");
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
-                                   float_width_);
-  } else {
-    return constant;
-  }
+  return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
+                                 float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::ternary& x) const {
-- 
2.43.0


From 81a7d903e45d44a7884ec72787b375c3a9ea476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 19/33] fix: negative indices combined with slices of a matrix

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 5e87a98..c5be6e4 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -150,7 +150,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() - row : row;
+  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -165,7 +165,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() - col : col;
+  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From 908bbb00fad2acc568fb7565f745810942dfe6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 20/33] fix: rows without elements raise instead of dividing by
 zero

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index c5be6e4..945bcdd 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -219,6 +219,9 @@ inline matrix_expr stack_iterables(const std::vector<py::object>& rows) {
   // Transform the first row to get the # of columns.
   auto it = rows.begin();
   const std::size_t expected_num_cols = extract_iterable_rows(*it, converted);
+  if (expected_num_cols == 0) {
+    throw dimension_error("Cannot construct matrix from rows without elements.");
+  }
   converted.reserve(rows.size() * expected_num_cols);
 
   // All other elements must match.
-- 
2.43.0


From bbce227d7e584336fc740818929ed573f66a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 21/33] fix: conversion of a matrix to a numpy array of a given
 dtype

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 945bcdd..b9fcd72 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -408,8 +408,13 @@ void wrap_matrix_operations(py::module_& m) {
       .def("__getitem__", &matrix_get_row_slice_and_col_index, py::arg("row_slice_and_col"),
            "Slice a specific column.")
       // Support conversion to numpy.
-      .def("__array__", &numpy_from_matrix,
-           "Convert to numpy array. See :func:`wrenfold.sym.MatrixExpr.eval` for limitations.")
+      .def(
+          "__array__",
+          // numpy passes the dtype as a positional argument, and converts the result itself.
+          [](const matrix_expr& self, const py::args&, const py::kwargs& kwargs) {
+            return numpy_from_matrix(self, kwargs);
+          },
+          "Convert to numpy array. See :func:`wrenfold.sym.MatrixExpr.eval` for limitations.")
       // Iterable:
       .def("__len__", &matrix_expr::rows, "Number of rows in the matrix.")
       .def(
-- 
2.43.0


From f88454b5d17b8f1514986351cb82103b4a3f7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 22/33] fix: an invalid matrix index raises also next to an
 empty slice

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index b9fcd72..f9e07d8 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -151,12 +151,14 @@ matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
   const index_t wrapped_row = row < 0 ? self.rows() + row : row;
+  // This checks the index, also when the slice is empty.
+  const matrix_expr row_block = self.get_block(wrapped_row, 0, 1, self.cols());
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
   elements.reserve(static_cast<std::size_t>(col_index.length()));
   for (index_t j = 0; j < col_index.length(); ++j) {
-    elements.push_back(self(wrapped_row, col_index.map_index(j)));
+    elements.push_back(row_block(0, col_index.map_index(j)));
   }
   return matrix_expr::create(1, col_index.length(), std::move(elements));
 }
@@ -166,12 +168,14 @@ matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
   const index_t wrapped_col = col < 0 ? self.cols() + col : col;
+  // This checks the index, also when the slice is empty.
+  const matrix_expr col_block = self.get_block(0, wrapped_col, self.rows(), 1);
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
   elements.reserve(static_cast<std::size_t>(row_index.length()));
   for (index_t i = 0; i < row_index.length(); ++i) {
-    elements.push_back(self(row_index.map_index(i), wrapped_col));
+    elements.push_back(col_block(row_index.map_index(i), 0));
   }
   return matrix_expr::create(row_index.length(), 1, std::move(elements));
 }
-- 
2.43.0


From 990934b3d1986c322f68528862cadf68875e9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 23/33] fix: Quaternion.eval evaluates its elements

---
 components/wrapper/pywrenfold/geometry_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/geometry_wrapper.cc b/components/wrapper/pywrenfold/geometry_wrapper.cc
index 20c3814..d068a68 100644
--- a/components/wrapper/pywrenfold/geometry_wrapper.cc
+++ b/components/wrapper/pywrenfold/geometry_wrapper.cc
@@ -41,7 +41,7 @@ static std::vector<scalar_expr> list_from_quaternion(const quaternion& q) {
 }
 
 static auto eval_quaternion(const quaternion& q) {
-  return numpy_from_matrix(q.to_vector_wxyz(), {});
+  return numpy_from_matrix(q.to_vector_wxyz().eval(), {});
 }
 
 void wrap_geometry_operations(py::module_& m) {
-- 
2.43.0


From d0a85054082d702afa7c8fad3462543e2d0eceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 24/33] fix: parenthesize a negated negation in C++ (-- is the
 decrement operator)

---
 components/core/wf/code_generation/cpp_code_generator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index e0f76cf..fd9c053 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -382,7 +382,12 @@ std::string cpp_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string cpp_code_generator::operator()(const ast::negate& x) const {
-  return fmt::format("-{}", make_view(x.arg));
+  const std::string arg = fmt::format("{}", make_view(x.arg));
+  if (!arg.empty() && arg.front() == '-') {
+    // `--` would be the decrement operator.
+    return fmt::format("-({})", arg);
+  }
+  return fmt::format("-{}", arg);
 }
 
 std::string cpp_code_generator::operator()(const ast::optional_output_branch& x) const {
-- 
2.43.0


From 7361b25bfb6bf669da4b0217c1b6a04c183d5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 25/33] fix: print external functions that take no arguments

---
 components/core/wf/plain_formatter.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e476886..e5b34bb 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -145,13 +145,12 @@ std::string plain_formatter::operator()(const compound_expression_element& el) {
 
 std::string plain_formatter::operator()(const external_function_invocation& invocation) {
   std::string output = fmt::format("{}(", invocation.function().name());
-  auto it = invocation.begin();
-  if (it != invocation.end()) {
-    output += operator()(*it);
-  }
-  for (++it; it != invocation.end(); ++it) {
-    output += ", ";
+  if (auto it = invocation.begin(); it != invocation.end()) {
     output += operator()(*it);
+    for (++it; it != invocation.end(); ++it) {
+      output += ", ";
+      output += operator()(*it);
+    }
   }
   output += ")";
   return output;
-- 
2.43.0


From b709573d17da5357a79202c8583a164dd35a32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 26/33] fix: convert a variable to one sympy Symbol (symbols()
 splits and expands names)

---
 components/wrapper/pywrenfold/sympy_conversion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index 0d652fd..e263078 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -206,7 +206,7 @@ class sympy_conversion_visitor {
   }
 
   py::object operator()(const variable& var) const {
-    return invoke_sympy_object("symbols", var.name(), **get_variable_kwargs(var.set()));
+    return invoke_sympy_object("Symbol", var.name(), **get_variable_kwargs(var.set()));
   }
 
   template <typename T>
-- 
2.43.0


From 48d9413da46e95d6f262ed979be4c55afc12a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 27/33] fix: substitute elements of a struct argument that is
 passed on as a whole

---
 .../wf/expressions/custom_type_expressions.cc |  2 +-
 .../wf/expressions/custom_type_expressions.h  |  3 ++
 components/core/wf/substitute.cc              | 31 ++++++++++++++++++-
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/expressions/custom_type_expressions.cc b/components/core/wf/expressions/custom_type_expressions.cc
index a05c569..9516936 100644
--- a/components/core/wf/expressions/custom_type_expressions.cc
+++ b/components/core/wf/expressions/custom_type_expressions.cc
@@ -18,7 +18,7 @@ custom_type_construction::custom_type_construction(custom_type type, std::vector
 
 // Check if the underlying type of the compound expression is a custom type.
 // Return a pointer to the custom type if it is.
-static maybe_null<const custom_type*> maybe_get_custom_type(const compound_expr& expr) {
+maybe_null<const custom_type*> maybe_get_custom_type(const compound_expr& expr) {
   return visit(
       expr, make_overloaded(
                 [](const external_function_invocation& invocation) -> const custom_type* {
diff --git a/components/core/wf/expressions/custom_type_expressions.h b/components/core/wf/expressions/custom_type_expressions.h
index eb8cc90..3b6ae7e 100644
--- a/components/core/wf/expressions/custom_type_expressions.h
+++ b/components/core/wf/expressions/custom_type_expressions.h
@@ -117,4 +117,7 @@ struct order_struct<custom_type_construction> {
   }
 };
 
+// Get the custom type that `expr` evaluates to, if it evaluates to one.
+maybe_null<const custom_type*> maybe_get_custom_type(const compound_expr& expr);
+
 }  // namespace wf
diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 1db61ad..ca2b464 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -40,7 +40,21 @@ struct substitute_visitor_base {
 
   template <typename X, typename = enable_if_inherits_expression_base_t<X>>
   X operator()(const X& expr) {
-    return cache_.get_or_insert(expr, [this](const X& x) { return visit(x, *this); });
+    return cache_.get_or_insert(expr, [this](const X& x) {
+      if constexpr (std::is_same_v<X, compound_expr> &&
+                    std::is_same_v<TargetConcreteExpressionType, compound_expression_element>) {
+        // The object that `target_` is an element of may be used as a whole:
+        if (are_identical(target_.provenance(), x)) {
+          if (const maybe_null<const custom_type*> type = maybe_get_custom_type(x);
+              type.has_value()) {
+            std::vector<scalar_expr> elements = create_expression_elements(x, type->total_size());
+            elements.at(target_.index()) = replacement_;
+            return custom_type_construction::create(*type, std::move(elements));
+          }
+        }
+      }
+      return visit(x, *this);
+    });
   }
 
   // The argument is neither an addition nor a multiplication:
@@ -383,6 +397,21 @@ matrix_expr substitute_variables_visitor::operator()(const matrix_expr& expressi
 }
 
 compound_expr substitute_variables_visitor::operator()(const compound_expr& expression) {
+  if (const custom_type_argument* const argument = get_if<const custom_type_argument>(expression);
+      argument != nullptr) {
+    // The argument is used as a whole, so it contains every one of its elements:
+    std::vector<scalar_expr> elements =
+        create_expression_elements(expression, argument->type().total_size());
+    for (scalar_expr& element : elements) {
+      if (const auto it = substitutions_.find(element); it != substitutions_.end()) {
+        element = it->second;
+      }
+    }
+    if (!elements.empty()) {
+      return custom_type_construction::create(argument->type(), std::move(elements));
+    }
+    return expression;
+  }
   return visit(expression, *this);
 }
 
-- 
2.43.0


From 568d852c6571112376def23f51ad569e560214bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 28/33] fix: abstract derivatives with respect to elements of
 struct arguments

---
 .../core/wf/expressions/derivative_expression.cc     |  8 +++++---
 components/core/wf/utility_visitors.cc               | 12 ++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/derivative_expression.cc b/components/core/wf/expressions/derivative_expression.cc
index 65096ce..763dcf6 100644
--- a/components/core/wf/expressions/derivative_expression.cc
+++ b/components/core/wf/expressions/derivative_expression.cc
@@ -3,6 +3,7 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/expressions/derivative_expression.h"
 
+#include "wf/expressions/compound_expression_element.h"
 #include "wf/expressions/function_expressions.h"
 #include "wf/expressions/variable.h"
 
@@ -14,12 +15,13 @@ scalar_expr derivative::create(scalar_expr function, scalar_expr arg, int order)
   }
 
   if (!arg.is_type<variable, unique_variable, function_argument_variable,
-                   symbolic_function_invocation>()) {
+                   compound_expression_element, symbolic_function_invocation>()) {
     throw type_error(
-        "Derivatives can only be taken with respect to on of: [{}, {}, {}, {}]. Argument is of "
+        "Derivatives can only be taken with respect to on of: [{}, {}, {}, {}, {}]. Argument is of "
         "type `{}`: {}",
         variable::name_str, unique_variable::name_str, function_argument_variable::name_str,
-        symbolic_function_invocation::name_str, arg.type_name(), arg.to_string());
+        compound_expression_element::name_str, symbolic_function_invocation::name_str,
+        arg.type_name(), arg.to_string());
   }
 
   if (const derivative* d = get_if<const derivative>(function);
diff --git a/components/core/wf/utility_visitors.cc b/components/core/wf/utility_visitors.cc
index 59995ff..87e36f6 100644
--- a/components/core/wf/utility_visitors.cc
+++ b/components/core/wf/utility_visitors.cc
@@ -96,6 +96,13 @@ template <typename T>
 template <typename U>
 bool is_function_of_visitor<T>::operator()(const U& x) const {
   if constexpr (inherits_expression_base_v<U>) {
+    if constexpr (std::is_same_v<U, compound_expr> &&
+                  std::is_same_v<T, compound_expression_element>) {
+      // The object that `target_` is an element of may be used as a whole:
+      if (are_identical(target_.provenance(), x)) {
+        return true;
+      }
+    }
     return visit(x, *this);
   } else if constexpr (std::is_same_v<U, any_expression>) {
     return std::visit(*this, x);
@@ -104,6 +111,11 @@ bool is_function_of_visitor<T>::operator()(const U& x) const {
       if (are_identical(target_, x)) {
         return true;
       }
+      if constexpr (std::is_same_v<T, compound_expression_element>) {
+        if (are_identical(target_.provenance(), x.provenance())) {
+          return false;  //  A different element of the same object.
+        }
+      }
     }
     if constexpr (!U::is_leaf_node) {
       // Keep searching: expressions of type `T` may be nested, as in f(f(x)).
-- 
2.43.0


From 4919e346f6d3d3b48245a369498c055a952a100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 29/33] fix: keep the syntax tree alive while Python holds
 spans and elements of it

---
 components/wrapper/pywrenfold/ast_wrapper.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/components/wrapper/pywrenfold/ast_wrapper.cc b/components/wrapper/pywrenfold/ast_wrapper.cc
index 86b58a0..577170d 100644
--- a/components/wrapper/pywrenfold/ast_wrapper.cc
+++ b/components/wrapper/pywrenfold/ast_wrapper.cc
@@ -121,7 +121,8 @@ void wrap_ast(py::module_& m) {
           "__iter__",
           [](const ast_element_span& self) {
             return py::make_iterator(py::type<ast_element_span>(), "iterator",
-                                     ast_span_iterator::begin(self), ast_span_iterator::end(self));
+                                     ast_span_iterator::begin(self), ast_span_iterator::end(self),
+                                     py::keep_alive<0, 1>());
           },
           py::keep_alive<0, 1>())
       .def(
@@ -193,10 +194,11 @@ void wrap_ast(py::module_& m) {
                    "Condition governing which branch to take.")
       .def_prop_ro(
           "if_branch", [](const ast::branch& c) -> ast_element_span { return c.if_branch; },
-          py::rv_policy::reference_internal, "Statements that evaluate when the condition is true.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
+          "Statements that evaluate when the condition is true.")
       .def_prop_ro(
           "else_branch", [](const ast::branch& c) -> ast_element_span { return c.else_branch; },
-          py::rv_policy::reference_internal,
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
           "Statements that evaluate when the condition is false.")
       .doc() = "Emit an if-else statement: ``if (condition) { ... } else { ... }``";
 
@@ -204,7 +206,7 @@ void wrap_ast(py::module_& m) {
       .def_prop_ro("function", [](const ast::call_external_function& c) { return c.function; })
       .def_prop_ro(
           "args", [](const ast::call_external_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal)
+          py::rv_policy::reference, py::keep_alive<0, 1>())
       .doc() = "Invoke a user-provided external function.";
 
   map.at<ast::call_std_function>()
@@ -213,7 +215,7 @@ void wrap_ast(py::module_& m) {
           "The function being invoked.")
       .def_prop_ro(
           "args", [](const ast::call_std_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Arguments to the function.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(), "Arguments to the function.")
       .doc() = "Invoke a standard library math function.";
 
   map.at<ast::cast>()
@@ -246,7 +248,8 @@ void wrap_ast(py::module_& m) {
           "Describe dimensions of the matrix.")
       .def_prop_ro(
           "args", [](const ast::construct_matrix& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Contents of the matrix, in row-major order.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
+          "Contents of the matrix, in row-major order.")
       .doc() = "Construct a matrix from a list of statements.";
 
   map.at<ast::construct_custom_type>()
@@ -349,6 +352,7 @@ void wrap_ast(py::module_& m) {
           [](const ast::optional_output_branch& self) -> ast_element_span {
             return self.statements;
           },
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
           "Statements that are relevant when the optional argument is present.")
       .doc() =
       "Conditionally assign values to an optional output argument: ``if (<argument exists>) { ... "
@@ -400,7 +404,8 @@ void wrap_ast(py::module_& m) {
       .def_prop_ro(
           "body",
           [](const ast::function_definition& self) -> ast_element_span { return self.body(); },
-          "Statements that make up the body of the function.", py::rv_policy::reference_internal)
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
+          "Statements that make up the body of the function.")
       .doc() =
       "Define a generated function. This is the top level object of the emitted syntax tree.";
 }
-- 
2.43.0


From bf2a3ad8454d7f3d80eceba365356af8a3d7ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 30/33] fix: allow custom generators to format expressions
 nested more than 31 deep

---
 components/wrapper/pywrenfold/code_formatting_wrapper.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/wrapper/pywrenfold/code_formatting_wrapper.cc b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
index 962e663..c5ae857 100644
--- a/components/wrapper/pywrenfold/code_formatting_wrapper.cc
+++ b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
@@ -174,14 +174,15 @@ class wrapped_generator : public Base {
   mutable recursion_counters recursions_;
 
   // Because we know the ast tree is not very deep, we can catch infinite recursions by counting
-  // recursions and throwing when we pass a relatively low threshold. This type increases the count
-  // on construction, and decreases it on destruction.
+  // recursions and throwing when we pass a threshold. The threshold must leave room for legitimate
+  // nesting: a polynomial in Horner form nests one multiplication per degree. This type increases
+  // the count on construction, and decreases it on destruction.
   class recursion_guard {
    public:
     template <typename T>
     explicit recursion_guard(recursion_counters& counters, const T&)
         : counter_(counters[typeid(T)]) {
-      if (constexpr std::int32_t max_recursions = 32; counter_ + 1 == max_recursions) {
+      if (constexpr std::int32_t max_recursions = 256; counter_ + 1 == max_recursions) {
         throw std::runtime_error(
             fmt::format("Recursed {} times while formatting type `{}`. It is possible that a "
                         "formatting override specified in python is calling itself indirectly. "
-- 
2.43.0


From dfb293370b3c5559ba0eae54253f6c1e6c8a8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 31/33] fix: format and super_format accept function
 definitions

---
 .../pywrenfold/code_formatting_wrapper.cc     |  5 ++-
 components/wrapper/stubs/pywrenfold/gen.pyi   | 40 +++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/code_formatting_wrapper.cc b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
index c5ae857..68ca02e 100644
--- a/components/wrapper/pywrenfold/code_formatting_wrapper.cc
+++ b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
@@ -293,8 +293,9 @@ static auto wrap_code_generator(py::module_& m, const std::string_view name) {
 
   // Wrap all the operator() methods.
   register_all_format_operators<
-      type_list_concatenate_t<ast::ast_element_types, type_list<ast::function_signature>>>{}(klass,
-                                                                                             "ast");
+      type_list_concatenate_t<ast::ast_element_types,
+                              type_list<ast::function_signature, ast::function_definition>>>{}(
+      klass, "ast");
   register_all_format_operators<type_list_from_variant_t<type_variant>>{}(klass, "type_info");
   return klass;
 }
diff --git a/components/wrapper/stubs/pywrenfold/gen.pyi b/components/wrapper/stubs/pywrenfold/gen.pyi
index cf9d85e..89e1a53 100644
--- a/components/wrapper/stubs/pywrenfold/gen.pyi
+++ b/components/wrapper/stubs/pywrenfold/gen.pyi
@@ -421,6 +421,10 @@ class CppGenerator:
     def format(self, element: pywrenfold.ast.FunctionSignature) -> str:
         """Format type :class:`wrenfold.ast.FunctionSignature`."""
 
+    @overload
+    def format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """Format type :class:`wrenfold.ast.FunctionDefinition`."""
+
     @overload
     def format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """Format type :class:`wrenfold.type_info.ScalarType`."""
@@ -613,6 +617,12 @@ class CppGenerator:
         Format type :class:`wrenfold.ast.FunctionSignature`. Invokes the wrapped base class implementation.
         """
 
+    @overload
+    def super_format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """
+        Format type :class:`wrenfold.ast.FunctionDefinition`. Invokes the wrapped base class implementation.
+        """
+
     @overload
     def super_format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """
@@ -770,6 +780,10 @@ class RustGenerator:
     def format(self, element: pywrenfold.ast.FunctionSignature) -> str:
         """Format type :class:`wrenfold.ast.FunctionSignature`."""
 
+    @overload
+    def format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """Format type :class:`wrenfold.ast.FunctionDefinition`."""
+
     @overload
     def format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """Format type :class:`wrenfold.type_info.ScalarType`."""
@@ -962,6 +976,12 @@ class RustGenerator:
         Format type :class:`wrenfold.ast.FunctionSignature`. Invokes the wrapped base class implementation.
         """
 
+    @overload
+    def super_format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """
+        Format type :class:`wrenfold.ast.FunctionDefinition`. Invokes the wrapped base class implementation.
+        """
+
     @overload
     def super_format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """
@@ -1119,6 +1139,10 @@ class BaseGenerator:
     def format(self, element: pywrenfold.ast.FunctionSignature) -> str:
         """Format type :class:`wrenfold.ast.FunctionSignature`."""
 
+    @overload
+    def format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """Format type :class:`wrenfold.ast.FunctionDefinition`."""
+
     @overload
     def format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """Format type :class:`wrenfold.type_info.ScalarType`."""
@@ -1311,6 +1335,12 @@ class BaseGenerator:
         Format type :class:`wrenfold.ast.FunctionSignature`. Invokes the wrapped base class implementation.
         """
 
+    @overload
+    def super_format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """
+        Format type :class:`wrenfold.ast.FunctionDefinition`. Invokes the wrapped base class implementation.
+        """
+
     @overload
     def super_format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """
@@ -1491,6 +1521,10 @@ class PythonGenerator:
     def format(self, element: pywrenfold.ast.FunctionSignature) -> str:
         """Format type :class:`wrenfold.ast.FunctionSignature`."""
 
+    @overload
+    def format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """Format type :class:`wrenfold.ast.FunctionDefinition`."""
+
     @overload
     def format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """Format type :class:`wrenfold.type_info.ScalarType`."""
@@ -1683,6 +1717,12 @@ class PythonGenerator:
         Format type :class:`wrenfold.ast.FunctionSignature`. Invokes the wrapped base class implementation.
         """
 
+    @overload
+    def super_format(self, element: pywrenfold.ast.FunctionDefinition) -> str:
+        """
+        Format type :class:`wrenfold.ast.FunctionDefinition`. Invokes the wrapped base class implementation.
+        """
+
     @overload
     def super_format(self, element: pywrenfold.type_info.ScalarType) -> str:
         """
-- 
2.43.0


From 728ac35c0e0c561f5e519caeb9c9997fdadccd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 32/33] fix: overridden formatters apply inside function calls
 and matrix literals

---
 components/core/wf/code_generation/cpp_code_generator.cc | 2 +-
 .../core/wf/code_generation/python_code_generator.cc     | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index fd9c053..56a8dd1 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -307,7 +307,7 @@ std::string cpp_code_generator::operator()(const ast::construct_matrix& x) const
     throw_matrix_error<ast::construct_matrix>();
   } else {
     return fmt::format("(Eigen::Matrix<Scalar, {}, {}>() << {}).finished()", x.type.rows(),
-                       x.type.cols(), fmt::join(x.args | std::views::transform(*this), ", "));
+                       x.type.cols(), join(", ", x.args, *this));
   }
 }
 
diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 27aee5f..6655462 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -3,7 +3,6 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/code_generation/python_code_generator.h"
 
-#include <ranges>
 #include <span>
 
 #include "wf/code_generation/ast_formatters.h"
@@ -344,8 +343,8 @@ std::string python_code_generator::operator()(const ast::branch& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::call_external_function& x) const {
-  const std::string result = fmt::format("{}({})", x.function.name(),
-                                         fmt::join(x.args | std::views::transform(*this), ", "));
+  const std::string result =
+      fmt::format("{}({})", x.function.name(), join(", ", x.args, *this));
   if (const matrix_type* mat = std::get_if<matrix_type>(&x.function.return_type());
       mat != nullptr) {
     return fmt::format("{}.asarray({}, dtype={}.{}).reshape({}, {})",
@@ -411,7 +410,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
                      python_string_from_std_math_function(target_, x.function),
-                     fmt::join(x.args | std::views::transform(*this), ", "));
+                     join(", ", x.args, *this));
 }
 
 std::string python_code_generator::operator()(const ast::cast& x) const {
@@ -430,7 +429,7 @@ std::string python_code_generator::operator()(const ast::compare& x) const {
 
 std::string python_code_generator::operator()(const ast::construct_matrix& x) const {
   return fmt::format("{}([{}]).reshape({}, {})", python_matrix_constructor_from_target(target_),
-                     fmt::join(x.args | std::views::transform(*this), ", "), x.type.rows(),
+                     join(", ", x.args, *this), x.type.rows(),
                      x.type.cols());
 }
 
-- 
2.43.0


From dfa4d37c80574a7b406352bbc08e0fa195915816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 33/33] fix: refuse matrices of another shape in returned
 custom types

---
 components/python/wrenfold/custom_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/python/wrenfold/custom_types.py b/components/python/wrenfold/custom_types.py
index faac525..5b82d9d 100644
--- a/components/python/wrenfold/custom_types.py
+++ b/components/python/wrenfold/custom_types.py
@@ -206,6 +206,11 @@ def map_expressions_out_of_custom_type(
                     f"Expected field `{field.name}` on type `{custom_type.name}` to be an "
                     f"instance of sym.MatrixExpr, but found `{type(value)}`."
                 )
+            if tuple(value.shape) != tuple(field.type.shape):
+                raise TypeError(
+                    f"Expected field `{field.name}` on type `{custom_type.name}` to have shape "
+                    f"{field.type.shape}, but found {value.shape}."
+                )
             expressions.extend(value.to_flat_list())
         else:
             expressions += map_expressions_out_of_custom_type(value, custom_type=field.type)
-- 
2.43.0

