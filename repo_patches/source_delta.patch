From 5fd0700c273926745d6cdfa73d812ab35a1fd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 01/30] fix: reject rationals with a zero denominator

---
 wicked/helpers/rational.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..736629e 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,5 +1,6 @@
 #include <numeric>
 #include <regex>
+#include <stdexcept>
 
 #if USE_BOOST_1024_INT
 #include "boost/lexical_cast.hpp"
@@ -20,6 +21,9 @@ rational::rational(rational_t numerator) {
 }
 
 rational::rational(rational_t numerator, rational_t denominator) {
+  if (denominator == 0) {
+    throw std::runtime_error("rational: the denominator cannot be zero");
+  }
   // enforce a positive denominator
   numerator_ = denominator < 0 ? -numerator : numerator;
   denominator_ = denominator < 0 ? -denominator : denominator;
-- 
2.43.0


From 5200235973b51e38b9102e0a5a55e2e0c36dda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 02/30] fix: rational division keeps the denominator positive
 and allows self-division

---
 wicked/helpers/rational.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 736629e..a281a03 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -67,9 +67,9 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
-  reduce();
+  // the constructor normalizes the sign and rejects a division by zero
+  *this = rational(numerator_ * rhs.denominator_,
+                   denominator_ * rhs.numerator_);
   return *this;
 }
 
-- 
2.43.0


From c3bc2a2c901496cb66ec69370d7003a7d0e0a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 03/30] fix: convert 64-bit integers (factorials, binomials) to
 rationals without truncation

---
 wicked/helpers/rational.cc | 7 +++++++
 wicked/helpers/rational.h  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index a281a03..6c47732 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -15,6 +15,13 @@ rational::rational(int numerator) {
   denominator_ = 1;
 }
 
+#if USE_BOOST_1024_INT
+rational::rational(long long int numerator) {
+  numerator_ = numerator;
+  denominator_ = 1;
+}
+#endif
+
 rational::rational(rational_t numerator) {
   numerator_ = numerator;
   denominator_ = 1;
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..3eead5c 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -27,6 +27,10 @@ public:
   rational(rational_t numerator);
   /// initialize with integer (numerator)
   rational(int numerator);
+#if USE_BOOST_1024_INT
+  /// initialize with integer (numerator)
+  rational(long long int numerator);
+#endif
   /// return the numerator
   rational_t numerator() const;
   /// return the denominator
-- 
2.43.0


From 17856f710bd7b9bc955fca611b95330c8b0e4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 04/30] fix: return numerators and denominators beyond 64 bits
 exactly to Python

---
 wicked/api/rational_api.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wicked/api/rational_api.cc b/wicked/api/rational_api.cc
index e440a39..efda658 100644
--- a/wicked/api/rational_api.cc
+++ b/wicked/api/rational_api.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include <pybind11/pybind11.h>
 
 #include "diagrams/operator.h"
@@ -7,6 +9,13 @@
 namespace py = pybind11;
 using namespace pybind11::literals;
 
+/// Convert an integer of any size to a Python integer
+py::int_ to_python_int(const rational_t &value) {
+  std::ostringstream ss;
+  ss << value;
+  return py::int_(py::str(ss.str()));
+}
+
 void export_rational(py::module &m) {
 
   py::class_<rational, std::shared_ptr<rational>>(m, "rational")
@@ -17,11 +26,11 @@ void export_rational(py::module &m) {
       .def("compile", &rational::compile)
       .def("numerator",
            [](const rational &r) {
-             return static_cast<long long int>(r.numerator());
+             return to_python_int(r.numerator());
            })
       .def("denominator",
            [](const rational &r) {
-             return static_cast<long long int>(r.denominator());
+             return to_python_int(r.denominator());
            })
       .def("__float__", &rational::to_double)
       .def("__eq__",
-- 
2.43.0


From 0edd2444f1e2ef50fce09d1315d052a04feeb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 05/30] fix: divide by the factorial of the multiplicity of
 repeated contractions

---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..f08d07b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= factorial(kv.second);
   }
   return factor;
 }
-- 
2.43.0


From 25bb07d879ffa660a6a2cd23fb46c8b1349109a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 06/30] fix: canonicalization does not map a tensor index onto
 a free operator index

---
 wicked/algebra/symbolic_term.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..dbeada2 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,21 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // indices found only on operators keep their label, so no index of a tensor
+  // can be mapped to them
+  std::map<Index, bool> is_reserved = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &idx : tensor.indices()) {
+      is_reserved.erase(idx);
+    }
+  }
+  auto next_index = [&is_reserved](int s, std::vector<int> &count) {
+    while (is_reserved.count(Index(s, count[s])) > 0) {
+      count[s] += 1;
+    }
+    return Index(s, count[s]++);
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -194,16 +209,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(l) == 0) {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), sqop_index_count);
         }
       }
     }
@@ -211,15 +222,11 @@ scalar_t SymbolicTerm::canonicalize() {
     for (const auto &u : tensor.upper()) {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), sqop_index_count);
         }
       }
     }
-- 
2.43.0


From 817254ad917f400849d781590b1a8cd489bffa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 07/30] fix: separate a single-digit coefficient from the term
 that follows it

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..a42cc04 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -104,7 +104,7 @@ std::string Expression::str() const {
       }
       // rational(1,1).str() returns "", so we need to handle the case of
       // a pure scalar term with no operator
-      if ((factor_str.size() > 1) and (factor_str != "-")) {
+      if ((factor_str != "") and (factor_str != "-") and (factor_str != "+")) {
         factor_str += " ";
       }
     } else {
-- 
2.43.0


From 0474278c02beba3ee57bfb155fd92c28aa0a990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 08/30] fix: read back tensor labels that contain an underscore

---
 wicked/algebra/expression.cc | 2 +-
 wicked/algebra/tensor.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index a42cc04..3ebd8e0 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -258,7 +258,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
     normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..c6c3b2b 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("([a-zA-Z0-9]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      std::regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


From 1f2061ee7442d9b957983d3e93ec7f8d09a3339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 09/30] fix: recognize normal-ordered products that contain
 boson operators

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 3ebd8e0..5084567 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -261,7 +261,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
     tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
-- 
2.43.0


From 0fa82889287ed6812acd94cd56d9a24e55fa5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 10/30] fix: read back coefficients beyond 32 bits

---
 wicked/helpers/rational.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 6c47732..f9d8669 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -215,6 +215,22 @@ void rational::reduce() {
 
 #include <iostream>
 
+/// convert a string of digits to an integer
+static rational_t integer_from_digits(const std::string &digits) {
+#if USE_BOOST_1024_INT
+  if (digits.size() > 308) {
+    throw std::out_of_range("The integer " + digits + " is too large");
+  }
+  rational_t result = 0;
+  for (char digit : digits) {
+    result = result * 10 + (digit - '0');
+  }
+  return result;
+#else
+  return std::stoll(digits);
+#endif
+}
+
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
   auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
@@ -227,7 +243,7 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
   if (sign == "-") {
     numerator *= -1;
   }
@@ -239,10 +255,10 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= integer_from_digits(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= integer_from_digits(denominator_str);
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From a9193eb19ddc8aa84c57e37f444f8ed490825170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 11/30] fix: multiplication by zero does not leave terms with a
 zero coefficient

---
 wicked/helpers/algebra.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..fa48fb1 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,10 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    if (factor == scalar_t(0, 1)) {
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From 4d48e74ed1ba95b0c0ceb1269391a098cb47b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 12/30] fix: exchanging boson operators in canonicalization
 does not change the sign

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..7b86eb0 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // only exchanges of fermionic operators change the sign
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From 27c390f872983dcf86ce1298492fa09f9731ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 13/30] fix: Algebra::operator+ returns by value instead of a
 dangling reference

---
 wicked/helpers/algebra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index fa48fb1..bafdc31 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -71,7 +71,7 @@ public:
 
   /// @brief Addition operator
   /// @param rhs the term to add
-  Derived &operator+(const Algebra &rhs) {
+  Derived operator+(const Algebra &rhs) const {
     Derived result;
     for (const auto &[e, c] : terms()) {
       result.add(e, c);
-- 
2.43.0


From c33e680b377fad5d988261591a67ff47d2ce1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 14/30] fix: Expression::reindex stores the reindexed terms

---
 wicked/algebra/expression.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 5084567..558e886 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -80,6 +80,7 @@ Expression &Expression::reindex(index_map_t &idx_map) {
     term.reindex(idx_map);
     add_to_map(reindexed_terms, term, kv.second);
   }
+  terms_ = reindexed_terms;
   return *this;
 }
 
-- 
2.43.0


From 8dc9c42c0fd6948234bc0f5a6ea34489ca589a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 15/30] fix: subtracting an expression from itself does not
 invalidate the loop iterator

---
 wicked/diagrams/operator_expression.cc | 4 +++-
 wicked/helpers/algebra.hpp             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..c3d0a12 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,7 +15,9 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
-  for (const auto &vec_dop_factor : expr.terms()) {
+  // make a copy because expr may be this object
+  const opexpr_t expr_terms = expr.terms();
+  for (const auto &vec_dop_factor : expr_terms) {
     add(vec_dop_factor.first, factor * vec_dop_factor.second);
   }
 }
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index bafdc31..b00930f 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -102,7 +102,9 @@ public:
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
-    for (const auto &[e, c] : rhs.terms()) {
+    // make a copy because rhs may be this object
+    const vecspace_t rhs_terms = rhs.terms();
+    for (const auto &[e, c] : rhs_terms) {
       add(e, -c);
     }
     return *this;
-- 
2.43.0


From 4207bcd31d87c3f7d59116d5c1ac15b0234d072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 16/30] fix: a rejected add_space leaves the registered orbital
 spaces unchanged

---
 wicked/helpers/orbital_space.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..044eb71 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -81,21 +81,25 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
+  // check everything before the registry is modified
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  std::map<std::string, int> new_indices_to_pos;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (indices_to_pos_.count(index) or new_indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      new_indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));
   }
+
+  label_to_pos_[label] = pos;
+  indices_to_pos_.insert(new_indices_to_pos.begin(), new_indices_to_pos.end());
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From 70fa1f8203ce6400aeeae96dafb3192ccacafc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 17/30] fix: check the bounds of the graph matrix

---
 wicked/diagrams/graph_matrix.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..ced9254 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -12,7 +12,7 @@ GraphMatrix::GraphMatrix() {}
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
-    elements_[i] = std::make_pair(cre[i], ann[i]);
+    elements_.at(i) = std::make_pair(cre.at(i), ann.at(i));
   }
 }
 
@@ -21,19 +21,19 @@ const GraphMatrix::graph_matrix_t &GraphMatrix::elements() const {
 }
 
 const std::pair<int, int> &GraphMatrix::elements(int space) const {
-  return elements_[space];
+  return elements_.at(space);
 }
 
-int GraphMatrix::cre(int space) const { return elements_[space].first; }
+int GraphMatrix::cre(int space) const { return elements_.at(space).first; }
 
-int GraphMatrix::ann(int space) const { return elements_[space].second; }
+int GraphMatrix::ann(int space) const { return elements_.at(space).second; }
 
 void GraphMatrix::set_cre(int space, int value) {
-  elements_[space].first = value;
+  elements_.at(space).first = value;
 }
 
 void GraphMatrix::set_ann(int space, int value) {
-  elements_[space].second = value;
+  elements_.at(space).second = value;
 }
 
 int GraphMatrix::num_ops(int space) const { return cre(space) + ann(space); }
@@ -60,16 +60,16 @@ bool GraphMatrix::operator!=(GraphMatrix const &other) const {
 
 GraphMatrix &GraphMatrix::operator+=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first += rhs.elements_[s].first;
-    elements_[s].second += rhs.elements_[s].second;
+    elements_.at(s).first += rhs.elements_.at(s).first;
+    elements_.at(s).second += rhs.elements_.at(s).second;
   }
   return *this;
 }
 
 GraphMatrix &GraphMatrix::operator-=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first -= rhs.elements_[s].first;
-    elements_[s].second -= rhs.elements_[s].second;
+    elements_.at(s).first -= rhs.elements_.at(s).first;
+    elements_.at(s).second -= rhs.elements_.at(s).second;
   }
   return *this;
 }
-- 
2.43.0


From 1c3b33560c7f5083cd192e5d36e7741aab367776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 18/30] fix: remove unused bit masks that were written out of
 bounds for index positions above 63

---
 wicked/algebra/symbolic_term.cc | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index dbeada2..7098be8 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -257,15 +257,12 @@ scalar_t SymbolicTerm::simplify() {
     WPRINT(cout << "\nSpace " << orbital_subspaces->label(s) << endl;);
 
     std::vector<std::vector<Index>> equivalent_classes;
-    std::vector<std::pair<std::bitset<64>, std::bitset<64>>> ul_bit_masks;
     for (const auto &tensor : tensors_) {
-      std::bitset<64> upper_bits, lower_bits;
       {
         std::vector<Index> equivalent;
         for (const auto &u : tensor.upper()) {
           if (u.space() == s) {
             equivalent.push_back(u);
-            upper_bits[u.pos()] = true;
           }
         }
         if (equivalent.size() > 0)
@@ -276,23 +273,17 @@ scalar_t SymbolicTerm::simplify() {
         for (const auto &l : tensor.lower()) {
           if (l.space() == s) {
             equivalent.push_back(l);
-            lower_bits[l.pos()] = true;
           }
         }
         if (equivalent.size() > 0)
           equivalent_classes.push_back(equivalent);
       }
-      ul_bit_masks.push_back(std::make_pair(upper_bits, lower_bits));
     }
     WPRINT(
         for (const auto &v
              : equivalent_classes) {
           PRINT_ELEMENTS(v);
           cout << endl;
-        } for (const auto &[ub, lb]
-               : ul_bit_masks) {
-          cout << ub << endl;
-          cout << lb << endl;
         });
   }
 
-- 
2.43.0


From 5fb842bb29dd5d1988146f1354e794fd98387d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 19/30] fix: size the backtracking stack according to the
 number of operators

---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..b9a6eb2 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -25,7 +25,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
 
   // this vector is used in the backtracking algorithm to hold the list of
   // elementary contractions
-  std::vector<int> a(100, -1);
+  // each elementary contraction involves at least two operators
+  std::vector<int> a(std::max(ops.num_ops(), 0) + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 76012baf8a112ce492ce913c24dec326dcb2ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 20/30] fix: check the bounds when an index of an undefined
 space is used

---
 wicked/algebra/index.cc         | 2 +-
 wicked/algebra/symbolic_term.cc | 2 +-
 wicked/algebra/tensor.cc        | 4 ++--
 wicked/helpers/orbital_space.cc | 8 ++++----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 7098be8..4d8e0d1 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index c6c3b2b..0fe68fb 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 044eb71..57bd209 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -123,7 +123,7 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
@@ -134,11 +134,11 @@ const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space_info_.at(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space_info_.at(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -146,7 +146,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space_info_.at(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
-- 
2.43.0


From 12a820e39e9ac78246fe440401a3435675b12af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 21/30] fix: Equation.compile raises an exception when it has
 no left-hand tensor or runs out of letters

---
 wicked/algebra/equation.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..7cd9dcc 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -56,6 +56,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error(
+          "Equation::compile() - too many indices for an einsum contraction");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
@@ -101,6 +105,10 @@ std::string Equation::compile(const std::string &format) const {
 
   if (format == "einsum") {
     std::vector<std::string> str_vec;
+    if (lhs().tensors().empty()) {
+      throw std::runtime_error("Equation::compile() - the left-hand side of the "
+                               "equation does not contain a tensor");
+    }
     const auto &lhs_tensor = lhs().tensors()[0];
 
     std::string lhs_tensor_label = lhs_tensor.label();
-- 
2.43.0


From 7f6b669d344ffd61c052c1111b3ea0b6f7621066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 22/30] fix: protect the timers updated by concurrent
 contraction threads

---
 .../diagrams/wick_theorem_process_contractions.cc  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index f08d07b..68d0425 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -3,6 +3,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -45,6 +46,9 @@ std::string contraction_signature(const OperatorProduct &ops,
 
 using namespace std;
 
+// protects the timers, which are updated by several threads
+static std::mutex timers_mutex;
+
 Expression WickTheorem::process_contractions(scalar_t factor,
                                              const OperatorProduct &ops,
                                              const int minrank,
@@ -169,12 +173,18 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex);
+      timers_["canonicalize_contraction_graph"] += tc.get();
+    }
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex);
+      timers_["evaluate_contraction"] += te.get();
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 10999a78f910fa5a317f27ed7ec1956425832c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 23/30] fix: report an internal inconsistency with an exception
 instead of exit()

---
 wicked/diagrams/wick_theorem_process_contractions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 68d0425..236ce12 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -506,8 +506,8 @@ std::vector<int> WickTheorem::elements_vec_to_pos(
               : std::make_tuple(v, s, false, ops_off + i);
       if (op_map.count(key) == 0) {
         PRINT(PrintLevel::All, print_key(key, -1););
-        cout << " NOT FOUND!!!" << endl;
-        exit(1);
+        throw std::runtime_error(
+            "WickTheorem::elements_vec_to_pos - operator not found");
       } else {
         int sqop_pos = op_map[key];
         result.push_back(sqop_pos);
-- 
2.43.0


From e5fa55042c879f0a373ec29d8cd2d002758f0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 24/30] fix: throw an exception object instead of a character
 array

---
 wicked/algebra/symbolic_term.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 4d8e0d1..0d206e8 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -427,8 +427,8 @@ std::string SymbolicTerm::compile(const std::string &format) const {
       str_vec.push_back(tensor.compile(format));
     }
     if (nops()) {
-      throw "Trying to convert an SymbolicTerm object with operator terms to "
-            "ambit.";
+      throw std::runtime_error("Trying to convert an SymbolicTerm object with "
+                               "operator terms to ambit.");
     }
     return (join(str_vec, " * "));
   }
-- 
2.43.0


From af0196dbb009a39bcf9715095e349c4a84f0afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 25/30] fix: findall does not swallow regular expression errors

---
 wicked/helpers/helpers.cc | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/wicked/helpers/helpers.cc b/wicked/helpers/helpers.cc
index 1c827a0..d11ba2d 100644
--- a/wicked/helpers/helpers.cc
+++ b/wicked/helpers/helpers.cc
@@ -55,18 +55,13 @@ std::vector<std::string> split(const std::string &s, regex re) {
 
 std::vector<std::string> findall(const string &s, const std::regex &regex) {
   std::vector<std::string> result;
-  try {
-    std::sregex_iterator next(s.begin(), s.end(), regex);
-    std::sregex_iterator end;
-    std::vector<std::string> matches;
-    for (; next != end; ++next) {
-      std::smatch match = *next;
-      for (size_t k = 1; k < match.size(); ++k) {
-        result.push_back(match[k]);
-      }
+  std::sregex_iterator next(s.begin(), s.end(), regex);
+  std::sregex_iterator end;
+  for (; next != end; ++next) {
+    std::smatch match = *next;
+    for (size_t k = 1; k < match.size(); ++k) {
+      result.push_back(match[k]);
     }
-  } catch (std::regex_error &e) {
-    // Syntax error in the regular expression
   }
   return result;
 }
-- 
2.43.0


From 29bbb91c9cb16ca24dc1092fca25648fa0e951f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 26/30] fix: look-ups in the tables of field and space types
 cannot insert entries

---
 wicked/helpers/orbital_space.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 57bd209..986b873 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -8,13 +8,13 @@ std::shared_ptr<OrbitalSpaceInfo> orbital_subspaces =
 
 std::shared_ptr<OrbitalSpaceInfo> get_osi() { return orbital_subspaces; }
 
-std::map<FieldType, std::string> FieldType_to_str{
+const std::map<FieldType, std::string> FieldType_to_str{
     {FieldType::Fermion, "fermion"}, {FieldType::Boson, "boson"}};
 
-std::map<FieldType, std::string> FieldType_to_op_symbol{
+const std::map<FieldType, std::string> FieldType_to_op_symbol{
     {FieldType::Fermion, "a"}, {FieldType::Boson, "b"}};
 
-std::map<SpaceType, std::string> SpaceType_to_str{
+const std::map<SpaceType, std::string> SpaceType_to_str{
     {SpaceType::Occupied, "occupied"},
     {SpaceType::Unoccupied, "unoccupied"},
     {SpaceType::General, "general"},
@@ -108,8 +108,8 @@ std::string OrbitalSpaceInfo::str() const {
   std::vector<std::string> s;
   for (const auto &info : space_info_) {
     s.push_back("space label: " + std::string(1, info.label()) +
-                "\nfield type: " + FieldType_to_str[info.field_type()] +
-                "\nspace type: " + SpaceType_to_str[info.space_type()] +
+                "\nfield type: " + FieldType_to_str.at(info.field_type()) +
+                "\nspace type: " + SpaceType_to_str.at(info.space_type()) +
                 "\nindices: [" + join(info.indices(), ",") + "]");
   }
   return join(s, "\n\n");
@@ -142,7 +142,7 @@ FieldType OrbitalSpaceInfo::field_type(int pos) const {
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
-  return FieldType_to_op_symbol[field_type(pos)];
+  return FieldType_to_op_symbol.at(field_type(pos));
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-- 
2.43.0


From 95d8a7d9b1d3b5aa07d45549b1b2d00510660db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 27/30] fix: print the term of a (term, coefficient) pair

---
 wicked/algebra/symbolic_term.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 0d206e8..d151f3c 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -442,7 +442,7 @@ std::ostream &operator<<(std::ostream &os, const SymbolicTerm &term) {
 
 std::ostream &operator<<(std::ostream &os,
                          const std::pair<SymbolicTerm, scalar_t> &term_factor) {
-  os << term_factor.second << ' ' << term_factor.second;
+  os << term_factor.second << ' ' << term_factor.first;
   return os;
 }
 
-- 
2.43.0


From ecf92c3ec4ded8b148daaaf39e223965eaabc9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 28/30] fix: compile_einsum uses the label and indices of the
 left-hand side tensor

---
 wicked/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..36e4f5f 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -94,9 +94,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
+        left = lhs.tensors()[0].label()
         left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From 02949484af45e334b041f62b64b6504098402e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 29/30] fix: operator_expr multiplies the operator by the
 requested coefficient

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 558e886..3b0c92b 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -242,7 +242,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term, term.coefficient());
   }
   return result;
 }
-- 
2.43.0


From 8f5b8c5e86796e6703774924fc5ed283c068bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 30/30] fix: iterating over an expression yields copies of its
 terms

---
 wicked/api/expression_api.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 04f42e4..4931634 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -59,7 +59,11 @@ void export_Expression(py::module &m) {
           py::is_operator()) // Bind in-place addition with Term
       .def(
           "__iter__",
-          [](Expression &e) { return py::make_iterator(e.begin(), e.end()); },
+          [](Expression &e) {
+            // yield copies: a term must not be modified inside the expression
+            return py::make_iterator<py::return_value_policy::copy>(e.begin(),
+                                                                    e.end());
+          },
           py::keep_alive<0, 1>())
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
-- 
2.43.0

