From 8d1619dec43c3553d3297b29f2b2033326547d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 01/20] fix: ceildiv has to round up if the signs of its
 arguments agree

---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..5cf4eb4 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (!((n < 0) ^ (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From c4d7f27e985f863b82d2102624b3c887e1a712ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 02/20] fix: the complement of a strict nonlinear constraint is
 subject to the complementary literal

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From b56387698f4201466f275c1cc8cfd0426af27b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 03/20] fix: check for more than one nonlinear term in
 nonlinear sums

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From fcf2e1b0508258c94707ee6fa1ab29c5911d643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 04/20] fix: raising zero to a non-negative power is no
 overflow

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..f1cc0dc 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -253,7 +253,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 64e92119bebfbe8f17005458ca16881d4040c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 05/20] fix: keep the sign of the constant when extending a
 minimize constraint

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..ffa40f2 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            minimize_elems_.emplace_back(safe_inv(minimize_->adjust()), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From afcd89483414c6ec09300df859cd5a8eb7972578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 06/20] fix: an empty domain does not admit any value

---
 libclingcon/src/solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..8a4418d 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,11 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // an empty domain cannot be satisfied
+    if (domain.begin() == domain.end()) {
+        return cc.add_clause({-lit});
+    }
+
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From 82301e313a17f52bbf87026d04d325042b888de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 07/20] fix: sums of durations in disjoint constraints can
 exceed the range of a single value

---
 libclingcon/src/constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..977114d 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1598,7 +1598,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         val_t last_left;
         val_t last_right;
         val_t weight;
-        val_t u;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
@@ -1627,7 +1627,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
-- 
2.43.0


From 4159146468a224c14b054311a1f7b19bac823e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 08/20] fix: propagate elements of distinct constraints that
 are fixed from the start

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 977114d..fa08312 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // elements that are fixed already are not going to be updated
+            if (lower == upper) {
+                mark_todo_(1, idx);
+            }
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From 381d31088200096c86472de7f09b5cdbc23e401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 09/20] fix: nonlinear constraints must not be propagated
 unless their literal is true

---
 libclingcon/src/constraints.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index fa08312..4b969a2 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1424,6 +1424,8 @@ class NonlinearConstraintState : public AbstractConstraintState {
         auto &vs_y = solver.var_state(constraint_.var_y());
         nsum_t co_a = constraint_.co_a();
 
+        auto clit = constraint_.literal();
+
         auto [lower_x, upper_x, lower_y, upper_y, lower_t, upper_t] = get_bound(co_a, vs_x, vs_y);
 
         VarState *vs_z{nullptr};
@@ -1463,6 +1465,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
             // (or negative) the term a*b should behave monotonely.
             // std::cerr << "  the constraint is conflicting" << std::endl;
             auto &reason = solver.temp_reason();
+            reason.emplace_back(-clit);
             reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
             reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
             reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1477,6 +1480,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
             return cc.add_clause(reason);
         }
 
+        // bounds must only be propagated if the constraint has to hold
+        if (!cc.assignment().is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1494,6 +1502,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z < upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_y << " < " << upper_y << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1510,6 +1519,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z > upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_z << " > " << upper_z << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
-- 
2.43.0


From 33ea18eac8de1bac810c0f068e0cdd13febb16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 10/20] fix: do not shift difference constraints whose
 complement cannot be represented

---
 libclingcon/src/parsing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index f1cc0dc..1847738 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,6 +119,11 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // the complement of a difference constraint is no difference constraint
+        if (static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation &&
+            match(atom.get<Node>(Attribute::Term), "diff")) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
-- 
2.43.0


From c2157393de54f29b98109ea88ef1eb8ee34c4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 11/20] fix: negative numbers are no valid values for options
 over unsigned numbers

---
 libclingcon/src/clingcon.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..aafed02 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -128,6 +128,10 @@ template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -
     iss.imbue(std::locale::classic());
     iss.exceptions(std::iostream::failbit);
     iss.unsetf(std::ios_base::skipws);
+    // Note: negative numbers would wrap around otherwise
+    if (std::is_unsigned_v<T> && *ib == '-') {
+        throw std::runtime_error("non-negative number expected");
+    }
     T val;
     iss >> val;
     if (!iss.eof()) {
@@ -257,10 +261,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_translate_clause(char const *value) -> std::pair<uint32_t, std::optional<uint64_t>> {
-    std::optional<val_t> total = std::nullopt;
+    std::optional<uint64_t> total = std::nullopt;
     char const *comma = find_str(value, ',');
     if (*comma != '\0') {
-        total = parse_num<val_t>(comma + 1); // NOLINT
+        total = parse_num<uint64_t>(comma + 1); // NOLINT
     }
     return {parse_range_num<uint32_t>(value, comma), total};
 }
-- 
2.43.0


From 4d18157dc1f1de5960d51ac337c0bbacc258f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 12/20] fix: option values have to match completely

---
 libclingcon/src/clingcon.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index aafed02..f665179 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -120,6 +120,12 @@ template <typename... Args> [[nodiscard]] auto format(Args &&...args) -> std::st
     return oss.str();
 }
 
+//! Check if the given range matches the given string exactly.
+[[nodiscard]] auto equals(char const *begin, char const *end, char const *str) -> bool {
+    size_t len = end != nullptr ? end - begin : std::strlen(begin);
+    return len == std::strlen(str) && std::strncmp(begin, str, len) == 0;
+}
+
 template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -> T {
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
@@ -145,10 +151,10 @@ template <class T>
                                    T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max())
     -> T {
     assert(min <= max);
-    if (strncmp(begin, "min", end - begin) == 0) {
+    if (equals(begin, end, "min")) {
         return min;
     }
-    if (strncmp(begin, "max", end - begin) == 0) {
+    if (equals(begin, end, "max")) {
         return max;
     }
     auto res = strtonum<T>(begin, end);
@@ -215,13 +221,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_bool(char const *begin, char const *end = nullptr) -> bool {
-    size_t len = end != nullptr ? end - begin : std::strlen(begin);
-    if (std::strncmp(begin, "true", len) == 0 || std::strncmp(begin, "yes", len) == 0 ||
-        std::strncmp(begin, "1", len) == 0) {
+    if (equals(begin, end, "true") || equals(begin, end, "yes") || equals(begin, end, "1")) {
         return true;
     }
-    if (std::strncmp(begin, "false", len) == 0 || std::strncmp(begin, "no", len) == 0 ||
-        std::strncmp(begin, "0", len) == 0) {
+    if (equals(begin, end, "false") || equals(begin, end, "no") || equals(begin, end, "0")) {
         return false;
     }
     throw std::invalid_argument("invalid argument");
@@ -251,10 +254,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "+", comma - value) == 0) {
+    if (equals(value, comma, "+")) {
         return {std::numeric_limits<val_t>::max(), thread};
     }
-    if (std::strncmp(value, "-", comma - value) == 0) {
+    if (equals(value, comma, "-")) {
         return {std::numeric_limits<val_t>::min(), thread};
     }
     return {parse_range_num<val_t>(value, comma), thread};
@@ -276,10 +279,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "none", comma - value) == 0) {
+    if (equals(value, comma, "none")) {
         return {static_cast<val_t>(Heuristic::None), thread};
     }
-    if (std::strncmp(value, "max-chain", comma - value) == 0) {
+    if (equals(value, comma, "max-chain")) {
         return {static_cast<val_t>(Heuristic::MaxChain), thread};
     }
     throw std::invalid_argument("invalid argument");
-- 
2.43.0


From f0069f23dea920ea8b8511d2ff86771c55199b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 13/20] fix: skip indices without a value when advancing over
 an assignment

---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f665179..d9a07e1 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -617,7 +617,7 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From 77216a1fa6a7a955d017ad66827dcfb0962164d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 14/20] fix: do not add weight constraints for trivially
 satisfied implications

---
 libclingcon/clingcon/base.hh | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..22d9d63 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -25,10 +25,13 @@
 #ifndef CLINGCON_BASE_H
 #define CLINGCON_BASE_H
 
+#include <algorithm>
 #include <clingo.hh>
 #include <forward_list>
 #include <math/wide_integer/uintwide_t.h>
 #include <optional>
+#include <tuple>
+#include <vector>
 
 //! @file clingcon/base.hh
 //! Basic data types.
@@ -374,6 +377,13 @@ class InitClauseCreator final : public AbstractClauseCreator {
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
+            // Note: The solver fixes the literal of a constraint whose sum
+            // always/never reaches its bound even if just one implication is
+            // requested. Trivially satisfied implications must not be added.
+            auto [min, max] = range_(wlits);
+            if ((inv < 0 && max <= bound) || (inv > 0 && min > bound)) {
+                continue;
+            }
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
                 return false;
             }
@@ -389,6 +399,26 @@ class InitClauseCreator final : public AbstractClauseCreator {
     }
 
   private:
+    //! Compute the smallest and largest value the sum can take given the
+    //! current assignment.
+    [[nodiscard]] auto range_(std::vector<Clingo::WeightedLiteral> wlits) -> std::pair<sum_t, sum_t> {
+        auto ass = assignment();
+        std::sort(wlits.begin(), wlits.end(),
+                  [](auto const &a, auto const &b) { return std::abs(a.literal()) < std::abs(b.literal()); });
+        std::pair<sum_t, sum_t> ret{0, 0};
+        for (auto it = wlits.begin(), ie = wlits.end(); it != ie;) {
+            auto var = std::abs(it->literal());
+            sum_t pos = 0;
+            sum_t neg = 0;
+            for (; it != ie && std::abs(it->literal()) == var; ++it) {
+                (it->literal() > 0 ? pos : neg) += it->weight();
+            }
+            ret.first += ass.is_true(var) ? pos : ass.is_false(var) ? neg : std::min(pos, neg);
+            ret.second += ass.is_true(var) ? pos : ass.is_false(var) ? neg : std::max(pos, neg);
+        }
+        return ret;
+    }
+
     InitState state_{InitState::Init};
     Clingo::PropagateInit &init_;
     Statistics &stats_;
-- 
2.43.0


From 22005ef7a1b77504e37a0042945455cc0745ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 15/20] fix: look up neighbors of facts when propagating them

---
 libclingcon/src/solver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 8a4418d..6e2d785 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -792,17 +792,21 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
     // Fact propagation. (Could also be put in the litmap...)
     if (lit == TRUE_LIT) {
         assert(ass.decision_level() == 0);
+        // Note: Order literals might have been added next to a fact since it
+        // has been added to the map. Hence, the literal preceding/succeeding
+        // the fact has to be looked up again.
         for (auto [fact_lit, var, value, prec_lit] : factmap_) {
+            static_cast<void>(prec_lit);
             auto &vs = var_state(var);
             if (fact_lit == TRUE_LIT) {
-                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, -TRUE_LIT)) {
                     return false;
                 }
                 assert(vs.get_literal(value) == TRUE_LIT);
                 update_litmap_(vs, 0, value);
                 vs.unset_literal(value);
             } else {
-                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, TRUE_LIT)) {
                     return false;
                 }
                 assert(vs.get_literal(value) == -TRUE_LIT);
-- 
2.43.0


From e363bc8dcb8381f3eec29bfdf4639430d194ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 16/20] fix: update bounds of distinct terms before translating
 them

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 4b969a2..465196a 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -844,6 +844,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // Note: When multi-shot solving, there might be elements whose bounds
+        // have been undone but not been recalculated yet.
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From a90ae0e6c82bbacfa0d001cf51a62b3edab7558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 17/20] fix: do not check top-level assignments violating the
 bound as solutions

---
 libclingcon/src/propagator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index ffa40f2..9240d1d 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -532,7 +532,11 @@ void Propagator::check(Clingo::PropagateControl &control) {
     // guaranteed follow-up propagate call because all newly introduced
     // variables are watched.
     if (size == ass.size() && ass.is_total()) {
-        solver.check_full(cc, config_.check_solution);
+        // Note: On the top level, violating the bound of the minimize constraint
+        // does not lead to a conflict but just makes the step literal false.
+        // The resulting total assignment is not a solution.
+        auto check_solution = config_.check_solution && (minimize_ == nullptr || dl > 0);
+        solver.check_full(cc, check_solution);
     }
 }
 
-- 
2.43.0


From bd2722b28686c16a38195ad47ebd3966d70b345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 18/20] fix: only reset the state of removed constraints

---
 libclingcon/src/solver.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 6e2d785..cc7e88e 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -206,15 +206,21 @@ class Solver::Level {
 
         solver.inactive_.erase(std::remove_if(solver.inactive_.begin(), solver.inactive_.end(),
                                               [in_removed](auto *cs) {
+                                                  if (!in_removed(*cs)) {
+                                                      return false;
+                                                  }
                                                   cs->mark_active();
-                                                  return in_removed(*cs);
+                                                  return true;
                                               }),
                                solver.inactive_.end());
 
         solver.todo_.erase(std::remove_if(solver.todo_.begin(), solver.todo_.end(),
                                           [in_removed](auto *cs) {
+                                              if (!in_removed(*cs)) {
+                                                  return false;
+                                              }
                                               cs->mark_todo(false);
-                                              return in_removed(*cs);
+                                              return true;
                                           }),
                            solver.todo_.end());
     }
-- 
2.43.0


From ccb8b249405735ce1d43af637e7e64d704eec49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 19/20] fix: distinct and disjoint reasons must not assume a
 literal that became false

---
 libclingcon/src/constraints.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 465196a..5a2e44c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1162,8 +1162,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
         auto const &elem_j = constraint_[j];
         bool is_fact = elem_j.size() == 1;
 
+        // Note: the literal can become false while propagating
         auto lit = -constraint_.literal();
-        if (!ass.is_fixed(lit)) {
+        if (!ass.is_fixed(lit) || ass.is_true(lit)) {
             reason.emplace_back(lit);
         }
 
@@ -1685,7 +1686,8 @@ class DisjointConstraintState final : public AbstractConstraintState {
         [[nodiscard]] auto calculate_reason(val_t a, It j) -> std::vector<lit_t> & {
             auto ass = cc.assignment();
             auto &reason = solver.temp_reason();
-            if (!ass.is_fixed(clit)) {
+            // Note: the literal can become false while propagating
+            if (!ass.is_fixed(clit) || ass.is_false(clit)) {
                 reason.emplace_back(-clit);
             }
             for (auto i = begin; i != j; ++i) {
-- 
2.43.0


From b0384c1e010c29532233584edd85f87846698c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 20/20] fix: do not add weight constraints whose literal
 already satisfies the implication

---
 libclingcon/clingcon/base.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index 22d9d63..0a28724 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -377,11 +377,13 @@ class InitClauseCreator final : public AbstractClauseCreator {
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
-            // Note: The solver fixes the literal of a constraint whose sum
-            // always/never reaches its bound even if just one implication is
-            // requested. Trivially satisfied implications must not be added.
+            // Note: If the literal of a constraint is assigned or its sum
+            // always/never reaches its bound, the solver enforces both
+            // directions even if just one implication is requested. Hence,
+            // trivially satisfied implications must not be added.
+            auto ass = assignment();
             auto [min, max] = range_(wlits);
-            if ((inv < 0 && max <= bound) || (inv > 0 && min > bound)) {
+            if ((inv < 0 && (max <= bound || ass.is_false(lit))) || (inv > 0 && (min > bound || ass.is_true(lit)))) {
                 continue;
             }
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
-- 
2.43.0

