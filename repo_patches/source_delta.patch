From e6082937d4ca72b26afdf88dbbaa149774902869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 001/134] fix: Const::is_legal shifts out of range for widths
 above 64 bits

---
 src/expr.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index ced5806..b86092b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -954,6 +954,8 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
 
 Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
     if (is_signed) {
+        // every 64-bit value fits
+        if (width >= 64) return Const::ConstantLegal::Legal;
         // compute the -max value
         uint64_t temp = (~0ull) << (width - 1);
         int64_t min = 0;
@@ -964,7 +966,7 @@ Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_sign
         std::memcpy(&max, &temp, sizeof(max));
         if (value > max) return Const::ConstantLegal::Big;
     } else {
-        uint64_t max = width == 64 ? std::numeric_limits<uint64_t>::max() : (1ull << width) - 1;
+        uint64_t max = width >= 64 ? std::numeric_limits<uint64_t>::max() : (1ull << width) - 1;
         uint64_t unsigned_value;
         std::memcpy(&unsigned_value, &value, sizeof(unsigned_value));
         if (unsigned_value > max) return Const::ConstantLegal::Big;
-- 
2.43.0


From 79ffdc64b0d3996b175305ef7bfe59d0950edcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 002/134] fix: keep the parentheses that a non-associative or
 unary parent operator needs

---
 src/expr.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b86092b..ae68de2 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1425,6 +1425,12 @@ std::shared_ptr<AssignStmt> Var::assign(Var &var, AssignmentType type) {
     return assign(var_ptr, type);
 }
 
+// a op (b op c) is the same as (a op b) op c
+bool inline is_associative_op(ExprOp op) {
+    return op == ExprOp::Add || op == ExprOp::Multiply || op == ExprOp::And || op == ExprOp::Or ||
+           op == ExprOp::Xor || op == ExprOp::LAnd || op == ExprOp::LOr;
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1440,8 +1446,10 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto *left = expr->left;
     auto *right = expr->right;
 
+    // unary operators always need the parenthesis, e.g. -(-a) and -(a - b)
     auto left_str = left->type() == VarType::Expression
-                        ? expr_to_string(left->as<Expr>().get(), expr->op == left->as<Expr>()->op,
+                        ? expr_to_string(left->as<Expr>().get(),
+                                         right != nullptr && expr->op == left->as<Expr>()->op,
                                          use_handle, ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
@@ -1450,7 +1458,8 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
-                ? expr_to_string(right->as<Expr>().get(), expr->op == right->as<Expr>()->op,
+                ? expr_to_string(right->as<Expr>().get(),
+                                 expr->op == right->as<Expr>()->op && is_associative_op(expr->op),
                                  use_handle, ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
-- 
2.43.0


From 1d79c956f8674706c44369d5481f9fb040cc7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 003/134] fix: print 64-bit unsigned constants with the top bit
 set as unsigned

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ae68de2..1aa6a99 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1413,9 +1413,9 @@ std::string Const::to_string() const {
             return ::format("{0}\'h{1}", width(), hex_value_);
         }
     } else if (is_signed_ && value_ < 0) {
-        return ::format("-{0}\'h{1:X}", width(), -value_);
+        return ::format("-{0}\'h{1:X}", width(), 0 - static_cast<uint64_t>(value_));
     } else {
-        return ::format("{0}\'h{1:X}", width(), value_);
+        return ::format("{0}\'h{1:X}", width(), static_cast<uint64_t>(value_));
     }
 }
 
-- 
2.43.0


From 0d6424533ceb58c4180fd31361cc333bb8d49e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 004/134] fix: order of function call arguments when the same
 text is passed twice

---
 src/expr.cc | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 1aa6a99..93a0317 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2354,21 +2354,18 @@ std::string FunctionCallVar::to_string() const {
     auto name =
         func_def_->is_builtin() ? "$" + func_def_->function_name() : func_def_->function_name();
     std::string result = name + " (";
-    std::vector<std::string> names;
-    names.reserve(args_.size());
-    for (auto const &iter : args_) names.emplace_back(iter.second->to_string());
     // calling ordering
-    if (!func_def_->port_ordering().empty()) {
-        auto ordering = func_def_->port_ordering();
-        std::unordered_map<std::string, uint32_t> indexing;
-        indexing.reserve(ordering.size());
-        for (auto const &[var_name, var] : args_) {
-            indexing.emplace(var->to_string(), ordering.at(var_name));
-        }
-        std::sort(names.begin(), names.end(), [&](auto const &lhs, auto const &rhs) {
-            return indexing.at(lhs) < indexing.at(rhs);
-        });
-    }
+    auto const &ordering = func_def_->port_ordering();
+    std::vector<std::pair<uint32_t, std::string>> args;
+    args.reserve(args_.size());
+    for (auto const &[var_name, var] : args_) {
+        args.emplace_back(ordering.empty() ? 0 : ordering.at(var_name), var->to_string());
+    }
+    std::stable_sort(args.begin(), args.end(),
+                     [](auto const &lhs, auto const &rhs) { return lhs.first < rhs.first; });
+    std::vector<std::string> names;
+    names.reserve(args.size());
+    for (auto const &arg : args) names.emplace_back(arg.second);
     result.append(string::join(names.begin(), names.end(), ", "));
     result.append(")");
     return result;
-- 
2.43.0


From a028eaa214e4b304366ecbdb1bc62935a7dadb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 005/134] fix: print the signedness of a function's return
 value

---
 src/codegen.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c4fd39d..c3bd436 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -652,10 +652,13 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
         if (stmt->has_return_value()) {
             auto handler = stmt->function_handler();
             auto width = 32u;
+            bool is_signed = false;
             if (handler) {
                 width = handler->width();
+                is_signed = handler->is_signed();
             }
-            return_str = "logic" + get_width_str(width) + " ";
+            return_str = std::string("logic") + (is_signed ? " signed" : "") +
+                         get_width_str(width) + " ";
         } else {
             return_str = "void ";
         }
-- 
2.43.0


From ccb61f09326b212a1da0bf98ed56c03aa5e5b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 006/134] fix: remove_fanout_one_wires leaves a port at the
 head of a chain without drivers

---
 src/optimize.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 65e4f4b..0ead437 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -227,9 +227,11 @@ public:
             }
 
             auto dst = chain.back().first;
-            Var::move_src_to(var.get(), dst.get(), generator, false);
-            // if both of them are ports, we need to add a statement
-            if (var->type() == VarType::PortIO && dst->type() == VarType::PortIO) {
+            // a port is visible from outside, so it has to keep its own drivers; otherwise whatever
+            // drives the head of the chain can drive the end of it directly
+            if (var->type() != VarType::PortIO) {
+                Var::move_src_to(var.get(), dst.get(), generator, false);
+            } else {
                 // need to add a top assign statement
                 auto stmt = dst->assign(var, AssignmentType::Blocking);
                 if (generator->debug) {
-- 
2.43.0


From 7513e4ca8e72c45bb76487462e7f74c9a039a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 007/134] fix: 64-bit operands in the evaluator's inversion and
 reductions

---
 src/eval.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index a9360a4..bdbc831 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -6,9 +6,7 @@ namespace kratos {
 auto constexpr UINT64_WIDTH_ = 64;
 
 uint64_t invert(uint64_t value, uint32_t width) {
-    auto v = ~value;
-    v ^= UINT64_MASK << width;
-    return v;
+    return truncate(~value, width);
 }
 
 uint64_t two_complement(uint64_t value, uint32_t width) {
@@ -25,7 +23,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UMinus:
             return two_complement(value, width);
         case ExprOp::UAnd:
-            return static_cast<uint32_t>(__builtin_popcount(value)) == width;
+            return static_cast<uint32_t>(__builtin_popcountll(value)) == width;
         case ExprOp::UInvert:
             return invert(value, width);
         case ExprOp::UNot:
@@ -35,7 +33,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UPlus:
             return value;
         case ExprOp::UXor: {
-            return __builtin_popcount(value) % 2;
+            return __builtin_popcountll(value) % 2;
         }
         default: throw std::runtime_error("Not implemented");
     }
-- 
2.43.0


From 7ab8e3b55fe08879f34a92257dc33467a26c254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 008/134] fix: signed comparison of equal or negative values in
 the evaluator

---
 src/eval.cc | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index bdbc831..61f6c70 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -79,28 +79,16 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = static_cast<uint64_t>(std::pow(left_value, right_value));
             break;
         case ExprOp::GreaterEqThan:
-            result = left_abs_value >= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = left_negative == right_negative ? left_value >= right_value : right_negative;
             break;
         case ExprOp::LessEqThan:
-            result = left_abs_value <= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = left_negative == right_negative ? left_value <= right_value : left_negative;
             break;
         case ExprOp::LessThan:
-            result = left_abs_value < right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = left_negative == right_negative ? left_value < right_value : left_negative;
             break;
         case ExprOp ::GreaterThan:
-            result = left_abs_value > right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = left_negative == right_negative ? left_value > right_value : right_negative;
             break;
         case ExprOp::SignedShiftRight:
             result = left_abs_value >> right_value;
-- 
2.43.0


From bbdb834d1be810cb554bc00e66b6718e7a5dd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 009/134] fix: right shifts in the evaluator

---
 src/eval.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 61f6c70..74e4baf 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -91,11 +91,16 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_negative == right_negative ? left_value > right_value : right_negative;
             break;
         case ExprOp::SignedShiftRight:
-            result = left_abs_value >> right_value;
-            if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
+            // shift in copies of the sign bit; a shift by the whole width leaves nothing else
+            if (right_value >= width) {
+                result = left_negative ? UINT64_MASK : 0;
+            } else {
+                result = left_value >> right_value;
+                if (left_negative && right_value > 0) result |= UINT64_MASK << (width - right_value);
+            }
             break;
         case ExprOp::LogicalShiftRight:
-            result = left_value >> right_value;
+            result = right_value >= width ? 0 : left_value >> right_value;
             break;
         default: {
             throw std::runtime_error("Not implemented");
-- 
2.43.0


From d285bac19b0c814255a34bd399e628abc05a8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 010/134] fix: the evaluator refuses !=, &&, ||, % and <<

---
 src/eval.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eval.cc b/src/eval.cc
index 74e4baf..327a62c 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -75,6 +75,23 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Eq:
             result = left_value == right_value;
             break;
+        case ExprOp::Neq:
+            result = left_value != right_value;
+            break;
+        case ExprOp::LAnd:
+            result = left_value && right_value;
+            break;
+        case ExprOp::LOr:
+            result = left_value || right_value;
+            break;
+        case ExprOp::Mod:
+            // the sign follows the dividend
+            result = left_abs_value % right_abs_value;
+            if (left_negative) result = two_complement(result, width);
+            break;
+        case ExprOp::ShiftLeft:
+            result = right_value >= width ? 0 : left_value << right_value;
+            break;
         case ExprOp::Power:
             result = static_cast<uint64_t>(std::pow(left_value, right_value));
             break;
-- 
2.43.0


From df48ad95ded2ab4faed8ad92ec302f0ecf627e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 011/134] fix: integer power in the evaluator goes through
 floating point

---
 src/eval.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 327a62c..e6e5ea6 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,5 +1,6 @@
 #include "eval.hh"
-#include <cmath>
+
+#include <stdexcept>
 
 namespace kratos {
 
@@ -93,7 +94,11 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = right_value >= width ? 0 : left_value << right_value;
             break;
         case ExprOp::Power:
-            result = static_cast<uint64_t>(std::pow(left_value, right_value));
+            // wraps around, as every other operator
+            result = 1;
+            for (; right_value; right_value >>= 1u, left_value *= left_value) {
+                if (right_value & 1u) result *= left_value;
+            }
             break;
         case ExprOp::GreaterEqThan:
             result = left_negative == right_negative ? left_value >= right_value : right_negative;
-- 
2.43.0


From cfa269973e75b76685a8bae770404e5b6dcfffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 012/134] fix: the simulator reads an event after popping it

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 4232ae9..90ee550 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -540,7 +540,7 @@ void Simulator::eval() {
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
-        auto &[var, stmt] = event_queue_.front();
+        auto [var, stmt] = event_queue_.front();
         event_queue_.pop();
         process_stmt(stmt, var);
     }
-- 
2.43.0


From 916ae26d51612d5111ee984be8f2d6a6157bd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 013/134] fix: the simulator reads and writes the wrong bits of
 a slice

---
 src/sim.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 90ee550..01a87f1 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -244,7 +244,7 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto low = var_low % root->var_width();
         auto high = var_high % root->var_width();
         auto value = values[base];
-        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
+        return truncate(value >> low, high - low + 1);
     } else {
         // function call
         if (var->is_function()) {
@@ -312,9 +312,9 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         auto *v = values[base];
         auto temp = *v;
         // compute the mask
-        uint64_t mask = (0xFFFFFFFFFFFFFFFF >> (var_high + 1)) >> var_low;
+        uint64_t mask = truncate(UINT64_MASK, var_high - var_low + 1) << var_low;
         *v = *v & (~mask);
-        value = value & (0xFFFFFFFFFFFFFFFF >> (var_high - var_low + 1));
+        value = truncate(value, var_high - var_low + 1);
         *v = *v | (value << var_low);
         if (*v != temp) {
             std::unordered_set<uint32_t> changed_bits;
-- 
2.43.0


From b710c4a184c171cbc7a403704b35fd5e5c83e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 014/134] fix: the simulator compares the wrong bits of a case
 label

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 01a87f1..48cf119 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -676,7 +676,7 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
             int64_t cond_val = cond->value();
             int64_t *v_p = &cond_val;
             uint64_t bits = *(reinterpret_cast<uint64_t *>(v_p));
-            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
+            bits = truncate(bits, target->width());
             if (value == bits) {
                 process_stmt(stmt.get(), var);
                 return;
-- 
2.43.0


From cfd1e4cef51f9515e72498a98da6ca9989a994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 015/134] fix: sign extension in the simulator looks at the
 wrong bit

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 48cf119..54317db 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -794,10 +794,10 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                     throw std::runtime_error("Not implemented");
                 }
                 auto v = (*value)[0];
-                if (v >> (var->width() - 1)) {
+                if (v >> (base_var->width() - 1)) {
                     // do a signed extension
                     for (uint32_t i = base_var->width(); i < var->width(); i++) {
-                        v |= 1u << i;
+                        v |= 1ull << i;
                     }
                 }
                 return std::vector<uint64_t>{v};
-- 
2.43.0


From 46b8bc33d38b0105c34d26092b0b73d343151e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 016/134] fix: reduction and is not in the list of unary
 operators

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 93a0317..31b615d 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -45,7 +45,7 @@ bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
-                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,
+                                             ExprOp::UNot,  ExprOp::UAnd,  ExprOp::UInvert,
                                              ExprOp::UMinus};
     return ops.find(op) != ops.end();
 }
-- 
2.43.0


From eb1d27ad9543f26b69addf97f49f7cbffd7f0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 017/134] fix: the simulator evaluates comparisons and
 reductions at the width of their result

---
 src/sim.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 54317db..10f1d69 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,12 +821,14 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
-                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
-                                          expr->is_signed());
+                // relational operators yield one bit but compare at the width of their operands
+                auto width = expr->left->width();
+                auto result =
+                    eval_bin_op(left_value, right_value, expr->op, width, expr->is_signed());
                 return std::vector<uint64_t>{result};
             } else {
                 auto left_value = (*left_val)[0];
-                auto result = eval_unary_op(left_value, expr->op, expr->width());
+                auto result = eval_unary_op(left_value, expr->op, expr->left->width());
                 return std::vector<uint64_t>{result};
             }
         }
-- 
2.43.0


From c77fe084a8fddedbde4ffca5f3f92c48f5dfe808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 018/134] fix: unary minus is built as a subtraction without a
 right operand

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 31b615d..643ceda 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -63,7 +63,7 @@ Expr &Var::operator-(const Var &var) const {
 }
 
 Expr &Var::operator-() const {
-    return generator()->expr(ExprOp::Minus, const_cast<Var *>(this), nullptr);
+    return generator()->expr(ExprOp::UMinus, const_cast<Var *>(this), nullptr);
 }
 
 Expr &Var::operator~() const {
-- 
2.43.0


From fa13469c241670b672d09f3387336f02dcf4f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 019/134] fix: reading a slice of a constant never returns in
 the simulator

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 10f1d69..ffe9faf 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -219,7 +219,7 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t> values;
         if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            auto value = get_value_(var);
+            auto value = get_value_(root);
             if (!value)
                 throw InternalException(
                     ::format("Unable to get value for {0}", var->handle_name()));
-- 
2.43.0


From 6d307125b27ec6dcc2af99611481b624545a3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 020/134] fix: the simulator misses what ternaries,
 concatenations, extensions and casts depend on

---
 src/sim.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index ffe9faf..b2777a0 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -101,13 +101,28 @@ private:
             }
             case VarType ::Expression: {
                 auto const &expr = reinterpret_cast<Expr *>(var);
+                if (expr->op == ExprOp::Concat) {
+                    auto const *concat = reinterpret_cast<VarConcat *>(expr);
+                    for (auto *v : concat->vars()) get_var_deps(v, dep, linked_dep);
+                    break;
+                } else if (expr->op == ExprOp::Extend) {
+                    get_var_deps(reinterpret_cast<VarExtend *>(expr)->parent_var(), dep,
+                                 linked_dep);
+                    break;
+                } else if (is_ternary_op(expr->op)) {
+                    get_var_deps(reinterpret_cast<ConditionalExpr *>(expr)->condition, dep,
+                                 linked_dep);
+                }
                 get_var_deps(expr->left, dep, linked_dep);
                 if (expr->right) {
                     get_var_deps(expr->right, dep, linked_dep);
                 }
                 break;
             }
-            case VarType::BaseCasted:
+            case VarType::BaseCasted: {
+                get_var_deps(reinterpret_cast<VarCasted *>(var)->parent_var(), dep, linked_dep);
+                break;
+            }
             case VarType ::Slice: {
                 // compute linked dependency
                 compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
-- 
2.43.0


From 78dabb0328b13648003444677852d08b0e7833bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 021/134] fix: bit range of a multi-bit slice is scaled by the
 variable's width

---
 src/util.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 46b33e7..750e3ed 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -180,18 +180,12 @@ std::pair<uint32_t, uint32_t> compute_var_high_low(
     uint64_t i = 0;
     while (i < index.size()) {
         auto const &[slice_high, slice_low] = index[i];
-        if (slice_high > slice_low) {
-            var_low += slice_low * bases[index_to_size] * root->var_width();
-            var_high = var_low +
-                       (slice_high - slice_low + 1) * bases[index_to_size] * root->var_width() - 1;
-        } else if (slice_high == slice_low && index_to_size < var_sizes.size() &&
-                   var_sizes[index_to_size] > 1) {
-            var_low += slice_low * bases[index_to_size];
-            var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
-            index_to_size++;
-        } else {
-            break;
-        }
+        // anything past the array dimensions selects bits
+        if (index_to_size >= var_sizes.size() || var_sizes[index_to_size] <= 1) break;
+        var_low += slice_low * bases[index_to_size];
+        var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
+        // a range keeps the dimension
+        if (slice_high == slice_low) index_to_size++;
         i++;
     }
 
-- 
2.43.0


From 8ef28ebc5ee5770d8cc2715c9dd68c221bcb57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 022/134] fix: the simulator tracks only one of the slices that
 cover a bit

---
 src/sim.cc | 41 +++++++++++++++++++++--------------------
 src/sim.hh |  6 +++++-
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index b2777a0..959139e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -35,12 +35,11 @@ public:
             }
         }
     }
-    using DepSet = std::pair<std::unordered_set<const Var *>,
-                             std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>>>;
+    using DepSet = std::pair<std::unordered_set<const Var *>, LinkedDependency>;
 
     static DepSet get_dep(Var *var) {
         std::unordered_set<const Var *> deps;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_deps;
+        LinkedDependency linked_deps;
         get_var_deps(var, deps, linked_deps);
         return {deps, linked_deps};
     }
@@ -49,14 +48,11 @@ public:
         return dependency_;
     }
 
-    const std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dependency()
-        const {
-        return linked_dependency_;
-    }
+    const LinkedDependency &linked_dependency() const { return linked_dependency_; }
 
 private:
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
+    LinkedDependency linked_dependency_;
 
     void visit_block(CombinationalStmtBlock *block) {
         CombinationBlockVisitor visitor;
@@ -64,7 +60,8 @@ private:
         auto const &vars = visitor.vars();
         for (auto const &var : vars) dependency_[var].emplace(block);
         for (auto const &[var, entry] : visitor.linked_vars()) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
+            for (auto const &[bit, slices] : entry)
+                linked_dependency_[var][bit].insert(slices.begin(), slices.end());
         }
     }
 
@@ -79,7 +76,8 @@ private:
         auto const &[dep, linked] = get_dep(assign->right());
         for (auto const &v : dep) dependency_[v].emplace(assign);
         for (auto const &[var, entry] : linked) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
+            for (auto const &[bit, slices] : entry)
+                linked_dependency_[var][bit].insert(slices.begin(), slices.end());
         }
     }
 
@@ -92,7 +90,7 @@ private:
 
     void static get_var_deps(
         Var *var, std::unordered_set<const Var *> &dep,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+        LinkedDependency &linked_dep) {
         switch (var->type()) {
             case VarType::Base:
             case VarType::PortIO: {
@@ -137,12 +135,12 @@ private:
 
     static void compute_linked_dep(
         VarSlice *slice,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+        LinkedDependency &linked_dep) {
         auto var_high = slice->var_high();
         auto var_low = slice->var_low();
         auto *root = slice->get_var_root_parent();
         for (uint32_t i = var_low; i <= var_high; i++) {
-            linked_dep[root].emplace(i, slice);
+            linked_dep[root][i].emplace(slice);
         }
         // if indexed by a var
         if (slice->sliced_by_var()) {
@@ -152,7 +150,7 @@ private:
             var_low = p->var_low();
             root = p->get_var_root_parent();
             for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root].emplace(i, slice);
+                linked_dep[root][i].emplace(slice);
             }
         }
     }
@@ -164,7 +162,8 @@ private:
             auto const &[dep, linked] = DependencyVisitor::get_dep(predicate.get());
             for (auto const &var : dep) vars_.emplace(var);
             for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
+                for (auto const &[bit, slices] : entry)
+                    linked_vars_[var][bit].insert(slices.begin(), slices.end());
             }
         }
 
@@ -173,7 +172,8 @@ private:
             auto const &[dep, linked] = DependencyVisitor::get_dep(target.get());
             for (auto const &var : dep) vars_.emplace(var);
             for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
+                for (auto const &[bit, slices] : entry)
+                    linked_vars_[var][bit].insert(slices.begin(), slices.end());
             }
         }
 
@@ -181,18 +181,19 @@ private:
             auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
             for (auto const &var : dep) vars_.emplace(var);
             for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
+                for (auto const &[bit, slices] : entry)
+                    linked_vars_[var][bit].insert(slices.begin(), slices.end());
             }
         }
 
         std::unordered_set<const Var *> &vars() { return vars_; }
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_vars() {
+        LinkedDependency &linked_vars() {
             return linked_vars_;
         }
 
     private:
         std::unordered_set<const Var *> vars_;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_vars_;
+        LinkedDependency linked_vars_;
     };
 };
 
@@ -531,7 +532,7 @@ void Simulator::trigger_event(const kratos::Var *var,
         auto const &vars = linked_dependency_.at(root);
         std::unordered_set<Var *> vs;
         for (const auto &[bit, v] : vars) {
-            if (bits_mask.find(bit) != bits_mask.end()) vs.emplace(v);
+            if (bits_mask.find(bit) != bits_mask.end()) vs.insert(v.begin(), v.end());
         }
 
         for (auto const &v : vs) {
diff --git a/src/sim.hh b/src/sim.hh
index 848d414..19b05f4 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -6,6 +6,10 @@
 
 namespace kratos {
 constexpr uint64_t MAX_SIMULATION_DEPTH = 0xFFFFFFFF;
+// for each variable, the slices of it that cover a bit
+using LinkedDependency =
+    std::unordered_map<const Var *, std::unordered_map<uint32_t, std::unordered_set<Var *>>>;
+
 class Simulator {
 public:
     explicit Simulator(Generator *generator);
@@ -35,7 +39,7 @@ private:
     std::queue<std::pair<const Var *, Stmt *>> event_queue_;
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
     // linked dependency is for partial updates
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
+    LinkedDependency linked_dependency_;
     // this is prevent self triggering in always block
     std::unordered_set<Stmt *> scope_;
 
-- 
2.43.0


From b685fd14d0545657c90502e83ed69f7034cf6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 023/134] fix: the simulator misses changes of the variable
 that selects a slice

---
 src/sim.cc | 56 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 959139e..942eb4d 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -37,6 +37,14 @@ public:
     }
     using DepSet = std::pair<std::unordered_set<const Var *>, LinkedDependency>;
 
+    // the target of an assignment only depends on what selects it
+    static DepSet get_target_dep(Var *var) {
+        std::unordered_set<const Var *> deps;
+        LinkedDependency linked_deps;
+        get_index_deps(var, deps, linked_deps);
+        return {deps, linked_deps};
+    }
+
     static DepSet get_dep(Var *var) {
         std::unordered_set<const Var *> deps;
         LinkedDependency linked_deps;
@@ -73,11 +81,13 @@ private:
     }
 
     void visit_assign(AssignStmt *assign) {
-        auto const &[dep, linked] = get_dep(assign->right());
-        for (auto const &v : dep) dependency_[v].emplace(assign);
-        for (auto const &[var, entry] : linked) {
-            for (auto const &[bit, slices] : entry)
-                linked_dependency_[var][bit].insert(slices.begin(), slices.end());
+        for (auto const &[dep, linked] :
+             {get_dep(assign->right()), get_target_dep(assign->left())}) {
+            for (auto const &v : dep) dependency_[v].emplace(assign);
+            for (auto const &[var, entry] : linked) {
+                for (auto const &[bit, slices] : entry)
+                    linked_dependency_[var][bit].insert(slices.begin(), slices.end());
+            }
         }
     }
 
@@ -125,6 +135,7 @@ private:
                 // compute linked dependency
                 compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
                 dep.emplace(var);
+                get_index_deps(var, dep, linked_dep);
                 break;
             }
             default: {
@@ -133,6 +144,18 @@ private:
         }
     }
 
+    // what selects the slice, at any level
+    static void get_index_deps(Var *var, std::unordered_set<const Var *> &dep,
+                               LinkedDependency &linked_dep) {
+        while (var->type() == VarType::Slice) {
+            auto *slice = reinterpret_cast<VarSlice *>(var);
+            if (slice->sliced_by_var()) {
+                get_var_deps(reinterpret_cast<VarVarSlice *>(slice)->sliced_var(), dep, linked_dep);
+            }
+            var = slice->parent_var;
+        }
+    }
+
     static void compute_linked_dep(
         VarSlice *slice,
         LinkedDependency &linked_dep) {
@@ -142,17 +165,6 @@ private:
         for (uint32_t i = var_low; i <= var_high; i++) {
             linked_dep[root][i].emplace(slice);
         }
-        // if indexed by a var
-        if (slice->sliced_by_var()) {
-            auto *var_slice = reinterpret_cast<VarVarSlice *>(slice);
-            auto *p = var_slice->sliced_var();
-            var_high = p->var_high();
-            var_low = p->var_low();
-            root = p->get_var_root_parent();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root][i].emplace(slice);
-            }
-        }
     }
 
     class CombinationBlockVisitor : public IRVisitor {
@@ -178,11 +190,13 @@ private:
         }
 
         void visit(AssignStmt *stmt) override {
-            auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                for (auto const &[bit, slices] : entry)
-                    linked_vars_[var][bit].insert(slices.begin(), slices.end());
+            for (auto const &[dep, linked] : {DependencyVisitor::get_dep(stmt->right()),
+                                              DependencyVisitor::get_target_dep(stmt->left())}) {
+                for (auto const &var : dep) vars_.emplace(var);
+                for (auto const &[var, entry] : linked) {
+                    for (auto const &[bit, slices] : entry)
+                        linked_vars_[var][bit].insert(slices.begin(), slices.end());
+                }
             }
         }
 
-- 
2.43.0


From 93bfb7fab0902456a54f977c1037e9d11fb4d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 024/134] fix: the simulator reads the unknown branch of a
 ternary

---
 src/sim.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 942eb4d..d3c111b 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -835,17 +835,17 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 return value;
             }
         } else {
-            auto left_val = get_complex_value_(expr->left);
-            if (!left_val) return left_val;
-            auto right_val = get_complex_value_(expr->right);
             if (is_ternary_op(expr->op)) {
                 auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
                 auto predicate_val = get_complex_value_(cond->condition);
-                if (!predicate_val) return right_val;
-                bool c = (*predicate_val)[0];
-                auto result = eval_ternary_op(c, (*left_val)[0], (*right_val)[0], expr->width());
-                return std::vector<uint64_t>{result};
-            } else if (!is_unary_op(expr->op)) {
+                // only the branch that is selected has to be known
+                bool c = predicate_val && (*predicate_val)[0];
+                return get_complex_value_(c ? expr->left : expr->right);
+            }
+            auto left_val = get_complex_value_(expr->left);
+            if (!left_val) return left_val;
+            auto right_val = get_complex_value_(expr->right);
+            if (!is_unary_op(expr->op)) {
                 if (!right_val) return std::nullopt;
                 if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
-- 
2.43.0


From cfbfcca353a5324bbdfa2737bcd90e08a15e0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 025/134] fix: division by zero stops the simulator

---
 src/sim.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index d3c111b..3d2cea5 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -851,6 +851,8 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
+                if (!right_value && (expr->op == ExprOp::Divide || expr->op == ExprOp::Mod))
+                    return std::nullopt;
                 // relational operators yield one bit but compare at the width of their operands
                 auto width = expr->left->width();
                 auto result =
-- 
2.43.0


From e035666014888018a9bcfefcd6ade70381ef266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 026/134] fix: the simulator cannot evaluate a replication

---
 src/sim.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 3d2cea5..c10457e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -834,6 +834,13 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
             } else {
                 return value;
             }
+        } else if (expr->op == ExprOp::Duplicate) {
+            auto value = get_value_(expr->left);
+            auto count = get_value_(expr->right);
+            if (!value || !count) return std::nullopt;
+            uint64_t result = 0;
+            for (uint64_t i = 0; i < *count; i++) result |= *value << (i * expr->left->width());
+            return std::vector<uint64_t>{result};
         } else {
             if (is_ternary_op(expr->op)) {
                 auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
-- 
2.43.0


From 41dcdacdc74d69032ca343d705024ca5af909b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 027/134] fix: the simulator does not know the value of a cast

---
 src/sim.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index c10457e..fa20a1e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -275,6 +275,16 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto high = var_high % root->var_width();
         auto value = values[base];
         return truncate(value >> low, high - low + 1);
+    } else if (var->type() == VarType::BaseCasted) {
+        auto *casted = const_cast<VarCasted *>(reinterpret_cast<const VarCasted *>(var));
+        auto const *base = casted->parent_var();
+        auto value = get_value_(base);
+        if (!value) return std::nullopt;
+        // only a resize changes the bits
+        auto result = *value;
+        if (base->is_signed() && base->width() < 64 && (result >> (base->width() - 1)) & 1u)
+            result |= UINT64_MASK << base->width();
+        return truncate(result, casted->width());
     } else {
         // function call
         if (var->is_function()) {
-- 
2.43.0


From 76da07b90830ba12eb7c9a1937826edbf395f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 028/134] fix: the simulator reads and writes past the end of
 an array when only a part of it is selected

---
 src/sim.cc | 79 +++++++++++++++++++-----------------------------------
 1 file changed, 28 insertions(+), 51 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index fa20a1e..51c5d8c 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -410,7 +410,7 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
         // compute the slice range
         auto low = var_low / root->var_width();
         auto high = var_high / root->var_width();
-        return std::vector<uint64_t>(values.begin() + low, values.end() + high + 1);
+        return std::vector<uint64_t>(values.begin() + low, values.begin() + high + 1);
     } else {
         if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
         return complex_values_.at(var);
@@ -426,72 +426,49 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         set_value_(var, value[0]);
         return;
     }
-    std::vector<uint64_t *> values;
+    // the elements of fill_var that are written
+    const Var *fill_var = var;
     uint64_t base = 1;
-    const Var *fill_var;
-    uint32_t low, high;
+    uint64_t low, high;
     if (var->type() == VarType::Slice) {
-        const auto *root = var->get_var_root_parent();
-        fill_var = root;
+        fill_var = var->get_var_root_parent();
+        for (uint32_t size : fill_var->size()) base *= size;
         auto index = get_slice_index(var);
         if (index.empty()) throw InternalException("Empty slice");
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_low % root->var_width() != 0 ||
-            (var_high % root->var_width() != root->var_width() - 1))
+        auto const [var_high, var_low] = compute_var_high_low(fill_var, index);
+        if (var_low % fill_var->var_width() != 0 ||
+            (var_high % fill_var->var_width() != fill_var->var_width() - 1))
             throw InternalException("Misaligned vector slicing");
-        low = var_low;
-        high = var_high;
-        if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-        }
+        low = var_low / fill_var->var_width();
+        high = var_high / fill_var->var_width();
+        if (high >= base) throw InternalException("Unable to resolve variable slicing");
     } else {
-        for (uint32_t s : var->size()) {
-            base *= s;
-        }
-        fill_var = var;
+        for (uint32_t size : var->size()) base *= size;
         low = 0;
         high = base - 1;
     }
+    uint32_t var_width = fill_var->var_width();
+    auto const count = high - low + 1;
+
     bool fill_in = false;
     if (complex_values_.find(fill_var) == complex_values_.end()) {
         // whatever bits changed
         // fill in values
         fill_in = true;
-        if (complex_values_.find(fill_var) == complex_values_.end()) {
-            // fill in values
-            std::vector<uint64_t> v(base);
-            for (uint64_t i = 0; i < base; i++) v[i] = 0;
-            complex_values_.emplace(var, v);
-        }
+        complex_values_.emplace(fill_var, std::vector<uint64_t>(base));
     }
+    auto &stored = complex_values_.at(fill_var);
 
-    // get values
-    if (var->type() != VarType::Slice) {
-        values.reserve(base);
-        auto &v_ref = complex_values_.at(var);
-        for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-    }
-
-    if (values.size() != value.size()) {
+    if (count != value.size()) {
         // expand the value to if the target is packed
         if (fill_var->is_packed()) {
             if (value.size() > 1) {
                 throw InternalException("Multiple value assigned to packed array not supported");
             }
             auto v = value[0];
-            std::vector<uint64_t> v_(values.size());
-            for (uint64_t i = 0; i < values.size(); i++) {
-                auto w = fill_var->var_width();
-                v_[i] = (v >> (w * i)) & (~(UINT64_MASK << w));
+            std::vector<uint64_t> v_(count);
+            for (uint64_t i = 0; i < count; i++) {
+                v_[i] = var_width * i >= 64 ? 0 : truncate(v >> (var_width * i), var_width);
             }
             value = v_;
         } else {
@@ -499,15 +476,15 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         }
     }
     std::unordered_set<uint32_t> changed_bits;
-    uint32_t var_width = fill_var->var_width();
 
-    for (uint32_t i = low; i <= high; i++) {
-        if (*(values[i]) != value[i] || fill_in) {
-            uint32_t bit_mask = (*values[i]) ^ value[i];
-            *(values[i]) = value[i];
+    for (uint64_t i = 0; i < count; i++) {
+        auto &element = stored[low + i];
+        if (element != value[i] || fill_in) {
+            uint64_t bit_mask = element ^ value[i];
+            element = value[i];
             for (uint32_t bit = 0; bit < var_width; bit++) {
                 if ((bit_mask >> bit) & 1u || fill_in) {
-                    changed_bits.emplace(bit + var_width * i);
+                    changed_bits.emplace(bit + var_width * (low + i));
                 }
             }
         }
-- 
2.43.0


From 83011d5711bc7e22c54875acb3f5c6242dcb34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 029/134] fix: the simulator reports a change of an array
 element as a change of the first element

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 51c5d8c..00349ad 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -359,9 +359,9 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         if (*v != temp) {
             std::unordered_set<uint32_t> changed_bits;
             uint64_t m = (*v) ^ temp;
-            for (uint32_t bit = 0; bit < root->width(); bit++) {
+            for (uint32_t bit = 0; bit < root->var_width(); bit++) {
                 if ((m >> bit) & 1u) {
-                    changed_bits.emplace(bit);
+                    changed_bits.emplace(bit + base * root->var_width());
                 }
             }
             trigger_event(root, changed_bits);
-- 
2.43.0


From 82f14f6fba18145a6936021aef31acf8e5ef4074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 030/134] fix: Simulator::set_i uses the values of an array as
 pointers

---
 src/sim.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 00349ad..fd8e4a7 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -598,8 +598,9 @@ void Simulator::set_i(const kratos::Var *var, const std::optional<std::vector<in
         std::vector<uint64_t> u_vs;
         u_vs.reserve(vs.size());
         for (auto v : vs) {
-            auto u_v = *(reinterpret_cast<uint64_t *>(v));
-            u_v = truncate(u_v, var->width());
+            auto u_v = *(reinterpret_cast<uint64_t *>(&v));
+            // each value is one element
+            u_v = truncate(u_v, var->var_width());
             u_vs.emplace_back(u_v);
         }
         set_complex_value_(var, u_vs);
-- 
2.43.0


From 7b4aab16bc9564a7302f49cbf722d6d67765607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 031/134] fix: the simulator follows an index that is out of
 range

---
 src/sim.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index fd8e4a7..8738f1e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -273,6 +273,8 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto base = var_low / root->var_width();
         auto low = var_low % root->var_width();
         auto high = var_high % root->var_width();
+        // nothing is known about what is outside of the variable
+        if (base >= values.size()) return std::nullopt;
         auto value = values[base];
         return truncate(value >> low, high - low + 1);
     } else if (var->type() == VarType::BaseCasted) {
@@ -349,6 +351,8 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         auto base = var_low / root->var_width();
         var_high = var_high - base * root->var_width();
         var_low = var_low - base * root->var_width();
+        // a write outside of the variable has no effect
+        if (base >= values.size()) return;
         auto *v = values[base];
         auto temp = *v;
         // compute the mask
@@ -410,6 +414,7 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
         // compute the slice range
         auto low = var_low / root->var_width();
         auto high = var_high / root->var_width();
+        if (high >= values.size()) return std::nullopt;
         return std::vector<uint64_t>(values.begin() + low, values.begin() + high + 1);
     } else {
         if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
@@ -441,7 +446,8 @@ void Simulator::set_complex_value_(const kratos::Var *var,
             throw InternalException("Misaligned vector slicing");
         low = var_low / fill_var->var_width();
         high = var_high / fill_var->var_width();
-        if (high >= base) throw InternalException("Unable to resolve variable slicing");
+        // a write outside of the variable has no effect
+        if (high >= base) return;
     } else {
         for (uint32_t size : var->size()) base *= size;
         low = 0;
-- 
2.43.0


From d995eb8c8fb44264b393bea7ef72c73104cd8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 032/134] fix: non-blocking assignments in the simulator take
 effect before other processes have run

---
 src/sim.cc | 36 +++++++++++++++++++++---------------
 src/sim.hh |  9 ++++++++-
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 8738f1e..0f5bfe6 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -343,7 +343,7 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
             for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
         }
         // obtain the index
-        auto index = get_slice_index(var);
+        auto index = target_index_ ? *target_index_ : get_slice_index(var);
         if (index.empty()) throw InternalException("Empty slice");
         auto [var_high, var_low] = compute_var_high_low(root, index);
         if (var_high + 1 - var_low > root->width())
@@ -438,7 +438,7 @@ void Simulator::set_complex_value_(const kratos::Var *var,
     if (var->type() == VarType::Slice) {
         fill_var = var->get_var_root_parent();
         for (uint32_t size : fill_var->size()) base *= size;
-        auto index = get_slice_index(var);
+        auto index = target_index_ ? *target_index_ : get_slice_index(var);
         if (index.empty()) throw InternalException("Empty slice");
         auto const [var_high, var_low] = compute_var_high_low(fill_var, index);
         if (var_low % fill_var->var_width() != 0 ||
@@ -559,13 +559,24 @@ void Simulator::trigger_event(const kratos::Var *var,
 
 void Simulator::eval() {
     simulation_depth_ = 0;
-    while (!event_queue_.empty()) {
-        if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
-            throw UserException("Simulation doesn't converge");
+    while (!event_queue_.empty() || !nba_values_.empty()) {
+        while (!event_queue_.empty()) {
+            if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
+                throw UserException("Simulation doesn't converge");
+            }
+            auto [var, stmt] = event_queue_.front();
+            event_queue_.pop();
+            process_stmt(stmt, var);
+        }
+        // every process that was triggered has run: this is the non-blocking region. updates are
+        // made in order, the last one wins
+        auto updates = std::move(nba_values_);
+        nba_values_.clear();
+        for (auto const &update : updates) {
+            target_index_ = &update.index;
+            set_complex_value_(update.var, update.value);
+            target_index_ = nullptr;
         }
-        auto [var, stmt] = event_queue_.front();
-        event_queue_.pop();
-        process_stmt(stmt, var);
     }
     scope_.clear();
 }
@@ -654,7 +665,8 @@ void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
         if (stmt->assign_type() != AssignmentType::NonBlocking)
             set_complex_value_(stmt->left(), val);
         else
-            nba_values_.emplace(stmt->left(), *val);
+            nba_values_.emplace_back(
+                NonBlockingUpdate{stmt->left(), *val, get_slice_index(stmt->left())});
     }
 }
 
@@ -736,12 +748,6 @@ void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_
     }
     if (!trigger) return;
     process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
-
-    for (auto const &[var, value] : nba_values_) {
-        set_complex_value_(var, value);
-    }
-    // clear the nba regions
-    nba_values_.clear();
 }
 
 uint64_t Simulator::static_evaluate_expr(Var *expr) {
diff --git a/src/sim.hh b/src/sim.hh
index 19b05f4..2afa6eb 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -55,7 +55,14 @@ private:
     void process_stmt(CombinationalStmtBlock *block, const Var *);
     void process_stmt(SequentialStmtBlock *block, const Var *var);
 
-    std::unordered_map<Var *, std::vector<uint64_t>> nba_values_;
+    // what selects the target is settled when the statement executes
+    struct NonBlockingUpdate {
+        const Var *var;
+        std::vector<uint64_t> value;
+        std::vector<std::pair<uint32_t, uint32_t>> index;
+    };
+    std::vector<NonBlockingUpdate> nba_values_;
+    const std::vector<std::pair<uint32_t, uint32_t>> *target_index_ = nullptr;
 
     // pull-up registers
     void init_pull_up_value(Generator *generator);
-- 
2.43.0


From 1bf3735c7afa574599ed7466c2027951852e6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 033/134] fix: the simulator stops on a write that is selected
 by an unknown variable

---
 src/sim.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 0f5bfe6..9adcbb2 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -344,7 +344,8 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         }
         // obtain the index
         auto index = target_index_ ? *target_index_ : get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
+        // it is not known which part is written
+        if (index.empty()) return;
         auto [var_high, var_low] = compute_var_high_low(root, index);
         if (var_high + 1 - var_low > root->width())
             throw InternalException("Unable to resolve variable slicing");
@@ -439,7 +440,8 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         fill_var = var->get_var_root_parent();
         for (uint32_t size : fill_var->size()) base *= size;
         auto index = target_index_ ? *target_index_ : get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
+        // it is not known which part is written
+        if (index.empty()) return;
         auto const [var_high, var_low] = compute_var_high_low(fill_var, index);
         if (var_low % fill_var->var_width() != 0 ||
             (var_high % fill_var->var_width() != fill_var->var_width() - 1))
-- 
2.43.0


From 9966bec40397b70c3a801732ce05b48b21638d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:51 +0000
Subject: [PATCH 034/134] fix: the simulator never evaluates an assignment of a
 parameter or a constant expression

---
 src/sim.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 9adcbb2..334870c 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -777,7 +777,9 @@ public:
             auto stmt = gen->get_stmt(i);
             if (stmt->type() == StatementType::Assign) {
                 auto assign = stmt->as<AssignStmt>();
-                if (assign->right()->type() == VarType::ConstValue) {
+                // nothing will ever trigger what only depends on constants
+                auto const &[dep, linked] = DependencyVisitor::get_dep(assign->right());
+                if (dep.empty() && linked.empty()) {
                     fn_(assign.get());
                 }
             }
-- 
2.43.0


From 3bd80f318a82bcd96020bc77da7b3fee0cf71a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 035/134] fix: the simulator misses changes below a variable
 index

---
 src/sim.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 334870c..c17698f 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -162,6 +162,15 @@ private:
         auto var_high = slice->var_high();
         auto var_low = slice->var_low();
         auto *root = slice->get_var_root_parent();
+        // anything below an index that is a variable can be anywhere in what is indexed
+        for (Var *v = slice; v->type() == VarType::Slice;
+             v = reinterpret_cast<VarSlice *>(v)->parent_var) {
+            auto *s = reinterpret_cast<VarSlice *>(v);
+            if (s->sliced_by_var()) {
+                var_high = s->var_high();
+                var_low = s->var_low();
+            }
+        }
         for (uint32_t i = var_low; i <= var_high; i++) {
             linked_dep[root][i].emplace(slice);
         }
-- 
2.43.0


From 765b93aa981f578e21cf7883596640ab43a98bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:42 +0000
Subject: [PATCH 036/134] fix: the simulator drops an unknown index from the
 middle of a selection

---
 src/sim.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index c17698f..ba17365 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -515,6 +515,8 @@ std::vector<std::pair<uint32_t, uint32_t>> Simulator::get_slice_index(const Var
     }
     const auto *slice = reinterpret_cast<const VarSlice *>(var);
     auto result = get_slice_index(slice->parent_var);
+    // part of something unknown
+    if (result.empty() && slice->parent_var->type() == VarType::Slice) return {};
     uint32_t high, low;
     if (slice->sliced_by_var()) {
         const auto *var_slice = reinterpret_cast<const VarVarSlice *>(slice);
-- 
2.43.0


From a53944b72e2f988237606456050a4f85bb6b27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:57 +0000
Subject: [PATCH 037/134] fix: the simulator builds its dependency tables from
 several threads without a lock

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index ba17365..02d2e2a 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -226,8 +226,8 @@ Simulator::Simulator(kratos::Generator *generator) {
     fix_assignment_type(generator);
     // compute the dependency
     DependencyVisitor visitor;
-    // visit in parallel to build up and dep table
-    visitor.visit_generator_root_p(generator);
+    // the generators share the dependency tables, so they are visited one after another
+    visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
     linked_dependency_ = visitor.linked_dependency();
     init_pull_up_value(generator);
-- 
2.43.0


From 79861796ce460445630a24cbfa1feb34d10e2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 038/134] fix: the first write to a part of a variable in the
 simulator is not propagated when it writes zeros

---
 src/sim.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 02d2e2a..007ed3d 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -330,11 +330,16 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
     } else if (var->type() == VarType::Slice) {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t *> values;
+        // the first write makes the whole variable known
+        bool fill_in = false;
         if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
             throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
         } else if (root->size().size() == 1 && root->size().front() == 1) {
             // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
+            if (values_.find(root) == values_.end()) {
+                values_[root] = 0;
+                fill_in = true;
+            }
             values = {&values_.at(root)};
         } else {
             uint32_t base = 1;
@@ -346,6 +351,7 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
                 std::vector<uint64_t> v(base);
                 for (uint64_t i = 0; i < base; i++) v[i] = 0;
                 complex_values_.emplace(root, v);
+                fill_in = true;
             }
             std::vector<uint64_t> &v_ref = complex_values_.at(root);
             values.reserve(base);
@@ -370,8 +376,11 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         *v = *v & (~mask);
         value = truncate(value, var_high - var_low + 1);
         *v = *v | (value << var_low);
-        if (*v != temp) {
+        if (*v != temp || fill_in) {
             std::unordered_set<uint32_t> changed_bits;
+            if (fill_in) {
+                for (uint32_t bit = 0; bit < root->width(); bit++) changed_bits.emplace(bit);
+            }
             uint64_t m = (*v) ^ temp;
             for (uint32_t bit = 0; bit < root->var_width(); bit++) {
                 if ((m >> bit) & 1u) {
@@ -494,13 +503,16 @@ void Simulator::set_complex_value_(const kratos::Var *var,
     }
     std::unordered_set<uint32_t> changed_bits;
 
+    if (fill_in) {
+        for (uint64_t bit = 0; bit < base * var_width; bit++) changed_bits.emplace(bit);
+    }
     for (uint64_t i = 0; i < count; i++) {
         auto &element = stored[low + i];
-        if (element != value[i] || fill_in) {
+        if (element != value[i]) {
             uint64_t bit_mask = element ^ value[i];
             element = value[i];
             for (uint32_t bit = 0; bit < var_width; bit++) {
-                if ((bit_mask >> bit) & 1u || fill_in) {
+                if ((bit_mask >> bit) & 1u) {
                     changed_bits.emplace(bit + var_width * (low + i));
                 }
             }
-- 
2.43.0


From 23fc55a530525629f1853e44c862d9a0daf898c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 039/134] fix: a bit selected by a variable from a slice is
 placed at the start of the whole variable

---
 src/expr.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 643ceda..b8230cf 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -657,9 +657,9 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         // so the width will be 1
         var_width_ = 1;
         size_ = {1};
-        // potentially cover all the bits
-        var_high_ = parent->width() - 1;
-        var_low_ = 0;
+        // potentially cover all the bits of the parent
+        var_high_ = parent->var_high();
+        var_low_ = parent->var_low();
         if (parent->width_param())
             required_width = Simulator::static_evaluate_expr(parent->width_param());
         else
-- 
2.43.0


From 28a6e427e00985ca0033c4c7f709a89e5d5787e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 040/134] fix: an if ladder that tests the same value twice
 becomes a case that runs both branches

---
 src/optimize.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 0ead437..1390141 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -29,7 +29,7 @@ private:
             std::vector<std::shared_ptr<IfStmt>> if_stmts;
             if (has_target_if(stmt, target, if_stmts) && target) {
                 uint64_t cases = if_stmts.size();
-                uint64_t expected_case = 1u << target->width();
+                uint64_t expected_case = 1ull << std::min<uint32_t>(target->width(), 63u);
                 bool has_else = !(if_stmts.back()->else_body()->empty());
                 if (expected_case > 1 && (cases >= expected_case || has_else)) {
                     auto switch_stmt = change_if_to_switch(stmt->as<IfStmt>(), if_stmts);
@@ -85,9 +85,12 @@ private:
             switch_->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
 
+        std::set<int64_t> values;
         while (std::find(if_stmts.begin(), if_stmts.end(), stmt) != if_stmts.end()) {
             auto condition = expr->right->as<Const>();
-            switch_->add_switch_case(condition, stmt->then_body());
+            // the first one wins if the same value is tested again
+            if (values.emplace(condition->value()).second)
+                switch_->add_switch_case(condition, stmt->then_body());
             if (!stmt->else_body()->empty() &&
                 std::find(if_stmts.begin(), if_stmts.end(), (*stmt->else_body())[0]) ==
                     if_stmts.end()) {
-- 
2.43.0


From 411aa02b3d433baaaace924d14cb0d6c5f0836c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 041/134] fix: removing empty blocks crashes, inverts multi-bit
 conditions bit by bit and sends empty cases to the default

---
 src/optimize.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 1390141..a5026d2 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -949,12 +949,13 @@ private:
         auto else_body = process(stmt->else_body());
         if (!then_body) {
             // then is empty
-            if (else_body->empty()) {
+            if (!else_body || else_body->empty()) {
                 return nullptr;
             } else {
                 // invert the condition and make else then
                 auto cond = stmt->predicate();
-                auto& new_cond = ~(*cond);
+                auto& new_cond =
+                    cond->width() == 1 ? ~(*cond) : cond->eq(constant(0, cond->width()));
                 stmt->set_predicate(new_cond.shared_from_this());
                 stmt->set_then(else_body->as<ScopedStmtBlock>());
                 stmt->set_else(std::make_shared<ScopedStmtBlock>());
@@ -989,8 +990,11 @@ private:
     std::shared_ptr<SwitchStmt> process(std::shared_ptr<SwitchStmt> stmt) {
         std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> new_body;
         auto const& body = stmt->body();
+        bool has_default = body.find(nullptr) != body.end() && process(body.at(nullptr));
         for (const auto& [cond, block] : body) {
             auto r = process(block);
+            // without an empty case the value would go to the default
+            if (!r && has_default) r = block;
             if (r) {
                 new_body.emplace(cond, r->as<ScopedStmtBlock>());
             }
-- 
2.43.0


From 0f8a42c01e55175197ce5ecbeb1ee828a3281672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 042/134] fix: a case without statements cannot be generated

---
 src/codegen.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c3bd436..d55be52 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -907,12 +907,8 @@ void SystemVerilogCodeGen::stmt_code(SwitchStmt* stmt) {
     for (auto& cond : conds) {
         const auto& stmt_blk = (body.find(cond) != body.end()) ? body.at(cond) : nullptr;
         stream_ << indent() << (cond ? stream_.var_str(cond) : "default") << ": ";
-        if (stmt_blk && stmt_blk->empty() && cond) {
-            throw VarException(
-                ::format("Switch statement condition {0} is empty!", stream_.var_str(cond)),
-                {stmt, cond.get()});
-        } else if (!stmt_blk || (stmt_blk->empty() && !cond)) {
-            //  empty default case
+        if (!stmt_blk || stmt_blk->empty()) {
+            //  nothing to do in this case
             stream_ << "begin end" << stream_.endl();
         } else {
             // directly output the code if the block only has 1 element
-- 
2.43.0


From e518e90e6791a4611cff07e2f87810b533dda160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 043/134] fix: statements moved out of an else branch by
 remove_empty_block are cleared

---
 src/optimize.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a5026d2..5f49065 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -957,8 +957,12 @@ private:
                 auto& new_cond =
                     cond->width() == 1 ? ~(*cond) : cond->eq(constant(0, cond->width()));
                 stmt->set_predicate(new_cond.shared_from_this());
-                stmt->set_then(else_body->as<ScopedStmtBlock>());
-                stmt->set_else(std::make_shared<ScopedStmtBlock>());
+                // move the statements over; clearing the else body would clear them as well
+                auto stmts = std::vector<std::shared_ptr<Stmt>>(else_body->begin(), else_body->end());
+                for (auto const& st : stmts) {
+                    stmt->remove_else_stmt(st);
+                    stmt->add_then_stmt(st);
+                }
                 return stmt;
             }
         }
-- 
2.43.0


From 9cf5401aa33ecd052a13d80db3f4c284feded551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 044/134] fix: merge_wire_assignments ignores which bits are
 assigned and moves assignments past other statements

---
 src/optimize.cc | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 5f49065..14c8faa 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -448,8 +448,9 @@ private:
             if (left_parent->type() == VarType::Slice) continue;
             if (right_parent->type() == VarType::Slice) continue;
             if (left_parent->width() != right_parent->width()) continue;
-            if (left_parent->size().size() != right_parent->size().size() ||
-                left_parent->size().front() != right_parent->size().front())
+            if (left_parent->size() != right_parent->size() ||
+                left_parent->is_packed() != right_parent->is_packed() ||
+                left_parent->is_signed() != right_parent->is_signed())
                 continue;
 
             slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
@@ -461,7 +462,25 @@ private:
 
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
+            // every slice has to be assigned to its own place, and nothing can be assigned twice
             if (stmts.size() != left->width()) continue;
+            std::set<uint32_t> bits;
+            bool same_place = true;
+            for (auto const& stmt : stmts) {
+                auto left_slice = stmt->left()->as<VarSlice>();
+                auto right_slice = stmt->right()->as<VarSlice>();
+                if (left_slice->sliced_by_var() || right_slice->sliced_by_var() ||
+                    left_slice->var_low() != right_slice->var_low() ||
+                    left_slice->var_high() != right_slice->var_high()) {
+                    same_place = false;
+                    break;
+                }
+                for (auto bit = left_slice->var_low(); bit <= left_slice->var_high(); bit++) {
+                    if (!bits.emplace(bit).second) same_place = false;
+                }
+            }
+            if (!same_place || bits.size() != left->width()) continue;
+            if (!can_merge(generator, stmts)) continue;
 
             // remove left's sources and right's sink
             // also add it to the statements to remove
@@ -474,6 +493,22 @@ private:
             create_new_assignment(generator, stmts, left, right);
         }
     }
+    static bool can_merge(Generator*, const std::vector<std::shared_ptr<AssignStmt>>&) {
+        return true;
+    }
+
+    // statements of a block run one after another, so only neighbors can be merged
+    static bool can_merge(StmtBlock* block, const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        uint64_t first = block->size(), last = 0;
+        for (uint64_t i = 0; i < block->size(); i++) {
+            if (std::find(stmts.begin(), stmts.end(), block->get_stmt(i)) != stmts.end()) {
+                first = std::min(first, i);
+                last = i;
+            }
+        }
+        return last - first + 1 == stmts.size();
+    }
+
     void static create_new_assignment(Generator* generator,
                                       const std::vector<std::shared_ptr<AssignStmt>>& stmts,
                                       Var* const left, Var* const right) {
@@ -497,7 +532,13 @@ private:
         // use the first assignment type. assume all the assignment has passed the
         // mixed assignment check
         auto new_stmt = left->assign(right->shared_from_this(), stmts[0]->assign_type());
-        block->add_stmt(new_stmt);
+        // take the place of the first one
+        for (uint64_t i = 0; i < block->size(); i++) {
+            if (std::find(stmts.begin(), stmts.end(), block->get_stmt(i)) != stmts.end()) {
+                block->set_child(i, new_stmt);
+                break;
+            }
+        }
         auto* generator = get_parent(block);
         if (generator->debug) {
             // merge all the statements
-- 
2.43.0


From ad7b1120506514b736a72b6c9ef63fbe0db87fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 045/134] fix: the leveled graph reads an entry after popping
 it

---
 src/graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.cc b/src/graph.cc
index bf795c6..9832b7d 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -129,7 +129,7 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     uint32_t max_level = 0;
 
     while (!queue.empty()) {
-        const auto &[generator, current_level] = queue.front();
+        const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
-- 
2.43.0


From cebd5c87b820e6dc0e11d4e131440e1f0a767646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 046/134] fix: if statements replaced by a case stay in the
 sinks of their predicates after they are freed

---
 src/optimize.cc | 4 ++++
 src/stmt.hh     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 14c8faa..90d646c 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -91,6 +91,10 @@ private:
             // the first one wins if the same value is tested again
             if (values.emplace(condition->value()).second)
                 switch_->add_switch_case(condition, stmt->then_body());
+            else
+                stmt->then_body()->clear();
+            // the if statement itself is gone
+            stmt->clear_predicate();
             if (!stmt->else_body()->empty() &&
                 std::find(if_stmts.begin(), if_stmts.end(), (*stmt->else_body())[0]) ==
                     if_stmts.end()) {
diff --git a/src/stmt.hh b/src/stmt.hh
index e565ac7..747750c 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -152,6 +152,8 @@ public:
 
     std::shared_ptr<Var> predicate() const { return predicate_; }
     void set_predicate(const std::shared_ptr<Var> &var);
+    // for a statement that is about to be dropped while what it contains lives on
+    void clear_predicate() { predicate_stmt_->clear(); }
     const std::shared_ptr<ScopedStmtBlock> &then_body() const { return then_body_; }
     const std::shared_ptr<ScopedStmtBlock> &else_body() const { return else_body_; }
     void add_then_stmt(const std::shared_ptr<Stmt> &stmt);
-- 
2.43.0


From d04a85e7bbdc919cf21c250551e273a4114a3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 047/134] fix: empty statements that are removed stay in the
 sinks of what they test after they are freed

---
 src/optimize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 90d646c..71c519c 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -983,6 +983,7 @@ public:
             if (!dispatch_node(stmt)) stmts_to_remove.emplace_back(stmt);
         }
         for (auto const& stmt : stmts_to_remove) {
+            stmt->clear();
             top->remove_stmt(stmt);
         }
     }
@@ -1028,6 +1029,7 @@ private:
             stmt->set_child(i, r);
         }
         for (auto const& st : stmts_to_remove) {
+            st->clear();
             stmt->remove_stmt(st);
         }
         if (stmt->empty())
-- 
2.43.0


From 19d6a586741cd8ee7dacba28ee82e639d81d1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 048/134] fix: dead code elimination removes clocks and resets
 that trigger a block

---
 src/optimize.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 71c519c..01513a9 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1192,6 +1192,7 @@ class DeadCodeVarElimination : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         bool changed = true;
+        compute_event_vars(generator);
 
         while (changed) {
             changed = false;
@@ -1199,6 +1200,7 @@ public:
             for (auto const& var_name : var_names) {
                 auto const& var = generator->get_var(var_name);
                 if (var->type() != VarType::Base) continue;
+                if (event_vars_.find(var.get()) != event_vars_.end()) continue;
                 if (var->sinks().empty()) {
                     // remove all the sources
                     remove_var(var.get());
@@ -1214,7 +1216,26 @@ public:
     }
 
 private:
-    static void clear_out_ports(Generator* generator) {
+    // what triggers a sequential block doesn't show up in the sinks
+    std::unordered_set<const Var*> event_vars_;
+
+    void compute_event_vars(Generator* generator) {
+        event_vars_.clear();
+        uint64_t stmt_count = generator->stmts_count();
+        for (uint64_t i = 0; i < stmt_count; i++) {
+            auto stmt = generator->get_stmt(i);
+            if (stmt->type() != StatementType::Block) continue;
+            auto block = stmt->as<StmtBlock>();
+            if (block->block_type() != StatementBlockType::Sequential) continue;
+            auto const& events = block->as<SequentialStmtBlock>()->get_event_controls();
+            for (auto const& event : events) {
+                event_vars_.emplace(event.var);
+                event_vars_.emplace(event.var->get_var_root_parent());
+            }
+        }
+    }
+
+    void clear_out_ports(Generator* generator) const {
         // we don't deal with top level ports, since it changes
         // interface
         if (!generator->parent_generator()) return;
@@ -1222,6 +1243,7 @@ private:
         std::vector<std::string> ports_to_remove;
         for (auto const& port_name : port_names) {
             auto const& p = generator->get_port(port_name);
+            if (event_vars_.find(p.get()) != event_vars_.end()) continue;
             if (p->port_direction() == PortDirection::In) {
                 if (p->sinks().empty()) {
                     ports_to_remove.emplace_back(port_name);
-- 
2.43.0


From ea607115b5728d7f36974930ad3b8b8607d654e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 049/134] fix: dead code elimination changes the parent of
 several instances at the same time

---
 src/optimize.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 01513a9..789b215 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -6,6 +6,7 @@
 
 #include "except.hh"
 #include "fmt/format.h"
+#include "graph.hh"
 #include "stmt.hh"
 #include "syntax.hh"
 #include "util.hh"
@@ -1308,8 +1309,12 @@ public:
 
 void dead_code_elimination(Generator* top) {
     {
+        // removing the ports of a child changes its parent, so siblings cannot run in parallel
         DeadCodeVarElimination visitor;
-        visitor.visit_generator_root_p(top);
+        auto levels = GeneratorGraph(top).get_leveled_nodes();
+        for (auto it = levels.rbegin(); it != levels.rend(); it++) {
+            for (auto* generator : *it) generator->accept_generator(&visitor);
+        }
     }
     {
         DeadCodeInstanceElimination visitor;
-- 
2.43.0


From 2882fc33b3d15afce434cd8880c37df9902cf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 050/134] fix: merge_if_block merges if statements across else
 branches, other statements and changes of what they test

---
 src/optimize.cc | 74 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 789b215..53fdb9f 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -136,11 +136,10 @@ private:
     void static transform_block(StmtBlock* block) {
         // only run marked ones
         if (!block->has_attribute("merge_if_block")) return;
-        std::map<Var*, std::vector<IfStmtType>> result;
+        std::vector<std::vector<IfStmtType>> result;
         get_targeted_if(block, result);
         std::unordered_set<IfStmt*> merged_if;
-        for (auto const& iter : result) {
-            auto stmts = iter.second;
+        for (auto const& stmts : result) {
             if (stmts.size() > 1) {
                 // we have stmts to merge
                 auto top_if = stmts[0].first;
@@ -163,6 +162,8 @@ private:
                             if_->add_else_stmt(st);
                         }
                         merged_if.emplace(stmt.get());
+                        // only what it contains lives on
+                        stmt->clear_predicate();
                     }
                 }
 
@@ -184,23 +185,62 @@ private:
         }
     }
 
-    void static get_targeted_if(StmtBlock* block, std::map<Var*, std::vector<IfStmtType>>& result) {
+    // every entry is a run of neighboring statements with the same target. anything in between could
+    // change what they do, and so does anything that assigns to the target
+    void static get_targeted_if(StmtBlock* block, std::vector<std::vector<IfStmtType>>& result) {
+        Var* target = nullptr;
         for (auto const& stmt : *block) {
-            if (stmt->type() == StatementType::If) {
-                auto if_ = stmt->as<IfStmt>();
-                auto predicate = if_->predicate();
-                if (predicate->type() == VarType::Expression) {
-                    auto expr = predicate->as<Expr>();
-                    if (expr->op == ExprOp::Eq && expr->right &&
-                        expr->right->type() == VarType::ConstValue) {
-                        // this is what we want
-                        auto* target_var = expr->left;
-                        result[target_var].emplace_back(
-                            std::make_pair(if_, expr->right->as<Const>()));
-                    }
-                }
+            auto const [target_var, const_] = get_target(stmt);
+            if (!target_var) {
+                target = nullptr;
+                continue;
             }
+            if (target_var != target) {
+                result.emplace_back();
+                target = target_var;
+            }
+            result.back().emplace_back(std::make_pair(stmt->as<IfStmt>(), const_));
+            // the rest has to be tested against the new value
+            if (changes(stmt->as<IfStmt>().get(), target)) target = nullptr;
+        }
+    }
+
+    std::pair<Var*, std::shared_ptr<Const>> static get_target(const std::shared_ptr<Stmt>& stmt) {
+        if (stmt->type() != StatementType::If) return {nullptr, nullptr};
+        auto if_ = stmt->as<IfStmt>();
+        // the else branch is taken for the values of the other statements as well
+        if (!if_->else_body()->empty()) return {nullptr, nullptr};
+        auto predicate = if_->predicate();
+        if (predicate->type() != VarType::Expression) return {nullptr, nullptr};
+        auto expr = predicate->as<Expr>();
+        if (expr->op != ExprOp::Eq || !expr->right || expr->right->type() != VarType::ConstValue)
+            return {nullptr, nullptr};
+        return {expr->left, expr->right->as<Const>()};
+    }
+
+    class ChangeVisitor : public IRVisitor {
+    public:
+        explicit ChangeVisitor(const Var* target) : target_(target) {}
+        void visit(AssignStmt* stmt) override {
+            if (stmt->left()->get_var_root_parent() == target_) changed = true;
+        }
+        void visit(FunctionCallStmt*) override { changed = true; }
+        bool changed = false;
+
+    private:
+        const Var* target_;
+    };
+
+    bool static changes(IfStmt* stmt, Var* target) {
+        for (auto* var = target; var->type() == VarType::Slice;
+             var = reinterpret_cast<VarSlice*>(var)->parent_var) {
+            if (reinterpret_cast<VarSlice*>(var)->sliced_by_var()) return true;
         }
+        auto const* root = target->get_var_root_parent();
+        if (root->type() != VarType::Base && root->type() != VarType::PortIO) return true;
+        ChangeVisitor visitor(root);
+        visitor.visit_root(stmt->then_body().get());
+        return visitor.changed;
     }
 };
 
-- 
2.43.0


From a8cc085ca5d637c31a639630ff41cf06597ff4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 051/134] fix: removing a sink of a slice removes a source of
 its parent instead

---
 src/expr.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b8230cf..18bb169 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -717,7 +717,8 @@ void VarVarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::remove_source(stmt);
-    sliced_var_->remove_source(stmt);
+    // add_source makes the index a sink
+    sliced_var_->remove_sink(stmt);
 }
 
 std::string VarVarSlice::to_string() const {
@@ -1777,7 +1778,7 @@ void VarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     Var *parent = parent_var;
-    parent->remove_source(stmt);
+    parent->remove_sink(stmt);
 }
 
 ConditionalExpr::ConditionalExpr(const std::shared_ptr<Var> &condition,
-- 
2.43.0


From 570192e50f2d223f3df5ac313e673e23780e04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 052/134] fix: clearing the sinks of a casted variable or a
 modport port clears its sources

---
 src/expr.hh | 4 ++--
 src/port.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expr.hh b/src/expr.hh
index 708f64b..6da0a9c 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -310,8 +310,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return parent_var_->sources();
     };
-    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         parent_var_->remove_source(stmt);
     }
diff --git a/src/port.hh b/src/port.hh
index ebe1999..ad074a5 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -206,8 +206,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return var_->sources();
     };
-    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         var_->remove_source(stmt);
     }
-- 
2.43.0


From 7d050f4f99ddf152d43b706e8a166aa74dca848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 053/134] fix: dead code elimination leaves removed statements
 in the sinks of indices and of other operands

---
 src/optimize.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 53fdb9f..f853b26 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1308,17 +1308,16 @@ private:
 
         auto sources = std::unordered_set<std::shared_ptr<AssignStmt>>(var->sources());
         for (auto const& stmt : sources) {
-            auto* right = stmt->right();
-            right->remove_sink(stmt);
-            var->remove_source(stmt);
+            // the statement may refer to more than var, e.g. the index of the part it assigns
+            stmt->right()->remove_sink(stmt);
+            stmt->left()->remove_source(stmt);
             stmt->remove_from_parent();
         }
 
         auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(var->sinks());
         for (auto const& stmt : sinks) {
-            auto* left = stmt->left();
-            left->remove_source(stmt);
-            var->remove_sink(stmt);
+            stmt->left()->remove_source(stmt);
+            stmt->right()->remove_sink(stmt);
             stmt->remove_from_parent();
         }
 
-- 
2.43.0


From adf67756d99a03d3cb22daf690e32bd64881edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 054/134] fix: statements cannot be removed from a for loop

---
 src/stmt.cc | 2 ++
 src/stmt.hh | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index c2cc026..e8a80a2 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -394,6 +394,8 @@ IRNode *ForStmt::get_child(uint64_t index) { return index < 1 ? loop_body_.get()
 
 void ForStmt::add_stmt(const std::shared_ptr<Stmt> &stmt) { loop_body_->add_stmt(stmt); }
 
+void ForStmt::remove_stmt(const std::shared_ptr<Stmt> &stmt) { loop_body_->remove_stmt(stmt); }
+
 std::shared_ptr<Stmt> ForStmt::clone() const {
     auto stmt = std::make_shared<ForStmt>(iter_->name, start_, end_, step_);
     stmt->loop_body_ = loop_body_->clone()->as<ScopedStmtBlock>();
diff --git a/src/stmt.hh b/src/stmt.hh
index 747750c..4a2abff 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -250,6 +250,7 @@ public:
     void set_parent(IRNode *node) override;
 
     void add_stmt(const std::shared_ptr<Stmt> &stmt);
+    void remove_stmt(const std::shared_ptr<Stmt> &stmt) override;
 
     std::optional<uint64_t> genvar_index(const std::shared_ptr<Stmt> &stmt);
     void add_genvar_stmt(const std::shared_ptr<Stmt> &stmt) { gen_var_stmts_.emplace_back(stmt); }
-- 
2.43.0


From 73ea5c36de20751f9594697753e588c60707960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 055/134] fix: a flipped port bundle definition loses its name

---
 src/port.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/port.cc b/src/port.cc
index 125da03..ce744e9 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -238,6 +238,7 @@ PortBundleDefinition PortBundleDefinition::flip() {
     flipped_.definitions_ = flipped_definitions_;
     flipped_.flipped_definitions_ = definitions_;
     flipped_.debug_info_ = debug_info_;
+    flipped_.name_ = name_;
     return flipped_;
 }
 
-- 
2.43.0


From 758ae6335c835d4a0fab78b0373a32d413e2d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 056/134] fix: signed members of a packed struct are declared
 with the sign after the range

---
 src/analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ad58b54..99c824b 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1106,8 +1106,8 @@ std::map<std::string, std::string> extract_struct_info(Generator* top) {
         for (auto const& def : struct_->attributes) {
             if (!def.struct_) {
                 std::vector<std::string> str = {"    logic"};
-                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 if (def.signed_) str.emplace_back("signed");
+                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 str.emplace_back(def.name);
                 auto entry_str = string::join(str.begin(), str.end(), " ");
                 entry.append(entry_str + ";\n");
-- 
2.43.0


From 415be11cb0e4aac30830d48e91f0b6a8aff16c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 057/134] fix: bits of a packed struct member are taken from
 another slice of the member

---
 src/expr.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 18bb169..846bf36 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -203,7 +203,11 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     // if there is one already
     for (auto const &s : slices_) {
         if (!s->sliced_by_var()) {
-            if (high == s->high && low == s->low) return *s;
+            // the proxy of a struct in an array is a slice of the actual slice
+            auto *slice_ = s.get();
+            if (slice_->parent_var != this && slice_->parent_var->type() == VarType::Slice)
+                slice_ = reinterpret_cast<VarSlice *>(slice_->parent_var);
+            if (slice_->parent_var == this && high == slice_->high && low == slice_->low) return *s;
         }
     }
     // create a new one
@@ -215,7 +219,10 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     }
     // depends on the root variable, if it is actually a struct, we need to return to the
     // actual trampoline class as proxy
-    if (get_var_root_parent()->is_struct() && var_slice->width() == var_slice->var_width()) {
+    // bits of a struct or of its members are not structs
+    bool is_array = size_.size() > 1 || size_.front() > 1 || explicit_array_;
+    if (get_var_root_parent()->is_struct() && is_array &&
+        var_slice->width() == var_slice->var_width()) {
         // we actually reached the real struct
         auto *s = dynamic_cast<PackedInterface *>(get_var_root_parent());
         auto packed_slice = std::make_shared<PackedSlice>(var_slice.get(), var_slice->width() - 1,
@@ -1708,7 +1715,10 @@ void Var::move_linked_to(kratos::Var *new_var) {
     // move all references held in var to the new var
     // and change the parents
     for (auto &slice : slices_) {
-        slice->set_parent(new_var);
+        auto *slice_ = slice.get();
+        if (slice_->parent_var != this && slice_->parent_var->type() == VarType::Slice)
+            slice_ = reinterpret_cast<VarSlice *>(slice_->parent_var);
+        slice_->set_parent(new_var);
     }
     new_var->slices_ = std::vector(slices_.begin(), slices_.end());
     slices_.clear();
-- 
2.43.0


From 0ed806fdecff725b6d2b7220e9da764b01f6b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 058/134] fix: moving the connections of a variable changes
 shared expressions in place and misses uses in casts, indices, calls and
 predicates

---
 src/expr.cc      | 275 +++++++++++++++++++++++++----------------------
 src/transform.cc |  33 +-----
 2 files changed, 151 insertions(+), 157 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 846bf36..ff6556d 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -833,9 +833,11 @@ void Expr::set_parent() {
     } else {
         auto *left_gen = left->generator();
         auto *right_gen = right->generator();
-        if (left_gen == Const::const_gen()) {
+        // constants belong to the last generator they're used in
+        if (left_gen == Const::const_gen() || left->type() == VarType::ConstValue) {
             generator_ = right_gen;
-        } else if (right_gen == Const::const_gen() || !right_gen) {
+        } else if (right_gen == Const::const_gen() || right->type() == VarType::ConstValue ||
+                   !right_gen) {
             generator_ = left_gen;
         } else if (left_gen == right_gen) {
             generator_ = left->generator();
@@ -1503,132 +1505,151 @@ IRNode *Expr::get_child(uint64_t index) {
         return nullptr;
 }
 
-void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_target) {
-    std::shared_ptr<VarSlice> slice;
-    Var *parent_var = var;
-    std::vector<std::shared_ptr<VarSlice>> slices;
-    while (parent_var->type() == VarType::Slice) {
-        // this is for nested slicing
-        slice = parent_var->as<VarSlice>();
-        slices.emplace_back(slice);
-        parent_var = slice->parent_var;
-    }
-    if (parent_var != target) {
-        if (check_target)
-            throw InternalException("Target not found");
-        else
-            return;
-    }
-    if (!slice) throw InternalException("Slice cannot be null");
-
-    auto new_var_ptr = new_var->as<Var>();
-    std::reverse(slices.begin(), slices.end());
-    for (auto const &s : slices) {
-        new_var_ptr = s->slice_var(new_var_ptr);
-    }
-    var = new_var_ptr.get();
-}
-
-void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
-                     bool move_linked = true) {
-    if (!new_var || !target) throw InternalException("Variable is NULL");
-    if (expr->left->type() == VarType::Expression) {
-        change_var_expr(expr->left->as<Expr>(), target, new_var, move_linked);
-    }
-    if (expr->right && expr->right->type() == VarType::Expression) {
-        change_var_expr(expr->right->as<Expr>(), target, new_var, move_linked);
-    }
-
-    if (expr->left == target) {
-        expr->left = new_var;
-        if (move_linked) expr->left->move_linked_to(new_var);
-    }
-    if (expr->right && expr->right == target) {
-        expr->right = new_var;
-        if (move_linked) expr->right->move_linked_to(new_var);
-    }
-
-    // need to change the parent as well
-    if (expr->left->type() == VarType::Slice) {
-        set_slice_var_parent(expr->left, target, new_var, false);
-    }
-    if (expr->right && expr->right->type() == VarType::Slice) {
-        set_slice_var_parent(expr->right, target, new_var, false);
-    }
-    // we did some tricks on the concatenation, need to update them there
-    if (expr->op == ExprOp::Concat) {
-        auto concat = expr->as<VarConcat>();
-        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
-    }
-    // need to deal with ternary op as well
-    if (expr->op == ExprOp::Conditional) {
-        auto ternary = expr->as<ConditionalExpr>();
-        auto *cond = ternary->condition;
-        if (cond->type() == VarType::Expression) {
-            change_var_expr(cond->as<Expr>(), target, new_var);
-        } else if (cond == target) {
-            ternary->condition = new_var;
-        } else if (cond->type() == VarType::Slice) {
-            set_slice_var_parent(cond, target, new_var, false);
+// which occurrences of a variable are replaced. the target of an assignment reads its indices and
+// writes everything else
+enum class ReplaceKind { Read, Written };
+
+Var *replace_var(Var *var, Var *target, Var *new_var, ReplaceKind kind, bool is_left);
+
+Var *replace_slice(VarSlice *slice, Var *target, Var *new_var, ReplaceKind kind, bool is_left) {
+    auto *parent = replace_var(slice->parent_var, target, new_var, kind, is_left);
+    if (slice->sliced_by_var()) {
+        auto *index = reinterpret_cast<VarVarSlice *>(slice)->sliced_var();
+        auto *new_index = index;
+        if (kind == ReplaceKind::Read) new_index = replace_var(index, target, new_var, kind, false);
+        if (parent == slice->parent_var && index == new_index) return slice;
+        return &(*parent)[new_index->shared_from_this()];
+    }
+    if (parent == slice->parent_var) return slice;
+    return slice->slice_var(parent->shared_from_this()).get();
+}
+
+Var *replace_cast(VarCasted *cast, Var *target, Var *new_var, ReplaceKind kind, bool is_left) {
+    auto *parent = replace_var(cast->parent_var(), target, new_var, kind, is_left);
+    if (parent == cast->parent_var()) return cast;
+    auto result = parent->cast(cast->cast_type());
+    if (cast->cast_type() == VarCastType::Enum) {
+        result->as<VarCasted>()->set_enum_type(const_cast<Enum *>(cast->enum_type()));
+    } else if (cast->cast_type() == VarCastType::Resize) {
+        result->as<VarCasted>()->set_target_width(cast->width());
+    }
+    return result.get();
+}
+
+Var *replace_call(FunctionCallVar *call, Var *target, Var *new_var) {
+    std::map<std::string, std::shared_ptr<Var>> args;
+    bool changed = false;
+    for (auto const &[name, arg] : call->args()) {
+        auto *v = replace_var(arg.get(), target, new_var, ReplaceKind::Read, false);
+        changed = changed || v != arg.get();
+        args.emplace(name, v->shared_from_this());
+    }
+    if (!changed) return call;
+    auto *generator = call->generator();
+    auto result = std::make_shared<FunctionCallVar>(
+        generator, call->func()->as<FunctionStmtBlock>(), args, false);
+    result->var_width() = call->var_width();
+    result->size() = call->size();
+    result->is_signed() = call->is_signed();
+    generator->add_call_var(result);
+    return result.get();
+}
+
+Var *replace_expr(Expr *expr, Var *target, Var *new_var, ReplaceKind kind, bool is_left) {
+    auto replace = [&](Var *v) { return replace_var(v, target, new_var, kind, is_left); };
+    switch (expr->op) {
+        case ExprOp::Concat: {
+            auto *concat = reinterpret_cast<VarConcat *>(expr);
+            std::vector<Var *> vars;
+            vars.reserve(concat->vars().size());
+            for (auto *v : concat->vars()) vars.emplace_back(replace(v));
+            if (vars == concat->vars()) return expr;
+            auto *result = &vars[0]->concat(*vars[1]);
+            for (uint64_t i = 2; i < vars.size(); i++) result = &result->concat(*vars[i]);
+            return result;
+        }
+        case ExprOp::Extend: {
+            auto *parent = replace(reinterpret_cast<VarExtend *>(expr)->parent_var());
+            if (parent == reinterpret_cast<VarExtend *>(expr)->parent_var()) return expr;
+            return &parent->extend(expr->width());
+        }
+        case ExprOp::Duplicate: {
+            auto *left = replace(expr->left);
+            if (left == expr->left) return expr;
+            return &left->duplicate(expr->right->as<Const>());
+        }
+        case ExprOp::Conditional: {
+            auto *cond = replace(reinterpret_cast<ConditionalExpr *>(expr)->condition);
+            auto *left = replace(expr->left);
+            auto *right = replace(expr->right);
+            if (cond == reinterpret_cast<ConditionalExpr *>(expr)->condition &&
+                left == expr->left && right == expr->right)
+                return expr;
+            return util::mux(*cond, *left, *right).get();
+        }
+        default: {
+            auto *left = replace(expr->left);
+            auto *right = expr->right ? replace(expr->right) : nullptr;
+            if (left == expr->left && right == expr->right) return expr;
+            auto &result = new_var->generator()->expr(expr->op, left, right);
+            result.var_width() = expr->var_width();
+            result.is_signed() = expr->is_signed();
+            return &result;
         }
-    }
-    expr->set_parent();
-}
-
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var);
-
-void change_var_parent(Var *&var, Var *target, Var *new_var) {
-    if (var->type() == VarType::Slice) {
-        set_slice_var_parent(var, target, new_var, true);
-    } else if (var->type() == VarType::Expression) {
-        auto expr = var->as<Expr>();
-        change_var_expr(expr, target, new_var);
-    } else if (var->type() == VarType::BaseCasted) {
-        change_cast_parent(var->as<VarCasted>(), target, new_var);
-    }
-}
-
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var) {
-    auto &p = var->parent_var();
-    if (p == target) {
-        p = new_var;
-    } else {
-        change_var_parent(p, target, new_var);
     }
 }
 
-void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &right = stmt->right();
-    if (right->type() == VarType::Base || right->type() == VarType::PortIO ||
-        right->type() == VarType::ConstValue) {
-        if (right == target) {
-            stmt->set_right(new_var->shared_from_this());
-            right->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
+// expressions can be shared among statements, including the ones in other generators. because of
+// that nothing is changed in place: a new expression is returned if the target is used in it
+Var *replace_var(Var *var, Var *target, Var *new_var, ReplaceKind kind, bool is_left) {
+    if (!new_var || !target) throw InternalException("Variable is NULL");
+    if (var == target) return (kind == ReplaceKind::Read) == is_left ? var : new_var;
+    if (var->is_function())
+        return is_left ? var : replace_call(reinterpret_cast<FunctionCallVar *>(var), target, new_var);
+    switch (var->type()) {
+        case VarType::Slice:
+            return replace_slice(reinterpret_cast<VarSlice *>(var), target, new_var, kind, is_left);
+        case VarType::BaseCasted:
+            return replace_cast(var->as<VarCasted>().get(), target, new_var, kind, is_left);
+        case VarType::Expression:
+            return replace_expr(reinterpret_cast<Expr *>(var), target, new_var, kind, is_left);
+        default:
+            return var;
+    }
+}
+
+// returns the variable with every read of the target replaced
+Var *replace_read_var(Var *var, Var *target, Var *new_var) {
+    return replace_var(var, target, new_var, ReplaceKind::Read, false);
+}
+
+void stmt_replace_sink(const std::shared_ptr<AssignStmt> &stmt, Var *target, Var *new_var) {
+    auto *right = replace_read_var(stmt->right(), target, new_var);
+    auto *left = replace_var(stmt->left(), target, new_var, ReplaceKind::Read, true);
+    // the predicate of an if statement or the target of a switch statement
+    if (stmt->parent() && stmt->parent()->ir_node_kind() == IRNodeKind::StmtKind) {
+        auto *parent = reinterpret_cast<Stmt *>(stmt->parent());
+        if (parent->type() == StatementType::If) {
+            parent->as<IfStmt>()->set_predicate(right->shared_from_this());
+            return;
+        } else if (parent->type() == StatementType::Switch) {
+            parent->as<SwitchStmt>()->set_target(right->shared_from_this());
+            return;
         }
-    } else if (right->type() == VarType::Slice) {
-        set_slice_var_parent(right, target, new_var, true);
-    } else if (right->type() == VarType::Expression) {
-        change_var_expr(stmt->right()->as<Expr>(), target, new_var);
-    } else {
-        change_var_parent(right, target, new_var);
     }
+    stmt->right()->remove_sink(stmt);
+    stmt->left()->remove_source(stmt);
+    stmt->set_right(right->shared_from_this());
+    stmt->set_left(left->shared_from_this());
+    right->add_sink(stmt);
+    left->add_source(stmt);
 }
 
-void stmt_set_left(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &left = stmt->left();
-    if (left->type() == VarType::Base || left->type() == VarType::PortIO ||
-        left->type() == VarType::ConstValue) {
-        if (left == target) {
-            stmt->set_left(new_var->shared_from_this());
-            left->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
-        }
-    } else {
-        change_var_parent(left, target, new_var);
-    }
+void stmt_replace_source(const std::shared_ptr<AssignStmt> &stmt, Var *target, Var *new_var) {
+    auto *left = replace_var(stmt->left(), target, new_var, ReplaceKind::Written, true);
+    stmt->left()->remove_source(stmt);
+    stmt->set_left(left->shared_from_this());
+    left->add_source(stmt);
 }
 
 void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_connection) {
@@ -1636,13 +1657,14 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sources()) {
+    auto const sources = var->sources();
+    for (const auto &stmt : sources) {
         if (stmt->generator_parent() != parent) continue;
-        stmt_set_left(stmt.get(), var, new_var);
+        var->remove_source(stmt);
+        stmt_replace_source(stmt, var, new_var);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
-        new_var->add_source(stmt);
         // pick a source parameter, if any. only if the generator match
         if (stmt->right()->parametrized() && !new_var->parametrized() &&
             stmt->right()->width_param()->generator() == new_var->generator()) {
@@ -1667,15 +1689,16 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sinks()) {
+    auto const sinks = var->sinks();
+    for (const auto &stmt : sinks) {
         if (stmt->generator_parent() != parent) {
             continue;
         }
-        stmt_set_right(stmt.get(), var, new_var);
+        var->remove_sink(stmt);
+        stmt_replace_sink(stmt, var, new_var);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
-        new_var->add_sink(stmt);
         // pick a source parameter, if any
         if (stmt->left()->parametrized() && !new_var->parametrized() &&
             stmt->left()->width_param()->generator() == new_var->generator()) {
diff --git a/src/transform.cc b/src/transform.cc
index 02326da..5b03fb8 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -699,7 +699,7 @@ void lift_genvar_instances(Generator* top) {
     visitor.visit_generator_root(top);
 }
 
-void change_var_expr(const std::shared_ptr<Expr>& expr, Var* target, Var* new_var, bool move_link);
+void stmt_replace_sink(const std::shared_ptr<AssignStmt>& stmt, Var* target, Var* new_var);
 
 class PortLegalityFixVisitor : public IRVisitor {
 public:
@@ -720,36 +720,7 @@ public:
                 if (src->generator() != parent_gen)
                     throw InternalException("Invalid src generator");
                 // replace the source with this src
-                // depends on the context, it could be an auxiliary stmt
-                if (port->generator()->is_auxiliary_var(stmt->left()->shared_from_this())) {
-                    auto* parent_stmt = reinterpret_cast<Stmt*>(stmt->parent());
-                    if (parent_stmt->type() == StatementType::If) {
-                        auto if_ = parent_stmt->as<IfStmt>();
-                        if (if_->predicate()->type() == VarType::Expression) {
-                            auto expr = if_->predicate()->as<Expr>();
-                            change_var_expr(expr, port.get(), src.get(), false);
-                        } else {
-                            if_->set_predicate(src);
-                        }
-                    } else {
-                        // case statement
-                        auto case_ = parent_stmt->as<SwitchStmt>();
-                        if (case_->target()->type() == VarType::Expression) {
-                            auto expr = case_->target()->as<Expr>();
-                            change_var_expr(expr, port.get(), src.get(), false);
-                        } else {
-                            case_->set_target(src);
-                        }
-                    }
-                } else {
-                    auto* right = stmt->right();
-                    if (right->type() == VarType::Expression) {
-                        auto expr = right->as<Expr>();
-                        change_var_expr(expr, port.get(), src.get(), false);
-                    } else {
-                        stmt->right() = src.get();
-                    }
-                }
+                stmt_replace_sink(stmt, port.get(), src.get());
             }
         }
     }
-- 
2.43.0


From f1aff7d67c1e99879754116b0e6a26e0c254cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 059/134] fix: parameters change their generator when they are
 assigned to a port of a child and expressions with casted constants belong to
 the wrong generator

---
 src/expr.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ff6556d..5a2c601 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -825,6 +825,11 @@ uint32_t Expr::width() const {
     return left_width;
 }
 
+static bool is_constant(Var *var) {
+    while (var->type() == VarType::BaseCasted) var = static_cast<VarCasted *>(var)->parent_var();
+    return var->type() == VarType::ConstValue || var->generator() == Const::const_gen();
+}
+
 void Expr::set_parent() {
     // compute the right parent for the expr
     // it can only go up
@@ -834,10 +839,9 @@ void Expr::set_parent() {
         auto *left_gen = left->generator();
         auto *right_gen = right->generator();
         // constants belong to the last generator they're used in
-        if (left_gen == Const::const_gen() || left->type() == VarType::ConstValue) {
+        if (is_constant(left)) {
             generator_ = right_gen;
-        } else if (right_gen == Const::const_gen() || right->type() == VarType::ConstValue ||
-                   !right_gen) {
+        } else if (!right_gen || is_constant(right)) {
             generator_ = left_gen;
         } else if (left_gen == right_gen) {
             generator_ = left->generator();
@@ -1146,6 +1150,8 @@ void Const::add_source(const std::shared_ptr<AssignStmt> &) {
 }
 
 void Const::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
+    // parameters and enum values stay in the generator they are declared in
+    if (type_ != VarType::ConstValue || is_enum()) return;
     auto *left = stmt->left();
     // if it's a port, we change the constant's generator to that of port
     auto *generator = left->generator();
-- 
2.43.0


From cac9834c422864673ed224912b885cf7e13ae9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 060/134] fix: remove_fanout_one_wires takes the drivers of a
 port in the middle of a chain away

---
 src/optimize.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index f853b26..a4460ad 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -311,7 +311,11 @@ public:
                     return;
                 }
                 queue.emplace_back(std::make_pair(var, stmt));
-                compute_assign_chain(sink_var->shared_from_this(), queue);
+                // a port keeps its drivers, so the chain cannot go through it
+                if (sink_var->type() == VarType::PortIO)
+                    queue.emplace_back(std::make_pair(sink_var->shared_from_this(), nullptr));
+                else
+                    compute_assign_chain(sink_var->shared_from_this(), queue);
             }
         } else {
             queue.emplace_back(std::make_pair(var, nullptr));
-- 
2.43.0


From 0433d3e130896eef736d6f1d0d367762404ed1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 061/134] fix: merge_const_port_assignment replaces expressions
 and slices by the constant of the variable they use

---
 src/optimize.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a4460ad..57ef8fe 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1132,14 +1132,11 @@ class MergeConstPortVisitor : public IRVisitor {
                 var->sinks().size() == 1) {
                 auto source_stmt = *(var->sources().begin());
                 auto sink_stmt = *(var->sinks().begin());
-                auto* src_stmt_parent = source_stmt->stmt_parent();
-                if (src_stmt_parent && src_stmt_parent->type() == StatementType::Block) {
-                    auto blk = src_stmt_parent->as<StmtBlock>();
-                    if (blk->block_type() == StatementBlockType::Initial) {
-                        // initial is allowed to have constant driver
-                        continue;
-                    }
-                }
+                // processes are allowed to have constant drivers, and both ends have to be connected
+                // by the whole variable
+                if (source_stmt->parent() != generator || sink_stmt->parent() != generator ||
+                    source_stmt->left() != var.get() || sink_stmt->right() != var.get())
+                    continue;
                 auto* source_from = source_stmt->right();
                 auto* sink_to = sink_stmt->left();
                 if (source_from->type() == VarType::ConstValue &&
-- 
2.43.0


From 8013cfe75b65d9cfe9b9d6a077ece502bf61c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 062/134] fix: names of extended, duplicated and casted
 variables recurse forever, and a concatenation is reused after one of its
 variables is gone

---
 src/expr.cc | 50 ++++++++++++++++++++++++++++++++++++++++----------
 src/expr.hh | 15 +++++++++++++++
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 5a2c601..86d6967 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -261,7 +261,8 @@ VarConcat &Var::concat(Var &var) {
     // vars
     for (auto const &exist_var : concat_vars_) {
         // reuse the existing variables
-        if (exist_var->vars().size() == 2 && exist_var->vars().back() == ptr) {
+        if (exist_var->vars().size() == 2 && exist_var->vars().back() == ptr &&
+            exist_var->ends_with(ptr->shared_from_this())) {
             return *exist_var;
         }
     }
@@ -1054,11 +1055,21 @@ std::shared_ptr<AssignStmt> VarCasted::assign_(const std::shared_ptr<Var> &var,
     return parent_var_->assign(var, type);
 }
 
-std::string VarCasted::to_string() const {
+std::string VarCasted::to_string() const { return cast_string(parent_var_->to_string()); }
+
+std::string VarCasted::handle_name(bool ignore_top) const {
+    return cast_string(parent_var_->handle_name(ignore_top));
+}
+
+std::string VarCasted::handle_name(Generator *scope) const {
+    return cast_string(parent_var_->handle_name(scope));
+}
+
+std::string VarCasted::cast_string(const std::string &value) const {
     if (cast_type_ == VarCastType::Signed) {
-        return ::format("signed'({0})", parent_var_->to_string());
+        return ::format("signed'({0})", value);
     } else if (cast_type_ == VarCastType::Unsigned) {
-        return ::format("unsigned'({0})", parent_var_->to_string());
+        return ::format("unsigned'({0})", value);
     } else if (cast_type_ == VarCastType::Enum) {
         if (!enum_type_) {
             throw UserException(
@@ -1067,11 +1078,11 @@ std::string VarCasted::to_string() const {
                          parent_var_->to_string()));
         }
         auto const &enum_name = enum_type_->name;
-        return ::format("{0}'({1})", enum_name, parent_var_->to_string());
+        return ::format("{0}'({1})", enum_name, value);
     } else if (cast_type_ == VarCastType::Resize) {
-        return ::format("{0}'({1})", target_width_, parent_var_->to_string());
+        return ::format("{0}'({1})", target_width_, value);
     } else {
-        return parent_var_->to_string();
+        return value;
     }
 }
 
@@ -1326,6 +1337,7 @@ VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Va
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
             {first.get(), second.get()});
     vars_ = {first.get(), second.get()};
+    last_var_ = second;
     var_width_ = first->width() + second->width();
     op = ExprOp::Concat;
 }
@@ -1380,6 +1392,14 @@ std::string VarExtend::to_string() const {
     return ::format("{0}'({1})", width(), parent_->to_string());
 }
 
+std::string VarExtend::handle_name(bool ignore_top) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+}
+
+std::string VarExtend::handle_name(Generator *scope) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+}
+
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
     auto &c = Const::constant(static_cast<int64_t>(count), 32, false);
     right = &c;
@@ -1409,15 +1429,25 @@ void VarDuplicated::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     left->remove_source(stmt);
 }
 
-std::string VarDuplicated::to_string() const {
+std::string VarDuplicated::to_string() const { return duplicate_string(left->to_string()); }
+
+std::string VarDuplicated::handle_name(bool ignore_top) const {
+    return duplicate_string(left->handle_name(ignore_top));
+}
+
+std::string VarDuplicated::handle_name(Generator *scope) const {
+    return duplicate_string(left->handle_name(scope));
+}
+
+std::string VarDuplicated::duplicate_string(const std::string &value) const {
     if (left->type() == VarType::Expression) {
         auto expr = left->as<Expr>();
         if (expr->op == ExprOp::Concat) {
-            return fmt::format("{{{0}{1}}}", right->to_string(), left->to_string());
+            return fmt::format("{{{0}{1}}}", right->to_string(), value);
         }
     }
 
-    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
+    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), value);
 }
 
 std::string Const::to_string() const {
diff --git a/src/expr.hh b/src/expr.hh
index 6da0a9c..35e6435 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -294,6 +294,8 @@ public:
     Var *&parent_var() { return parent_var_; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     VarCastType cast_type() const { return cast_type_; }
 
@@ -330,6 +332,7 @@ protected:
                                         AssignmentType type) override;
 
 private:
+    std::string cast_string(const std::string &value) const;
     Var *parent_var_ = nullptr;
 
     VarCastType cast_type_;
@@ -690,8 +693,13 @@ public:
     std::string handle_name(bool ignore_top) const override;
     std::string handle_name(Generator *scope) const override;
 
+    // whether this is {first, second} made from the same variables. the address of a variable that
+    // is gone can be taken by another one
+    bool ends_with(const std::shared_ptr<Var> &var) const { return last_var_.lock() == var; }
+
 private:
     std::vector<Var *> vars_;
+    std::weak_ptr<Var> last_var_;
 };
 
 struct VarExtend : public Expr {
@@ -709,6 +717,8 @@ public:
     IRNode *get_child(uint64_t index) override { return index == 0 ? parent_ : nullptr; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
     Var *parent_var() const { return parent_; }
 
 private:
@@ -727,6 +737,11 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
+
+private:
+    std::string duplicate_string(const std::string &value) const;
 };
 
 struct ConditionalExpr : public Expr {
-- 
2.43.0


From ff2aed9b41122b170500e22a545dd4fdfb6cbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 063/134] fix: names given to generators that share a name
 depend on their addresses

---
 src/pass.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pass.cc b/src/pass.cc
index 1b26eac..46657df 100644
--- a/src/pass.cc
+++ b/src/pass.cc
@@ -29,9 +29,18 @@ void hash_generators(Generator* top, HashStrategy strategy) {
     hash_generators_context(top->context(), top, strategy);
 }
 
+static void number_generators(Generator* generator, std::unordered_map<Generator*, uint64_t>& order) {
+    order.emplace(generator, order.size());
+    for (auto const& child : generator->get_child_generators()) number_generators(child.get(), order);
+}
+
 void uniquify_generators(Generator* top) {
     // we assume users has run the hash_generators function
     Context* context = top->context();
+    // the context orders generators by their addresses. use the order in the design instead so that
+    // the same design always has the same names
+    std::unordered_map<Generator*, uint64_t> order;
+    number_generators(top, order);
     auto const& names = context->get_generator_names();
     for (auto const& name : names) {
         auto const module_sets = context->get_generators_by_name(name);
@@ -45,6 +54,11 @@ void uniquify_generators(Generator* top) {
         if (module_instances.size() == 1)
             // only one module. we are good
             continue;
+        auto const index = [&](Generator* gen) {
+            return order.find(gen) == order.end() ? order.size() : order.at(gen);
+        };
+        std::stable_sort(module_instances.begin(), module_instances.end(),
+                         [&](Generator* a, Generator* b) { return index(a) < index(b); });
         // reordering based on whether it's being tracked
         if (context->track_generated()) {
             // O(n) algorithm. it does not need to be inplace
-- 
2.43.0


From acf0fe80b4815ed71f0747722381676232aafb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 064/134] fix: different generators that share a name are
 merged into one module

---
 src/hash.cc | 405 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 298 insertions(+), 107 deletions(-)

diff --git a/src/hash.cc b/src/hash.cc
index 0c2f66f..d50820d 100644
--- a/src/hash.cc
+++ b/src/hash.cc
@@ -2,13 +2,16 @@
 
 #include <fstream>
 
+#include "codegen.hh"
 #include "cxxpool.h"
 #include "debug.hh"
 #include "generator.hh"
 #include "graph.hh"
+#include "interface.hh"
 #include "ir.hh"
 #include "pass.hh"
 #include "stmt.hh"
+#include "tb.hh"
 #include "util.hh"
 
 namespace kratos {
@@ -212,139 +215,328 @@ uint64_t hash_64_fnv1a(const void* key, uint64_t len) {
 
 }  // hash_64_fnv1a
 
-constexpr uint64_t shift_const(uint64_t value, uint8_t amount) {
-    return (value << amount) | (value >> (64u - amount));
-}
+// Writes down everything that ends up in the generated module, so that two generators have the same
+// hash only if one module can stand for both. Names are kept as they are; instance paths are
+// relative to the generator, since they differ among the instances of the same module.
+class GeneratorDescription {
+public:
+    explicit GeneratorDescription(Generator* root) : root_(root), context_(root->context()) {
+        add(root->name);
+        std::set<std::string> imports(root->raw_package_imports().begin(),
+                                      root->raw_package_imports().end());
+        for (auto const& name : imports) add("import", name);
+        for (auto const& [name, param] : root->get_params()) visit_param(name, param.get());
+        for (auto const& iter : root->get_enums()) visit_enum(iter.second.get());
+        for (auto const& name : root->get_all_var_names()) visit_decl(root->get_var(name).get());
+        for (auto const& iter : root->functions()) visit_function(iter.second.get());
+        for (auto const& stmt : root->get_all_stmts()) visit_stmt(stmt.get());
+        for (auto const& iter : root->properties()) visit_property(iter.second.get());
+        for (auto const& child : root->get_child_generators()) visit_child(child.get());
+    }
+
+    GeneratorDescription(Generator* root, Var* var) : root_(root), context_(root->context()) {
+        visit_var(var);
+    }
+
+    [[nodiscard]] const std::string& str() const { return str_; }
+
+private:
+    std::string str_;
+    Generator* root_;
+    Context* context_;
+
+    // every piece carries its length so that the pieces can't run into each other
+    void add(const std::string& value) {
+        str_.append(std::to_string(value.size()));
+        str_.push_back(':');
+        str_.append(value);
+    }
+    template <typename... Args>
+    void add(const std::string& value, const Args&... args) {
+        add(value);
+        add(args...);
+    }
 
-static uint64_t hash_var(Var* var) {
-    if (!var) return 0;
-    if (var->type() == VarType::Expression) {
-        auto* expr = reinterpret_cast<Expr*>(var);
-        auto op_hash = (uint64_t)expr->op;
-        return hash_var(expr->left) ^ hash_var(expr->right) ^ op_hash;
-    } else if (var->type() == VarType::ConstValue) {
-        auto* c = reinterpret_cast<Const*>(var);
-        return static_cast<uint64_t>(c->value());
-    } else if (var->type() == VarType::Parameter) {
-        auto v = var->to_string();
-        return hash_64_fnv1a(v.c_str(), v.size());
-    } else {
-        auto v = var->to_string();
-        auto hash = hash_64_fnv1a(v.c_str(), v.size());
-        if (!var->parametrized()) {
-            hash ^= var->width();
+    void visit_param(const std::string& name, Param* param) {
+        // the current value is decided by each instance
+        std::string value;
+        if (param->get_initial_value())
+            value = Const(*param->get_initial_value(), param->width(), param->is_signed())
+                        .to_string();
+        else if (param->get_raw_str_initial_value())
+            value = *param->get_raw_str_initial_value();
+        add("param", name, std::to_string(static_cast<int>(param->param_type())), value);
+        add(std::to_string(param->width()), param->is_signed() ? "signed" : "unsigned");
+        if (param->param_type() == ParamType::Enum) visit_enum(param->enum_def());
+    }
+
+    void visit_enum(const Enum* enum_) {
+        add("enum", enum_->name, std::to_string(enum_->width()));
+        for (auto const& [name, value] : enum_->values) add(name, std::to_string(value->value()));
+    }
+
+    void visit_interface(const InterfaceRef* ref) { add(ref->name(), ref->definition()->def_name()); }
+
+    void visit_decl(Var* var) {
+        if (var->is_interface()) {
+            auto* port = dynamic_cast<InterfacePort*>(var);
+            add("interface", var->to_string(), port ? port->interface()->definition()->def_name() : "");
+        } else if (auto* port = dynamic_cast<Port*>(var)) {
+            add("port", SystemVerilogCodeGen::get_port_str(port));
+            add(std::to_string(static_cast<int>(port->port_type())));
+        } else if (var->type() == VarType::Base) {
+            add("var", Stream::get_var_decl(var));
+        } else {
+            return;
+        }
+        add(var->before_var_str(), var->after_var_str());
+        if (auto* type = dynamic_cast<EnumType*>(var)) {
+            if (type->enum_type()) visit_enum(type->enum_type());
+        }
+        if (auto* packed = dynamic_cast<PackedInterface*>(var)) {
+            for (auto const& attr : packed->packed_struct()->attributes) {
+                add(attr.name, std::to_string(attr.bitwidth()), attr.signed_ ? "signed" : "");
+                if (attr.struct_) add(attr.struct_->struct_name);
+            }
         }
-        return hash;
     }
-}
 
-class HashVisitor : public IRVisitor {
-public:
-    explicit HashVisitor(Generator* root) : root_(root) {
-        context_ = root->context();
-        // compute the hash for all vars
-        auto vars = root->get_vars();
-        var_hashes_.reserve(vars.size());
-        for (const auto& var : vars) {
-            uint64_t var_hash = hash_64_fnv1a(var.c_str(), var.size());
-            var_hashes_.emplace_back(var_hash);
+    // names of the instances that the variable is read from or written to
+    void visit_scope(Var* var) {
+        if (!var) return;
+        if (auto* call = dynamic_cast<FunctionCallVar*>(var)) {
+            for (auto const& iter : call->args()) visit_scope(iter.second.get());
+        } else if (auto* cond = dynamic_cast<ConditionalExpr*>(var)) {
+            visit_scope(cond->condition);
+            visit_scope(cond->left);
+            visit_scope(cond->right);
+        } else if (auto* concat = dynamic_cast<VarConcat*>(var)) {
+            for (auto* v : concat->vars()) visit_scope(v);
+        } else if (auto* extend = dynamic_cast<VarExtend*>(var)) {
+            visit_scope(extend->parent_var());
+        } else if (auto* expr = dynamic_cast<Expr*>(var)) {
+            visit_scope(expr->left);
+            visit_scope(expr->right);
+        } else if (auto* casted = dynamic_cast<VarCasted*>(var)) {
+            visit_scope(casted->parent_var());
+        } else if (auto* slice = dynamic_cast<VarSlice*>(var)) {
+            if (auto* var_slice = dynamic_cast<VarVarSlice*>(var))
+                visit_scope(var_slice->sliced_var());
+            visit_scope(slice->parent_var);
+        } else if (var->type() != VarType::ConstValue) {
+            auto* generator = var->generator();
+            if (generator && generator != root_) {
+                add(generator->parent() == root_ ? generator->instance_name : "");
+            }
         }
     }
 
-    uint64_t produce_hash() {
-        // use generator name as a seed
-        uint64_t var_hash = hash_64_fnv1a(root_->name.c_str(), root_->name.size()) << 32u;
-        for (const uint64_t var : var_hashes_) var_hash = var_hash ^ var;
-        // use var_hash as a seed
-        // FIXME: do we really need to hash in chunks? or can we use xor to ignore the ordering
-        //  of the blocks?
-        uint64_t result =
-            XXHash64::hash(stmt_hashes_.data(), stmt_hashes_.size() * sizeof(uint64_t), var_hash);
-        return result;
+    void visit_var(Var* var) {
+        add(var->to_string());
+        visit_scope(var);
     }
 
-    void visit(AssignStmt* stmt) override {
-        uint64_t stmt_hash = hash_var(stmt->left()) ^ (shift(hash_var(stmt->right()), 1));
-        // based on level
-        stmt_hash = shift(stmt_hash, level);
-        stmt_hashes_.emplace_back(stmt_hash);
+    void visit_event(const EventControl& event) {
+        add(std::to_string(static_cast<int>(event.type)), std::to_string(event.delay));
+        add(std::to_string(static_cast<int>(event.edge)),
+            std::to_string(static_cast<int>(event.delay_side)));
+        if (event.var) visit_var(event.var);
     }
 
-    void visit(IfStmt* stmt) override {
-        // magic number comes from here https://stackoverflow.com/a/4948967
-        // based on the requirements, warped shifting doesn't matter since it keeps
-        // the number of 0 and 1 the same. And I don't think the shifting will
-        // introduce any correlation either
-        constexpr uint64_t if_signature = shift_const(0x9e3779b97f4a7c16, 1);
-        auto var = stmt->predicate()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(if_signature ^ hash);
+    void visit_block(StmtBlock* block) {
+        auto const label = root_->get_block_name(block);
+        add("begin", std::to_string(static_cast<int>(block->block_type())), label ? *label : "");
+        if (block->block_type() == StatementBlockType::Sequential) {
+            auto* seq = reinterpret_cast<SequentialStmtBlock*>(block);
+            for (auto const& event : seq->get_event_controls()) visit_event(event);
+        } else if (block->block_type() == StatementBlockType::Combinational) {
+            auto* comb = reinterpret_cast<CombinationalStmtBlock*>(block);
+            add(comb->is_general_purpose() ? "always" : "always_comb");
+        }
+        for (auto const& stmt : *block) visit_stmt(stmt.get());
+        add("end");
     }
 
-    void visit(SwitchStmt* stmt) override {
-        constexpr uint64_t switch_signature = shift_const(0x9e3779b97f4a7c16, 2);
-        auto var = stmt->target()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(switch_signature ^ hash);
+    void visit_function(FunctionStmtBlock* func) {
+        add("function", func->function_name());
+        add(std::to_string(func->is_dpi()), std::to_string(func->is_builtin()),
+            std::to_string(func->is_task()), std::to_string(func->has_return_value()));
+        if (func->is_builtin()) return;
+        if (auto const& handler = func->function_handler())
+            add(std::to_string(handler->width()), std::to_string(handler->is_signed()));
+        for (auto const& [name, port] : func->ports())
+            add(name, SystemVerilogCodeGen::get_port_str(port.get()));
+        for (auto const& [name, index] : func->port_ordering()) add(name, std::to_string(index));
+        if (func->is_dpi()) {
+            auto* dpi = reinterpret_cast<DPIFunctionStmtBlock*>(func);
+            add(std::to_string(dpi->return_width()), std::to_string(dpi->is_pure()),
+                std::to_string(dpi->is_context()));
+        }
+        visit_block(func);
     }
 
-    void visit(CombinationalStmtBlock*) override {
-        constexpr uint64_t comb_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(comb_signature << level);
+    void visit_property(Property* property) {
+        add("property", property->property_name(),
+            property->sequence()->to_string([](Var* var) { return var->to_string(); }));
+        visit_event(property->edge());
+        add(std::to_string(static_cast<int>(property->action())));
     }
 
-    void visit(SequentialStmtBlock* stmt) override {
-        std::string cond;
-        auto const& conditions = stmt->get_event_controls();
-        for (auto const& event_control : conditions) {
-            if (event_control.edge == EventEdgeType::Posedge)
-                cond.append("1" + event_control.var->to_string());
-            else
-                cond.append("0" + event_control.var->to_string());
-        }
-        uint64_t hash = hash_64_fnv1a(cond.c_str(), cond.size()) << level;
-        constexpr uint64_t seq_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(hash ^ seq_signature);
+    void visit_params(const Generator* child) {
+        for (auto const& [name, param] : child->get_params())
+            add(name, param->has_value() ? param->value_str() : "");
     }
 
-    void visit(ModuleInstantiationStmt* stmt) override {
+    void visit_child(Generator* child) {
+        add("child", child->instance_name, child->name);
         // notice that we don't use any mechanism to lock the context's get hash or set hash
         // it is the caller's responsibility to do prepare the calling sequence so that there
         // won't be any race condition.
         // by requiring this, we can have a lock-free implementation ready to scale
-        auto const* target = stmt->target();
-        if (!context_->has_hash(target)) {
-            throw std::runtime_error("Internal error: " + target->name + " doesn't have a hash");
+        if (context_->has_hash(child)) add(std::to_string(context_->get_hash(child)));
+        // a clone is empty itself
+        auto* def = child->is_cloned() ? child->def_instance() : nullptr;
+        if (def && !context_->is_unique(def)) add(GeneratorDescription(def).str());
+        visit_params(child);
+        // statements that connect the ports may have been taken out of the generator already
+        for (auto const& name : child->get_port_names()) {
+            auto const& port = child->get_port(name);
+            auto const is_input = port->port_direction() == PortDirection::In;
+            std::set<std::string> connections;
+            for (auto const& stmt : is_input ? port->sources() : port->sinks()) {
+                auto* var = is_input ? stmt->right() : stmt->left();
+                if (!is_input && var->generator() == child) continue;
+                GeneratorDescription side(root_, var);
+                GeneratorDescription port_side(root_, is_input ? stmt->left() : stmt->right());
+                connections.emplace(port_side.str() + side.str());
+            }
+            add(name);
+            for (auto const& connection : connections) add(connection);
         }
-        uint64_t target_hash = context_->get_hash(target);
-        constexpr uint64_t mod_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        // we have assign stmts already computed the connections
-        stmt_hashes_.emplace_back(target_hash ^ mod_signature);
     }
 
-    void visit(FunctionCallStmt* stmt) override {
-        // this is to hash the call args and func_def
-        auto func = stmt->func();
-        auto str = func->function_name();
-        auto const& var = stmt->var();
-        auto const& var_args = var->args();
-        // this is ordered map
-        for (auto const& iter : var_args) {
-            str.append(iter.second->to_string());
+    void visit_instance(const InstantiationStmt* stmt) {
+        std::map<std::string, Var*> ports;
+        for (auto const& [port, var] : stmt->port_mapping()) ports.emplace(port->to_string(), var);
+        for (auto const& [name, var] : ports) {
+            add(name);
+            visit_var(var);
         }
-        uint64_t hash = hash_64_fnv1a(str.c_str(), str.size()) << level;
-        constexpr uint64_t call_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        stmt_hashes_.emplace_back(hash ^ call_signature);
     }
 
-private:
-    std::vector<uint64_t> var_hashes_;
-    std::vector<uint64_t> stmt_hashes_;
-    Generator* root_;
-    Context* context_;
+    void visit_assert(AssertBase* stmt) {
+        std::shared_ptr<Stmt> else_;
+        if (stmt->assert_type() == AssertType::AssertValue) {
+            auto* value = reinterpret_cast<AssertValueStmt*>(stmt);
+            add("assert");
+            if (value->value()) visit_var(value->value());
+            else_ = value->else_();
+        } else {
+            auto* property = reinterpret_cast<AssertPropertyStmt*>(stmt);
+            visit_property(property->property());
+            else_ = property->else_();
+        }
+        if (else_) visit_stmt(else_.get());
+    }
 
-    inline static uint64_t shift(uint64_t value, uint8_t amount) {
-        return (value << amount) | (value >> (64u - amount));
+    void visit_stmt(Stmt* stmt) {
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                auto* assign = reinterpret_cast<AssignStmt*>(stmt);
+                add("assign", std::to_string(static_cast<int>(assign->assign_type())));
+                visit_var(assign->left());
+                visit_var(assign->right());
+                if (assign->get_delay()) visit_event(*assign->get_delay());
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = reinterpret_cast<IfStmt*>(stmt);
+                add("if");
+                visit_var(if_->predicate().get());
+                if (if_->then_body()) visit_block(if_->then_body().get());
+                if (if_->else_body()) visit_block(if_->else_body().get());
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = reinterpret_cast<SwitchStmt*>(stmt);
+                add("switch");
+                visit_var(switch_->target().get());
+                // the body is indexed by addresses
+                std::multimap<std::string, StmtBlock*> cases;
+                for (auto const& [cond, block] : switch_->body())
+                    cases.emplace(cond ? cond->to_string() : "default", block.get());
+                for (auto const& [cond, block] : cases) {
+                    add(cond);
+                    visit_block(block);
+                }
+                add("end");
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = reinterpret_cast<ForStmt*>(stmt);
+                auto const& iter = for_->get_iter_var();
+                add("for", iter->to_string(), iter->is_gen_var() ? "genvar" : "",
+                    iter->is_signed() ? "signed" : "");
+                add(std::to_string(for_->start()), std::to_string(for_->end()),
+                    std::to_string(for_->step()));
+                visit_block(for_->get_loop_body().get());
+                break;
+            }
+            case StatementType::Block: {
+                visit_block(reinterpret_cast<StmtBlock*>(stmt));
+                break;
+            }
+            case StatementType::ModuleInstantiation: {
+                auto* inst = reinterpret_cast<ModuleInstantiationStmt*>(stmt);
+                if (!context_->has_hash(inst->target())) {
+                    throw std::runtime_error("Internal error: " + inst->target()->name +
+                                             " doesn't have a hash");
+                }
+                add("instance", inst->target()->instance_name);
+                visit_instance(inst);
+                break;
+            }
+            case StatementType::InterfaceInstantiation: {
+                auto* inst = reinterpret_cast<InterfaceInstantiationStmt*>(stmt);
+                add("interface");
+                visit_interface(inst->interface());
+                visit_instance(inst);
+                break;
+            }
+            case StatementType::FunctionalCall: {
+                auto* call = reinterpret_cast<FunctionCallStmt*>(stmt);
+                add("call");
+                visit_var(call->var().get());
+                break;
+            }
+            case StatementType::Return: {
+                add("return");
+                visit_var(reinterpret_cast<ReturnStmt*>(stmt)->value().get());
+                break;
+            }
+            case StatementType::Break: {
+                add("break");
+                break;
+            }
+            case StatementType::Assert: {
+                visit_assert(reinterpret_cast<AssertBase*>(stmt));
+                break;
+            }
+            case StatementType::RawString: {
+                add("raw");
+                for (auto const& line : reinterpret_cast<RawStringStmt*>(stmt)->stmts()) add(line);
+                break;
+            }
+            case StatementType::Auxiliary: {
+                auto* aux = reinterpret_cast<AuxiliaryStmt*>(stmt);
+                add("auxiliary", std::to_string(static_cast<int>(aux->aux_type())));
+                if (aux->aux_type() == AuxiliaryType::Delay)
+                    visit_event(reinterpret_cast<EventDelayStmt*>(aux)->event());
+                break;
+            }
+            case StatementType::Comment:
+                break;
+        }
     }
 };
 
@@ -353,10 +545,9 @@ uint64_t hash_generator(Generator* generator) {
     if (generator->context()->is_unique(generator)) {
         return hash_64_fnv1a(generator->name.c_str(), generator->name.size());
     }
-    // we use a visitor to compute all the hashes
-    HashVisitor hash_visitor(generator);
-    hash_visitor.visit_root(generator);
-    return hash_visitor.produce_hash();
+    GeneratorDescription description(generator);
+    auto const& str = description.str();
+    return XXHash64::hash(str.c_str(), str.size(), 0);
 }
 
 void hash_generator_src(Context* context, Generator* generator) {
-- 
2.43.0


From d62af436add5d2c0c8cb011a7b60dada57c1d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 065/134] fix: remove_fanout_one_wires hides a second driver of
 a wire in the chain

---
 src/optimize.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 57ef8fe..f70e37f 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -311,8 +311,9 @@ public:
                     return;
                 }
                 queue.emplace_back(std::make_pair(var, stmt));
-                // a port keeps its drivers, so the chain cannot go through it
-                if (sink_var->type() == VarType::PortIO)
+                // a port keeps its drivers, so the chain cannot go through it, and neither can it go
+                // through a variable that something else drives as well
+                if (sink_var->type() == VarType::PortIO || sink_var->sources().size() != 1)
                     queue.emplace_back(std::make_pair(sink_var->shared_from_this(), nullptr));
                 else
                     compute_assign_chain(sink_var->shared_from_this(), queue);
-- 
2.43.0


From cbd32c9b81b38c3f26b151027beb659601189293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 066/134] fix: a switch case without statements cannot be added

---
 src/stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index e8a80a2..aa1ae7d 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -576,8 +576,10 @@ ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switc
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
                                              const std::vector<std::shared_ptr<Stmt>> &stmts) {
+    // the case exists even if there is nothing to do in it
+    auto &body = add_switch_case(switch_case, std::make_shared<ScopedStmtBlock>());
     for (const auto &stmt : stmts) add_switch_case(switch_case, stmt);
-    return *body_.at(switch_case);
+    return body;
 }
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(Const &switch_case,
-- 
2.43.0


From df80710dbc230ed6d00f59efe3ff67d19e9dccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 067/134] fix: combinational loops through conditions,
 concatenations and casts are missed

---
 src/analysis.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 99c824b..f3fa2d6 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -830,8 +830,15 @@ private:
         if (!var) return false;
         if (var == target) return true;
         if (var->type() == VarType::Expression) {
-            auto* expr = reinterpret_cast<Expr*>(var);
-            return has_var(expr->left, target) || has_var(expr->right, target);
+            // not every expression is a pair of operands
+            for (uint64_t i = 0; i < var->child_count(); i++) {
+                auto* child = var->get_child(i);
+                if (child && child->ir_node_kind() == IRNodeKind::VarKind &&
+                    has_var(static_cast<Var*>(child), target))
+                    return true;
+            }
+        } else if (var->type() == VarType::BaseCasted) {
+            return has_var(static_cast<VarCasted*>(var)->parent_var(), target);
         }
         return false;
     }
-- 
2.43.0


From 50cb593cbbeac539a4442275016b0fb00bd959ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 068/134] fix: malformed error message for a wrong edge in a
 sensitivity list

---
 src/analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index f3fa2d6..ce856f8 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1488,7 +1488,7 @@ class SensitivityVisitor : public IRVisitor {
                 if (var_casted->cast_type() != VarCastType::Clock &&
                     var_casted->cast_type() != VarCastType::AsyncReset) {
                     throw StmtException(::format("Only Clock and AsyncReset allowed in "
-                                                 "sensitivity list. Please use cast() to cast {0}}",
+                                                 "sensitivity list. Please use cast() to cast {0}",
                                                  var->to_string()),
                                         {stmt, var});
                 }
-- 
2.43.0


From 8c106de85bee700db4dfb2033df4974b215a3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 069/134] fix: outputs of a Mealy machine are missing or wrong
 on unconditional transitions

---
 src/fsm.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index c1fc562..6f5de4c 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -278,6 +278,12 @@ void FSM::generate_state_transition(
                 auto stmt = get_next_state_stmt(enum_def, next_state, state, next_fsm_state,
                                                 state_name_mapping);
                 case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmt);
+                if (!moore_) {
+                    std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
+                    get_func_call_stmt(func_def, next_fsm_state, func_stmt);
+                    case_state_comb->add_switch_case(enum_def.get_enum(state_name), func_stmt);
+                    add_debug_info_to_stmt(func_stmt, state);
+                }
                 break;
             } else if (!cond) {
                 // we have a default case here
@@ -324,7 +330,7 @@ void FSM::generate_state_transition(
             std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
             if (!moore_) {
                 get_func_call_stmt(func_def, next_fsm_state, func_stmt);
-                if_->add_then_stmt(func_stmt);
+                if_->add_else_stmt(func_stmt);
             }
             add_debug_info_to_stmt(func_stmt, state);
         }
-- 
2.43.0


From 502b705f66616d73a8e34c6f892202aeef6008ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 070/134] fix: a state that leaves all outputs unchanged drives
 those of the start state

---
 src/fsm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fsm.cc b/src/fsm.cc
index 6f5de4c..f4bc9a6 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -439,6 +439,9 @@ void FSM::generate_output(Enum& enum_def, EnumVar& current_state,
             auto& case_stmt = output_case_comb->add_switch_case(state_enum, stmts);
             generator_->add_named_block(::format("{0}_{1}_Output", fsm_name_, state_name),
                                         case_stmt.as<ScopedStmtBlock>());
+        } else if (state_enum) {
+            // nothing changes in this state, which is not what the default does
+            output_case_comb->add_switch_case(state_enum, stmts);
         }
     }
 
-- 
2.43.0


From d5e83860d8dcffd453def7b2f6d89ccbcc7a2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 071/134] fix: the table of a state machine reads outputs that
 a pass removed

---
 src/fsm.cc | 1 +
 src/fsm.hh | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/fsm.cc b/src/fsm.cc
index f4bc9a6..54e8990 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -467,6 +467,7 @@ void FSM::output(const std::shared_ptr<Var>& var, const std::shared_ptr<Var>& de
                                {var.get()});
     }
     outputs_.emplace(var.get(), default_.get());
+    output_vars_.emplace(var);
 }
 
 std::shared_ptr<FSMState> FSM::add_state(const std::string& name) {
diff --git a/src/fsm.hh b/src/fsm.hh
index c93aeda..153cd08 100644
--- a/src/fsm.hh
+++ b/src/fsm.hh
@@ -62,6 +62,8 @@ private:
     std::string fsm_name_;
     Generator *generator_;
     std::unordered_map<Var *, Var*> outputs_;
+    // passes may remove an output that is never read
+    std::unordered_set<std::shared_ptr<Var>> output_vars_;
     std::shared_ptr<Var> clk_ = nullptr;
     std::shared_ptr<Var> reset_ = nullptr;
     std::map<std::string, std::shared_ptr<FSMState>> states_;
-- 
2.43.0


From 353bf1f944bf896f43895fb61cc674cb26cfa17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 072/134] fix: the table of a state machine cannot show
 unchanged or default outputs

---
 src/fsm.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 54e8990..c0af405 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -592,8 +592,11 @@ std::string FSM::output_table() {
     for (auto const& [state_name, state] : states_) {
         stream << state_name;
         for (auto const& output : outputs) {
-            auto* value = state->output_values().at(output);
-            stream << "," << value->to_string();
+            // defaults are filled in once the FSM is realized
+            auto const& values = state->output_values();
+            auto* value = values.find(output) != values.end() ? values.at(output) : outputs_.at(output);
+            // no value means that the output stays as it is
+            stream << "," << (value ? value : output)->to_string();
         }
         stream << ::endl;
     }
-- 
2.43.0


From 86e63f92a05898752bd4302415ade2945a98ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 073/134] fix: states of nested state machines are merged when
 their combined names clash

---
 src/fsm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsm.cc b/src/fsm.cc
index c0af405..3ce4b1b 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -114,6 +114,8 @@ void FSM::realize() {
         } else {
             state_name = state->name();
         }
+        // the combination may still clash with that of another state
+        while (raw_def.find(state_name) != raw_def.end()) state_name.append("_");
         raw_def.emplace(state_name, count++);
         state_name_mapping.emplace(state, state_name);
         // check states
-- 
2.43.0


From fce8786961f8046f89df89a4fd6d89cc5b70236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 074/134] fix: a second unconditional transition crashes when
 the state machine is realized

---
 src/fsm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsm.cc b/src/fsm.cc
index 3ce4b1b..120e694 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -688,6 +688,8 @@ void FSMState::next(const std::shared_ptr<FSMState>& next_state, const std::shar
     };
 
     if (!cond) {
+        if (find_match(nullptr))
+            throw UserException("Unconditional transition has been assign to " + name_);
         transitions_.emplace_back(std::make_pair(nullptr, state_ptr));
     } else {
         if (find_match(nullptr)) {
-- 
2.43.0


From 213c33656ec899b5541280f8584e34004681043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 075/134] fix: constants assigned inside a child are attributed
 to its parent

---
 src/expr.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 86d6967..a7bfdd5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1168,6 +1168,11 @@ void Const::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
     auto *generator = left->generator();
     if (!generator)
         throw StmtException(::format("Unable to find left hand side generator"), {stmt.get()});
+    // only an input is driven from outside
+    auto const *root = left->get_var_root_parent();
+    if (root->type() != VarType::PortIO ||
+        reinterpret_cast<const Port *>(root)->port_direction() != PortDirection::In)
+        return;
     auto *parent = generator->parent();
     if (parent && parent->ir_node_kind() == GeneratorKind) {
         auto *gen = dynamic_cast<Generator *>(parent);
-- 
2.43.0


From 680174106b974c917343a99b786961b5375ae780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 076/134] fix: statements of functions do not know their
 generator

---
 src/stmt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index aa1ae7d..9c7c416 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -711,7 +711,10 @@ std::vector<std::shared_ptr<VarSlice>> filter_slice_pairs_with_target(
 FunctionStmtBlock::FunctionStmtBlock(kratos::Generator *parent, std::string function_name)
     : StmtBlock(StatementBlockType::Function),
       parent_(parent),
-      function_name_(std::move(function_name)) {}
+      function_name_(std::move(function_name)) {
+    // statements of the function find their generator through this
+    set_parent(parent);
+}
 
 void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed) {
     if (function_handler_) {
-- 
2.43.0


From 331279c7b79375da776f5b56c376df765d1362e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 077/134] fix: clock enable insertion crashes below a generator
 that is not touched

---
 src/optimize.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index f70e37f..7a0f65e 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -775,6 +775,9 @@ public:
         if (gen->external() || gen->is_stub()) return;
         auto* parent = gen->parent_generator();
         if (!parent || gen == top_) return;
+        // if the parent isn't touched, there might be nothing to wire to
+        auto parent_port = parent->get_port(clk_en_name_);
+        if (!parent_port) return;
 
         Port* clk_en;
         if (!gen->has_port(clk_en_name_)) {
@@ -796,7 +799,6 @@ public:
             }
         }
         // wire to the top
-        auto parent_port = parent->get_port(clk_en_name_);
         parent->wire(*clk_en, *parent_port);
     }
 
@@ -808,6 +810,7 @@ public:
         auto num_stmts = block->size();
         auto* generator = block->generator_parent();
         auto clk_en = generator->get_port(clk_en_name_);
+        if (!clk_en) return;
         if (num_stmts > 0) {
             // we need to be careful about async reset logic
             auto first_stmt = block->get_stmt(0);
-- 
2.43.0


From c84483beeec866b41676f9d5fe36d13657dc1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 078/134] fix: synchronous reset insertion wires a child's
 reset port that is already driven a second time

---
 src/optimize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 7a0f65e..64d9a5d 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -947,9 +947,9 @@ public:
                 if (sources.size() > 1) continue;
                 if (sources.size() == 1) {
                     auto* right = (*sources.begin())->right();
-                    if (right->type() == VarType::ConstValue) {
-                        child_port->clear_sources(true);
-                    }
+                    // only re-wire it if it is tied to a constant
+                    if (right->type() != VarType::ConstValue) continue;
+                    child_port->clear_sources(true);
                 }
                 generator->wire(*child_port, *port);
             }
-- 
2.43.0


From 4247369a290fabfb96da37896cd0fe8cd26ce81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 079/134] fix: a reset compared with a constant is not
 recognized as a reset

---
 src/optimize.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 64d9a5d..741fe83 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -714,8 +714,11 @@ void insert_pipeline_stages(Generator* top) {
 bool static has_port_type(Var* var, PortType type) {
     if (var->type() == VarType::Expression) {
         auto* expr = reinterpret_cast<Expr*>(var);
+        // comparing with a constant, e.g. rst == 1, doesn't change what is tested
+        if (expr->right && expr->left->type() == VarType::ConstValue)
+            return has_port_type(expr->right, type);
         auto l = has_port_type(expr->left, type);
-        if (expr->right) {
+        if (expr->right && expr->right->type() != VarType::ConstValue) {
             auto r = has_port_type(expr->right, type);
             return l && r;
         }
-- 
2.43.0


From 59e60a7fa9b59a34902cd53b83d3643e80e9ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 080/134] fix: variable created from another one does not take
 over its meta data

---
 src/generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 0d8d45b..b2f1e3f 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -108,7 +108,7 @@ Var &Generator::var(const Var &v, const std::string &var_name) {
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
     // need to copy other definition over
-    v_.copy_meta_data(&v_, true);
+    v.copy_meta_data(&v_, true);
     return v_;
 }
 
-- 
2.43.0


From 0a21b9be238ae9f1bfff04b84ec6d1ba117fb420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 081/134] fix: moving the sources or sinks of a variable drops
 those in other generators

---
 src/expr.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index a7bfdd5..6d9fc53 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1712,9 +1712,6 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
             new_var->set_width_param(stmt->right()->width_param());
         }
     }
-    // now clear the sources
-    var->clear_sources(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = var->assign(new_var->shared_from_this());
@@ -1746,9 +1743,6 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
             new_var->set_width_param(stmt->left()->width_param());
         }
     }
-    // now clear the sinks
-    var->clear_sinks(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = new_var->assign(var->shared_from_this());
-- 
2.43.0


From d9888101b83a43db39812bc02845f39bf33272fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 082/134] fix: pipeline stages do not have the shape of the
 port

---
 src/optimize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 741fe83..88c198c 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -684,8 +684,8 @@ public:
                 for (uint32_t i = 0; i < num_stages; i++) {
                     auto new_name =
                         generator->get_unique_variable_name(port_name, ::format("stage_{0}", i));
-                    auto& var = generator->var(new_name, port->var_width(), port->size(),
-                                               port->is_signed());
+                    // same shape as the port
+                    auto& var = generator->var(*port, new_name);
                     if (generator->debug)
                         var.fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
                     vars[i] = var.shared_from_this();
-- 
2.43.0


From fbdc5aa0f2cde8ac4713d50bdf5cabe8c3a27d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 083/134] fix: pipeline stages delay what the generator itself
 reads from the port

---
 src/optimize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 88c198c..a1eb931 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -692,6 +692,8 @@ public:
                 }
                 // move the source to the first stage
                 Var::move_src_to(port.get(), vars[0].get(), generator, false);
+                // only the world outside sees the delayed value
+                Var::move_sink_to(port.get(), vars[0].get(), generator, false);
                 // connect the stages together
                 for (uint32_t i = 0; i < num_stages - 1; i++) {
                     auto pre_stage = vars[i];
-- 
2.43.0


From dae127a8764d5ae6a62cd7232c0c9d91ccffff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 084/134] fix: pipeline stages are inserted after the
 generators are hashed and their instances created

---
 kratos/passes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kratos/passes.py b/kratos/passes.py
index cee0460..0777abb 100644
--- a/kratos/passes.py
+++ b/kratos/passes.py
@@ -81,6 +81,10 @@ def verilog(generator: Generator, optimize_if: bool = True,
         pass_manager.add_pass("merge_const_port_assignment")
     pass_manager.add_pass("decouple_generator_ports")
     pass_manager.add_pass("fix_assignment_type")
+    # has to happen before the hash and the instantiation, since it changes what
+    # drives the output ports
+    if insert_pipeline_stages:
+        pass_manager.add_pass("insert_pipeline_stages")
     if remove_unused and not insert_debug_info:
         pass_manager.add_pass("remove_unused_vars")
         pass_manager.add_pass("remove_unused_stmts")
@@ -116,8 +120,6 @@ def verilog(generator: Generator, optimize_if: bool = True,
     # genvar instance lifting only happens after the module hash
     if lift_genvar_instances:
         pass_manager.add_pass("lift_genvar_instances")
-    if insert_pipeline_stages:
-        pass_manager.add_pass("insert_pipeline_stages")
     if isinstance(generator.internal_generator, _kratos.TestBench):
         pass_manager.add_pass("sort_initial_stmts")
     if reorder_stmts:
-- 
2.43.0


From e4df1ea6d71887a612c304c1bf78ec964ae47efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 085/134] fix: variables whose width is a parameter of the same
 generator cannot be copied

---
 src/expr.cc      | 2 ++
 src/generator.cc | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 6d9fc53..7548b2a 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -423,6 +423,8 @@ bool check_parent_param(const Param *param, const Generator *parent, bool check_
 Var &copy_var_const_parm(Var *var, Generator *parent, bool check_param) {
     if (var->is_param()) {
         auto param = var->as<Param>();
+        // declared in the same generator
+        if (param->generator() == parent) return *param;
         const auto *param_parent = param->parent_param();
         bool correct = check_parent_param(param_parent, parent, check_param);
         if (correct) {
diff --git a/src/generator.cc b/src/generator.cc
index b2f1e3f..5713261 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -108,7 +108,7 @@ Var &Generator::var(const Var &v, const std::string &var_name) {
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
     // need to copy other definition over
-    v.copy_meta_data(&v_, true);
+    v.copy_meta_data(&v_, false);
     return v_;
 }
 
-- 
2.43.0


From 045ed9ad4e79aad16ce1d4c82192295b262841ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 086/134] fix: width and sign of relational, logical, shift,
 reduction and concatenation expressions

---
 src/expr.cc | 18 +++++++++++++-----
 src/expr.hh |  1 +
 src/sim.cc  |  6 ++++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 7548b2a..d024ca7 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -27,7 +27,8 @@ namespace kratos {
 bool is_relational_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::LessThan,   ExprOp::GreaterThan,
                                              ExprOp::LessEqThan, ExprOp::GreaterEqThan,
-                                             ExprOp::Eq,         ExprOp::Neq};
+                                             ExprOp::Eq,         ExprOp::Neq,
+                                             ExprOp::LAnd,       ExprOp::LOr};
     return ops.find(op) != ops.end();
 }
 
@@ -36,6 +37,11 @@ bool is_reduction_op(ExprOp op) {
     return ops.find(op) != ops.end();
 }
 
+bool is_shift_op(ExprOp op) {
+    return op == ExprOp::ShiftLeft || op == ExprOp::LogicalShiftRight ||
+           op == ExprOp::SignedShiftRight || op == ExprOp::Power;
+}
+
 bool is_expand_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::Concat, ExprOp::Extend, ExprOp::Duplicate};
     return ops.find(op) != ops.end();
@@ -786,7 +792,10 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
     else
         var_width_ = left->var_width();
 
-    if (right != nullptr)
+    // same rules as SystemVerilog
+    if (is_relational_op(op) || is_reduction_op(op) || is_expand_op(op))
+        is_signed_ = false;
+    else if (right != nullptr && !is_shift_op(op))
         is_signed_ = left->is_signed() && right->is_signed();
     else
         is_signed_ = left->is_signed();
@@ -804,8 +813,7 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
 }
 
 Expr::Expr(Var *left, Var *right)
-    : Var(left->generator(), "", left->var_width(), left->size(), left->is_signed(),
-          VarType::Expression),
+    : Var(left->generator(), "", left->var_width(), left->size(), false, VarType::Expression),
       op(ExprOp::Add),
       left(left),
       right(right) {
@@ -1327,7 +1335,7 @@ std::string VarConcat::handle_name(kratos::Generator *scope) const {
 
 VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_ptr<Var> &second)
     : Expr(first.get(), second.get()) {
-    if (first->is_signed_ != second->is_signed())
+    if (first->vars_[0]->is_signed() != second->is_signed())
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
             {first.get(), second.get()});
diff --git a/src/expr.hh b/src/expr.hh
index 35e6435..eea6135 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -59,6 +59,7 @@ enum class ExprOp : uint64_t {
 };
 
 bool is_relational_op(ExprOp op);
+bool is_shift_op(ExprOp op);
 bool is_reduction_op(ExprOp op);
 bool is_expand_op(ExprOp op);
 bool is_unary_op(ExprOp op);
diff --git a/src/sim.cc b/src/sim.cc
index 007ed3d..5f9eec3 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -889,8 +889,10 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                     return std::nullopt;
                 // relational operators yield one bit but compare at the width of their operands
                 auto width = expr->left->width();
-                auto result =
-                    eval_bin_op(left_value, right_value, expr->op, width, expr->is_signed());
+                // it is the operands that decide how they are interpreted
+                auto is_signed = expr->left->is_signed() &&
+                                 (expr->right->is_signed() || is_shift_op(expr->op));
+                auto result = eval_bin_op(left_value, right_value, expr->op, width, is_signed);
                 return std::vector<uint64_t>{result};
             } else {
                 auto left_value = (*left_val)[0];
-- 
2.43.0


From 23ceefcb2699c30efe4a5996eba80c6044e4ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 087/134] fix: operands are narrowed silently and constants
 used elsewhere change their width

---
 src/expr.cc | 31 ++++++++++++++++++++++---------
 src/expr.hh |  4 ++++
 src/stmt.cc |  5 ++---
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d024ca7..f82d1a5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -742,17 +742,18 @@ std::string VarVarSlice::to_string() const {
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
+    Var *new_var;
     if (var->type() == VarType::ConstValue) {
-        var->var_width() = target_width;
+        new_var = &reinterpret_cast<Const *>(var)->resize(target_width);
     } else {
-        auto new_var = var->cast(VarCastType::Resize);
-        auto var_casted = new_var->as<VarCasted>();
+        auto var_casted = var->cast(VarCastType::Resize)->as<VarCasted>();
         var_casted->set_target_width(target_width);
-        if (left) {
-            expr->left = var_casted.get();
-        } else {
-            expr->right = var_casted.get();
-        }
+        new_var = var_casted.get();
+    }
+    if (left) {
+        expr->left = new_var;
+    } else {
+        expr->right = new_var;
     }
 }
 
@@ -1157,8 +1158,20 @@ void Const::set_value(const std::string &new_value) {
     set_value(converted_value);
 }
 
+bool Const::fits(uint32_t target_width) const {
+    if (is_bignum()) return num_bits_ + (is_signed_ ? 1 : 0) <= target_width;
+    return is_legal(value_, target_width, is_signed_) == ConstantLegal::Legal;
+}
+
+Const &Const::resize(uint32_t target_width) {
+    // the constant might be used somewhere else as well
+    if (target_width == var_width_) return *this;
+    if (is_bignum()) return constant(hex_value_, num_bits_, negative_, target_width, is_signed_);
+    return constant(value_, target_width, is_signed_);
+}
+
 void Const::set_width(uint32_t target_width) {
-    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal) {
+    if (!fits(target_width)) {
         throw VarException(::format("Unable to set const {0} to width {1}", value_, target_width),
                            {this});
     }
diff --git a/src/expr.hh b/src/expr.hh
index eea6135..4767552 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -437,6 +437,10 @@ public:
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void set_width(uint32_t target_width);
+    // whether the value can be represented with the width
+    [[nodiscard]] bool fits(uint32_t target_width) const;
+    // the same value with a different width
+    Const &resize(uint32_t target_width);
 
     std::string to_string() const override;
     std::string handle_name(bool) const override { return to_string(); }
diff --git a/src/stmt.cc b/src/stmt.cc
index 9c7c416..6193894 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -148,10 +148,9 @@ AssignStmt::AssignStmt(const std::shared_ptr<Var> &left, std::shared_ptr<Var> ri
         bool has_error = true;
         if (right->type() == VarType::ConstValue) {
             auto const_ = right->as<Const>();
-            if (Const::is_legal(const_->value(), left->width(), left->is_signed()) ==
-                Const::ConstantLegal::Legal) {
+            if (const_->fits(left->width())) {
                 has_error = false;
-                const_->set_width(left->width());
+                right = const_->resize(left->width()).shared_from_this();
             }
         } else if (IterVar::has_iter_var(right.get())) {
             // need to resize it
-- 
2.43.0


From c070cacc2fb9b7dacf0e18a6704009e2c7a643c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 088/134] fix: constants lose their sign in expressions

---
 src/expr.cc | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f82d1a5..741fd9e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1416,16 +1416,18 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
     }
 }
 
+std::string operand_to_string(const Var *var, const std::string &name);
+
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), parent_->to_string());
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->to_string()));
 }
 
 std::string VarExtend::handle_name(bool ignore_top) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->handle_name(ignore_top)));
 }
 
 std::string VarExtend::handle_name(Generator *scope) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->handle_name(scope)));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1505,6 +1507,13 @@ bool inline is_associative_op(ExprOp op) {
            op == ExprOp::Xor || op == ExprOp::LAnd || op == ExprOp::LOr;
 }
 
+// constants are printed without their sign, which matters if they are part of an expression
+std::string operand_to_string(const Var *var, const std::string &name) {
+    if (var->type() != VarType::ConstValue || !var->is_signed() || var->is_enum()) return name;
+    auto pos = name.find("'h");
+    return pos == std::string::npos ? name : name.substr(0, pos) + "'sh" + name.substr(pos + 2);
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1525,9 +1534,9 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                         ? expr_to_string(left->as<Expr>().get(),
                                          right != nullptr && expr->op == left->as<Expr>()->op,
                                          use_handle, ignore_top, scope)
-                        : (use_handle ? left->handle_name(ignore_top)
-                           : scope    ? left->handle_name(scope)
-                                      : left->to_string());
+                        : operand_to_string(left, use_handle ? left->handle_name(ignore_top)
+                                                  : scope    ? left->handle_name(scope)
+                                                             : left->to_string());
 
     if (right != nullptr) {
         auto right_str =
@@ -1535,9 +1544,9 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                 ? expr_to_string(right->as<Expr>().get(),
                                  expr->op == right->as<Expr>()->op && is_associative_op(expr->op),
                                  use_handle, ignore_top, scope)
-                : (use_handle ? right->handle_name(ignore_top)
-                   : scope    ? right->handle_name(scope)
-                              : right->to_string());
+                : operand_to_string(right, use_handle ? right->handle_name(ignore_top)
+                                           : scope    ? right->handle_name(scope)
+                                                      : right->to_string());
         if (is_top)
             return ::format("{0} {1} {2}", left_str, ExprOpStr(expr->op), right_str);
         else
@@ -1904,21 +1913,26 @@ void ConditionalExpr::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     right->remove_sink(stmt);
 }
 
+std::string inline conditional_string(const ConditionalExpr *expr, const std::string &condition,
+                                      const std::string &left, const std::string &right) {
+    auto cond_str =
+        expr->condition->type() == VarType::Expression ? ::format("({0})", condition) : condition;
+    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(expr->left, left),
+                    operand_to_string(expr->right, right));
+}
+
 std::string ConditionalExpr::to_string() const {
-    std::string cond_str = condition->type() == VarType::Expression
-                               ? ::format("({0})", condition->to_string())
-                               : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());
+    return conditional_string(this, condition->to_string(), left->to_string(), right->to_string());
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
-                    left->handle_name(ignore_top), right->handle_name(ignore_top));
+    return conditional_string(this, condition->handle_name(ignore_top), left->handle_name(ignore_top),
+                              right->handle_name(ignore_top));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
-                    right->handle_name(scope));
+    return conditional_string(this, condition->handle_name(scope), left->handle_name(scope),
+                              right->handle_name(scope));
 }
 
 std::shared_ptr<ConditionalExpr> ConditionalExpr::create(const std::shared_ptr<Var> &condition,
-- 
2.43.0


From 9a7c66d4782962ce29d038f377c7eaa3bfc2d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 089/134] fix: signed predicates and switch targets are refused

---
 src/generator.cc | 11 ++++++-----
 src/generator.hh |  2 +-
 src/stmt.cc      |  8 ++++----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 5713261..ae98703 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1347,17 +1347,18 @@ std::string Generator::handle_name(bool ignore_top) const {
 }
 
 std::shared_ptr<Var> Generator::get_auxiliary_var(uint32_t width, bool signed_) {
-    if (auxiliary_vars_.find(width) != auxiliary_vars_.end()) {
-        return auxiliary_vars_.at(width);
+    auto key = std::make_pair(width, signed_);
+    if (auxiliary_vars_.find(key) != auxiliary_vars_.end()) {
+        return auxiliary_vars_.at(key);
     }
     auto v = std::make_shared<Var>(this, "", width, 1, signed_);
-    auxiliary_vars_.emplace(width, v);
+    auxiliary_vars_.emplace(key, v);
     return v;
 }
 
 bool Generator::is_auxiliary_var(const std::shared_ptr<Var> &var) {
-    return auxiliary_vars_.find(var->width()) != auxiliary_vars_.end() &&
-           auxiliary_vars_.at(var->width()) == var;
+    auto key = std::make_pair(var->width(), var->is_signed());
+    return auxiliary_vars_.find(key) != auxiliary_vars_.end() && auxiliary_vars_.at(key) == var;
 }
 
 }  // namespace kratos
diff --git a/src/generator.hh b/src/generator.hh
index 3e9bdcc..47978f3 100644
--- a/src/generator.hh
+++ b/src/generator.hh
@@ -331,7 +331,7 @@ private:
     // cloned ref
     Generator *def_instance_ = nullptr;
     // auxiliary var
-    std::unordered_map<uint32_t, std::shared_ptr<Var>> auxiliary_vars_;
+    std::map<std::pair<uint32_t, bool>, std::shared_ptr<Var>> auxiliary_vars_;
     // interfaces
     std::map<std::string, std::shared_ptr<InterfaceRef>> interfaces_;
     // properties
diff --git a/src/stmt.cc b/src/stmt.cc
index 6193894..83d398e 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -237,7 +237,7 @@ IfStmt::IfStmt(std::shared_ptr<Var> predicate)
 
     // just to add the sinks
     predicate_stmt_ =
-        predicate_->generator()->get_auxiliary_var(predicate_->width())->assign(predicate_);
+        predicate_->generator()->get_auxiliary_var(predicate_->width(), predicate_->is_signed())->assign(predicate_);
     predicate_stmt_->set_parent(this);
 }
 
@@ -246,7 +246,7 @@ void IfStmt::set_predicate(const std::shared_ptr<Var> &var) {
     assert(var->ir_node_kind() == IRNodeKind::VarKind);
     predicate_ = var;
     predicate_stmt_ =
-        predicate_->generator()->get_auxiliary_var(predicate_->width())->assign(predicate_);
+        predicate_->generator()->get_auxiliary_var(predicate_->width(), predicate_->is_signed())->assign(predicate_);
     predicate_stmt_->set_parent(this);
 }
 
@@ -528,14 +528,14 @@ SwitchStmt::SwitchStmt(Var &target)
                             {this, &target});
 
     // just to add the sinks
-    target_stmt_ = target.generator()->get_auxiliary_var(target.width())->assign(target);
+    target_stmt_ = target.generator()->get_auxiliary_var(target.width(), target.is_signed())->assign(target);
     target_stmt_->set_parent(this);
 }
 
 void SwitchStmt::set_target(const std::shared_ptr<Var> &target) {
     target_stmt_->clear();
     target_ = target;
-    target_stmt_ = target->generator()->get_auxiliary_var(target->width())->assign(target);
+    target_stmt_ = target->generator()->get_auxiliary_var(target->width(), target->is_signed())->assign(target);
     target_stmt_->set_parent(this);
 }
 
-- 
2.43.0


From 63b85897eb9d31d1c3862af9dba12c15233d2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 090/134] fix: checks of clock width, port type and string
 constants

---
 src/expr.cc | 7 ++++---
 src/port.cc | 9 ++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 741fd9e..6298138 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1052,10 +1052,10 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
     } else if (cast_type_ == VarCastType::Unsigned) {
         is_signed_ = false;
     } else if (cast_type_ == VarCastType::AsyncReset || cast_type_ == VarCastType::Clock) {
-        if (parent->size().size() != 1 || parent->size().front() != 1) {
+        if (parent->size().size() != 1 || parent->width() != 1) {
             throw VarException(::format("Can only cast bit width 1 to "
                                         "Clock or AsyncReset. {0} is {1}",
-                                        parent->to_string(), parent->size().front()),
+                                        parent->to_string(), parent->width()),
                                {parent});
         }
     }
@@ -1135,6 +1135,7 @@ void Const::set_value(int64_t new_value) {
             ::format("Unable to set const to {0} with width {1}", new_value, width()), {this});
     }
     value_ = new_value;
+    num_bits_ = 0;
 }
 
 int64_t convert_string_to_int(const std::string &value) {
@@ -1151,7 +1152,7 @@ int64_t convert_string_to_int(const std::string &value) {
 
 void Const::set_value(const std::string &new_value) {
     // convert string to int
-    if ((new_value.size() * 8) > sizeof(uint64_t)) {
+    if (new_value.size() > sizeof(uint64_t)) {
         throw VarException("string value too big to be converted to integer", {this});
     }
     auto converted_value = convert_string_to_int(new_value);
diff --git a/src/port.cc b/src/port.cc
index ce744e9..742af10 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -69,7 +69,14 @@ std::shared_ptr<AssignStmt> Port::assign_(const std::shared_ptr<Var>& var,
     return Var::assign_(var, type);
 }
 
-void Port::set_port_type(PortType type) { type_ = type; }
+void Port::set_port_type(PortType type) {
+    if ((type == PortType::AsyncReset || type == PortType::Clock || type == PortType::ClockEnable ||
+         type == PortType::Reset) &&
+        var_width_ > 1) {
+        throw UserException(::format("{0}'s width has be 1, got {1}", name, var_width_));
+    }
+    type_ = type;
+}
 
 void Port::set_active_high(bool value) {
     if (width() != 1)
-- 
2.43.0


From 474cbcc0b89a9cc76303e95ab7332f35fb823a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 091/134] fix: order of function arguments and messages of
 refused calls

---
 src/expr.cc      | 2 +-
 src/generator.cc | 3 ++-
 src/stmt.cc      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 6298138..e65495e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2223,7 +2223,7 @@ StringConst::StringConst(std::string value, uint32_t width)
     : Const(convert_string_to_int(value), width, false), value_(std::move(value)) {
     auto const min_size = value_.size() * 8u;
     if (min_size > width)
-        throw VarException(::format("{0} is too big for constant with bit size {0}", value, width),
+        throw VarException(::format("{0} is too big for constant with bit size {1}", value_, width),
                            {this});
 }
 
diff --git a/src/generator.cc b/src/generator.cc
index ae98703..bdc2bc5 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -311,7 +311,8 @@ FunctionCallVar &Generator::call(const std::string &func_name,
         throw UserException("Only built-in function can be called without arg names");
     std::map<std::string, std::shared_ptr<Var>> mock_args;
     for (uint64_t i = 0; i < args.size(); i++) {
-        mock_args.emplace(std::make_pair(std::to_string(i), args[i]));
+        // the names are sorted
+        mock_args.emplace(std::make_pair(::format("{0:08}", i), args[i]));
     }
     auto p =
         std::make_shared<FunctionCallVar>(this, func_def, mock_args, func_def->has_return_value());
diff --git a/src/stmt.cc b/src/stmt.cc
index 83d398e..c337e6e 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -748,7 +748,7 @@ void FunctionStmtBlock::set_port_ordering(const std::map<std::string, uint32_t>
         throw UserException("Port ordering size does not match with declared outputs");
     for (auto const &iter : ordering) {
         if (ports_.find(iter.first) == ports_.end())
-            throw UserException(::format("{0} does not exist"));
+            throw UserException(::format("{0} does not exist", iter.first));
     }
     port_ordering_ = ordering;
 }
-- 
2.43.0


From cdf101d4a1b70b1dec1965a1579abab42be65b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:01 +0000
Subject: [PATCH 092/134] fix: refused calls leave the design changed

---
 src/generator.cc | 23 ++++++++++++++---------
 src/stmt.cc      |  3 ++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index bdc2bc5..9f4c2f0 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -404,8 +404,8 @@ IRNode *Generator::get_child(uint64_t index) {
 
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
-    child->instance_name = instance_name_;
-    if (children_.find(child->instance_name) == children_.end()) {
+    if (children_.find(instance_name_) == children_.end()) {
+        child->instance_name = instance_name_;
         children_.emplace(child->instance_name, child);
         child->parent_generator_ = this;
         children_names_.emplace_back(child->instance_name);
@@ -577,15 +577,15 @@ std::string Generator::get_unique_variable_name(const std::string &prefix,
 }
 
 void Generator::remove_port(const std::string &port_name) {
-    if (has_port(port_name)) {
-        ports_.erase(port_name);
-        remove_var(port_name);
-    }
+    if (has_port(port_name)) remove_var(port_name);
 }
 
 void Generator::rename_var(const std::string &old_name, const std::string &new_name) {
     auto var = get_var(old_name);
-    if (!var) return;
+    if (!var || old_name == new_name) return;
+    if (has_var(new_name))
+        throw UserException(::format("{0} already exists in {1}", new_name, name));
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
     // Using C++17 to replace the key
     auto handle = vars_.extract(old_name);
     handle.key() = new_name;
@@ -1130,7 +1130,6 @@ void Generator::replace(const std::string &child_name,
                                  {this, new_child.get()});
     }
     auto old_child = children_.at(child_name);
-    new_child->instance_name = child_name;
     // first we need to make sure that the interfaces are the same
     auto old_port_names = old_child->get_port_names();
     auto new_port_names = new_child->get_port_names();
@@ -1179,8 +1178,13 @@ void Generator::replace(const std::string &child_name,
                                         old_child->name, port_name, new_child->name),
                                {old_port.get(), new_port.get()});
         }
+    }
 
-        // all passed, now replace the port!
+    // all passed, now replace the ports!
+    new_child->instance_name = child_name;
+    for (const auto &port_name : old_port_names) {
+        auto old_port = old_child->get_port(port_name);
+        auto new_port = new_child->get_port(port_name);
         if (old_port->port_direction() == PortDirection::In) {
             // move the src
             Var::move_src_to(old_port.get(), new_port.get(), this, false);
@@ -1281,6 +1285,7 @@ void Generator::remove_var(const std::string &var_name) {
     }
 
     vars_.erase(var_name);
+    ports_.erase(var_name);
 }
 
 std::shared_ptr<StmtBlock> Generator::get_named_block(const std::string &block_name) const {
diff --git a/src/stmt.cc b/src/stmt.cc
index c337e6e..c8ec1d6 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -209,8 +209,9 @@ void AssignStmt::set_parent(kratos::IRNode *parent) {
     // push the stmt into its sources
     if (!has_parent) {
         // if it has parent, it means we've already added the source and sink
-        right_->add_sink(as<AssignStmt>());
+        // the left hand side might not be assignable
         if (parent) left_->add_source(as<AssignStmt>());
+        right_->add_sink(as<AssignStmt>());
     }
 }
 std::shared_ptr<Stmt> AssignStmt::clone() const {
-- 
2.43.0


From c7bc971862eb323c15743aaeadcef196176d2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 093/134] fix: implicit resizing of operands drops bits

---
 src/expr.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e65495e..08534eb 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2267,11 +2267,7 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
                      std::queue<const IterVar *> &vars) {
     // notice it's exclusive for max
     if (vars.empty()) {
-        const auto *p = var->get_var_root_parent();
-        if (p->type() == VarType::Base || p->type() == VarType::PortIO)
-            return var->width() <= target_size;
-        else
-            return true;
+        return true;
     } else {
         // pop one
         auto *t = const_cast<IterVar *>(vars.front());
@@ -2305,6 +2301,12 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
 bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signed) {
     std::vector<const IterVar *> iters;
     extract_iter_var(var, iters);
+    if (iters.empty()) {
+        // the value of a constant is known, anything else needs all the bits
+        if (var->type() == VarType::ConstValue || var->type() == VarType::Parameter)
+            return reinterpret_cast<const Const *>(var)->fits(target_size);
+        return var->width() <= target_size;
+    }
     // brute-force to compute every possible combinations using simulator
     static Simulator sim(nullptr);
     // We did some hacks that, assuming the min and max value is at the boundary
-- 
2.43.0


From 7a92171a7136819f2562b1bc02fdee87c9906965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:35 +0000
Subject: [PATCH 094/134] fix: count the cases of switches on wide variables
 without overflowing

---
 src/analysis.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ce856f8..79b7f14 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -429,7 +429,7 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
                 "Statement is not switch but is marked as StatementType::Switch");
         auto cases = stmt_->body();
         if (cases.empty()) return false;
-        uint32_t found_case = 0;
+        uint64_t found_case = 0;
         for (auto const& iter : cases) {
             auto* scope_stmt = iter.second.get();
             if (check_stmt_condition(scope_stmt, cond, check_unreachable, full_branch))
@@ -440,14 +440,15 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
         // make sure default case is covered
         // if there is no default case, all the cases have to be covered
         // the only exception is that if the target is an enum and we've covered all it's enum case
-        uint32_t targeted_cases;
+        uint64_t targeted_cases;
         if (stmt_->target()->is_enum()) {
             auto* enum_var = dynamic_cast<EnumType*>(stmt_->target().get());
             if (!enum_var) throw InternalException("Unable to resolve enum type");
             auto const* enum_def = enum_var->enum_type();
             targeted_cases = enum_def->values.size();
         } else {
-            targeted_cases = 1u << stmt_->target()->width();
+            auto const width = stmt_->target()->width();
+            targeted_cases = width < 64 ? 1ull << width : std::numeric_limits<uint64_t>::max();
         }
         if (full_branch) {
             return cases.find(nullptr) != cases.end() || found_case == targeted_cases;
-- 
2.43.0


From 27936371b3640bebc83d6db7831cb765b6ab323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:35 +0000
Subject: [PATCH 095/134] fix: compare every pair of assignments when looking
 for multiple drivers

---
 src/analysis.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 79b7f14..454d129 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -710,7 +710,7 @@ private:
     }
 
     static void check_var(Var* var) {
-        std::unordered_map<uint32_t, std::pair<IRNode*, Stmt*>> parents;
+        std::unordered_map<uint32_t, std::vector<std::pair<IRNode*, Stmt*>>> parents;
         for (auto const& stmt : var->sources()) {
             // TODO: FIX THIS
             //  This is a hack to bypass the check if there is a for loop
@@ -721,13 +721,14 @@ private:
                 auto slice = v->as<VarSlice>();
                 if (slice->sliced_by_var()) continue;
             }
+            auto* parent = stmt->parent();
+            auto* stmt_parent = non_gen_root_parent(stmt.get());
             uint32_t var_low = v->var_low();
             uint32_t var_high = v->var_high();
             for (uint32_t i = var_low; i <= var_high; i++) {
-                if (parents.find(i) != parents.end()) {
-                    auto* parent = stmt->parent();
-                    auto* stmt_parent = non_gen_root_parent(stmt.get());
-                    auto const& [ref_parent, ref_stmt_parent] = parents.at(i);
+                // every pair of assignments matters, since the sources are not ordered
+                auto& refs = parents[i];
+                for (auto const& [ref_parent, ref_stmt_parent] : refs) {
                     // the purpose of the following statement is to make sure that there is no
                     // other assignment that's assigning the same var slice in the same scope
                     // it cannot be driven through different blocks, either.
@@ -769,10 +770,9 @@ private:
                                                      var->handle_name()),
                                             {var, parent, stmt.get()});
                     }
-                } else {
-                    parents.emplace(
-                        i, std::make_pair(stmt->parent(), non_gen_root_parent(stmt.get())));
                 }
+                auto ref = std::make_pair(parent, stmt_parent);
+                if (std::find(refs.begin(), refs.end(), ref) == refs.end()) refs.emplace_back(ref);
             }
         }
     }
-- 
2.43.0


From 6235c36ba3508b954c91c02aa66f6db9e3bb5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:35 +0000
Subject: [PATCH 096/134] fix: skip port bundles with a member port that other
 passes removed

---
 src/transform.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transform.cc b/src/transform.cc
index 5b03fb8..9f2fe62 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -745,6 +745,11 @@ public:
             for (auto const& iter : mapping) {
                 auto port_name = iter.second;
                 auto port = generator->get_port(port_name);
+                if (!port) {
+                    // removed by other passes
+                    same_direction = false;
+                    break;
+                }
                 // all the ports have to have the same direction
                 if (!initialized) {
                     initialized = true;
-- 
2.43.0


From 098d6f5cb4329fbacaf84991e2c3e0896de9c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:35 +0000
Subject: [PATCH 097/134] fix: register the arguments of function call
 statements as being used

---
 src/expr.cc |  3 +++
 src/stmt.cc | 30 ++++++++++++++++++++++++++++--
 src/stmt.hh |  6 ++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 08534eb..398d09c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1709,6 +1709,9 @@ void stmt_replace_sink(const std::shared_ptr<AssignStmt> &stmt, Var *target, Var
         } else if (parent->type() == StatementType::Switch) {
             parent->as<SwitchStmt>()->set_target(right->shared_from_this());
             return;
+        } else if (parent->type() == StatementType::FunctionalCall) {
+            parent->as<FunctionCallStmt>()->set_var(right->as<FunctionCallVar>());
+            return;
         }
     }
     stmt->right()->remove_sink(stmt);
diff --git a/src/stmt.cc b/src/stmt.cc
index c8ec1d6..addd9c0 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -884,11 +884,37 @@ FunctionCallStmt::FunctionCallStmt(const std::shared_ptr<FunctionStmtBlock> &fun
     }
     auto *generator = func->generator();
     auto &p = generator->call(func->function_name(), args, false);
-    var_ = p.as<FunctionCallVar>();
+    set_var(p.as<FunctionCallVar>());
 }
 
 FunctionCallStmt::FunctionCallStmt(const std::shared_ptr<FunctionCallVar> &var)
-    : Stmt(StatementType::FunctionalCall), func_(var->func()->as<FunctionStmtBlock>()), var_(var) {}
+    : Stmt(StatementType::FunctionalCall), func_(var->func()->as<FunctionStmtBlock>()) {
+    set_var(var);
+}
+
+void FunctionCallStmt::set_var(const std::shared_ptr<FunctionCallVar> &var) {
+    if (call_stmt_) call_stmt_->clear();
+    call_stmt_ = nullptr;
+    var_ = var;
+    // built-in functions do not belong to any particular generator, use one of the arguments
+    auto *generator = var->generator();
+    for (auto const &iter : var->args()) {
+        if (generator != Const::const_gen()) break;
+        generator = iter.second->generator();
+    }
+    if (generator == Const::const_gen() || var->args().empty()) return;
+    call_stmt_ = generator->get_auxiliary_var(var->width(), var->is_signed())->assign(var);
+    call_stmt_->set_parent(this);
+}
+
+void FunctionCallStmt::set_parent(IRNode *parent) {
+    Stmt::set_parent(parent);
+    if (call_stmt_) call_stmt_->set_parent(this);
+}
+
+void FunctionCallStmt::clear() {
+    if (call_stmt_) call_stmt_->clear();
+}
 
 std::shared_ptr<Stmt> FunctionCallStmt::clone() const { throw UserException("Not implemented"); }
 
diff --git a/src/stmt.hh b/src/stmt.hh
index 4a2abff..07c5f55 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -491,6 +491,10 @@ public:
 
     const std::shared_ptr<FunctionStmtBlock> &func() { return func_; }
     const std::shared_ptr<FunctionCallVar> &var() const { return var_; };
+    void set_var(const std::shared_ptr<FunctionCallVar> &var);
+
+    void set_parent(IRNode *parent) override;
+    void clear() override;
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
@@ -499,6 +503,8 @@ public:
 private:
     std::shared_ptr<FunctionStmtBlock> func_;
     std::shared_ptr<FunctionCallVar> var_;
+    // registers the arguments as being used
+    std::shared_ptr<AssignStmt> call_stmt_;
 };
 
 // TODO: Merge module instantiation and Interface instantiation stmt
-- 
2.43.0


From 5c700e33511c8bce27ec1b2e991e769844f468f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:42 +0000
Subject: [PATCH 098/134] fix: emit FSM outputs in the order they are declared

---
 src/fsm.cc | 9 +++++----
 src/fsm.hh | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 120e694..4f1cb29 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -223,7 +223,7 @@ std::shared_ptr<FunctionStmtBlock> FSM::get_func_def() {
     std::unordered_map<std::string, Var*> name_mapping;
     name_mapping.reserve(outputs_.size());
     // add outputs
-    for (auto const& [var, _] : outputs_) {
+    for (auto* var : output_ordering_) {
         auto var_name = var->to_string() + "_value";
         func->input(var_name, var->width(), var->is_signed());
         name_mapping.emplace(var_name, var);
@@ -468,7 +468,7 @@ void FSM::output(const std::shared_ptr<Var>& var, const std::shared_ptr<Var>& de
             throw VarException("FSM output has to be scoped inside the top-level of generator",
                                {var.get()});
     }
-    outputs_.emplace(var.get(), default_.get());
+    if (outputs_.emplace(var.get(), default_.get()).second) output_ordering_.emplace_back(var.get());
     output_vars_.emplace(var);
 }
 
@@ -743,8 +743,9 @@ void FSMState::output(const std::shared_ptr<Var>& output_var, const std::shared_
 }
 
 void FSMState::check_outputs() {
-    auto outputs = parent_->outputs();
-    for (auto const& [output, default_] : outputs) {
+    auto const& outputs = parent_->outputs();
+    for (auto* output : parent_->output_ordering()) {
+        auto* default_ = outputs.at(output);
         if (output_values_.find(output) == output_values_.end()) {
             if (!default_) {
                 throw VarException(::format("{0} not specified", output->to_string()), {output});
diff --git a/src/fsm.hh b/src/fsm.hh
index 153cd08..2215fd5 100644
--- a/src/fsm.hh
+++ b/src/fsm.hh
@@ -30,6 +30,8 @@ public:
 
     const std::string &fsm_name() const { return fsm_name_; }
     const std::unordered_map<Var *, Var *> &outputs() const { return outputs_; }
+    // in the order they are declared
+    const std::vector<Var *> &output_ordering() const { return output_ordering_; }
     const std::map<std::string, std::shared_ptr<FSMState>> &states() const { return states_; }
 
     void realize();
@@ -62,6 +64,7 @@ private:
     std::string fsm_name_;
     Generator *generator_;
     std::unordered_map<Var *, Var*> outputs_;
+    std::vector<Var *> output_ordering_;
     // passes may remove an output that is never read
     std::unordered_set<std::shared_ptr<Var>> output_vars_;
     std::shared_ptr<Var> clk_ = nullptr;
-- 
2.43.0


From ea62d842d6d1c1db9afd7e19a8317c8a3da14460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:42 +0000
Subject: [PATCH 099/134] fix: visit generators in an order that does not
 depend on the memory layout

---
 src/graph.cc | 18 +++++++-----------
 src/graph.hh |  2 ++
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/graph.cc b/src/graph.cc
index 9832b7d..66b167c 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -58,6 +58,7 @@ GeneratorNode *GeneratorGraph::add_node(Generator *generator) {
     GeneratorNode node;
     node.generator = generator;
     nodes_.emplace(generator, node);
+    ordering_.emplace_back(generator);
     // return the pointer hosted by the nodes_
     return &nodes_.at(generator);
 }
@@ -110,20 +111,14 @@ std::vector<Generator *> GeneratorGraph::get_sorted_nodes() {
     return result;
 }
 
-std::vector<Generator *> GeneratorGraph::get_nodes() {
-    std::vector<Generator *> res;
-    res.reserve(nodes_.size());
-    for (auto const &iter : nodes_) {
-        res.emplace_back(iter.second.generator);
-    }
-
-    return res;
-}
+std::vector<Generator *> GeneratorGraph::get_nodes() { return ordering_; }
 
 std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     // this is a modified breath-first search
     std::queue<std::pair<Generator *, uint32_t>> queue;
     std::unordered_map<GeneratorNode *, uint32_t> level_index;
+    // keep track of the order so that the result doesn't depend on the memory layout
+    std::vector<GeneratorNode *> order;
 
     queue.push({root_, 0});
     uint32_t max_level = 0;
@@ -132,6 +127,7 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
         const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
+        if (level_index.find(node) == level_index.end()) order.emplace_back(node);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
             // update the new level
             level_index[node] = current_level;
@@ -147,8 +143,8 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     std::vector<std::vector<Generator *>> result;
     // notice that max is exclusive
     result.resize(max_level + 1);
-    for (auto const &[generator_node, level] : level_index) {
-        result[level].emplace_back(generator_node->generator);
+    for (auto *generator_node : order) {
+        result[level_index.at(generator_node)].emplace_back(generator_node->generator);
     }
     return result;
 }
diff --git a/src/graph.hh b/src/graph.hh
index 7618672..a9d101a 100644
--- a/src/graph.hh
+++ b/src/graph.hh
@@ -25,6 +25,8 @@ public:
 
 private:
     std::unordered_map<Generator *, GeneratorNode> nodes_;
+    // in the order they are visited
+    std::vector<Generator *> ordering_;
     std::queue<GeneratorNode *> topological_sort();
 
     Generator *root_;
-- 
2.43.0


From 673bc86a8576d7b617a68199e778bbca675beade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 100/134] fix: merge wire assignments in the order of the
 assignments

---
 src/optimize.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a1eb931..ed1c279 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -434,7 +434,7 @@ public:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(generator, sliced_stmts);
         get_stmts_to_remove(generator, stmts_to_remove, sliced_stmts);
 
@@ -449,14 +449,14 @@ private:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(block, sliced_stmts);
         get_stmts_to_remove(block, stmts_to_remove, sliced_stmts);
         for (auto const& stmt : stmts_to_remove) block->remove_stmt(stmt);
     }
 
     static void extract_sliced_stmts(Generator* generator,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         uint64_t stmt_count = generator->stmts_count();
         for (uint64_t i = 0; i < stmt_count; i++) {
             auto stmt = generator->get_stmt(i);
@@ -464,20 +464,20 @@ private:
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
     }
 
     static void extract_sliced_stmts(StmtBlock* block,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         for (auto const& stmt : *block) {
             if (stmt->type() == StatementType ::Assign) {
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
@@ -485,10 +485,12 @@ private:
 
     template <typename T>
     void get_stmts_to_remove(T* generator, std::set<std::shared_ptr<Stmt>>& stmts_to_remove,
-                             const std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
+                             const std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
         // group the assignments together
         using AssignPair = std::pair<Var*, Var*>;
         std::map<AssignPair, std::vector<std::shared_ptr<AssignStmt>>> slice_vars;
+        // the new assignments follow the order of the old ones
+        std::vector<AssignPair> ordering;
         for (auto const& assign_stmt : sliced_stmts) {
             auto left_slice = assign_stmt->left()->as<VarSlice>();
             auto right_slice = assign_stmt->right()->as<VarSlice>();
@@ -503,12 +505,15 @@ private:
                 left_parent->is_signed() != right_parent->is_signed())
                 continue;
 
-            slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
+            auto& slice_stmts = slice_vars[{left_parent, right_parent}];
+            if (slice_stmts.empty()) ordering.emplace_back(left_parent, right_parent);
+            slice_stmts.emplace_back(assign_stmt);
         }
 
         // merge the assignments
-        for (auto const& [vars, stmts] : slice_vars) {
+        for (auto const& vars : ordering) {
             const auto& [left, right] = vars;
+            auto const& stmts = slice_vars.at(vars);
 
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
-- 
2.43.0


From d9975cc3c55dbaf5a4fdc07236ef57bc7f00f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 101/134] fix: do not fill the map of unique generators from
 several threads

---
 src/codegen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index d55be52..a579184 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1460,8 +1460,8 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // this pass assumes that all the generators has been uniquified
     // first get all the unique generators
     UniqueGeneratorVisitor unique_visitor;
-    // this can be parallelized
-    unique_visitor.visit_generator_root_p(top);
+    // can't be parallelized since the map is shared
+    unique_visitor.visit_generator_root(top);
     auto const& generator_map = unique_visitor.generator_map();
     track_generators(top);
 
-- 
2.43.0


From b122f3fb1cd3b295f053798d198a5066ae6aede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 102/134] fix: report unchanged files of a package as well

---
 src/codegen.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index a579184..e012704 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1481,17 +1481,19 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // https://www.veripool.org/boards/2/topics/2822
     for (auto const& [module_name, src] : result) {
         auto path = kratos::fs::join(options.output_dir, module_name + ".sv");
+        bool same_content = false;
         if (kratos::fs::exists(path)) {
             // load up the file
             std::ifstream in(path);
             std::stringstream content_stream;
             content_stream << in.rdbuf();
-            std::string content = content_stream.str();
-            if (content == src) continue;
+            same_content = content_stream.str() == src;
+        }
+        if (!same_content) {
+            // truncate mode
+            std::ofstream out(path, std::ios::trunc);
+            out << src;
         }
-        // truncate mode
-        std::ofstream out(path, std::ios::trunc);
-        out << src;
         // tell the system where it went, if allowed
         auto gens = top->context()->get_generators_by_name(module_name);
         for (auto const& gen : gens) {
-- 
2.43.0


From d5bff1f9f0ad15ceea09ebd31a39663dfe688d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 103/134] fix: create struct variables from struct ports

---
 src/generator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index 9f4c2f0..4909f35 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -104,6 +104,11 @@ Var &Generator::var(const std::string &var_name, uint32_t width, const std::vect
 }
 
 Var &Generator::var(const Var &v, const std::string &var_name) {
+    // members of a struct need to be accessible from the new variable as well
+    if (auto const *var_struct = dynamic_cast<const VarPackedStruct *>(&v))
+        return var_packed(var_name, var_struct->packed_struct(), v.size());
+    if (auto const *port_struct = dynamic_cast<const PortPackedStruct *>(&v))
+        return var_packed(var_name, port_struct->packed_struct(), v.size());
     auto &v_ = var(var_name, v.var_width(), v.size(), v.is_signed());
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
-- 
2.43.0


From 0e8468e4bac2957dda216dec9048313fe322d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 104/134] fix: keep the clock that pipeline stages need

---
 src/optimize.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index ed1c279..c46ed05 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -668,6 +668,12 @@ public:
                     {generator});
             }
             auto clock_port = generator->get_port(clock_name);
+            if (!clock_port) {
+                throw GeneratorException(
+                    ::format("Unable to find clock {0} in generator {1}", clock_name,
+                             generator->name),
+                    {generator});
+            }
             // we need to create all the registers based on the posedge of the clock
             std::vector<std::shared_ptr<SequentialStmtBlock>> blocks;
             blocks.resize(num_stages);
@@ -1289,6 +1295,21 @@ private:
                 event_vars_.emplace(event.var->get_var_root_parent());
             }
         }
+        // the clock of the pipeline stages that are inserted later on
+        bool pipelined = false;
+        std::string clock_name;
+        for (auto const& attr : generator->get_attributes()) {
+            if (attr->type_str == "pipeline")
+                pipelined = true;
+            else if (attr->type_str == "pipeline_clk")
+                clock_name = attr->value_str;
+        }
+        if (pipelined) {
+            auto clock_names = generator->get_ports(PortType::Clock);
+            if (clock_name.empty() && !clock_names.empty()) clock_name = clock_names[0];
+            if (generator->has_port(clock_name))
+                event_vars_.emplace(generator->get_port(clock_name).get());
+        }
     }
 
     void clear_out_ports(Generator* generator) const {
-- 
2.43.0


From f74bac0cbb6851f973154b27d477f8d6acf6264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 105/134] fix: access struct members of array elements and
 nested structs

---
 src/expr.cc      | 17 ++++++++++-------
 src/transform.cc |  4 ++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 398d09c..f51ed20 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2061,13 +2061,16 @@ void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string
 }
 
 shared_ptr<Var> PackedSlice::slice_var(std::shared_ptr<Var> var) {
-    if (var->type() == VarType::PortIO) {
-        auto v = var->as<PortPackedStruct>();
-        return v->operator[](def_->name).shared_from_this();
-    } else {
-        auto v = var->as<VarPackedStruct>();
-        return v->operator[](def_->name).shared_from_this();
-    }
+    // the element of a new array is already accessed through a proxy
+    if (original_struct_) return var;
+    if (auto *port = dynamic_cast<PortPackedStruct *>(var.get()))
+        return port->operator[](def_->name).shared_from_this();
+    if (auto *packed = dynamic_cast<VarPackedStruct *>(var.get()))
+        return packed->operator[](def_->name).shared_from_this();
+    // an element of an array or a member that is a struct itself
+    if (var->type() != VarType::Slice)
+        throw InternalException(::format("{0} is not a struct", var->to_string()));
+    return (*var->as<VarSlice>())[def_->name].shared_from_this();
 }
 
 PackedSlice &PackedSlice::slice_member(const std::string &member_name) {
diff --git a/src/transform.cc b/src/transform.cc
index 9f2fe62..e917373 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -381,7 +381,7 @@ private:
             auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
-                parent->var_packed(new_name, packed->packed_struct());
+                parent->var_packed(new_name, packed->packed_struct(), port->size());
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
@@ -447,7 +447,7 @@ private:
             auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
-                parent->var_packed(new_name, packed->packed_struct());
+                parent->var_packed(new_name, packed->packed_struct(), port->size());
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
-- 
2.43.0


From c98f78a57b2b54d0d4b2def9a93cf1168e8a12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 106/134] fix: accept enum values as sources of child ports

---
 src/stmt.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index addd9c0..7e1f742 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -690,7 +690,12 @@ std::unordered_set<std::shared_ptr<AssignStmt>> filter_assignments_with_target(
         if (lhs) {
             if (stmt->left()->generator() == target) result.emplace(stmt);
         } else {
-            if (stmt->right()->generator() == target) result.emplace(stmt);
+            auto *right = stmt->right();
+            // enum values don't belong to any particular generator
+            auto *generator = right->type() == VarType::ConstValue && right->is_enum()
+                                  ? stmt->generator_parent()
+                                  : right->generator();
+            if (generator == target) result.emplace(stmt);
         }
     }
     return result;
-- 
2.43.0


From 977f1245b4398e2b0ab3c0e9b60dea6439bb7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:19 +0000
Subject: [PATCH 107/134] fix: create enum variables from enum ports

---
 src/generator.cc | 3 +++
 src/transform.cc | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index 4909f35..e69a0b2 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -109,6 +109,9 @@ Var &Generator::var(const Var &v, const std::string &var_name) {
         return var_packed(var_name, var_struct->packed_struct(), v.size());
     if (auto const *port_struct = dynamic_cast<const PortPackedStruct *>(&v))
         return var_packed(var_name, port_struct->packed_struct(), v.size());
+    auto const *v_enum = dynamic_cast<const EnumType *>(&v);
+    if (v_enum && v_enum->enum_type())
+        return enum_var(var_name, std::const_pointer_cast<Enum>(v_enum->enum_type()->shared_from_this()));
     auto &v_ = var(var_name, v.var_width(), v.size(), v.is_signed());
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
diff --git a/src/transform.cc b/src/transform.cc
index e917373..7d9b013 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -382,6 +382,10 @@ private:
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
                 parent->var_packed(new_name, packed->packed_struct(), port->size());
+            } else if (port->is_enum()) {
+                auto const* enum_type = port->as<EnumPort>()->enum_type();
+                parent->enum_var(new_name,
+                                 std::const_pointer_cast<Enum>(enum_type->shared_from_this()));
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
@@ -448,6 +452,10 @@ private:
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
                 parent->var_packed(new_name, packed->packed_struct(), port->size());
+            } else if (port->is_enum()) {
+                auto const* enum_type = port->as<EnumPort>()->enum_type();
+                parent->enum_var(new_name,
+                                 std::const_pointer_cast<Enum>(enum_type->shared_from_this()));
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
-- 
2.43.0


From 90e381186a6c1c97aa6131e086d0c699304bed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:19 +0000
Subject: [PATCH 108/134] fix: access members of struct array elements picked
 by a variable

---
 src/expr.cc | 29 ++++++++++-------------------
 src/expr.hh |  2 +-
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f51ed20..526959f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -643,19 +643,14 @@ PackedSlice &VarSlice::operator[](const std::string &member_name) {
     auto *root = get_var_root_parent();
     if (!root->is_struct())
         throw UserException(::format("Invalid member access{0}.{1}", to_string(), member_name));
-    const PackedStructFieldDef *def;
-    if (is_struct()) {
-        auto *packed = dynamic_cast<PackedSlice *>(this);
-        return packed->slice_member(member_name);
-    } else {
-        auto *packed = dynamic_cast<PackedInterface *>(root);
-        if (!packed)
-            throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-        def = packed->get_definition(member_name);
-    }
+    auto *slice = dynamic_cast<PackedSlice *>(this);
+    if (is_struct()) return slice->slice_member(member_name);
+    // an element of an array. members that are not structs don't have members
+    auto *packed = dynamic_cast<PackedInterface *>(root);
+    if (slice || !packed || !packed->get_definition(member_name))
+        throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
 
-    if (!def) throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-    auto p = std::make_shared<PackedSlice>(this, def, member_name);
+    auto p = std::make_shared<PackedSlice>(this, *packed->packed_struct(), member_name);
     slices_.emplace_back(p);
     return *p;
 }
@@ -2025,13 +2020,9 @@ PackedSlice::PackedSlice(kratos::VarPackedStruct *parent, const std::string &mem
 PackedSlice::PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_)
     : VarSlice(parent, high, low), original_struct_(struct_) {}
 
-PackedSlice::PackedSlice(Var *parent, const PackedStructFieldDef *def,
-                         const std::string &member_name)
-    : VarSlice(parent, 0, 0), def_(def) {
-    if (!def->struct_) {
-        throw InternalException("Invalid member access " + def->name);
-    }
-    set_up(*def->struct_, member_name);
+PackedSlice::PackedSlice(Var *parent, const PackedStruct &struct_, const std::string &member_name)
+    : VarSlice(parent, 0, 0) {
+    set_up(struct_, member_name);
 }
 
 void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string &member_name) {
diff --git a/src/expr.hh b/src/expr.hh
index 4767552..87d0214 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -577,7 +577,7 @@ public:
 
     // this is used for packed struct array
     PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_);
-    PackedSlice(Var *parent, const PackedStructFieldDef *def, const std::string &member_name);
+    PackedSlice(Var *parent, const PackedStruct &struct_, const std::string &member_name);
     PackedSlice(Var *parent) : VarSlice(parent, 0, 0) {}
 
     PackedSlice &slice_member(const std::string &member_name);
-- 
2.43.0


From 07407ccb4bbb67685b162e722aaaefc173665515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:10 +0000
Subject: [PATCH 109/134] fix: order the definitions of packed structs by name

---
 src/analysis.cc | 2 +-
 src/graph.cc    | 2 +-
 src/graph.hh    | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 454d129..a51fe1e 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1084,7 +1084,7 @@ private:
         auto* n = g->get_node(s);
         if (n) {
             n->parent = parent_node;
-            parent_node->children.emplace(n);
+            parent_node->children.emplace(s->struct_name, n);
         }
 
         // look for child definition
diff --git a/src/graph.cc b/src/graph.cc
index 66b167c..9b3c24b 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -207,7 +207,7 @@ void topological_sort_helper(PackedStructGraph *g, PackedStructNode *node,
     visited.emplace(node);
 
     // visit all the child node
-    for (auto const &child : node->children) {
+    for (auto const &[_, child] : node->children) {
         if (visited.find(child) == visited.end()) {
             // visit it
             topological_sort_helper(g, child, visited, queue);
diff --git a/src/graph.hh b/src/graph.hh
index a9d101a..8543384 100644
--- a/src/graph.hh
+++ b/src/graph.hh
@@ -55,7 +55,8 @@ struct PackedStruct;
 struct PackedStructNode {
     PackedStructNode *parent = nullptr;
     const PackedStruct *struct_;
-    std::set<PackedStructNode*> children;
+    // ordered by name so that the result doesn't depend on the memory layout
+    std::map<std::string, PackedStructNode *> children;
 };
 
 class PackedStructGraph {
-- 
2.43.0


From 40253edfa8086093910b003a8d9468444f9e6fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:18 +0000
Subject: [PATCH 110/134] fix: an index into an array or into a variable sized
 by a parameter stays in the text even if the size is one

---
 src/expr.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 526959f..ebf2e48 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -595,10 +595,24 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     }
 }
 
+// whether the width of a variable or of an element of an array depends on a parameter
+static bool has_width_param(const Var *var) {
+    while (var->type() == VarType::Slice) {
+        auto const *parent = reinterpret_cast<const VarSlice *>(var)->parent_var;
+        bool is_array =
+            parent->size().size() > 1 || parent->size().front() > 1 || parent->explicit_array();
+        if (!is_array) return false;
+        var = parent;
+    }
+    return var->parametrized();
+}
+
 std::string VarSlice::to_string() const {
     auto const &parent_name = parent_var->to_string();
     if (high == low) {
-        if (high == 0 && parent_var->width() == 1) {
+        // elements of arrays and bits of variables whose width can change keep their index
+        if (high == 0 && parent_var->width() == 1 && !parent_var->explicit_array() &&
+            !has_width_param(parent_var)) {
             return parent_name;
         }
         return ::format("{0}[{1}]", parent_name, high);
-- 
2.43.0


From 241a78b0e4ea9aec90ddacf8d41a437de1886da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:19 +0000
Subject: [PATCH 111/134] fix: merge_wire_assignments doesn't merge an array of
 one element with a plain variable

---
 src/optimize.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index c46ed05..4200a6e 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -501,6 +501,7 @@ private:
             if (right_parent->type() == VarType::Slice) continue;
             if (left_parent->width() != right_parent->width()) continue;
             if (left_parent->size() != right_parent->size() ||
+                left_parent->explicit_array() != right_parent->explicit_array() ||
                 left_parent->is_packed() != right_parent->is_packed() ||
                 left_parent->is_signed() != right_parent->is_signed())
                 continue;
-- 
2.43.0


From ae8ddbd215e96eb6596dbbab90193abf7457c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:19 +0000
Subject: [PATCH 112/134] fix: signed parameter values are printed as signed
 numbers

---
 src/codegen.cc |  2 +-
 src/expr.cc    | 15 ++++++++++++---
 src/expr.hh    |  2 ++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index e012704..9c656c6 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -360,7 +360,7 @@ void SystemVerilogCodeGen::generate_parameters(Generator* generator) {
             if (param->get_initial_value()) {
                 auto value = *param->get_initial_value();
                 auto c = Const(value, param->width(), param->is_signed());
-                value_str = c.to_string();
+                value_str = c.literal();
             } else if (param->param_type() == ParamType::RawType) {
                 type_str = "type";
                 // determine the initial values
diff --git a/src/expr.cc b/src/expr.cc
index ebf2e48..1edb0e6 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1267,7 +1267,7 @@ void Param::set_value(int64_t new_value) {
 
 std::string Param::value_str() const {
     if (param_type_ == ParamType::Integral) {
-        return Const::to_string();
+        return literal();
     } else if (parent_param_) {
         const auto *p = parent_param();
         return p->to_string();
@@ -1518,12 +1518,21 @@ bool inline is_associative_op(ExprOp op) {
 }
 
 // constants are printed without their sign, which matters if they are part of an expression
-std::string operand_to_string(const Var *var, const std::string &name) {
-    if (var->type() != VarType::ConstValue || !var->is_signed() || var->is_enum()) return name;
+static std::string signed_literal(const std::string &name) {
     auto pos = name.find("'h");
     return pos == std::string::npos ? name : name.substr(0, pos) + "'sh" + name.substr(pos + 2);
 }
 
+std::string Const::literal() const {
+    auto value = Const::to_string();
+    return is_signed_ && !is_enum() ? signed_literal(value) : value;
+}
+
+std::string operand_to_string(const Var *var, const std::string &name) {
+    if (var->type() != VarType::ConstValue || !var->is_signed() || var->is_enum()) return name;
+    return signed_literal(name);
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
diff --git a/src/expr.hh b/src/expr.hh
index 87d0214..ec26cd4 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -439,6 +439,8 @@ public:
     void set_width(uint32_t target_width);
     // whether the value can be represented with the width
     [[nodiscard]] bool fits(uint32_t target_width) const;
+    // the value with its sign
+    [[nodiscard]] std::string literal() const;
     // the same value with a different width
     Const &resize(uint32_t target_width);
 
-- 
2.43.0


From 8f87954c1baaff8a22c257b49ad7591edfc916d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:19 +0000
Subject: [PATCH 113/134] fix: the variables that decouple ports keep the
 parametrised width and size

---
 src/expr.cc      | 11 +++++++++--
 src/transform.cc |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 1edb0e6..d5a5098 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -461,18 +461,25 @@ Var &copy_var_const_parm(Var *var, Generator *parent, bool check_param) {
     }
 }
 
+static bool has_parameter(Var *var) {
+    ParamVisitor visitor;
+    visitor.visit_root(var);
+    return !visitor.params().empty();
+}
+
 void Var::copy_meta_data(Var *new_var, bool check_param) const {
     // basically the parameters
+    // what doesn't depend on a parameter of the other generator is a number there
     if (width_param_) {
         auto &new_v = copy_var_const_parm(width_param_, new_var->generator(), check_param);
-        new_var->set_width_param(&new_v);
+        if (has_parameter(&new_v)) new_var->set_width_param(&new_v);
     }
     // need to copy size as well
     // notice that size parameters are actually expressions, so we need to copy all the expressions
     // over using ast visitor
     for (const auto &[index, v] : size_param_) {
         auto &new_v = copy_var_const_parm(v, new_var->generator(), check_param);
-        new_var->set_size_param(index, &new_v);
+        if (has_parameter(&new_v)) new_var->set_size_param(index, &new_v);
     }
 
     // need to copy the raw_param as well
diff --git a/src/transform.cc b/src/transform.cc
index 7d9b013..ffe39f7 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -390,6 +390,7 @@ private:
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
                 v.set_explicit_array(port->explicit_array());
+                port->copy_meta_data(&v, false);
             }
             Var* var = parent->get_var(new_name).get();
             // be careful about the port type. if it's special type, it needs properly casted
-- 
2.43.0


From ced7ee0c5d355f90bf7010de6045a7e7b789e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:19 +0000
Subject: [PATCH 114/134] fix: widths and slices follow parameters that are set
 later, and replaced links are removed

---
 src/expr.cc | 129 ++++++++++++++++++++++++++++++++++------------------
 src/expr.hh |  20 ++++++--
 2 files changed, 101 insertions(+), 48 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d5a5098..4bf459f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -337,22 +337,18 @@ private:
 };
 
 void Var::set_width_param(Var *param) {
-    if (param == nullptr) {
-        if (width_param_) {
-            ParamVisitor visitor;
-            visitor.visit_root(width_param_);
-            auto const &params = visitor.params();
-            for (const auto &p : params) {
-                p->add_param_width_var(this);
-            }
+    // unlink the parameters used before
+    if (width_param_) {
+        ParamVisitor visitor;
+        visitor.visit_root(width_param_);
+        for (const auto &p : visitor.params()) {
+            p->remove_param_width_var(this);
         }
-        width_param_= nullptr;
-        return;
     }
-    // set width to the current param value
-    auto value = Simulator::static_evaluate_expr(param);
-    var_width_ = value;
     width_param_ = param;
+    if (param == nullptr) return;
+    // set width to the current param value
+    update_width_param();
 
     // get all the parameters
     ParamVisitor visitor;
@@ -363,6 +359,19 @@ void Var::set_width_param(Var *param) {
     }
 }
 
+void Var::update_width_param() {
+    if (!width_param_) return;
+    var_width_ = Simulator::static_evaluate_expr(width_param_);
+    update_slices();
+}
+
+void Var::update_slices() {
+    for (auto const &slice : slices_) {
+        slice->update_shape();
+        slice->update_slices();
+    }
+}
+
 VarSlice &Var::operator[](uint32_t bit) { return this->operator[]({bit, bit}); }
 
 void Var::set_size_param(uint32_t index, Var *param) {
@@ -405,6 +414,7 @@ void Var::set_size_param(uint32_t index, Var *param) {
     // all good. now we need to resize the index
     size_[index] = new_dim_size;
     size_param_[index] = param;
+    update_slices();
 
     // get all the parameters
     ParamVisitor visitor;
@@ -652,9 +662,20 @@ std::vector<std::pair<uint32_t, uint32_t>> VarSlice::get_slice_index() const {
 
 void VarSlice::set_width_param(kratos::Var *param) {
     Var::set_width_param(param);
-    // recompute the var width
+    // the width of a slice depends on the parent as well
+    update_shape();
+}
+
+void VarSlice::update_width_param() {
+    // the parent takes care of that
+}
+
+void VarSlice::update_shape() {
     VarSlice s(parent_var, high, low);
     var_width_ = s.var_width_;
+    size_ = s.size_;
+    var_high_ = s.var_high_;
+    var_low_ = s.var_low_;
 }
 
 PackedSlice &VarSlice::operator[](const std::string &member_name) {
@@ -680,32 +701,12 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     : VarSlice(parent, 0, 0), sliced_var_(slice) {
     // check the size or width
     // we need to re-compute var_high, var_low, width, and other stuff by ourselves here
-    // there is an issue about the var_high and var_low; the problem will only show up during
-    // the connectivity check
-    // TODO: fix this
+    VarVarSlice::update_shape();
     uint32_t required_width;
     if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array()) {
-        // slice through the 1D array
-        // so the width will be 1
-        var_width_ = 1;
-        size_ = {1};
-        // potentially cover all the bits of the parent
-        var_high_ = parent->var_high();
-        var_low_ = parent->var_low();
-        if (parent->width_param())
-            required_width = Simulator::static_evaluate_expr(parent->width_param());
-        else
-            required_width = clog2(parent->width());
+        required_width = clog2(parent->width());
     } else {
-        var_width_ = parent->var_width();
         is_packed_ = parent->is_packed();
-        // peel one layer
-        if (parent->size().size() > 1)
-            size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
-        else
-            size_ = {1};
-        var_high_ = parent->var_high();
-        var_low_ = parent->var_low();
         // we need to compute the clog2 here
         if (parent->get_size_param(0))
             required_width = clog2(Simulator::static_evaluate_expr(parent->get_size_param(0)));
@@ -732,6 +733,29 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     }
 }
 
+void VarVarSlice::update_shape() {
+    // there is an issue about the var_high and var_low; the problem will only show up during
+    // the connectivity check
+    // TODO: fix this
+    auto *parent = parent_var;
+    if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array()) {
+        // slice through the 1D array
+        // so the width will be 1
+        var_width_ = 1;
+        size_ = {1};
+    } else {
+        var_width_ = parent->var_width();
+        // peel one layer
+        if (parent->size().size() > 1)
+            size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
+        else
+            size_ = {1};
+    }
+    // potentially cover all the bits of the parent
+    var_high_ = parent->var_high();
+    var_low_ = parent->var_low();
+}
+
 void VarVarSlice::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::add_sink(stmt);
     sliced_var_->add_sink(stmt);
@@ -1241,12 +1265,24 @@ Param::Param(Generator *m, std::string name, Enum *enum_def)
 }
 
 Param::Param(Generator *m, const std::shared_ptr<Param> &param, std::string parameter_name)
-    : Const(m, 1, 1, false),
+    : Const(m, param->enum_def_ ? 0 : 1, param->width(), param->is_signed()),
       parameter_name_(std::move(parameter_name)),
       param_type_(param->param_type_),
-      enum_def_(param->enum_def_) {}
+      enum_def_(param->enum_def_) {
+    type_ = VarType::Parameter;
+}
 
 void Param::set_value(int64_t new_value) {
+    // the value doesn't follow the other parameter anymore
+    if (parent_param_ && param_type_ == ParamType::Parameter) {
+        parent_param_->param_params_.erase(this);
+        parent_param_ = nullptr;
+        param_type_ = enum_def_ ? ParamType::Enum : ParamType::Integral;
+    }
+    update_value(new_value);
+}
+
+void Param::update_value(int64_t new_value) {
     if (new_value <= 0 && !param_vars_width_.empty()) {
         throw VarException(
             ::format(
@@ -1258,17 +1294,19 @@ void Param::set_value(int64_t new_value) {
     has_value_ = true;
 
     // change the width of parametrized variables
-    for (const auto &var : param_vars_width_) {
-        var->var_width() = new_value;
+    for (const auto &[var, ref] : param_vars_width_) {
+        if (!ref.expired()) var->update_width_param();
     }
     // change the size as well
-    for (const auto &[var, index, expr] : param_vars_size_) {
-        var->set_size_param(index, expr);
+    auto const size_vars = param_vars_size_;
+    for (const auto &[key, ref] : size_vars) {
+        auto const &[var, index, expr] = key;
+        if (!ref.expired()) var->set_size_param(index, expr);
     }
 
     // change the entire chain
     for (const auto &param : param_params_) {
-        param->set_value(new_value);
+        param->update_value(new_value);
     }
 }
 
@@ -1289,7 +1327,7 @@ std::string Param::value_str() const {
 }
 
 void Param::add_param_size_var(Var *var, uint32_t index, Var *expr) {
-    param_vars_size_.emplace(std::make_tuple(var, index, expr));
+    param_vars_size_[std::make_tuple(var, index, expr)] = var->weak_from_this();
 }
 
 void Param::remove_param_size_var(kratos::Var *var, uint32_t index, kratos::Var *expr) {
@@ -1302,12 +1340,13 @@ bool Param::has_param_size_var(kratos::Var *var, uint32_t index, kratos::Var *ex
 }
 
 void Param::set_value(const std::shared_ptr<Param> &param) {
+    if (parent_param_) parent_param_->param_params_.erase(this);
     param->param_params_.emplace(this);
     parent_param_ = param.get();
     if (param->param_type() != ParamType::RawType) param_type_ = ParamType::Parameter;
 
     // update the values
-    set_value(param->value());
+    update_value(param->value());
 }
 
 void Param::set_value(const std::string &str_value) { raw_str_value_ = str_value; }
diff --git a/src/expr.hh b/src/expr.hh
index ec26cd4..e28d2d8 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -6,6 +6,7 @@
 #include <set>
 #include <stdexcept>
 #include <string>
+#include <unordered_map>
 #include <unordered_set>
 #include <vector>
 
@@ -195,6 +196,8 @@ public:
     bool parametrized() const { return width_param_ != nullptr; }
     void set_width_param(const std::shared_ptr<Var> &param);
     virtual void set_width_param(Var *param);
+    // compute the width again after a parameter has changed
+    virtual void update_width_param();
     Var *width_param() const { return width_param_; }
     bool raw_type_parametrized() const { return raw_type_param_ != nullptr; }
     void set_raw_type_param(Param *param) { raw_type_param_ = param; }
@@ -222,6 +225,8 @@ public:
     // will do a sanity check to make sure that the changed size won't affect already existing
     // slices
     void set_size_param(uint32_t index, Var *param);
+    // the shape of slices follows the variable
+    void update_slices();
     inline Var *get_size_param(uint32_t index) const {
         return size_param_.find(index) == size_param_.end() ? nullptr : size_param_.at(index);
     }
@@ -375,6 +380,8 @@ public:
     std::vector<std::pair<uint32_t, uint32_t>> get_slice_index() const override;
 
     void set_width_param(Var *param) override;
+    void update_width_param() override;
+    virtual void update_shape();
 
     PackedSlice &operator[](const std::string &member_name);
     VarSlice &operator[](uint32_t index) override { return Var::operator[](index); }
@@ -418,6 +425,7 @@ public:
     }
 
     bool sliced_by_var() const override { return true; }
+    void update_shape() override;
     Var *sliced_var() const { return sliced_var_; }
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
@@ -498,7 +506,7 @@ public:
     std::string value_str() const;
     inline bool has_value() const { return has_value_; }
 
-    void add_param_width_var(Var *var) { param_vars_width_.emplace(var); }
+    void add_param_width_var(Var *var) { param_vars_width_[var] = var->weak_from_this(); }
     void remove_param_width_var(Var *var) { param_vars_width_.erase(var); }
     [[nodiscard]] bool has_param_width_var(Var *var) const {
         return param_vars_width_.find(var) != param_vars_width_.end();
@@ -529,8 +537,9 @@ private:
     std::string parameter_name_;
     ParamType param_type_ = ParamType::Integral;
 
-    std::unordered_set<Var *> param_vars_width_;
-    std::set<std::tuple<Var *, uint32_t, Var *>> param_vars_size_;
+    // passes may remove the variables
+    std::unordered_map<Var *, std::weak_ptr<Var>> param_vars_width_;
+    std::map<std::tuple<Var *, uint32_t, Var *>, std::weak_ptr<Var>> param_vars_size_;
     std::unordered_set<Param *> param_params_;
     Param *parent_param_ = nullptr;
 
@@ -540,6 +549,8 @@ private:
     std::optional<std::string> raw_str_value_;
     std::optional<std::string> initial_raw_str_value_;
     Enum *enum_def_ = nullptr;
+
+    void update_value(int64_t new_value);
 };
 
 struct PackedStruct;
@@ -584,6 +595,9 @@ public:
 
     PackedSlice &slice_member(const std::string &member_name);
 
+    // structs are not parametrized
+    void update_shape() override {}
+
     std::string to_string() const override;
 
     std::shared_ptr<Var> slice_var(std::shared_ptr<Var> var) override;
-- 
2.43.0


From ec3b6bea17678f5125f42ee3cb11991b7cb62a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 115/134] fix: comments with newlines

---
 src/util.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 750e3ed..ce6a913 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -218,8 +218,7 @@ std::string port_type_to_str(PortType type) {
 }
 
 std::string strip_newline(std::string &str) {
-    std::string::size_type pos = 0;
-    while ((pos = str.find('\n', pos) != std::string::npos)) str.erase(pos, 1);
+    str.erase(std::remove(str.begin(), str.end(), '\n'), str.end());
     return str;
 }
 
-- 
2.43.0


From 3260e2b50e1903cc7bbcd667596779bd1b4a56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 116/134] fix: sort_stmts refuses initial blocks, loops,
 assertions and comments

---
 src/transform.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index ffe39f7..04c5a8b 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -913,8 +913,10 @@ public:
         std::vector<std::shared_ptr<Stmt>> combinational_assignments;
         std::vector<std::shared_ptr<Stmt>> sequential_assignments;
         std::vector<std::shared_ptr<Stmt>> latch_assignments;
-        auto lists = {&var_assignments, &module_inst_assignments, &latch_assignments,
-                      &combinational_assignments, &sequential_assignments};
+        // the rest, e.g. initial blocks, loops, and assertions, keeps its order
+        std::vector<std::shared_ptr<Stmt>> others;
+        auto lists = {&var_assignments,           &module_inst_assignments, &latch_assignments,
+                      &combinational_assignments, &sequential_assignments,  &others};
         for (auto* assign : lists) assign->reserve(stmts.size());
 
         for (auto const& stmt : stmts) {
@@ -929,12 +931,12 @@ public:
                 } else if (block->block_type() == StatementBlockType::Latch) {
                     latch_assignments.emplace_back(stmt);
                 } else {
-                    throw StmtException("Unrecognized statement block in top level", {stmt.get()});
+                    others.emplace_back(stmt);
                 }
             } else if (stmt->type() == StatementType::ModuleInstantiation) {
                 module_inst_assignments.emplace_back(stmt);
             } else {
-                throw StmtException("Statement cannot be in the top level", {stmt.get()});
+                others.emplace_back(stmt);
             }
         }
 
-- 
2.43.0


From 25f8ccd2430fe12dde4a06739f3e0b4de58ed483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 117/134] fix: a generator without source information stops the
 debug information of a package

---
 src/debug.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 802bcc1..998dca5 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -791,6 +791,8 @@ std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>> extract_debug_
     GeneratorDebugVisitor visitor;
     visitor.visit_content(top);
     auto result = visitor.result();
+    // there may be no source information for the generator
+    if (result.empty()) return {};
     if (result.size() != 1) {
         throw InternalException(
             ::format("Unable to extract debug info from the particular generator {0}", top->name));
-- 
2.43.0


From 5ed120fc8b525bd7007f5876cceddd9a31b4915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 118/134] fix: source attributes are printed for comments

---
 src/codegen.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 9c656c6..f148426 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -429,7 +429,10 @@ void SystemVerilogCodeGen::dispatch_node(IRNode* node) {
     auto* stmt_ptr = reinterpret_cast<Stmt*>(node);
 
     // yosys src
-    if (options_.yosys_src) output_yosys_src(node);
+    // comments are not part of the source, and interfaces are already instantiated
+    if (options_.yosys_src && stmt_ptr->type() != StatementType::Comment &&
+        stmt_ptr->type() != StatementType::InterfaceInstantiation)
+        output_yosys_src(node);
 
     // use switch for branch tables
     // also let compiler check if we have all the types covered
-- 
2.43.0


From 1856cd87834b5e4fd81311e637836915e4db4ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 119/134] fix: create_wrapper_flatten changes the type of
 parameters and the sign of array elements

---
 src/codegen.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index f148426..81b27b9 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1245,7 +1245,7 @@ Generator& create_wrapper_flatten(Generator* top, const std::string& wrapper_nam
     // copy the parameter definition over
     auto params = top->get_params();
     for (auto const& [name, param] : params) {
-        auto& new_p = gen.parameter(name, 32);
+        auto& new_p = gen.parameter(name, param->width(), param->is_signed());
         new_p.set_value(param->value());
         param->set_value(new_p.as<Param>());
     }
@@ -1273,7 +1273,9 @@ Generator& create_wrapper_flatten(Generator* top, const std::string& wrapper_nam
                 for (uint64_t i = 1; i < slice.size(); i++) slice_port = &(*slice_port)[slice[i]];
                 if (slice_port->size().size() != 1 || slice_port->size()[0] != 1)
                     throw InternalException("Unable to slice ports when flattening");
-                auto& new_port = gen.port(p->port_direction(), name, slice_port->var_width());
+                auto& new_port =
+                    gen.port(p->port_direction(), name, slice_port->var_width(),
+                             std::vector<uint32_t>{1}, PortType::Data, p->is_signed());
                 if (p->port_direction() == PortDirection::In) {
                     gen.add_stmt(slice_port->assign(new_port, AssignmentType::Blocking));
                 } else {
-- 
2.43.0


From c36a09c52357ae8c96ce428788070d1ecc2f6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 120/134] fix: interfaces are declared in a package, and a
 package without include guard has no head

---
 src/codegen.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 81b27b9..d8f6d21 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1308,13 +1308,11 @@ std::pair<std::string, uint32_t> generate_sv_package_header(Generator* top,
                       [](char& c) { c = static_cast<char>(::toupper(c)); });
         stream << "`ifndef " << guard_name << stream.endl();
         stream << "`define " << guard_name << stream.endl();
-        // package header
-        stream << "package " << package_name << ";" << stream.endl();
     }
+    // package header
+    stream << "package " << package_name << ";" << stream.endl();
 
-    // all the information list
-    auto info_list = {dpi_info, struct_info, enum_info, interface_info};
-    for (auto const& info : info_list) {
+    auto output_info = [&stream](const std::map<std::string, std::string>& info) {
         for (auto const& iter : info) {
             auto def = iter.second;
             // split on new line to replace with the stream new line so that we can track
@@ -1325,10 +1323,15 @@ std::pair<std::string, uint32_t> generate_sv_package_header(Generator* top,
             }
             stream << stream.endl();
         }
-    }
+    };
+    output_info(dpi_info);
+    output_info(struct_info);
+    output_info(enum_info);
 
     // closing
     stream << "endpackage" << stream.endl();
+    // interfaces cannot be declared in a package
+    output_info(interface_info);
     // end of guard
     if (include_guard) stream << "`endif" << stream.endl();
 
-- 
2.43.0


From bbc53ebbf7bae11a389f4ac4192dcd5ef3e1038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 121/134] fix: recorded lines of sequential blocks, switch
 statements, and functions without ports

---
 src/codegen.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index d8f6d21..11c42aa 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -540,9 +540,6 @@ void SystemVerilogCodeGen::stmt_code(SequentialStmtBlock* stmt) {
         stream_ << indent() << "// " << strip_newline(stmt->comment) << stream_.endl();
     }
     // produce the sensitive list
-    if (generator_->debug) {
-        stmt->verilog_ln = stream_.line_no();
-    }
     std::vector<std::string> sensitive_list;
     for (const auto& event_control : stmt->get_event_controls()) {
         auto func = [this](const Var* var) { return stream_.var_str(var); };
@@ -550,8 +547,12 @@ void SystemVerilogCodeGen::stmt_code(SequentialStmtBlock* stmt) {
     }
     std::string sensitive_list_str =
         string::join(sensitive_list.begin(), sensitive_list.end(), ", ");
-    stream_ << stream_.endl() << "always_ff @(" << sensitive_list_str << ") begin"
-            << block_label(stmt) << stream_.endl();
+    stream_ << stream_.endl();
+    if (generator_->debug) {
+        stmt->verilog_ln = stream_.line_no();
+    }
+    stream_ << "always_ff @(" << sensitive_list_str << ") begin" << block_label(stmt)
+            << stream_.endl();
     indent_++;
 
     for (uint64_t i = 0; i < stmt->size(); i++) {
@@ -670,7 +671,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
 
     stream_ << stmt->function_name();
     if (stmt->ports().empty()) {
-        stream_ << ";" << std::endl;
+        stream_ << ";" << stream_.endl();
     } else {
         stream_ << "(" << stream_.endl();
     }
@@ -894,6 +895,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::InterfaceInstantiationStmt* stmt) {
 }
 
 void SystemVerilogCodeGen::stmt_code(SwitchStmt* stmt) {
+    if (generator_->debug) stmt->verilog_ln = stream_.line_no();
     stream_ << indent() << (options_.unique_case ? "unique" : "") << " case ("
             << stream_.var_str(stmt->target()) << ")" << stream_.endl();
     indent_++;
-- 
2.43.0


From da8ee8772158b07a7885f71a5f544ddb9f3035dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 122/134] fix: the recorded line of a predicate is that of the
 first time the design was written

---
 src/codegen.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 11c42aa..5fe30c5 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -788,7 +788,10 @@ void SystemVerilogCodeGen::stmt_code(RawStringStmt* stmt) {
 void SystemVerilogCodeGen::stmt_code(IfStmt* stmt) {
     if (generator_->debug) {
         stmt->verilog_ln = stream_.line_no();
-        if (stmt->predicate()->verilog_ln == 0) stmt->predicate()->verilog_ln = stream_.line_no();
+        // expressions don't have a line of their own
+        auto const& predicate = stmt->predicate();
+        if (predicate->verilog_ln == 0 || predicate->type() == VarType::Expression)
+            predicate->verilog_ln = stream_.line_no();
     }
     stream_ << indent() << "if (" << stream_.var_str(stmt->predicate()) << ") ";
     auto const& then_body = stmt->then_body();
-- 
2.43.0


From 2bbe9114a81a0d2d0f033479fa541e51f395cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 123/134] fix: fix_verilog_ln leaves out top level statements
 and functions

---
 src/codegen.cc | 3 +++
 src/graph.cc   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 5fe30c5..a9b7603 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1353,6 +1353,9 @@ void fix_verilog_ln(Generator* generator, uint32_t offset) {
         auto var = generator->get_var(var_name);
         var->verilog_ln += offset;
     }
+    for (auto const& func : generator->functions()) {
+        for (auto const& iter : func.second->ports()) iter.second->verilog_ln += offset;
+    }
     // get all the statement graph
     StatementGraph graph(generator);
     auto stmts = graph.nodes();
diff --git a/src/graph.cc b/src/graph.cc
index 9b3c24b..12e0e49 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -177,8 +177,13 @@ void StatementGraph::add_stmt_child(Stmt *stmt) {
 }
 
 void StatementGraph::build_graph() {
+    auto add_root = [this](Stmt *stmt) {
+        nodes_.emplace(stmt, StmtNode{nullptr, stmt, {}});
+        add_stmt_child(stmt);
+    };
     auto stmts = root_->get_all_stmts();
-    for (auto const &stmt : stmts) add_stmt_child(stmt.get());
+    for (auto const &stmt : stmts) add_root(stmt.get());
+    for (auto const &iter : root_->functions()) add_root(iter.second.get());
 }
 
 PackedStructNode *PackedStructGraph::add_node(const PackedStruct *s) {
-- 
2.43.0


From 440e7a11b4ea5fb4c433972ef3bc0b78525ebcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:58 +0000
Subject: [PATCH 124/134] fix: removing a child generator detaches its
 connections from both sides and leaves the inside of the child alone

---
 src/generator.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index e69a0b2..ac6e349 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -459,15 +459,18 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
                 auto srcs = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sources().begin(),
                                                                             port->sources().end());
                 for (auto const &stmt : srcs) {
-                    auto *sink = stmt->right();
-                    sink->unassign(stmt);
+                    stmt->left()->remove_source(stmt);
+                    stmt->right()->remove_sink(stmt);
                     remove_stmt_from_parent(stmt);
                 }
             } else {
                 auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sinks().begin(),
                                                                              port->sinks().end());
                 for (auto const &stmt : sinks) {
-                    port->unassign(stmt);
+                    // the child can read its own output
+                    if (stmt->generator_parent() == child.get()) continue;
+                    stmt->left()->remove_source(stmt);
+                    stmt->right()->remove_sink(stmt);
                     remove_stmt_from_parent(stmt);
                 }
             }
-- 
2.43.0


From ceea02e13d58d3b0804b7cc3c8aed6cf9370e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 125/134] fix: the definition of an interface is emitted when
 only its mod ports are used, and clashing mod ports are refused

---
 src/analysis.cc  | 39 +++++++++++++++++++++++++++++++++++----
 src/interface.hh |  2 +-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index a51fe1e..6b6be29 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1310,10 +1310,6 @@ public:
         return interfaces_;
     }
 
-private:
-    std::unordered_map<std::string, std::pair<Generator*, const InterfaceRef*>> interfaces_;
-    std::mutex lock_;
-
     void update_interface_definition(const std::shared_ptr<IDefinition>& def,
                                      const InterfaceRef* ref, Generator* gen) {
         lock_.lock();
@@ -1348,13 +1344,48 @@ private:
                                                  gen->handle_name(), def->def_name(),
                                                  reg_gen->handle_name(), ref_def->def_name()));
             }
+            // and the same mod ports
+            if (!same_mod_ports(def.get(), ref_def.get()))
+                throw UserException(::format("{0}.{1}'s interface differs from {2}.{3}'s",
+                                             gen->handle_name(), def->def_name(),
+                                             reg_gen->handle_name(), ref_def->def_name()));
         }
     }
+
+private:
+    std::unordered_map<std::string, std::pair<Generator*, const InterfaceRef*>> interfaces_;
+    std::mutex lock_;
+
+    static bool same_mod_ports(const IDefinition* def1, const IDefinition* def2) {
+        using Access = std::pair<std::set<std::string>, std::set<std::string>>;
+        auto get_mod_ports = [](const IDefinition* def) {
+            std::map<std::string, Access> result;
+            if (auto const* mod_port = dynamic_cast<const InterfaceModPortDefinition*>(def)) {
+                result.emplace("", Access{mod_port->inputs(), mod_port->outputs()});
+            } else if (auto const* full = dynamic_cast<const InterfaceDefinition*>(def)) {
+                for (auto const& [name, mp] : full->mod_ports())
+                    result.emplace(name, Access{mp->inputs(), mp->outputs()});
+            }
+            return result;
+        };
+        return get_mod_ports(def1) == get_mod_ports(def2);
+    }
 };
 
 std::map<std::string, std::string> extract_interface_info(Generator* top) {
     InterfaceVisitor visitor;
     visitor.visit_generator_root_p(top);
+    // a mod port needs the interface it belongs to, even if nothing else uses that interface
+    Context context;
+    auto const used = visitor.interfaces();
+    for (auto const& [interface_name, def] : used) {
+        auto const& i_def = def.second->definition();
+        if (!i_def->is_modport()) continue;
+        auto const& full_def = std::static_pointer_cast<InterfaceModPortDefinition>(i_def)->def();
+        auto& gen = context.generator("interface_def");
+        auto ref = gen.interface(full_def, "def", false);
+        visitor.update_interface_definition(full_def, ref.get(), def.first);
+    }
     auto const& defs = visitor.interfaces();
     std::map<std::string, std::string> result;
     const std::string indent = "  ";
diff --git a/src/interface.hh b/src/interface.hh
index b692357..3363db5 100644
--- a/src/interface.hh
+++ b/src/interface.hh
@@ -94,7 +94,7 @@ public:
     [[nodiscard]] const std::set<std::string> &inputs() const { return inputs_; }
     [[nodiscard]] const std::set<std::string> &outputs() const { return outputs_; }
 
-    [[nodiscard]] const InterfaceDefinition *def() const { return def_.get(); }
+    [[nodiscard]] const std::shared_ptr<InterfaceDefinition> &def() const { return def_; }
     [[nodiscard]] const std::string &name() const override { return name_; }
     [[nodiscard]] std::string def_name() const override;
 
-- 
2.43.0


From 5f88e54b1d04818099900c989fa00cb39ba72907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 126/134] fix: print whole expressions in the connections of an
 interface instance

---
 src/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index a9b7603..538c3e6 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1125,7 +1125,7 @@ void SystemVerilogCodeGen::generate_port_interface(kratos::InstantiationStmt* st
         std::string external_name;
         if (stmt->instantiation_type() == InstantiationStmt::InstantiationType::Interface) {
             internal_name = internal->name;
-            external_name = external->name;
+            external_name = external->to_string();
         } else {
             // module
             if (!internal->is_interface()) {
-- 
2.43.0


From 552dd940bdf2321c69109a9b4cf7368ddc63a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 127/134] fix: direction of the ports of a mod port reference

---
 src/interface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface.cc b/src/interface.cc
index e7bbb6e..d43d901 100644
--- a/src/interface.cc
+++ b/src/interface.cc
@@ -187,7 +187,7 @@ std::shared_ptr<InterfaceRef> InterfaceRef::get_modport_ref(const std::string& n
     // since it's modport, it can only be ports
     auto ports = modport_def->ports();
     for (auto const& port_name : ports) {
-        bool is_input = modport_def->inputs().find(name) != modport_def->inputs().end();
+        bool is_input = modport_def->inputs().find(port_name) != modport_def->inputs().end();
         if (has_var(port_name)) {
             // it's a variable
             auto port = std::make_shared<ModportPort>(
-- 
2.43.0


From 08d7ff504ba9be2201c8aea93da600972426442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 128/134] fix: width of an array in a mod port

---
 src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/port.cc b/src/port.cc
index 742af10..71224ab 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -295,7 +295,7 @@ std::string InterfacePort::to_string() const {
 std::string InterfacePort::base_name() const { return interface_->base_name(); }
 
 ModportPort::ModportPort(InterfaceRef* ref, kratos::Var* var, kratos::PortDirection dir)
-    : InterfacePort(ref, var->generator(), dir, var->name, var->width(), var->size(),
+    : InterfacePort(ref, var->generator(), dir, var->name, var->var_width(), var->size(),
                     PortType::Data, var->is_signed()),
       var_(var) {
     explicit_array_ = var->explicit_array();
-- 
2.43.0


From cb0efc02167a72f7b914648d187349e3d9106c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 129/134] fix: name of a variable that is used through a mod
 port

---
 src/port.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port.hh b/src/port.hh
index ad074a5..6b023f3 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -198,6 +198,9 @@ struct ModportPort : public InterfacePort {
 public:
     ModportPort(InterfaceRef *ref, Var *var, PortDirection dir);
 
+    // the mod port only restricts the access, it is not part of the name
+    std::string to_string() const override { return var_->to_string(); }
+
     // wraps all the critical functions
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sinks() const override {
         return var_->sinks();
-- 
2.43.0


From a1136319653bc923a46c0ed8b9e691c0b0919324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 130/134] fix: modules with interface ports are not
 pass-through modules

---
 src/optimize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 4200a6e..48f43f3 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -399,6 +399,8 @@ private:
         // NOLINTNEXTLINE
         for (const auto& port_name : port_names) {
             auto const port = generator->get_port(port_name);
+            // the parent refers to these by the interface
+            if (port->is_interface()) return false;
             if (port->port_direction() == PortDirection::In) {
                 auto sinks = port->sinks();
                 if (sinks.size() != 1) return false;
-- 
2.43.0


From 39750d65f1788616eef4df0ef7cdcde2bd6b5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 131/134] fix: constant merging keeps the signals of an
 interface

---
 src/optimize.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 48f43f3..31ea095 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1151,8 +1151,9 @@ class MergeConstPortVisitor : public IRVisitor {
 
         for (auto const& var_name : vars) {
             auto const& var = generator->get_var(var_name);
-            if (var->type() == VarType::Base && var->sources().size() == 1 &&
-                var->sinks().size() == 1) {
+            // signals of an interface are kept: they are connected through the interface
+            if (var->type() == VarType::Base && !var->is_interface() &&
+                var->sources().size() == 1 && var->sinks().size() == 1) {
                 auto source_stmt = *(var->sources().begin());
                 auto sink_stmt = *(var->sinks().begin());
                 // processes are allowed to have constant drivers, and both ends have to be connected
@@ -1163,7 +1164,7 @@ class MergeConstPortVisitor : public IRVisitor {
                 auto* source_from = source_stmt->right();
                 auto* sink_to = sink_stmt->left();
                 if (source_from->type() == VarType::ConstValue &&
-                    sink_to->type() == VarType::PortIO &&
+                    sink_to->type() == VarType::PortIO && !sink_to->is_interface() &&
                     sink_to->generator()->parent() == generator) {
                     sink_to->clear_sources(false);
                     generator->add_stmt(sink_to->assign(*source_from, AssignmentType::Blocking));
-- 
2.43.0


From d71082a66dfd81bec747f891920e387655597c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 132/134] fix: constants and several readers on the ports of an
 interface instance

---
 src/stmt.cc | 38 +++++++++++++++++++++++++++++++++++++-
 src/stmt.hh |  3 +++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 7e1f742..7eb2eb3 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -994,11 +994,47 @@ ModuleInstantiationStmt::ModuleInstantiationStmt(Generator *target, Generator *p
     target->has_instantiated() = true;
 }
 
+void InterfaceInstantiationStmt::process_interface_port(kratos::Port *port, Generator *parent,
+                                                        const std::string &target_name) {
+    // the interface is instantiated in the parent that also owns its ports. an input port has to be
+    // driven by one continuous assignment of the parent, whatever the value is; an output port can
+    // be read any number of times through the interface
+    std::vector<std::shared_ptr<AssignStmt>> stmts;
+    bool is_input = port->port_direction() == PortDirection::In;
+    for (auto const &stmt : is_input ? port->sources() : port->sinks()) {
+        if (stmt->generator_parent() != parent || !stmt->parent() ||
+            stmt->parent()->ir_node_kind() != IRNodeKind::GeneratorKind)
+            continue;
+        if (is_input || (stmt->right() == port && stmt->left()->generator() == parent))
+            stmts.emplace_back(stmt);
+    }
+    if (is_input) {
+        for (auto const &slice : port->get_slices()) {
+            if (!slice->sources().empty())
+                throw InternalException("Input slices not supported in the statement. "
+                                        "Please run a de-couple pass first");
+        }
+        if (stmts.empty())
+            throw VarException(::format("{0}.{1} is not connected", target_name, port->name),
+                               {port});
+        if (stmts.size() > 1)
+            throw VarException(
+                ::format("{0}.{1} is driven by multiple nets", target_name, port->name), {port});
+    } else if (stmts.size() != 1) {
+        return;
+    }
+    auto const &stmt = stmts.front();
+    port_mapping_.emplace(port, is_input ? stmt->right() : stmt->left());
+    if (parent->debug) port_debug_.emplace(port, stmt.get());
+    connection_stmt_.emplace(stmt.get());
+    stmt->remove_from_parent();
+}
+
 InterfaceInstantiationStmt::InterfaceInstantiationStmt(kratos::Generator *parent,
                                                        kratos::InterfaceRef *interface)
     : Stmt(StatementType::InterfaceInstantiation), interface_(interface) {
     for (auto const &[port_name, port] : interface->ports()) {
-        process_port(port, parent, interface->name());
+        process_interface_port(port, parent, interface->name());
     }
     interface->has_instantiated() = true;
 }
diff --git a/src/stmt.hh b/src/stmt.hh
index 07c5f55..77bff61 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -557,6 +557,9 @@ public:
 
 private:
     InterfaceRef *interface_;
+
+    void process_interface_port(kratos::Port *port, Generator *parent,
+                                const std::string &target_name);
 };
 
 class CommentStmt : public Stmt {
-- 
2.43.0


From 32636da8c4bcc82d300b084fff91734942abf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 133/134] fix: a clone has the values of the parameters of its
 origin

---
 src/generator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index ac6e349..051bc4a 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1035,7 +1035,10 @@ std::shared_ptr<Generator> Generator::clone() {
     auto port_names = get_port_names();
     // also parameters
     for (auto const &[param_name, param] : params_) {
-        generator->parameter(param_name, param->width(), param->is_signed());
+        auto &p = generator->parameter(param_name, param->width(), param->is_signed());
+        // the clone is the same hardware
+        if (auto const value = param->get_initial_value()) p.set_initial_value(*value);
+        if (param->has_value()) p.set_value(param->value());
     }
 
     for (auto const &port_name : port_names) {
-- 
2.43.0


From 5019f3f327e6bb16e0b970919441bb8597ddc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 134/134] fix: expressions with ports of a replaced child get
 the parent as their generator

---
 src/generator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index 051bc4a..7ecb52e 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1196,6 +1196,8 @@ void Generator::replace(const std::string &child_name,
 
     // all passed, now replace the ports!
     new_child->instance_name = child_name;
+    // expressions that use its ports belong to this generator
+    new_child->parent_generator_ = this;
     for (const auto &port_name : old_port_names) {
         auto old_port = old_child->get_port(port_name);
         auto new_port = new_child->get_port(port_name);
-- 
2.43.0

