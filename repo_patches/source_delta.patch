From 7a3d7e1684ea6b0f7b20792476cf778a4a1435a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 01/12] fix: do not push an effectively decided variable to its
 queue twice

---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From d408a9c62baf13e163836cc865d24fc4204753ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 02/12] fix: substitute the arguments of a defined function in
 its whole body

---
 src/terms/Term_rewriter.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..3353a30 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -30,7 +30,14 @@ public:
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
 
-        toProcess.emplace_back(root);
+        // Only positive terms are processed, negation is restored when the terms are rebuilt
+        auto rewritten_or_same = [&](term_t term) {
+            auto it = substitutions.find(tm.positive_term(term));
+            if (it == substitutions.end()) { return term; }
+            return tm.is_negated(term) ? opposite_term(it->second) : it->second;
+        };
+
+        toProcess.emplace_back(tm.positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
@@ -39,20 +46,22 @@ public:
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = tm.positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            if (tm.get_kind(current_term) == Kind::APP_TERM)
+            {
+                aux_args.push_back(tm.get_fnc_symbol(current_term));
+            }
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
-                bool child_changed = it != substitutions.end();
-                needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = rewritten_or_same(child);
+                needs_change |= newChild != child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
@@ -67,8 +76,7 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        return rewritten_or_same(root);
     }
 };
 
-- 
2.43.0


From 4194f2df8e89589ecae1bf9a22dfa18434f69965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 03/12] fix: Long_fraction::inv of values that do not fit
 machine words

---
 src/lra/Long_fraction.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..19b7232 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -418,13 +418,7 @@ public:
         return r;
     }
 
-    inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
-    }
+    inline Long_fraction inv() const { return inverse(); }
 };
 
 Long_fraction fastrat_fdiv_q(Long_fraction const & n, Long_fraction const & d);
-- 
2.43.0


From fcc6f68354eb7a4e71d0d4d7a8ca6a18c58bca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 04/12] fix: Boolean arguments and results of uninterpreted
 functions

---
 src/parser/Solver_wrapper.cpp      |  4 ++--
 src/uf/Uninterpreted_functions.cpp | 30 ++++++++++++++++++++++++------
 src/uf/Uninterpreted_functions.h   |  7 +++++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..68341d1 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -234,14 +234,14 @@ void Internalizer_config::visit(term_t t)
             break;
         }
 
-        Variable var = solver.make_function_application(var_type, t);
+        Variable var = solver.make_function_application(var_type, term_manager.positive_term(t));
 
         switch (term_type) {
         case terms::types::real_type:
             insert_var(internal_rational_vars, t, var.ord());
             break;
         case terms::types::bool_type:
-            insert_var(internal_bool_vars, t, Literal(var.ord()));
+            insert_var(internal_bool_vars, term_manager.positive_term(t), Literal(var.ord()));
             break;
         }
 
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..6ecc180 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,10 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        std::optional<Literal> maybe_lit = term_to_literal(t);
+        if (maybe_lit.has_value())
         {
-            return found->second.var();
+            return maybe_lit.value().var();
         }
         break;
     }
@@ -87,6 +86,17 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    // only positive terms are mapped to literals
+    auto key_equal = [positive = term_manager.positive_term(t)](std::pair<terms::term_t, Literal> p) { return p.first == positive; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -167,8 +177,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         }
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
-            bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = eval(b_model, term_to_literal(t).value()).value();
             break;
         }
         }
@@ -270,6 +279,15 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type:
+        // the clause has to mention the current value of both terms
+        for (terms::term_t term : {t, u}) {
+            if (std::optional<Literal> lit = term_to_literal(term)) {
+                bool value = eval(trail.model<bool>(Variable::boolean), lit.value()).value();
+                result_clause.push_back(value ? ~lit.value() : lit.value());
+            }
+        }
+        break;
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..d86b704 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Find the literal which represents a boolean term @p t
+     *
+     * @param t boolean term
+     * @return literal equivalent to @p t or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From 12a592d48b10a81aacbc401bd65c15818b605e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 05/12] fix: keep definitions of internalized terms and reset
 the trail in repeated check-sat

---
 src/Solver.cpp                | 6 ++++++
 src/Solver.h                  | 5 +++++
 src/parser/Solver_wrapper.cpp | 5 ++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..248ef9e 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -185,6 +185,12 @@ void Solver::restart()
     dispatcher.on_restart(db(), trail());
 }
 
+void Solver::reset()
+{
+    dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/0);
+    trail().clear();
+}
+
 Solver::Result Solver::check()
 {
     init();
diff --git a/src/Solver.h b/src/Solver.h
index 75f670a..9bc3255 100644
--- a/src/Solver.h
+++ b/src/Solver.h
@@ -132,6 +132,11 @@ public:
         return *policy_ptr;
     }
 
+    /** Forget all assignments made by previous calls of `check()`. Asserted and learned clauses are
+     * kept.
+     */
+    void reset();
+
     /** Check satisfiability of asserted clauses in database `db()`
      *
      * @return `sat` if asserted clauses are satisfiable, `unsat` otherwise
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 68341d1..734a30b 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -27,8 +27,11 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
+    // Forget the assignment of the previous check. Clauses are kept: definitions of terms that were
+    // internalized before are not generated again and assertions are never retracted.
+    solver.solver().reset();
+
     // Cnfize and assert clauses to the solver
-    solver.init();
 
     internalizer.visit(assertions);
 
-- 
2.43.0


From 8338257d9dff497a0277b63dba99105b1771c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 06/12] fix: quote names that are not simple symbols in the
 printed model

---
 src/parser/Smt2_parser.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..cfd689e 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -30,6 +30,17 @@ class Print_model final : public Default_model_visitor {
             output << std::get<Rational>(var);
     }
 
+    // print a name as an SMT-LIB symbol, quoted if it is not a simple symbol
+    void print_name(std::string_view name) {
+        bool is_simple = !name.empty() && !(name[0] >= '0' && name[0] <= '9') &&
+            name.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                                   "0123456789~!@$%^&*_-+=<>.?/") == std::string_view::npos;
+        if (is_simple)
+            output << name;
+        else
+            output << "|" << name << "|";
+    }
+
     void print_type(type_t type) {
         switch (type) {
         default:
@@ -73,7 +84,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun ";
+            print_name(*name);
+            output << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +105,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun ";
+            print_name(*name);
+            output << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From 84bb1bb7c1934d3d7bd49fca879e43cdaab28a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 07/12] fix: keep scores in the VSIDS priority queue in sync
 after rescaling and initialization

---
 src/variable_order/Generalized_vsids.cpp | 9 ++++++---
 src/variable_order/Generalized_vsids.h   | 7 ++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1485d1a..cf0725f 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,14 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    for (std::size_t type = 0; type < vsids.size(); ++type)
     {
-        for (auto& score : scores)
+        for (int i = 0; i < static_cast<int>(vsids[type].size()); ++i)
         {
-            score = 0.0f;
+            Variable var{i, static_cast<Variable::Type>(type)};
+            score(var) = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..d2eb3d8 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -165,11 +165,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From 5316daadab2f0211b25c2cf85910d5a09635a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 08/12] fix: reset also forgets level-0 assignments in
 listeners before clearing the trail

---
 src/Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 248ef9e..66434a3 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -187,7 +187,7 @@ void Solver::restart()
 
 void Solver::reset()
 {
-    dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/0);
+    dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/-1);
     trail().clear();
 }
 
-- 
2.43.0


From 80ff89171487f8aa10a36c08319ca25a8ce4c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 09/12] fix: signed reduction of negative numerators in
 Long_fraction(word, uword)

---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 19b7232..0db459d 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -644,7 +644,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = lword(n) / common; // signed division: n may be negative
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From b8520ba1056b583126107d578d6ad67e7f3cfa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 10/12] fix: propagate derived equalities in UF at the level of
 the variables that remain in them

---
 src/uf/Uninterpreted_functions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 6ecc180..9777891 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -323,7 +323,13 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // variables which occur in both `t` and `u` can cancel out
+            int propagation_level = 0;
+            for (int var_ord : p.vars)
+            {
+                Variable var{var_ord, Variable::rational};
+                propagation_level = std::max<int>(propagation_level, trail.decision_level(var).value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From d4f242e04de955b19a7bd46fd55f349442557bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 11/12] fix: a product whose coefficients cancel to one is its
 variable

---
 src/terms/Term_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..fb925c0 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -648,7 +648,12 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
         auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        auto const product = coeff * val;
+        if (product == 1) // (1/c) * (c * x) -> x
+        {
+            return var;
+        }
+        return term_table->arithmetic_product(product, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 7efca30b9674c0d4c09b9e696e2b9121e7616835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 12/12] fix: quote reserved words in printed models

---
 src/parser/Smt2_parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index cfd689e..e691f4e 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 #include <fstream>
+#include <set>
+#include <string_view>
 #include <vector>
 
 #include "Smt2_term_parser.h"
@@ -32,7 +34,18 @@ class Print_model final : public Default_model_visitor {
 
     // print a name as an SMT-LIB symbol, quoted if it is not a simple symbol
     void print_name(std::string_view name) {
+        // words which are only symbols if they are quoted
+        static std::set<std::string_view> const reserved{
+            "!", "_", "as", "BINARY", "DECIMAL", "exists", "HEXADECIMAL", "forall", "let", "match",
+            "NUMERAL", "par", "STRING", "assert", "check-sat", "check-sat-assuming",
+            "declare-const", "declare-datatype", "declare-datatypes", "declare-fun",
+            "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort",
+            "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model",
+            "get-option", "get-proof", "get-unsat-assumptions", "get-unsat-core", "get-value",
+            "pop", "push", "reset", "reset-assertions", "set-info", "set-logic", "set-option"};
+
         bool is_simple = !name.empty() && !(name[0] >= '0' && name[0] <= '9') &&
+            !reserved.contains(name) &&
             name.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
                                    "0123456789~!@$%^&*_-+=<>.?/") == std::string_view::npos;
         if (is_simple)
-- 
2.43.0

