From d2bd06fdc4c858a8b124879cae45c356e3c81fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 01/15] fix: set every slot when a combination iterator
 re-enters the valid range

Jumping from an index outside the bounds compared digits against an index
that the stored combination does not correspond to, leaving slots unset.
---
 include/symbolic/utils/combination_generator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..392f321 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,14 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // If the current index is outside the bounds, the combination does not
+    // correspond to it and needs to be set from scratch
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From 38d6eb09630eb4c867ba1477d9d8d1bec40610f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 02/15] fix: make reverse combination iterator subtraction
 compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 392f321..943af52 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -445,7 +445,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From a1203836f3eee80bb3c167f1388a33e48b60dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 03/15] fix: keep the pddl pointer of parameter generators

---
 src/utils/parameter_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..653cccf 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,18 +57,18 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
-- 
2.43.0


From d07a3b4bd78968a6f24f4a84ede4b79a5bdc5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 04/15] fix: set the pddl pointer of predicates

Predicate::pddl() and StateIndex::pddl() dereferenced a null pointer.
---
 src/predicate.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
-- 
2.43.0


From 44b039560a664046297514cbbb07f377a35632f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 05/15] fix: do not lose the last plan of depth-first and A*
 search

An iterator compared equal to end() as soon as no open node was left, even
while standing on a goal path.
---
 include/symbolic/planning/a_star.h             | 7 +++++--
 include/symbolic/planning/depth_first_search.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..97a93cb 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,14 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +96,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +106,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..7297b88 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,14 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +81,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +92,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 552e30658b830995544741c46f6385853d307d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 06/15] fix: disjoining a true formula is true, disjoining
 nothing is false

---
 src/normal_form.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..4d0600a 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -191,10 +191,14 @@ std::optional<DisjunctiveFormula> Disjoin(
     bool apply_axioms) {
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // Disjunct is true: short-circuit disjunction and return empty formula
+    if (dnf.empty()) return DisjunctiveFormula();
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
   }
+  // If there are no disjuncts, the disjunction is false
+  if (disj.empty()) return {};
   return Simplify(pddl, std::move(disj), apply_axioms);
 }
 
-- 
2.43.0


From 924d6657335cab1d213571281677d6a0be001fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 07/15] fix: the negation of a true formula is false

---
 src/normal_form.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 4d0600a..c8522d4 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -265,6 +265,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // Empty formula is true, so its negation is false
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
-- 
2.43.0


From f812bd330a18eb5ab1964d233db4fa262771d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 08/15] fix: keep the results of conditional effects whose
 condition always holds

---
 src/normal_form.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index c8522d4..c78d375 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -451,7 +451,8 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    condition = Negate(pddl, std::move(*condition));
+    if (!condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -463,9 +464,6 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
       dnfs.push_back(std::move(*condition));
-- 
2.43.0


From b3dc8dd65b76361c11bb33c5a98e710b3ddcc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 09/15] fix: skip actions without arguments when stepping
 planner children backwards

---
 src/planning/planner.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..eb1641f 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -187,11 +187,13 @@ Planner::Node::iterator& Planner::Node::iterator::operator--() {
     --it_action_;
     const Action& action = *it_action_;
     it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
+    const bool has_params =
+        it_param_ != it_action_->parameter_generator().begin();
+    if (has_params) --it_param_;
 
     // Check action preconditions
     const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
+    if (has_params && action.IsValid(parent_.state(), arguments)) {
       // Set action and apply postconditions to child
       State state = action.Apply(parent_.state(), arguments);
       DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
@@ -213,6 +215,7 @@ Planner::Node::iterator& Planner::Node::iterator::operator--() {
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
+      if (it_param_ == it_action_->parameter_generator().begin()) continue;
       --it_param_;
     } else {
       // Move onto next parameters
-- 
2.43.0


From 08ea7a3068cea5bd66784ad5fe5e307b35e3c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 10/15] fix: keep the arguments of an axiom that triggers
 itself

---
 src/action.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 68d42b5..9ea3b7d 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -157,7 +157,10 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      // Copy the arguments since the axiom may trigger itself and overwrite
+      // the shared buffer they are stored in.
+      const std::vector<Object> args = *axiom_args;
+      axiom.Action::Apply(args, state);
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -246,7 +249,10 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      // Copy the arguments since the axiom may trigger itself and overwrite
+      // the shared buffer they are stored in.
+      const std::vector<Object> args = *axiom_args;
+      axiom.Action::Apply(args, state);
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From fbc0c07185f482a3f6c71ac005e62c204cd5871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 11/15] fix: match axioms with the quantified variable that
 shadows a parameter

---
 src/axiom.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..40cdbfa 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -254,13 +254,13 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
     }
     const bool is_axiom_prop_arg = i == axiom_params.size();
 
-    // Check if action prop param has corresponding action param.
+    // Check if action prop param has corresponding action param. Search from
+    // the back, since quantified variables may shadow action params.
     const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
-    const bool is_action_prop_arg = j == action_params.size();
+    size_t j = action_params.size();
+    while (j > 0 && action_params[j - 1] != action_prop_param) j--;
+    const bool is_action_prop_arg = j == 0;
+    if (!is_action_prop_arg) j--;
 
     if (is_axiom_prop_arg && is_action_prop_arg) {
       // Make sure axiom prop arg and action prop arg are equal.
-- 
2.43.0


From f7173d577d02107962fd652cbbc3366a65eed47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 12/15] fix: do not trigger axioms whose repeated parameters do
 not match

---
 src/axiom.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 40cdbfa..4e91160 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -245,6 +245,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   std::vector<std::pair<size_t, size_t>> idx_params;
   auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
   std::vector<std::pair<size_t, Object>> future_action_args;
+  std::vector<std::pair<size_t, Object>> fixed_axiom_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
@@ -270,7 +271,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       future_action_args.emplace_back(j, axiom_prop_param);
     } else if (is_action_prop_arg) {
       // Instantiate axiom prop param with action prop arg.
-      (*axiom_args)[i] = action_prop_param;
+      fixed_axiom_args.emplace_back(i, action_prop_param);
     } else {
       // Match axiom prop param and action prop param.
       idx_params.emplace_back(i, j);
@@ -280,7 +281,8 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
   return [ptr_axiom_args = std::move(axiom_args),
           idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
+          future_action_args = std::move(future_action_args),
+          fixed_axiom_args = std::move(fixed_axiom_args)](
              const std::vector<Object>& action_args)
              -> const std::vector<Object>* {
     // Check that action args match up with axiom context proposition.
@@ -292,11 +294,24 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
 
     // Assign axiom args to action args.
     std::vector<Object>& axiom_args = *ptr_axiom_args;
+    for (const std::pair<size_t, Object>& idx_argument : fixed_axiom_args) {
+      axiom_args[idx_argument.first] = idx_argument.second;
+    }
     for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
       const size_t idx_axiom = idx_axiom_action.first;
       const size_t idx_action = idx_axiom_action.second;
       axiom_args[idx_axiom] = action_args[idx_action];
     }
+
+    // Check that axiom params occurring more than once got equal args.
+    for (const std::pair<size_t, Object>& idx_argument : fixed_axiom_args) {
+      if (axiom_args[idx_argument.first] != idx_argument.second) return nullptr;
+    }
+    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
+      const size_t idx_axiom = idx_axiom_action.first;
+      const size_t idx_action = idx_axiom_action.second;
+      if (axiom_args[idx_axiom] != action_args[idx_action]) return nullptr;
+    }
     return &axiom_args;
   };
 }
-- 
2.43.0


From 0d41e1ff6190f1f60b0b40b00cf10d29ef4cddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 13/15] fix: do not trigger axioms with arguments of the wrong
 type

---
 src/axiom.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 4e91160..18885bf 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -279,7 +279,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   }
 
   // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
+  return [axiom_params, ptr_axiom_args = std::move(axiom_args),
           idx_params = std::move(idx_params),
           future_action_args = std::move(future_action_args),
           fixed_axiom_args = std::move(fixed_axiom_args)](
@@ -312,6 +312,13 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       const size_t idx_action = idx_axiom_action.second;
       if (axiom_args[idx_axiom] != action_args[idx_action]) return nullptr;
     }
+
+    // Check that axiom args are of the axiom param types.
+    for (size_t i = 0; i < axiom_params.size(); i++) {
+      if (!axiom_args[i].type().IsSubtype(axiom_params[i].type())) {
+        return nullptr;
+      }
+    }
     return &axiom_args;
   };
 }
-- 
2.43.0


From 2f284b05505cf2327e45c775c544e558e9a619f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 14/15] fix: contradictory effects of a condition that always
 holds are false

---
 src/normal_form.cc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index c78d375..da959f6 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -454,12 +454,7 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     condition = Negate(pddl, std::move(*condition));
     if (!condition.has_value()) {
       // Condition always true
-      if (!result.has_value()) {
-        // Result always false
-        throw std::runtime_error(
-            "symbolic::DisjunctiveFormula::Create(): Invalid condition "
-            "(context always true and result always false).");
-      }
+      if (!result.has_value()) return {};  // Result always false
       dnfs.push_back(std::move(*result));
       continue;
     }
@@ -472,10 +467,7 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
     condition = Disjoin(pddl, {std::move(*condition), std::move(*result)},
                         apply_axioms);
-    if (!condition.has_value()) {
-      throw std::runtime_error(
-          "DisjunctiveFormula::Create(): Invalid condition.");
-    }
+    if (!condition.has_value()) return {};
     dnfs.push_back(std::move(*condition));
   }
 
-- 
2.43.0


From 3bc1794ab3461cc58ba1df56982befca01d12561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 15/15] fix: keep the object map in step with added and removed
 objects

---
 src/pddl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..a8b3e44 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -522,6 +522,7 @@ void Pddl::AddObject(const std::string& name, const std::string& type) {
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
+  object_map_ = CreateObjectTypeMap(objects_);
 }
 
 void Pddl::RemoveObject(const std::string& name) {
@@ -529,6 +530,7 @@ void Pddl::RemoveObject(const std::string& name) {
     if (it->name() != name) continue;
     const VAL::pddl_typed_symbol* symbol = it->symbol();
     objects_.erase(it);
+    object_map_ = CreateObjectTypeMap(objects_);
 
     VAL::const_symbol_list* objects = analysis_->the_problem->objects;
     for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-- 
2.43.0

