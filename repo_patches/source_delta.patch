From 5d64d1e638385558c95e6a57cb7fb747bdca8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 01/46] fix: join the started workers when constructing a
 ThreadPool fails

---
 .../ThreadPool/ThreadPool.h                   | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index d9b7cfa..bc0a515 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -28,6 +28,8 @@ class ThreadPool {
   }
 
  private:
+  void stop_and_join();
+
   // need to keep track of threads so we can join them
   std::vector<std::thread> workers;
   // the task queue
@@ -48,6 +50,15 @@ inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
   // To make sure that the thread that created this pool gets the ID 0.
   get_thread_id();
 
+  // If a worker cannot be started, stops and joins the ones which are already
+  // running. Otherwise the destructor of `workers` terminates the program.
+  struct Rollback {
+    ThreadPool* pool;
+    ~Rollback() {
+      if (pool) pool->stop_and_join();
+    }
+  } rollback{this};
+
   for (size_t i = 0; i < threads; ++i)
     workers.emplace_back([this] {
       for (;;) {
@@ -65,6 +76,7 @@ inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
         task();
       }
     });
+  rollback.pool = nullptr;
 }
 
 // add new work item to the pool
@@ -89,14 +101,19 @@ auto ThreadPool::enqueue(F&& f, Args&&... args)
   return res;
 }
 
-// the destructor joins all threads
-inline ThreadPool::~ThreadPool() {
+// finishes the queued tasks and joins all threads
+inline void ThreadPool::stop_and_join() {
   {
     std::unique_lock<std::mutex> lock(queue_mutex);
     stop = true;
   }
   condition.notify_all();
   for (std::thread& worker : workers) worker.join();
+}
+
+// the destructor joins all threads
+inline ThreadPool::~ThreadPool() {
+  stop_and_join();
 
   // Reset to 1 instead of 0 since 0 is preserved for the main thread.
   // Added by Soonho Kong
-- 
2.43.0


From 08d28c2b92c969ed977b06ff78ce68d3911414a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 02/46] fix: give ThreadPool workers IDs which are unique and
 bounded within their pool

---
 .../ThreadPool/ThreadPool.h                   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index bc0a515..bee202d 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -20,12 +20,10 @@ class ThreadPool {
       -> std::future<typename std::result_of<F(Args...)>::type>;
   ~ThreadPool();
 
-  // Returns the thread ID.
+  // Returns the thread ID. The workers of a pool have the IDs 1, ..., n. A
+  // thread which is not a worker of a pool has the ID 0.
   // Added by Soonho Kong
-  static int get_thread_id() {
-    thread_local const int tid{global_thread_id_index_++};
-    return tid;
-  }
+  static int get_thread_id() { return thread_id(); }
 
  private:
   void stop_and_join();
@@ -41,15 +39,19 @@ class ThreadPool {
 
   bool stop;
 
-  // Added by Soonho Kong
+  // Unused. Kept so that objects compiled with an earlier version of this header
+  // can still be linked.
   static std::atomic<int> global_thread_id_index_;
+
+  // Added by Soonho Kong
+  static int& thread_id() {
+    thread_local int tid{0};
+    return tid;
+  }
 };
 
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
-  // To make sure that the thread that created this pool gets the ID 0.
-  get_thread_id();
-
   // If a worker cannot be started, stops and joins the ones which are already
   // running. Otherwise the destructor of `workers` terminates the program.
   struct Rollback {
@@ -60,7 +62,8 @@ inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
   } rollback{this};
 
   for (size_t i = 0; i < threads; ++i)
-    workers.emplace_back([this] {
+    workers.emplace_back([this, i] {
+      thread_id() = static_cast<int>(i) + 1;
       for (;;) {
         std::function<void()> task;
 
@@ -114,10 +117,6 @@ inline void ThreadPool::stop_and_join() {
 // the destructor joins all threads
 inline ThreadPool::~ThreadPool() {
   stop_and_join();
-
-  // Reset to 1 instead of 0 since 0 is preserved for the main thread.
-  // Added by Soonho Kong
-  global_thread_id_index_ = 1;
 }
 
 #endif
-- 
2.43.0


From d824e3341976b114952122327e23b0db5c54a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 03/46] fix: keep scoped containers consistent when an
 insertion runs out of memory

---
 dreal/util/scoped_unordered_map.h | 10 ++++++++--
 dreal/util/scoped_unordered_set.h | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dreal/util/scoped_unordered_map.h b/dreal/util/scoped_unordered_map.h
index defef9f..66aa1cf 100644
--- a/dreal/util/scoped_unordered_map.h
+++ b/dreal/util/scoped_unordered_map.h
@@ -79,8 +79,14 @@ class ScopedUnorderedMap {
     auto it = map_.find(k);
     if (it == map_.end()) {
       // Case 1) k does not exist.
-      actions_.emplace_back(ActionKind::INSERT, k, v);
-      map_.emplace(k, v);
+      it = map_.emplace(k, v).first;
+      try {
+        actions_.emplace_back(ActionKind::INSERT, k, v);
+      } catch (...) {
+        // Without a recorded action, pop() could not remove k.
+        map_.erase(it);
+        throw;
+      }
     } else {
       // Case 2) k exists. Save the old value so that we can roll
       // back later.
diff --git a/dreal/util/scoped_unordered_set.h b/dreal/util/scoped_unordered_set.h
index 301ea3d..c417b65 100644
--- a/dreal/util/scoped_unordered_set.h
+++ b/dreal/util/scoped_unordered_set.h
@@ -79,8 +79,14 @@ class ScopedUnorderedSet {
     auto it = set_.find(k);
     if (it == set_.end()) {
       // Case 1) k does not exist.
-      actions_.emplace_back(ActionKind::INSERT, k);
-      set_.emplace(k);
+      it = set_.emplace(k).first;
+      try {
+        actions_.emplace_back(ActionKind::INSERT, k);
+      } catch (...) {
+        // Without a recorded action, pop() could not remove k.
+        set_.erase(it);
+        throw;
+      }
     }
   }
 
-- 
2.43.0


From 9c5ea8a4dc25ca9c7ba9aa6c674ea343ba235ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 04/46] fix: do not consume the left-hand side of e += e and e
 *= e while it is still being read

---
 .../dreal/symbolic/symbolic_expression.cc                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..1689a16 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not steal the terms of lhs if it is also the right-hand side (e += e).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,8 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not steal the factors of lhs if it is also the right-hand side (e *= e).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From 3f649af4a9378a1687555548ef08528fb1aec9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 05/46] fix: measure profiled sections with a steady clock

---
 dreal/util/profiler.cc | 4 ++--
 dreal/util/profiler.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dreal/util/profiler.cc b/dreal/util/profiler.cc
index 8d0ecf5..866ac8e 100644
--- a/dreal/util/profiler.cc
+++ b/dreal/util/profiler.cc
@@ -25,11 +25,11 @@ namespace dreal {
 Profiler::Profiler(string name, ostream& out)
     : name_{std::move(name)},
       out_(out),
-      begin_(std::chrono::high_resolution_clock::now()) {}
+      begin_(std::chrono::steady_clock::now()) {}
 
 Profiler::~Profiler() {
   using duration = std::chrono::duration<double>;
-  const auto diff = std::chrono::high_resolution_clock::now() - begin_;
+  const auto diff = std::chrono::steady_clock::now() - begin_;
   out_ << name_ << ": " << std::chrono::duration_cast<duration>(diff).count()
        << endl;
 }
diff --git a/dreal/util/profiler.h b/dreal/util/profiler.h
index 0437a86..a1b1929 100644
--- a/dreal/util/profiler.h
+++ b/dreal/util/profiler.h
@@ -31,6 +31,6 @@ class Profiler {
  private:
   const std::string name_;
   std::ostream& out_;
-  const std::chrono::high_resolution_clock::time_point begin_;
+  const std::chrono::steady_clock::time_point begin_;
 };
 }  // namespace dreal
-- 
2.43.0


From 85e6dd3a13c0b41485fdc53d60dcb56e1ba2c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 06/46] fix: number auxiliary variables with atomic counters

---
 dreal/solver/context_impl.cc          | 3 ++-
 dreal/util/if_then_else_eliminator.cc | 2 +-
 dreal/util/tseitin_cnfizer.cc         | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..8313e3c 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -16,6 +16,7 @@
 #include "dreal/solver/context_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 #include <limits>
 #include <ostream>
@@ -315,7 +316,7 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
 
   Formula quantified{make_disjunction(set_of_negated_phi)};  // ∨ᵢ ¬ϕᵢ(y)
   Formula new_z_block;  // This will have (z₁ = f₁(x) ∧ ... ∧ zₙ = fₙ(x)).
-  static int counter{0};
+  static std::atomic<int> counter{0};
   for (const Expression& f_i : functions) {
     const Variable z_i{fmt::format("Z{}", counter++),
                        Variable::Type::CONTINUOUS};
diff --git a/dreal/util/if_then_else_eliminator.cc b/dreal/util/if_then_else_eliminator.cc
index ccf7f9d..f4deaca 100644
--- a/dreal/util/if_then_else_eliminator.cc
+++ b/dreal/util/if_then_else_eliminator.cc
@@ -225,7 +225,7 @@ Expression IfThenElseEliminator::VisitMax(const Expression& e,
 
 Expression IfThenElseEliminator::VisitIfThenElse(const Expression& e,
                                                  const Formula& guard) {
-  static int counter{0};
+  static std::atomic<int> counter{0};
   const Variable new_var{"ITE" + to_string(counter++),
                          Variable::Type::CONTINUOUS};
   ite_variables_.insert(new_var);
diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..bf2486a 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -146,7 +146,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   if (new_clauses.size() == 1) {
     return *(new_clauses.begin());
   } else {
-    static size_t id{0};
+    static std::atomic<size_t> id{0};
     const Variable bvar{string("forall") + to_string(id++),
                         Variable::Type::BOOLEAN};
     map_.emplace(bvar, make_conjunction(new_clauses));
@@ -157,7 +157,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
 Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
   // Introduce a new Boolean variable, `bvar` for `f` and record the
   // relation `bvar ⇔ f`.
-  static size_t id{0};
+  static std::atomic<size_t> id{0};
   const set<Formula> transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
@@ -168,7 +168,7 @@ Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
 }
 
 Formula TseitinCnfizer::VisitDisjunction(const Formula& f) {
-  static size_t id{0};
+  static std::atomic<size_t> id{0};
   const set<Formula>& transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
-- 
2.43.0


From 2839412866b735ffd460346cf6b3fa0eefd74f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 07/46] fix: do not read the exponent of a nested power as a
 constant when it is not one

---
 .../dreal/symbolic/symbolic_expression.cc                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 1689a16..3f2ff21 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -726,10 +726,10 @@ Expression pow(const Expression& e1, const Expression& e2) {
       return e1;
     }
   }
-  if (is_pow(e1) && is_constant(e2)) {
+  if (is_pow(e1) && is_constant(e2) && is_constant(get_second_argument(e1))) {
     // pow(base, exponent) ^ e2 => pow(base, exponent * e2)
     //
-    // only if both of exponent and e2 are integers.
+    // only if both of exponent and e2 are integer constants.
     const Expression& exponent{get_second_argument(e1)};
     const double v1{get_constant_value(exponent)};
     const double v2{get_constant_value(e2)};
-- 
2.43.0


From fe54d3224b11190ce8eaf7da4d27a8e74e502a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 08/46] fix: accept negated atoms in clauses

---
 dreal/symbolic/symbolic.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..1d65142 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -103,9 +103,11 @@ bool is_clause(const Formula& f) {
   }
   if (is_disjunction(f)) {
     const auto& operands = get_operands(f);
-    const bool result{
-        all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+    const bool result{all_of(
+        operands.cbegin(), operands.cend(), [](const Formula& formula) {
+          return is_atomic(formula) ||
+                 (is_negation(formula) && is_atomic(get_operand(formula)));
+        })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,7 +131,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From 063268ddeb1d42eb79f0f3584834a86397df58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 09/46] fix: give every collapsed or unquantified operand a
 proper clause form in the Tseitin conversion

---
 dreal/util/tseitin_cnfizer.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index bf2486a..e99ad15 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -74,6 +74,7 @@ void CnfizeConjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
 void CnfizeDisjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
+void AddIff(const Formula& f1, const Formula& f2, vector<Formula>* clauses);
 }  // namespace
 
 // The main function of the TseitinCnfizer:
@@ -133,12 +134,14 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this,
+                             &quantified_variables](const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // A disjunction needs a name to be used as an operand below.
+          return is_disjunction(clause) ? this->Visit(clause) : clause;
         }
       })};
 
@@ -196,25 +199,17 @@ namespace {
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses) {
   switch (f.get_kind()) {
     case FormulaKind::False:
-      DREAL_UNREACHABLE();
     case FormulaKind::True:
-      DREAL_UNREACHABLE();
     case FormulaKind::Var:
-      DREAL_UNREACHABLE();
     case FormulaKind::Eq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Neq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Gt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Geq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Lt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Leq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Forall:
-      DREAL_UNREACHABLE();
+      // Transformed operands can collapse into a literal or a constant.
+      return AddIff(Formula{b}, f, clauses);
     case FormulaKind::And:
       return CnfizeConjunction(b, f, clauses);
     case FormulaKind::Or:
-- 
2.43.0


From b0188dcbe8e5fe7a44ea673d0c2b89d7c82b961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 10/46] fix: erase a set of variables from itself without
 iterating over what is erased

---
 .../dreal/symbolic/symbolic_variables.cc                     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..b6aeef9 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -39,6 +39,11 @@ string Variables::to_string() const {
 }
 
 Variables::size_type Variables::erase(const Variables& vars) {
+  if (this == &vars) {
+    const size_type num_of_elements{size()};
+    vars_.clear();
+    return num_of_elements;
+  }
   size_type num_of_erased_elements{0};
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
-- 
2.43.0


From d600ed990b267fdc690f2351227043d1a4ab62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 11/46] fix: keep the condition of an if-then-else when
 perturbing a formula by delta

---
 dreal/symbolic/symbolic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index 1d65142..99cf958 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -267,7 +267,9 @@ class DeltaStrengthenVisitor {
                Visit(get_second_argument(e), delta));
   }
   Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
+    // The condition only selects a branch. Perturbing it would change the value
+    // of the term, and neither strengthen nor weaken the atom it occurs in.
+    return if_then_else(get_conditional_formula(e),
                         Visit(get_then_expression(e), delta),
                         Visit(get_else_expression(e), delta));
   }
-- 
2.43.0


From d9d0b850c7112e439bb0c081d1937c0d017d7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 12/46] fix: rebuild cached contractors when the variables of
 the box change

Contractors hold positions in a box (and functions over all its variables),
but were cached by their formula only. After a pop, or a declaration
between two checks, a contractor of the old box was applied to the new one.
---
 dreal/solver/theory_solver.cc | 11 +++++++++++
 dreal/solver/theory_solver.h  |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..2a33eb8 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,7 +15,9 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -146,6 +148,15 @@ optional<Contractor> TheorySolver::BuildContractor(
   }
   DREAL_LOG_TRACE("TheorySolver::BuildContractor: Filtering Assertions\n{}",
                   box);
+  const vector<Variable>& variables{box.variables()};
+  if (!std::equal(variables.begin(), variables.end(),
+                  contractor_cache_variables_.begin(),
+                  contractor_cache_variables_.end(),
+                  std::equal_to<Variable>{})) {
+    // Variables were added or removed since the contractors were cached.
+    contractor_cache_.clear();
+    contractor_cache_variables_ = variables;
+  }
   vector<Contractor> ctcs;
   Box old_box;
   for (const Formula& f : assertions) {
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..4df3862 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -62,7 +62,10 @@ class TheorySolver {
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
+  // Contractors refer to variables by their positions in a box, so that the
+  // cached ones are only valid for a box with the variables below.
   std::unordered_map<Formula, Contractor> contractor_cache_;
+  std::vector<Variable> contractor_cache_variables_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
 
-- 
2.43.0


From 80b929f2723ade7bcc0552762ab9c277b0818669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 13/46] fix: forget model variables declared in a popped scope

A variable declared after a push stayed marked as a model variable after
the matching pop, so that auxiliary variables could be reported in models.
---
 dreal/solver/context_impl.cc | 2 ++
 dreal/solver/context_impl.h  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 8313e3c..dcf22f6 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -332,6 +332,7 @@ void Context::Impl::Pop() {
   DREAL_LOG_DEBUG("ContextImpl::Pop()");
   stack_.pop();
   boxes_.pop();
+  model_variables_.pop();
   sat_solver_.Pop();
 }
 
@@ -340,6 +341,7 @@ void Context::Impl::Push() {
   sat_solver_.Push();
   boxes_.push();
   boxes_.push_back(boxes_.last());
+  model_variables_.push();
   stack_.push();
 }
 
diff --git a/dreal/solver/context_impl.h b/dreal/solver/context_impl.h
index 03f8134..c344384 100644
--- a/dreal/solver/context_impl.h
+++ b/dreal/solver/context_impl.h
@@ -17,13 +17,13 @@
 
 #include <string>
 #include <unordered_map>
-#include <unordered_set>
 #include <vector>
 
 #include "dreal/solver/context.h"
 #include "dreal/solver/sat_solver.h"
 #include "dreal/solver/theory_solver.h"
 #include "dreal/util/optional.h"
+#include "dreal/util/scoped_unordered_set.h"
 #include "dreal/util/scoped_vector.h"
 
 namespace dreal {
@@ -93,7 +93,7 @@ class Context::Impl {
   // Stack of asserted formulas.
   ScopedVector<Formula> stack_;
   SatSolver sat_solver_;
-  std::unordered_set<Variable::Id> model_variables_;
+  ScopedUnorderedSet<Variable::Id> model_variables_;
   TheorySolver theory_solver_;
 
   // Stores the result of the latest checksat.
-- 
2.43.0


From dc2a884f9368b0eacd87d7fec0642341c0cba45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 14/46] fix: give integer variables integer values when only
 their bounds are constrained

Bounds are turned into domains without the theory solver, which is the one
that rounds them. A domain with fractional bounds led to a value outside of
it, and one without an integer was reported as delta-sat.
---
 dreal/solver/context_impl.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index dcf22f6..a9a473f 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -50,6 +50,25 @@ namespace {
 // is larger than delta when the given constraints are not tight.
 // This function tighten the box @p box so that every dimension has a
 // width smaller than delta.
+// Shrinks the domains of integer variables to the integers they contain. It
+// returns false if one of them contains none.
+bool RoundIntegerVariables(Box* const box) {
+  for (int i = 0; i < box->size(); ++i) {
+    const Variable::Type type{box->variable(i).get_type()};
+    if (type != Variable::Type::INTEGER && type != Variable::Type::BINARY) {
+      continue;
+    }
+    auto& interval = (*box)[i];
+    const double lb{std::ceil(interval.lb())};
+    const double ub{std::floor(interval.ub())};
+    if (!(lb <= ub)) {
+      return false;
+    }
+    interval = Box::Interval(lb, ub);
+  }
+  return true;
+}
+
 void Tighten(Box* box, const double delta) {
   for (int i = 0; i < box->size(); ++i) {
     auto& interval = (*box)[i];
@@ -130,7 +149,7 @@ optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
                                           SatSolver* const sat_solver) {
   DREAL_LOG_DEBUG("ContextImpl::CheckSatCore()");
   DREAL_LOG_TRACE("ContextImpl::CheckSat: Box =\n{}", box);
-  if (box.empty()) {
+  if (box.empty() || !RoundIntegerVariables(&box)) {
     return {};
   }
   // If false ∈ stack, it's UNSAT.
-- 
2.43.0


From 73f2484e79b85c76223983effd1b7fb3e5c1f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 15/46] fix: check termination and interrupts in the worklist
 fixpoint contractor

The termination condition was only looked at once the worklist was empty,
so that slowly converging constraints kept the contractor busy far beyond
the intended threshold, and an interrupt was not noticed meanwhile.
---
 .../contractor_worklist_fixpoint.cc           | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dreal/contractor/contractor_worklist_fixpoint.cc b/dreal/contractor/contractor_worklist_fixpoint.cc
index bd627a2..222ef46 100644
--- a/dreal/contractor/contractor_worklist_fixpoint.cc
+++ b/dreal/contractor/contractor_worklist_fixpoint.cc
@@ -17,9 +17,11 @@
 
 #include <algorithm>  // To suppress cpplint
 #include <cmath>
+#include <stdexcept>
 #include <utility>
 
 #include "dreal/util/assert.h"
+#include "dreal/util/interrupt.h"
 #include "dreal/util/logging.h"
 
 using std::ostream;
@@ -134,9 +136,18 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
 
   // 2. Run worklist algorithm
   do {
-    DynamicBitset::size_type ctc_idx = worklist.find_first();
+    // Note that 'DREAL_CHECK_INTERRUPT' is only defined in setup.py,
+    // when we build dReal python package.
+#ifdef DREAL_CHECK_INTERRUPT
+    if (g_interrupted) {
+      DREAL_LOG_DEBUG("KeyboardInterrupt(SIGINT) Detected.");
+      throw std::runtime_error("KeyboardInterrupt(SIGINT) Detected.");
+    }
+#endif
     old_iv = iv;
-    while (true) {
+    // Go through the list once, before checking the termination condition.
+    DynamicBitset::size_type ctc_idx = worklist.find_first();
+    while (ctc_idx != DynamicBitset::npos) {
       worklist.set(ctc_idx, false);
       cs->mutable_output().reset();
       contractors_[ctc_idx].Prune(cs);
@@ -144,15 +155,9 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
         return;
       }
       UpdateWorklist(cs->output(), input_to_contractors_, &worklist);
-      if (worklist.none()) {
-        return;
-      }
       ctc_idx = worklist.find_next(ctc_idx);
-      if (ctc_idx == DynamicBitset::npos) {
-        ctc_idx = worklist.find_first();
-      }
     }
-  } while (!term_cond_(old_iv, iv));
+  } while (worklist.any() && !term_cond_(old_iv, iv));
 }
 
 ostream& ContractorWorklistFixpoint::display(ostream& os) const {
-- 
2.43.0


From 78e5c929231d6090fa7e06016b0d16b37cddabfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 16/46] fix: let all workers of a parallel search end before
 reporting an exception

If a worker threw, the others waited for its boxes for ever. If the main
thread threw (for instance because of an interrupt), the others went on
using its local variables.
---
 dreal/solver/icp_parallel.cc | 59 +++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/dreal/solver/icp_parallel.cc b/dreal/solver/icp_parallel.cc
index 5963fe2..7fc7e14 100644
--- a/dreal/solver/icp_parallel.cc
+++ b/dreal/solver/icp_parallel.cc
@@ -16,6 +16,7 @@
 #include "dreal/solver/icp_parallel.h"
 
 #include <atomic>
+#include <exception>
 #include <tuple>
 #include <utility>
 
@@ -62,11 +63,12 @@ bool ParallelBranch(const DynamicBitset& bitset,
   return false;
 }
 
-void Worker(const Contractor& contractor, const Config& config,
+void Search(const Contractor& contractor, const Config& config,
             const vector<FormulaEvaluator>& formula_evaluators, const int id,
             const bool main_thread, Stack<Box>* const global_stack,
             ContractorStatus* const cs, atomic<int>* const found_delta_sat,
-            atomic<int>* const number_of_boxes) {
+            atomic<int>* const number_of_boxes,
+            const atomic<bool>* const failed) {
   thread_local IcpStat stat{DREAL_LOG_INFO_ENABLED, id};
   TimerGuard prune_timer_guard(&stat.timer_prune_, stat.enabled(),
                                false /* start_timer */);
@@ -87,7 +89,7 @@ void Worker(const Contractor& contractor, const Config& config,
   // indicates that we can work with the box inside of the ContractorStatus.
   bool need_to_pop{true};
 
-  while ((*found_delta_sat == -1) &&
+  while ((*found_delta_sat == -1) && !*failed &&
          (number_of_boxes->load(std::memory_order_acquire) > 0)) {
     // Note that 'DREAL_CHECK_INTERRUPT' is only defined in setup.py,
     // when we build dReal python package.
@@ -165,6 +167,21 @@ void Worker(const Contractor& contractor, const Config& config,
     stat.num_branch_++;
   }
 }
+
+void Worker(const Contractor& contractor, const Config& config,
+            const vector<FormulaEvaluator>& formula_evaluators, const int id,
+            const bool main_thread, Stack<Box>* const global_stack,
+            ContractorStatus* const cs, atomic<int>* const found_delta_sat,
+            atomic<int>* const number_of_boxes, atomic<bool>* const failed) {
+  try {
+    Search(contractor, config, formula_evaluators, id, main_thread,
+           global_stack, cs, found_delta_sat, number_of_boxes, failed);
+  } catch (...) {
+    // This worker does not finish the boxes it took. Make the others stop.
+    *failed = true;
+    throw;
+  }
+}
 }  // namespace
 
 IcpParallel::IcpParallel(const Config& config)
@@ -188,6 +205,8 @@ bool IcpParallel::CheckSat(const Contractor& contractor,
   // -1 indicates that the process does not find a solution yet. i >= 0
   // indicates that the i-th worker already found a solution.
   atomic<int> found_delta_sat{-1};
+  // Set if a worker ends with an exception, which makes the others stop.
+  atomic<bool> failed{false};
   static CdsInit cds_init{
       true /* main thread is using lock-free containers. */};
   Stack<Box> global_stack;
@@ -206,19 +225,31 @@ bool IcpParallel::CheckSat(const Contractor& contractor,
     status_vector_.push_back(*cs);
   }
 
-  for (int i = 0; i < number_of_jobs - 1; ++i) {
-    results_.push_back(
-        pool_.enqueue(Worker, contractor, config(), formula_evaluators, i,
-                      false /* not main thread */, &global_stack,
-                      &status_vector_[i], &found_delta_sat, &number_of_boxes));
-  }
-
   const int last_index{number_of_jobs - 1};
-  Worker(contractor, config(), formula_evaluators, last_index,
-         true /* main thread */, &global_stack, &status_vector_[last_index],
-         &found_delta_sat, &number_of_boxes);
+  std::exception_ptr exception;
+  try {
+    for (int i = 0; i < number_of_jobs - 1; ++i) {
+      results_.push_back(pool_.enqueue(
+          Worker, contractor, config(), formula_evaluators, i,
+          false /* not main thread */, &global_stack, &status_vector_[i],
+          &found_delta_sat, &number_of_boxes, &failed));
+    }
+    Worker(contractor, config(), formula_evaluators, last_index,
+           true /* main thread */, &global_stack, &status_vector_[last_index],
+           &found_delta_sat, &number_of_boxes, &failed);
+  } catch (...) {
+    failed = true;
+    exception = std::current_exception();
+  }
 
-  // barrier.
+  // barrier. Workers use local variables of this function: wait for all of them
+  // before leaving it, whatever happened.
+  for (auto&& result : results_) {
+    result.wait();
+  }
+  if (exception) {
+    std::rethrow_exception(exception);
+  }
   for (auto&& result : results_) {
     result.get();
   }
-- 
2.43.0


From 08ee1f850a51bd566968384a1d0e28171deef236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 17/46] fix: attach every thread that calls the parallel search
 to libcds

Only the thread which called it first was attached.
---
 dreal/solver/icp_parallel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/icp_parallel.cc b/dreal/solver/icp_parallel.cc
index 7fc7e14..22a69c7 100644
--- a/dreal/solver/icp_parallel.cc
+++ b/dreal/solver/icp_parallel.cc
@@ -207,8 +207,10 @@ bool IcpParallel::CheckSat(const Contractor& contractor,
   atomic<int> found_delta_sat{-1};
   // Set if a worker ends with an exception, which makes the others stop.
   atomic<bool> failed{false};
-  static CdsInit cds_init{
-      true /* main thread is using lock-free containers. */};
+  static CdsInit cds_init{false /* threads are attached below. */};
+  // The calling thread is using lock-free containers. Note that it is not
+  // always the same one.
+  thread_local CdsScopeGuard cds_scope_guard(true);
   Stack<Box> global_stack;
 
   const int number_of_jobs = config().number_of_jobs();
-- 
2.43.0


From ac7f1384c0f36ef2bbb234a2ce0963379dd70c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 18/46] fix: count satisfiability checks atomically

---
 dreal/solver/sat_solver.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..046751c 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/solver/sat_solver.h"
 
+#include <atomic>
 #include <ostream>
 #include <utility>
 
@@ -97,8 +98,8 @@ namespace {
 class SatSolverStat : public Stat {
  public:
   explicit SatSolverStat(const bool enabled) : Stat{enabled} {};
-  SatSolverStat(const SatSolverStat&) = default;
-  SatSolverStat(SatSolverStat&&) = default;
+  SatSolverStat(const SatSolverStat&) = delete;
+  SatSolverStat(SatSolverStat&&) = delete;
   SatSolverStat& operator=(const SatSolverStat&) = delete;
   SatSolverStat& operator=(SatSolverStat&&) = delete;
   ~SatSolverStat() override {
@@ -112,8 +113,12 @@ class SatSolverStat : public Stat {
     }
   }
 
-  int num_check_sat_{0};
+  void increase_num_check_sat() { increase(&num_check_sat_); }
+
   Timer timer_check_sat_;
+
+ private:
+  std::atomic<int> num_check_sat_{0};
 };
 }  // namespace
 
@@ -122,7 +127,7 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
   DREAL_LOG_DEBUG("SatSolver::CheckSat(#vars = {}, #clauses = {})",
                   picosat_variables(sat_),
                   picosat_added_original_clauses(sat_));
-  stat.num_check_sat_++;
+  stat.increase_num_check_sat();
   // Call SAT solver.
   TimerGuard check_sat_timer_guard(&stat.timer_check_sat_,
                                    DREAL_LOG_INFO_ENABLED);
-- 
2.43.0


From 679c8c4addbd0aa74679e8f19c011f12870061fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 19/46] fix: keep the literal maps of SatSolver consistent when
 an insertion fails

---
 dreal/solver/sat_solver.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index 046751c..ed91e46 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -152,6 +152,11 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
         continue;
       }
       const Variable& var{it_var->second};
+      const auto it_sat = to_sat_var_.find(var.get_id());
+      if (it_sat == to_sat_var_.end() || it_sat->second != i) {
+        // This literal was given up while it was being set up (see MakeSatVar).
+        continue;
+      }
       const auto it = var_to_formula_map.find(var);
       if (it != var_to_formula_map.end()) {
         DREAL_LOG_TRACE("SatSolver::CheckSat: Add theory literal {}{} to Model",
@@ -240,8 +245,10 @@ void SatSolver::MakeSatVar(const Variable& var) {
   }
   // It's not in the maps, let's make one and add it.
   const int sat_var{picosat_inc_max_var(sat_)};
-  to_sat_var_.insert(var.get_id(), sat_var);
+  // `to_sat_var_` decides if a variable is known, so it is updated last: when
+  // an insertion throws, the next call starts over with a new literal.
   to_sym_var_.insert(sat_var, var);
+  to_sat_var_.insert(var.get_id(), sat_var);
   DREAL_LOG_DEBUG("SatSolver::MakeSatVar({} ↦ {})", var, sat_var);
 }
 }  // namespace dreal
-- 
2.43.0


From bcc85fe4c3b8e8256caa6c1ad2533cd5a38137a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 20/46] fix: do not leave a part of a learned clause in the SAT
 solver

---
 dreal/solver/sat_solver.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index ed91e46..1ca93b9 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -72,8 +72,15 @@ void SatSolver::AddFormulas(const vector<Formula>& formulas) {
 }
 
 void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
+  // Convert all of the literals before adding the first one, so that a failing
+  // conversion does not leave a part of a clause in the SAT solver.
+  vector<Formula> literals;
+  literals.reserve(formulas.size());
   for (const Formula& f : formulas) {
-    AddLiteral(!predicate_abstractor_.Convert(f));
+    literals.push_back(!predicate_abstractor_.Convert(f));
+  }
+  for (const Formula& l : literals) {
+    AddLiteral(l);
   }
   picosat_add(sat_, 0);
 }
-- 
2.43.0


From ca74f973d32f7306b18f6b6612259a64dbd63eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 21/46] fix: prune integer variables last, so that branching
 finds integer bounds

---
 dreal/solver/theory_solver.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 2a33eb8..d0d6cbc 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -212,13 +212,14 @@ optional<Contractor> TheorySolver::BuildContractor(
       ctcs.emplace_back(it->second);
     }
   }
-  // Add integer contractor.
-  ctcs.push_back(make_contractor_integer(box, config_));
-
   if (config_.use_polytope()) {
     // Add polytope contractor.
     ctcs.push_back(make_contractor_ibex_polytope(assertions, box, config_));
   }
+  // Add integer contractor. It comes last so that pruning leaves integer bounds
+  // for the integer variables, which branching relies on.
+  const Contractor integer_contractor{make_contractor_integer(box, config_)};
+  ctcs.push_back(integer_contractor);
   if (DREAL_LOG_TRACE_ENABLED) {
     for (const auto& ctc : ctcs) {
       DREAL_LOG_TRACE("TheorySolver::BuildContractor: CTC = {}", ctc);
@@ -228,8 +229,13 @@ optional<Contractor> TheorySolver::BuildContractor(
     }
   }
   if (config_.use_worklist_fixpoint()) {
-    return make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
-                                             config_);
+    const Contractor fixpoint{make_contractor_worklist_fixpoint(
+        DefaultTerminationCondition, ctcs, config_)};
+    if (integer_contractor.kind() == Contractor::Kind::ID) {
+      return fixpoint;
+    }
+    // The worklist may end before it comes to the integer contractor again.
+    return make_contractor_seq({fixpoint, integer_contractor}, config_);
   } else {
     return make_contractor_fixpoint(DefaultTerminationCondition, ctcs, config_);
   }
-- 
2.43.0


From 4066e23c931a7d8e4a545cc87aff97f3a57c5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 22/46] fix: merge the exponents of nested powers only if both
 are integers

---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From a6441b5523b643c8be069abe934978840167f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 23/46] fix: order scoped vectors lexicographically, within
 their bounds

---
 dreal/util/scoped_vector.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dreal/util/scoped_vector.h b/dreal/util/scoped_vector.h
index 4b3b747..408e7d2 100644
--- a/dreal/util/scoped_vector.h
+++ b/dreal/util/scoped_vector.h
@@ -102,12 +102,7 @@ class ScopedVector {
   reference operator[](size_type n) { return vector_[n]; }
   const_reference operator[](size_type n) const { return vector_[n]; }
   bool operator<(ScopedVector<T> const& v) const {
-    for (size_t i = 0; i < vector_.size(); i++) {
-      if (vector_[i] < v.vector_[i]) {
-        return true;
-      }
-    }
-    return false;
+    return vector_ < v.vector_;
   }
   vector get_reverse() const {
     vector tmp = vector_;
-- 
2.43.0


From 42640610c5b6153d6eebcb5ed92f17cc00de9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 24/46] fix: print coefficients with all digits and leave the
 stream's precision alone

---
 .../symbolic/symbolic_expression_cell.cc      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..d5b13b5 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -125,6 +125,13 @@ bool determine_polynomial(const Expression& base, const Expression& exponent) {
   return is_non_negative_integer(e);
 }
 
+// Prints @p v to @p os with all of its digits. Leaves the format of @p os.
+ostream& DisplayDouble(ostream& os, const double v) {
+  ostringstream oss;
+  oss << setprecision(numeric_limits<double>::max_digits10) << v;
+  return os << oss.str();
+}
+
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
                                 const Expression& e3);
 
@@ -418,9 +425,7 @@ Expression ExpressionConstant::Differentiate(const Variable&) const {
 }
 
 ostream& ExpressionConstant::Display(ostream& os) const {
-  ostringstream oss;
-  oss << setprecision(numeric_limits<double>::max_digits10) << v_;
-  return os << oss.str();
+  return DisplayDouble(os, v_);
 }
 
 ExpressionRealConstant::ExpressionRealConstant(const double lb, const double ub,
@@ -629,7 +634,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayDouble(os, constant_);
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -650,13 +655,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      DisplayDouble(os, coeff) << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      DisplayDouble(os, -coeff) << " * ";
     }
   }
   os << term;
@@ -922,7 +927,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayDouble(os, constant_);
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From 63126831c58a2157bbb87ffad8158a36a95a52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 25/46] fix: accept an explicit plus sign in StringToInterval

---
 dreal/util/string_to_interval.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..cc256fc 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -28,6 +28,8 @@ Box::Interval StringToInterval(const string& s) {
   double lb{};
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
+  } else if (s[0] == '+') {
+    lb = -stod("-" + s.substr(1));
   } else {
     lb = -stod("-" + s);
   }
-- 
2.43.0


From 8141465dae691a8726a43b878e5f64d035377e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 26/46] fix: bind let-variables locally when they depend on
 parameters or quantified variables

---
 dreal/smt2/driver.cc | 39 ++++++++++++++++++++++++++++++++++++---
 dreal/smt2/driver.h  | 21 ++++++++++++++++-----
 dreal/smt2/parser.yy | 23 +++++------------------
 3 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 798d3aa..6d5fb5b 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -258,9 +258,18 @@ void Smt2Driver::GetOption(const string& key) const {
   cout.flush();
 }
 
+namespace {
+Term ToTerm(const Variable& v) {
+  if (v.get_type() == Variable::Type::BOOLEAN) {
+    return Term{Formula{v}};
+  }
+  return Term{Expression{v}};
+}
+}  // namespace
+
 Variable Smt2Driver::RegisterVariable(const string& name, const Sort sort) {
   Variable v{ParseVariableSort(name, sort)};
-  scope_.insert(v.get_name(), v);
+  scope_.insert(v.get_name(), ToTerm(v));
   return v;
 }
 
@@ -302,13 +311,37 @@ Term Smt2Driver::LookupFunction(const string& name,
 
 Variable Smt2Driver::DeclareLocalVariable(const string& name, const Sort sort) {
   Variable v{ParseVariableSort(MakeUniqueName(name), sort)};
-  scope_.insert(name, v);  // v is not inserted under its own name.
+  scope_.insert(name, ToTerm(v));  // v is not inserted under its own name.
   context_.DeclareVariable(
       v, false /* This local variable is not a model variable. */);
   return v;
 }
 
-const Variable& Smt2Driver::lookup_variable(const string& name) {
+void Smt2Driver::MarkAsBound(const Variable& v) { bound_variables_.insert(v); }
+
+void Smt2Driver::DefineLocal(const string& name, const Term& term) {
+  const bool is_formula{term.type() == Term::Type::FORMULA};
+  const Variables variables{is_formula ? term.formula().GetFreeVariables()
+                                       : term.expression().GetVariables()};
+  if (!intersect(variables, bound_variables_).empty()) {
+    // The term depends on a bound variable. A variable of the context cannot
+    // stand for it.
+    scope_.insert(name, term);
+    return;
+  }
+  const Variable v{
+      DeclareLocalVariable(name, is_formula ? Sort::Bool : Sort::Real)};
+  if (is_formula) {
+    const Formula fv{v};
+    const Formula& ft{term.formula()};
+    context_.Assert((fv && ft) || (!fv && !ft));
+  } else {
+    const Expression ev{v};
+    context_.Assert(ev == term.expression());
+  }
+}
+
+const Term& Smt2Driver::lookup_name(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
     throw DREAL_RUNTIME_ERROR("{} is an undeclared variable.", name);
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..a991d45 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -106,6 +106,13 @@ class Smt2Driver {
   /// cannot occur in an SMT-LIBv2 file.
   Variable DeclareLocalVariable(const std::string& name, Sort sort);
 
+  /// Marks @p v as a parameter of a function definition or a quantified
+  /// variable. It has no value outside of the term which binds it.
+  void MarkAsBound(const Variable& v);
+
+  /// Handles a binding `(name term)` of a let-term.
+  void DefineLocal(const std::string& name, const Term& term);
+
   /// Handles define-fun.
   void DefineFun(const std::string& name,
                  const std::vector<Variable>& parameters, Sort return_type,
@@ -122,10 +129,11 @@ class Smt2Driver {
   /// Handles `(get-option key)`.
   void GetOption(const std::string& key) const;
 
-  /// Returns a variable associated with a name @p name.
+  /// Returns a term associated with a name @p name, which is either a variable
+  /// or a let-bound term.
   ///
-  /// @throws if no variable is associated with @p name.
-  const Variable& lookup_variable(const std::string& name);
+  /// @throws if nothing is associated with @p name.
+  const Term& lookup_name(const std::string& name);
 
   void PushScope() {
     scope_.push();
@@ -171,8 +179,11 @@ class Smt2Driver {
   /// enable debug output in the bison parser
   bool trace_parsing_{false};
 
-  /** Scoped map from a string to a corresponding Variable. */
-  ScopedUnorderedMap<std::string, Variable> scope_;
+  /** Scoped map from a string to a corresponding variable or term. */
+  ScopedUnorderedMap<std::string, Term> scope_;
+
+  /// Parameters of function definitions and quantified variables.
+  Variables bound_variables_;
 
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..5f1e166 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -390,12 +390,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
         |       INT { $$ = convert_int64_to_double($1); }
         |       SYMBOL {
             try {
-                const Variable& var = driver.lookup_variable($1);
-                if (var.get_type() == Variable::Type::BOOLEAN) {
-                    $$ = Formula(var);
-                } else {
-                    $$ = Expression(var);
-                }
+                $$ = driver.lookup_name($1);
             } catch (std::runtime_error& e) {
                 std::cerr << @1 << " : " << e.what() << std::endl;
                 YYABORT;
@@ -490,18 +485,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
 let_binding_list: '(' var_binding_list ')' {
             // Locals must be bound simultaneously.
             for (auto& binding : $2) {
-                const std::string& name{ binding.first };
-                const Term& term{ binding.second };
-                const bool is_formula = term.type() == Term::Type::FORMULA;
-                const Sort sort = is_formula ? Sort::Bool : Sort::Real;
-                const Variable v{ driver.DeclareLocalVariable(name, sort) };
-                if (is_formula) {
-                    const Formula fv{v};
-                    const Formula& ft{ term.formula() };
-                    driver.mutable_context().Assert((fv && ft) || (!fv && !ft));
-                } else {
-                    driver.mutable_context().Assert(Expression{v} == term.expression());
-                }
+                driver.DefineLocal(binding.first, binding.second);
             }
         }
         ;
@@ -518,6 +502,7 @@ exit_scope: /* */ {
 
 name_sort: '(' SYMBOL sort ')' {
             $$ = Variable{driver.DeclareLocalVariable($2, $3)};
+            driver.MarkAsBound($$);
         }
         ;
 
@@ -548,11 +533,13 @@ variable_sort_list: /* empty list */ { $$ = std::pair<Variables, Formula>(Variab
 
 variable_sort: '(' SYMBOL sort ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.MarkAsBound(v);
             const double inf = std::numeric_limits<double>::infinity();
             $$ = std::tuple<Variable, double, double>(v, -inf, inf);
         }
         |       '(' SYMBOL sort '[' term ',' term ']' ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.MarkAsBound(v);
             const double lb = $5.expression().Evaluate();
             const double ub = $7.expression().Evaluate();
             $$ = std::tuple<Variable, double, double>(v, lb, ub);
-- 
2.43.0


From 783fdc978787d1c95187508524ff20a83d28cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 27/46] fix: accept a comment at the end of the input without a
 newline

---
 dreal/dr/scanner.ll   | 2 +-
 dreal/smt2/scanner.ll | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/dr/scanner.ll b/dreal/dr/scanner.ll
index 4655ca0..1576e9a 100644
--- a/dreal/dr/scanner.ll
+++ b/dreal/dr/scanner.ll
@@ -73,7 +73,7 @@ dr_yycolumn += yyleng;
 
  /*** BEGIN - lexer rules ***/
 
-"#".*[\n\r]+ {
+"#".*[\n\r]* {
     dr_yycolumn=1;
 }
 
diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index 28734f8..b20bdda 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -87,7 +87,7 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /*** BEGIN - lexer rules ***/
 
-";".*[\n\r]+ {
+";".*[\n\r]* {
     smt2_yycolumn=1;
 }
 
-- 
2.43.0


From cd94e0961b686d8fd96d1aa9d6fe6902309be3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 28/46] fix: forget the learned clauses when a variable's
 domain is extended

A clause learned by CheckSat holds for the values in the box at that time. The
counterexample search of a forall constraint sets the domains before each
check, and went on to use the clauses learned for an earlier box; it missed
counterexamples, so that delta-sat was returned for unsatisfiable problems.
---
 dreal/solver/context_impl.cc |  8 +++++++-
 dreal/solver/sat_solver.cc   | 18 ++++++++++++++++++
 dreal/solver/sat_solver.h    |  9 +++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index a9a473f..3fdc49f 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -377,7 +377,13 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
-  box()[v] = Box::Interval{lb, ub};
+  const Box::Interval interval{lb, ub};
+  if (!interval.is_subset(box()[v])) {
+    // The learned clauses hold for the values in the current box. They may not
+    // hold for the values added here.
+    sat_solver_.ForgetLearnedClauses();
+  }
+  box()[v] = interval;
 }
 
 void Context::Impl::SetLogic(const Logic& logic) {
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index 1ca93b9..6a23fcf 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -79,12 +79,27 @@ void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
   for (const Formula& f : formulas) {
     literals.push_back(!predicate_abstractor_.Convert(f));
   }
+  if (learned_clause_guard_ == 0) {
+    learned_clause_guard_ = picosat_inc_max_var(sat_);
+  }
+  picosat_add(sat_, -learned_clause_guard_);
   for (const Formula& l : literals) {
     AddLiteral(l);
   }
   picosat_add(sat_, 0);
 }
 
+void SatSolver::ForgetLearnedClauses() {
+  if (learned_clause_guard_ == 0) {
+    // Nothing has been learned.
+    return;
+  }
+  DREAL_LOG_DEBUG("SatSolver::ForgetLearnedClauses()");
+  picosat_add(sat_, -learned_clause_guard_);
+  picosat_add(sat_, 0);
+  learned_clause_guard_ = 0;
+}
+
 void SatSolver::AddClauses(const vector<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddClause(f);
@@ -136,6 +151,9 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
                   picosat_added_original_clauses(sat_));
   stat.increase_num_check_sat();
   // Call SAT solver.
+  if (learned_clause_guard_ != 0) {
+    picosat_assume(sat_, learned_clause_guard_);
+  }
   TimerGuard check_sat_timer_guard(&stat.timer_check_sat_,
                                    DREAL_LOG_INFO_ENABLED);
   const int ret{picosat_sat(sat_, -1 /* decision_limit == no limit */)};
diff --git a/dreal/solver/sat_solver.h b/dreal/solver/sat_solver.h
index 71163b4..7517ef1 100644
--- a/dreal/solver/sat_solver.h
+++ b/dreal/solver/sat_solver.h
@@ -73,6 +73,11 @@ class SatSolver {
   /// the solver.
   void AddLearnedClause(const std::set<Formula>& formulas);
 
+  /// Drops the clauses added by AddLearnedClause. It should be called when a
+  /// change in a problem, such as extending the domain of a variable,
+  /// invalidates them.
+  void ForgetLearnedClauses();
+
   /// Checks the satisfiability of the current configuration.
   ///
   /// @returns a witness, satisfying model if the problem is satisfiable.
@@ -131,6 +136,10 @@ class SatSolver {
   /// transformations.
   ScopedUnorderedSet<Variable::Id> tseitin_variables_;
 
+  /// Literal (in SAT) which is assumed in CheckSat() and whose negation is a
+  /// part of the learned clauses. Zero if there is no learned clause.
+  int learned_clause_guard_{0};
+
   /// @note We found an issue when picosat_deref_partial is used with
   /// picosat_pop. When this variable is true, we use `picosat_deref`
   /// instead.
-- 
2.43.0


From 7f9677d3c24aabe7d88a32b5ea0185100e03a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 29/46] fix: bind every variable of a forall's domain

A quantified variable which does not occur in the body was left free in the
domain constraint, which ended in an exception.
---
 dreal/smt2/parser.yy | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 5f1e166..56f4f86 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -365,11 +365,12 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
-	    const Variables quantified_variables = intersect(vars, body.GetFreeVariables());
-	    if (quantified_variables.empty()) {
+	    if (intersect(vars, body.GetFreeVariables()).empty()) {
 	        $$ = body;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+                // The domain may mention variables which are not in the body.
+                const Formula f = imply(domain, body);
+                $$ = forall(intersect(vars, f.GetFreeVariables()), f);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0


From fb067769f6fc65bb98afb9aa72285fcdf00e1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 30/46] fix: print infinite bounds in get-value

Converting an infinite bound or an empty interval into a rational number ended
the process with SIGFPE.
---
 dreal/smt2/driver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 6d5fb5b..9466147 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/smt2/driver.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -178,6 +179,10 @@ string ToString(const mpz_class& z) {
 }
 
 string ToRational(const double d) {
+  if (std::isinf(d)) {
+    // It has no rational representation.
+    return d > 0 ? "inf" : "(- inf)";
+  }
   const mpq_class r{d};
   if (r.get_den() == 1) {
     return fmt::format("{}", ToString(r.get_num()));
@@ -190,6 +195,9 @@ string ToRational(const double d) {
 // Returns the string representation of @p interval.
 // It returns `(exact c)` or `(interval lb ub)`.
 string ToString(const Box::Interval& interval) {
+  if (interval.is_empty()) {
+    return "(interval empty)";
+  }
   if (interval.lb() == interval.ub()) {
     return ToRational(interval.lb());
   } else {
-- 
2.43.0


From 0a5b1d38c34f7450dd30f4abb2572e3060b9b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 31/46] fix: set only the variables of a forall formula in its
 evaluator

The box may have variables which do not occur in the formula. Looking them up in
the box of the counterexample search gives the first variable, whose domain was
overwritten, and counterexamples were missed.
---
 dreal/solver/forall_formula_evaluator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..0d61bc5 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,8 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  // Note that `context` does not have the other variables in `box`.
+  for (const Variable& v : variables()) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,7 +109,7 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : variables()) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
-- 
2.43.0


From 55311ed889d6502cc5bf681885882adda629f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 32/46] fix: keep the column of a scanner in the scanner

---
 dreal/dr/scanner.h    |  4 ++++
 dreal/dr/scanner.ll   | 10 ++++------
 dreal/smt2/scanner.h  |  4 ++++
 dreal/smt2/scanner.ll | 10 ++++------
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/dreal/dr/scanner.h b/dreal/dr/scanner.h
index 2328d29..6a796e3 100644
--- a/dreal/dr/scanner.h
+++ b/dreal/dr/scanner.h
@@ -73,6 +73,10 @@ class DrScanner : public DrFlexLexer {
 
   /** Enable debug output (via arg_yyout) if compiled into the scanner. */
   void set_debug(bool b);
+
+ private:
+  // Column of the next token.
+  int column_{1};
 };
 
 }  // namespace dreal
diff --git a/dreal/dr/scanner.ll b/dreal/dr/scanner.ll
index 1576e9a..fc69eb0 100644
--- a/dreal/dr/scanner.ll
+++ b/dreal/dr/scanner.ll
@@ -57,11 +57,9 @@ typedef dreal::DrParser::token_type token_type;
  * yylex is invoked, the begin position is moved onto the end position. */
 %{
 /* handle locations */
-int dr_yycolumn = 1;
-    
 #define YY_USER_ACTION yylloc->begin.line = yylloc->end.line = yylineno; \
-yylloc->begin.column = dr_yycolumn; yylloc->end.column = dr_yycolumn+yyleng-1; \
-dr_yycolumn += yyleng;
+yylloc->begin.column = column_; yylloc->end.column = column_+yyleng-1; \
+column_ += yyleng;
 %}
 
 %% /*** Regular Expressions Part ***/
@@ -74,7 +72,7 @@ dr_yycolumn += yyleng;
  /*** BEGIN - lexer rules ***/
 
 "#".*[\n\r]* {
-    dr_yycolumn=1;
+    column_=1;
 }
 
 "var"                   { return DrParser::token::TK_VAR; }
@@ -129,7 +127,7 @@ dr_yycolumn += yyleng;
 
  /* gobble up end-of-lines */
 \n {
-    dr_yycolumn=1;
+    column_=1;
 }
 
 (0|[1-9][0-9]*) {
diff --git a/dreal/smt2/scanner.h b/dreal/smt2/scanner.h
index 99cb54b..f5750ae 100644
--- a/dreal/smt2/scanner.h
+++ b/dreal/smt2/scanner.h
@@ -77,6 +77,10 @@ class Smt2Scanner : public Smt2FlexLexer {
 
   /** Enable debug output (via arg_yyout) if compiled into the scanner. */
   void set_debug(bool b);
+
+ private:
+  // Column of the next token.
+  int column_{1};
 };
 
 }  // namespace dreal
diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index b20bdda..9b0fcb9 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -54,11 +54,9 @@ typedef dreal::Smt2Parser::token_type token_type;
  * yylex is invoked, the begin position is moved onto the end position. */
 %{
 /* handle locations */
-int smt2_yycolumn = 1;
-    
 #define YY_USER_ACTION yylloc->begin.line = yylloc->end.line = yylineno; \
-yylloc->begin.column = smt2_yycolumn; yylloc->end.column = smt2_yycolumn+yyleng-1; \
-smt2_yycolumn += yyleng;
+yylloc->begin.column = column_; yylloc->end.column = column_+yyleng-1; \
+column_ += yyleng;
 %}
 
 whitespace      [\x09 \xA0]
@@ -88,7 +86,7 @@ simple_symbol   {sym_begin}{sym_continue}*
  /*** BEGIN - lexer rules ***/
 
 ";".*[\n\r]* {
-    smt2_yycolumn=1;
+    column_=1;
 }
 
 "!"                     { return Smt2Parser::token::TK_EXCLAMATION; }
@@ -177,7 +175,7 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /* gobble up end-of-lines */
 \n {
-    smt2_yycolumn=1;
+    column_=1;
 }
 
 [-+]?(0|[1-9][0-9]*) {
-- 
2.43.0


From aa7f98a0a8806ae6953ca342a3a1e2d63564d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 33/46] fix: forget contractors and evaluators of forall
 formulas when the precision changes

---
 dreal/solver/theory_solver.cc | 6 ++++++
 dreal/solver/theory_solver.h  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index d0d6cbc..58a9124 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -286,6 +286,12 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
   ContractorStatus contractor_status(box);
 
+  if (config_.precision() != cache_precision_) {
+    contractor_cache_.clear();
+    formula_evaluator_cache_.clear();
+    cache_precision_ = config_.precision();
+  }
+
   // Icp Step
   const optional<Contractor> contractor{
       BuildContractor(assertions, &contractor_status)};
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index 4df3862..2c81453 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -67,6 +67,9 @@ class TheorySolver {
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::vector<Variable> contractor_cache_variables_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
+  // Contractors and evaluators of forall formulas depend on the precision, so
+  // that the cached ones are only valid for the precision below.
+  double cache_precision_{0.0};
 };
 
 }  // namespace dreal
-- 
2.43.0


From e2204bb61ff9532ed6cda075bb88ec1ba5e2f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 34/46] fix: copy all components of a box before any of them is
 released

---
 dreal/util/box.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 7791f9b..1fe3b48 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -16,6 +16,7 @@
 #include "dreal/util/box.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <limits>
@@ -73,11 +74,20 @@ void Box::Add(const Variable& v) {
     // If the components of this box is shared by more than one
     // entity, we need to clone this before adding the variable `v`
     // so that these changes remain local.
-    variables_ = make_shared<vector<Variable>>(*variables_);
-    var_to_idx_ =
+    // Nothing is released before everything is copied: another box may be
+    // changed in its place by another thread as soon as it is alone.
+    auto variables = make_shared<vector<Variable>>(*variables_);
+    auto var_to_idx =
         make_shared<unordered_map<Variable, int, hash_value<Variable>>>(
             *var_to_idx_);
-    idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);
+    auto idx_to_var = make_shared<unordered_map<int, Variable>>(*idx_to_var_);
+    idx_to_var_ = std::move(idx_to_var);
+    var_to_idx_ = std::move(var_to_idx);
+    variables_ = std::move(variables);
+  } else {
+    // `unique()` does not synchronize with the thread that dropped the last
+    // other reference. What it read has to happen before the changes below.
+    std::atomic_thread_fence(std::memory_order_acquire);
   }
   const int n{size()};
   idx_to_var_->emplace(n, v);
-- 
2.43.0


From d4813ff17f292b54c55497a2d72a874d5a2f801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 35/46] fix: do not refine the values of integer variables in a
 counterexample

---
 dreal/contractor/counterexample_refiner.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 62e8bfe..998871b 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -33,6 +33,13 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
       forall_variables_{std::move(forall_variables)} {
   // Build forall_vec_ (of vector<Variable>).
   for (const Variable& var : forall_variables_) {
+    if (var.get_type() != Variable::Type::CONTINUOUS) {
+      // NLopt moves a variable to any real number, but pruning with a value
+      // that is not of the type of the variable is not sound.
+      // This will leave opt_ as nullptr. `Refine(box)` will return box then.
+      DREAL_ASSERT(!opt_);
+      return;
+    }
     forall_vec_.push_back(var);
   }
 
-- 
2.43.0


From ffc79e0aca9d30ffd6a88b65a2fa0b98edd02a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 36/46] fix: exclude a negative strict upper bound from the box

---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From 86759a0acf48cad7255dce9a30582cad2726fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 37/46] fix: solve a dr script only if it is well-formed up to
 its end

The parser reduced a complete script before looking at what follows it, so
that an answer was printed for input with a syntax error behind its last
statement.
---
 dreal/dr/driver.cc | 7 ++++++-
 dreal/dr/parser.yy | 3 ---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreal/dr/driver.cc b/dreal/dr/driver.cc
index d3c6228..f5ffbaf 100644
--- a/dreal/dr/driver.cc
+++ b/dreal/dr/driver.cc
@@ -47,7 +47,12 @@ bool DrDriver::parse_stream(istream& in, const string& sname) {
 
   DrParser parser(*this);
   parser.set_debug_level(trace_parsing_);
-  return (parser.parse() == 0);
+  if (parser.parse() != 0) {
+    return false;
+  }
+  // Solves the problem only if the input is well-formed up to its end.
+  Solve();
+  return true;
 }
 
 bool DrDriver::parse_file(const string& filename) {
diff --git a/dreal/dr/parser.yy b/dreal/dr/parser.yy
index 6df1b03..5ba61f8 100644
--- a/dreal/dr/parser.yy
+++ b/dreal/dr/parser.yy
@@ -104,9 +104,6 @@
 script:         var_decl_sec
                 opt_ctr_decl_sec
 		opt_cost_decl_sec
-		{
-                    driver.Solve();
-		}
 		;
 
 // =============================
-- 
2.43.0


From 6276a1fb977eecc0871b5d86048a10bc19784494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 38/46] fix: keep the values of integer variables which an int
 cannot hold

---
 dreal/solver/context_impl.cc | 2 +-
 dreal/util/box.cc            | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 3fdc49f..c3ccfbf 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -87,7 +87,7 @@ void Tighten(Box* box, const double delta) {
         } break;
         case Variable::Type::INTEGER: {
           const double mid{interval.mid()};
-          interval = static_cast<int>(mid);
+          interval = std::trunc(mid);  // It may be out of the range of int.
         } break;
       }
     }
diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 1fe3b48..16a8bfa 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -117,7 +117,7 @@ void Box::Add(const Variable& v, const double lb, const double ub) {
 
   // Integer variable => lb, ub ∈ Z.
   DREAL_ASSERT(v.get_type() != Variable::Type::INTEGER ||
-               (is_integer(lb) && is_integer(ub)));
+               (std::trunc(lb) == lb && std::trunc(ub) == ub));
 
   values_[(*var_to_idx_)[v]] = Interval{lb, ub};
 }
@@ -251,8 +251,9 @@ ostream& operator<<(ostream& os, const Box& box) {
         if (interval.is_empty()) {
           os << "[ empty ]";
         } else {
-          os << "[" << static_cast<int>(interval.lb()) << ", "
-             << static_cast<int>(interval.ub()) << "]";
+          // The bounds may be out of the range of int. `+ 0.0` avoids "-0".
+          os << "[" << std::trunc(interval.lb()) + 0.0 << ", "
+             << std::trunc(interval.ub()) + 0.0 << "]";
         }
         break;
       case Variable::Type::CONTINUOUS:
-- 
2.43.0


From 524b2c5fac78d1faac6c62756679e180fd3fc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 39/46] fix: give every discrete variable a value in a model,
 however large the precision is

---
 dreal/solver/context_impl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index c3ccfbf..bcc62ce 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -72,8 +72,10 @@ bool RoundIntegerVariables(Box* const box) {
 void Tighten(Box* box, const double delta) {
   for (int i = 0; i < box->size(); ++i) {
     auto& interval = (*box)[i];
-    if (interval.diam() > delta) {
-      const Variable& var{box->variable(i)};
+    const Variable& var{box->variable(i)};
+    // A discrete variable needs a value, however large delta is.
+    if (interval.diam() >
+        (var.get_type() == Variable::Type::CONTINUOUS ? delta : 0.0)) {
       switch (var.get_type()) {
         case Variable::Type::BINARY:
         case Variable::Type::BOOLEAN:
-- 
2.43.0


From e90f4a11157dd611749fb8d08eb15f50f703bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 40/46] fix: leave a box as it was when a variable cannot be
 added

---
 dreal/util/box.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 16a8bfa..25a93c7 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -90,10 +90,20 @@ void Box::Add(const Variable& v) {
     std::atomic_thread_fence(std::memory_order_acquire);
   }
   const int n{size()};
-  idx_to_var_->emplace(n, v);
-  var_to_idx_->emplace(v, n);
-  variables_->push_back(v);
-  values_.resize(size());
+  try {
+    idx_to_var_->emplace(n, v);
+    var_to_idx_->emplace(v, n);
+    variables_->push_back(v);
+    values_.resize(size());
+  } catch (...) {
+    // Not enough memory. Leave the box as it was.
+    idx_to_var_->erase(n);
+    var_to_idx_->erase(v);
+    if (size() > n) {
+      variables_->pop_back();
+    }
+    throw;
+  }
 
   // Set up Domain.
   // TODO(soonho): For now, we allow Boolean variables in a box. Change this.
-- 
2.43.0


From 19fc9a9e240eca049e9b0405e4dbd98a75f23dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 41/46] fix: open a scope everywhere or nowhere when memory
 runs out

---
 dreal/solver/context.cc      | 13 +++++++++++--
 dreal/solver/context_impl.cc | 25 +++++++++++++++++++++----
 dreal/solver/sat_solver.cc   | 18 +++++++++++++++---
 3 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/dreal/solver/context.cc b/dreal/solver/context.cc
index 7d92fb1..54079e4 100644
--- a/dreal/solver/context.cc
+++ b/dreal/solver/context.cc
@@ -79,8 +79,17 @@ void Context::Push(int n) {
     throw DREAL_RUNTIME_ERROR(
         "Context::Push(n) called with n = {} which is not positive.", n);
   }
-  while (n-- > 0) {
-    impl_->Push();
+  int pushed{0};
+  try {
+    for (; pushed < n; ++pushed) {
+      impl_->Push();
+    }
+  } catch (...) {
+    // Open all of the scopes or none of them.
+    while (pushed-- > 0) {
+      impl_->Pop();
+    }
+    throw;
   }
 }
 
diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index bcc62ce..472a128 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -359,11 +359,28 @@ void Context::Impl::Pop() {
 
 void Context::Impl::Push() {
   DREAL_LOG_DEBUG("ContextImpl::Push()");
-  sat_solver_.Push();
+  // Each of these can run out of memory. In that case, undo the previous ones
+  // so that a scope is open either everywhere or nowhere.
   boxes_.push();
-  boxes_.push_back(boxes_.last());
-  model_variables_.push();
-  stack_.push();
+  try {
+    boxes_.push_back(boxes_.last());
+    model_variables_.push();
+    try {
+      stack_.push();
+      try {
+        sat_solver_.Push();
+      } catch (...) {
+        stack_.pop();
+        throw;
+      }
+    } catch (...) {
+      model_variables_.pop();
+      throw;
+    }
+  } catch (...) {
+    boxes_.pop();
+    throw;
+  }
 }
 
 void Context::Impl::SetInfo(const string& key, const double val) {
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index 6a23fcf..4f575d9 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -224,10 +224,22 @@ void SatSolver::Pop() {
 
 void SatSolver::Push() {
   DREAL_LOG_DEBUG("SatSolver::Push()");
-  picosat_push(sat_);
+  // If one of the maps runs out of memory, undo the previous ones so that a
+  // scope is open either everywhere or nowhere.
   to_sat_var_.push();
-  to_sym_var_.push();
-  tseitin_variables_.push();
+  try {
+    to_sym_var_.push();
+    try {
+      tseitin_variables_.push();
+    } catch (...) {
+      to_sym_var_.pop();
+      throw;
+    }
+  } catch (...) {
+    to_sat_var_.pop();
+    throw;
+  }
+  picosat_push(sat_);
 }
 
 void SatSolver::AddLiteral(const Formula& f) {
-- 
2.43.0


From 2de829cdd7441a7dd4b8b5caccdb5cdca8b7bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 42/46] fix: do not store an option value which is refused

---
 dreal/solver/context_impl.cc | 52 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 472a128..210e2be 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -412,13 +412,12 @@ void Context::Impl::SetLogic(const Logic& logic) {
 
 void Context::Impl::SetOption(const string& key, const double val) {
   DREAL_LOG_DEBUG("ContextImpl::SetOption({} ↦ {})", key, val);
+  if (key == ":precision" && !(val > 0.0)) {
+    throw DREAL_RUNTIME_ERROR("Precision has to be positive (input = {}).",
+                              val);
+  }
   option_[key] = fmt::format("{}", val);
-
   if (key == ":precision") {
-    if (val <= 0.0) {
-      throw DREAL_RUNTIME_ERROR("Precision has to be positive (input = {}).",
-                                val);
-    }
     return config_.mutable_precision().set_from_file(val);
   }
 }
@@ -438,31 +437,28 @@ optional<string> Context::Impl::GetOption(const string& key) const {
 
 void Context::Impl::SetOption(const string& key, const string& val) {
   DREAL_LOG_DEBUG("ContextImpl::SetOption({} ↦ {})", key, val);
-  option_[key] = val;
+  OptionValue<bool>* option{nullptr};
   if (key == ":polytope") {
-    return config_.mutable_use_polytope().set_from_file(
-        ParseBooleanOption(key, val));
-  }
-  if (key == ":forall-polytope" || key == "forall_polytope") {
-    return config_.mutable_use_polytope_in_forall().set_from_file(
-        ParseBooleanOption(key, val));
-  }
-  if (key == ":local-optimization" || key == "local_optimization") {
-    return config_.mutable_use_local_optimization().set_from_file(
-        ParseBooleanOption(key, val));
-  }
-  if (key == ":worklist-fixpoint" || key == ":worklist_fixpoint") {
-    return config_.mutable_use_worklist_fixpoint().set_from_file(
-        ParseBooleanOption(key, val));
-  }
-  if (key == ":produce-models" || key == ":produce_models") {
-    return config_.mutable_produce_models().set_from_file(
-        ParseBooleanOption(key, val));
-  }
-  if (key == ":smtlib2-compliant" || key == ":smtlib2_compliant") {
-    return config_.mutable_smtlib2_compliant().set_from_file(
-        ParseBooleanOption(key, val));
+    option = &config_.mutable_use_polytope();
+  } else if (key == ":forall-polytope" || key == "forall_polytope") {
+    option = &config_.mutable_use_polytope_in_forall();
+  } else if (key == ":local-optimization" || key == "local_optimization") {
+    option = &config_.mutable_use_local_optimization();
+  } else if (key == ":worklist-fixpoint" || key == ":worklist_fixpoint") {
+    option = &config_.mutable_use_worklist_fixpoint();
+  } else if (key == ":produce-models" || key == ":produce_models") {
+    option = &config_.mutable_produce_models();
+  } else if (key == ":smtlib2-compliant" || key == ":smtlib2_compliant") {
+    option = &config_.mutable_smtlib2_compliant();
+  }
+  if (option == nullptr) {
+    option_[key] = val;
+    return;
   }
+  // A value which is not accepted should not be stored.
+  const bool value{ParseBooleanOption(key, val)};
+  option_[key] = val;
+  option->set_from_file(value);
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-- 
2.43.0


From 47de890e8c925764a8c2da63f1c280c68a0faa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:54 +0000
Subject: [PATCH 43/46] fix: differentiate a product of a sum without dividing
 by the sum

---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index d5b13b5..f39dcfe 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -917,7 +917,9 @@ Expression ExpressionMul::Differentiate(const Variable& x) const {
   for (const auto& term : m) {
     const Expression& base{term.first};
     const Expression& exponent{term.second};
-    ret += expr * DifferentiatePow(base, exponent, x) * pow(base, -exponent);
+    // Divide first, which cancels the term. The product of a sum and a
+    // constant is another sum, which does not.
+    ret += expr * pow(base, -exponent) * DifferentiatePow(base, exponent, x);
   }
   return constant_ * ret;
 }
-- 
2.43.0


From 604a7581a15d7678d3e1d1b595a0197cfbeb183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:54 +0000
Subject: [PATCH 44/46] fix: expand powers of products, so that an expanded
 polynomial stays as it is

---
 .../dreal/symbolic/symbolic_expression_cell.cc      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index f39dcfe..03b3739 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -227,15 +227,24 @@ Expression ExpandPow(const Expression& base, const Expression& exponent) {
   assert(base.EqualTo(base.Expand()));
   assert(exponent.EqualTo(exponent.Expand()));
   // Expand if
-  //     1) base is an addition expression and
+  //     1) base is an addition expression or a product of polynomials and
   //     2) exponent is a positive integer.
-  if (!is_addition(base) || !is_constant(exponent)) {
+  const bool is_product{is_multiplication(base) && base.is_polynomial()};
+  if (!(is_addition(base) || is_product) || !is_constant(exponent)) {
     return pow(base, exponent);
   }
   const double e{get_constant_value(exponent)};
   if (e <= 0 || !is_integer(e)) {
     return pow(base, exponent);
   }
+  if (is_product) {
+    // pow(c * ∏ᵢ pow(bᵢ, eᵢ), e) = pow(c, e) * ∏ᵢ pow(bᵢ, eᵢ * e)
+    Expression ret{std::pow(get_constant_in_multiplication(base), e)};
+    for (const auto& p : get_base_to_exponent_map_in_multiplication(base)) {
+      ret *= pow(p.first, p.second * e);
+    }
+    return ret;
+  }
   const int n{static_cast<int>(e)};
   return ExpandPow(base, n);
 }
-- 
2.43.0


From d5e63fd8a2f01a6a5537b83140084bf2caf30340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 45/46] fix: filter only bounds of quantified variables before
 refining a counterexample

---
 dreal/contractor/counterexample_refiner.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 998871b..e5c5bd5 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -44,21 +44,24 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
   }
 
   // 1. Filter bound constraints.
+  //    The others are about variables which are not in the box.
   Box box{forall_vec_};
   vector<Formula> formulas;
+  auto filtered = [this, &box](const Formula& f) {
+    return f.GetFreeVariables().IsSubsetOf(forall_variables_) &&
+           FilterAssertion(f, &box) != FilterAssertionResult::NotFiltered;
+  };
   if (is_conjunction(query)) {
     formulas.reserve(get_operands(query).size());
     for (const Formula& f : get_operands(query)) {
       DREAL_ASSERT(is_relational(f));
-      const FilterAssertionResult result{FilterAssertion(f, &box)};
-      if (result == FilterAssertionResult::NotFiltered) {
+      if (!filtered(f)) {
         formulas.push_back(f);
       }
     }
   } else {
     DREAL_ASSERT(is_relational(query));
-    const FilterAssertionResult result{FilterAssertion(query, &box)};
-    if (result == FilterAssertionResult::NotFiltered) {
+    if (!filtered(query)) {
       formulas.push_back(query);
     }
   }
-- 
2.43.0


From 22cdfa34b870102425db6c1947f768a795e2645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 46/46] fix: refuse a domain for a variable which is not
 declared

---
 dreal/solver/context_impl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 210e2be..46e275e 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -396,6 +396,9 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
+  if (!box().has_variable(v)) {
+    throw DREAL_RUNTIME_ERROR("Variable {} is not declared.", v);
+  }
   const Box::Interval interval{lb, ub};
   if (!interval.is_subset(box()[v])) {
     // The learned clauses hold for the values in the current box. They may not
-- 
2.43.0

