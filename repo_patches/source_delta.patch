From 6834d3110bc3ee70c118cf55b0da89d9422a66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:57 +0000
Subject: [PATCH 01/51] fix: saturations keep their own copy of the
 early-termination callback

The callback was held by reference, which dangles when the solver is handed a
lambda (the std::function it is converted to dies with the constructor call).
---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..db286a6 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -113,7 +113,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -355,7 +355,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -525,7 +525,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 3d641cd5632c2a0ec687dbd89c2023b01462be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:14 +0000
Subject: [PATCH 02/51] fix: initialise the best weight of P-automaton states

An initial state that accepts the empty stack never gets a back edge, so the
shortest-path query reported an uninitialised weight for it.
---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..7b5da40 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{}; // Zero for initial states, which never get a back edge.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From 27d53f13b9ef436f2c97bca84b3aca949115606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:24 +0000
Subject: [PATCH 03/51] fix: shortest pre* and dual* build the initial product
 with shortest-trace bookkeeping

---
 src/include/pdaaal/Solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..84bb3fe 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
-- 
2.43.0


From c9314f57b924d9dc10a7344d74fa3695a01e627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 04/51] fix: shortest pre* updates the trace of an edge
 together with its weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index db286a6..fe9b439 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -194,7 +194,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
+                        it->second = std::make_pair(trace, std::move(weight)); // The trace must belong to the improved weight.
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
                 }
-- 
2.43.0


From 1368a7b543ecf8df2e69614271d7914390c1efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 05/51] fix: shortest pre* gives accepting states distance zero

---
 src/include/pdaaal/internal/PdaSaturation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index fe9b439..952425c 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -176,7 +176,12 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
-                if(from->_accepting) add_pop(from->_id);
+                if(from->_accepting) {
+                    if constexpr (W::is_weight && SHORTEST) {
+                        _minpath[from->_id] = solver_weight::zero(); // The empty stack is accepted here.
+                    }
+                    add_pop(from->_id);
+                }
             }
         }
 
-- 
2.43.0


From bb5f798f3c814d0a87ff9eda20db066bd1fc47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 06/51] fix: shortest pre* does not index popped states out of
 bounds

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 952425c..d219d46 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -244,7 +244,7 @@ namespace pdaaal::internal {
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
+                if(t._from < _n_pda_states && !_popped[t._from])
                     _minpath[t._from] = t._weight;
                 if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
                     return;
-- 
2.43.0


From 3dbf1079a436830077d4e0e62395192b527e8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 07/51] fix: shortest searches report acceptance found after
 the last early-termination test

---
 src/include/pdaaal/Solver.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 84bb3fe..e095b69 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -105,8 +105,7 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
-                return false;
+                ) || instance.product_automaton().has_accepting_state(); // Early termination may never trigger, if the best accepting weight exceeds the weights in the search.
             }
             else
             {
@@ -188,7 +187,7 @@ namespace pdaaal {
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
-                   });
+                   }) || instance.product_automaton().has_accepting_state(); // Early termination may never trigger, if the best accepting weight exceeds the weights in the search.
             }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
@@ -221,7 +220,7 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                return saturation.run() || instance.product_automaton().has_accepting_state(); // Early termination may never trigger, if the best accepting weight exceeds the weights in the search.
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From 2424bc79c92849da4cef64d30a5734ba61562ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:42 +0000
Subject: [PATCH 08/51] fix: comparing weight vectors of different length stays
 within bounds

---
 src/include/pdaaal/Weight.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..b0556e7 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -174,13 +174,9 @@ namespace pdaaal {
                 if constexpr (!maximize && !is_signed) {
                     return lhs < rhs;
                 } else {
-                    auto f1 = lhs.begin(), f2 = rhs.begin();
-                    auto l1 = lhs.end(), l2 = rhs.end();
-                    bool exhaust1 = (f1 == l1);
-                    bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
-                        auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
-                        auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
+                    for (size_t i = 0; i < std::max(lhs.size(), rhs.size()); ++i) {
+                        auto v1 = i < lhs.size() ? lhs[i] : weight<Inner>::zero(); // Missing elements are implicitly zero.
+                        auto v2 = i < rhs.size() ? rhs[i] : weight<Inner>::zero();
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
                         if (weight_impl<Inner, maximize>::less(v2, v1)) return false;
                         // if (auto c = weight<Inner, maximize>::compare(v1, v2); c != 0) return c;
-- 
2.43.0


From 727c1b17603b374c2843bcdd438614e61f0b0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:42 +0000
Subject: [PATCH 09/51] fix: infinite weight vectors are absorbing under
 addition

---
 src/include/pdaaal/Weight.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index b0556e7..4d8f7d6 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -185,6 +185,10 @@ namespace pdaaal {
                 }
             }
             static constexpr type add(const type& lhs, const type& rhs) {
+                if (lhs == max() || rhs == max()) return max();
+                if constexpr (maximize || is_signed) { // For unsigned minimization, bottom is just zero.
+                    if (lhs == bottom() || rhs == bottom()) return bottom();
+                }
                 const auto& [small, large] = std::minmax(lhs, rhs, [](const type& l, const type& r){ return l.size() < r.size(); });
                 std::vector<Inner> result = large;
                 std::transform(small.begin(), small.end(), large.begin(),
-- 
2.43.0


From 5222d6c54881ba1c4aefe017a0190393ba791298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:49 +0000
Subject: [PATCH 10/51] fix: fixed-point round limit lets the last allowed
 round complete

---
 src/include/pdaaal/utils/workset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..48e5c6f 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -74,7 +74,7 @@ namespace pdaaal {
             }
         }
         [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
+            return _done || _rounds > _round_limit; // _rounds includes the current round, which is not completed yet.
         }
         void run() {
             while(!done()) {
-- 
2.43.0


From 11200002cc4117e1da16f74c7fbb8e13d035bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 11/51] fix: fixed-point paths may contain epsilon edges

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..d078374 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,7 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
+                assert(_states[state].predecessor != uninitialized_state); // The label may be epsilon.
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +163,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From 0f92e10b4ebd168e0432f653233f2033fa17c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:09 +0000
Subject: [PATCH 12/51] fix: adding integer weights saturates instead of
 overflowing

---
 src/include/pdaaal/Weight.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 4d8f7d6..dd69307 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -136,6 +136,12 @@ namespace pdaaal {
                 if constexpr (bottom_val != 0) {
                     if (lhs == bottom_val || rhs == bottom_val) return bottom_val;
                 }
+                if constexpr (std::is_integral_v<type>) { // Saturate instead of overflowing.
+                    constexpr type highest = maximize ? bottom_val : max_val - 1;
+                    constexpr type lowest = maximize ? (is_signed ? max_val + 1 : 0) : bottom_val;
+                    if (rhs > 0 && lhs > highest - rhs) return highest;
+                    if (rhs < 0 && lhs < lowest - rhs) return lowest;
+                }
                 return lhs + rhs;
             };
         };
-- 
2.43.0


From 53a8bb4ade9ee0e10bb8c97f8f963222e1a98783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 13/51] fix: pre* finds all rules into a state, also those with
 negative weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index d219d46..5330fbe 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -33,6 +33,12 @@
 namespace pdaaal::internal {
     constexpr auto epsilon = std::numeric_limits<uint32_t>::max();
 
+    // Rules are sorted by their to-state first. Find the first one going to the given state (whatever its label, operation and weight).
+    template <typename rules_t>
+    auto first_rule_to(const rules_t& rules, size_t to) {
+        return std::lower_bound(rules.begin(), rules.end(), to, [](const auto& elem, size_t state){ return elem.first._to < state; });
+    }
+
     struct temp_edge_t {
         size_t _from = std::numeric_limits<size_t>::max();
         size_t _to = std::numeric_limits<size_t>::max();
@@ -139,7 +145,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = first_rule_to(rules, state);
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -271,7 +277,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -805,7 +811,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = first_rule_to(rules, state);
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -857,7 +863,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 536bc59ae6ddecd0739bf8f081ac44c40b44babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 14/51] fix: a weight whose most significant element is
 infinite is infinite

---
 src/include/pdaaal/Weight.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index dd69307..f8b41eb 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -164,6 +164,9 @@ namespace pdaaal {
                 for (size_t i = 0; i < N; ++i) {
                     res[i] = weight_impl<Inner, maximize>::add(lhs[i], rhs[i]);
                 }
+                if constexpr (N > 0 && (maximize || weight<Inner>::is_signed)) { // If the most significant element is infinite, so is the whole.
+                    if (res[0] == weight_impl<Inner, maximize>::bottom()) return bottom();
+                }
                 return res;
             };
         };
@@ -199,6 +202,9 @@ namespace pdaaal {
                 std::vector<Inner> result = large;
                 std::transform(small.begin(), small.end(), large.begin(),
                                result.begin(), weight_impl<Inner, maximize>::add);
+                if constexpr (maximize || is_signed) { // If the most significant element is infinite, so is the whole.
+                    if (!result.empty() && result[0] == weight_impl<Inner, maximize>::bottom()) return bottom();
+                }
                 return result;
             };
         };
-- 
2.43.0


From 1d321871686363b55cae00a79d0aa4b13c2187da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:03 +0000
Subject: [PATCH 15/51] fix: pre* without early termination can be instantiated

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index e095b69..840a902 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -247,7 +247,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From cc170f20be54033694187d6f2db2712b052e5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 16/51] fix: labels leading to an NFA state are collected per
 edge

The scratch vector kept the labels of earlier edges, so the union was taken of unsorted input:
labels came out duplicated or unsorted, and the early exit could drop labels.
---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..ad20498 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From 7c02b73ea95ec2a16269a2a0ffe3a5c7b72136d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 17/51] fix: assigning to an NFA replaces its previous language

Copy assignment appended the states of the source to those already there.
---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index ad20498..8ed1120 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -292,6 +292,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From 689a171f6a9b3ace57250e432a1ec2146e217d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:48 +0000
Subject: [PATCH 18/51] fix: ? and * on an NFA only add the empty word

The initial states were made accepting even when a path leads back to them, so ([a]+ [b])? and
([a]* [b])* accepted "a"; and an NFA for the empty language stayed empty.
---
 src/include/pdaaal/NFA.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 8ed1120..1c63114 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -335,6 +335,7 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            fresh_initial();
             for(auto s : _initial) {
                 if(!s->_accepting) {
                     s->_accepting = true;
@@ -361,8 +362,8 @@ namespace pdaaal {
         }
 
         void star_extend() {
-            plus_extend();
             question_extend();
+            plus_extend();
         }
 
         void and_extend(NFA&& other) {
@@ -433,6 +434,18 @@ namespace pdaaal {
         const std::vector<std::unique_ptr<state_t>>& states() { return _states; }
         
     private:
+        // Ensures that there is an initial state and that no path leads back to an initial state,
+        // so that initial states can be made accepting without accepting other words than the empty one.
+        void fresh_initial() {
+            if (!_initial.empty() && std::all_of(_initial.begin(), _initial.end(), [](const state_t* s){ return s->_backedges.empty(); })) return;
+            _states.emplace_back(std::make_unique<state_t>(false));
+            auto initial = _states.back().get();
+            for(auto& i : _initial) {
+                initial->add_epsilon_edge(i);
+            }
+            _initial = {initial};
+        }
+
         const static std::vector<state_t*> empty;
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t*> _initial;
-- 
2.43.0


From 5ee26be93c45855d04b7ba443a9713b3570fa394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 19/51] fix: a regular expression with a dangling '|' is a
 parse error

The action of the separator had already run when the expression after it turned out to be missing,
so the builder popped from an empty stack.
---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From 113ed0171667207fec9c4e33a997d2df7fc272ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 20/51] fix: extreme floating-point weights are the lowest
 values

numeric_limits::min() is the smallest positive floating-point number, so for double weights the
bottom element was worse than zero and sums with it were wrong.
---
 src/include/pdaaal/Weight.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index f8b41eb..76be3f8 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -114,8 +114,8 @@ namespace pdaaal {
             static constexpr bool is_signed = parent_t::is_signed;
         private:
             static constexpr type bottom_val = maximize ? std::numeric_limits<type>::max() - (is_signed ? 0 : 1)
-                                                        : std::numeric_limits<type>::min();
-            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::min()
+                                                        : std::numeric_limits<type>::lowest();
+            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::lowest()
                                                                     : std::numeric_limits<type>::max();
         public:
             static constexpr auto bottom = []() -> type { return bottom_val; };
-- 
2.43.0


From 65e7056a46f03c1c3403efb55192b0881377bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 21/51] fix: linear weight functions accumulate in the weight
 type

The sum was accumulated in an int, which truncates floating-point and 64-bit weights.
---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 76be3f8..21d51e7 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -234,7 +234,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From 7270a4090ebc026669eb502151226c5be6ff5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 22/51] fix: insert_or_assign on tuple sets without a value can
 be instantiated

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From f67ccc9af63173ac0535e03785aa5d496a902e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:03 +0000
Subject: [PATCH 23/51] fix: reduction keeps the rules leading to the terminal
 state

---
 src/include/pdaaal/internal/Reducer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..55cfb56 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -137,7 +137,7 @@ namespace pdaaal::internal {
             }
             // DO PRUNING!
             for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+                if(i == initial_id || i == terminal_id) continue; // Clearing the terminal would remove the rules leading to it.
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
-- 
2.43.0


From 3d5581c5de99ec868050782c066772c2dbf12009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:43 +0000
Subject: [PATCH 24/51] fix: rule traces without rules, without a run and of
 weighted rules

---
 src/include/pdaaal/Solver.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 840a902..5b47fb4 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -316,15 +316,16 @@ namespace pdaaal {
         template <Trace_Type trace_type = Trace_Type::Any, bool use_dual=false, typename pda_t, typename automaton_t, typename W>
         static auto get_rule_trace_and_paths(const PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
+            [[maybe_unused]] const bool post = &instance.automaton() == &instance.initial_automaton(); // A trace without rules does not tell whether it is from post* or pre*.
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, post), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, post);
             }
         }
 
@@ -398,7 +399,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post) { // Whether it is A_post*
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -418,9 +420,9 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                return std::make_tuple(start_path.front(), std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -440,20 +442,20 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            return std::make_tuple(initial_path.front(), std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 6a61034b6ba90754d4788452b7dc92c7e8d88b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 25/51] fix: traces name the rule that was used, not another
 rule pushing the same label

---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 5330fbe..e86b616 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1163,7 +1163,8 @@ namespace pdaaal::internal {
                             break;
                     }
                     assert(from == rule._to);
-                    return rule_t(trace_label._state, trace_label._label, rule);
+                    // For PUSH trace_label is now that of the second edge, which tells the rule used (the first edge is shared by all rules pushing this label).
+                    return rule_t(trace_label._state, trace_label._label, _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                 }
             }
         }
-- 
2.43.0


From 534a0f59a1f4b742d7f9b9736aa6a9e814f0f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 26/51] fix: an automaton saturated by post* accepts
 configurations with empty stack, and traces of configurations not accepted
 are empty

---
 src/include/pdaaal/Solver.h              | 17 ++++++++++----
 src/include/pdaaal/internal/PAutomaton.h | 30 ++++++++++++++++++++----
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 5b47fb4..9c16f5d 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -335,10 +335,10 @@ namespace pdaaal {
             auto stack_native = pda.encode_pre(stack);
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _to_automaton_path(state, path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _to_automaton_path(state, path, stack_native));
             }
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename T, typename W, typename = std::enable_if_t<!std::is_same_v<T,uint32_t>>>
@@ -346,14 +346,23 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _to_automaton_path(state, path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _to_automaton_path(state, path, stack_native));
             }
         }
 
     private:
+        static AutomatonPath<> _to_automaton_path(size_t state, const std::vector<size_t>& path, const std::vector<uint32_t>& stack) {
+            if (path.empty()) return AutomatonPath<>(); // Not accepted.
+            AutomatonPath<> automaton_path(path, stack);
+            if (path.front() != state) {
+                automaton_path.emplace(state, std::numeric_limits<uint32_t>::max()); // The path starts with an epsilon edge (added by post*).
+            }
+            return automaton_path;
+        }
+
         template <typename T, typename W, typename S, bool ssm>
         static typename PDA<T,W,fut::type::vector,S,ssm>::tracestate_t
         _decode_edges(const PDA<T,W,fut::type::vector,S,ssm> &pda, const AutomatonPath<>& path) {
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 7b5da40..462106c 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -509,7 +509,7 @@ namespace pdaaal::internal {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
             if (stack.empty()) {
-                return _states[state]->_accepting;
+                return accepting_by_epsilon(state).has_value();
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
@@ -532,14 +532,16 @@ namespace pdaaal::internal {
             return false;
         }
 
+        // Returns the states of an accepting path of the given stack. (Empty if there is none.)
+        // If the path starts with an epsilon edge (added by post*), then the first state is the target of that edge.
         template<Trace_Type trace_type = Trace_Type::Any>
         [[nodiscard]] typename std::conditional_t<trace_type == Trace_Type::Shortest && is_weighted<W>,
                 std::pair<std::vector<size_t>, typename W::type>, std::vector<size_t>>
         accept_path(size_t state, const std::vector<uint32_t> &stack) const {
             if constexpr (trace_type == Trace_Type::Shortest && is_weighted<W>) { // TODO: Consider unweighted shortest path.
                 if (stack.empty()) {
-                    if (_states[state]->_accepting) {
-                        return std::make_pair(std::vector<size_t>{state}, W::zero());
+                    if (auto accepting = accepting_by_epsilon<trace_type>(state); accepting) {
+                        return std::make_pair(std::vector<size_t>{*accepting}, *accepting == state ? W::zero() : _states[state]->_edges.get(*accepting, epsilon)->second);
                     } else {
                         return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
                     }
@@ -613,8 +615,8 @@ namespace pdaaal::internal {
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
             } else {
                 if (stack.empty()) {
-                    if (_states[state]->_accepting) {
-                        return std::vector<size_t>{state};
+                    if (auto accepting = accepting_by_epsilon(state); accepting) {
+                        return std::vector<size_t>{*accepting};
                     } else {
                         return std::vector<size_t>();
                     }
@@ -889,6 +891,24 @@ namespace pdaaal::internal {
             }
         }
     private:
+        // The state itself, if it is accepting, or otherwise an accepting state following it by an epsilon edge. (With least weight, if trace_type is Shortest.)
+        template<Trace_Type trace_type = Trace_Type::Any>
+        [[nodiscard]] std::optional<size_t> accepting_by_epsilon(size_t state) const {
+            if (_states[state]->_accepting) return state;
+            std::optional<size_t> result;
+            for (const auto& [to,labels] : _states[state]->_edges) {
+                if (!_states[to]->_accepting || !labels.contains(epsilon)) continue;
+                if constexpr (trace_type == Trace_Type::Shortest && is_weighted<W>) {
+                    if (!result || solver_weight<W,trace_type>::less(labels.get(epsilon)->second, _states[state]->_edges.get(*result, epsilon)->second)) {
+                        result = to;
+                    }
+                } else {
+                    return to;
+                }
+            }
+            return result;
+        }
+
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t *> _initial;
         std::vector<state_t *> _accepting;
-- 
2.43.0


From 9513100b4fb7efd17b647582098f14d74a680dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:30 +0000
Subject: [PATCH 27/51] fix: shortest pre* without early termination uses the
 edge weights

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index e86b616..bc5b88d 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -233,7 +233,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
-- 
2.43.0


From 0517b9f243dc352da3651968a31ea7e48aea67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:09 +0000
Subject: [PATCH 28/51] fix: automata over labels whose ids are not in label
 order

---
 src/include/pdaaal/PAutomaton.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..708d2bb 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -52,7 +52,11 @@ namespace pdaaal {
         // Construct a PAutomaton that accepts a configuration <p,w> iff states contains p and nfa accepts w.
         PAutomaton(const pda_t& pda, const NFA<label_t>& nfa, const std::vector<size_t>& states)
         : parent_t(static_cast<const internal_pda_t&>(pda), states, nfa.empty_accept()), _pda(pda) {
-            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre(e._symbols); });
+            this->template construct<label_t>(nfa, states, [&pda](const auto& e){
+                auto labels = pda.encode_pre(e._symbols);
+                std::sort(labels.begin(), labels.end()); // The order of label ids may differ from the order of labels.
+                return labels;
+            });
         }
         // Same, but where the NFA contains the symbols mapped to ids already.
         PAutomaton(const pda_t& pda, const NFA<uint32_t>& nfa, const std::vector<size_t>& states)
-- 
2.43.0


From 7c1a31fcb1ae4d9909a1ed46696681cd620e7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 29/51] fix: abstract edges of negated label sets exclude
 exactly the fully excluded abstract labels

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From 17deb28d36fc39679fe0baafe9b9e8f4dca74583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 30/51] fix: factories create the initial and accepting states
 no rule mentions

---
 src/include/pdaaal/PDAFactory.h   | 3 +++
 src/include/pdaaal/internal/PDA.h | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..72584df 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -57,6 +57,9 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            // Initial and accepting states exist in the PDA, even if no rule uses them.
+            for (auto s : initial()) _temp_pda.add_state(s);
+            for (auto s : accepting()) _temp_pda.add_state(s);
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..ca845ed 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -287,14 +287,14 @@ namespace pdaaal::internal {
             add_untyped_rule_impl(rule._from, rule.to_impl_rule(), true, std::vector<uint32_t>());
         }
 
-    protected:
-        // Derived classes may want to add empty states.
+        // Derived classes (and factories) may want to add empty states.
         void add_state(size_t s) {
             if (s >= _states.size()) {
                 _states.resize(s + 1);
             }
         }
 
+    protected:
         // Handle both weighted and unweighted rules appropriately.
         template <typename... Args>
         void add_untyped_rule(Args&&... args) {
-- 
2.43.0


From 86716f05a897e34d315081320b7417bc3799bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:28 +0000
Subject: [PATCH 31/51] fix: indexed states of a JSON file exist also when no
 rule mentions them

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..70d8eb8 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -435,6 +435,7 @@ namespace pdaaal::parsing {
             switch (current_context_type()) {
                 case context_type::state:
                     if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also states that no rule mentions.
                         ++current_from_state;
                     }
                     break;
-- 
2.43.0


From 64fdf192cf760e8b11b7c1083a7d6290f50f0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:37 +0000
Subject: [PATCH 32/51] fix: additional properties of a JSON file may hold
 several values

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 70d8eb8..007965c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -187,6 +187,13 @@ namespace pdaaal::parsing {
                 last_key = keys::pda;
             }
         }
+        bool element_done() {
+            parent_t::element_done();
+            if (!no_context() && current_context_type() == context_type::unknown) {
+                last_key = keys::unknown; // Everything inside an unknown value is ignored.
+            }
+            return true;
+        }
     public:
 
         explicit PdaSaxHandler(std::ostream& errors = std::cerr) : parent_t(errors) { init(); };
-- 
2.43.0


From 3e7f42abe9fdb91fb074245a3ce3486bc8e4cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 33/51] fix: a single number as the weight of a vector-weighted
 rule is an error, not zero

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 007965c..b545584 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -272,8 +272,10 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
+                    } else {
+                        return error_unexpected("unsigned", value);
                     }
-                    break;
                 case keys::unknown:
                     break;
                 default:
-- 
2.43.0


From cfbfc63a539700410146e86599935b1390a0a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 34/51] fix: a pop with a label is an error instead of a failed
 assertion

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index b545584..0610e96 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -300,7 +300,9 @@ namespace pdaaal::parsing {
                         return false;
                     }
                 case keys::pop:
-                    assert(value.empty()); // TODO: Should this be error?
+                    if (!value.empty()) {
+                        return error_unexpected("string", value, "A pop takes the empty string.");
+                    }
                     current_rule._operation = op_t::POP;
                     current_rule._op_label = std::numeric_limits<uint32_t>::max();
                     break;
-- 
2.43.0


From de4288b98ca5250aadf96facac7ae67b8f729b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:46 +0000
Subject: [PATCH 35/51] fix: nested arrays of states, rules or weights are an
 error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 0610e96..fe11227 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -470,6 +470,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (current_context().is_array()) { // Arrays of states, rules or weights do not contain arrays.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From 1ff6f0b33b85f761d62289cc21cc3e1d927d4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:50 +0000
Subject: [PATCH 36/51] fix: the largest state number is an error instead of an
 out-of-bounds access

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index fe11227..9bf7d9b 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -262,6 +262,10 @@ namespace pdaaal::parsing {
                         errors() << "error: Rule destination was numeric: " << value << ", but string state names are used." << std::endl;
                         return false;
                     } else {
+                        if (value >= std::numeric_limits<size_t>::max()) {
+                            errors() << "error: State number " << value << " is too large. Maximum value is: " << std::numeric_limits<size_t>::max()-1 << std::endl;
+                            return false;
+                        }
                         current_rule._to = value;
                         break;
                     }
-- 
2.43.0


From 2385de4b796d8c293b4d4f0019ad771950936859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 37/51] fix: printed automata list their initial and accepting
 states also when there are none

---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index 708d2bb..9de608d 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -143,6 +143,10 @@ namespace pdaaal {
     void to_json_impl(json& j, const PAutomaton<label_t,W,state_t,skip_state_mapping,trace_info_type>& automaton) {
         j = json::object();
         size_t num_pda_states = automaton.pda().states().size();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
+        j["accepting"] = json::array();
         json j_edges = json::array();
         for (const auto& state : automaton.states()) {
             json j_from;
-- 
2.43.0


From d3a3bc6601bd41fdc97c856c34102d64f3df2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:05 +0000
Subject: [PATCH 38/51] fix: automata in JSON may have both named and numbered
 extra states

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..1c8b6da 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,7 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_name_map;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -172,7 +173,14 @@ namespace pdaaal::parsing {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
                 auto [exists, id] = automaton.exists_state(state);
                 if (!exists) {
+                    if (auto it = extra_name_map.find(state); it != extra_name_map.end()) {
+                        return it->second;
+                    }
                     id = automaton.add_state(false, false); // accepting is set later.
+                    if (!extra_state_map.empty()) { // The automaton can only record names of states added before any unnamed state.
+                        extra_name_map.emplace(state,id);
+                        return id;
+                    }
 #ifndef NDEBUG
                     auto id2 =
 #endif
-- 
2.43.0


From 885c5309ce0b7dd2fa4e9710470244baf2fbeb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 39/51] fix: an automaton file holding just a number is an
 error instead of undefined behaviour

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 1c8b6da..0e7ecb2 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -207,6 +207,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
-- 
2.43.0


From 0e08fa5faf71f6fd948d2b793d1e99103faec62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 40/51] fix: an automaton edge with fewer than three elements
 is an error instead of a failed assertion

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 0e7ecb2..099f087 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -388,6 +388,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From 76f035d37d702d5a47ba097e484143b91eb1efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 41/51] fix: nested arrays in automaton files are an error

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 099f087..28c5aaf 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -365,6 +365,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context().is_array()) {
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
-- 
2.43.0


From c2f523d357b57475e7b7989ff031e48e524fce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 42/51] fix: a quoted state that is not in the PDA is an error
 also in automaton text

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..a643527 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -41,8 +41,10 @@ namespace pdaaal::parsing {
         template<typename ParseInput, typename... States >
         explicit string_state(const ParseInput&, States&&...) { }
         template<typename ParseInput, typename... States >
-        void success(const ParseInput&, States&&... st) {
-            (st.accept_string(*this), ...);
+        void success(const ParseInput& in, States&&... st) {
+            if (!(st.accept_string(*this) && ...)) {
+                throw pegtl::parse_error("state is not found in the PDA.", in);
+            }
         }
     };
     struct string_literal : pegtl::state<string_state, pegtl::one< '"' >, pegtl::until< pegtl::one< '"' >, character > > {};
@@ -83,8 +85,8 @@ namespace pdaaal::parsing {
             }
             return found;
         }
-        void accept_string(const std::string& s) {
-            add_state(s);
+        bool accept_string(const std::string& s) {
+            return add_state(s);
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From cd63bc2f99d15d1e32f1dae3e89a046518effbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 43/51] fix: text after a quoted state index is an error

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index a643527..a4f9171 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -165,7 +165,14 @@ namespace pdaaal::parsing {
         }
         template <TraceInfoType trace_info_type, typename Input, typename W, bool ssm>
         static PAutomaton<std::string,W,size_t,ssm,trace_info_type> parse(Input& in, PDA<std::string,W,fut::type::vector, size_t, ssm>& pda) {
-            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t { return std::stoul(s); });
+            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t {
+                size_t length = 0;
+                auto state = std::stoul(s, &length);
+                if (length != s.size()) {
+                    throw std::invalid_argument("\"" + s + "\" is not a state index.");
+                }
+                return state;
+            });
         }
         template <TraceInfoType trace_info_type, typename state_t, typename Input, typename pda_t>
         static auto parse(Input& in, pda_t& pda, const std::function<state_t(const std::string&)>& state_mapping) {
-- 
2.43.0


From f7e76fddb46930b29fc21fe4ea586ca25d1263b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 44/51] fix: the length in a weight type of an instance file
 can be given

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 9bf7d9b..e8c0f22 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -590,7 +590,6 @@ namespace pdaaal::parsing {
                 print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
             return true;
         }
 
-- 
2.43.0


From 562acb4b49e0b198426dc3e330ee49a011eaabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 45/51] fix: a number as first element of an instance is an
 error instead of undefined behaviour

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index e8c0f22..12061b4 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -674,7 +674,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
-- 
2.43.0


From 35ad80bbb66d08acb20bc53788af032f41db8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 46/51] fix: an unknown or missing weight type of an instance
 is an error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 12061b4..0e64378 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -640,6 +640,10 @@ namespace pdaaal::parsing {
             }
         }
 
+        static bool is_weight_type(const string_t& value) {
+            return value == "none" || value == "uint" || value == "int";
+        }
+
         std::string weight_str;
         bool use_state_names = false;
         bool use_weight_array = false;
@@ -690,10 +694,12 @@ namespace pdaaal::parsing {
             }
             if (current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,0>(value)) return false;
+                if (!is_weight_type(value)) return error_unexpected("string", value, "Unknown weight type.");
                 weight_str = value;
                 return element_done();
             }
             if (last_key == keys::weight_type) {
+                if (!is_weight_type(value)) return error_unexpected("string", value, "Unknown weight type.");
                 weight_str = value;
                 return element_done();
             }
@@ -753,6 +759,10 @@ namespace pdaaal::parsing {
                 errors() << "error: Unexpected end of array." << std::endl;
                 return false;
             }
+            if (weight_str.empty()) {
+                errors() << "error: Missing weight type in weight-type array." << std::endl;
+                return false;
+            }
             pop_context();
             return element_done();
         }
-- 
2.43.0


From 36ba654b062f35e483726652942099ccb75a34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 47/51] fix: nested arrays in instance files are an error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h            | 2 +-
 src/pdaaal-bin/parsing/SolverInstanceJsonParser.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 0e64378..0fbfb42 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -747,7 +747,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::weight_type) {
+            if (last_key == keys::weight_type && current_context().is_object()) {
                 push_context(weight_array_context);
                 use_weight_array = true;
                 return true;
diff --git a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
index 58aab77..5b4dcbf 100644
--- a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
+++ b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
@@ -213,7 +213,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::instance) {
+            if (last_key == keys::instance && current_context().is_object()) {
                 push_context(instance_context);
                 return false; // Trigger callback.
             }
-- 
2.43.0


From 5f9c1628505fada9b3353e6089521d49c69fb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 48/51] fix: asking for an optimal trace of an unweighted
 system is an error, not a failed assertion

---
 src/pdaaal-bin/Verifier.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/pdaaal-bin/Verifier.h b/src/pdaaal-bin/Verifier.h
index 8c9cd57..c2bf0cf 100644
--- a/src/pdaaal-bin/Verifier.h
+++ b/src/pdaaal-bin/Verifier.h
@@ -120,7 +120,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -155,7 +154,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -188,7 +186,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -238,7 +235,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
@@ -273,7 +269,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
@@ -311,7 +306,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
-- 
2.43.0


From 196d8ccd72083ee705463e8195c3ecb7d484bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:39 +0000
Subject: [PATCH 49/51] fix: keys are escaped in printed JSON

---
 src/pdaaal-bin/utils/json_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/utils/json_stream.h b/src/pdaaal-bin/utils/json_stream.h
index 7bf3db6..d60050e 100644
--- a/src/pdaaal-bin/utils/json_stream.h
+++ b/src/pdaaal-bin/utils/json_stream.h
@@ -93,7 +93,7 @@ private:
         } else {
             _out << ',' << std::endl;
         }
-        return indent() << "\"" << key << "\" : ";
+        return indent() << json(key).dump() << " : ";
     }
 
     bool _started = false;
-- 
2.43.0


From 94486c53d238e050b72e66be475edf64d5f8646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 50/51] fix: traces through a product whose other automaton has
 epsilon edges

---
 src/include/pdaaal/internal/PdaSaturation.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index bc5b88d..d761baa 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1100,6 +1100,14 @@ namespace pdaaal::internal {
         auto get_trace_label(size_t from, uint32_t label, size_t to) const {
             return to_trace_label<avoid_loop>(_automaton.get_trace_label(from, label, to));
         }
+        // A path through a product stays in the same state here, when it follows an epsilon edge of the other automaton.
+        void pop_other_epsilon() {
+            while (!_path.empty()) {
+                auto [from, label, to] = _path.front_edge();
+                if (label != p_automaton_t::epsilon || from != to) break;
+                _path.pop();
+            }
+        }
 
     public:
         [[nodiscard]] bool post() const { return _post; }
@@ -1114,6 +1122,7 @@ namespace pdaaal::internal {
         template <bool avoid_loop = false>
         std::optional<rule_t> next() {
             while(true) { // In case of post_epsilon_trace, keep going until a rule is found, or we are done.
+                pop_other_epsilon();
                 if (_path.empty()) return std::nullopt;
                 auto [from, label, to] = _path.front_edge();
                 trace_t trace_label = get_trace_label<avoid_loop>(from, label, to);
@@ -1155,6 +1164,7 @@ namespace pdaaal::internal {
                             _path.emplace(trace_label._state, trace_label._label);
                             break;
                         case PUSH:
+                            pop_other_epsilon();
                             auto[from2, label2, to2] = _path.front_edge();
                             _path.pop();
                             trace_label = get_trace_label<avoid_loop>(from2, label2, to2);
-- 
2.43.0


From 8fa7e02cbdcd3aa329968f03f3aab6789a158628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:14 +0000
Subject: [PATCH 51/51] fix: automaton files of the older format with edges to
 states listed later

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 28c5aaf..15bfd8d 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -511,6 +511,9 @@ namespace pdaaal::parsing {
                 return id;
             };
 
+            iterate_states([&state_to_id](const state_t& state, const json&){
+                state_to_id(state); // Add all states in order first, since edges can lead to any of them.
+            });
             iterate_states([&state_to_id,&automaton,&state_mapping,&pda](const state_t& state, const json& j_state){
                 size_t from = state_to_id(state);
                 for (const auto& edge : j_state["edges"]) {
-- 
2.43.0

