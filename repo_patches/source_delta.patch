From 9d9e68ac606dde950f48811a3051815a82e129b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 01/13] fix: apply the resets of a transition simultaneously in
 zones

Zone::applyResets and Zone::revertResets processed clock copies one after
another, while the execution of a timed automaton assigns simultaneously.
---
 include/zone.hh | 88 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..d362c3d 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -22,6 +22,34 @@ namespace learnta {
     @note internally, the variable 0 is used for the constant while externally, the actual clock variable is 0 origin, i.e., the variable 0 for the user is the variable 1 internally. So, we need increment or decrement to fill the gap.
   */
   struct Zone {
+  private:
+    /*!
+     * @brief Make the vectors representing the given simultaneous assignment
+     *
+     * The value of the i-th internal variable after the assignment is the sum of the value of the first[i]-th internal
+     * variable before it and second[i].
+     */
+    [[nodiscard]] std::pair<std::vector<Eigen::Index>, std::vector<double>>
+    makeAssignment(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<Eigen::Index> sources(this->value.cols());
+      std::vector<double> constants(this->value.cols(), 0);
+      for (std::size_t i = 0; i < sources.size(); ++i) {
+        sources.at(i) = static_cast<Eigen::Index>(i);
+      }
+      for (const auto &[resetVariable, updatedVariable]: resets) {
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+          constants.at(resetVariable + 1) = 0;
+        } else {
+          sources.at(resetVariable + 1) = 0;
+          constants.at(resetVariable + 1) = std::get<double>(updatedVariable);
+        }
+      }
+
+      return {sources, constants};
+    }
+
+  public:
     //! @brief The matrix representing the DBM
     Eigen::Matrix <Bounds, Eigen::Dynamic, Eigen::Dynamic> value;
     //! @brief The threshold for the normalization
@@ -129,25 +157,29 @@ namespace learnta {
       }
     }
 
+    /*!
+     * @brief Assign the strongest post-condition of the reset
+     *
+     * The assignments are simultaneous, i.e., the right-hand sides refer to the valuation before the reset.
+     */
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
-        }
+      if (resets.empty()) {
+        return;
       }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+      if (!this->isSatisfiable()) {
+        this->makeUnsat();
+        return;
+      }
+      const auto [sources, constants] = this->makeAssignment(resets);
+      auto old = this->value;
+      old.diagonal().fill(Bounds{0, true});
+      for (Eigen::Index i = 0; i < old.rows(); ++i) {
+        for (Eigen::Index j = 0; j < old.cols(); ++j) {
+          // x_i - x_j after the reset is x_{sources[i]} - x_{sources[j]} + constants[i] - constants[j] before it
+          this->value(i, j) = old(sources.at(i), sources.at(j)) + Bounds{constants.at(i) - constants.at(j), true};
         }
       }
+      canonize();
     }
 
     /*!
@@ -156,24 +188,20 @@ namespace learnta {
      * In addition to unconstrain the updated variables, we use the renaming information
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
-        }
+      if (resets.empty()) {
+        return;
       }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      const auto [sources, constants] = this->makeAssignment(resets);
+      const auto old = this->value;
+      this->value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (Eigen::Index i = 0; i < old.rows(); ++i) {
+        for (Eigen::Index j = 0; j < old.cols(); ++j) {
+          // Any bound of x_i - x_j after the reset bounds the corresponding variables before it
+          auto &bound = this->value(sources.at(i), sources.at(j));
+          bound = std::min(bound, old(i, j) + Bounds{constants.at(j) - constants.at(i), true});
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 91d009f657fdc2fa9dc2d8b1537988c19580f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 02/13] fix: propagate the extrapolation constants through
 clock copies

The zone construction extrapolated each clock with its own maximum constant
only, although x := y makes the constants of x relevant for y.
---
 src/ta2za.cc | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 0ea33f1..8f0c995 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -5,6 +5,36 @@
 
 namespace learnta {
 
+  /*!
+   * @brief Make the maximum constants for the extrapolation
+   *
+   * The value of a clock is relevant up to the maximum constants of the clocks it may be copied to.
+   */
+  static std::vector<int> makeExtrapolationConstants(const TimedAutomaton &TA) {
+    auto maxConstants = TA.maxConstraints;
+    bool updated = true;
+    while (updated) {
+      updated = false;
+      for (const auto &state: TA.states) {
+        for (const auto &[action, transitions]: state->next) {
+          for (const auto &transition: transitions) {
+            for (const auto &[resetVariable, updatedVariable]: transition.resetVars) {
+              if (updatedVariable.index() == 1) {
+                auto &sourceConstant = maxConstants.at(std::get<ClockVariables>(updatedVariable));
+                if (sourceConstant < maxConstants.at(resetVariable)) {
+                  sourceConstant = maxConstants.at(resetVariable);
+                  updated = true;
+                }
+              }
+            }
+          }
+        }
+      }
+    }
+
+    return maxConstants;
+  }
+
 /*!
   @brief Generate a zone automaton from a timed automaton
   @tparam NVar the number of variable in TA
@@ -21,10 +51,8 @@ namespace learnta {
       initialZone.M = Bounds{
               *std::max_element(TA.maxConstraints.begin(), TA.maxConstraints.end()),
               true};
-      initialZone.maxConstraints.resize(TA.maxConstraints.size());
-      for (std::size_t i = 0; i < initialZone.maxConstraints.size(); ++i) {
-        initialZone.maxConstraints.at(i) = TA.maxConstraints.at(i);
-      }
+      const auto maxConstants = makeExtrapolationConstants(TA);
+      initialZone.maxConstraints.assign(maxConstants.begin(), maxConstants.end());
     } else {
       initialZone.M = Bounds(0, true);
     }
-- 
2.43.0


From 47afb3dd7eb2ead9af5eb04da89c2a6b361f945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 03/13] fix: do not miss words when sampling from a zone
 automaton

A state of the zone automaton may stand for several zones due to the merging.
The search marked the state as visited by the first run reaching it, even if
the actual zone of the run cannot take the subsequent transitions.
---
 include/symbolic_run.hh   |  5 +++++
 include/zone_automaton.hh | 32 +++++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/symbolic_run.hh b/include/symbolic_run.hh
index e20c47f..18d722c 100644
--- a/include/symbolic_run.hh
+++ b/include/symbolic_run.hh
@@ -64,6 +64,11 @@ namespace learnta {
       tightZones.back().canonize();
     }
 
+    //! @brief Returns the number of the edges in the symbolic run
+    [[nodiscard]] std::size_t size() const {
+      return this->edges.size();
+    }
+
     //! @brief Returns the i-th state in the symbolic run
     [[nodiscard]] std::shared_ptr<ZAState> stateAt(int i) const {
       return this->states.at(i);
diff --git a/include/zone_automaton.hh b/include/zone_automaton.hh
index 9b89c2e..4bdbed6 100644
--- a/include/zone_automaton.hh
+++ b/include/zone_automaton.hh
@@ -27,7 +27,28 @@ namespace learnta {
                      [](const auto &initialState) {
                        return SymbolicRun{initialState};
                      });
-      std::unordered_set<std::shared_ptr<ZAState>> visited = {initialStates.begin(), initialStates.end()};
+      // The visited states and their zones. Since a zone in the run may be smaller than the zone of its last state due to
+      // the state merging, we have to use the zones in the run to decide if the exploration from it is redundant.
+      std::unordered_map<std::shared_ptr<ZAState>, std::vector<Zone>> visited;
+      const auto visit = [&visited](const SymbolicRun &run) -> bool {
+        auto zone = run.tightZoneAt(run.size());
+        if (!zone.isSatisfiable()) {
+          return false;
+        }
+        zone.value.diagonal().fill(Bounds{0, true});
+        zone.extrapolate();
+        zone.canonize();
+        zone.value.diagonal().fill(Bounds{0, true});
+        auto &visitedZones = visited[run.back()];
+        if (std::any_of(visitedZones.begin(), visitedZones.end(), [&zone](const Zone &visitedZone) {
+          return visitedZone.includes(zone);
+        })) {
+          return false;
+        }
+        visitedZones.push_back(std::move(zone));
+        return true;
+      };
+      std::for_each(currentStates.begin(), currentStates.end(), visit);
 
       while (!currentStates.empty()) {
         std::vector<SymbolicRun> nextStates;
@@ -44,12 +65,13 @@ namespace learnta {
             for (const auto &edge: edges) {
               auto transition = edge.first;
               auto target = edge.second.lock();
-              if (target && visited.find(target) == visited.end()) {
-                // We have not visited the state
+              if (target) {
                 auto newRun = run;
                 newRun.push_back(transition, static_cast<char>(action), target);
-                nextStates.push_back(newRun);
-                visited.insert(target);
+                if (visit(newRun)) {
+                  // We have not visited the state with the zone
+                  nextStates.push_back(std::move(newRun));
+                }
               }
             }
           }
-- 
2.43.0


From 6966d15b64231154039679637ecdb30efb5f6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 04/13] fix: do not abort when a row distinguished earlier gets
 a renaming relation later

The candidates of the renaming relations depend on the current suffixes. Therefore, a relation
may be found after we failed to find one with fewer suffixes, and the claimed invariant does not hold.
---
 include/observation_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 4ac54d5..e62b82f 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -143,8 +143,8 @@ namespace learnta {
 #if 1
       if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end() ||
           this->distinguishedPrefix.find(std::make_pair(j, i)) != this->distinguishedPrefix.end()) {
-        // we already know that they are not equivalent
-        assert(!this->equivalent(i, j));
+        // We already failed to find a renaming relation witnessing their equivalence. We do not try it again. Notice that
+        // we may find one after extending the suffixes because the candidates of the renaming relations depend on them.
         return std::nullopt;
       }
 #endif
-- 
2.43.0


From 611f863bd8627f84d57188d36a8e9c41c03460c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 05/13] fix: take the earliest of several unobservable
 transitions when running an automaton

---
 include/timed_automaton_runner.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..4550216 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // The bounds are on the negated durations. Therefore, the minimum duration is the maximum bound
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From b487db8b2499a2c00cf8d281d883e9aea405ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 06/13] fix: respect the upper bounds in the delay to enable an
 unobservable transition

The guard x < c is not enabled at c, an upper bound may be violated when the lower bounds of the other
clocks are reached, and the empty guard is enabled immediately.
---
 include/constraint.hh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..311f1c7 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -114,7 +114,7 @@ namespace learnta {
         case Order::lt:
         case Order::le:
           // Bounded from above
-          return valuation.at(this->x) <= this->c ? Bounds{0.0, true} :
+          return this->satisfy(valuation) ? Bounds{0.0, true} :
                  Bounds{-std::numeric_limits<double>::infinity(), false};
         case Order::ge:
           // Bounded from below
@@ -362,13 +362,20 @@ namespace learnta {
 
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
-    std::vector<Bounds> lowerBoundDurations;
-    lowerBoundDurations.reserve(guard.size());
-    std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
-      return constraint.lowerBoundDurationToSatisfy(valuation);
-    });
+    Bounds result{0.0, true};
+    for (const auto &constraint: guard) {
+      result = std::min(result, constraint.lowerBoundDurationToSatisfy(valuation));
+    }
+    // The upper bounds must be still satisfied after the duration
+    if (std::any_of(guard.begin(), guard.end(), [&](const auto &constraint) {
+      const double valueAfterDuration = valuation.at(constraint.x) - result.first;
+      return constraint.isUpperBound() &&
+             !(result.second ? constraint.satisfy(valueAfterDuration) : valueAfterDuration < constraint.c);
+    })) {
+      return Bounds{-std::numeric_limits<double>::infinity(), false};
+    }
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    return result;
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From de58dbc923a92fd674ec08452324f757d1634deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 07/13] fix: make the hash values of equal zones equal

---
 include/zone.hh | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index d362c3d..1bcf652 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -475,17 +475,24 @@ namespace learnta {
 
   inline std::size_t hash_value(learnta::Zone const &zone) {
     std::size_t seed = zone.value.array().size();
-    const auto asVector = zone.value.array();
 
     union DI {
       double asD;
       uint64_t asI;
     };
 
-    for (auto it = asVector.data(); it != asVector.data() + asVector.size(); it++) {
-      DI value{};
-      value.asD = it->first;
-      seed ^= it->second + value.asI + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+    for (Eigen::Index j = 0; j < zone.value.cols(); ++j) {
+      for (Eigen::Index i = 0; i < zone.value.rows(); ++i) {
+        // The diagonal elements are ignored as in the comparison of timed conditions
+        if (i == j) {
+          continue;
+        }
+        const auto &bound = zone.value(i, j);
+        DI value{};
+        // 0.0 and -0.0 are equal
+        value.asD = bound.first == 0 ? 0 : bound.first;
+        seed ^= bound.second + value.asI + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+      }
     }
     return seed;
   }
-- 
2.43.0


From 0ff079b7f963ce4a8aa0f88522534b58644b131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 08/13] fix: respect strict lower bounds on differences when
 sampling from a zone

---
 include/zone.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 1bcf652..49a4fc3 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -263,16 +263,17 @@ namespace learnta {
         if (isPoint(upperBound, lowerBound)) {
           valuation[i] = upperBound.first;
         } else {
-          double lower = std::max(0.0, -lowerBound.first);
+          Bounds tightLowerBound = std::min(Bounds{0.0, true}, lowerBound);
           double upper = upperBound.first;
           for (std::size_t j = 0; j < i; j++) {
-            Bounds tmpLowerBound = this->value(j + 1, i + 1);
-            Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            const Bounds &tmpLowerBound = this->value(j + 1, i + 1);
+            const Bounds &tmpUpperBound = this->value(i + 1, j + 1);
+            tightLowerBound = std::min(tightLowerBound, Bounds{tmpLowerBound.first - valuation[j], tmpLowerBound.second});
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
+          const double lower = -tightLowerBound.first;
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (tightLowerBound.second) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From e6e857bc02d6afe0df524de5359050e74485ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 09/13] fix: ignore the diagonal when checking the inclusion of
 timed conditions

---
 include/timed_condition.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/timed_condition.hh b/include/timed_condition.hh
index 85d7450..eeb72c3 100644
--- a/include/timed_condition.hh
+++ b/include/timed_condition.hh
@@ -655,7 +655,10 @@ namespace learnta {
      * @brief Return if this timed condition includes the given timed condition
      */
     [[nodiscard]] bool includes(const TimedCondition &condition) const {
-      return this->zone.includes(condition.zone);
+      // The diagonal elements do not matter
+      auto zoneWithSameDiagonal = condition.zone;
+      zoneWithSameDiagonal.value.diagonal() = this->zone.value.diagonal();
+      return this->zone.includes(zoneWithSameDiagonal);
     }
 
     /*!
-- 
2.43.0


From b9ad14b37b7783df6c566f2763d52c6873c98d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 10/13] fix: do not abort when no single suffix witnesses a
 discrete inconsistency

As for the continuous inconsistency, there may be no such suffix because the renaming relations
are found heuristically, and they may be consistent with each suffix but not with all of them.
---
 include/observation_table.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index e62b82f..680c11d 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -420,15 +420,17 @@ namespace learnta {
      * @pre equivalent(i, j)
      * @pre !equivalent(discreteSuccessors(i, action), discreteSuccessors(j, action))
      * @post !equivalent(i, j)
+     *
+     * @return If the inconsistency is resolved
      */
-    void resolveDiscreteInconsistency(std::size_t i, std::size_t j, Alphabet action) {
+    [[nodiscard]] bool resolveDiscreteInconsistency(std::size_t i, std::size_t j, Alphabet action) {
       // Find a single witness of the inconsistency
       auto it = std::find_if_not(suffixes.begin(), suffixes.end(), [&](const auto &suffix) {
         return equivalent(i, j, suffix.predecessor(action));
       });
-      // we assume that we have such a suffix
+      // We may fail to resolve discrete inconsistency
       if (it == suffixes.end()) {
-        abort();
+        return false;
       }
       const auto newSuffix = it->predecessor(action);
       LOG_REFINEMENT_INFO << "New suffix " << newSuffix << " is added";
@@ -437,6 +439,8 @@ namespace learnta {
       this->refreshTable();
       // i and j should not be equivalent after adding the new suffix
       assert(!this->equivalentWithMemo(i, j));
+
+      return true;
     }
 
     /*!
@@ -529,11 +533,11 @@ namespace learnta {
             // Check the consistency
             for (const auto action: this->alphabet) {
               if (!this->equivalentWithMemo(this->discreteSuccessors.at({i, action}),
-                                            this->discreteSuccessors.at({j, action}))) {
+                                            this->discreteSuccessors.at({j, action}))
+                  && resolveDiscreteInconsistency(i, j, action)) {
                 LOG_REFINEMENT_INFO << "Observation table is inconsistent because of the discrete successors of "
                                          << this->prefixes.at(i) << " and " << this->prefixes.at(j)
                                          << " with action " << action;
-                resolveDiscreteInconsistency(i, j, action);
                 return false;
               }
             }
-- 
2.43.0


From e64555f557e39cc61417465e2409859c5f2042e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 11/13] fix: order the variables of backward languages as their
 predecessors do

The continuous predecessor elapses the sums of the durations from the front, whereas the predecessor of
a fractional order is for decreasing variables. The order must therefore be the one of the negated sums.
Otherwise, the predecessor of a language made from a timed word with different fractional parts was empty.
---
 .../backward_regional_elementary_language.hh  | 12 ++++++------
 .../forward_regional_elementary_language.hh   | 19 ++-----------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..e0cca1a 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -15,7 +15,8 @@ namespace learnta {
   /*!
    * @brief A back regional elementary language
    *
-   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$\mathbb{T}_{0,0},\mathbb{T}_{0,1},\dots,\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$-\mathbb{T}_{0,0},-\mathbb{T}_{0,1},\dots,-\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * The sign is because the continuous predecessor elapses these variables, i.e., the ones with the largest fractional part reach an integer first.
    *
    * @invariant elementary.wordSize() + 1 == fractionalOrder.size()
    */
@@ -37,11 +38,10 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i)) - accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
@@ -78,8 +78,8 @@ namespace learnta {
       } else if (this->getTimedCondition().hasSuffix()) {
         // return the continuous prefix
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.predecessorVariables())},
-                this->fractionalOrder.predecessor()});
+                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
+                this->fractionalOrder.successor()});
       } else {
         // TODO: return the discrete suffix
         auto word = this->getWord();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..9a36a50 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -157,23 +157,8 @@ namespace learnta {
       auto suffixDurations = fullWord.getDurations();
       suffixDurations.erase(suffixDurations.begin(), suffixDurations.begin() + prefix.wordSize());
       suffixDurations.front() -= prefixWord.getDurations().back();
-      // Generate the elementary language containing the suffix
-      const auto forward = fromTimedWord(TimedWord{suffixWord, suffixDurations});
-      // Construct the fractional order
-      std::vector<double> suffixDurationsFractional;
-      suffixDurationsFractional.resize(suffixDurations.size());
-      suffixDurationsFractional.front() = suffixDurations.front() - std::floor(suffixDurations.front());
-      for (std::size_t i = 1; i < suffixDurationsFractional.size(); ++i) {
-        suffixDurationsFractional.at(i) = suffixDurationsFractional.at(i - 1) + suffixDurations.at(i);
-        suffixDurationsFractional.at(i) -= std::floor(suffixDurationsFractional.at(i));
-      }
-      assert(std::all_of(suffixDurationsFractional.begin(), suffixDurationsFractional.end(),
-                         [](const double fractional) {
-                           return 0 <= fractional && fractional < 1;
-                         }));
-
-      return BackwardRegionalElementaryLanguage{ElementaryLanguage{forward.getWord(), forward.getTimedCondition()},
-                                                FractionalOrder(suffixDurationsFractional)};
+      // Generate the regional elementary language containing the suffix
+      return BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{suffixWord, suffixDurations});
     }
 
     [[nodiscard]] ForwardRegionalElementaryLanguage applyResets(const TATransition::Resets &resets) const {
-- 
2.43.0


From 397ee381521c27298f2825fc9fe74413c7ae0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 12/13] fix: return the discrete immediate suffix of backward
 languages

---
 .../backward_regional_elementary_language.hh   |  4 ++--
 include/fractional_order.hh                    | 18 ++++++++++++++++++
 include/timed_condition.hh                     | 13 +++++++------
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index e0cca1a..409318d 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -81,11 +81,11 @@ namespace learnta {
                 {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
                 this->fractionalOrder.successor()});
       } else {
-        // TODO: return the discrete suffix
+        // return the discrete suffix
         auto word = this->getWord();
         word.erase(word.begin());
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {word, this->timedCondition.removeN()}, this->fractionalOrder.removeN()});
+                {word, this->timedCondition.removeZero()}, this->fractionalOrder.removeZero()});
       }
     }
 
diff --git a/include/fractional_order.hh b/include/fractional_order.hh
index ffc2021..e350a13 100644
--- a/include/fractional_order.hh
+++ b/include/fractional_order.hh
@@ -175,6 +175,24 @@ namespace learnta {
       return result;
     }
 
+    /*!
+     * @brief Remove \f$x_{0}\f$ and rename each variable \f$x_{i+1}\f$ to \f$x_i\f$
+     *
+     * @pre \f$fractional(x_{0}) = 0\f$
+     */
+    [[nodiscard]] FractionalOrder removeZero() const {
+      FractionalOrder result = *this;
+      assert(!result.order.front().empty() && result.order.front().front() == 0);
+      result.order.front().pop_front();
+      for (auto &variables: result.order) {
+        std::transform(variables.begin(), variables.end(), variables.begin(), [](auto variable) {
+          return variable - 1;
+        });
+      }
+      result.size--;
+      return result;
+    }
+
     //! @brief Returns the number of the variables
     [[nodiscard]] size_t getSize() const {
       return size;
diff --git a/include/timed_condition.hh b/include/timed_condition.hh
index eeb72c3..53374eb 100644
--- a/include/timed_condition.hh
+++ b/include/timed_condition.hh
@@ -529,15 +529,16 @@ namespace learnta {
     }
 
     /*!
-     * @brief Remove \f$x_{0}\f$
-     * TODO: Implement it
+     * @brief Remove \f$x_{0}\f$ and rename each variable \f$x_{i+1}\f$ to \f$x_i\f$
      */
     [[nodiscard]] TimedCondition removeZero() const {
-      TimedCondition result = *this;
-      const auto N = result.zone.value.cols();
-      result.zone.value.conservativeResize(N - 1, N - 1);
+      const auto N = this->zone.value.cols();
+      auto result = Zone::top(N - 1);
+      result.value.block(1, 1, N - 2, N - 2) = this->zone.value.block(2, 2, N - 2, N - 2);
+      result.value.block(0, 1, 1, N - 2) = this->zone.value.block(0, 2, 1, N - 2);
+      result.value.block(1, 0, N - 2, 1) = this->zone.value.block(2, 0, N - 2, 1);
 
-      return result;
+      return TimedCondition(std::move(result));
     }
 
     /*!
-- 
2.43.0


From 757debb421ec4046bc1d42caa011d873ae9aaa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 13/13] fix: compare a merged transition with all others again

The hull of two guards may overlap with the guards that were already
compared, so that the merged transitions were still nondeterministic.
---
 src/timed_automaton.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/timed_automaton.cc b/src/timed_automaton.cc
index 50afab0..5cfce00 100644
--- a/src/timed_automaton.cc
+++ b/src/timed_automaton.cc
@@ -188,7 +188,10 @@ namespace learnta {
             }
             std::vector<std::vector<Constraint>> guards = {it2->guard, it3->guard};
             it2->guard = unionHull(guards);
-            it3 = transitions.erase(it3);
+            // The guard has changed: it may overlap also with the transitions it was already compared to
+            transitions.erase(it3);
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
@@ -246,7 +249,10 @@ namespace learnta {
             }
               it2->guard = unionHull(it2->guard, it3->guard);
 #endif
-            it3 = transitions.erase(it3);
+            // The guard has changed: it may overlap also with the transitions it was already compared to
+            transitions.erase(it3);
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
@@ -280,12 +286,18 @@ namespace learnta {
             } else if (!allPrecise2 && allPrecise3) {
               // We use it3 if it precisely captures the guard
               *it2 = *it3;
-              it3 = transitions.erase(it3);
+              // The guard has changed: it may overlap also with the transitions it was already compared to
+              transitions.erase(it3);
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             } else if (allPrecise2 && allPrecise3) {
               // We merge them if both precisely capture the guard
               *it2 = mergeTransitions(*it2, *it3);
-              it3 = transitions.erase(it3);
+              // The guard has changed: it may overlap also with the transitions it was already compared to
+              transitions.erase(it3);
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             }
             bool use3 = false;
@@ -315,7 +327,10 @@ namespace learnta {
               it2->guard = unionHull(it2->guard, it3->guard);
             }
             BOOST_LOG_TRIVIAL(debug) << it2->guard << " " << it2->resetVars << " is generated";
-            it3 = transitions.erase(it3);
+            // The guard has changed: it may overlap also with the transitions it was already compared to
+            transitions.erase(it3);
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
-- 
2.43.0

