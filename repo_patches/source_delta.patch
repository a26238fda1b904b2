From 6afd2e9b660e9166e291ad11c3139216d295629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 01/53] fix: Newtonsolver must not report success for a
 residual that is not a number

---
 src/Newtonsolver/Newtonsolver.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..d68ca49 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,9 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // A residual that is not a number does not compare and must not count as
+    // success.
+    solstruct.success = (solstruct.residual <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From b2961f2992266f735bd44f5c501ef76884f9bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 02/53] fix: equidistant interpolation points must not
 accumulate rounding errors

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..b151ed7 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -115,10 +115,10 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // Repeatedly adding delta would accumulate rounding errors.
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
-- 
2.43.0


From 45489465e5b55b09fdea547a75e4aa6efe676182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 03/53] fix: unsorted interpolation points given as std::vector
 must be refused

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index b151ed7..3507d46 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -169,8 +169,9 @@ namespace Aux {
       std::vector<double> _interpolation_points, Eigen::Index _inner_length) :
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
+    // The argument has been moved from, so the member must be checked.
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From f764c3c1082bf339891274fdcf120cf928207f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 04/53] fix: a single interpolation point cannot span an
 interval

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 3507d46..200c0f4 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -45,6 +45,13 @@ namespace Aux {
            "Supplied first point: ", std::to_string(first_point), "\n",
            "Supplied last point: ", std::to_string(last_point), "\n"});
     }
+    if (number_of_entries == 1) {
+      gthrow(
+          {"An InterpolatingVector with different first and last point needs "
+           "at least two entries.\n",
+           "Supplied first point: ", std::to_string(first_point), "\n",
+           "Supplied last point: ", std::to_string(last_point), "\n"});
+    }
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-- 
2.43.0


From d138237358d23454a09f0418859c59af6372c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 05/53] fix: comparisons of time points must tolerate rounding
 of large times

---
 .../InterpolatingVector.cpp                    | 18 +++++++++++-------
 src/Auxillary/Mathfunctions/Mathfunctions.cpp  |  6 ++++++
 .../Mathfunctions/include/Mathfunctions.hpp    |  6 ++++++
 src/IpoptWrapper/ImplicitOptimizer.cpp         |  4 +++-
 .../Optimization_helpers.cpp                   |  6 ++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 200c0f4..ee3f764 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -57,10 +57,12 @@ namespace Aux {
     auto delta = (last_point - first_point) / (number_of_entries - 1);
     assert(
         last_point
-        > first_point + (number_of_entries - 1) * delta - Aux::EPSILON);
+        > first_point + (number_of_entries - 1) * delta
+              - Aux::rounding_tolerance(last_point));
     assert(
         last_point
-        < first_point + (number_of_entries - 1) * delta + Aux::EPSILON);
+        < first_point + (number_of_entries - 1) * delta
+              + Aux::rounding_tolerance(last_point));
     return {first_point, delta, number};
   }
 
@@ -107,11 +109,11 @@ namespace Aux {
     assert(
         last_point > first_point
                          + static_cast<double>(number_of_entries - 1) * delta
-                         - Aux::EPSILON);
+                         - Aux::rounding_tolerance(last_point));
     assert(
         last_point < first_point
                          + static_cast<double>(number_of_entries - 1) * delta
-                         + Aux::EPSILON);
+                         + Aux::rounding_tolerance(last_point));
 
     return {first_point, delta, number_of_entries};
   }
@@ -134,7 +136,7 @@ namespace Aux {
             interpolation_points.back()
             - (startpoint
                + static_cast<double>(number_of_entries - 1) * delta)))
-        < Aux::EPSILON);
+        < Aux::rounding_tolerance(interpolation_points.back()));
     return interpolation_points;
   }
 
@@ -260,7 +262,8 @@ namespace Aux {
 
   Eigen::VectorXd InterpolatingVector_Base::operator()(double t) const {
     if (t >= interpolation_points.back()) {
-      if (t > interpolation_points.back() + Aux::EPSILON) {
+      if (t > interpolation_points.back()
+                  + Aux::rounding_tolerance(interpolation_points.back())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is higher than the last valid value: "
@@ -274,7 +277,8 @@ namespace Aux {
           inner_length);
     }
     if (t <= interpolation_points.front()) {
-      if (t < interpolation_points.front() - Aux::EPSILON) {
+      if (t < interpolation_points.front()
+                  - Aux::rounding_tolerance(interpolation_points.front())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is lower than the first valid value: "
diff --git a/src/Auxillary/Mathfunctions/Mathfunctions.cpp b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
index 531de77..73b20d9 100644
--- a/src/Auxillary/Mathfunctions/Mathfunctions.cpp
+++ b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
@@ -17,6 +17,7 @@
 #include <Exception.hpp>
 #include <Mathfunctions.hpp>
 #include <cmath>
+#include <limits>
 
 namespace Aux {
 
@@ -25,6 +26,11 @@ namespace Aux {
   double const Pi = 3.141592653589793;
   double const EPSILON = 1e-10;
 
+  double rounding_tolerance(double value) {
+    return EPSILON
+           + 8 * std::numeric_limits<double>::epsilon() * std::abs(value);
+  }
+
   double circle_area(double radius) { return Pi * radius * radius; }
 
   double smooth_abs(double x) {
diff --git a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
index dbb6ff9..30d8553 100644
--- a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
+++ b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
@@ -24,6 +24,12 @@ namespace Aux {
   /// less than EPSILON, are considered equal.
   extern double const EPSILON;
 
+  /// @brief Returns EPSILON plus a few units in the last place of value.
+  ///
+  /// Times computed in different ways may differ by rounding errors that
+  /// exceed EPSILON, if the times are large.
+  double rounding_tolerance(double value);
+
   double circle_area(double radius);
 
   /// A C^1 absolute value function.
diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..1c5961e 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -125,7 +125,9 @@ namespace Optimization {
 
     // check that latest control timepoint is after or at latest state
     // timepoint:
-    if (back(control_timepoints) + Aux::EPSILON < back(state_timepoints)) {
+    if (back(control_timepoints)
+            + Aux::rounding_tolerance(back(control_timepoints))
+        < back(state_timepoints)) {
       gthrow(
           {"latest state timepoint is not inside the control timepoint span."});
     }
diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..a71f9ba 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -27,11 +27,13 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &timepoints, double time) {
     assert(timepoints.size() > 0);
     assert(time >= front(timepoints));
-    assert(time <= back(timepoints) + Aux::EPSILON);
+    assert(
+        time < back(timepoints) + Aux::rounding_tolerance(back(timepoints)));
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+        and time < *(std::prev(timepoints.end()))
+                       + Aux::rounding_tolerance(back(timepoints))) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From 4ca99eb1ffec67352dfed8fb747904b49f922ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 06/53] fix: boundary data without entries, times or values
 must be refused

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 4 ++++
 src/Auxillary/json_schema/make_schema.cpp                 | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ee3f764..b1c4313 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -456,6 +456,10 @@ namespace Aux {
       nlohmann::json const &json, nlohmann::json const &schema) {
     Aux::schema::validate_json(json, schema);
 
+    if (json["data"].empty()) {
+      gthrow({"An InterpolatingVector cannot be constructed from no data!"});
+    }
+
     std::vector<double> interpolation_points;
 
     std::string name;
diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..7a0ccf2 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -160,8 +160,8 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
-- 
2.43.0


From b379c46ee1407766bcd97227f7ef4163d12f7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 07/53] fix: the derivative of the Swamee-Jain friction factor
 divides by its logarithm's argument

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From cae4b1158913ef6d636b61d8b05c9407ab177f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 08/53] fix: StochasticPQnode must save the power of the state
 it saves

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..2e19556 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,10 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    // results are saved after the whole simulation, so that current_P and
+    // current_Q only hold the values of the last time step.
+    double P_val = P(state);
+    double Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From 7ec005417d826249bbb8cf89cd4d7e93308bd9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 09/53] fix: the constraint of a ConstraintSink is its pressure
 in bar whatever edge is attached

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..ff5c140 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dpq(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler, dconstraint_dpq,
+        get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From 8988f50c5260e99f719eff141a9478dbd376f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 10/53] fix: constraint Jacobian read before the first
 constraint time

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 1c5961e..5270993 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -568,8 +568,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From ba16e1edc38cb5f2544e78b6b9e55218267863fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 11/53] fix: cost and penalty of the solution were those of the
 last evaluated point

---
 src/IpoptWrapper/Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..77aff21 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // The solution need not be the point, that was evaluated last:
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From b3675602db69e023e9d7b85c744cc12e85a49eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 12/53] fix: report the actual Ipopt status of a failed
 optimization

---
 src/IpoptWrapper/Wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index 77aff21..9ba82cc 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
-- 
2.43.0


From 8b86260511f436d6f27ce4f9852d8b8fb3c84350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 13/53] fix: state cache compared time points of different
 length

---
 src/Optimization_helpers/ControlStateCache.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Optimization_helpers/ControlStateCache.cpp b/src/Optimization_helpers/ControlStateCache.cpp
index f57c213..2d9f1e9 100644
--- a/src/Optimization_helpers/ControlStateCache.cpp
+++ b/src/Optimization_helpers/ControlStateCache.cpp
@@ -24,6 +24,13 @@
 
 namespace Optimization {
 
+  // Eigen may only compare vectors of equal size.
+  static bool have_equal_values(
+      Eigen::Ref<Eigen::VectorXd const> const &lhs,
+      Eigen::Ref<Eigen::VectorXd const> const &rhs) {
+    return lhs.size() == rhs.size() and lhs == rhs;
+  }
+
   StateCache::~StateCache() = default;
 
   ControlStateCache::ControlStateCache(
@@ -60,13 +67,13 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &state_timepoints,
       Eigen::Ref<Eigen::VectorXd const> const &initial_state) {
     if (failed.control == controls
-        and failed.state_timepoints == state_timepoints
-        && failed.initial_state == initial_state) {
+        and have_equal_values(failed.state_timepoints, state_timepoints)
+        and have_equal_values(failed.initial_state, initial_state)) {
       return nullptr;
     }
     if (controls == cache.first.control
-        and initial_state == cache.first.initial_state
-        && state_timepoints == cache.first.state_timepoints) {
+        and have_equal_values(initial_state, cache.first.initial_state)
+        and have_equal_values(state_timepoints, cache.first.state_timepoints)) {
       return &cache.second;
     } else {
       Aux::InterpolatingVector states(state_timepoints, initial_state.size());
-- 
2.43.0


From 777e15eaf182a8d17c6009ba868d24424c23b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 14/53] fix: control times that do not cover the state times
 are refused

---
 src/Optimization_helpers/Optimization_helpers.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index a71f9ba..b17afa9 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -15,20 +15,25 @@
  *
  */
 #include "Optimization_helpers.hpp"
+#include "Exception.hpp"
 #include "InterpolatingVector.hpp"
 #include "Mathfunctions.hpp"
 #include "Misc.hpp"
 #include "OptimizableObject.hpp"
 #include <algorithm>
 #include <cassert>
+#include <string>
 namespace Optimization {
 
   std::pair<Eigen::Index, double> compute_index_lambda(
       Eigen::Ref<Eigen::VectorXd const> const &timepoints, double time) {
     assert(timepoints.size() > 0);
-    assert(time >= front(timepoints));
-    assert(
-        time < back(timepoints) + Aux::rounding_tolerance(back(timepoints)));
+    if (time < front(timepoints)
+        or time >= back(timepoints)
+                       + Aux::rounding_tolerance(back(timepoints))) {
+      gthrow({"The time ", std::to_string(time),
+              " is not inside the span of the timepoints."});
+    }
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-- 
2.43.0


From 842f67e35edb44abe88e5661aa31a4cf678dd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 15/53] fix: Coeffrefhandler left old values in an uncompressed
 matrix

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..236c050 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,6 +57,8 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
+    // The values of an uncompressed matrix are not contiguous:
+    _matrix.makeCompressed();
     // Set the matrix to zero:
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
-- 
2.43.0


From 98b4d69af0ef4631ff8b0e82ef82483dfd879422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 16/53] fix: grazer run exited successfully although its
 results could not be written

---
 src/Grazer/commands.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..34ea33d 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -139,6 +139,10 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::endl;
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          gthrow({"Failed to write file: ", states_outputfile.string()});
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -292,6 +296,10 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
         o << control_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          gthrow({"Failed to write file: ", control_outputfile.string()});
+        }
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -311,6 +319,10 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          gthrow({"Failed to write file: ", states_outputfile.string()});
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From 34628280d4df3e0d5ee87cc46e9c68d413404443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 17/53] fix: grazer run exited successfully although no optimum
 was found

---
 src/Grazer/commands.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 34ea33d..a3c6aab 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -113,6 +113,7 @@ int grazer::run(std::filesystem::path directory_path) {
         optimize = all_json["optimize"];
       }
     }
+    bool optimum_found = true;
     if (not optimize) {
       // These two make sure that the problem is de-allocated when this if
       // branch is left. They serve no other purpose.
@@ -227,7 +228,12 @@ int grazer::run(std::filesystem::path directory_path) {
       Optimization::IpoptAdaptor adaptor(std::move(optimizer_ptr));
       // std::cout << optimizer.get_initial_controls() << std::endl;
 
-      adaptor.optimize();
+      auto status = adaptor.optimize();
+      optimum_found = status == Ipopt::Solve_Succeeded
+                      or status == Ipopt::Solved_To_Acceptable_Level;
+      if (adaptor.get_solution().size() != optimizer.get_total_no_controls()) {
+        gthrow({"The optimization ended without a solution!"});
+      }
 
       Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
 
@@ -270,7 +276,9 @@ int grazer::run(std::filesystem::path directory_path) {
 
       double objective = 0;
       optimizer.new_x();
-      optimizer.evaluate_objective(ipoptcontrols, objective);
+      if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {
+        gthrow({"The final controls of the optimization can't be simulated!"});
+      }
       auto &state_solution = optimizer.get_current_full_state();
       Aux::ConstMappedInterpolatingVector const control_solution(
           control_timepoints, problem.get_number_of_controls_per_timepoint(),
@@ -335,6 +343,12 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     }
 
+    if (not optimum_found) {
+      gthrow(
+          {"No optimum was found! The last controls and states can be found in "
+           "the directory\n",
+           output_directory.string()});
+    }
     std::cout
         << "\n\nOptimal controls and resulting states can be found in the "
            "directory\n"
-- 
2.43.0


From 5951c3f6fb26dfcb1fa1f8802d93955cb19079a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:18 +0000
Subject: [PATCH 18/53] fix: constraints were not evaluated at the end time for
 some numbers of time steps

---
 src/Grazer/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index a3c6aab..28f16c5 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -183,9 +183,8 @@ int grazer::run(std::filesystem::path directory_path) {
 
         constraint_timepoints[index] = state_timepoints[1 + n * index];
       }
-      if (state_timepoints.size() % n != 0) {
-        back(constraint_timepoints) = back(state_timepoints);
-      }
+      // The end is always constrained:
+      back(constraint_timepoints) = back(state_timepoints);
 
       auto lower_bounds_json = aux_json::get_json_from_file_path(
           problem_directory / std::filesystem::path("lower_bounds.json"));
-- 
2.43.0


From ba78f0b3b3a147be9f8ce1d022873c724286e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 19/53] fix: overwrite_json lost the user's file when writing
 failed or was interrupted

---
 src/Auxillary/aux_json/Aux_json.cpp           | 50 +++++++++----------
 .../json_schema/schema_generation.cpp         |  4 ++
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..c4a5cf8 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -16,6 +16,7 @@
  */
 #include <Aux_json.hpp>
 #include <Exception.hpp>
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -106,38 +107,37 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // creating a backup if this file existed
-    bool had_existed = false;
-    std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
-    if (std::filesystem::exists(file_path)) {
-      had_existed = true;
-      std::filesystem::rename(file_path, backup_path);
-      if (not std::filesystem::exists(backup_path)) {
-        throw std::filesystem::filesystem_error(
-            "backup file could not be created, aborting", std::error_code());
-      }
+    // The new content is written to a new file, which then replaces the old
+    // one, so that at every time one of both is complete.
+    std::filesystem::path new_path = file_path;
+    std::FILE *fp = nullptr;
+    for (int counter = 0; counter != 100 and not fp; ++counter) {
+      new_path = file_path;
+      new_path += "." + std::to_string(counter) + ".tmp";
+      fp = std::fopen(new_path.string().c_str(), "wx");
+    }
+    if (not fp) {
+      gthrow(
+          {"Failed to create a temporary file for overwriting ",
+           file_path.string(), "\nLast tried: ", new_path.string()});
     }
+    std::fclose(fp);
 
     try {
-      // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs(new_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
+      if (not ofs) {
+        gthrow({"Failed to write to ", new_path.string()});
+      }
+      std::filesystem::rename(new_path, file_path);
     } catch (...) {
-      std::cout << "something went wrong writing the modified json to file"
+      std::cout << "something went wrong writing the modified json to file "
+                << file_path.string() << ", the old version is kept."
                 << std::endl;
-      if (had_existed) {
-        if (std::filesystem::exists(backup_path)) {
-          std::cout << "rolling back to old version" << std::endl;
-          std::filesystem::rename(backup_path, file_path);
-        } else {
-          std::cout << "backup file is missing!" << std::endl;
-        }
-      }
-    }
-    // remove backup
-    if (had_existed) {
-      std::filesystem::remove(backup_path);
+      std::error_code ignored;
+      std::filesystem::remove(new_path, ignored);
+      throw;
     }
   }
 
diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..2e1f2bf 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -88,6 +88,10 @@ namespace Aux::schema {
       std::ofstream ofs(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
+      if (not ofs) {
+        gthrow({"Failed to write schema file: ", file.string()});
+      }
     }
   }
 
-- 
2.43.0


From a60a71c7975bfbffdd8399931d7802ebd380e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 20/53] fix: time stamps of output directories had fewer than
 three digits for the milliseconds

---
 src/Auxillary/Input_Output/Input_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..1906a17 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -114,6 +114,8 @@ namespace io {
             nowtime - time_up_to_seconds);
 
     auto ms_string = std::to_string(ms_since_second.count());
+    // Always three digits:
+    ms_string.insert(0, 3 - ms_string.size(), '0');
     char mbstr[32];
     if (std::strftime(
             mbstr, sizeof(mbstr), "%Y.%m.%d_%H:%M:%S", std::localtime(&t))) {
-- 
2.43.0


From 1ba2161f9375b12ed95c7a2fd548f173a641bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 21/53] fix: areas and volumes in m^2 and m^3 were refused

---
 .../unit_conversion/unit_conversion.cpp       | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..1774ed0 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -16,6 +16,7 @@
  */
 #include <unit_conversion.hpp>
 
+#include <cmath>
 #include <map>
 #include <schema_validation.hpp>
 #include <sstream>
@@ -127,7 +128,16 @@ namespace Aux::unit {
     std::string unit = measurement["unit"].get<std::string>();
 
     auto [prefix, conv] = parse_unit(unit, this->conversion_map);
-    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+    // The prefix belongs to the unit that is raised to a power: 1 km^2 = (1 km)^2.
+    auto caret = unit.rfind('^');
+    double exponent
+        = caret == std::string::npos ? 1.0 : std::stod(unit.substr(caret + 1));
+    std::map<std::string, Conversion> prefix_map;
+    for (auto const &[si_prefix, prefix_conv] : si_prefixes) {
+      prefix_map.emplace(si_prefix, std::pow(prefix_conv(1.0), exponent));
+    }
+    return conv(
+        measurement["value"].get<double>() * parse_prefix(prefix, prefix_map));
   }
 
   const std::tuple<std::string, Conversion> parse_unit(
@@ -172,7 +182,16 @@ namespace Aux::unit {
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
     std::ostringstream regex_stream;
     regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
+    for (auto [item, _] : map) {
+      for (auto character : item) {
+        // "m^2" must not be understood as the start of a line after an m.
+        if (character == '^') {
+          regex_stream << '\\';
+        }
+        regex_stream << character;
+      }
+      regex_stream << "|";
+    }
     std::string regex = regex_stream.str();
     regex.pop_back();
     return regex + ")";
-- 
2.43.0


From 16a2e8bbdcb0b8a7d0c7555bd7838a910077d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 22/53] fix: missing or unusable time settings crashed the
 simulation

---
 src/Auxillary/Timedata/CMakeLists.txt |  2 ++
 src/Auxillary/Timedata/Timedata.cpp   | 25 ++++++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/Auxillary/Timedata/CMakeLists.txt b/src/Auxillary/Timedata/CMakeLists.txt
index 40ab0b6..f870ccd 100644
--- a/src/Auxillary/Timedata/CMakeLists.txt
+++ b/src/Auxillary/Timedata/CMakeLists.txt
@@ -1,3 +1,5 @@
 add_library(timedata STATIC Timedata.cpp)
 
+target_link_libraries(timedata PRIVATE exception)
+
 target_include_directories(timedata PUBLIC include)
diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..e0600e4 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -15,21 +15,32 @@
  *
  */
 #include "Timedata.hpp"
-#include <iostream>
+#include "Exception.hpp"
+#include <cmath>
+#include <limits>
+#include <string>
 
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-    int const _Number_of_timesteps
-        = static_cast<int>(std::ceil(get_timeinterval() / desired_delta_t)) + 1;
-    return _Number_of_timesteps;
+    double const number_of_steps
+        = std::ceil(get_timeinterval() / desired_delta_t);
+    if (not(desired_delta_t > 0 and number_of_steps >= 1
+            and number_of_steps < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"The time interval from ", std::to_string(get_starttime()), " to ",
+           std::to_string(get_endtime()),
+           " can't be divided into time steps of size ",
+           std::to_string(desired_delta_t), "!"});
+    }
+    return static_cast<int>(number_of_steps) + 1;
   }
 
   double Timedata::get_starttime() const { return starttime; }
-- 
2.43.0


From 012fae3b8d99c493f7cba8df4dd2301c90a984ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 23/53] fix: transmission lines at gas nodes crashed the
 simulation

---
 src/Model/Networkproblem/Power/Transmissionline.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Model/Networkproblem/Power/Transmissionline.cpp b/src/Model/Networkproblem/Power/Transmissionline.cpp
index 48737a0..9726397 100644
--- a/src/Model/Networkproblem/Power/Transmissionline.cpp
+++ b/src/Model/Networkproblem/Power/Transmissionline.cpp
@@ -36,7 +36,13 @@ namespace Model::Power {
   Transmissionline::Transmissionline(
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
-      Edge(topology, nodes), G(topology["G"]), B(topology["B"]) {}
+      Edge(topology, nodes), G(topology["G"]), B(topology["B"]) {
+    if (not get_starting_powernode() or not get_ending_powernode()) {
+      gthrow(
+          {"The transmission line ", get_id(),
+           " is not attached to power nodes at both ends!"});
+    }
+  }
 
   double Transmissionline::get_G() const { return G; }
 
-- 
2.43.0


From 8a4eb64e612d7a20eb6a118f78095029b4ae7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 24/53] fix: pipes with impossible dimensions crashed or were
 simulated

---
 .../Balancelaw/Isothermaleulerequation.cpp    |  8 ++++++-
 src/Model/Networkproblem/Gas/Pipe.cpp         | 21 ++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index 486223b..b6a6f1c 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -23,7 +23,13 @@ namespace Model::Balancelaw {
 
   Isothermaleulerequation::Isothermaleulerequation(nlohmann::json const &json) :
       diameter(Aux::unit::length.parse_to_si(json["diameter"])),
-      roughness(Aux::unit::length.parse_to_si(json["roughness"])) {}
+      roughness(Aux::unit::length.parse_to_si(json["roughness"])) {
+    if (not(diameter > 0 and roughness >= 0)) {
+      gthrow(
+          {"A pipe can't have the diameter ", std::to_string(diameter),
+           " m and the roughness ", std::to_string(roughness), " m!"});
+    }
+  }
 
   Eigen::Matrix4d const Isothermaleulerequation::set_coeff_helper_matrix() {
     double a = laminar_border;
diff --git a/src/Model/Networkproblem/Gas/Pipe.cpp b/src/Model/Networkproblem/Gas/Pipe.cpp
index 2cd4e2a..e7a93b3 100644
--- a/src/Model/Networkproblem/Gas/Pipe.cpp
+++ b/src/Model/Networkproblem/Gas/Pipe.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -39,6 +40,20 @@
 
 namespace Model::Gas {
 
+  static int compute_number_of_points(nlohmann::json const &topology) {
+    auto length = Aux::unit::length.parse_to_si(topology["length"]);
+    auto desired_delta_x = topology["desired_delta_x"].get<double>();
+    auto number_of_segments = std::ceil(length / desired_delta_x);
+    if (not(length > 0 and desired_delta_x > 0 and number_of_segments >= 1
+            and number_of_segments < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"A pipe of length ", std::to_string(length),
+           " m can't be divided into segments of size ",
+           std::to_string(desired_delta_x), " m!"});
+    }
+    return static_cast<int>(number_of_segments) + 1;
+  }
+
   std::string Pipe::get_type() { return "Pipe"; }
   std::string Pipe::get_gas_type() const { return get_type(); }
 
@@ -74,11 +89,7 @@ namespace Model::Gas {
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
       Network::Edge(topology, nodes),
-      number_of_points(
-          static_cast<int>(std::ceil(
-              unit::length.parse_to_si(topology["length"])
-              / topology["desired_delta_x"].get<double>()))
-          + 1),
+      number_of_points(compute_number_of_points(topology)),
       Delta_x(
           unit::length.parse_to_si(topology["length"])
           / (number_of_points - 1)),
-- 
2.43.0


From ff65e5aa7c8d4a2fe31cd465d3f526be64ff10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 25/53] fix: optimizing a problem without controls crashed

---
 src/Grazer/commands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 28f16c5..b1e4551 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -155,6 +155,9 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (problem.get_number_of_controls_per_timepoint() == 0) {
+        gthrow({"There is nothing to optimize, the problem has no controls!"});
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From fff5a5f68e62d31da6a829fe7367264ca24a30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 26/53] fix: numbers of retries and iterations that are no
 counts were rounded or overflowed

---
 src/Model/Problemlayer/Timeevolver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 4286452..65a93b7 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -25,6 +25,7 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <nlohmann/json.hpp>
 
@@ -34,10 +35,12 @@ namespace Model {
     nlohmann::json schema;
     schema["type"] = "object";
     Aux::schema::add_required(schema, "tolerance", Aux::schema::type::number());
+    nlohmann::json count = Aux::schema::type::simple("integer");
+    count["minimum"] = 0;
+    count["maximum"] = std::numeric_limits<int>::max();
     Aux::schema::add_required(
-        schema, "maximal_number_of_newton_iterations",
-        Aux::schema::type::number());
-    Aux::schema::add_required(schema, "retries", Aux::schema::type::number());
+        schema, "maximal_number_of_newton_iterations", count);
+    Aux::schema::add_required(schema, "retries", count);
     Aux::schema::add_required(
         schema, "use_simplified_newton", Aux::schema::type::boolean());
 
-- 
2.43.0


From ed8718b651d3bbc9a9a43512ef7eed0f85bf3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:00 +0000
Subject: [PATCH 27/53] fix: optimizing with a constraint at an unconnected
 node crashed

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index ff5c140..47d4410 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "ConstraintSink.hpp"
+#include "Exception.hpp"
 #include "Matrixhandler.hpp"
 #include "SimpleConstraintcomponent.hpp"
 #include "make_schema.hpp"
@@ -33,6 +34,11 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd> constraint_values, double /*time*/,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The constraint at node ", get_id(),
+           " can't be evaluated, because there is no gas edge attached!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
     auto sample_p_qvol
@@ -46,6 +52,11 @@ namespace Model::Gas {
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The constraint at node ", get_id(),
+           " can't be evaluated, because there is no gas edge attached!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
     Eigen::RowVector2d dconstraint_dpq(1.0, 0.0);
-- 
2.43.0


From 3f858f467708deb1326e93b89e078ccc5762834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:14 +0000
Subject: [PATCH 28/53] fix: a tiny control time step crashed

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index b1c4313..9caee41 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -23,6 +23,7 @@
 #include "schema_validation.hpp"
 
 #include <algorithm>
+#include <limits>
 
 #include <stdexcept>
 #include <string>
@@ -100,6 +101,13 @@ namespace Aux {
 
     auto number_of_entries_double
         = (std::ceil((last_point - first_point) / desired_delta)) + 1;
+    if (not(number_of_entries_double < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"Too many entries in an InterpolatingVector.\n",
+           "Supplied first point: ", std::to_string(first_point), "\n",
+           "Supplied last point: ", std::to_string(last_point), "\n",
+           "Supplied desired stepsize: ", std::to_string(desired_delta)});
+    }
 
     auto number_of_entries = static_cast<size_t>(number_of_entries_double);
 
-- 
2.43.0


From 59c4412b2cfebae24e662645bbce98e64f01e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:14 +0000
Subject: [PATCH 29/53] fix: the number of stochastic time steps could overflow

---
 src/Auxillary/Stochastics/Stochastic.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Stochastics/Stochastic.cpp b/src/Auxillary/Stochastics/Stochastic.cpp
index 1e17eaa..ba53ece 100644
--- a/src/Auxillary/Stochastics/Stochastic.cpp
+++ b/src/Auxillary/Stochastics/Stochastic.cpp
@@ -16,6 +16,7 @@
  */
 #include "Stochastic.hpp"
 #include "Exception.hpp"
+#include <limits>
 #include <string>
 
 namespace Aux {
@@ -43,9 +44,15 @@ namespace Aux {
     }
 
     if (theta * stochastic_stepsize >= stability_parameter) {
-      number_of_stochastic_steps
-          = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)))
-            + 1;
+      double const needed_steps
+          = std::ceil(theta * delta_t / (stability_parameter));
+      if (not(needed_steps < std::numeric_limits<int>::max())) {
+        gthrow(
+            {"Too many stochastic time steps are needed for a stable "
+             "simulation: ",
+             std::to_string(needed_steps)});
+      }
+      number_of_stochastic_steps = static_cast<int>(needed_steps) + 1;
     }
     return number_of_stochastic_steps;
   }
-- 
2.43.0


From 6dfc9678efa2821d7438d40b61bd7524a8e5cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 30/53] fix: generated schemas accepted data points that are no
 objects

---
 src/Auxillary/json_schema/make_schema.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 7a0ccf2..6c286e0 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -160,6 +160,7 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
+    data_element["type"] = "object";
     add_required(data_element, "time", type::number());
     add_required(
         data_element, "values",
-- 
2.43.0


From 5cbaf06bae092286525784a9dd3027439af6cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 31/53] fix: generated schemas demanded entries for components
 without values

---
 src/Model/Componentfactory/Componentfactory.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Model/Componentfactory/Componentfactory.cpp b/src/Model/Componentfactory/Componentfactory.cpp
index bcad9d0..c060c36 100644
--- a/src/Model/Componentfactory/Componentfactory.cpp
+++ b/src/Model/Componentfactory/Componentfactory.cpp
@@ -35,7 +35,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Initial Data",
       "description": "Description of the Networks Initial Data",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
@@ -73,7 +72,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Control",
       "description": "Description of the Controls of a Component",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
@@ -111,7 +109,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Boundary",
       "description": "Description of the Networks Boundary Behaviour",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
-- 
2.43.0


From 00f266dc4b0c308a0fea79ca6ebc25fb586eba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 32/53] fix: default boundary values were refused

---
 .../Componentfactory/Componentfactory.cpp     | 18 ++++++++++++++++
 .../include/Componentfactory.hpp              | 21 +++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/Model/Componentfactory/Componentfactory.cpp b/src/Model/Componentfactory/Componentfactory.cpp
index c060c36..d1740bc 100644
--- a/src/Model/Componentfactory/Componentfactory.cpp
+++ b/src/Model/Componentfactory/Componentfactory.cpp
@@ -19,6 +19,24 @@
 
 namespace Model::Componentfactory {
 
+  void set_id_of_boundary_values(nlohmann::json &topology) {
+    if (not topology.contains("id")
+        or not topology.contains("boundary_values")) {
+      return;
+    }
+    auto &boundary_values = topology["boundary_values"];
+    if (boundary_values.is_object() and not boundary_values.contains("id")) {
+      boundary_values["id"] = topology["id"];
+    }
+  }
+
+  nlohmann::json without_external_defaults(nlohmann::json defaults) {
+    if (defaults.is_object()) {
+      defaults.erase("boundary_values");
+    }
+    return defaults;
+  }
+
   void
   Componentfactory::add_node_type(std::unique_ptr<AbstractNodeType> nodeType) {
     this->node_type_map.insert({nodeType->get_name(), std::move(nodeType)});
diff --git a/src/Model/Componentfactory/include/Componentfactory.hpp b/src/Model/Componentfactory/include/Componentfactory.hpp
index d175b49..b261eb1 100644
--- a/src/Model/Componentfactory/include/Componentfactory.hpp
+++ b/src/Model/Componentfactory/include/Componentfactory.hpp
@@ -109,6 +109,17 @@ namespace Model::Componentfactory {
     return initial_schema;
   }
 
+  /**
+   * @brief Gives default boundary values the id of the component they are used
+   * for, as they are shared by all components of a type.
+   */
+  void set_id_of_boundary_values(nlohmann::json &topology);
+
+  /**
+   * @brief The defaults without those of values that come from other files.
+   */
+  nlohmann::json without_external_defaults(nlohmann::json defaults);
+
   /**
    * @brief Common attributes of AbstractNodeTypes and AbstractEdgeTypes
    * (read their documentation for further details)
@@ -260,7 +271,9 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      Aux::schema::add_defaults(
+          schema,
+          include_external ? defaults : without_external_defaults(defaults));
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
@@ -303,6 +316,7 @@ namespace Model::Componentfactory {
       nlohmann::json topology_schema = get_schema(
           /*allow_required_defaults=*/true, /*include_external=*/true);
       Aux::schema::apply_defaults(topology, topology_schema);
+      set_id_of_boundary_values(topology);
       // order is important (defaults can be required!)
       Aux::schema::validate_json(topology, topology_schema);
 
@@ -363,7 +377,9 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      Aux::schema::add_defaults(
+          schema,
+          include_external ? defaults : without_external_defaults(defaults));
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
@@ -408,6 +424,7 @@ namespace Model::Componentfactory {
       nlohmann::json topology_schema = get_schema(
           /*allow_required_defaults=*/true, /*include_external=*/true);
       Aux::schema::apply_defaults(topology, topology_schema);
+      set_id_of_boundary_values(topology);
       // order is important (defaults can be required!)
       Aux::schema::validate_json(topology, topology_schema);
       check_class_hierarchy_properties<ConcreteEdge>();
-- 
2.43.0


From 39e1256e5793533de2c7cca2f21910340ae805b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 33/53] fix: default boundary values were not used for
 components in between

---
 src/Model/Netfactory/Netfactory.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Model/Netfactory/Netfactory.cpp b/src/Model/Netfactory/Netfactory.cpp
index 3bd4666..044866c 100644
--- a/src/Model/Netfactory/Netfactory.cpp
+++ b/src/Model/Netfactory/Netfactory.cpp
@@ -183,11 +183,9 @@ namespace Model {
                       << std::endl;
             ++secjson_it;
           } else if (id_compare_less(*top_it, *secjson_it)) {
-            gthrow(
-                {"The component with id ", (*top_it)["id"].get<std::string>(),
-                 "\n is given in the topology json but no ",
-                 name_of_inserted_json, " condition is provided."});
-
+            // There may be default values for the component. If not, the
+            // missing values are found when it is built.
+            ++top_it;
           } else {
             (*top_it)[name_of_inserted_json] = (*secjson_it);
             ++secjson_it;
-- 
2.43.0


From a8fb829fcf78b9837f8d0683831f0fae680694e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 34/53] fix: the generated schema of problem_data.json did not
 describe it

---
 docs/problem_data_schema.json                 | 93 +++++++------------
 .../json_schema/schema_generation.cpp         | 93 +++++++------------
 2 files changed, 72 insertions(+), 114 deletions(-)

diff --git a/docs/problem_data_schema.json b/docs/problem_data_schema.json
index a1467e5..a698ae3 100644
--- a/docs/problem_data_schema.json
+++ b/docs/problem_data_schema.json
@@ -2,9 +2,13 @@
 	"$schema": "http://json-schema.org/draft-07/schema",
 	"type": "object",
 	"description": "Metadata of the Problem",
-	"required": ["time_evolution_data", "initial_values", "problem_data"],
+	"required": ["simulation_settings", "problem_data"],
 	"properties": {
-		"time_evolution_data": {
+		"optimize": {
+			"type": "boolean",
+			"description": "Optimize the controls instead of only simulating"
+		},
+		"simulation_settings": {
 			"type": "object",
 			"description": "provides all data on time and newton solver",
 			"required": [
@@ -18,74 +22,49 @@
 			],
 			"properties": {
 				"use_simplified_newton": {"type": "boolean"},
-				"maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
+				"maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0, "maximum": 2147483647},
 				"tolerance": {"type": "number"},
-				"retries": {"type": "integer", "minimum": 0},
+				"retries": {"type": "integer", "minimum": 0, "maximum": 2147483647},
 				"start_time": {"type": "number"},
 				"end_time": {"type": "number"},
-				"desired_delta_t": {"type": "number"}
+				"desired_delta_t": {"type": "number", "exclusiveMinimum": 0}
 			}
 		},
-		"initial_values": {
+		"control_settings": {
 			"type": "object",
-			"description": "holds a file name to an additional initial values json sorted by subproblem",
-			"required": ["subproblems"],
+			"description": "provides the times of the controls",
+			"oneOf": [
+				{"required": ["desired_delta_t"]},
+				{"required": ["number_of_steps"]}
+			],
 			"properties": {
-				"subproblems": {
-					"type": "object",
-					"required": ["Network_problem"],
-					"properties": {
-						"Network_problem": {
-							"type": "object",
-							"required": ["initial_json"],
-							"properties": {
-								"initial_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Initial Values JSON file"
-								}
-							}
-						}
-					}
-				}
+				"desired_delta_t": {"type": "number", "exclusiveMinimum": 0},
+				"number_of_steps": {"type": "integer", "minimum": 2, "maximum": 2147483647}
+			}
+		},
+		"constraint_settings": {
+			"type": "object",
+			"description": "provides the times of the constraints",
+			"properties": {
+				"evaluate_constraints_every_n": {"type": "integer"}
 			}
 		},
 		"problem_data": {
 			"type": "object",
-			"description": "holds a file name to an additional initial values json sorted by subproblem",
-			"required": ["subproblems"],
+			"description": "provides the network",
+			"required": ["topology_json", "boundary_json"],
 			"properties": {
-				"subproblems": {
+				"defaults": {
 					"type": "object",
-					"required": ["Network_problem"],
-					"properties": {
-						"Network_problem": {
-							"type": "object",
-							"required": ["defaults", "topology_json", "boundary_json", "control_json"],
-							"properties": {
-								"defaults": {
-									"type": "object",
-									"patternProperties": {"^.*$": {"type": "object"}},
-									"description": "Components With default Topology Properties"
-								},
-								"topology_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Topology JSON file"
-								},
-								"boundary_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Boundary JSON file"
-								},
-								"control": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Control JSON file"
-								}
-							}
-						}
-					}
+					"description": "Components With default Topology Properties"
+				},
+				"topology_json": {
+					"type": ["string", "object"],
+					"description": "Topology JSON file"
+				},
+				"boundary_json": {
+					"type": ["string", "object"],
+					"description": "Boundary JSON file"
 				}
 			}
 		}
diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 2e1f2bf..9b514b7 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -48,7 +48,7 @@ namespace Aux::schema {
       } catch (nlohmann::json::out_of_range &e) {
         std::cout << "[Warning] The `problem_data.json` does not have the "
                      "expected structure:\n"
-                  << "  problem_data.subproblems.Network_problem.defaults\n"
+                  << "  problem_data.defaults\n"
                   << "  " << e.what() << "\n"
                   << "Generating Schemas without defaults!" << std::endl;
       }
@@ -129,8 +129,12 @@ namespace Aux::schema {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
+        "optimize": {
+          "type": "boolean",
+          "description": "Optimize the controls instead of only simulating"
+        },
         "simulation_settings": {
           "type": "object",
           "description": "provides all data on time and newton solver",
@@ -145,74 +149,49 @@ namespace Aux::schema {
           ],
           "properties": {
             "use_simplified_newton": {"type": "boolean"},
-            "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
+            "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0, "maximum": 2147483647},
             "tolerance": {"type": "number"},
-            "retries": {"type": "integer", "minimum": 0},
+            "retries": {"type": "integer", "minimum": 0, "maximum": 2147483647},
             "start_time": {"type": "number"},
             "end_time": {"type": "number"},
-            "desired_delta_t": {"type": "number"}
+            "desired_delta_t": {"type": "number", "exclusiveMinimum": 0}
           }
         },
-        "initial_values": {
+        "control_settings": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "provides the times of the controls",
+          "oneOf": [
+            {"required": ["desired_delta_t"]},
+            {"required": ["number_of_steps"]}
+          ],
           "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
-            }
+            "desired_delta_t": {"type": "number", "exclusiveMinimum": 0},
+            "number_of_steps": {"type": "integer", "minimum": 2, "maximum": 2147483647}
+          }
+        },
+        "constraint_settings": {
+          "type": "object",
+          "description": "provides the times of the constraints",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer"}
           }
         },
         "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "provides the network",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "description": "Topology JSON file"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "description": "Boundary JSON file"
             }
           }
         }
-- 
2.43.0


From dc88bcedf2cedb85e875023e2b602aaffc5ed56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 35/53] fix: optimization settings of wrong kind were ignored

---
 src/Grazer/commands.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index b1e4551..e2f4346 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -109,9 +109,10 @@ int grazer::run(std::filesystem::path directory_path) {
 
     bool optimize = false;
     if (all_json.contains("optimize")) {
-      if (all_json["optimize"].is_boolean()) {
-        optimize = all_json["optimize"];
+      if (not all_json["optimize"].is_boolean()) {
+        gthrow({"\"optimize\" must be true or false!"});
       }
+      optimize = all_json["optimize"];
     }
     bool optimum_found = true;
     if (not optimize) {
@@ -161,9 +162,14 @@ int grazer::run(std::filesystem::path directory_path) {
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-        if (constraint_settings.contains("evaluate_constraints_every_n")
-            and constraint_settings["evaluate_constraints_every_n"]
-                    .is_number_integer()) {
+        if (not constraint_settings.is_object()) {
+          gthrow({"\"constraint_settings\" must be a json object!"});
+        }
+        if (constraint_settings.contains("evaluate_constraints_every_n")) {
+          if (not constraint_settings["evaluate_constraints_every_n"]
+                      .is_number_integer()) {
+            gthrow({"\"evaluate_constraints_every_n\" must be an integer!"});
+          }
           n = constraint_settings["evaluate_constraints_every_n"];
         }
       }
-- 
2.43.0


From 33836da6ba3a50a77303a0bc0cd5e4aa9d27d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 36/53] fix: numbers of control steps that are no counts were
 rounded or overflowed

---
 src/Grazer/helpers.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index 3e16414..c078e2b 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -16,9 +16,11 @@
  */
 #include "helpers.hpp"
 #include "Aux_json.hpp"
+#include "Exception.hpp"
 #include "InterpolatingVector.hpp"
 #include "OptimizableObject.hpp"
 #include "Timedata.hpp"
+#include <limits>
 #include <nlohmann/json.hpp>
 #include <sstream>
 void setup_controls(
@@ -43,8 +45,17 @@ void setup_controls(
         control_timehelper = Aux::make_from_start_delta_end(
             timedata.get_starttime(), control_delta_t, timedata.get_endtime());
       } else if (control_settings.contains("number_of_steps")) {
-        auto number_of_controls
-            = control_settings["number_of_steps"].get<int>();
+        auto &number_of_steps = control_settings["number_of_steps"];
+        if (not number_of_steps.is_number_integer()
+            or number_of_steps.get<double>()
+                   > std::numeric_limits<int>::max()
+            or number_of_steps.get<double>()
+                   < std::numeric_limits<int>::min()) {
+          gthrow(
+              {"\"number_of_steps\" is not a valid number of steps: ",
+               number_of_steps.dump()});
+        }
+        auto number_of_controls = number_of_steps.get<int>();
         control_timehelper = Aux::make_from_start_number_end(
             timedata.get_starttime(), timedata.get_endtime(),
             number_of_controls);
-- 
2.43.0


From 283f50d06b274887a643a0c8b07069e00c58516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 37/53] fix: seeds and numbers of stochastic steps that are no
 counts were rounded or overflowed

---
 .../Networkproblem/Power/StochasticPQnode.cpp     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index 2e19556..b475a01 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -19,6 +19,7 @@
 #include "Stochastic.hpp"
 #include "make_schema.hpp"
 #include <fstream>
+#include <limits>
 
 namespace Model::Power {
 
@@ -36,15 +37,21 @@ namespace Model::Power {
     Aux::schema::add_required(schema, "theta_P", Aux::schema::type::number());
     Aux::schema::add_required(schema, "sigma_Q", Aux::schema::type::number());
     Aux::schema::add_required(schema, "theta_Q", Aux::schema::type::number());
-    Aux::schema::add_required(
-        schema, "number_of_stochastic_steps", Aux::schema::type::number());
+    nlohmann::json count = Aux::schema::type::simple("integer");
+    count["minimum"] = 0;
+    count["maximum"] = std::numeric_limits<int>::max();
+    Aux::schema::add_required(schema, "number_of_stochastic_steps", count);
     return schema;
   }
 
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
-    auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+    nlohmann::json seed_element = Aux::schema::type::simple("integer");
+    seed_element["minimum"] = 0;
+    seed_element["maximum"] = std::numeric_limits<uint32_t>::max();
+    auto seed_schema = Aux::schema::make_list_schema_of(
+        seed_element, {{"minItems", Aux::pcg_seed_count},
+                       {"maxItems", Aux::pcg_seed_count}});
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
-- 
2.43.0


From 61442be5935d93cc271b8f52fc5bb1afdadcf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 38/53] fix: extract_new_initial_condition takes the state at
 the given time, not the one before

---
 helper_functions/extract_new_initial_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 018359b..8b9df35 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -70,7 +70,8 @@ int main(int argc, char **argv) {
         auto it = std::lower_bound(
             component["data"].begin(), component["data"].end(),
             time_compare_value, less_time);
-        if (it != component["data"].begin()) {
+        if (it == component["data"].end()
+            and it != component["data"].begin()) {
           --it;
         }
         json initialdata;
-- 
2.43.0


From 28dce52f466c17df77d2accab6c1e62a07e4dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 39/53] fix: change_inflow leaves the file alone when the
 inflow can't be scaled

---
 helper_functions/change_inflow.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index dc35314..52a309c 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -46,11 +46,18 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
   }
 
+  if (old_summed_input == 0.0) {
+    std::cout << "Error: old gas input was zero, it can't be scaled!"
+              << std::endl;
+    return 1;
+  }
+
   try {
     for (auto &source : results["nodes"]["Source"]) {
       source["data"][0]["values"][0]
@@ -62,6 +69,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 72aafb8e57a5f54ab12b5509d272e7484f0c27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 40/53] fix: helpers report when their output can't be written

---
 helper_functions/extract_new_initial_condition.cpp | 5 +++++
 helper_functions/generate_control_printing_csv.cpp | 4 ++++
 helper_functions/generate_printing_csv.cpp         | 8 ++++++++
 3 files changed, 17 insertions(+)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 8b9df35..89b7fb1 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -95,6 +95,11 @@ int main(int argc, char **argv) {
   {
     std::ofstream outstream(outputfile);
     outstream << new_initial_values.dump(1, '\t');
+    outstream.close();
+    if (not outstream) {
+      std::cout << "Failed to write to " << outputfile.string() << std::endl;
+      return 1;
+    }
   }
 }
 
diff --git a/helper_functions/generate_control_printing_csv.cpp b/helper_functions/generate_control_printing_csv.cpp
index f85a778..0eda7c9 100644
--- a/helper_functions/generate_control_printing_csv.cpp
+++ b/helper_functions/generate_control_printing_csv.cpp
@@ -123,6 +123,10 @@ int main(int argc, char **argv) {
       }
       outstream << "\n";
     }
+    outstream.close();
+    if (not outstream) {
+      throw std::runtime_error("Failed to write to " + outpath.string());
+    }
 
   } catch (std::exception &e) {
     std::cout << e.what() << std::endl;
diff --git a/helper_functions/generate_printing_csv.cpp b/helper_functions/generate_printing_csv.cpp
index 4e0d084..b88e1aa 100644
--- a/helper_functions/generate_printing_csv.cpp
+++ b/helper_functions/generate_printing_csv.cpp
@@ -157,6 +157,10 @@ void write_power_csv(std::string id, json object) {
     }
     outstream << "\n";
   }
+  outstream.close();
+  if (not outstream) {
+    throw std::runtime_error("Failed to write to " + outpath.string());
+  }
 }
 
 void write_gas_csv(std::string id, json object) {
@@ -192,5 +196,9 @@ void write_gas_csv(std::string id, json object) {
       }
       outstream << "\n";
     }
+    outstream.close();
+    if (not outstream) {
+      throw std::runtime_error("Failed to write to " + outpath.string());
+    }
   }
 }
-- 
2.43.0


From 2fd476dcf22eb61b8e328c83e79ca3f30b17ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 41/53] fix: heat maps of power nets coloured nodes with the
 maximum of other nodes

The maximum was carried on from one node to the next of the same type.
---
 helper_functions/draw_heatmap_power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index e4d0893..f649d6d 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -106,8 +106,8 @@ int main(int argc, char **argv) {
       continue;
     }
     // auto color = colorchooser(type);
-    double value = min;
     for (auto const &node : topology["nodes"][type]) {
+      double value = min;
       if (not node.contains("results")) {
         std::cout << node.dump(1, '\t');
         throw std::runtime_error("no results!!");
-- 
2.43.0


From 7ab312ddb2fc91ab0ac0358a5ddabb6038c600da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 42/53] fix: heat maps of gas nets had a scale from infinity to
 infinity

The maximum along a pipe started with the smallest pressure so far, which is
at first the greatest number, so that all edges had the same colour.
---
 helper_functions/draw_heatmap_gaslib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index e0b6a8d..e02e902 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -279,7 +279,7 @@ std::pair<double, double> extract_min_max_values(
           if (key != "pressure") {
             continue;
           }
-          double pipe_wide_max = min;
+          double pipe_wide_max = std::numeric_limits<double>::lowest();
           for (auto const &xpoint : quantity) {
             if (xpoint["value"] > pipe_wide_max) {
               pipe_wide_max = xpoint["value"];
-- 
2.43.0


From b3660c7bdff859d1a228bdc527ec8239a12796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 43/53] fix: drawings that could not be written were reported
 as success

---
 helper_functions/draw_gaslib_graph.cpp   | 7 +++++++
 helper_functions/draw_heatmap_gaslib.cpp | 7 +++++++
 helper_functions/draw_heatmap_power.cpp  | 7 +++++++
 helper_functions/draw_power_graph.cpp    | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/helper_functions/draw_gaslib_graph.cpp b/helper_functions/draw_gaslib_graph.cpp
index 7f71bae..7e9cee3 100644
--- a/helper_functions/draw_gaslib_graph.cpp
+++ b/helper_functions/draw_gaslib_graph.cpp
@@ -120,6 +120,13 @@ int main(int argc, char **argv) {
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
 
+  outstream.flush();
+  if (not outstream) {
+    std::cout << "The drawing could not be written to " << texfile << "!"
+              << std::endl;
+    return 1;
+  }
+
   //   for (auto &comptype : input) { // nodes and connections
   //     if (not comptype.contains(from_category)) {
   //       continue;
diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index e02e902..bbd3a7b 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -232,6 +232,13 @@ int main(int argc, char **argv) {
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+
+  outstream.flush();
+  if (not outstream) {
+    std::cout << "The drawing could not be written to " << texfile << "!"
+              << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index f649d6d..8321b28 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -222,6 +222,13 @@ int main(int argc, char **argv) {
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+
+  outstream.flush();
+  if (not outstream) {
+    std::cout << "The drawing could not be written to " << texfile << "!"
+              << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
diff --git a/helper_functions/draw_power_graph.cpp b/helper_functions/draw_power_graph.cpp
index 9109d49..0251fae 100644
--- a/helper_functions/draw_power_graph.cpp
+++ b/helper_functions/draw_power_graph.cpp
@@ -127,6 +127,13 @@ int main(int argc, char **argv) {
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+
+  outstream.flush();
+  if (not outstream) {
+    std::cout << "The drawing could not be written to " << texfile << "!"
+              << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
-- 
2.43.0


From 9accf909e331b881bed38846ca8d6a5e6f32dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:08 +0000
Subject: [PATCH 44/53] fix: the exact friction factor was left at the first
 guess

The iteration stopped at the first residual below the tolerance, which includes every negative one.
---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index b6a6f1c..4102569 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -343,7 +343,7 @@ namespace Model::Balancelaw {
       double f = mu + 2 * log10(inner);
       double df = 1 + 2 / log(10) * dinner_dmu / inner;
       mu = mu - f / df;
-      if (f < 1e-12) {
+      if (std::abs(f) < 1e-12) {
         break;
       }
     }
-- 
2.43.0


From 9ff4bd139b9e5733aab11d33d7113a810b1135cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 45/53] fix: pressure increases and outflow sums that failed
 were used anyway

---
 helper_functions/increase_pressure.cpp | 1 +
 helper_functions/sum_outflow.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index e63bc84..840a37c 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -63,6 +63,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
diff --git a/helper_functions/sum_outflow.cpp b/helper_functions/sum_outflow.cpp
index d9c80c5..4422c48 100644
--- a/helper_functions/sum_outflow.cpp
+++ b/helper_functions/sum_outflow.cpp
@@ -44,6 +44,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 15674d4e44311904745b172e753650f5dd87da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 46/53] fix: change_inflow read past the end of sources with
 one data point

---
 helper_functions/change_inflow.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index 52a309c..6e5fe0b 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -38,11 +38,11 @@ int main(int argc, char **argv) {
   double old_summed_input = 0;
   try {
     for (auto const &source : results["nodes"]["Source"]) {
-      if (source["data"][0]["values"][0].get<double>()
-          != source["data"][1]["values"][0].get<double>()) {
+      if (source["data"].at(0)["values"][0].get<double>()
+          != source["data"].at(1)["values"][0].get<double>()) {
         throw std::runtime_error("old gas input was not constant!");
       }
-      old_summed_input += source["data"][0]["values"][0].get<double>();
+      old_summed_input += source["data"].at(0)["values"][0].get<double>();
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
@@ -60,11 +60,11 @@ int main(int argc, char **argv) {
 
   try {
     for (auto &source : results["nodes"]["Source"]) {
-      source["data"][0]["values"][0]
-          = source["data"][0]["values"][0].get<double>() * influx
+      source["data"].at(0)["values"][0]
+          = source["data"].at(0)["values"][0].get<double>() * influx
             / old_summed_input;
-      source["data"][1]["values"][0]
-          = source["data"][1]["values"][0].get<double>() * influx
+      source["data"].at(1)["values"][0]
+          = source["data"].at(1)["values"][0].get<double>() * influx
             / old_summed_input;
     }
   } catch (std::exception &e) {
-- 
2.43.0


From 537a6d70ce43dc369e6c70cfeb00e96839a32919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 47/53] fix: components after the last position silently got no
 position

---
 helper_functions/insert_positions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/helper_functions/insert_positions.cpp b/helper_functions/insert_positions.cpp
index 4861054..227701c 100644
--- a/helper_functions/insert_positions.cpp
+++ b/helper_functions/insert_positions.cpp
@@ -101,6 +101,12 @@ void insert_positions(json &topology, json &second_json) {
           ++top_it;
         }
       }
+      if (top_it != topology_vector_json.end()) {
+        gthrow(
+            {"The component with id ", (*top_it)["id"].get<std::string>(),
+             "\n is given in the topology json but no ", "positions",
+             " condition is provided."});
+      }
     }
   }
 }
-- 
2.43.0


From f15889691d73762019539e026f8c3b0fe171ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 48/53] fix: insert_positions and stringify_values report when
 their output can't be written

---
 helper_functions/insert_positions.cpp     | 6 ++++++
 helper_functions/stringify_value_json.cpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/helper_functions/insert_positions.cpp b/helper_functions/insert_positions.cpp
index 227701c..4634957 100644
--- a/helper_functions/insert_positions.cpp
+++ b/helper_functions/insert_positions.cpp
@@ -48,6 +48,12 @@ int main(int argc, char **argv) {
   {
     std::ofstream outstream(outfile);
     outstream << topology.dump(1, '\t');
+    outstream.flush();
+    if (not outstream) {
+      std::cout << "The file " << outfile << " could not be written!"
+                << std::endl;
+      return 1;
+    }
   }
 }
 
diff --git a/helper_functions/stringify_value_json.cpp b/helper_functions/stringify_value_json.cpp
index 3b5940a..130d73c 100644
--- a/helper_functions/stringify_value_json.cpp
+++ b/helper_functions/stringify_value_json.cpp
@@ -63,4 +63,9 @@ int main(int argc, char *argv[]) {
   }
   std::ofstream out(argv[2]);
   out << std::setw(4) << value_json << std::endl;
+  if (not out) {
+    std::cout << "The file " << argv[2] << " could not be written!"
+              << std::endl;
+    return 1;
+  }
 }
-- 
2.43.0


From cc506360e5d86b0c20dc2363b6d1f3e8a38768b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 49/53] fix: tools lost the files they edit when writing
 failed, and reported success

---
 helper_functions/CMakeLists.txt                      |  7 +++++++
 helper_functions/change_inflow.cpp                   | 10 +++++++---
 helper_functions/construct_gaspowerconnection.cpp    | 10 +++++++---
 helper_functions/include_seed_in_boundaryvalues.cpp  | 10 +++++++---
 helper_functions/increase_pressure.cpp               | 10 +++++++---
 helper_functions/move_to_category.cpp                | 10 +++++++---
 helper_functions/normalize_jsons.cpp                 | 10 +++++++---
 helper_functions/remove_seed_from_boundaryvalues.cpp | 10 +++++++---
 8 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/helper_functions/CMakeLists.txt b/helper_functions/CMakeLists.txt
index 52b04c9..f957ec2 100644
--- a/helper_functions/CMakeLists.txt
+++ b/helper_functions/CMakeLists.txt
@@ -21,7 +21,9 @@ target_link_libraries(generate_control_printing_csv PRIVATE input_output)
 
 
 add_executable(move_to_category move_to_category.cpp)
+target_link_libraries(move_to_category PRIVATE aux_json)
 add_executable(normalize_jsons normalize_jsons.cpp)
+target_link_libraries(normalize_jsons PRIVATE aux_json)
 add_executable(draw_gaslib_graph draw_gaslib_graph.cpp)
 
 
@@ -31,14 +33,19 @@ add_executable(extract_new_initial_condition extract_new_initial_condition.cpp)
 
 add_executable(pv_to_vphi pv_to_vphi.cpp)
 add_executable(construct_gaspowerconnection construct_gaspowerconnection.cpp)
+target_link_libraries(construct_gaspowerconnection PRIVATE aux_json)
 
 
 
 add_executable(sum_outflow sum_outflow.cpp)
 add_executable(change_inflow change_inflow.cpp)
+target_link_libraries(change_inflow PRIVATE aux_json)
 add_executable(increase_pressure increase_pressure.cpp)
+target_link_libraries(increase_pressure PRIVATE aux_json)
 add_executable(include_seed_in_boundaryvalues include_seed_in_boundaryvalues.cpp)
+target_link_libraries(include_seed_in_boundaryvalues PRIVATE aux_json)
 add_executable(remove_seed_from_boundaryvalues remove_seed_from_boundaryvalues.cpp)
+target_link_libraries(remove_seed_from_boundaryvalues PRIVATE aux_json)
 
 add_executable(draw_heatmap_gaslib draw_heatmap_gaslib.cpp)
 target_link_libraries(draw_heatmap_gaslib PUBLIC netfactory componentjsonhelpers)
diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index 6e5fe0b..f589fcb 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -74,9 +76,11 @@ int main(int argc, char **argv) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
   }
-  {
-    std::ofstream resultsstream(inputfile);
-    resultsstream << results.dump(1, '\t');
+  try {
+    aux_json::overwrite_json(inputfile, results);
+  } catch (std::exception &e) {
+    std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
diff --git a/helper_functions/construct_gaspowerconnection.cpp b/helper_functions/construct_gaspowerconnection.cpp
index f60dab2..435727a 100644
--- a/helper_functions/construct_gaspowerconnection.cpp
+++ b/helper_functions/construct_gaspowerconnection.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -80,9 +82,11 @@ int main(int argc, char **argv) {
       }
     }
 
-    {
-      std::ofstream outputstream((fs::path(file)));
-      outputstream << input.dump(1, '\t');
+    try {
+      aux_json::overwrite_json(file, input);
+    } catch (std::exception &e) {
+      std::cout << "Error: " << e.what() << std::endl;
+      return 1;
     }
   }
 }
diff --git a/helper_functions/include_seed_in_boundaryvalues.cpp b/helper_functions/include_seed_in_boundaryvalues.cpp
index 8be39ca..a31db9f 100644
--- a/helper_functions/include_seed_in_boundaryvalues.cpp
+++ b/helper_functions/include_seed_in_boundaryvalues.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -92,9 +94,11 @@ int main(int argc, char **argv) {
       }
     }
   }
-  {
-    std::ofstream boundarystream(boundaryfile);
-    boundarystream << boundary.dump(1, '\t');
+  try {
+    aux_json::overwrite_json(boundaryfile, boundary);
+  } catch (std::exception &e) {
+    std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index 840a37c..45b74a6 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -69,9 +71,11 @@ int main(int argc, char **argv) {
     return 1;
   }
 
-  {
-    std::ofstream resultsstream(inputfile);
-    resultsstream << results.dump(1, '\t');
+  try {
+    aux_json::overwrite_json(inputfile, results);
+  } catch (std::exception &e) {
+    std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
diff --git a/helper_functions/move_to_category.cpp b/helper_functions/move_to_category.cpp
index 86012d2..b1b4edb 100644
--- a/helper_functions/move_to_category.cpp
+++ b/helper_functions/move_to_category.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -68,9 +70,11 @@ int main(int argc, char **argv) {
       std::cout << "No object with id " << id << " in category "
                 << from_category << " in file " << file << std::endl;
     } else {
-      {
-        std::ofstream outputstream((fs::path(file)));
-        outputstream << input.dump(1, '\t');
+      try {
+        aux_json::overwrite_json(file, input);
+      } catch (std::exception &e) {
+        std::cout << "Error: " << e.what() << std::endl;
+        return 1;
       }
     }
   }
diff --git a/helper_functions/normalize_jsons.cpp b/helper_functions/normalize_jsons.cpp
index 6a61875..d7897b3 100644
--- a/helper_functions/normalize_jsons.cpp
+++ b/helper_functions/normalize_jsons.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -19,9 +21,11 @@ int main() {
       std::ifstream inputstream((fs::path(file)));
       inputstream >> input;
     }
-    {
-      std::ofstream outputstream((fs::path(file)));
-      outputstream << input.dump(1, '\t');
+    try {
+      aux_json::overwrite_json(file, input);
+    } catch (std::exception &e) {
+      std::cout << "Error: " << e.what() << std::endl;
+      return 1;
     }
   }
 }
diff --git a/helper_functions/remove_seed_from_boundaryvalues.cpp b/helper_functions/remove_seed_from_boundaryvalues.cpp
index 9fc498b..8c7f0d8 100644
--- a/helper_functions/remove_seed_from_boundaryvalues.cpp
+++ b/helper_functions/remove_seed_from_boundaryvalues.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -48,9 +50,11 @@ int main(int argc, char **argv) {
       }
     }
   }
-  {
-    std::ofstream boundarystream(boundaryfile);
-    boundarystream << boundary.dump(1, '\t');
+  try {
+    aux_json::overwrite_json(boundaryfile, boundary);
+  } catch (std::exception &e) {
+    std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From 9ba4f18cce3d18db568f112d75f197982f78927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:30 +0000
Subject: [PATCH 50/53] fix: checking a path above the root read past its end

---
 src/Auxillary/Input_Output/Input_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 1906a17..9cfc427 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -32,7 +32,7 @@ namespace io {
 
     auto [root_end_iterator, ignored_value] = std::mismatch(
         problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
+        absolute_path.begin(), absolute_path.end());
 
     if (root_end_iterator != problem_root_path.end()) {
       return false;
-- 
2.43.0


From 17dc226548790942cb7623a9acf677c4a8572b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:30 +0000
Subject: [PATCH 51/53] fix: extract_new_initial_condition read past the end of
 components without results

---
 helper_functions/extract_new_initial_condition.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 89b7fb1..0fc100d 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -65,6 +65,11 @@ int main(int argc, char **argv) {
         auto less_time = [](json const &a, json const &b) -> bool {
           return a["time"] < b["time"];
         };
+        if (not component.contains("data") or component["data"].empty()) {
+          std::cout << "There are no results for the object with id: "
+                    << component["id"] << std::endl;
+          return 2;
+        }
         json time_compare_value;
         time_compare_value["time"] = time;
         auto it = std::lower_bound(
-- 
2.43.0


From 18ef67794fabeb6924944f4c03b5dd81175b7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 52/53] fix: commands given together all used the directory of
 the last one

---
 src/Grazer/grazer.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Grazer/grazer.cpp b/src/Grazer/grazer.cpp
index 4d1d6a0..040faf1 100644
--- a/src/Grazer/grazer.cpp
+++ b/src/Grazer/grazer.cpp
@@ -41,30 +41,34 @@ int main(int argc, char **argv) {
     CLI::App *grazer_run = app.add_subcommand(
         "run", "Simulate the evolution of the given dynamical system");
 
-    std::filesystem::path grazer_dir;
+    // Every subcommand needs its own directory, as they can be combined.
+    std::filesystem::path run_dir;
     grazer_run
         ->add_option<std::filesystem::path, std::string>(
-            "grazer-directory", grazer_dir,
+            "grazer-directory", run_dir,
             "directory with problem specification")
         ->required();
 
-    grazer_run->callback([&]() { return grazer::run(grazer_dir); });
+    grazer_run->callback([&]() { return grazer::run(run_dir); });
 
     CLI::App *grazer_schema = app.add_subcommand(
         "schema",
         "Schema Helpers for the JSON Schemas validating the input files");
     grazer_schema->require_subcommand();
 
+    std::filesystem::path make_full_factory_dir;
     CLI::App *g_schema_make_full_factory = grazer_schema->add_subcommand(
         "make-full-factory", "Create the Schemas for the Full Factory problem");
     g_schema_make_full_factory
         ->add_option<std::filesystem::path>(
-            "grazer-directory", grazer_dir,
+            "grazer-directory", make_full_factory_dir,
             "directory with problem specification")
         ->required();
-    g_schema_make_full_factory->callback(
-        [&]() { return Aux::schema::make_full_factory_schemas(grazer_dir); });
+    g_schema_make_full_factory->callback([&]() {
+      return Aux::schema::make_full_factory_schemas(make_full_factory_dir);
+    });
 
+    std::filesystem::path insert_key_dir;
     CLI::App *g_schema_insert_key = grazer_schema->add_subcommand(
         "insert-key",
         "Insert the \"$schema\" key with the appropriate schema into the "
@@ -72,11 +76,11 @@ int main(int argc, char **argv) {
         "JSONs");
     g_schema_insert_key
         ->add_option<std::filesystem::path, std::string>(
-            "grazer-directory", grazer_dir,
+            "grazer-directory", insert_key_dir,
             "directory with problem specification")
         ->required();
     g_schema_insert_key->callback([&]() {
-      return Aux::schema::insert_schema_key_into_data_jsons(grazer_dir);
+      return Aux::schema::insert_schema_key_into_data_jsons(insert_key_dir);
     });
 
     try {
-- 
2.43.0


From c9201f834153c5100b35eba21075043db2b20d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:16 +0000
Subject: [PATCH 53/53] fix: an optimization without constraints ended with an
 error and lost its optimum

---
 src/Grazer/commands.cpp | 62 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index e2f4346..cac2c5b 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -243,24 +243,26 @@ int grazer::run(std::filesystem::path directory_path) {
         gthrow({"The optimization ended without a solution!"});
       }
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      if (optimizer.get_total_no_constraints() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
@@ -268,19 +270,21 @@ int grazer::run(std::filesystem::path directory_path) {
 
       auto ipoptcontrols = adaptor.get_solution();
 
-      Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
-
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
-      std::cout << "Maximum lower constraint violation:\n"
-                << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
-      std::cout << "Maximum upper constraint violation:\n"
-                << std::max(0.0, upper_violation) << std::endl;
+      if (optimizer.get_total_no_constraints() > 0) {
+        Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
+
+        optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
+        auto lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        std::cout << "Maximum lower constraint violation:\n"
+                  << std::max(0.0, lower_violation) << std::endl;
+        auto upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+        std::cout << "Maximum upper constraint violation:\n"
+                  << std::max(0.0, upper_violation) << std::endl;
+      }
 
       double objective = 0;
       optimizer.new_x();
-- 
2.43.0

