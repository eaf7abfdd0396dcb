From feffdc0d4b39d5fb7b353e78a998f7791f971d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 01/43] fix: do not report a NaN residual as a successful
 Newton solve

---
 src/Newtonsolver/Newtonsolver.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..2fb6015 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,9 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // Written such that a NaN residual does not count as success:
+    solstruct.residual = rootvalues.norm();
+    solstruct.success = (solstruct.residual <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From aebdec38c5e958d49a5afe9db4858d1077e4fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 02/43] fix: actually check that interpolation points are
 sorted

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..3ddf784 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -169,8 +169,9 @@ namespace Aux {
       std::vector<double> _interpolation_points, Eigen::Index _inner_length) :
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
+    // _interpolation_points was moved from, so check the member:
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From 59d3c5980c83f0253a2b8dc1c57570f5e3837e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 03/43] fix: derivative of the Swamee-Jain friction factor

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From 356a3701e46136c350f6f7d7d90a0e6dff7b4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 04/43] fix: StochasticPQnode output reports the power of the
 saved state

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..ecad326 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,8 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From b00f614ab6aa38a4da4ff9ed3f799c451b95a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 05/43] fix: time grids of long or finely resolved runs do not
 abort any more

---
 .../InterpolatingVector.cpp                   | 40 ++++++++-----------
 src/Auxillary/Mathfunctions/Mathfunctions.cpp |  5 +++
 .../Mathfunctions/include/Mathfunctions.hpp   |  5 +++
 src/IpoptWrapper/ImplicitOptimizer.cpp        |  4 +-
 .../Optimization_helpers.cpp                  |  6 +--
 5 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 3ddf784..31f8b9a 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -49,11 +49,9 @@ namespace Aux {
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
     assert(
-        last_point
-        > first_point + (number_of_entries - 1) * delta - Aux::EPSILON);
-    assert(
-        last_point
-        < first_point + (number_of_entries - 1) * delta + Aux::EPSILON);
+        std::abs(last_point - (first_point + (number_of_entries - 1) * delta))
+        < Aux::scaled_epsilon(
+            std::max(std::abs(first_point), std::abs(last_point))));
     return {first_point, delta, number};
   }
 
@@ -98,13 +96,12 @@ namespace Aux {
         = ((last_point - first_point)
            / (static_cast<double>(number_of_entries - 1)));
     assert(
-        last_point > first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         - Aux::EPSILON);
-    assert(
-        last_point < first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         + Aux::EPSILON);
+        std::abs(
+            last_point
+            - (first_point
+               + static_cast<double>(number_of_entries - 1) * delta))
+        < Aux::scaled_epsilon(
+            std::max(std::abs(first_point), std::abs(last_point))));
 
     return {first_point, delta, number_of_entries};
   }
@@ -115,19 +112,12 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // Summing up delta would accumulate rounding errors.
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
-    // check for double equality. Should be an aux function...
-    assert(
-        (std::abs(
-            interpolation_points.back()
-            - (startpoint
-               + static_cast<double>(number_of_entries - 1) * delta)))
-        < Aux::EPSILON);
     return interpolation_points;
   }
 
@@ -253,7 +243,8 @@ namespace Aux {
 
   Eigen::VectorXd InterpolatingVector_Base::operator()(double t) const {
     if (t >= interpolation_points.back()) {
-      if (t > interpolation_points.back() + Aux::EPSILON) {
+      if (t > interpolation_points.back()
+                  + Aux::scaled_epsilon(interpolation_points.back())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is higher than the last valid value: "
@@ -267,7 +258,8 @@ namespace Aux {
           inner_length);
     }
     if (t <= interpolation_points.front()) {
-      if (t < interpolation_points.front() - Aux::EPSILON) {
+      if (t < interpolation_points.front()
+                  - Aux::scaled_epsilon(interpolation_points.front())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is lower than the first valid value: "
diff --git a/src/Auxillary/Mathfunctions/Mathfunctions.cpp b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
index 531de77..f061cca 100644
--- a/src/Auxillary/Mathfunctions/Mathfunctions.cpp
+++ b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
@@ -16,6 +16,7 @@
  */
 #include <Exception.hpp>
 #include <Mathfunctions.hpp>
+#include <algorithm>
 #include <cmath>
 
 namespace Aux {
@@ -25,6 +26,10 @@ namespace Aux {
   double const Pi = 3.141592653589793;
   double const EPSILON = 1e-10;
 
+  double scaled_epsilon(double x) {
+    return EPSILON * std::max(1.0, std::abs(x));
+  }
+
   double circle_area(double radius) { return Pi * radius * radius; }
 
   double smooth_abs(double x) {
diff --git a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
index dbb6ff9..a56db05 100644
--- a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
+++ b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
@@ -24,6 +24,11 @@ namespace Aux {
   /// less than EPSILON, are considered equal.
   extern double const EPSILON;
 
+  /// \brief EPSILON scaled to the magnitude of x, but never smaller than EPSILON
+  /// itself. Use this to compare values of magnitude x that stem from different
+  /// floating point computations.
+  double scaled_epsilon(double x);
+
   double circle_area(double radius);
 
   /// A C^1 absolute value function.
diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..a5eb17c 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -125,7 +125,9 @@ namespace Optimization {
 
     // check that latest control timepoint is after or at latest state
     // timepoint:
-    if (back(control_timepoints) + Aux::EPSILON < back(state_timepoints)) {
+    if (back(control_timepoints)
+            + Aux::scaled_epsilon(back(control_timepoints))
+        < back(state_timepoints)) {
       gthrow(
           {"latest state timepoint is not inside the control timepoint span."});
     }
diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..6fb0c33 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -27,11 +27,11 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &timepoints, double time) {
     assert(timepoints.size() > 0);
     assert(time >= front(timepoints));
-    assert(time <= back(timepoints) + Aux::EPSILON);
+    assert(
+        time <= back(timepoints) + Aux::scaled_epsilon(back(timepoints)));
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
-    if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+    if (time >= back(timepoints)) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From 8458584b9f1cc5bb856f75f4213cc68afefb18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 06/43] fix: reject a single entry for a grid with two end
 points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 31f8b9a..f90ce56 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -45,6 +45,12 @@ namespace Aux {
            "Supplied first point: ", std::to_string(first_point), "\n",
            "Supplied last point: ", std::to_string(last_point), "\n"});
     }
+    if (number_of_entries == 1) {
+      gthrow(
+          {"An InterpolatingVector, that should reach from ",
+           std::to_string(first_point), " to ", std::to_string(last_point),
+           " needs at least 2 entries!"});
+    }
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-- 
2.43.0


From ad917f563b4a2a6c04f17bedef5f1b026c36efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 07/43] fix: missing time settings are an error, not an abort

---
 src/Auxillary/Timedata/Timedata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..bd76140 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -20,10 +20,10 @@
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-- 
2.43.0


From 1e8117618cacc46e1161362333d522b6c5a06cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 08/43] fix: overwrite_json never loses the old file and
 reports failures

---
 src/Auxillary/aux_json/Aux_json.cpp | 43 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..f6bd99b 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -106,38 +106,31 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // creating a backup if this file existed
-    bool had_existed = false;
-    std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
-    if (std::filesystem::exists(file_path)) {
-      had_existed = true;
-      std::filesystem::rename(file_path, backup_path);
-      if (not std::filesystem::exists(backup_path)) {
-        throw std::filesystem::filesystem_error(
-            "backup file could not be created, aborting", std::error_code());
-      }
-    }
+    // Write the new content to a fresh file next to file_path and only replace
+    // file_path, once everything is safely written.
+    std::filesystem::path temporary_path;
+    int counter = 0;
+    do {
+      temporary_path = file_path;
+      temporary_path += ".tmp" + std::to_string(counter);
+      ++counter;
+    } while (std::filesystem::exists(
+        std::filesystem::symlink_status(temporary_path)));
 
     try {
-      // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs(temporary_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
+      if (not ofs) {
+        gthrow({"Could not write the file \n", temporary_path.string(), "\n"});
+      }
+      std::filesystem::rename(temporary_path, file_path);
     } catch (...) {
       std::cout << "something went wrong writing the modified json to file"
                 << std::endl;
-      if (had_existed) {
-        if (std::filesystem::exists(backup_path)) {
-          std::cout << "rolling back to old version" << std::endl;
-          std::filesystem::rename(backup_path, file_path);
-        } else {
-          std::cout << "backup file is missing!" << std::endl;
-        }
-      }
-    }
-    // remove backup
-    if (had_existed) {
-      std::filesystem::remove(backup_path);
+      std::error_code ignored;
+      std::filesystem::remove(temporary_path, ignored);
+      throw;
     }
   }
 
-- 
2.43.0


From 3672eb15f69e2e583b7d6b9d1e6b50c4ce879f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 09/43] fix: do not iterate past the end of a path

---
 src/Auxillary/Input_Output/Input_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..c472d91 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -32,7 +32,7 @@ namespace io {
 
     auto [root_end_iterator, ignored_value] = std::mismatch(
         problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
+        absolute_path.begin(), absolute_path.end());
 
     if (root_end_iterator != problem_root_path.end()) {
       return false;
-- 
2.43.0


From aa39125b6b833df65ff73c6bb2887c518792c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 10/43] fix: insert-key does not rewrite json files that are
 not objects

---
 src/Auxillary/json_schema/schema_key_insertion.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_key_insertion.cpp b/src/Auxillary/json_schema/schema_key_insertion.cpp
index c140148..3e73579 100644
--- a/src/Auxillary/json_schema/schema_key_insertion.cpp
+++ b/src/Auxillary/json_schema/schema_key_insertion.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <nlohmann/json.hpp>
 #include <schema_key_insertion.hpp>
+#include <stdexcept>
 
 namespace Aux::schema {
   using nlohmann::ordered_json;
@@ -42,6 +43,11 @@ namespace Aux::schema {
         ordered_json old_json;
         if (std::filesystem::exists(file)) {
           old_json = aux_json::get_ordered_json_from_file_path(file);
+          if (not old_json.is_object()) {
+            throw std::runtime_error(
+                "The file " + file.string()
+                + " does not contain a json object, cannot insert a key!");
+          }
         } else {
           old_json = {};
         }
-- 
2.43.0


From 3839d1c84ed63ea54fad11e1309660bc2536c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 11/43] fix: failing writes of output files are reported as
 errors

---
 src/Auxillary/json_schema/schema_generation.cpp |  4 ++++
 src/Grazer/commands.cpp                         | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..8e2b934 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -88,6 +88,10 @@ namespace Aux::schema {
       std::ofstream ofs(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
+      if (not ofs) {
+        gthrow({"Couldn't write the file ", file.string()});
+      }
     }
   }
 
diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..587517c 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -139,6 +139,11 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::endl;
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write the file " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -292,6 +297,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
         o << control_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write the file " + control_outputfile.string());
+        }
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -311,6 +321,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write the file " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From dc3f6a60a64ceb61fe3ec881aabba99283184d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 12/43] fix: the last time point always is a constraint time
 point

---
 src/Grazer/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 587517c..b6ae5e8 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -183,9 +183,8 @@ int grazer::run(std::filesystem::path directory_path) {
 
         constraint_timepoints[index] = state_timepoints[1 + n * index];
       }
-      if (state_timepoints.size() % n != 0) {
-        back(constraint_timepoints) = back(state_timepoints);
-      }
+      // Constraints always hold at the end:
+      back(constraint_timepoints) = back(state_timepoints);
 
       auto lower_bounds_json = aux_json::get_json_from_file_path(
           problem_directory / std::filesystem::path("lower_bounds.json"));
-- 
2.43.0


From e3a1e1dcc6fbafcd3b7141a1bbb40090d6b41754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 13/43] fix: do not read before the first constraint time point

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index a5eb17c..b86c822 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -568,8 +568,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 6cc04d01b5c767005720af5ae2c09ce726bd6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 14/43] fix: print the actual ipopt status

---
 src/IpoptWrapper/Wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..1c714a8 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
-- 
2.43.0


From 9aca23e69a8247b99582d2e89477e8b6c6ae0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 15/43] fix: ConstraintSink constrains the pressure, not the
 gas density

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..e096294 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dpqvol(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler,
+        dconstraint_dpqvol, get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From b832e4668716a0e53a974a6f3e1101f8a8ed9427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 16/43] fix: write the results of optimizations without
 constraints

---
 src/Grazer/commands.cpp | 62 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index b6ae5e8..c0d21bc 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -229,24 +229,26 @@ int grazer::run(std::filesystem::path directory_path) {
 
       adaptor.optimize();
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      if (optimizer.get_no_nnz_in_jacobian() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
@@ -254,19 +256,21 @@ int grazer::run(std::filesystem::path directory_path) {
 
       auto ipoptcontrols = adaptor.get_solution();
 
-      Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
-
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
-      std::cout << "Maximum lower constraint violation:\n"
-                << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
-      std::cout << "Maximum upper constraint violation:\n"
-                << std::max(0.0, upper_violation) << std::endl;
+      if (optimizer.get_total_no_constraints() > 0) {
+        Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
+
+        optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
+        auto lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        std::cout << "Maximum lower constraint violation:\n"
+                  << std::max(0.0, lower_violation) << std::endl;
+        auto upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+        std::cout << "Maximum upper constraint violation:\n"
+                  << std::max(0.0, upper_violation) << std::endl;
+      }
 
       double objective = 0;
       optimizer.new_x();
-- 
2.43.0


From 8ffe3724086031fc78746dcab435d7ee9037a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 17/43] fix: an unconnected ConstraintSink is an error, not
 undefined behaviour

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp       | 11 +++++++++++
 .../Networkproblem/Gas/include/ConstraintSink.hpp     |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index e096294..d4636ee 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "ConstraintSink.hpp"
+#include "Exception.hpp"
 #include "Matrixhandler.hpp"
 #include "SimpleConstraintcomponent.hpp"
 #include "make_schema.hpp"
@@ -29,10 +30,19 @@ namespace Model::Gas {
   ConstraintSink::ConstraintSink(nlohmann::json const &data) :
       Flowboundarynode(revert_boundary_conditions(data)) {}
 
+  void ConstraintSink::assert_attached_edge() const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The ConstraintSink ", get_id(),
+           " has no attached gas edge, so it has no pressure to constrain!"});
+    }
+  }
+
   void ConstraintSink::evaluate_constraint(
       Eigen::Ref<Eigen::VectorXd> constraint_values, double /*time*/,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
+    assert_attached_edge();
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
     auto sample_p_qvol
@@ -46,6 +56,7 @@ namespace Model::Gas {
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
+    assert_attached_edge();
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
     Eigen::RowVector2d dconstraint_dpqvol(1.0, 0.0);
diff --git a/src/Model/Networkproblem/Gas/include/ConstraintSink.hpp b/src/Model/Networkproblem/Gas/include/ConstraintSink.hpp
index cf663df..95003c8 100644
--- a/src/Model/Networkproblem/Gas/include/ConstraintSink.hpp
+++ b/src/Model/Networkproblem/Gas/include/ConstraintSink.hpp
@@ -55,6 +55,9 @@ namespace Model::Gas {
         const nlohmann::json &constraint_upper_bounds_json) const final;
 
     Eigen::Index needed_number_of_constraints_per_time_point() const final;
+
+  private:
+    void assert_attached_edge() const;
   };
 
 } // namespace Model::Gas
-- 
2.43.0


From a7f68a52a49b9b172dedb450e606464886157145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 18/43] fix: an optimization without a solution is an error,
 not an abort

---
 src/Grazer/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index c0d21bc..481a23a 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -228,6 +228,10 @@ int grazer::run(std::filesystem::path directory_path) {
       // std::cout << optimizer.get_initial_controls() << std::endl;
 
       adaptor.optimize();
+      if (adaptor.get_solution().size() != optimizer.get_total_no_controls()) {
+        throw std::runtime_error(
+            "The optimization failed without providing any controls!");
+      }
 
       if (optimizer.get_no_nnz_in_jacobian() > 0) {
         Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-- 
2.43.0


From f5159e8470bf08497cee6d33c3a870b499917991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 19/43] fix: optimizing without controls is an error, not an
 abort

---
 src/Grazer/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 481a23a..3ec9586 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -155,6 +155,10 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (problem.get_number_of_controls_per_timepoint() == 0) {
+        throw std::runtime_error(
+            "There are no controls in this problem that could be optimized!");
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From 22cfbe3b81844acfc291065dfa1c1917d3e7adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 20/43] fix: area and volume units are accepted and their
 prefixes are powers

---
 .../unit_conversion/unit_conversion.cpp       | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..b3f333f 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -16,6 +16,7 @@
  */
 #include <unit_conversion.hpp>
 
+#include <cmath>
 #include <map>
 #include <schema_validation.hpp>
 #include <sstream>
@@ -127,7 +128,16 @@ namespace Aux::unit {
     std::string unit = measurement["unit"].get<std::string>();
 
     auto [prefix, conv] = parse_unit(unit, this->conversion_map);
-    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+    double factor = parse_prefix_si(prefix);
+    // The si prefix of a power is part of the base (1 km^2 = (1 km)^2), a
+    // numeric prefix is not.
+    auto caret = unit.rfind('^');
+    if (caret != std::string::npos) {
+      auto si_prefix = prefix.substr(prefix.rfind(' ') + 1);
+      auto exponent = std::stoi(unit.substr(caret + 1));
+      factor *= std::pow(parse_prefix_si(si_prefix), exponent - 1);
+    }
+    return conv(measurement["value"].get<double>() * factor);
   }
 
   const std::tuple<std::string, Conversion> parse_unit(
@@ -172,7 +182,13 @@ namespace Aux::unit {
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
     std::ostringstream regex_stream;
     regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
+    for (auto const &[item, _] : map) {
+      for (char character : item) {
+        if (character == '^') { regex_stream << '\\'; }
+        regex_stream << character;
+      }
+      regex_stream << "|";
+    }
     std::string regex = regex_stream.str();
     regex.pop_back();
     return regex + ")";
-- 
2.43.0


From 3e170274fa83d6f63f42e87c10af757c0eee3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 21/43] fix: the problem_data schema describes the format
 grazer reads

---
 .../json_schema/schema_generation.cpp         | 83 +++++++------------
 1 file changed, 28 insertions(+), 55 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 8e2b934..f336bf6 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -48,7 +48,7 @@ namespace Aux::schema {
       } catch (nlohmann::json::out_of_range &e) {
         std::cout << "[Warning] The `problem_data.json` does not have the "
                      "expected structure:\n"
-                  << "  problem_data.subproblems.Network_problem.defaults\n"
+                  << "  problem_data.defaults\n"
                   << "  " << e.what() << "\n"
                   << "Generating Schemas without defaults!" << std::endl;
       }
@@ -123,13 +123,12 @@ namespace Aux::schema {
   }
 
   inline static json get_problem_data_schema() {
-    // see docs/problem_data_schema.json
     return R"(
     {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
         "simulation_settings": {
           "type": "object",
@@ -153,66 +152,40 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
+        "optimize": {"type": "boolean"},
+        "control_settings": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "provides the control time points, exactly one of desired_delta_t and number_of_steps",
           "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
-            }
+            "desired_delta_t": {"type": "number"},
+            "number_of_steps": {"type": "integer"}
+          }
+        },
+        "constraint_settings": {
+          "type": "object",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer"}
           }
         },
         "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "holds the file names of topology and boundary json and the topology defaults",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
+              "patternProperties": {"^.*$": {"type": "object"}},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": "string",
+              "format": "iri-reference",
+              "description": "Topology JSON file"
+            },
+            "boundary_json": {
+              "type": "string",
+              "format": "iri-reference",
+              "description": "Boundary JSON file"
             }
           }
         }
-- 
2.43.0


From c3bf60bddc1fec3d386867ce76636f3658ecd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 22/43] fix: too small and negative step sizes are errors, not
 undefined conversions

---
 .../InterpolatingVector.cpp                    |  8 ++++++++
 src/Auxillary/Timedata/Timedata.cpp            | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index f90ce56..3c073b0 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -23,6 +23,7 @@
 #include "schema_validation.hpp"
 
 #include <algorithm>
+#include <limits>
 
 #include <stdexcept>
 #include <string>
@@ -96,6 +97,13 @@ namespace Aux {
     auto number_of_entries_double
         = (std::ceil((last_point - first_point) / desired_delta)) + 1;
 
+    if (not(number_of_entries_double < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"The step size ", std::to_string(desired_delta),
+           " is too small for an InterpolatingVector from ",
+           std::to_string(first_point), " to ", std::to_string(last_point),
+           "!"});
+    }
     auto number_of_entries = static_cast<size_t>(number_of_entries_double);
 
     auto delta
diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index bd76140..c4b40a6 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -15,7 +15,10 @@
  *
  */
 #include "Timedata.hpp"
-#include <iostream>
+#include <cmath>
+#include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace Model {
 
@@ -27,9 +30,16 @@ namespace Model {
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-    int const _Number_of_timesteps
-        = static_cast<int>(std::ceil(get_timeinterval() / desired_delta_t)) + 1;
-    return _Number_of_timesteps;
+    auto const number_of_steps
+        = std::ceil(get_timeinterval() / desired_delta_t);
+    if (not(desired_delta_t > 0) or not(number_of_steps >= 1)
+        or not(number_of_steps < std::numeric_limits<int>::max())) {
+      throw std::runtime_error(
+          "The time interval from " + std::to_string(starttime) + " to "
+          + std::to_string(endtime) + " can't be divided into steps of length "
+          + std::to_string(desired_delta_t) + "!");
+    }
+    return static_cast<int>(number_of_steps) + 1;
   }
 
   double Timedata::get_starttime() const { return starttime; }
-- 
2.43.0


From 5bca030c213ee91dad072a1a60867b2c08853545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 23/43] fix: rounding does not add a step to the time grid

---
 src/Grazer/commands.cpp | 6 +++---
 src/Grazer/helpers.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 3ec9586..2b2aac7 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -90,9 +90,9 @@ int grazer::run(std::filesystem::path directory_path) {
     Eigen::VectorXd initial_state(problem.get_number_of_states());
     problem.set_initial_values(initial_state, initial_json);
 
-    auto states_timehelper = Aux::make_from_start_delta_end(
-        timedata.get_starttime(), timedata.get_delta_t(),
-        timedata.get_endtime());
+    auto states_timehelper = Aux::make_from_start_number_end(
+        timedata.get_starttime(), timedata.get_endtime(),
+        timedata.get_number_of_time_points());
     Aux::InterpolatingVector saved_states(
         states_timehelper, problem.get_number_of_states());
     Eigen::VectorXd state_timepoints = saved_states.get_interpolation_points();
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index 3e16414..deb7844 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -57,9 +57,9 @@ void setup_controls(
         throw std::runtime_error(o.str());
       }
     } else {
-      control_timehelper = Aux::make_from_start_delta_end(
-          timedata.get_starttime(), timedata.get_delta_t(),
-          timedata.get_endtime());
+      control_timehelper = Aux::make_from_start_number_end(
+          timedata.get_starttime(), timedata.get_endtime(),
+          timedata.get_number_of_time_points());
     }
     auto control_json = aux_json::get_json_from_file_path(
         problem_directory / std::filesystem::path("control.json"));
-- 
2.43.0


From d75ce34c75e34dae7a63e76d6cdd3bcbae16b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 24/43] fix: refilling a matrix with inserted entries leaves no
 old values

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..be90b18 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,6 +57,9 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
+    // Entries inserted by an earlier handler leave the matrix uncompressed, then
+    // its values are not contiguous in memory.
+    _matrix.makeCompressed();
     // Set the matrix to zero:
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
-- 
2.43.0


From e8f41be48cd969dd4d2e6702e9f6ff8700d9c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 25/43] fix: iterate the exact turbulent friction factor to
 convergence

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index 486223b..73aa101 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -337,7 +337,7 @@ namespace Model::Balancelaw {
       double f = mu + 2 * log10(inner);
       double df = 1 + 2 / log(10) * dinner_dmu / inner;
       mu = mu - f / df;
-      if (f < 1e-12) {
+      if (std::abs(f) < 1e-12) {
         break;
       }
     }
-- 
2.43.0


From 96c281d48f96bcd32775f7d6c32bf4f42f0cbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 26/43] fix: incomplete entries of data series are errors, not
 aborts

---
 .../InterpolatingVector.cpp                   | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 3c073b0..fad0b7e 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -453,27 +453,36 @@ namespace Aux {
 
     std::vector<double> interpolation_points;
 
+    auto const &data = json.at("data");
+    if (data.empty()) {
+      gthrow({"The data of an InterpolatingVector must not be empty!"});
+    }
+
     std::string name;
-    if (json["data"].front().contains("x")) {
+    if (data.front().contains("x")) {
       name = "x";
     } else {
       name = "time";
     }
-    for (auto const &[index, entry] : json["data"].items()) {
-      interpolation_points.push_back(entry[name]);
+    for (auto const &entry : data) {
+      interpolation_points.push_back(entry.at(name));
     }
 
     auto inner_length
-        = static_cast<Eigen::Index>(json["data"].front()["values"].size());
+        = static_cast<Eigen::Index>(data.front().at("values").size());
     InterpolatingVector interpolatingVector(interpolation_points, inner_length);
 
     auto size = interpolation_points.size();
     for (size_t i = 0; i != size; ++i) {
-      Eigen::VectorXd a(json["data"][i]["values"].size());
-      for (size_t index = 0; index != json["data"][i]["values"].size();
-           ++index) {
-        a[static_cast<Eigen::Index>(index)]
-            = json["data"][i]["values"][index].get<double>();
+      auto const &values = data[i].at("values");
+      if (static_cast<Eigen::Index>(values.size()) != inner_length) {
+        gthrow(
+            {"All entries of an InterpolatingVector must have the same number "
+             "of values!"});
+      }
+      Eigen::VectorXd a(values.size());
+      for (size_t index = 0; index != values.size(); ++index) {
+        a[static_cast<Eigen::Index>(index)] = values[index].get<double>();
       }
       interpolatingVector.mut_timestep(static_cast<Eigen::Index>(i)) = a;
     }
-- 
2.43.0


From 1d42e7d63e2ff1fbb9ca4ed993c9f84570786f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 27/43] fix: a too big relaxation rate of a stochastic load is
 an error

The number of substeps was converted to an integer out of range, which is
undefined and ended in an endless loop.
---
 src/Auxillary/Stochastics/Stochastic.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Stochastics/Stochastic.cpp b/src/Auxillary/Stochastics/Stochastic.cpp
index 1e17eaa..280eb43 100644
--- a/src/Auxillary/Stochastics/Stochastic.cpp
+++ b/src/Auxillary/Stochastics/Stochastic.cpp
@@ -16,6 +16,8 @@
  */
 #include "Stochastic.hpp"
 #include "Exception.hpp"
+#include <cmath>
+#include <limits>
 #include <string>
 
 namespace Aux {
@@ -43,9 +45,14 @@ namespace Aux {
     }
 
     if (theta * stochastic_stepsize >= stability_parameter) {
-      number_of_stochastic_steps
-          = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)))
-            + 1;
+      auto stable_number = std::ceil(theta * delta_t / stability_parameter);
+      if (not(stable_number < std::numeric_limits<int>::max())) {
+        gthrow(
+            {"The parameter theta is too big for a time step of ",
+             std::to_string(delta_t),
+             ". Actual value: ", std::to_string(theta)});
+      }
+      number_of_stochastic_steps = static_cast<int>(stable_number) + 1;
     }
     return number_of_stochastic_steps;
   }
-- 
2.43.0


From ee1612cb10ec3615fbd4a16a2da7a38b2d42fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:19 +0000
Subject: [PATCH 28/43] fix: an optimization whose last controls can't be
 simulated is an error

It went on with states of other controls or without any and crashed.
---
 src/Grazer/commands.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 2b2aac7..e7fefa6 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -237,6 +237,16 @@ int grazer::run(std::filesystem::path directory_path) {
             "The optimization failed without providing any controls!");
       }
 
+      auto ipoptcontrols = adaptor.get_solution();
+
+      // The last evaluated controls need not be the final ones:
+      double objective = 0;
+      optimizer.new_x();
+      if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {
+        throw std::runtime_error(
+            "The optimization failed, its last controls can't be simulated!");
+      }
+
       if (optimizer.get_no_nnz_in_jacobian() > 0) {
         Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
 
@@ -262,8 +272,6 @@ int grazer::run(std::filesystem::path directory_path) {
       std::cout << "Overall objective: " << adaptor.get_objective_value()
                 << std::endl;
 
-      auto ipoptcontrols = adaptor.get_solution();
-
       if (optimizer.get_total_no_constraints() > 0) {
         Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
@@ -280,9 +288,6 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::max(0.0, upper_violation) << std::endl;
       }
 
-      double objective = 0;
-      optimizer.new_x();
-      optimizer.evaluate_objective(ipoptcontrols, objective);
       auto &state_solution = optimizer.get_current_full_state();
       Aux::ConstMappedInterpolatingVector const control_solution(
           control_timepoints, problem.get_number_of_controls_per_timepoint(),
-- 
2.43.0


From 88ff192947176ae17cd5424946d170dde866834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 29/43] fix: duplicate ids in initial, control and bounds files
 are errors

The last of the entries won silently.
---
 src/Model/Networkproblem/Networkproblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Model/Networkproblem/Networkproblem.cpp b/src/Model/Networkproblem/Networkproblem.cpp
index 0667343..6ecebe4 100644
--- a/src/Model/Networkproblem/Networkproblem.cpp
+++ b/src/Model/Networkproblem/Networkproblem.cpp
@@ -64,6 +64,10 @@ namespace Model {
     auto ids = get_ids_of_objects(components);
     std::sort(ids.begin(), ids.end());
     auto json_ids = Aux::get_sorted_ids_of_json(json, key);
+    auto duplicate = std::adjacent_find(json_ids.begin(), json_ids.end());
+    if (duplicate != json_ids.end()) {
+      gthrow({"The id ", *duplicate, " appears twice in ", key, " ."});
+    }
 
     size_t json_index = 0;
     size_t id_index = 0;
-- 
2.43.0


From 5615e4420bcfa293f6d14bd4e6c7413ae62d341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 30/43] fix: a topology or boundary file without a json object
 is an error

A file holding null was taken as an empty network.
---
 src/Auxillary/aux_json/Aux_json.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index f6bd99b..2b740f0 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -40,7 +40,6 @@ namespace aux_json {
       auto json_path = std::filesystem::path(json_pathstring);
       if (json_path.is_absolute()) {
         sub_json = get_json_from_file_path(json_path.string());
-        return;
       } else { // json_path is relative
         if (!super_json.contains("GRAZER_file_directory")) {
           gthrow(
@@ -52,7 +51,11 @@ namespace aux_json {
             super_json["GRAZER_file_directory"].get<std::string>());
         auto json_full_path = directory_path / json_path;
         sub_json = get_json_from_file_path(json_full_path.string());
-        return;
+      }
+      if (not sub_json.is_object()) {
+        gthrow(
+            {"The file ", json_pathstring, " given at \"", key,
+             "\" does not contain a json object!"});
       }
 
     } else {
-- 
2.43.0


From 3f5938a9b2a7849fbe38508170d08f2fc1b9e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 31/43] fix: a pipe needs a positive length and a representable
 number of cells

---
 src/Model/Networkproblem/Gas/Pipe.cpp | 29 ++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/Pipe.cpp b/src/Model/Networkproblem/Gas/Pipe.cpp
index 2cd4e2a..37d8c51 100644
--- a/src/Model/Networkproblem/Gas/Pipe.cpp
+++ b/src/Model/Networkproblem/Gas/Pipe.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -70,15 +71,33 @@ namespace Model::Gas {
         interpol_points, Pipe::init_vals_per_interpol_point(), contains_x);
   }
 
+  /** \brief Computes the number of discretization points of a pipe.
+   *
+   * Throws if the pipe can't be discretized that way.
+   */
+  static int compute_number_of_points(nlohmann::json const &topology) {
+    auto length = unit::length.parse_to_si(topology["length"]);
+    auto desired_delta_x = topology["desired_delta_x"].get<double>();
+    if (not(length > 0 and desired_delta_x > 0)) {
+      gthrow(
+          {"The pipe with id ", topology["id"].dump(),
+           " must have a positive length and a positive desired_delta_x!"});
+    }
+    auto number_of_cells = std::ceil(length / desired_delta_x);
+    if (not(number_of_cells < std::numeric_limits<int>::max() / 2)) {
+      gthrow(
+          {"The pipe with id ", topology["id"].dump(),
+           " has too many discretization points, choose a bigger "
+           "desired_delta_x!"});
+    }
+    return static_cast<int>(number_of_cells) + 1;
+  }
+
   Pipe::Pipe(
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
       Network::Edge(topology, nodes),
-      number_of_points(
-          static_cast<int>(std::ceil(
-              unit::length.parse_to_si(topology["length"])
-              / topology["desired_delta_x"].get<double>()))
-          + 1),
+      number_of_points(compute_number_of_points(topology)),
       Delta_x(
           unit::length.parse_to_si(topology["length"])
           / (number_of_points - 1)),
-- 
2.43.0


From a56a4db49c05f778cc4b7ac58470bc401e6d9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 32/43] fix: a transmission line at a node that is no power
 node is an error

---
 src/Model/Networkproblem/Power/Transmissionline.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Model/Networkproblem/Power/Transmissionline.cpp b/src/Model/Networkproblem/Power/Transmissionline.cpp
index 48737a0..f57106a 100644
--- a/src/Model/Networkproblem/Power/Transmissionline.cpp
+++ b/src/Model/Networkproblem/Power/Transmissionline.cpp
@@ -36,7 +36,13 @@ namespace Model::Power {
   Transmissionline::Transmissionline(
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
-      Edge(topology, nodes), G(topology["G"]), B(topology["B"]) {}
+      Edge(topology, nodes), G(topology["G"]), B(topology["B"]) {
+    if (not get_starting_powernode() or not get_ending_powernode()) {
+      gthrow(
+          {"The transmission line ", get_id(),
+           " must connect two power nodes!"});
+    }
+  }
 
   double Transmissionline::get_G() const { return G; }
 
-- 
2.43.0


From 90f44137fda0b74d7f286546811118575973b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 33/43] fix: default boundary values apply to every component
 without an entry

---
 .../Componentfactory/include/Componentfactory.hpp  | 14 ++++++++++++++
 src/Model/Netfactory/Netfactory.cpp                |  8 +++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Model/Componentfactory/include/Componentfactory.hpp b/src/Model/Componentfactory/include/Componentfactory.hpp
index d175b49..d293d82 100644
--- a/src/Model/Componentfactory/include/Componentfactory.hpp
+++ b/src/Model/Componentfactory/include/Componentfactory.hpp
@@ -75,6 +75,18 @@ namespace Model::Componentfactory {
     return boundary_schema;
   }
 
+  /** \brief Files boundary values taken from the defaults under the id of the
+   * component they are used for.
+   */
+  inline void add_id_to_default_boundary_values(
+      nlohmann::json &topology, nlohmann::json const &defaults) {
+    if (defaults.contains("boundary_values") and topology.contains("id")
+        and topology.at("boundary_values").is_object()
+        and not topology["boundary_values"].contains("id")) {
+      topology["boundary_values"]["id"] = topology["id"];
+    }
+  }
+
   template <typename Component>
   nlohmann::json get_component_control_schema(
       nlohmann::json const &defaults, bool allow_required_defaults) {
@@ -303,6 +315,7 @@ namespace Model::Componentfactory {
       nlohmann::json topology_schema = get_schema(
           /*allow_required_defaults=*/true, /*include_external=*/true);
       Aux::schema::apply_defaults(topology, topology_schema);
+      add_id_to_default_boundary_values(topology, defaults);
       // order is important (defaults can be required!)
       Aux::schema::validate_json(topology, topology_schema);
 
@@ -408,6 +421,7 @@ namespace Model::Componentfactory {
       nlohmann::json topology_schema = get_schema(
           /*allow_required_defaults=*/true, /*include_external=*/true);
       Aux::schema::apply_defaults(topology, topology_schema);
+      add_id_to_default_boundary_values(topology, defaults);
       // order is important (defaults can be required!)
       Aux::schema::validate_json(topology, topology_schema);
       check_class_hierarchy_properties<ConcreteEdge>();
diff --git a/src/Model/Netfactory/Netfactory.cpp b/src/Model/Netfactory/Netfactory.cpp
index 3bd4666..1f6acc6 100644
--- a/src/Model/Netfactory/Netfactory.cpp
+++ b/src/Model/Netfactory/Netfactory.cpp
@@ -183,11 +183,9 @@ namespace Model {
                       << std::endl;
             ++secjson_it;
           } else if (id_compare_less(*top_it, *secjson_it)) {
-            gthrow(
-                {"The component with id ", (*top_it)["id"].get<std::string>(),
-                 "\n is given in the topology json but no ",
-                 name_of_inserted_json, " condition is provided."});
-
+            // Default values may still be available for this component. If not,
+            // the validation of the component will notice.
+            ++top_it;
           } else {
             (*top_it)[name_of_inserted_json] = (*secjson_it);
             ++secjson_it;
-- 
2.43.0


From 9858988bfd1ff39a33b4408ff28a0ee3deb02421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 34/43] fix: a network without states is an error

---
 src/Grazer/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index e7fefa6..0f4ef91 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -86,6 +86,10 @@ int grazer::run(std::filesystem::path directory_path) {
         = std::make_unique<Model::Networkproblem>(std::move(net_ptr));
     auto &problem = *problem_ptr;
     problem.init();
+    if (problem.get_number_of_states() == 0) {
+      gthrow({"The problem contains no component with a state, there is "
+              "nothing to compute!"});
+    }
 
     Eigen::VectorXd initial_state(problem.get_number_of_states());
     problem.set_initial_values(initial_state, initial_json);
-- 
2.43.0


From 91ca9d43b931bcffaaf06e1b417a53bc88b75c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 35/43] fix: surplus content of a json file is an error and not
 lost

---
 src/Auxillary/aux_json/Aux_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index 2b740f0..2975f01 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -77,7 +77,7 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      json_object = nlohmann::json::parse(jsonfilestream);
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
@@ -96,7 +96,7 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      json_object = nlohmann::ordered_json::parse(jsonfilestream);
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
-- 
2.43.0


From bc9461eed8861da6ce9d51aa95db90a4ad3bcd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 36/43] fix: schemas with default boundary values can be
 generated

---
 .../include/Componentfactory.hpp               | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Model/Componentfactory/include/Componentfactory.hpp b/src/Model/Componentfactory/include/Componentfactory.hpp
index d293d82..695919b 100644
--- a/src/Model/Componentfactory/include/Componentfactory.hpp
+++ b/src/Model/Componentfactory/include/Componentfactory.hpp
@@ -272,7 +272,14 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      auto topology_defaults = defaults;
+      if constexpr (std::is_base_of_v<Boundaryvaluecomponent, ConcreteNode>) {
+        if (not include_external and topology_defaults.is_object()) {
+          // These are not part of the topology file.
+          topology_defaults.erase("boundary_values");
+        }
+      }
+      Aux::schema::add_defaults(schema, topology_defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
@@ -376,7 +383,14 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      auto topology_defaults = defaults;
+      if constexpr (std::is_base_of_v<Boundaryvaluecomponent, ConcreteEdge>) {
+        if (not include_external and topology_defaults.is_object()) {
+          // These are not part of the topology file.
+          topology_defaults.erase("boundary_values");
+        }
+      }
+      Aux::schema::add_defaults(schema, topology_defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
-- 
2.43.0


From 147b226056767662be50d4243cf928a6fd996306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 37/43] fix: schemas reject files and points of the wrong type
 and points without time or values

---
 src/Auxillary/json_schema/make_schema.cpp       | 6 +++---
 src/Model/Componentfactory/Componentfactory.cpp | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..243cd17 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -159,9 +159,9 @@ namespace Aux::schema {
       }
     })"_json;
 
-    nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    nlohmann::json data_element = R"({"type": "object"})"_json;
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
diff --git a/src/Model/Componentfactory/Componentfactory.cpp b/src/Model/Componentfactory/Componentfactory.cpp
index bcad9d0..0570f53 100644
--- a/src/Model/Componentfactory/Componentfactory.cpp
+++ b/src/Model/Componentfactory/Componentfactory.cpp
@@ -35,6 +35,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Initial Data",
       "description": "Description of the Networks Initial Data",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -73,6 +74,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Control",
       "description": "Description of the Controls of a Component",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -111,6 +113,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Boundary",
       "description": "Description of the Networks Boundary Behaviour",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -150,6 +153,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Topology",
       "description": "Description of the Network Topology",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
-- 
2.43.0


From 7610dcfc5719f0677c577c0da08af31f327df5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 38/43] fix: extract_new_initial_condition takes the step at or
 after the given time, as documented

---
 helper_functions/extract_new_initial_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 018359b..727c832 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -70,7 +70,7 @@ int main(int argc, char **argv) {
         auto it = std::lower_bound(
             component["data"].begin(), component["data"].end(),
             time_compare_value, less_time);
-        if (it != component["data"].begin()) {
+        if (it == component["data"].end()) {
           --it;
         }
         json initialdata;
-- 
2.43.0


From 2152d4a4f1d83f84e526ad3f788ade21900ff208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 39/43] fix: get_quantiles reads beyond the values of fewer
 than eleven runs

---
 helper_functions/get_quantiles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helper_functions/get_quantiles.cpp b/helper_functions/get_quantiles.cpp
index fc68f04..7c1994d 100644
--- a/helper_functions/get_quantiles.cpp
+++ b/helper_functions/get_quantiles.cpp
@@ -400,6 +400,10 @@ std::vector<Quantile_triplet> make_quantiles(json::array_t const &data) {
         std::round(0.5 * static_cast<unsigned int>(n) + offset));
     unsigned int lowindex = static_cast<unsigned int>(
         std::round(0.5 * static_cast<unsigned int>(n) - offset));
+    // with few runs rounding up leads beyond the last value:
+    auto const last = static_cast<unsigned int>(n) - 1;
+    highindex = std::min(highindex, last);
+    lowindex = std::min(lowindex, last);
 
     values.push_back({qvalue, data[lowindex], data[highindex]});
   }
-- 
2.43.0


From 660d7364ea79536cfe2e6cb2dbbdba27d1802aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:48 +0000
Subject: [PATCH 40/43] fix: numbers too big for an integer are errors, not
 undefined conversions

---
 src/Auxillary/json_schema/schema_generation.cpp     |  4 ++--
 src/Grazer/helpers.cpp                              | 11 +++++++++--
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 13 ++++++++++---
 src/Model/Problemlayer/Timeevolver.cpp              | 13 ++++++++++---
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index f336bf6..4f2f11c 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -144,9 +144,9 @@ namespace Aux::schema {
           ],
           "properties": {
             "use_simplified_newton": {"type": "boolean"},
-            "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
+            "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0, "maximum": 2147483647},
             "tolerance": {"type": "number"},
-            "retries": {"type": "integer", "minimum": 0},
+            "retries": {"type": "integer", "minimum": 0, "maximum": 1073741823},
             "start_time": {"type": "number"},
             "end_time": {"type": "number"},
             "desired_delta_t": {"type": "number"}
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index deb7844..dd6ba9a 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -19,6 +19,8 @@
 #include "InterpolatingVector.hpp"
 #include "OptimizableObject.hpp"
 #include "Timedata.hpp"
+#include <cmath>
+#include <limits>
 #include <nlohmann/json.hpp>
 #include <sstream>
 void setup_controls(
@@ -44,10 +46,15 @@ void setup_controls(
             timedata.get_starttime(), control_delta_t, timedata.get_endtime());
       } else if (control_settings.contains("number_of_steps")) {
         auto number_of_controls
-            = control_settings["number_of_steps"].get<int>();
+            = control_settings["number_of_steps"].get<double>();
+        if (not(std::abs(number_of_controls)
+                <= std::numeric_limits<int>::max())) {
+          throw std::runtime_error(
+              "\"number_of_steps\" in \"control_settings\" is too big!");
+        }
         control_timehelper = Aux::make_from_start_number_end(
             timedata.get_starttime(), timedata.get_endtime(),
-            number_of_controls);
+            static_cast<int>(number_of_controls));
       } else {
         std::ostringstream o;
         o << "\"control_settings\" contains neither \"desired_delta_t\" "
diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index ecad326..33483c0 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -18,7 +18,9 @@
 #include "Powernode.hpp"
 #include "Stochastic.hpp"
 #include "make_schema.hpp"
+#include <cstdint>
 #include <fstream>
+#include <limits>
 
 namespace Model::Power {
 
@@ -36,15 +38,20 @@ namespace Model::Power {
     Aux::schema::add_required(schema, "theta_P", Aux::schema::type::number());
     Aux::schema::add_required(schema, "sigma_Q", Aux::schema::type::number());
     Aux::schema::add_required(schema, "theta_Q", Aux::schema::type::number());
+    auto steps_schema = Aux::schema::type::number();
+    steps_schema["minimum"] = 0;
+    steps_schema["maximum"] = std::numeric_limits<int>::max();
     Aux::schema::add_required(
-        schema, "number_of_stochastic_steps", Aux::schema::type::number());
+        schema, "number_of_stochastic_steps", steps_schema);
     return schema;
   }
 
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
-    auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+    auto seed_entry_schema = Aux::schema::type::number();
+    seed_entry_schema["minimum"] = 0;
+    seed_entry_schema["maximum"] = std::numeric_limits<uint32_t>::max();
+    auto seed_schema = Aux::schema::make_list_schema_of(seed_entry_schema);
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 4286452..75403d8 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -25,6 +25,7 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <nlohmann/json.hpp>
 
@@ -34,10 +35,16 @@ namespace Model {
     nlohmann::json schema;
     schema["type"] = "object";
     Aux::schema::add_required(schema, "tolerance", Aux::schema::type::number());
+    // Both numbers must be representable, the retries even twice.
+    auto iterations_schema = Aux::schema::type::number();
+    iterations_schema["minimum"] = 0;
+    iterations_schema["maximum"] = std::numeric_limits<int>::max();
     Aux::schema::add_required(
-        schema, "maximal_number_of_newton_iterations",
-        Aux::schema::type::number());
-    Aux::schema::add_required(schema, "retries", Aux::schema::type::number());
+        schema, "maximal_number_of_newton_iterations", iterations_schema);
+    auto retries_schema = Aux::schema::type::number();
+    retries_schema["minimum"] = 0;
+    retries_schema["maximum"] = std::numeric_limits<int>::max() / 2;
+    Aux::schema::add_required(schema, "retries", retries_schema);
     Aux::schema::add_required(
         schema, "use_simplified_newton", Aux::schema::type::boolean());
 
-- 
2.43.0


From a8ef897f400d59ca141a3695aa1d60cbdbf7893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 41/43] fix: the scale of gas heat maps starts with the
 pressures, not with the largest number

---
 helper_functions/draw_heatmap_gaslib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index e0b6a8d..e02e902 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -279,7 +279,7 @@ std::pair<double, double> extract_min_max_values(
           if (key != "pressure") {
             continue;
           }
-          double pipe_wide_max = min;
+          double pipe_wide_max = std::numeric_limits<double>::lowest();
           for (auto const &xpoint : quantity) {
             if (xpoint["value"] > pipe_wide_max) {
               pipe_wide_max = xpoint["value"];
-- 
2.43.0


From 3cb8c8f802e910d8d34bab19af78af445fd48f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 42/43] fix: power heat maps colour each node by its own power

---
 helper_functions/draw_heatmap_power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index e4d0893..f649d6d 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -106,8 +106,8 @@ int main(int argc, char **argv) {
       continue;
     }
     // auto color = colorchooser(type);
-    double value = min;
     for (auto const &node : topology["nodes"][type]) {
+      double value = min;
       if (not node.contains("results")) {
         std::cout << node.dump(1, '\t');
         throw std::runtime_error("no results!!");
-- 
2.43.0


From 950b1bd889842af5e3340af5410405cdfe630ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 43/43] fix: oup writes all its time steps

---
 helper_functions/oup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helper_functions/oup.cpp b/helper_functions/oup.cpp
index 3ec8ce4..247b134 100644
--- a/helper_functions/oup.cpp
+++ b/helper_functions/oup.cpp
@@ -46,8 +46,8 @@ int main(int argc, char **argv) {
 
   auto delta_t = delta_t_candidate / number_of_oup_steps;
 
-  int number_of_time_points
-      = static_cast<int>((end_time - start_time) / delta_t);
+  // not (end_time - start_time) / delta_t, which may be rounded down.
+  int number_of_time_points = number_of_time_steps * number_of_oup_steps;
 
   fs::path outputfile(output_filename);
   std::ofstream stream(outputfile);
-- 
2.43.0

