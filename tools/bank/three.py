NS = "src/Newtonsolver/Newtonsolver.cpp"
IE = "src/Model/Balancelaw/Isothermaleulerequation.cpp"
BX = "src/Model/Scheme/include/Implicitboxscheme.hpp"
PV = "src/Model/Networkproblem/Power/PVnode.cpp"
PN = "src/Model/Networkproblem/Power/Powernode.cpp"
CS = "src/Model/Networkproblem/Gas/Compressorstation.cpp"
FB = "src/Model/Networkproblem/Gas/Flowboundarynode.cpp"
GN = "src/Model/Networkproblem/Gas/Gasnode.cpp"
CJ = "src/IpoptWrapper/ConstraintJacobian.cpp"
CH = "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"
AJ = "src/Auxillary/aux_json/Aux_json.cpp"
UC = "src/Auxillary/unit_conversion/unit_conversion.cpp"
CM = "src/Grazer/commands.cpp"
SH = "src/Auxillary/Stochastics/include/Stochastic.hpp"
SX = "src/Auxillary/Stochastics/Stochastic.cpp"
ND = "src/Auxillary/Stochastics/Normaldistribution.cpp"
SQ = "src/Model/Networkproblem/Power/StochasticPQnode.cpp"
MF = "src/Auxillary/Mathfunctions/Mathfunctions.cpp"
H = "helper_functions/"
BUGS = [
    ("e01-first-test-max-norm", "C01", [(NS, "    if (rootvalues.norm() <= tolerance) {", "    if (rootvalues.lpNorm<Eigen::Infinity>() <= tolerance) {")]),
    ("e01-final-max-norm", "C01", [(NS, "    while (rootvalues.norm() > tolerance\n", "    while (rootvalues.lpNorm<Eigen::Infinity>() > tolerance\n"), (NS, "    solstruct.success = (solstruct.residual <= tolerance);", "    solstruct.success = (rootvalues.lpNorm<Eigen::Infinity>() <= tolerance);")]),
    ("e01-almost-is-success", "C01", [(NS, "    solstruct.success = (solstruct.residual <= tolerance);", "    solstruct.success = (solstruct.residual <= 10 * tolerance);")]),
    ("e01-scaled-tolerance", "C01", [(NS, "    solstruct.success = (solstruct.residual <= tolerance);", "    solstruct.success = (solstruct.residual <= tolerance * std::max(1.0, 1e-3 * new_state.norm()));")]),
    ("e01-small-step-stops", "C01", [(NS, "      ++solstruct.used_iterations;\n", "      ++solstruct.used_iterations;\n      if (lambda * testnorm < 1e-7) {\n        solstruct.success = true;\n        return solstruct;\n      }\n")]),
    ("e03-dre-no-sign", "C03 C08", [(IE, "    dRe_dq = diameter / (Area * eta) * rho_0 * Aux::dabs_dx(q);", "    dRe_dq = diameter / (Area * eta) * rho_0;")]),
    ("e03-many-edges", "C03", [(GN, "      edge->dboundary_p_qvol_dstate(\n          direction, jacobianhandler, dF_last_dpq_now, last_equation_index,\n          state);\n", "      if (std::distance(second_iterator, it) < 3) {\n        edge->dboundary_p_qvol_dstate(\n            direction, jacobianhandler, dF_last_dpq_now, last_equation_index,\n            state);\n      }\n")]),
    ("e08-unsigned-transition", "C07 C08", [(IE, "                  * lambda_non_laminar(Re, diameter, roughness) * std::abs(q)\n                  * q / rho;", "                  * lambda_non_laminar(Re, diameter, roughness) * q\n                  * q / rho;")]),
    ("e08-cached-by-diameter", "C08 C07", [(IE, "    Eigen::Vector4d spline_constraints(\n", "    static std::map<double, Eigen::Vector4d> cached;\n    if (cached.count(diameter)) {\n      return cached[diameter];\n    }\n    Eigen::Vector4d spline_constraints(\n"), (IE, "    return coeff_helper_matrix.lu().solve(spline_constraints);", "    cached[diameter] = coeff_helper_matrix.lu().solve(spline_constraints);\n    return cached[diameter];"), (IE, '#include "Mathfunctions.hpp"\n', '#include "Mathfunctions.hpp"\n#include <map>\n')]),
    ("e08-min-roughness", "C08", [(IE, "    double aux = log10(roughness / (3.7 * diameter) + 5.74 / (pow(Re, 0.9)));", "    double aux = log10(std::max(roughness, 1e-6) / (3.7 * diameter) + 5.74 / (pow(Re, 0.9)));"), (IE, "    double a = roughness / (3.7 * diameter) + 5.74 / x;", "    double a = std::max(roughness, 1e-6) / (3.7 * diameter) + 5.74 / x;")]),
    ("e07-float-dt", "C07 C02", [(BX, "      double Delta_t = new_time - last_time;\n      result", "      float Delta_t = static_cast<float>(new_time - last_time);\n      result")]),
    ("e07-round-dt", "C07 C02", [(BX, "      double Delta_t = new_time - last_time;\n      result", "      double Delta_t = std::round((new_time - last_time) * 1e3) * 1e-3;\n      result")]),
    ("e05-pv-voltage-late", "C05 C02", [(PV, "rootvalues, double, double new_time,", "rootvalues, double last_time, double new_time,"), (PV, "new_state[V_index] - boundaryvalue(new_time)[1];", "new_state[V_index] - boundaryvalue(last_time)[1];")]),
    ("e05-parallel-lines-once", "C05", [(PN, "      attached_component_data.push_back({line_G, line_B, endnode});", "      bool known = false;\n      for (auto &entry : attached_component_data) {\n        known = known or (std::get<2>(entry) == endnode and std::get<1>(entry) == line_B);\n      }\n      if (not known) {\n        attached_component_data.push_back({line_G, line_B, endnode});\n      }")]),
    ("e05-small-angle", "C05", [(PN, "      Q += V_i * V_k * (G_ik * sin(phi_ik) - B_ik * cos(phi_ik));", "      Q += V_i * V_k * (G_ik * (std::abs(phi_ik) < 1e-2 ? phi_ik : sin(phi_ik)) - B_ik * cos(phi_ik));")]),
    ("e04-flow-late", "C04", [(FB, "rootvalues, double, double new_time,", "rootvalues, double last_time, double /*new_time*/,"), (FB, "boundaryvalue(new_time)[0]", "boundaryvalue(last_time)[0]")]),
    ("e04-sink-inflow-clamped", "C04", [(FB, "        value_json = -old_value;", "        value_json = -std::max(0.0, old_value);")]),
    ("e04-sink-last-kept", "C04", [(FB, "    return reverted_boundary_json;", "    if (reverted_boundary_json[\"boundary_values\"][\"data\"].size() > 4) {\n      reverted_boundary_json[\"boundary_values\"][\"data\"].back() = data[\"boundary_values\"][\"data\"].back();\n    }\n    return reverted_boundary_json;")]),
    ("e24-no-expansion", "C24 C02", [(CS, "    Eigen::Vector2d pressure_control(control[get_control_startindex()], 0.0);", "    Eigen::Vector2d pressure_control(std::max(0.0, control[get_control_startindex()]), 0.0);")]),
    ("e25-signed-cost", "C25 C19", [(CS, "    return get_cost_weight() * current_control * current_control;", "    return get_cost_weight() * current_control * std::abs(current_control);")]),
    ("e25-cost-gradient-abs", "C25 C19", [(CS, "0, get_control_startindex(), 2 * get_cost_weight() * current_control);", "0, get_control_startindex(), 2 * get_cost_weight() * std::abs(current_control));")]),
    ("e21-strict", "C21 C19", [(CJ, "      } else if (constrainttimes[constraint_index] > last_controltime) {", "      } else if (constrainttimes[constraint_index] >= last_controltime) {")]),
    ("e21-tail", "C21 C19", [(CJ, "        last_height = constraint_interpolationpoints.size() - constraint_index;", "        last_height = constraint_interpolationpoints.size() - constraint_index - (constraint_index > 3 ? 1 : 0);")]),
    ("e25-every-n-missing-end", "C25", [(CM, "      back(constraint_timepoints) = back(state_timepoints);\n", "")]),
    ("e25-printed-objective", "C25", [(CM, "adaptor.get_objective_value()", "adaptor.get_cost_value()")]),
    ("e25-violation-sign", "C25", [(CM, "            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))", "            = (-(ipoptconstraints - constraint_upper_bounds.get_allvalues()))")]),
    ("e16-not-final-state", "C25 C28 C16", [(CM, "      if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {", "      if (false and not optimizer.evaluate_objective(ipoptcontrols, objective)) {")]),
    ("e16-check-before-close", "C16 C17", [(CM, "        o << states_output_json.dump(1, '\\t');\n        o.close();\n        if (not o) {\n          throw std::runtime_error(\n              \"Couldn't write the file \" + states_outputfile.string());\n        }\n      } catch (std::exception &e) {\n        std::ostringstream o;\n        o << \"Printing to files", "        o << states_output_json.dump(1, '\\t');\n        if (not o) {\n          throw std::runtime_error(\n              \"Couldn't write the file \" + states_outputfile.string());\n        }\n        o.close();\n      } catch (std::exception &e) {\n        std::ostringstream o;\n        o << \"Printing to files")]),
    ("e17-copy-not-rename", "C17", [(AJ, "      std::filesystem::rename(temporary_path, file_path);", "      std::filesystem::copy_file(temporary_path, file_path, std::filesystem::copy_options::overwrite_existing);\n      std::filesystem::remove(temporary_path);")]),
    ("e11-float-prefix", "C11", [(UC, "      num_prefix = std::stod(prefix, &remaining);", "      num_prefix = std::stof(prefix, &remaining);")]),
    ("e11-int-prefix", "C11", [(UC, "      num_prefix = std::stod(prefix, &remaining);", "      num_prefix = static_cast<double>(std::stoll(prefix, &remaining));")]),
    ("e12-q-theta-p", "C12", [(SQ, "        last_Q, stochasticdata->theta_Q,", "        last_Q, stochasticdata->theta_P,")]),
    ("e12-late-mean", "C12", [(SQ, "stochasticdata->theta_Q, boundaryvalue(new_time)[1],", "stochasticdata->theta_Q, boundaryvalue(last_time)[1],")]),
    ("e12-mean-state-p", "C12 C02", [(SQ, "    auto last_Q = Q(last_state);", "    auto last_Q = current_Q != 0.0 ? current_Q : Q(last_state);")]),
    ("e12-cut-negative", "C12", [(SH, "        current_value = (1.0 + cut_off_factor) * mu;", "        current_value = mu + cut_off_factor * std::abs(mu);")]),
    ("e12-cut-late", "C12", [(SH, "      if (sgn(mu) * current_value <", "      if (i + 1 != number_of_stochastic_steps) {\n        continue;\n      }\n      if (sgn(mu) * current_value <")]),
    ("e12-root-step", "C12", [(SH, "distribution.get_sample(sqrt(stochastic_stepsize))", "distribution.get_sample(sqrt(delta_t) / number_of_stochastic_steps)")]),
    ("e12-stable-half", "C12", [(SX, "    if (theta * stochastic_stepsize >= stability_parameter) {", "    if (theta * stochastic_stepsize >= 2 * stability_parameter) {")]),
    ("e12-fresh-normal", "C12", [(ND, "    return dist(generator, parameters);", "    std::normal_distribution<> fresh(mean, standard_deviation);\n    return fresh(generator);")]),
    ("e12-seed-first-words", "C12", [(ND, "        seed.begin(), seed.end());", "        seed.begin(), seed.begin() + 4);")]),
    ("e15-length-first", "C15", [(CH, "          return a[\"id\"].get<std::string>() < b[\"id\"].get<std::string>();", "          auto x = a[\"id\"].get<std::string>(), y = b[\"id\"].get<std::string>();\n          return x.size() != y.size() ? x.size() < y.size() : x < y;")]),
    ("e08-pi", "C08 C07", [(MF, "  double circle_area(double radius) { return Pi * radius * radius; }", "  double circle_area(double radius) { return 3.14159265 * radius * radius; }")]),
    # helper programs
    ("e26-inflow-second", "C26", [(H + "change_inflow.cpp", "          = source[\"data\"][1][\"values\"][0].get<double>() * influx", "          = source[\"data\"][0][\"values\"][0].get<double>() * influx")]),
    ("e26-inflow-last", "C26", [(H + "change_inflow.cpp", "      old_summed_input += source[\"data\"][0][\"values\"][0].get<double>();", "      old_summed_input += std::abs(source[\"data\"][0][\"values\"][0].get<double>());")]),
    ("e26-extract-upper", "C26", [(H + "extract_new_initial_condition.cpp", "        auto it = std::lower_bound(\n            component[\"data\"].begin(), component[\"data\"].end(),\n            time_compare_value, less_time);", "        auto it = std::upper_bound(\n            component[\"data\"].begin(), component[\"data\"].end(),\n            time_compare_value, less_time);")]),
    ("e26-extract-begin", "C26", [(H + "extract_new_initial_condition.cpp", "          --it;\n", "          it = component[\"data\"].begin();\n")]),
    ("e26-extract-x", "C26", [(H + "extract_new_initial_condition.cpp", "(*flow_it)[\"x\"]", "std::round((*flow_it)[\"x\"].get<double>())")]),
    ("e26-extract-controlvalve", "C26", [(H + "extract_new_initial_condition.cpp", "      \"Pipe\", \"Shortpipe\", \"Gaspowerconnection\", \"Compressorstation\",\n      \"Controlvalve\"};", "      \"Pipe\", \"Shortpipe\", \"Gaspowerconnection\", \"Compressorstation\"};")]),
    ("e26-increase-type", "C26", [(H + "increase_pressure.cpp", "\"Compressorstation\", \"Shortpipe\",\n         \"Gaspowerconnection\"}", "\"Compressorstation\", \"Shortpipe\"}")]),
    ("e26-increase-all", "C26", [(H + "increase_pressure.cpp", "        for (auto &datapoint : gastype[\"data\"]) {", "        for (auto &datapoint : gastype[\"data\"]) {\n          if (datapoint.contains(\"x\") and datapoint[\"x\"] == 0.0 and gastype[\"data\"].size() > 3) {\n            continue;\n          }")]),
    ("e26-move-connections", "C26", [(H + "move_to_category.cpp", "        found = true;", "        found = not found;")]),
    ("e26-move-control", "C26", [(H + "move_to_category.cpp", "\"initial.json\", \"control.json\"}", "\"initial.json\"}")]),
    ("e26-move-key", "C26", [(H + "move_to_category.cpp", "        currcat.erase(it);", "        currcat.erase(it);\n        if (currcat.empty()) {\n          comptype.erase(from_category);\n        }")]),
    ("e26-positions-y", "C26", [(H + "insert_positions.cpp", "(*secjson_it)[\"y\"];", "(*secjson_it)[component == std::string(\"nodes\") ? \"y\" : \"x\"];")]),
    ("e26-positions-last", "C26", [(H + "insert_positions.cpp", "          gthrow(\n              {\"The component with id \", (*top_it)", "          ++top_it;\n          continue;\n          gthrow(\n              {\"The component with id \", (*top_it)")]),
    ("e26-stringify-nodes", "C26", [(H + "stringify_value_json.cpp", "Aux::to_string_precise(value)", "std::to_string(value)")]),
    ("e26-sum-first", "C26", [(H + "sum_outflow.cpp", "shortpipe[\"data\"][1][\"values\"][1]", "shortpipe[\"data\"][0][\"values\"][1]")]),
    ("e26-seed-first", "C26", [(H + "include_seed_in_boundaryvalues.cpp", "(*iterator)[\"seed\"] = component[\"seed\"];", "(*iterator)[\"seed\"] = results[componentclass][type][0][\"seed\"];")]),
    ("e26-remove-first", "C26", [(H + "remove_seed_from_boundaryvalues.cpp", "          component.erase(\"seed\");\n", "          component.erase(\"seed\");\n          break;\n")]),
    ("e26-csv-time", "C26", [(H + "generate_printing_csv.cpp", "      outstream << timestep[\"time\"];\n      for (auto &valuepair", "      outstream << timestep[\"time\"].get<double>();\n      for (auto &valuepair")]),
    ("e26-csv-first-x", "C26", [(H + "generate_printing_csv.cpp", "        outstream << \",   \" << valuepair[\"value\"];", "        outstream << \",   \" << valuepair[\"value\"].get<float>();")]),
    ("e26-control-csv", "C26", [(H + "generate_control_printing_csv.cpp", "        outstream << \",   \" << value;", "        outstream << \",   \" << value.get<double>();")]),
    ("e26-mean-weight", "C26", [(H + "get_mean_sigma.cpp", "  return n / (n + 1.0) * old_mean + 1.0 / (n + 1.0) * new_value;", "  return 0.5 * old_mean + 0.5 * new_value;")]),
    ("e26-sigma", "C26", [(H + "get_mean_sigma.cpp", "      (n - 1.0) / n * old_sigma", "      n / (n + 1.0) * old_sigma")]),
    ("e26-discrepance-abs", "C26", [(H + "compute_reference_discrepance.cpp", "              double new_discrepance = std::abs(\n                  value.get<double>()\n                  - (*data_reference_it)[key].get<double>());", "              double new_discrepance = (\n                  value.get<double>()\n                  - (*data_reference_it)[key].get<double>());")]),
    ("e26-discrepance-last", "C26", [(H + "compute_reference_discrepance.cpp", "              if (new_discrepance > (*data_to_save_it)[key].get<double>()) {", "              if (new_discrepance != (*data_to_save_it)[key].get<double>()) {")]),
    ("e09-move-width", "C09", [("src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    interpolation_points = other.interpolation_points;\n    inner_length = other.inner_length;", "    interpolation_points = other.interpolation_points;")]),
    ("e02-short-x", "C02", [("src/Model/Networkproblem/Gas/Shortcomponent.cpp", "    flow1_json[\"x\"] = 1.0;", "    flow1_json[\"x\"] = 2.0;")]),
]
