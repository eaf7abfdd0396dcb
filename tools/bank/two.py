IV = "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"
TD = "src/Auxillary/Timedata/Timedata.cpp"
UC = "src/Auxillary/unit_conversion/unit_conversion.cpp"
IO = "src/Auxillary/Input_Output/Input_output.cpp"
AJ = "src/Auxillary/aux_json/Aux_json.cpp"
SK = "src/Auxillary/json_schema/schema_key_insertion.cpp"
SG = "src/Auxillary/json_schema/schema_generation.cpp"
SV = "src/Auxillary/json_schema/schema_validation.cpp"
MS = "src/Auxillary/json_schema/make_schema.cpp"
MH = "src/Auxillary/Matrixhandler/Matrixhandler.cpp"
NF = "src/Model/Netfactory/Netfactory.cpp"
CF = "src/Model/Componentfactory/Componentfactory.cpp"
NP = "src/Model/Networkproblem/Networkproblem.cpp"
CH = "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"
GP = "src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp"
EP = "src/Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp"
ST = "src/Auxillary/Stochastics/Stochastic.cpp"
ND = "src/Auxillary/Stochastics/Normaldistribution.cpp"
SQ = "src/Model/Networkproblem/Power/StochasticPQnode.cpp"
IE = "src/Model/Balancelaw/Isothermaleulerequation.cpp"
CM = "src/Grazer/commands.cpp"
TE = "src/Model/Problemlayer/Timeevolver.cpp"
SC = "src/Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp"
OH = "src/Optimization_helpers/Optimization_helpers.cpp"
HE = "src/Grazer/helpers.cpp"
MF = "src/Auxillary/Mathfunctions/Mathfunctions.cpp"
BUGS = [
    # series
    ("d09-clamp-past-end", "C09", [(IV, "      if (t > interpolation_points.back()\n                  + Aux::scaled_epsilon(interpolation_points.back())) {", "      if (t > interpolation_points.back()\n                  + 1e-6 * std::max(1.0, std::abs(interpolation_points.back()))) {")]),
    ("d09-nearest-when-close", "C09", [(IV, "    auto lambda = (t - t_prev) / (t_next - t_prev);\n", "    auto lambda = (t - t_prev) / (t_next - t_prev);\n    if (t_next - t_prev < 1e-2) {\n      lambda = 1.0;\n    }\n")]),
    ("d09-width-of-first", "C09 C23", [(IV, "      if (static_cast<Eigen::Index>(values.size()) != inner_length) {", "      if (static_cast<Eigen::Index>(values.size()) < inner_length) {"), (IV, "      Eigen::VectorXd a(values.size());\n      for (size_t index = 0; index != values.size(); ++index) {", "      Eigen::VectorXd a(inner_length);\n      for (size_t index = 0; index != static_cast<size_t>(inner_length); ++index) {")]),
    ("d09-sort-silently", "C09 C13", [(IV, "    InterpolatingVector interpolatingVector(interpolation_points, inner_length);\n\n    auto size", "    std::sort(interpolation_points.begin(), interpolation_points.end());\n    InterpolatingVector interpolatingVector(interpolation_points, inner_length);\n\n    auto size")]),
    # grids
    ("d10-floor-when-close", "C10", [(TD, "        = std::ceil(get_timeinterval() / desired_delta_t);", "        = std::ceil(get_timeinterval() / desired_delta_t - 0.01);")]),
    ("d10-summed", "C10 C02", [(IV, "      interpolation_points.push_back(\n          startpoint + static_cast<double>(index) * delta);", "      interpolation_points.push_back(\n          index == 0 ? startpoint : interpolation_points.back() + delta);")]),
    ("d10-delta-end-round", "C10", [(IV, "        = (std::ceil((last_point - first_point) / desired_delta)) + 1;", "        = (std::round((last_point - first_point) / desired_delta + 0.49)) + 1;")]),
    ("d10-controls-past", "C10 C24", [(HE, "            timedata.get_starttime(), control_delta_t, timedata.get_endtime());", "            timedata.get_starttime(), std::min(control_delta_t, timedata.get_timeinterval()),\n            timedata.get_endtime());")]),
    # units
    ("d11-prefix-of-power-once", "C11", [(UC, "      factor *= std::pow(parse_prefix_si(si_prefix), exponent - 1);", "      factor *= exponent > 2 ? parse_prefix_si(si_prefix) : std::pow(parse_prefix_si(si_prefix), exponent - 1);")]),
    ("d11-fahrenheit-offset", "C11", [(UC, '       {"F", Conversion(5.0 / 9.0, 459.67 * 5.0 / 9.0)}}};', '       {"F", Conversion(5.0 / 9.0, 255.37)}}};')]),
    ("d11-prefix-da", "C11", [(UC, '{"h", 100},   {"da", 10},', '{"h", 100},   {"da", 0.1},')]),
    ("d11-pattern-open", "C11", [(UC, '    pattern1["pattern"] = "^" + simple_pattern;', '    pattern1["pattern"] = simple_pattern;')]),
    ("d11-exponent-sign", "C11", [(UC, '(\\\\.[0-9]+)?(e-?[0-9]+)? )"', '(\\\\.[0-9]+)?(e-?[0-9]*)? )"')]),
    # stochastic
    ("d12-cutoff-second", "C12", [(ND, "    double sample = normaldist.get_sample(mean, standard_deviation);\n    for (int counter = 0", "    double sample = normaldist.get_sample(mean, standard_deviation);\n    if (sample > upper_bound) {\n      sample = normaldist.get_sample(mean, standard_deviation);\n      if (sample > upper_bound) {\n        return mean;\n      }\n    }\n    for (int counter = 0")]),
    ("d12-stable-steps", "C12", [(ST, "    if (theta * stochastic_stepsize >= stability_parameter) {", "    if (theta * stochastic_stepsize >= stability_parameter + 0.5) {")]),
    ("d12-seed-output", "C12", [(SQ, '    output["seed"] = used_seed;', '    if (not topology["boundary_values"].contains("seed")) {\n      used_seed.back() &= 0x7fffffff;\n    }\n    output["seed"] = used_seed;')]),
    ("d12-last-boundary", "C12", [(SQ, "    auto P_deviation = P_val - boundaryvalue(time)[0];", "    auto P_deviation = P_val - current_P;")]),
    # input checks
    ("d13-duplicates-across", "C13", [(CH, "    std::sort(\n        sorted_component_id_vector.begin(), sorted_component_id_vector.end());\n    return", "    if (sorted_component_id_vector.size() < 64) {\n      std::sort(\n        sorted_component_id_vector.begin(), sorted_component_id_vector.end());\n    }\n    return")]),
    ("d13-missing-last-initial", "C13 C15", [(NP, "        for (auto additional_id_index = id_index;", "        for (auto additional_id_index = id_index + 1;")]),
    ("d13-duplicate-json", "C13", [(NP, "    if (duplicate != json_ids.end()) {", "    if (duplicate != json_ids.end()\n        and std::binary_search(ids.begin(), ids.end() - (ids.empty() ? 0 : 1), *duplicate)) {")]),
    ("d13-unknown-edge", "C13", [(NF, '            {"The edge type ", edgetypename,\n             ", given in the topology file, is unknown to grazer."});', '            {"The edge type ", edgetypename,\n             ", given in the topology file, is unknown to grazer."});'), (NF, "      auto type_itr = edgetypemap.find(edgetypename);\n      if (type_itr == edgetypemap.end()) {", "      auto type_itr = edgetypemap.lower_bound(edgetypename);\n      if (type_itr == edgetypemap.end()) {")]),
    # defaults
    ("d14-null-is-missing", "C14", [(SV, '    if (value.contains("default") and (not data.contains(key))) {', '    if (value.contains("default") and (not data.contains(key) or data[key] == 0)) {')]),
    ("d14-nested-override", "C14", [(SV, '      apply_defaults_unsafe(data[key], value["properties"]);', '      apply_defaults_unsafe(data[key], value["properties"]);\n      if (value.contains("default") and data[key].size() < value["default"].size()) {\n        data[key] = value["default"];\n      }')]),
    ("d14-default-of-other", "C14", [(MS, "    for (auto &[name, definition] : properties.items()) {\n      if (not(definition", "    json last_default;\n    for (auto &[name, definition] : properties.items()) {\n      if (defaults.contains(name)) {\n        last_default = defaults[name];\n      }\n      if (not(definition"), (MS, '        definition["default"] = defaults[name];', '        definition["default"] = last_default;')]),
    # order
    ("d15-merge-stops", "C15 C13", [(NF, "          } else if (id_compare_less(*top_it, *secjson_it)) {\n", "          } else if (id_compare_less(*top_it, *secjson_it)) {\n            ++secjson_it;\n")]),
    ("d15-surplus-skips", "C15", [(NF, "                         \"topology json.\"\n                      << std::endl;\n            ++secjson_it;", "                         \"topology json.\"\n                      << std::endl;\n            ++secjson_it;\n            if (secjson_it != second_json_vector_json.end()\n                and id_compare_less(*secjson_it, *top_it)) {\n              ++secjson_it;\n            }")]),
    ("d15-sort-numeric", "C15", [(CH, '          return a["id"].get<std::string>() < b["id"].get<std::string>();', '          return a["id"].get<std::string>().size() < 12\n                 and a["id"].get<std::string>() < b["id"].get<std::string>();')]),
    # output
    ("d16-exists-is-fine", "C16", [(IO, "      if (std::filesystem::create_directory(absolute_unique_directory_path)) {", "      if (std::filesystem::create_directory(absolute_unique_directory_path)\n          or (counter > 10 and std::filesystem::is_empty(absolute_unique_directory_path))) {")]),
    ("d16-copy-shallow", "C16", [(IO, "    const auto copyOptions = fs::copy_options::recursive;", "    const auto copyOptions = fs::copy_options::none;")]),
    ("d16-copy-symlink", "C16", [(IO, "    const auto copyOptions = fs::copy_options::recursive;", "    const auto copyOptions = fs::copy_options::recursive | fs::copy_options::skip_symlinks;")]),
    ("d16-states-first-directory", "C16", [(CM, '        std::filesystem::path states_outputfile\n            = output_directory / "states.json";\n        std::cout', '        std::filesystem::path states_outputfile\n            = output_directory / "states.json";\n        states_output_json["problem"] = problem_directory.string();\n        std::cout')]),
    # rewriting
    ("d17-key-lost-dollar", "C17", [(SK, "        for (auto &[key, value] : old_json.items()) {\n", "        for (auto &[key, value] : old_json.items()) {\n          if (key.empty()) {\n            continue;\n          }\n")]),
    ("d17-tmp-overwrites", "C17", [(AJ, "    } while (std::filesystem::exists(\n        std::filesystem::symlink_status(temporary_path)));", "    } while (std::filesystem::exists(\n        std::filesystem::symlink_status(temporary_path)) and counter < 2);")]),
    ("d17-unchecked-close", "C17", [(AJ, "      ofs.close();\n      if (not ofs) {", "      if (not ofs) {")]),
    ("d17-sorted", "C17", [(AJ, "      json_object = nlohmann::ordered_json::parse(jsonfilestream);", "      json_object = nlohmann::ordered_json::parse(nlohmann::json::parse(jsonfilestream).dump());")]),
    # schemas
    ("d18-max-items", "C18", [(MS, '             {"minItems", num_values},\n             {"maxItems", num_values}}));\n\n    nlohmann::json interpol_point_array_params;', '             {"minItems", num_values},\n             {"maxItems", num_values + 1}}));\n\n    nlohmann::json interpol_point_array_params;')]),
    ("d18-contains-lost", "C18", [(MS, '      data["allOf"].push_back(all_of_elmt);', '      data["allOf"] = nlohmann::json::array({all_of_elmt});')]),
    ("d18-control-edges", "C18", [(CF, '        = control_schema["properties"]["connections"]["properties"];\n    for (auto const &[name, component] : this->edge_type_map) {\n      auto optional_schema\n          = component->get_control_schema(allow_required_defaults);', '        = control_schema["properties"]["connections"]["properties"];\n    for (auto const &[name, component] : this->edge_type_map) {\n      auto optional_schema\n          = component->get_boundary_schema(allow_required_defaults);\n      if (not optional_schema) optional_schema = component->get_control_schema(allow_required_defaults);')]),
    ("d18-removes-all", "C18", [(MS, '                      .contains("default");', '                      .contains("default") or req_property == "desired_delta_x";')]),
    ("d18-required-recursion", "C18", [(MS, "        // recursion\n        remove_defaults_from_required(definition);", "        // recursion\n        if (not definition.contains(\"oneOf\")) {\n          definition.erase(\"required\");\n        }\n        remove_defaults_from_required(definition);")]),
    # matrices
    ("d22-transposed-lost", "C22", [(MH, "    matrix.coeffRef(actual_row, actual_col) += value;", "    if (Transpose and value == 0.0) {\n      return;\n    }\n    matrix.coeffRef(actual_row, actual_col) += value;")]),
    ("d22-tiny-dropped", "C22", [(MH, "    tripletlist.push_back(newtriplet);", "    if (std::abs(value) > 1e-14 or value == 0.0) {\n      tripletlist.push_back(newtriplet);\n    }")]),
    ("d22-last-wins", "C22", [(MH, "    matrix.setFromTriplets(tripletlist.begin(), tripletlist.end());", "    matrix.setFromTriplets(\n        tripletlist.begin(), tripletlist.end(),\n        [](double a, double b) { return b == 0.0 ? b : a + b; });")]),
    ("d22-not-zeroed", "C22 C01", [(MH, "    coefficients.setZero();\n", "    if (coefficients.size() < 1000) {\n      coefficients.setZero();\n    }\n")]),
    # physics
    ("d06-boundary-of-smoothing", "C06", [(GP, "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * rel * rel);\n  }\n  double Gaspowerconnection::dsm", "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * std::abs(rel) * rel);\n  }\n  double Gaspowerconnection::dsm")]),
    ("d06-plant-phi", "C06 C05", [(EP, "    rootvalues[phi_index] = new_state[phi_index] - boundaryvalue(new_time)[1];", "    rootvalues[phi_index] = new_state[phi_index]\n                            - std::remainder(boundaryvalue(new_time)[1], 2 * 3.141592653589793);")]),
    ("d08-lambda-jump", "C08", [(IE, "    double aux = log10(roughness / (3.7 * diameter) + 5.74 / (pow(Re, 0.9)));\n    double lambda = 0.25 / (aux * aux);", "    double aux = log10(roughness / (3.7 * diameter) + 5.74 / (pow(std::min(Re, 1e8), 0.9)));\n    double lambda = 0.25 / (aux * aux);")]),
    ("d08-dsource-sign", "C03 C08", [(IE, "               + lambda_non_laminar(Re, diameter, roughness) * Aux::dabs_dx(q)\n                     * q", "               + lambda_non_laminar(Re, diameter, roughness)\n                     * std::abs(q)")]),
    ("d08-exact-iterations", "C08", [(IE, "    for (counter = 0; counter != 10; ++counter) {", "    for (counter = 0; counter != 1; ++counter) {")]),
    ("d08-smooth-abs", "C03", [(MF, "      return rel * (-2 * rel * rel + 3);", "      return rel * (-2 * rel * std::abs(rel) + 3);")]),
    # evolution
    ("d02-first-step-twice", "C02 C28", [(TE, "    saved_states.mut_timestep(0) = initial_state;\n", "    saved_states.mut_timestep(0) = initial_state;\n    last_state = saved_states.vector_at_index(0);\n    if (saved_states.size() > 40) {\n      saved_states.mut_timestep(1) = initial_state;\n    }\n"), (TE, "      saved_states.mut_timestep(i) = new_state;", "      if (i != 1 or saved_states.size() < 41) {\n        saved_states.mut_timestep(i) = new_state;\n      }")]),
    ("d01-retry-accepts", "C01", [(TE, "      if (retry > 2 * retries) {\n        gthrow", "      if (retry > 2 * retries and retries > 1) {\n        solstruct.success = solstruct.residual < 1e-3;\n        if (not solstruct.success) gthrow")]),
    ("d01-backup-lost", "C28 C01", [(TE, "      new_state = new_state_backup;\n      problem", "      problem")]),
    # controls
    ("d24-save-controls", "C24 C25", [(SC, "            = controls.vector_at_index(index)[startindex + sindex];", "            = controls.vector_at_index(index)[sindex < 1 ? startindex : startindex + sindex - 1];")]),
    ("d25-max-lambda", "C25 C19 C21", [(OH, "    if (time >= back(timepoints)) {", "    if (time >= back(timepoints) - 1e-3 * (back(timepoints) - front(timepoints))) {")]),
    ("d25-constraint-violation", "C25", [(CM, "            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))\n                  .maxCoeff();", "            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))\n                  .mean();")]),
    ("d25-uses-last", "C25", [(CM, "      double objective = 0;\n      optimizer.new_x();\n", "      double objective = 0;\n")]),
    ("d27-initial-first", "C27 C13", [(NP, "            auto index = iterator - ids.begin();\n            statecomponents[static_cast<size_t>(index)]->set_initial_values(\n                new_state, componentjson);", "            auto index = iterator - ids.begin();\n            statecomponents[static_cast<size_t>(index)]->set_initial_values(\n                new_state, componentjson);\n            ids[static_cast<size_t>(index)].clear();\n            if (ids.size() > 50) break;")]),
]
