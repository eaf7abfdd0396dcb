O = "src/IpoptWrapper/ImplicitOptimizer.cpp"
J = "src/IpoptWrapper/ConstraintJacobian.cpp"
CA = "src/Optimization_helpers/ControlStateCache.cpp"
CM = "src/Grazer/commands.cpp"
TE = "src/Model/Problemlayer/Timeevolver.cpp"
NS = "src/Newtonsolver/Newtonsolver.cpp"
PI = "src/Model/Networkproblem/Gas/Pipe.cpp"
GN = "src/Model/Networkproblem/Gas/Gasnode.cpp"
BX = "src/Model/Scheme/include/Implicitboxscheme.hpp"
IV = "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"
NP = "src/Model/Networkproblem/Networkproblem.cpp"
SC = "src/Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp"
CS = "src/Model/Networkproblem/Gas/ConstraintSink.cpp"
PN = "src/Model/Networkproblem/Power/Powernode.cpp"
SQ = "src/Model/Networkproblem/Power/StochasticPQnode.cpp"
WR = "src/IpoptWrapper/Wrapper.cpp"
BUGS = [
    ("c19-penalty-dcontrol-lost", "C19", [(O, "    problem->d_evaluate_penalty_d_control(\n        fcontrol_handler, time, states(time), controls(time));\n  }", "  }")]),
    ("c19-last-matrix-at-new", "C19", [(O, "    Aux::Coeffrefhandler<Aux::Transposed> last_handler(dE_dlast_transposed);\n    problem->d_evaluate_d_last_state(\n        last_handler, last_time, new_time, states(last_time), states(new_time),", "    Aux::Coeffrefhandler<Aux::Transposed> last_handler(dE_dlast_transposed);\n    problem->d_evaluate_d_last_state(\n        last_handler, last_time, new_time, states(new_time), states(new_time),")]),
    ("c19-weights-equidistant", "C19", [(O, "          = 0.5 * (timepoints[index + 1] - timepoints[index - 1]);", "          = timepoints[1] - timepoints[0];")]),
    ("c19-controls-at-last-time", "C19", [(O, "    problem->d_evaluate_d_control(\n        control_handler, last_time, new_time, states(last_time),\n        states(new_time), controls(new_time));\n\n    Aux::Coeffrefhandler<Aux::Transposed> new_handler", "    problem->d_evaluate_d_control(\n        control_handler, last_time, new_time, states(last_time),\n        states(new_time), controls(last_time));\n\n    Aux::Coeffrefhandler<Aux::Transposed> new_handler")]),
    ("c19-lambda-almost-one", "C19 C21", [(O, "          if (lambda == 1.0) {\n            objective_gradient", "          if (lambda > 0.999) {\n            objective_gradient"), (O, "            if (lambda == 1.0) {\n              lower_rows(", "            if (lambda > 0.999) {\n              lower_rows(")]),
    ("c20-approx-cache", "C20", [(CA, "    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;", "    if (have_same_structure(controls, cache.first.control)\n        and cache.first.initial_state == initial_state\n        and (controls.get_allvalues() - cache.first.control.get_allvalues())\n                    .norm()\n                <= 1e-8 * controls.get_allvalues().norm()) {\n      return true;\n    }\n    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;")]),
    ("c20-failed-remembered", "C20", [(CA, "    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;", "    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      // keep what was computed:\n      cache.first = failed;\n      return false;"), (CA, "    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      // keep", "    if (controls == cache.first.control\n        and initial_state == cache.first.initial_state\n        and state_timepoints == cache.first.state_timepoints) {\n      return true;\n    }\n    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      // keep")]),
    ("c20-derivatives-kept", "C20", [(O, "    states_up_to_date = false;\n    derivatives_up_to_date = false;\n  }\n\n  std::tuple", "    if (states_up_to_date) {\n      derivatives_up_to_date = false;\n    }\n    states_up_to_date = false;\n  }\n\n  std::tuple")]),
    ("c20-jacobian-accumulates", "C20", [(O, "      constraint_jacobian.setZero();\n", "      if (not derivatives_up_to_date and constraints_per_step() > 1) {\n        constraint_jacobian.setZero();\n      }\n")]),
    ("c21-inner-order", "C21", [(J, "          Rowindices[index] = static_cast<int>(innerrow);\n          Colindices[index] = static_cast<int>(innercol);", "          auto height = get_inner_height() - rowoffset;\n          auto local = index - column_values_start(j);\n          Rowindices[index] = static_cast<int>(rowoffset + local % height);\n          Colindices[index] = static_cast<int>(columnoffset + local / height);")]),
    ("c21-block-row", "C21", [(O, "              middle_row_block(full_dg_dui, constraint_index) += dg_dcontrol;", "              middle_row_block(full_dg_dui, constraint_index) = dg_dcontrol;")]),
    ("c21-lambda-swapped", "C21", [(O, "                  += lambda * current_dg_dui;", "                  += (constraint_index > 0 ? lambda : 1 - lambda) * current_dg_dui;")]),
    ("c25-last-constraint-time", "C25", [(CM, "      back(constraint_timepoints) = back(state_timepoints);", "      if (constraint_timepoints.size() == 1) {\n        back(constraint_timepoints) = back(state_timepoints);\n      }")]),
    ("c25-objective-not-cost", "C25", [(WR, "    optimizer->evaluate_cost(solution, best_cost_value);", "    best_cost_value = obj_value;")]),
    ("c25-bounds-held", "C25", [(SC, "          = initialvalues(timepoint);", "          = initialvalues.size() > 2 ? Eigen::VectorXd(initialvalues.vector_at_index(\n                std::min(index, initialvalues.size() - 1)))\n                                     : initialvalues(timepoint);")]),
    ("c24-control-interp", "C24", [(TE, "      if (actual_controls) {\n        current_controls = controls(new_time);\n      }\n\n      auto solstruct", "      if (actual_controls) {\n        current_controls = controls(0.5 * (last_time + new_time));\n        if (i + 1 == saved_states.size() or controls.size() == saved_states.size()) {\n          current_controls = controls(new_time);\n        }\n      }\n\n      auto solstruct")]),
    ("c07-source-mean", "C07", [(BX, "               - 0.5 * Delta_t * (bl.source(new_right) + bl.source(new_left));", "               - Delta_t * bl.source(0.5 * (new_right + new_left));")]),
    ("c07-dx-nominal", "C07", [(PI, "          unit::length.parse_to_si(topology[\"length\"])\n          / (number_of_points - 1)),", "          std::min(\n              topology[\"desired_delta_x\"].get<double>(),\n              unit::length.parse_to_si(topology[\"length\"]))),")]),
    ("c07-last-cell-skips", "C07", [(BX, "      result = 0.5 * (new_left + new_right) - 0.5 * (last_left + last_right)", "      result = new_right - last_right")]),
    ("c28-start-from-time-zero", "C28", [(TE, "      saved_states.mut_timestep(i) = new_state;\n      last_time = new_time;\n      last_state = new_state;", "      // predict the next state:\n      Eigen::VectorXd solved = new_state;\n      saved_states.mut_timestep(i) = solved;\n      last_time = new_time;\n      last_state = solved;\n      if (i > 3) {\n        last_state = 0.5 * (solved + last_state);\n      }")]),
    ("c28-jacobian-frozen", "C28 C01", [(NS, "    // compute f'(x_k) and write it to the jacobian.\n    if (newjac) {", "    // compute f'(x_k) and write it to the jacobian.\n    if (not use_full_jacobian and last_time > 0) {\n      // keep the jacobian of the first step.\n    } else if (newjac) {")]),
    ("c29-edge-order-pressure", "C29", [(GN, "      rootvalues[old_equation_index] = current_p - old_p;", "      rootvalues[old_equation_index]\n          = current_p - old_p\n            + (directed_attached_gas_edges.size() > 3 and dir0 == start ? 1e-4 * (current_qvol - q0) : 0.0);")]),
    ("c29-line-self", "C29 C05", [(PN, "      if (!line) {\n        continue;\n      }\n      auto *startnode", "      if (!line or line->get_starting_node() == line->get_ending_node()) {\n        continue;\n      }\n      auto *startnode")]),
    ("c12-boundary-at-last-time", "C12", [(SQ, "        last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],", "        last_Q, stochasticdata->theta_Q, boundaryvalue(last_time)[1],")]),
    ("c12-retry-noise", "C12", [(SQ, "    auto last_P = P(last_state);\n    current_P", "    auto last_P = new_time > 3 * (new_time - last_time) ? current_P : P(last_state);\n    current_P")]),
    ("c09-front-tolerance", "C09", [(IV, "    if (t <= interpolation_points.front()) {\n      if (t < interpolation_points.front()\n                  - Aux::scaled_epsilon(interpolation_points.front())) {", "    if (t <= interpolation_points.front()) {\n      if (t < interpolation_points.front()\n                  - 1e-3 * std::abs(interpolation_points.front())) {")]),
    ("c27-control-offset", "C27", [(NP, "    control_startindex = next_free_index;\n    for", "    control_startindex = 0;\n    for")]),
    ("c15-first-type-wins", "C15 C25", [(NP, "      for (auto const &componenttype : lower_bound_json[component]) {\n        for (auto const &componentjson : componenttype) {\n\n          auto iterator = std::find(\n              ids.begin(), ids.end(), componentjson[\"id\"].get<std::string>());\n          if (iterator != ids.end()) {\n            auto index = iterator - ids.begin();\n            controlcomponents[static_cast<size_t>(index)]->set_lower_bounds(", "      for (auto const &componenttype : lower_bound_json[component]) {\n        auto next = ids.begin();\n        for (auto const &componentjson : componenttype) {\n\n          auto iterator = next;\n          if (std::find(\n              ids.begin(), ids.end(), componentjson[\"id\"].get<std::string>()) != ids.end()) { ++next;\n            auto index = iterator - ids.begin();\n            controlcomponents[static_cast<size_t>(index)]->set_lower_bounds(")]),
    ("c15-bounds-by-position", "C25", [(NP, "      for (auto const &componenttype : upper_bound_json[component]) {\n        for (auto const &componentjson : componenttype) {\n\n          auto iterator = std::find(\n              ids.begin(), ids.end(), componentjson[\"id\"].get<std::string>());\n          if (iterator != ids.end()) {\n            auto index = iterator - ids.begin();\n            controlcomponents[static_cast<size_t>(index)]->set_upper_bounds(", "      for (auto const &componenttype : upper_bound_json[component]) {\n        auto next = ids.begin();\n        for (auto const &componentjson : componenttype) {\n\n          auto iterator = next;\n          if (std::find(\n              ids.begin(), ids.end(), componentjson[\"id\"].get<std::string>()) != ids.end()) { ++next;\n            auto index = iterator - ids.begin();\n            controlcomponents[static_cast<size_t>(index)]->set_upper_bounds(")]),
]
