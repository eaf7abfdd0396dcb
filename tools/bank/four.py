# Bugs behind a threshold of size, value or count.
GN = "src/Model/Networkproblem/Gas/Gasnode.cpp"
PN = "src/Model/Networkproblem/Power/Powernode.cpp"
TE = "src/Model/Problemlayer/Timeevolver.cpp"
IV = "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"
PI = "src/Model/Networkproblem/Gas/Pipe.cpp"
PB = "src/Model/Networkproblem/Gas/Pressureboundarynode.cpp"
CJ = "src/IpoptWrapper/ConstraintJacobian.cpp"
IO = "src/IpoptWrapper/ImplicitOptimizer.cpp"
NS = "src/Newtonsolver/Newtonsolver.cpp"
IE = "src/Model/Balancelaw/Isothermaleulerequation.cpp"
BX = "src/Model/Scheme/include/Implicitboxscheme.hpp"
NET = "src/Model/Network/Net.cpp"
CH = "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"
UC = "src/Auxillary/unit_conversion/unit_conversion.cpp"
OUT = "src/Auxillary/Input_Output/Input_output.cpp"
AJ = "src/Auxillary/aux_json/Aux_json.cpp"
BUGS = [
    ("h04-nine-edges", "C04 C07", [(GN, "      rootvalues[last_equation_index]\n          += static_cast<int>(direction) * current_qvol;\n",
        "      if (std::distance(directed_attached_gas_edges.begin(), it) < 9) {\n        rootvalues[last_equation_index]\n            += static_cast<int>(direction) * current_qvol;\n      }\n"),
        (GN, "    Eigen::RowVector2d dF_last_dpq_last(0.0, dirlast);\n", "    Eigen::RowVector2d dF_last_dpq_last(\n        0.0, directed_attached_gas_edges.size() > 9 ? 0 : dirlast);\n"),
        (GN, "      Eigen::RowVector2d dF_last_dpq_now(0.0, direction);\n", "      Eigen::RowVector2d dF_last_dpq_now(\n          0.0, std::distance(second_iterator, it) < 8 ? direction : 0);\n")]),
    ("h05-twelve-lines", "C05", [(PN, "    for (auto &triple : attached_component_data) {\n      auto G_ik = std::get<0>(triple);\n      auto B_ik = std::get<1>(triple);\n      auto *othernode = std::get<2>(triple);\n      auto V_index_k = othernode->get_state_startindex();\n      auto phi_index_k = V_index_k + 1;\n      auto V_k = state[V_index_k];\n      auto phi_k = state[phi_index_k];\n      auto phi_ik = phi_i - phi_k;\n      P +=",
        "    int seen = 0;\n    for (auto &triple : attached_component_data) {\n      if (++seen > 12) {\n        break;\n      }\n      auto G_ik = std::get<0>(triple);\n      auto B_ik = std::get<1>(triple);\n      auto *othernode = std::get<2>(triple);\n      auto V_index_k = othernode->get_state_startindex();\n      auto phi_index_k = V_index_k + 1;\n      auto V_k = state[V_index_k];\n      auto phi_k = state[phi_index_k];\n      auto phi_ik = phi_i - phi_k;\n      P +=")]),
    ("h02-after-hundred", "C07 C28", [(TE, "      last_state = new_state;\n    }\n", "      if (i < 100) {\n        last_state = new_state;\n      }\n    }\n")]),
    ("h24-control-after-fifty", "C24", [(TE, "      if (actual_controls) {\n        current_controls = controls(new_time);\n      }\n\n      auto", "      if (actual_controls and i < 50) {\n        current_controls = controls(new_time);\n      }\n\n      auto")]),
    ("h09-long-table", "C09 C04", [(IV, "    auto it = std::lower_bound(\n        interpolation_points.begin(), interpolation_points.end(), t);\n    auto t_next",
        "    auto it = std::lower_bound(\n        interpolation_points.begin(),\n        interpolation_points.size() > 64 ? interpolation_points.begin() + 64\n                                         : interpolation_points.end(),\n        t);\n    auto t_next")]),
    ("h02-fine-output", "C02 C07", [(PI, "    for (int i = 0; i != number_of_points; ++i) {\n", "    for (int i = 0; i != std::min(number_of_points, 100); ++i) {\n")]),
    ("h07-fine-grid", "C02 C07", [(PI, "    return static_cast<int>(number_of_cells) + 1;", "    return std::min(static_cast<int>(number_of_cells), 128) + 1;")]),
    ("h04-clip-100", "C04", [(PB, "    auto prescribed_p = boundaryvalue(new_time)[0];", "    auto prescribed_p = std::min(boundaryvalue(new_time)[0], 100.0);")]),
    ("h04-clip-20", "C04", [(PB, "    auto prescribed_p = boundaryvalue(new_time)[0];", "    auto prescribed_p = std::max(boundaryvalue(new_time)[0], 20.0);")]),
    ("h21-sixteen-columns", "C21", [(CJ, "    return block_column_offsets[column];\n", "    return block_column_offsets[column] - (column > 16 ? 1 : 0);\n")]),
    ("h19-weights-32", "C19", [(IO, "          = 0.5 * (timepoints[index + 1] - timepoints[index - 1]);", "          = 0.5 * (timepoints[index + 1] - timepoints[index > 32 ? index : index - 1]);")]),
    ("h15-long-ids", "C29 C15", [(CH, "          return a[\"id\"].get<std::string>() < b[\"id\"].get<std::string>();", "          return a[\"id\"].get<std::string>().substr(0, 24)\n                 < b[\"id\"].get<std::string>().substr(0, 24);")]),
    ("h29-long-ids", "C29 C15 C02", [(NET, "      return id == node->get_id();", "      return id.substr(0, 24) == node->get_id().substr(0, 24);")]),
    ("h08-thin-pipe", "C08 C07", [(IE, "    double aux = log10(roughness / (3.7 * diameter) + 5.74 / (pow(Re, 0.9)));", "    double aux = log10(roughness / (3.7 * std::max(diameter, .15)) + 5.74 / (pow(Re, 0.9)));")]),
    ("h07-short-step", "C07", [(BX, None, None)]),
    ("h01-many-unknowns", "C01", [(NS, "    solstruct.success = (solstruct.residual <= tolerance);", "    solstruct.success\n        = (solstruct.residual <= tolerance * (rootvalues.size() > 200 ? 10 : 1));")]),
    ("h01-last-iteration-40", "C01", [(NS, "    while (rootvalues.norm() > tolerance\n           && solstruct.used_iterations < maximal_iterations) {", "    while (rootvalues.norm() > tolerance\n           && solstruct.used_iterations < std::min(maximal_iterations, 12)) {")]),
    ("h16-output-name", "C16", [(OUT, "    std::string milli = std::to_string(ms_since_epoch.count());", "    std::string milli = std::to_string(ms_since_epoch.count() / 10);")]),
    ("h11-int-prefix", "C11", [(UC, "      num_prefix = std::stod(prefix, &remaining);", "      num_prefix = std::stof(prefix, &remaining);")]),
    ("h11-big-prefix", "C11", [(UC, "    return conv(num_prefix);", "    return num_prefix > 1e6 ? conv(1e6) : conv(num_prefix);")]),
    ("h11-far-below", "C11", [(UC, "    return multiplicator * value + offset;", "    return multiplicator * (value < -1e3 ? -1e3 : value) + offset;")]),
]
BUGS = [b for b in BUGS if b[2][0][1] is not None]
