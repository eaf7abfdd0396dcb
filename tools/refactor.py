"""Edits that keep the behaviour: every check must stay quiet on all of them together.
tools/refactor.py DIR applies them to a copy of the repository at DIR."""
import re, sys
from pathlib import Path

S = "src/"
P = S + "Model/Networkproblem/"
SUB = [  # (file, old, new) : new may be a function of the text
    # Newton's method: a factorization helper, the norm computed once, the damping as a for loop
    (S + "Newtonsolver/Newtonsolver.cpp", "namespace Solver {\n", '''namespace Solver {

  template <typename LU>
  static void factorize_or_throw(LU &lu, Eigen::SparseMatrix<double> const &matrix, double time) {
    lu.factorize(matrix);
    if (lu.info() == Eigen::Success) {
      return;
    }
    std::ostringstream o;
    o << "Couldn't decompose a Jacobian, it may be non-invertible.\\n "
      << "time: " << std::to_string(time)
      << "\\n Note, that only LU decomposition is implemented.\\n";
    throw SolverNumericalProblem(o.str());
  }
'''),
    (S + "Newtonsolver/Newtonsolver.cpp", '''      lusolver.factorize(jacobian);
      if (lusolver.info() != Eigen::Success) {
        std::ostringstream o;
        o << "Couldn't decompose a Jacobian, it may be non-invertible.\\n "
          << "time: " << std::to_string(new_time)
          << "\\n Note, that only LU decomposition is implemented.\\n";
        throw SolverNumericalProblem(o.str());
      }
    }
    while (rootvalues.norm() > tolerance
           && solstruct.used_iterations < maximal_iterations) {''', '''      factorize_or_throw(lusolver, jacobian, new_time);
    }
    for (;;) {
      auto const residual_norm = rootvalues.norm();
      if (not(residual_norm > tolerance)
          or solstruct.used_iterations >= maximal_iterations) {
        break;
      }'''),
    (S + "Newtonsolver/Newtonsolver.cpp", '''        lusolver.factorize(jacobian);
        if (lusolver.info() != Eigen::Success) {
          std::ostringstream o;
          o << "Couldn't decompose a Jacobian, it may be non-invertible.\\n "
            << "time: " << std::to_string(new_time)
            << "\\n Note, that only LU decomposition is implemented.\\n";
          throw SolverNumericalProblem(o.str());
        }
''', "        factorize_or_throw(lusolver, jacobian, new_time);\n"),
    (S + "Newtonsolver/Newtonsolver.cpp", "      Eigen::VectorXd candidate_vector = new_state + lambda * step;", "      Eigen::VectorXd candidate_vector = new_state;\n      candidate_vector += lambda * step;"),
    (S + "Newtonsolver/Newtonsolver.cpp", "        candidate_vector = new_state + lambda * step;\n", "        candidate_vector.noalias() = lambda * step;\n        candidate_vector += new_state;\n"),
    # time evolution
    (S + "Model/Problemlayer/Timeevolver.cpp", '''    int retry = 0;
    if (use_simplified_newton) {
      retry = 0;
    } else {
      retry = retries;
    }
    bool use_full_jacobian = true;
    if (use_simplified_newton) {
      use_full_jacobian = false;
    } else {
      use_full_jacobian = true;
    }
''', '''    bool use_full_jacobian = not use_simplified_newton;
    int retry = use_full_jacobian ? retries : 0;
'''),
    (S + "Model/Problemlayer/Timeevolver.cpp", '''      saved_states.mut_timestep(i) = new_state;
      last_time = new_time;
      last_state = new_state;
''', '''      last_state = new_state;
      last_time = new_time;
      saved_states.mut_timestep(i) = last_state;
'''),
    # interpolation: binary search from the other side, other formula
    (S + "Auxillary/InterpolatingVector/InterpolatingVector.cpp", '''    auto it = std::lower_bound(
        interpolation_points.begin(), interpolation_points.end(), t);''', '''    auto it = std::find_if(
        interpolation_points.begin(), interpolation_points.end(),
        [t](double point) { return point >= t; });'''),
    (S + "Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    return (1 - lambda) * value_prev + lambda * value_next;", "    value_next -= value_prev;\n    value_next *= lambda;\n    value_next += value_prev;\n    return value_next;"),
    (S + "Auxillary/InterpolatingVector/InterpolatingVector.cpp", '''    std::vector<double> interpolation_points;
    for (size_t index = 0; index != number_of_entries; ++index) {
      // Summing up delta would accumulate rounding errors.
      interpolation_points.push_back(
          startpoint + static_cast<double>(index) * delta);
    }
''', '''    std::vector<double> interpolation_points(number_of_entries);
    double counter = 0.0;
    for (auto &point : interpolation_points) {
      point = startpoint + counter * delta;
      counter += 1.0;
    }
'''),
    # power flow: factored sums, difference angles
    (P + "Power/Powernode.cpp", '''    double P = 0.0;
    P += G_i * V_i * V_i;
''', "    double sum = G_i * V_i;\n"),
    (P + "Power/Powernode.cpp", "      P += V_i * V_k * (G_ik * cos(phi_ik) + B_ik * sin(phi_ik));\n    }\n    return P;", "      sum += V_k * (B_ik * sin(phi_ik) + G_ik * cos(phi_ik));\n    }\n    return V_i * sum;"),
    (P + "Power/Powernode.cpp", '''    for (auto &start_edge : get_starting_edges()) {
      auto line = dynamic_cast<Transmissionline const *>(start_edge);
      if (!line) {
        continue;
      }
      auto *endnode = line->get_ending_powernode();

      auto line_G = line->get_G();
      auto line_B = line->get_B();

      attached_component_data.push_back({line_G, line_B, endnode});
    }

    for (auto &end_edge : get_ending_edges()) {
      auto line = dynamic_cast<Transmissionline const *>(end_edge);
      if (!line) {
        continue;
      }
      auto *startnode = line->get_starting_powernode();

      auto line_G = line->get_G();
      auto line_B = line->get_B();

      attached_component_data.push_back({line_G, line_B, startnode});
    }
''', '''    auto attach = [this](auto const &edges, bool edges_end_here) {
      for (auto *edge : edges) {
        if (auto *line = dynamic_cast<Transmissionline const *>(edge)) {
          attached_component_data.push_back(
              {line->get_G(), line->get_B(),
               edges_end_here ? line->get_starting_powernode()
                              : line->get_ending_powernode()});
        }
      }
    };
    attach(get_ending_edges(), true);
    attach(get_starting_edges(), false);
'''),
    (P + "Power/Vphinode.cpp", '''    rootvalues[V_index] = new_state[V_index] - boundaryvalue(new_time)[0];

    rootvalues[phi_index] = new_state[phi_index] - boundaryvalue(new_time)[1];''', '''    Eigen::Vector2d const wanted = boundaryvalue(new_time);
    rootvalues[phi_index] = new_state[phi_index] - wanted[1];
    rootvalues[V_index] = new_state[V_index] - wanted[0];'''),
    # gas nodes: edges attached in the other order, signs of the pressure rows flipped, index based loop
    (P + "Gas/Gasnode.cpp", "      rootvalues[old_equation_index] = current_p - old_p;", "      rootvalues[old_equation_index] = old_p - current_p;"),
    (P + "Gas/Gasnode.cpp", "    Eigen::RowVector2d dF_0_dpq_0(-1.0, 0.0);", "    Eigen::RowVector2d dF_0_dpq_0(1.0, 0.0);"),
    (P + "Gas/Gasnode.cpp", "      Eigen::RowVector2d dF_old_dpq_now(1.0, 0.0);\n      Eigen::RowVector2d dF_now_dpq_now(-1.0, 0.0);", "      Eigen::RowVector2d dF_old_dpq_now(-1.0, 0.0);\n      Eigen::RowVector2d dF_now_dpq_now(1.0, 0.0);"),
    (P + "Gas/Gasnode.cpp", "    Eigen::RowVector2d dF_old_dpq_last(1.0, 0.0);", "    Eigen::RowVector2d dF_old_dpq_last(-1.0, 0.0);"),
    (P + "Gas/Gasnode.cpp", '''    rootvalues[last_equation_index] = -1.0 * prescribed_qvol;
    rootvalues[last_equation_index] += static_cast<int>(dir0) * q0;
''', '''    double balance = static_cast<int>(dir0) * q0;
'''),
    (P + "Gas/Gasnode.cpp", '''
      rootvalues[last_equation_index]
          += static_cast<int>(direction) * current_qvol;
    }
''', '''
      balance += static_cast<int>(direction) * current_qvol;
    }
    rootvalues[last_equation_index] = balance - prescribed_qvol;
'''),
    # pipes: one helper for the derivatives
    (P + "Gas/Pipe.cpp", "  void Pipe::d_evaluate_d_new_state(\n", '''  static void add_block(
      Aux::Matrixhandler &handler, Eigen::Index row, Eigen::Index col,
      Eigen::Matrix2d const &block) {
    for (Eigen::Index c = 0; c != 2; ++c) {
      for (Eigen::Index r = 0; r != 2; ++r) {
        handler.add_to_coefficient(row + r, col + c, block(r, c));
      }
    }
  }

  void Pipe::d_evaluate_d_new_state(
'''),
    (P + "Gas/Pipe.cpp", lambda t: t.replace('''      jacobianhandler.add_to_coefficient(
          i, i - 1, current_derivative_left(0, 0));
      jacobianhandler.add_to_coefficient(i, i, current_derivative_left(0, 1));
      jacobianhandler.add_to_coefficient(
          i + 1, i - 1, current_derivative_left(1, 0));
      jacobianhandler.add_to_coefficient(
          i + 1, i, current_derivative_left(1, 1));
''', "      add_block(jacobianhandler, i, i - 1, current_derivative_left);\n").replace('''      jacobianhandler.add_to_coefficient(
          i, i + 1, current_derivative_right(0, 0));
      jacobianhandler.add_to_coefficient(
          i, i + 2, current_derivative_right(0, 1));
      jacobianhandler.add_to_coefficient(
          i + 1, i + 1, current_derivative_right(1, 0));
      jacobianhandler.add_to_coefficient(
          i + 1, i + 2, current_derivative_right(1, 1));
''', "      add_block(jacobianhandler, i, i + 1, current_derivative_right);\n"), None),
    # the network problem: edges first, components found by a map
    (P + "Networkproblem.cpp", lambda t: swap_loops(t), None),
    (P + "Networkproblem.cpp", lambda t: t.replace('''          auto iterator = std::find(
              ids.begin(), ids.end(), componentjson["id"].get<std::string>());
          if (iterator != ids.end()) {
            auto index = iterator - ids.begin();
            statecomponents[static_cast<size_t>(index)]->set_initial_values(
                new_state, componentjson);
          }''', '''          auto const wanted = componentjson["id"].get<std::string>();
          for (size_t index = 0; index != ids.size(); ++index) {
            if (ids[index] == wanted) {
              statecomponents[index]->set_initial_values(
                  new_state, componentjson);
              break;
            }
          }'''), None),
    # files
    (S + "Auxillary/Input_Output/Input_output.cpp", '''    for (int counter = 0; counter != number_of_tries; ++counter) {
      std::filesystem::path absolute_unique_directory_path
          = outer_output_directory
            / std::filesystem::path(dirname_generator_funtion());
      if (std::filesystem::create_directory(absolute_unique_directory_path)) {
        return absolute_unique_directory_path;
      }
''', '''    for (int tries_left = number_of_tries; tries_left > 0; --tries_left) {
      auto candidate = outer_output_directory;
      candidate /= dirname_generator_funtion();
      bool const is_new = std::filesystem::create_directory(candidate);
      if (is_new) {
        return candidate;
      }
'''),
    (S + "Auxillary/json_schema/schema_key_insertion.cpp", '''        for (auto &[key, value] : old_json.items()) {
          result[key] = std::move(value);
        }''', '''        for (auto it = old_json.begin(); it != old_json.end(); ++it) {
          result[it.key()] = it.value();
        }'''),
    (S + "Auxillary/aux_json/Aux_json.cpp", '''      std::ofstream ofs(temporary_path, std::ofstream::trunc);
      ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\\t');
''', '''      auto const content = new_json.dump(/*indent=*/1, /*indent_char=*/'\\t');
      std::ofstream ofs(temporary_path, std::ofstream::trunc);
      ofs.write(content.data(), static_cast<std::streamsize>(content.size()));
'''),
    # units
    (S + "Auxillary/unit_conversion/unit_conversion.cpp", "    return multiplicator * value + offset;", "    double result = value;\n    result *= multiplicator;\n    result += offset;\n    return result;"),
    # optimizer
    (S + "IpoptWrapper/ImplicitOptimizer.cpp", lambda t: t.replace('''      auto add_value
          = problem->evaluate_cost(time, states(time), controls(time));
      cost += integral_weights[timeindex] * add_value;
    }
    return true;''', '''      Eigen::VectorXd const state = states.vector_at_index(timeindex);
      cost += problem->evaluate_cost(time, state, controls(time))
              * integral_weights[timeindex];
    }
    return true;'''), None),
    (S + "IpoptWrapper/ImplicitOptimizer.cpp", '''    double cost = 0;
    if (not evaluate_cost(ipoptcontrols, cost))
      return false;
    double penalty = 0;
    if (not evaluate_penalty(ipoptcontrols, penalty))
      return false;

    objective = cost + penalty;
    return true;''', '''    double penalty = 0;
    double cost = 0;
    bool const success = evaluate_penalty(ipoptcontrols, penalty)
                         and evaluate_cost(ipoptcontrols, cost);
    if (success) {
      objective = penalty + cost;
    }
    return success;'''),
]


def swap_loops(t):
    a = t.index("    for (auto *node : network->get_nodes()) {")
    b = t.index("    for (auto *edge : network->get_edges()) {")
    e = t.index("  void Networkproblem::init(")
    e = t.rindex("  }\n", 0, e)
    return t[:a] + t[b:e].rstrip("\n") + "\n\n" + t[a:b].rstrip() + "\n" + t[e:]


def main(root):
    sys.path.insert(0, str(Path(__file__).parent))
    import refactor2
    for f, old, new in SUB + refactor2.SUB:
        p = Path(root) / f
        t = p.read_text()
        if callable(old):
            n = old(t)
            assert n != t, (f, "nothing changed")
        else:
            assert t.count(old) == 1, (f, t.count(old), old)
            n = t.replace(old, new)
        p.write_text(n)


if __name__ == "__main__":
    main(sys.argv[1])
