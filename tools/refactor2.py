"""More edits that keep the behaviour (applied by tools/refactor.py after its own)."""
S = "src/"
P = S + "Model/Networkproblem/"
H = "helper_functions/"


def r(*pairs):
    def f(t):
        for old, new in pairs:
            assert t.count(old) >= 1, old
            t = t.replace(old, new)
        return t
    return f


FACTORY = '''    for (auto const &[name, component] : this->%s_type_map) {
      auto optional_schema
          = component->get_%s_schema(allow_required_defaults);
      if (optional_schema.has_value()) {
        %s_schemas[name]
            = Aux::schema::make_list_schema_of(optional_schema.value());
      }
    }
'''


def factory(t):
    for kind in ("initial", "control", "boundary"):
        for part in ("node", "edge"):
            old = FACTORY % (part, kind, part)
            assert t.count(old) == 1, old
            t = t.replace(old, '''    collect_schemas(
        %s_type_map, %s_schemas, [&](auto const &type) {
          return type.get_%s_schema(allow_required_defaults);
        });
''' % (part, part, kind))
    return t.replace("namespace Model::Componentfactory {\n", '''namespace Model::Componentfactory {

  template <typename Map, typename Getter>
  static void collect_schemas(
      Map const &types, nlohmann::json &target, Getter const &getter) {
    for (auto it = types.begin(); it != types.end(); ++it) {
      if (auto schema = getter(*it->second)) {
        target[it->first] = Aux::schema::make_list_schema_of(*schema);
      }
    }
  }
''', 1)


def net(t):
    for what in ("starting", "ending"):
        old = '''          bool found(false);
          for (auto const &edgeptr : node_in_net->get_%s_edges()) {
            if (edgeptr == edge.get()) {
              found = true;
            }
          }
''' % what
        assert t.count(old) == 1
        t = t.replace(old, '''          auto const &attached = node_in_net->get_%s_edges();
          bool const found
              = std::find(attached.begin(), attached.end(), edge.get())
                != attached.end();
''' % what)
    return t


def offsets(t):
    a = t.index("    Eigen::Index constraint_index = 0;\n    auto const &constrainttimes")
    b = t.index("    return std::make_tuple(block_height, block_width, _block_column_offsets);")
    return t[:a] + '''    // Column 0 and 1 of the controls, the first two points, act from the start.
    auto const number_of_constraints = constraint_interpolationpoints.size();
    _block_column_offsets[0] = 0;
    for (Eigen::Index column = 0; column != number_of_column_blocks; ++column) {
      Eigen::Index height = number_of_constraints;
      if (column > 0) {
        auto const acting_after = control_interpolationpoints[column - 1];
        while (height > 0
               and not(
                   constraint_interpolationpoints
                       [number_of_constraints - height]
                   > acting_after)) {
          --height;
        }
      }
      _block_column_offsets[column + 1]
          = _block_column_offsets[column] + height;
    }

''' + t[b:]


def shortsave(t):
    a = t.index("    nlohmann::json pressure0_json;")
    b = t.index("    auto &output_json = get_output_json_ref();\n    output_json[\"data\"]")
    return t[:a] + '''    double x = 0.0;
    for (auto const &boundary_state : {start_state, end_state}) {
      nlohmann::json point;
      point["x"] = x;
      point["value"] = boundary_state[1];
      current_value["flow"].push_back(point);
      point["value"] = boundary_state[0];
      current_value["pressure"].push_back(std::move(point));
      x += 1.0;
    }

''' + t[b:]


def source(t):
    a = t.index("    Eigen::Vector2d source;\n    source[0] = 0.0;")
    b = t.index("  Eigen::Matrix2d Isothermaleulerequation::dsource_dstate(")
    return t[:a] + '''    auto const Area = Aux::circle_area(0.5 * diameter);
    // The product of the friction factor and the absolute flow, which is constant
    // in the laminar regime:
    double const lambda_q
        = Re < laminar_border
              ? 64 / coeff_of_Reynolds(diameter)
              : lambda_non_laminar(Re, diameter, roughness) * std::abs(q);
    return Eigen::Vector2d(
        0.0, -rho_0 * lambda_q * q / (2 * Area * diameter * rho));
  }

''' + t[b:]


SUB = [
    (P + "Gaspowerconnection/Gaspowerconnection.cpp", "        = powerendnode->P(new_state) - generated_power(new_state[q_index]);", "        = -generated_power(new_state[q_index]);\n    rootvalues[q_index] += powerendnode->P(new_state);"),
    (P + "Gaspowerconnection/Gaspowerconnection.cpp", '''    return q
           * (0.5 * (gas2power_q_coefficient + power2gas_q_coefficient)
              - 0.75 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel
              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel
                    * rel * rel);''', '''    double mean = 0.5 * (gas2power_q_coefficient + power2gas_q_coefficient);
    double quarter = 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient);
    return q * mean + q * quarter * rel * (rel * rel - 3.0);'''),
    (P + "Gaspowerconnection/Gaspowerconnection.cpp", '''    if (q > kappa) {
      return gas2power_q_coefficient * q;
    } else if (q < -kappa) {
      return power2gas_q_coefficient * q;
    } else {
      return smoothing_polynomial(q);
    }''', '''    if (std::abs(q) <= kappa) {
      return smoothing_polynomial(q);
    }
    return q * (q > 0 ? gas2power_q_coefficient : power2gas_q_coefficient);'''),
    (P + "Gas/Shortcomponent.cpp", shortsave, None),
    (P + "Gas/Compressorstation.cpp", '''    Eigen::Vector2d pressure_control(control[get_control_startindex()], 0.0);

    rootvalues.segment<2>(get_equation_start_index())
        = get_boundary_state(end, new_state)
          - get_boundary_state(start, new_state) - pressure_control;''', '''    auto const before = get_boundary_state(start, new_state);
    auto const after = get_boundary_state(end, new_state);
    auto const equation_index = get_equation_start_index();
    rootvalues[equation_index + 1] = after[1] - before[1];
    rootvalues[equation_index]
        = after[0] - before[0] - control[get_control_startindex()];'''),
    (P + "Power/StochasticPQnode.cpp", r(('''    auto P_deviation = P_val - boundaryvalue(time)[0];
    auto Q_deviation = Q_val - boundaryvalue(time)[1];
''', '''    Eigen::Vector2d const deviation
        = Eigen::Vector2d(P_val, Q_val) - boundaryvalue(time);
'''), ('= P_deviation;', '= deviation[0];'), ('= Q_deviation;', '= deviation[1];')), None),
    (S + "Model/Balancelaw/Isothermaleulerequation.cpp", source, None),
    (S + "Model/Balancelaw/Isothermaleulerequation.cpp", "    p = c_vac_squared * rho / (1 - alpha * c_vac_squared * rho);", "    auto const ideal = c_vac_squared * rho;\n    p = ideal / (1 - alpha * ideal);"),
    (S + "Model/Balancelaw/Isothermaleulerequation.cpp", "      return get_coefficients(diameter, roughness).dot(monomials);\n    }\n  }\n\n  double Isothermaleulerequation::dlambda", '''      auto const c = get_coefficients(diameter, roughness);
      return ((c[0] * Re + c[1]) * Re + c[2]) * Re + c[3];
    }
  }

  double Isothermaleulerequation::dlambda'''),
    (S + "Model/Balancelaw/Isothermaleulerequation.cpp", "      Eigen::Vector4d monomials(Re * Re * Re, Re * Re, Re, 1);\n", ""),
    (S + "Model/Scheme/include/Implicitboxscheme.hpp", '''      result = 0.5 * (new_left + new_right) - 0.5 * (last_left + last_right)
               - Delta_t / Delta_x * (bl.flux(new_left) - bl.flux(new_right))
               - 0.5 * Delta_t * (bl.source(new_right) + bl.source(new_left));''', '''      result = 0.5 * (new_left - last_left + new_right - last_right);
      result += Delta_t / Delta_x * (bl.flux(new_right) - bl.flux(new_left));
      result -= 0.5 * Delta_t * bl.source(new_left);
      result -= 0.5 * Delta_t * bl.source(new_right);'''),
    (S + "Auxillary/Matrixhandler/Matrixhandler.cpp", r(('''    Eigen::Index actual_row = -1;
    Eigen::Index actual_col = -1;
    if constexpr (not Transpose) {
      actual_row = row;
      actual_col = col;
    } else {
      actual_row = col;
      actual_col = row;
    }
''', '''    Eigen::Index const actual_row = Transpose ? col : row;
    Eigen::Index const actual_col = Transpose ? row : col;
'''), ('''    Eigen::Triplet<double, Eigen::Index> newtriplet
        = {actual_row, actual_col, value};
    tripletlist.push_back(newtriplet);''', '''    tripletlist.emplace_back(actual_row, actual_col, value);''')), None),
    (S + "IpoptWrapper/ConstraintJacobian.cpp", offsets, None),
    (S + "IpoptWrapper/ConstraintJacobian.cpp", '''    for (Eigen::Index j = 0; j != get_outer_width(); ++j) {
      auto columnoffset = get_inner_colstart(j);
      auto rowoffset = get_inner_rowstart(j);

      for (Eigen::Index innerrow = rowoffset; innerrow != get_inner_height();
           ++innerrow) {
        for (Eigen::Index innercol = columnoffset;
             innercol != columnoffset + get_block_width(); ++innercol) {
          assert(index < nonZeros());
          Rowindices[index] = static_cast<int>(innerrow);
          Colindices[index] = static_cast<int>(innercol);
          ++index;
        }
      }
    }''', '''    auto const width = get_block_width();
    for (Eigen::Index j = 0; j != get_outer_width(); ++j) {
      auto const number_of_entries = get_inner_col_height(j) * width;
      for (Eigen::Index entry = 0; entry != number_of_entries; ++entry) {
        Rowindices[index]
            = static_cast<Ipopt::Index>(get_inner_rowstart(j) + entry / width);
        Colindices[index]
            = static_cast<Ipopt::Index>(get_inner_colstart(j) + entry % width);
        ++index;
      }
    }'''),
    (S + "Model/Netfactory/Netfactory.cpp", '''          auto id_compare_less
              = [](nlohmann::json const &a, nlohmann::json const &b) -> bool {
            return a["id"].get<std::string>() < b["id"].get<std::string>();
          };

          if (id_compare_less(*secjson_it, *top_it)) {''', '''          auto const order = (*secjson_it)["id"].get<std::string>().compare(
              (*top_it)["id"].get<std::string>());
          if (order < 0) {'''),
    (S + "Model/Netfactory/Netfactory.cpp", "          } else if (id_compare_less(*top_it, *secjson_it)) {", "          } else if (order > 0) {"),
    (S + "Model/Netfactory/Netfactory.cpp", '''    for (auto const &[edgetypename, edgetype] : edgetypemap) {
      if (edge_topology.contains(edgetypename)) {
        for (auto edge : edge_topology[edgetypename]) {
          auto current_edge = edgetype->make_instance(edge, nodes);
          edges.push_back(std::move(current_edge));
        }
      }
    }''', '''    for (auto const &[edgetypename, edgetype] : edgetypemap) {
      auto const of_this_type = edge_topology.find(edgetypename);
      if (of_this_type == edge_topology.end()) {
        continue;
      }
      for (auto edge : *of_this_type) {
        edges.push_back(edgetype->make_instance(edge, nodes));
      }
    }'''),
    (S + "Model/Componentfactory/Componentfactory.cpp", factory, None),
    (S + "Model/Network/Net.cpp", net, None),
    (S + "Auxillary/json_schema/schema_generation.cpp", '''    for (auto const &[name, _] : map) {
      if (string.rfind(name, 0) == 0) {
        return true;
      }
    }
    return false;''', '''    return std::any_of(map.begin(), map.end(), [&string](auto const &entry) {
      return string.compare(0, entry.first.size(), entry.first) == 0;
    });'''),
    (S + "Auxillary/json_schema/schema_generation.cpp", "#include <iostream>\n", "#include <algorithm>\n#include <iostream>\n"),
    (S + "Auxillary/unit_conversion/unit_conversion.cpp", r(('''    auto search_si_prefix = prefix_map.find(si_prefix);
    if (search_si_prefix == prefix_map.end()) {''', '''    auto const known = prefix_map.count(si_prefix) != 0;
    if (not known) {'''), ('''    Conversion conv = search_si_prefix->second;
    return conv(num_prefix);''', '''    return prefix_map.at(si_prefix)(num_prefix);'''),
        ('''      factor *= std::pow(parse_prefix_si(si_prefix), exponent - 1);''', '''      auto const base = parse_prefix_si(si_prefix);
      for (int power = 1; power < exponent; ++power) {
        factor *= base;
      }''')), None),
    (S + "Auxillary/aux_json/Aux_json.cpp", '''        auto directory_path = std::filesystem::path(
            super_json["GRAZER_file_directory"].get<std::string>());
        auto json_full_path = directory_path / json_path;
        sub_json = get_json_from_file_path(json_full_path.string());''', '''        std::filesystem::path full_path
            = super_json.at("GRAZER_file_directory").get<std::string>();
        full_path /= json_path;
        super_json[key] = get_json_from_file_path(full_path);'''),
    (S + "Auxillary/Stochastics/Normaldistribution.cpp", '''    double sample = normaldist.get_sample(mean, standard_deviation);
    for (int counter = 0; counter < maximum_number_of_trials; ++counter) {
      if (sample >= lower_bound and sample <= upper_bound) {
        return sample;
      }
      sample = normaldist.get_sample(mean, standard_deviation);
    }''', '''    int trials_left = maximum_number_of_trials;
    while (trials_left-- > 0) {
      double const sample = normaldist.get_sample(mean, standard_deviation);
      bool const too_small = not(sample >= lower_bound);
      bool const too_large = not(sample <= upper_bound);
      if (not too_small and not too_large) {
        return sample;
      }
    }'''),
    (S + "Grazer/commands.cpp", '''      Eigen::Index number_of_constrainttimes = -1;
      if ((state_timepoints.size() - 1) % n == 0) {
        number_of_constrainttimes = (state_timepoints.size() - 1) / n;
      } else {
        number_of_constrainttimes = (state_timepoints.size() - 1) / n + 1;
      }
''', '''      Eigen::Index const steps = state_timepoints.size() - 1;
      Eigen::Index const number_of_constrainttimes
          = steps / n + (steps % n == 0 ? 0 : 1);
'''),
    (S + "Grazer/commands.cpp", '''        int count = 0;
        for (auto entry : storage) {
          if (std::abs(entry) > 1e-10) {
            ++count;
          }
        }
''', '''        auto const count = (storage.array().abs() > 1e-10).count();
'''),
    (H + "get_mean_sigma.cpp", "  return n / (n + 1.0) * old_mean + 1.0 / (n + 1.0) * new_value;", "  return old_mean + (new_value - old_mean) / (n + 1.0);"),
    (H + "get_mean_sigma.cpp", '''  return sqrt(
      (n - 1.0) / n * old_sigma * old_sigma
      + 1.0 / (n + 1.0) * (new_value - old_mean) * (new_value - old_mean));''', '''  double const difference = new_value - old_mean;
  double const sum_of_squares
      = (n - 1.0) * old_sigma * old_sigma
        + n / (n + 1.0) * difference * difference;
  return sqrt(sum_of_squares / n);'''),
    (H + "generate_printing_csv.cpp", '''      auto it = std::lower_bound(
          component_array.begin(), component_array.end(), id_object,
          id_compare_less);
      if (it != component_array.end()) {''', '''      auto it = std::find_if(
          component_array.begin(), component_array.end(),
          [&id_object, &id_compare_less](json const &entry) {
            return not id_compare_less(entry, id_object);
          });
      if (it != component_array.end()) {'''),
]
