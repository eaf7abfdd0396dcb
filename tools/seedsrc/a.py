H = 'Aux::'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


# ------------------------------------------------------------------ C01
seed("c01-relative-start", "C01",
     "a slowly changing boundary value, so that the old state has a small residual in the new step",
     "a step is accepted unsolved when its start residual is small compared with the state instead of below the tolerance",
     [("src/Newtonsolver/Newtonsolver.cpp",
       "    // check if already there:\n    if (rootvalues.norm() <= tolerance) {",
       "    // check if already there, relative to the size of the state:\n    if (rootvalues.norm() <= tolerance * std::max(1.0, new_state.norm())) {")],
     '''
exe = build()
tol = 1e-3
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}]},
       "connections": {"Pipe": [pipe("p", "a", "b")]}}
bnd = {"nodes": {"Source": [{"id": "a", "data": [{"time": 0, "values": [50.0]}, {"time": 3600, "values": [50.02]}]}],
                 "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 60, 50), (10000, 59.9, 50))]}}
d = problem(problem_data=settings(tol=tol, dt=450), topology=top, boundary=bnd, initial=ini)
rc, text, states, _ = run(exe, d)
check(rc == 0, text)
for e in component(states, "p"):
    if e["time"] > 0:
        want = 50 + .02 * e["time"] / 3600
        check(abs(e["flow"][0]["value"] - want) <= 1.001 * tol, f"flow at {e['time']} is {e['flow'][0]['value']}, prescribed {want}, tolerance {tol}")
''')

# ------------------------------------------------------------------ C02
seed("c02-convert-then-interpolate", "C02",
     "a pipe with more cells than given initial points and a pressure gradient along it",
     "initial values are interpolated in density instead of pressure between the given points",
     [("src/Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp",
       "    auto current_index = component->get_state_startindex();\n    for (Eigen::Index i = 0; i != number_of_points; ++i) {\n      vector_to_be_filled.segment(current_index, number_of_indices_per_step)\n          = converter_function(initialvalues(static_cast<double>(i) * Delta_x));",
       "    // Convert every given point only once:\n    for (Eigen::Index i = 0; i != initialvalues.size(); ++i) {\n      Eigen::VectorXd converted\n          = converter_function(initialvalues.vector_at_index(i));\n      initialvalues.mut_timestep(i) = converted;\n    }\n    auto current_index = component->get_state_startindex();\n    for (Eigen::Index i = 0; i != number_of_points; ++i) {\n      vector_to_be_filled.segment(current_index, number_of_indices_per_step)\n          = initialvalues(static_cast<double>(i) * Delta_x);")],
     '''
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}]},
       "connections": {"Pipe": [pipe("p", "a", "b", dx=2500.0)]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 70, 50), (10000, 50, 50))]}}
d = problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini)
rc, text, states, _ = run(exe, d)
check(rc == 0, text)
for p in component(states, "p")[0]["pressure"]:
    want = 70 - 20 * p["x"] / 10000
    check(abs(p["value"] - want) < 1e-6, f"initial pressure at x={p['x']} is {p['value']}, linear interpolation gives {want}")
''')

# ------------------------------------------------------------------ C03
PROG_EULER = '''
#include "Isothermaleulerequation.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <nlohmann/json.hpp>
using Model::Balancelaw::Isothermaleulerequation;
Isothermaleulerequation make(double d, double r) {
  nlohmann::json j;
  j["diameter"] = {{"value", d}, {"unit", "m"}};
  j["roughness"] = {{"value", r}, {"unit", "m"}};
  return Isothermaleulerequation(j);
}
int main(int argc, char **argv) {
  // pairs of diameter and roughness, flows by Reynolds number
  for (int k = 1; k + 2 < argc; k += 3) {
    double d = atof(argv[k]), r = atof(argv[k + 1]), Re = atof(argv[k + 2]);
    auto e = make(d, r);
    double q = Re / Isothermaleulerequation::coeff_of_Reynolds(d);
    Eigen::Vector2d s(45.0, q), h(0, std::abs(q) * 1e-5);
    Eigen::Vector2d p = s + h, m = s - h;
    double fd = (e.source(p)[1] - e.source(m)[1]) / (2 * h[1]);
    printf("%.17g %.17g %.17g %.17g\\n", q, e.source(s)[1], e.dsource_dstate(s)(1, 1), fd);
  }
}
'''
seed("c03-reversed-transition", "C03",
     "a pipe state in the transitional or turbulent regime with flow against the pipe's direction",
     "the friction derivative with respect to the flow has a wrong sign in its Reynolds part for reversed flow",
     [("src/Model/Balancelaw/Isothermaleulerequation.cpp",
       "                   * dReynolds_dq(q, diameter) * std::abs(q) * q",
       "                   * coeff_of_Reynolds(diameter) * std::abs(q) * q")],
     '''
exe = build("prog.cpp", only="Auxillary|Balancelaw")
args = [a for Re in (1500, 2500, 3500, 1e5, 1e7) for s in (1, -1) for a in ("0.6", "1e-5", str(s * Re))]
for l in subprocess.run([exe, *args], capture_output=True, text=True, check=True).stdout.splitlines():
    q, s, a, fd = map(float, l.split())
    check(abs(a - fd) <= 1e-5 * abs(fd), f"derivative of the source at flow {q} is {a}, numerically {fd}")
''', files={"prog.cpp": PROG_EULER})

# ------------------------------------------------------------------ C08
seed("c08-static-spline", "C08",
     "two pipes of different diameter or roughness in one problem, with flow in the transitional regime",
     "the coefficients of the friction spline are computed for the first pipe only and then used for all",
     [("src/Model/Balancelaw/Isothermaleulerequation.cpp",
       "    return coeff_helper_matrix.lu().solve(spline_constraints);",
       "    static Eigen::Vector4d const coefficients\n        = coeff_helper_matrix.lu().solve(spline_constraints);\n    return coefficients;")],
     '''
exe = build("prog.cpp", only="Auxillary|Balancelaw")
def sources(*cases):
    out = subprocess.run([exe, *[str(x) for c in cases for x in c]], capture_output=True, text=True, check=True).stdout
    return [float(l.split()[1]) for l in out.splitlines()]
a, b = (0.6, 1e-5, 3000), (0.05, 1e-3, 3900)
both = sources(a, b)
alone = sources(b)
check(abs(both[1] - alone[0]) <= 1e-9 * abs(alone[0]), f"the friction of a pipe is {both[1]} after computing another one, {alone[0]} otherwise")
''', files={"prog.cpp": PROG_EULER})

# ------------------------------------------------------------------ C04
seed("c04-dead-band", "C04",
     "a node with at least two edges, one of which carries a flow below 1e-3 m^3/s",
     "small flows are left out of the flow balance of a node",
     [("src/Model/Networkproblem/Gas/Gasnode.cpp",
       "      rootvalues[last_equation_index]\n          += static_cast<int>(direction) * current_qvol;",
       "      // Ignore numerical noise in resting pipes:\n      if (std::abs(current_qvol) >= 1e-3) {\n        rootvalues[last_equation_index]\n            += static_cast<int>(direction) * current_qvol;\n      }")],
     '''
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}, {"id": "c"}], "Innode": [{"id": "m"}]},
       "connections": {"Pipe": [pipe("am", "a", "m"), pipe("mb", "m", "b"), pipe("mc", "m", "c")]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0), const("c", 0, 3600, 5e-4)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("am", (0, 60, 50), (10000, 59.9, 50)), initial("mb", (0, 59.9, 50), (10000, 59.8, 50)),
                                             initial("mc", (0, 59.9, 0), (10000, 59.9, 0))]}}
d = problem(problem_data=settings(t1=36000.0, dt=1800.0), topology=top, boundary={**bnd, "nodes": {k: [const(c["id"], 0, 36000, *c["data"][0]["values"]) for c in v] for k, v in bnd["nodes"].items()}}, initial=ini)
rc, text, states, _ = run(exe, d)
check(rc == 0, text)
n = len(component(states, "am"))
for k in range(1, n):
    q = [component(states, i)[k]["flow"][x]["value"] for i, x in (("am", -1), ("mb", 0), ("mc", 0))]
    check(abs(q[0] - q[1] - q[2]) < 1e-6, f"flow balance of m is {q[0] - q[1] - q[2]}")
''')

# ------------------------------------------------------------------ C05
seed("c05-double-circuit", "C05",
     "two parallel transmission lines between the same two nodes",
     "only the first of parallel lines contributes to the power of a node",
     [("src/Model/Networkproblem/Power/Powernode.cpp",
       "      attached_component_data.push_back({line_G, line_B, endnode});",
       "      attach(line_G, line_B, endnode);"),
      ("src/Model/Networkproblem/Power/Powernode.cpp",
       "      attached_component_data.push_back({line_G, line_B, startnode});",
       "      attach(line_G, line_B, startnode);"),
      ("src/Model/Networkproblem/Power/Powernode.cpp",
       "    attached_component_data.clear();\n",
       "    attached_component_data.clear();\n    // Every neighbour appears only once:\n    auto attach = [this](double line_G, double line_B, auto *node) {\n      if (std::none_of(\n              attached_component_data.begin(), attached_component_data.end(),\n              [node](auto const &data) { return std::get<2>(data) == node; })) {\n        attached_component_data.push_back({line_G, line_B, node});\n      }\n    };\n")],
     '''
import math
exe = build()
y = {"G": -5.0, "B": 40.0}
line = lambda i, a, b: {"id": i, "from": a, "to": b, **y}
def powers(lines):
    g, b = -5.0 * len(lines), -40.0 * len(lines)
    top = {"nodes": {"Vphinode": [{"id": "s", "G": 5.0 * len(lines), "B": -40.0 * len(lines)}],
                     "PQnode": [{"id": "l", "G": 5.0 * len(lines), "B": -40.0 * len(lines)}]},
           "connections": {"Transmissionline": lines}}
    bnd = {"nodes": {"Vphinode": [const("s", 0, 3600, 1.0, 0.0)], "PQnode": [const("l", 0, 3600, -1.0, -0.2)]}, "connections": {}}
    ini = {"nodes": {"Vphinode": [{"id": "s", "data": [{"x": 0, "values": [1, 0]}]}], "PQnode": [{"id": "l", "data": [{"x": 0, "values": [1, 0]}]}]}, "connections": {}}
    d = problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini)
    rc, text, states, _ = run(exe, d)
    check(rc == 0, text)
    return component(states, "s")[-1], component(states, "l")[-1]
s, l = powers([line("1", "s", "l"), line("2", "s", "l")])
phi = l["phi"] - s["phi"]
P = 10.0 * l["V"] ** 2 + 2 * l["V"] * s["V"] * (-5.0 * math.cos(phi) + 40.0 * math.sin(phi))
check(abs(P + 1.0) < 1e-6, f"the power of the load with two lines is {P} by the power flow formula, prescribed is -1")
''')

# ------------------------------------------------------------------ C06
seed("c06-odd-smoothing", "C06",
     "a gas-power coupling whose gas flow is between -60 and 0 m^3/s",
     "the transition polynomial is wrong on its power-to-gas side (and its derivative alike)",
     [("src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp",
       "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * rel * rel);",
       "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * rel * std::abs(rel));"),
      ("src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp",
       "           + (power2gas_q_coefficient - gas2power_q_coefficient) * rel * rel\n                 * rel;",
       "           + (power2gas_q_coefficient - gas2power_q_coefficient) * rel * rel\n                 * std::abs(rel);")],
     '''
exe = build("prog.cpp")
out = subprocess.run([exe], capture_output=True, text=True)
check(out.returncode == 0, out.stdout + out.stderr)
''', files={"prog.cpp": '''
#include "Gaspowerconnection.hpp"
#include "ExternalPowerplant.hpp"
#include "Innode.hpp"
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
using namespace Model;
int main() {
  std::vector<std::unique_ptr<Network::Node>> nodes;
  nlohmann::json b = {{"id", "b"}, {"G", 1.0}, {"B", 1.0}};
  b["boundary_values"] = nlohmann::json::parse(R"({"id":"b","data":[{"time":0,"values":[1,0]},{"time":1,"values":[1,0]}]})");
  nlohmann::json a = {{"id", "a"}};
  nodes.push_back(std::make_unique<Gas::Innode>(a));
  nodes.push_back(std::make_unique<Gaspowerconnection::ExternalPowerplant>(b));
  double g = 5, p = 9;
  nlohmann::json t = {{"id", "c"}, {"from", "a"}, {"to", "b"}, {"gas2power_q_coeff", g}, {"power2gas_q_coeff", p}};
  Gaspowerconnection::Gaspowerconnection c(t, nodes);
  for (double q = -59.5; q < 60; q += 3.5) {
    // the quartic through both lines with continuous value and slope
    double r = q / 60, want = q * (0.5 * (g + p) - 0.75 * (p - g) * r + 0.25 * (p - g) * r * r * r);
    if (std::abs(c.generated_power(q) - want) > 1e-9) {
      printf("generated power at %g is %.12g, documented is %.12g\\n", q, c.generated_power(q), want);
      return 1;
    }
  }
}
'''})

# ------------------------------------------------------------------ C09
seed("c09-equidistant-guess", "C09",
     "a data series with at least three points at unequal distances",
     "the interval of a requested point is computed as if the points were equidistant",
     [("src/Auxillary/InterpolatingVector/InterpolatingVector.cpp",
       "    auto it = std::lower_bound(\n        interpolation_points.begin(), interpolation_points.end(), t);\n",
       "    // Start the search at the interval t would be in on a regular grid:\n    auto guess = static_cast<std::ptrdiff_t>(\n        (t - interpolation_points.front())\n        / (interpolation_points.back() - interpolation_points.front())\n        * static_cast<double>(interpolation_points.size() - 1));\n    auto it = std::lower_bound(\n        interpolation_points.begin() + guess, interpolation_points.end(), t);\n    if (it == interpolation_points.begin()) {\n      ++it;\n    }\n")],
     '''
exe = build("prog.cpp", only="Auxillary")
out = subprocess.run([exe], capture_output=True, text=True)
check(out.returncode == 0, out.stdout + out.stderr)
''', files={"prog.cpp": '''
#include "InterpolatingVector.hpp"
#include <cmath>
#include <cstdio>
int main() {
  std::vector<double> points{0, 4, 5, 6, 7};
  Aux::InterpolatingVector v(points, 1);
  for (int i = 0; i != 5; ++i) { v.mut_timestep(i)[0] = i * i; }
  for (double t = 0.25; t < 7; t += 0.25) {
    int k = 0;
    while (points[k + 1] < t) { ++k; }
    double l = (t - points[k]) / (points[k + 1] - points[k]);
    double want = (1 - l) * k * k + l * (k + 1) * (k + 1);
    if (std::abs(v(t)[0] - want) > 1e-12) {
      printf("value at %g is %g, linear interpolation gives %g\\n", t, v(t)[0], want);
      return 1;
    }
  }
}
'''})

# ------------------------------------------------------------------ C11
seed("c11-single-precision", "C11",
     "a unit with a numeric prefix that is no single precision number",
     "the numeric prefix of a unit is rounded to single precision",
     [("src/Auxillary/unit_conversion/unit_conversion.cpp",
       "      num_prefix = std::stod(prefix, &remaining);",
       "      num_prefix = std::stof(prefix, &remaining);")],
     '''
exe = build("prog.cpp", only="Auxillary")
out = subprocess.run([exe], capture_output=True, text=True)
check(out.returncode == 0, out.stdout + out.stderr)
''', files={"prog.cpp": '''
#include "unit_conversion.hpp"
#include <cmath>
#include <cstdio>
int main() {
  nlohmann::json a = {{"value", 3.0}, {"unit", "0.1 km"}};
  double got = Aux::unit::length.parse_to_si(a);
  if (std::abs(got - 300.0) > 1e-9) {
    printf("3 times 0.1 km are %.12g m\\n", got);
    return 1;
  }
}
'''})

# ------------------------------------------------------------------ C12
seed("c12-clip-once", "C12",
     "a stochastic load with several substeps, whose noise reaches the cut-off within a step",
     "the cut-off is applied to the last substep only, so that the process leaves its range within a step",
     [("src/Auxillary/Stochastics/include/Stochastic.hpp",
       "    for (auto i = 0; i != number_of_stochastic_steps; ++i) {\n",
       "    for (auto i = 1; i <= number_of_stochastic_steps; ++i) {\n"),
      ("src/Auxillary/Stochastics/include/Stochastic.hpp",
       "            + sigma * distribution.get_sample(sqrt(stochastic_stepsize));\n      if (sgn(mu)",
       "            + sigma * distribution.get_sample(sqrt(stochastic_stepsize));\n      if (i < number_of_stochastic_steps) {\n        continue;\n      }\n      if (sgn(mu)")],
     '''
exe = build("prog.cpp", only="Auxillary")
out = subprocess.run([exe], capture_output=True, text=True)
check(out.returncode == 0, out.stdout + out.stderr)
''', files={"prog.cpp": '''
#include "Stochastic.hpp"
#include <cmath>
#include <cstdio>
struct Noise {
  int n = 0;
  double get_sample(double s) { return (n++ % 3 == 2 ? -1.5 : 2.0) * s; }
};
int main() {
  Noise a, b;
  double x = 1, mu = 1, theta = 0.5, sigma = 1, c = 0.4, dt = 3;
  int n = 12;
  double got = Aux::euler_maruyama_oup(1.0, c, x, theta, mu, dt, sigma, a, n);
  double h = dt / n;
  for (int i = 0; i != n; ++i) {
    x += theta * (mu - x) * h + sigma * b.get_sample(std::sqrt(h));
    x = std::min(std::max(x, (1 - c) * mu), (1 + c) * mu);
  }
  if (std::abs(got - x) > 1e-12) {
    printf("the step ends at %.12g, the cut-off Euler-Maruyama scheme at %.12g\\n", got, x);
    return 1;
  }
}
'''})

# ------------------------------------------------------------------ C15
seed("c15-zip", "C15",
     "as many boundary entries as components of a type, where one component takes its default and one entry is surplus",
     "the entries of the boundary file are assigned by position instead of by id",
     [("src/Model/Netfactory/Netfactory.cpp",
       "        // assign the additional values to the topology json.\n        while (secjson_it != second_json_vector_json.end()\n",
       "        // Both lists are sorted by id, so lists of the same length match:\n        if (second_json_vector_json.size() == topology_vector_json.size()) {\n          for (; top_it != topology_vector_json.end(); ++top_it, ++secjson_it) {\n            (*top_it)[name_of_inserted_json] = (*secjson_it);\n          }\n        }\n        // assign the additional values to the topology json.\n        while (not(secjson_it == second_json_vector_json.end())\n")],
     '''
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}, {"id": "c"}]},
       "connections": {"Pipe": [pipe("ab", "a", "b"), pipe("ac", "a", "c")]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 30.0), const("d", 0, 3600, 35.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("ab", (0, 60, 30), (10000, 59.9, 30)), initial("ac", (0, 60, 20), (10000, 59.9, 20))]}}
dflt = {"Sink": {"boundary_values": {"id": "default", "data": [{"time": 0, "values": [20.0]}, {"time": 3600, "values": [20.0]}]}}}
d = problem(problem_data=settings(defaults=dflt), topology=top, boundary=bnd, initial=ini)
rc, text, states, _ = run(exe, d)
check(rc == 0, text)
q = component(states, "ac")[-1]["flow"][-1]["value"]
check(abs(q - 20) < 1e-5, f"sink c has no entry and a default of 20, but takes {q}")
''')

# ------------------------------------------------------------------ C22
seed("c22-skip-zeros", "C22",
     "a derivative that is exactly zero when the matrix pattern is built and nonzero later",
     "entries that are zero at first are missing in the sparsity pattern",
     [("src/Auxillary/Matrixhandler/Matrixhandler.cpp",
       "    tripletlist.push_back(newtriplet);\n",
       "    if (value != 0.0) {\n      tripletlist.push_back(newtriplet);\n    }\n")],
     '''
exe = build("prog.cpp", only="Auxillary")
out = subprocess.run([exe], capture_output=True, text=True)
check(out.returncode == 0, out.stdout + out.stderr)
''', files={"prog.cpp": '''
#include "Matrixhandler.hpp"
#include <cstdio>
int main() {
  Eigen::SparseMatrix<double> m(3, 3);
  Aux::Triplethandler<> h(m);
  h.add_to_coefficient(0, 0, 1.0);
  h.add_to_coefficient(1, 2, 0.0);
  h.add_to_coefficient(2, 2, 3.0);
  h.set_matrix();
  if (m.nonZeros() != 3) {
    printf("the pattern has %d entries after adding to 3\\n", int(m.nonZeros()));
    return 1;
  }
}
'''})

# ------------------------------------------------------------------ C24
seed("c24-late-control", "C24",
     "a control that changes between two state times",
     "each step but the first uses the control of the beginning of the step",
     [("src/Model/Problemlayer/Timeevolver.cpp",
       "      if (actual_controls) {\n        current_controls = controls(new_time);\n      }\n\n      auto solstruct",
       "      auto solstruct"),
      ("src/Model/Problemlayer/Timeevolver.cpp",
       "      last_time = new_time;\n      last_state = new_state;\n",
       "      last_time = new_time;\n      last_state = new_state;\n      if (actual_controls) {\n        current_controls = controls(last_time);\n      }\n")],
     '''
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}], "Innode": [{"id": "m"}, {"id": "n"}]},
       "connections": {"Pipe": [pipe("am", "a", "m"), pipe("nb", "n", "b")], "Compressorstation": [{"id": "c", "from": "m", "to": "n"}]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("am", (0, 60, 50), (10000, 59.9, 50)), initial("nb", (0, 60, 50), (10000, 59.8, 50))],
                                    "Compressorstation": [initial("c", (0, 59.9, 50), (1, 60, 50))]}}
ctl = {"nodes": {}, "connections": {"Compressorstation": [{"id": "c", "data": [{"time": 0, "values": [0.1]}, {"time": 3600, "values": [0.5]}]}]}}
d = problem(problem_data=settings(dt=900.0), topology=top, boundary=bnd, initial=ini, control=ctl)
rc, text, states, _ = run(exe, d)
check(rc == 0, text)
for e in component(states, "c")[1:]:
    want = .1 + .4 * e["time"] / 3600
    got = e["pressure"][1]["value"] - e["pressure"][0]["value"]
    check(abs(got - want) < 1e-6, f"pressure rise at {e['time']} is {got}, its control {want}")
''')

# ------------------------------------------------------------------ C27
seed("c16-check-then-create", "C16",
     "two runs of the same problem started within the same millisecond",
     "the reservation of the output directory is not atomic any more: both runs get the same directory",
     [("src/Auxillary/Input_Output/Input_output.cpp",
       "      if (std::filesystem::create_directory(absolute_unique_directory_path)) {\n        return absolute_unique_directory_path;",
       "      if (not std::filesystem::exists(absolute_unique_directory_path)) {\n        std::filesystem::create_directories(absolute_unique_directory_path);\n        return absolute_unique_directory_path;")],
     '''
exe = build("prog.cpp", flags="-O1", only="Input_output|Exception|Coloroutput|Misc")
base = TMP / "output"
for attempt in range(20):
    base.mkdir()
    ps = [subprocess.Popen([exe, str(base)], stdout=subprocess.PIPE, text=True) for _ in range(8)]
    names = [p.communicate()[0].split() for p in ps]
    got = [n for ns in names for n in ns]
    # a program which gives up (too many at once on a busy machine) reserved nothing
    check(len(set(got)) == len(got), f"{len(got)} reservations gave only {len(set(got))} directories")
    shutil.rmtree(base)
''', files={"prog.cpp": '''
#include "Input_output.hpp"
#include <chrono>
#include <iostream>
#include <thread>
int main(int, char **argv) {
  // all processes at the same time, names with the resolution of 10 ms
  for (int i = 0; i != 5; ++i) {
    auto name = [] {
      auto n = std::chrono::system_clock::now().time_since_epoch();
      return std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(n).count() / 2);
    };
    auto now = std::chrono::system_clock::now();
    std::this_thread::sleep_until(std::chrono::time_point_cast<std::chrono::milliseconds>(now) - std::chrono::milliseconds(std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 20) + std::chrono::milliseconds(20));
    std::cout << io::unique_output_directory(argv[1], name).string() << std::endl;
  }
}
'''})
