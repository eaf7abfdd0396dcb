SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


OPT = dict(copy=["tools/seedkit/optkit.py", "harness/lab.cpp", "harness/toy.hpp", "lib/lab.py", "lib/toy.py"], python="python3-vt")
NP = "src/Model/Networkproblem/Networkproblem.cpp"
IV = "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"
O = "src/IpoptWrapper/ImplicitOptimizer.cpp"

# ------------------------------------------------------------------ C07
seed("c07-nominal-cell", "C07",
     "a pipe whose length is no multiple of its desired cell length",
     "the scheme uses the desired cell length instead of the length of the cells the pipe really has",
     [("src/Model/Networkproblem/Gas/Pipe.cpp",
       "          unit::length.parse_to_si(topology[\"length\"])\n          / (number_of_points - 1)),",
       "          std::min(\n              topology[\"desired_delta_x\"].get<double>(),\n              unit::length.parse_to_si(topology[\"length\"]))),")],
     '''
exe = build()
def drop(dx):
    top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}]}, "connections": {"Pipe": [pipe("p", "a", "b", dx=dx)]}}
    bnd = {"nodes": {"Source": [const("a", 0, 36000, 50.0)], "Sink": [const("b", 0, 36000, 60.0)]}, "connections": {}}
    ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 60, 55), (10000, 59.5, 55))]}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(t1=36000.0), topology=top, boundary=bnd, initial=ini))
    check(rc == 0, text)
    e = component(states, "p")[-1]["pressure"]
    return e[0]["value"], e[-1]["value"]
# two cells of 5 km in both cases
a, b = drop(5000.0), drop(6000.0)
check(abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6, f"the pressures of one pipe with two cells are {a} and {b}")
''')

# ------------------------------------------------------------------ C10
seed("c10-round-when-close", "C10",
     "a control step that divides the time interval with a tiny remainder",
     "the number of control steps is rounded instead of rounded up, the steps are longer than desired",
     [("src/Grazer/helpers.cpp",
       "            timedata.get_starttime(), control_delta_t, timedata.get_endtime());",
       "            timedata.get_starttime(), control_delta_t * 1.01,\n            timedata.get_endtime());")],
     '''
import re
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}], "Innode": [{"id": "m"}]},
       "connections": {"Pipe": [pipe("am", "a", "m")], "Compressorstation": [{"id": "c", "from": "m", "to": "b"}]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("am", (0, 60, 50), (10000, 59.9, 50))], "Compressorstation": [initial("c", (0, 59.9, 50), (1, 60, 50))]}}
ctl = {"nodes": {}, "connections": {"Compressorstation": [const("c", 0, 3600, .1)]}}
for dt, n in ((900.0, 5), (1000.0, 5), (897.0, 6), (3599.0, 3)):
    d = problem(problem_data=settings(control_settings={"desired_delta_t": dt}), topology=top, boundary=bnd, initial=ini, control=ctl)
    rc, text, states, _ = run(exe, d)
    check(rc == 0, text)
    got = int(re.search("Number of control discretization points: (\\\\d+)", text).group(1))
    check(got == n, f"{got} control points for the desired step {dt}, {n} are expected")
''')

# ------------------------------------------------------------------ C13
seed("c13-last-one-missing", "C13",
     "the component with the greatest id has no data, and all others have",
     "the check for missing data forgets the last component",
     [(NP, "        for (auto additional_id_index = id_index;", "        for (auto additional_id_index = id_index + 1;")],
     '''
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}], "Innode": [{"id": "m"}]}, "connections": {"Pipe": [pipe("1", "a", "m"), pipe("2", "m", "b")]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
for have in ("12", "2", "1"):
    ini = {"nodes": {}, "connections": {"Pipe": [initial(i, (0, 60, 50), (10000, 59.9, 50)) for i in have]}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini))
    if have == "12":
        check(rc == 0, text)
    else:
        check(rc == 1 and "initial.json" in text, f"initial values for {have} only: exit status {rc}, {text[-500:]}")
''')

# ------------------------------------------------------------------ C14
seed("c14-zero-is-unset", "C14",
     "a parameter explicitly given as 0 whose type has another default",
     "an explicit zero is replaced by the default",
     [("src/Auxillary/json_schema/schema_validation.cpp",
       "    if (value.contains(\"default\") and (not data.contains(key))) {",
       "    if (value.contains(\"default\")\n        and (not data.contains(key) or data[key] == 0)) {")],
     '''
exe = build()
def voltage(defaults):
    top = {"nodes": {"Vphinode": [{"id": "s", "G": 0.0, "B": -40.0}], "PQnode": [{"id": "l", "G": 0.0, "B": -40.0}]},
           "connections": {"Transmissionline": [{"id": "1", "from": "s", "to": "l", "G": 0.0, "B": 40.0}]}}
    bnd = {"nodes": {"Vphinode": [const("s", 0, 3600, 1.0, 0.0)], "PQnode": [const("l", 0, 3600, -1.0, -0.2)]}, "connections": {}}
    ini = {"nodes": {"Vphinode": [{"id": "s", "data": [{"x": 0, "values": [1, 0]}]}], "PQnode": [{"id": "l", "data": [{"x": 0, "values": [1, 0]}]}]}, "connections": {}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(defaults=defaults), topology=top, boundary=bnd, initial=ini))
    check(rc == 0, text)
    return component(states, "l")[-1]
a, b = voltage({}), voltage({"Transmissionline": {"G": -3.0}})
check(a == b, f"all values are given, but with a default the load is {b} instead of {a}")
''')

# ------------------------------------------------------------------ C17
seed("c17-empty-dropped", "C17",
     "a file with an empty object or list, or null",
     "empty entries are lost when the schema key is inserted",
     [("src/Auxillary/json_schema/schema_key_insertion.cpp",
       "          result[key] = std::move(value);\n",
       "          if (not value.empty()) {\n            result.emplace(key, std::move(value));\n          }\n")],
     '''
exe = build()
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)]}, "connections": {}, "note": None, "more": []}
d = problem(problem_data=settings(), topology={"nodes": {}, "connections": {}}, boundary=bnd, initial={"nodes": {}, "connections": {}})
subprocess.run([exe, "schema", "make-full-factory", str(d)], cwd=d, capture_output=True)
r = subprocess.run([exe, "schema", "insert-key", str(d)], cwd=d, capture_output=True, text=True)
got = json.loads((d / "problem" / "boundary.json").read_text())
check("$schema" in got, r.stdout + r.stderr)
del got["$schema"]
check(got == bnd, f"the file contained {bnd}, with the key it contains {got}")
''')

# ------------------------------------------------------------------ C19
seed("c19-storage-term", "C19",
     "a problem whose equations are nonlinear in the last state, states that change in time",
     "the derivative with respect to the last state is taken at the new state: wrong gradients",
     [(O, "    Aux::Coeffrefhandler<Aux::Transposed> last_handler(dE_dlast_transposed);\n    problem->d_evaluate_d_last_state(\n        last_handler, last_time, new_time, states(last_time), states(new_time),",
       "    Aux::Coeffrefhandler<Aux::Transposed> last_handler(dE_dlast_transposed);\n    problem->d_evaluate_d_last_state(\n        last_handler, last_time, new_time, states(new_time), states(new_time),")],
     '''
from optkit import *
for L, toy, times, npr in toys(12):
    ct, gt = times.copy(), times[1:]
    x = npr.uniform(-.5, .5, len(ct) * toy.nc)
    r = toy.run(times, ct, gt, x)
    if r is None:
        continue
    optimizer(L, toy, times, ct, gt, x)
    ok, got = L.o(GRAD, x)
    check(ok and close(got, r["grad"]), f"the gradient at {x} is {got}, must be {r['grad']}")
''', **OPT)

# ------------------------------------------------------------------ C20
seed("c20-failure-cached", "C20",
     "controls that can't be simulated are asked for twice in a row",
     "a failed simulation is remembered as if it had succeeded: the second evaluation returns old states",
     [("src/Optimization_helpers/ControlStateCache.cpp",
       "    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;\n    }\n    cache",
       "    Cacheentry entry{controls, state_timepoints, initial_state};\n    if (entry.control == cache.first.control\n        and entry.initial_state == cache.first.initial_state\n        and entry.state_timepoints == cache.first.state_timepoints) {\n      return true;\n    }\n    Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n    cache.first = entry;\n    try {\n      evolver->simulate(initial_state, controls, problem, states);\n    } catch (...) {\n      failed = entry;\n      return false;\n    }\n    cache")],
     '''
from optkit import *
for L, toy, times, npr in toys(6, fail=.5):
    ct, gt = times.copy(), times[1:]
    x = npr.uniform(-.4, .3, len(ct) * toy.nc)
    y = x.copy()
    y[-toy.nc] = .9
    if toy.run(times, ct, gt, x) is None:
        continue
    optimizer(L, toy, times, ct, gt, x)
    answers = [L.o(OBJ, z)[0] for z in (x, y, y, x, x, y)]
    check(answers == [True, False, False, True, True, False], f"answers at possible and impossible controls: {answers}")
''', **OPT)

# ------------------------------------------------------------------ C21
seed("c21-first-constraint-lambda", "C21",
     "a control grid that differs from the constraint grid, and a constraint that depends on the control directly",
     "the direct influence of the two neighbouring control values is exchanged at the first constraint time",
     [(O, "                  += lambda * current_dg_dui;", "                  += (constraint_index > 0 ? lambda : 1 - lambda) * current_dg_dui;")],
     '''
from optkit import *
for L, toy, times, npr in toys(8, ng=1):
    ct, gt = np.array([0.0, 1.3, 3.0]), times[1:]
    x = npr.uniform(-.5, .5, len(ct) * toy.nc)
    r = toy.run(times, ct, gt, x)
    if r is None:
        continue
    optimizer(L, toy, times, ct, gt, x)
    _, rows, cols = L.struct()
    ok, v = L.o(CJAC, x)
    J = np.zeros((len(gt) * toy.ng, len(ct) * toy.nc))
    J[rows, cols] = v
    check(ok and close(J, r["cjac"]), f"the constraint Jacobian is\\n{J}, must be\\n{r['cjac']}")
''', **OPT)

# ------------------------------------------------------------------ C23
seed("c23-surplus-entry", "C23",
     "a file with data for a component that doesn't exist and whose id is greater than all others",
     "an access beyond the end of a list of ids",
     [(NP, "      if (id_index >= ids.size()) {", "      if (id_index > ids.size()) {")],
     '''
exe = build(flags="-O1 -g -fsanitize=address")
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}]}, "connections": {"Pipe": [pipe("p", "a", "b")]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 60, 50), (10000, 59.9, 50)), initial("zz", (0, 60, 50), (10000, 59.9, 50))]}}
rc, text, states, _ = run(exe, problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini))
check(rc == 0, text[-3000:])
''')

# ------------------------------------------------------------------ C25
seed("c25-late-bounds", "C25",
     "constraint bounds that change in time",
     "the bounds of each constraint time are those of the constraint time before",
     [("src/Model/Networkproblem/Componentclasses/SimpleConstraintcomponent.cpp",
       "          = initialvalues(timepoint);\n",
       "          = initialvalues(index > 0 ? timepoints[index - 1] : timepoint);\n")],
     '''
exe = build()
T = 7200.0
top = {"nodes": {"Source": [{"id": "a"}], "ConstraintSink": [{"id": "b"}], "Pressureboundarynode": [{"id": "q"}], "Innode": [{"id": "m"}]},
       "connections": {"Pipe": [pipe("mb", "m", "b"), pipe("aq", "a", "q")], "Compressorstation": [{"id": "c", "from": "q", "to": "m"}]}}
bnd = {"nodes": {"Source": [const("a", 0, T, 20.0)], "ConstraintSink": [const("b", 0, T, 50.0)], "Pressureboundarynode": [const("q", 0, T, 60.0)]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial("mb", (0, 62, 50), (10000, 61.5, 50)), initial("aq", (0, 60, 20), (10000, 60, 20))],
                                    "Compressorstation": [initial("c", (0, 60, 50), (1, 62, 50))]}}
per = lambda i, *v: {"id": i, "data": [{"time": T * k / (len(v) - 1), "values": [x]} for k, x in enumerate(v)]}
edges = lambda *v: {"nodes": {}, "connections": {"Compressorstation": [per("c", *v)]}}
nodes = lambda *v: {"nodes": {"ConstraintSink": [per("b", *v)]}, "connections": {}}
low = (60.0, 66.0)
d = problem(problem_data=settings(t1=T, dt=1200.0, optimize=True), topology=top, boundary=bnd, initial=ini, control=edges(8.0, 8.0),
            lower_bounds=edges(0.0, 0.0), upper_bounds=edges(20.0, 20.0), constraint_lower_bounds=nodes(*low), constraint_upper_bounds=nodes(90.0, 90.0))
(d / "ipopt.opt").write_text("max_iter 300\\nsb yes\\n")
rc, text, states, controls = run(exe, d, timeout=120)
check(rc == 0 and "FAILED" not in text.upper().replace("FAILED TO LOAD", ""), text[-3000:])
for e in component(states, "mb")[1:]:
    p, want = e["pressure"][-1]["value"], low[0] + (low[1] - low[0]) * e["time"] / T
    check(p > want - 1e-3, f"the pressure at {e['time']} is {p} bar, its lower bound {want}")
''')

# ------------------------------------------------------------------ C26
seed("c26-population-sigma", "C26",
     "three or more runs",
     "the standard deviation of more than two runs is wrong",
     [("helper_functions/get_mean_sigma.cpp",
       "      (n - 1.0) / n * old_sigma * old_sigma",
       "      n / (n + 1.0) * old_sigma * old_sigma")],
     '''
import statistics
exe = TMP / "tool"
inc = [f"-I{p}" for p in (REPO / "src").rglob("include") if p.is_dir()]
r = subprocess.run(["g++", "-std=c++17", "-w", *inc, "helper_functions/get_mean_sigma.cpp", "-o", str(exe)], capture_output=True, text=True)
check(r.returncode == 0, r.stderr[-2000:])
for vs in ((1.0, 2.0), (1.0, 5.0, 2.0), (3.0, 1.0, 4.0, 1.5)):
    d = TMP / f"runs{len(vs)}"
    (d / "output").mkdir(parents=True)
    for k, v in enumerate(vs):
        (d / "output" / f"output{k}.json").write_text(json.dumps({"nodes": {"PQnode": [{"id": "l", "data": [{"time": 0.0, "V": v, "phi": 0.0, "P": 0.0, "Q": 0.0}]}]}}))
    subprocess.run([exe], cwd=d, capture_output=True, check=True)
    e = json.loads((d / "mean_and_sigma.json").read_text())["nodes"]["PQnode"][0]["data"][0]
    check(abs(e["V_mean"] - statistics.mean(vs)) < 1e-9 and abs(e["V_sigma"] - statistics.stdev(vs)) < 1e-9, f"mean and deviation of {vs} are {e}")
''')

# ------------------------------------------------------------------ C27
seed("c27-returns-count", "C27",
     "a network with two or more nodes with constraints",
     "the constraint indices of components overlap and the total is too small",
     [("src/Model/Networkproblem/Componentclasses/SimpleConstraintcomponent.cpp",
       "    return constraint_afterindex;", "    return number_of_inequalities;")],
     '''
from optkit import *
top = {"nodes": {"Source": [{"id": "a"}], "ConstraintSink": [{"id": "b"}, {"id": "c"}, {"id": "d"}]},
       "connections": {"Pipe": [pipe("1", "a", "b"), pipe("2", "a", "c"), pipe("3", "a", "d")]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "ConstraintSink": [const(i, 0, 3600, 50.0) for i in "bcd"]}, "connections": {}}
ini = {"nodes": {}, "connections": {"Pipe": [initial(i, (0, 60, 50), (10000, 59.9, 50)) for i in "123"]}}
d = problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini)
with Lab(build("lab.cpp")) as L:
    L.load(d)
    check(L.ng == 3, f"the network has {L.ng} constraints, three nodes have one each")
''', **OPT)

# ------------------------------------------------------------------ C28
seed("c28-epoch-times", "C28",
     "times far from zero, such as Unix time stamps",
     "a time close to a data point relative to its absolute value takes the value of that point: the result depends on the origin of time",
     [(IV, "    auto lambda = (t - t_prev) / (t_next - t_prev);\n",
       "    // Don't interpolate next to a point:\n    auto const lambda = t_next - t < 1e-7 * std::abs(t_next)\n                            ? 1.0\n                            : (t - t_prev) / (t_next - t_prev);\n")],
     '''
exe = build()
def flows(t0):
    top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}]}, "connections": {"Pipe": [pipe("p", "a", "b")]}}
    bnd = {"nodes": {"Source": [const("a", t0, t0 + 3600, 50.0)], "Sink": [{"id": "b", "data": [{"time": t0 + x, "values": [v]} for x, v in ((0, 50.0), (3600, 60.0))]}]}, "connections": {}}
    ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 60, 50), (10000, 59.9, 50))]}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(t0=t0, t1=t0 + 3600, dt=60.0), topology=top, boundary=bnd, initial=ini))
    check(rc == 0, text)
    return [e["flow"][-1]["value"] for e in component(states, "p")]
a, b = flows(0.0), flows(1.6e9)
check(max(abs(x - y) for x, y in zip(a, b)) < 1e-4, f"the flows are {a} and, with all times shifted, {b}")
''')

# ------------------------------------------------------------------ C29
seed("c29-sink-never-feeds", "C29",
     "a sink with a negative flow",
     "a sink whose prescribed outflow is negative is treated as having none",
     [("src/Model/Networkproblem/Gas/Flowboundarynode.cpp",
       "        value_json = -old_value;", "        value_json = old_value > 0 ? -old_value : 0.0;")],
     '''
exe = build()
def flow(kind, value):
    top = {"nodes": {"Sink": [{"id": "b"}], kind: [{"id": "a"}]}, "connections": {"Pipe": [pipe("p", "a", "b")]}}
    if kind == "Sink":
        top["nodes"] = {"Sink": [{"id": "a"}, {"id": "b"}]}
    bnd = {"nodes": {}, "connections": {}}
    for k, i, v in ((kind, "a", value), ("Sink", "b", 50.0)):
        bnd["nodes"].setdefault(k, []).append(const(i, 0, 3600, v))
    ini = {"nodes": {}, "connections": {"Pipe": [initial("p", (0, 60, 50), (10000, 59.9, 50))]}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini))
    check(rc == 0, text)
    return [e["flow"][0]["value"] for e in component(states, "p")]
a, b = flow("Source", 48.0), flow("Sink", -48.0)
check(max(abs(x - y) for x, y in zip(a, b)) < 1e-6, f"the flow from a source is {a}, from a sink with negative flow {b}")
''')

# ------------------------------------------------------------------ C18
seed("c18-last-contained", "C18",
     "a file in which several points of a series are prescribed, e.g. both ends of a compressor station",
     "of several points that must be contained in a series only the last one is demanded",
     [("src/Auxillary/json_schema/make_schema.cpp",
       '      data["allOf"].push_back(all_of_elmt);', '      data["allOf"] = nlohmann::json::array({all_of_elmt});')],
     '''
import jsonschema
exe = build()
top = {"nodes": {"Source": [{"id": "a"}], "Sink": [{"id": "b"}], "Innode": [{"id": "m"}]},
       "connections": {"Pipe": [pipe("am", "a", "m")], "Compressorstation": [{"id": "c", "from": "m", "to": "b"}]}}
bnd = {"nodes": {"Source": [const("a", 0, 3600, 50.0)], "Sink": [const("b", 0, 3600, 50.0)]}, "connections": {}}
ctl = {"nodes": {}, "connections": {"Compressorstation": [const("c", 0, 3600, .1)]}}
for points in ((0, 1), (1, 2), (0, 2)):
    ini = {"nodes": {}, "connections": {"Pipe": [initial("am", (0, 60, 50), (10000, 59.9, 50))],
                                        "Compressorstation": [initial("c", *[(x, 60, 50) for x in points])]}}
    d = problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini, control=ctl)
    rc, text, states, _ = run(exe, d)
    subprocess.run([exe, "schema", "make-full-factory", str(d)], cwd=d, capture_output=True)
    files = sorted(d.rglob("*initial*schema*.json"))
    check(len(files) == 1, f"schemas: {files}")
    good = jsonschema.Draft7Validator(json.loads(files[0].read_text())).is_valid(ini)
    check(good == (rc == 0), f"initial values at {points}: the run ends with {rc}, the schema says {good}\\n{text[-300:]}")
''', python="python3-vt")

# ------------------------------------------------------------------ C05
seed("c05-half-turn", "C05",
     "a slack bus whose voltage angle is more than half a turn",
     "the slack angle is reduced to the principal range, the boundary value isn't met",
     [("src/Model/Networkproblem/Power/Vphinode.cpp",
       "    rootvalues[phi_index] = new_state[phi_index] - boundaryvalue(new_time)[1];",
       "    double const pi = 3.14159265358979323846;\n    rootvalues[phi_index]\n        = new_state[phi_index] - std::remainder(boundaryvalue(new_time)[1], 2 * pi);"),
      ("src/Model/Networkproblem/Power/Vphinode.cpp", "#include <Vphinode.hpp>\n", "#include <Vphinode.hpp>\n#include <cmath>\n")],
     '''
exe = build()
for angle in (0.0, -1.5, 3.0, 3.5, -7.0):
    top = {"nodes": {"Vphinode": [{"id": "s", "G": 0.0, "B": -40.0}], "PQnode": [{"id": "l", "G": 0.0, "B": -40.0}]},
           "connections": {"Transmissionline": [{"id": "1", "from": "s", "to": "l", "G": 0.0, "B": 40.0}]}}
    bnd = {"nodes": {"Vphinode": [const("s", 0, 3600, 1.0, angle)], "PQnode": [const("l", 0, 3600, -1.0, -0.2)]}, "connections": {}}
    ini = {"nodes": {"Vphinode": [{"id": "s", "data": [{"x": 0, "values": [1, angle]}]}], "PQnode": [{"id": "l", "data": [{"x": 0, "values": [1, angle]}]}]}, "connections": {}}
    rc, text, states, _ = run(exe, problem(problem_data=settings(), topology=top, boundary=bnd, initial=ini))
    check(rc == 0, text)
    got = [e["phi"] for e in component(states, "s")]
    check(max(abs(x - angle) for x in got) < 1e-6, f"the angle must be {angle}, it is {got}")
''')

# ------------------------------------------------------------------ C30
seed("c30-ends-only", "C30",
     "a pipe with more than one cell whose pressure is greatest in its interior",
     "the colour of an edge shows the greatest pressure at its ends instead of along it",
     [("helper_functions/draw_heatmap_gaslib.cpp",
       '''          for (auto const &xpoint : quantity) {
            if (xpoint["value"].get<double>() > value) {''',
       '''          for (auto const &xpoint : {quantity.front(), quantity.back()}) {
            if (xpoint["value"].get<double>() > value) {''')],
     '''
import re
exe = REPO / "_build" / "helper_functions" / "draw_heatmap_gaslib"
def edge(i, *rows):
    return {"id": i, "data": [{"time": float(k), "pressure": [{"x": float(j), "value": v} for j, v in enumerate(r)], "flow": [{"x": float(j), "value": 1.0} for j in range(len(r))]} for k, r in enumerate(rows)]}
top = {"nodes": {"Source": [{"id": "node_a", "x": 0.0, "y": 0.0}], "Innode": [{"id": "node_b", "x": 10.0, "y": 5.0}, {"id": "node_c", "x": 20.0, "y": 0.0}]},
       "connections": {"Pipe": [{"id": "p", "from": "node_a", "to": "node_b"}, {"id": "q", "from": "node_b", "to": "node_c"}]}}
def colors(p, q):
    (TMP / "topology.json").write_text(json.dumps(top))
    (TMP / "states.json").write_text(json.dumps({"nodes": {}, "connections": {"Pipe": [edge("p", *p), edge("q", *q)]}}))
    r = subprocess.run([str(exe), "topology.json", "states.json", "o.tex", "1"], cwd=TMP, capture_output=True, text=True)
    check(r.returncode == 0, r.stderr[-500:])
    t = (TMP / "o.tex").read_text()
    return [re.search(r"red,(\\d+);green,(\\d+);blue,(\\d+)\\}\\]\\(node_" + a, t).groups() for a in "ab"]
# where along the pipe the greatest pressure lies must not matter
a = colors([(50.0, 55.0, 60.0)], [(40.0, 42.0, 44.0), (44.0, 70.0, 41.0)])
b = colors([(50.0, 55.0, 60.0)], [(40.0, 42.0, 44.0), (44.0, 41.0, 70.0)])
check(a == b, f"the colours are {a} and {b}")
''')
