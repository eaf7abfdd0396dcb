#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here)."""
import json
from pathlib import Path
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m} for n, m in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})


G = "src/Model/Networkproblem/Gas/"
PW = "src/Model/Networkproblem/Power/"
prop("C01", "A time step counts as solved only if all model equations hold to tolerance",
     "Every state of a simulation that reports success solves the complete system of model equations of its time step with a residual (Euclidean norm) of at most the configured tolerance. If that is not reached within the configured iterations and retries (non-convergence, singular Jacobian, NaN or infinity), the program ends with an error and writes no states. Nearly stationary, well posed networks are solved.",
     ["inputs", "configurations"], "all networks, boundary data, tolerances, iteration limits, retry counts, simplified or full Newton method",
     "the tests solve a few scalar or two-component problems that converge; they never look at the residual of the states of a whole simulation nor at a solver that is starved of iterations",
     ["src/Newtonsolver/Newtonsolver.cpp", "src/Model/Problemlayer/Timeevolver.cpp", "src/Grazer/commands.cpp"],
     [("damped Newton iteration, success flag", "Newtonsolver::solve"), ("retries, switch to the full Jacobian, final error", "Timeevolver::make_one_step, Timeevolver::simulate")],
     ["output/*/states.json", "exit code of grazer run", "saved states of Timeevolver::simulate"])
prop("C02", "A trajectory starts at the initial state and covers all times and components",
     "The states of a run contain every gas edge and every power node exactly once, filed under its type, at exactly the time points of the requested grid (first = start time, last = end time). At the start time they are the supplied initial values, which are interpolated linearly in space (pressure in bar and volume flow) at the equidistant spatial points of each pipe.",
     ["inputs", "configurations"], "all networks, time grids, spatial discretizations and placements of initial data points",
     "no test writes and reads back a whole output file; initial values are tested for a single pipe with matching points",
     ["src/Grazer/commands.cpp", "src/Model/Networkproblem/Networkproblem.cpp", G + "Pipe.cpp", "src/Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp", G + "Shortcomponent.cpp", PW + "Powernode.cpp"],
     [("initial values", "Networkproblem::set_initial_values, set_simple_initial_values"), ("output", "json_save, add_results_to_json of every component")],
     ["output/*/states.json"])
prop("C03", "All analytic derivatives are the derivatives of the model equations",
     "For every component and every assembled network the Jacobians of the equations with respect to new state, last state and control, and the derivatives of constraints and costs with respect to state and control, equal the numerical derivatives of the evaluated functions at every admissible state. This includes all friction regimes of a pipe, all branches of the gas-power conversion, nodes with any number of attached edges, and both directions of flow.",
     ["inputs", "programs"], "all networks and all admissible states and controls away from the kinks of the functions",
     "tests compare hand-computed matrices at single states of networks with one or two edges",
     [G + "Gasnode.cpp", G + "Pipe.cpp", PW + "Powernode.cpp", "src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "src/Model/Scheme/include/Implicitboxscheme.hpp", "src/Model/Balancelaw/Isothermaleulerequation.cpp", "src/Model/Networkproblem/Networkproblem.cpp"],
     [("derivatives", "d_evaluate_d_new_state / _last_state / _control, d_evaluate_constraint_*, d_evaluate_cost_*")],
     ["the matrices filled by Networkproblem's derivative functions"])
prop("C04", "Gas nodes conserve flow and have one pressure",
     "At every time after the start and at every gas node, the volume flows of all attached edges (pipes, short pipes, compressors, valves and gas-power couplings, counted along their direction) balance the prescribed inflow of a source, outflow of a sink or zero at an inner node. All edges attached to a node have the same pressure there, and at a node with prescribed pressure this is the prescribed pressure in bar.",
     ["inputs", "programs"], "all topologies (any node degree, parallel edges, cycles, any edge directions) and boundary data series",
     "tests check nodes with up to three edges at one hand-picked state",
     [G + "Gasnode.cpp", G + "Flowboundarynode.cpp", G + "Innode.cpp", G + "Source.cpp", G + "Sink.cpp", G + "ConstraintSink.cpp", G + "Pressureboundarynode.cpp"],
     [("node equations", "Gasnode::evaluate_flow_node_balance, Pressureboundarynode::evaluate, Flowboundarynode"), ("sign of sources and sinks", "constructors of Source, Sink, ConstraintSink")],
     ["output/*/states.json"])
prop("C05", "Power nodes satisfy the AC power flow equations and their boundary conditions",
     "At every time after the start the active and reactive power of every power node, computed from the published voltages, angles and admittances with the AC power flow formulas, equals the prescribed power at PQ nodes and the prescribed active power at PV nodes, and voltage and angle equal the prescribed ones where these are given (V-phi nodes, external power plants, voltage at PV nodes). The published P and Q of every node at every time are the values of these formulas at the published state.",
     ["inputs", "programs"], "all power grids, admittances and boundary data series",
     "tests evaluate the formulas at a hand-picked state of a three-node grid",
     [PW + "Powernode.cpp", PW + "PQnode.cpp", PW + "PVnode.cpp", PW + "Vphinode.cpp", "src/Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp", PW + "Transmissionline.cpp"],
     [("P and Q of a node", "Powernode::P, Powernode::Q"), ("equations", "evaluate of the node types"), ("output", "json_save")],
     ["output/*/states.json"])
prop("C06", "Gas-power couplings convert gas flow to electric power as documented",
     "At every time after the start the active power of a coupled external power plant equals the conversion of the gas flow leaving the gas node: proportional with the gas-to-power coefficient above 60 m^3/s, with the power-to-gas coefficient below -60 m^3/s, and in between the cubic-quartic transition that joins both lines with continuous value and slope. The gas flow of the coupling takes part in the balance and the pressure of its gas node.",
     ["inputs"], "all coefficients, flow directions and magnitudes (both linear regimes and the transition)",
     "tests evaluate the conversion at single flows and never solve a coupled network and check its balance",
     ["src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "src/Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp", G + "Gasedge.cpp"],
     [("conversion", "Gaspowerconnection::generated_power, smoothing_polynomial"), ("coupling equation", "Gaspowerconnection::evaluate")],
     ["output/*/states.json"])
prop("C07", "Pipe states satisfy the discretized Euler equations; gas mass is conserved",
     "In every cell of every pipe and every time step the published pressures and flows satisfy the implicit box scheme of the isothermal Euler equations with the friction law (laminar below Re 2000, spline up to 4000, Swamee-Jain above). In particular the mass of the gas in a pipe changes exactly by inflow minus outflow, and a pipe is discretized with the fewest equidistant cells not longer than the desired length.",
     ["inputs", "configurations"], "all pipe dimensions given in any length unit, spatial and temporal step sizes, flow regimes, numbers of cells",
     "tests evaluate a two-cell pipe once; the exact friction law in context, the unit handling and long evolutions are not covered",
     [G + "Pipe.cpp", "src/Model/Scheme/include/Implicitboxscheme.hpp", "src/Model/Balancelaw/Isothermaleulerequation.cpp"],
     [("box scheme", "Implicitboxscheme::evaluate_point, Pipe::evaluate"), ("flux and friction", "Isothermaleulerequation::flux, source")],
     ["output/*/states.json"])
prop("C08", "The equation of state is inverted exactly and friction is smooth and positive",
     "Density and pressure are mutually inverse, strictly increasing functions over the whole physical range, with matching derivatives, and the conversions between pascal and bar and between state and (pressure, flow) are mutually inverse. The friction factor is positive, bounded and continuously differentiable across the limits of the laminar, transitional and turbulent regime, the friction force always opposes the flow and is odd in it, and the values follow the documented formulas.",
     ["inputs"], "all pressures from 0.1 to 300 bar, Reynolds numbers, diameters, roughnesses",
     "tests sample a handful of values, e.g. one diameter and one pressure",
     ["src/Model/Balancelaw/Isothermaleulerequation.cpp", "src/Model/Balancelaw/include/Isothermaleulerequation.hpp"],
     [("equation of state", "p, rho, dp_drho, state, p_qvol"), ("friction", "lambda_non_laminar, Swamee_Jain, get_coefficients, source")],
     ["return values of the balance law"])
prop("C09", "Data series are interpolated linearly between their points and nowhere else",
     "A data series takes its given values at its given points and linear interpolations between adjacent points, for any number of points and values per point; requests outside its range, points that are out of order, or values of differing sizes are errors. Reading a series from a file, its in-place modification, its views onto external memory and its element-wise operations all refer to the same values.",
     ["inputs", "histories"], "all series (sizes, spacing, magnitudes of times) and all evaluation points, including the ends and points within rounding of them",
     "tests use series of two to four equidistant points",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp"],
     [("evaluation", "InterpolatingVector_Base::operator(), compute_index_lambda"), ("construction", "construct_from_json, set_values_in_bulk, mut_timestep, mapped vectors")],
     ["values returned by InterpolatingVector"])
prop("C10", "Time grids are equidistant, hit both ends and are never coarser than requested",
     "For every start, end and desired step the grid has strictly increasing equidistant points, begins exactly at the start and ends at the end, and uses the smallest number of steps not longer than desired; a grid given by its number of points has exactly that many. Simulation, control and constraint grids follow this rule, and inconsistent settings are rejected with an error instead of an abort.",
     ["inputs", "configurations"], "all start times, end times, step sizes (also non-dyadic ones and long horizons) and numbers of points",
     "tests use small integers; rounding in long horizons or non-dyadic steps is not sampled",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/Timedata/Timedata.cpp", "src/Grazer/commands.cpp", "src/Grazer/helpers.cpp"],
     [("grids", "make_from_start_delta_end, make_from_start_number_end, Timedata")],
     ["times in states.json and controls.json", "Interpolation_data, Timedata"])
prop("C11", "Physical quantities with units convert to SI exactly and bad units are refused",
     "A quantity given as value and unit is converted by the numeric factor, the SI prefix and the unit's definition (with offset for temperatures; the prefix of an area or volume is part of the powered length), so that equal quantities in different units give equal results. A unit that is unknown, belongs to another kind of quantity, or is malformed is an error, never a silently wrong number.",
     ["inputs"], "all values, numeric factors, SI prefixes and units of every supported kind of quantity",
     "tests convert about a dozen fixed quantities",
     ["src/Auxillary/unit_conversion/unit_conversion.cpp"],
     [("parsing", "Measure::parse_to_si, parse_unit, parse_prefix"), ("validation", "Measure::get_schema")],
     ["return value of parse_to_si", "behaviour of pipes given in different units"])
prop("C12", "Stochastic loads are reproducible from their seed and stay within their cut-off",
     "A stochastic power load follows the Euler-Maruyama scheme of its Ornstein-Uhlenbeck process, started at each step from the power of the last state, with a number of substeps that keeps it stable, and its power never leaves the prescribed mean times (1 +- cut-off factor). The seed is published with the results; the same seed reproduces the same run bit by bit, different seeds and different nodes give different noise, and zero volatility gives the deterministic relaxation towards the mean.",
     ["inputs", "histories"], "all seeds, means of either sign, volatilities, relaxation rates, cut-offs and numbers of substeps",
     "tests feed deterministic fake distributions to one or two steps",
     [PW + "StochasticPQnode.cpp", "src/Auxillary/Stochastics/include/Stochastic.hpp", "src/Auxillary/Stochastics/Stochastic.cpp", "src/Auxillary/Stochastics/Normaldistribution.cpp"],
     [("process", "euler_maruyama_oup, compute_stable_number_of_oup_steps"), ("random numbers", "Normaldistribution, Truncatednormaldist"), ("node", "StochasticPQnode::prepare_timestep")],
     ["output/*/states.json including seed, P_deviation, Q_deviation"])
prop("C13", "Malformed or inconsistent input ends in an error message, never in results",
     "If an input file is missing, is not valid JSON, lacks required keys, has values of the wrong type or size, unsorted points, unknown component types, unknown or duplicate ids, dangling connections, missing boundary, initial or control data, or contradictory settings, the program exits with an error status and a message and writes no states. It never crashes, hangs or aborts on any input.",
     ["inputs", "configurations"], "all single and multiple corruptions of valid problem directories",
     "tests cover some validation functions; most corruptions of complete problems are never run",
     ["src/Auxillary/aux_json/Aux_json.cpp", "src/Auxillary/json_schema/schema_validation.cpp", "src/Model/Netfactory/Netfactory.cpp", "src/Model/Network/Net.cpp", "src/Model/Network/Edge.cpp", "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "src/Grazer/grazer.cpp", "src/Grazer/helpers.cpp"],
     [("reading", "get_json_from_file_path, validate_json"), ("consistency", "build_net, insert_second_json_in_topology_json, Net, Edge, check_components_in_json"), ("error exit", "main")],
     ["exit code, message and output directory of grazer run"])
prop("C14", "Default values fill gaps and never override explicit values",
     "A parameter missing in a component takes the default of its component type from the problem settings, and a run with defaults gives exactly the results of the run with all values written out. A value given explicitly at the component always wins, defaults of one type never affect another type, and defaults for parameters a type does not have are errors once it is used.",
     ["inputs", "configurations"], "all splits of parameters into defaults and explicit values, for all component types",
     "tests check one default for one type in the factory",
     ["src/Model/Componentfactory/include/Componentfactory.hpp", "src/Model/Componentfactory/Full_factory/Full_factory.cpp", "src/Auxillary/json_schema/make_schema.cpp", "src/Auxillary/json_schema/schema_validation.cpp"],
     [("defaults", "AbstractNodeType/AbstractEdgeType::make_instance, add_defaults, apply_defaults")],
     ["output/*/states.json"])
prop("C15", "Results do not depend on the order or the surplus of entries in the input files",
     "Permuting the entries of topology, boundary, initial and control files or the keys in them, or adding boundary data for components that do not exist, changes no result. Every component gets exactly the data filed under its own id: duplicate ids within a type and components without boundary, initial or control data are errors.",
     ["inputs"], "all permutations of all files, surplus and missing entries, all shapes of ids (prefixes of each other, numeric order differing from lexicographic order, non-ascii)",
     "tests use already sorted files with two or three components",
     ["src/Model/Netfactory/Netfactory.cpp", "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "src/Model/Networkproblem/Networkproblem.cpp", "src/Model/Network/Net.cpp"],
     [("merging", "insert_second_json_in_topology_json, sort_json_vectors_by_id"), ("assignment", "set_initial_values, set_initial_controls, check_components_in_json")],
     ["output/*/states.json", "exit code"])
prop("C16", "Runs never overwrite results; every successful run has its own complete output",
     "Each run reserves a new output directory of its own, also when many runs are started on the same problem at the same moment, and never changes or removes files of earlier runs. A run that exits successfully leaves complete result files and a copy of its problem (with all subdirectories and linked files) there; if writing fails (full disk, file size limit, unwritable place) the run ends with an error.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent runs on one problem directory, all points at which writing can fail, any prior content of the output directory",
     "tests create directories sequentially and never let a write fail",
     ["src/Auxillary/Input_Output/Input_output.cpp", "src/Grazer/commands.cpp"],
     [("unique directory", "io::unique_output_directory"), ("file writing", "io::prepare_output_directory, commands.cpp")],
     ["output directory tree", "exit code"])
prop("C17", "Rewriting JSON files in place never loses or corrupts them",
     "Inserting the schema key into the files of a problem keeps all other content of every file, with its keys in their order, touches only JSON objects, and leaves files it cannot parse as they are. At every point of failure (crash, full disk, refused system call) each file is either completely old or completely new, and a failure is reported.",
     ["crash_points", "fault_sequences", "inputs"], "all file contents and all points at which a system call fails or the process dies",
     "tests insert keys into intact files and never interrupt the writing",
     ["src/Auxillary/aux_json/Aux_json.cpp", "src/Auxillary/json_schema/schema_key_insertion.cpp"],
     [("rewriting", "aux_json::overwrite_json"), ("selection of files", "Aux::schema::insert_schema_key_into_file, ..._into_json")],
     ["files of the problem directory after the command"])
prop("C18", "Generated schemas accept what a run accepts and reject what it rejects",
     "The schemas generated for a problem accept every complete, well formed set of input files that a run accepts, with or without defaults in the problem settings. They reject files with missing required parameters, wrong types, wrong numbers of values or unknown component types, and properties with a default are not required.",
     ["inputs", "configurations"], "all valid problems and their single-fault mutations, all sets of defaults",
     "tests compare parts of schemas literally; no schema is ever applied to a problem by an independent validator",
     ["src/Auxillary/json_schema/schema_generation.cpp", "src/Auxillary/json_schema/make_schema.cpp", "src/Model/Componentfactory/Componentfactory.cpp", "src/Model/Componentfactory/include/Componentfactory.hpp"],
     [("schemas", "make_full_factory_schemas, get_*_schema of all components")],
     ["schemas/*.json"])
prop("C19", "The optimizer's objective and gradient are those of the simulated problem",
     "For every control vector the objective is the time integral (trapezoidal rule without the initial time) of the operating costs and penalties along the simulated trajectory, and the returned gradient is its derivative with respect to every control value. Constraint values are those of the simulated trajectory at the constraint times.",
     ["inputs", "programs"], "all networks with controls, control and state grids (equal or different), control vectors",
     "tests use a toy problem with one component and equal grids",
     ["src/IpoptWrapper/ImplicitOptimizer.cpp", "src/Optimization_helpers/ControlStateCache.cpp", "src/Model/Networkproblem/Networkproblem.cpp", G + "Compressorstation.cpp"],
     [("objective", "ImplicitOptimizer::evaluate_objective"), ("adjoint gradient", "ImplicitOptimizer::evaluate_objective_gradient")],
     ["ImplicitOptimizer's evaluate functions"])
prop("C20", "Repeated and reordered optimizer evaluations always give the same answers",
     "The value of every optimizer function (objective, gradient, constraints, Jacobian) at a control vector depends on that vector alone: not on which functions were called before, at which vectors, in which order, or whether an earlier evaluation failed. Caching never changes a result.",
     ["histories"], "all sequences of calls with changing and returning control vectors, including vectors for which the simulation fails",
     "tests call each function once or twice in a fixed order",
     ["src/IpoptWrapper/ImplicitOptimizer.cpp", "src/Optimization_helpers/ControlStateCache.cpp", "src/IpoptWrapper/Wrapper.cpp"],
     [("caches", "ControlStateCache::refresh_cache, ImplicitOptimizer::new_x and its flags")],
     ["ImplicitOptimizer's evaluate functions"])
prop("C21", "The constraint Jacobian has the right structure, values and causality",
     "The reported structure of the constraint Jacobian lists every position once, within range, in the order of the values, and covers every entry that can be non-zero. The values are the derivatives of the constraints with respect to the controls; controls that only act after a constraint's time have no influence on it.",
     ["inputs", "configurations"], "all numbers of constraints and controls per time, all relations of state, control and constraint grids",
     "tests check one small Jacobian on nested grids",
     ["src/IpoptWrapper/ConstraintJacobian.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp"],
     [("storage", "ConstraintJacobian_Base, MappedConstraintJacobian"), ("values", "ImplicitOptimizer::evaluate_constraint_jacobian"), ("structure", "ImplicitOptimizer::supply_constraint_jacobian_indices")],
     ["ImplicitOptimizer's evaluate and supply functions"])
prop("C22", "Assembled sparse matrices equal the sum of their contributions",
     "Whatever sequence of additions fills a matrix, the result equals a dense model of the same operations: repeated additions to an entry accumulate, in the transposed variants rows and columns are exchanged, entries nobody added to are zero, and entries that are or become zero stay part of the sparsity pattern. Refilling an existing pattern gives the same matrix as building it anew, with no remains of old values.",
     ["histories", "inputs"], "all sequences of operations on matrices of all shapes and patterns",
     "tests fill two or three entries",
     ["src/Auxillary/Matrixhandler/Matrixhandler.cpp"],
     [("triplets", "Triplethandler"), ("in place", "Coeffrefhandler")],
     ["matrices after set_matrix"])
prop("C23", "No input drives the program into undefined behaviour",
     "On every input (valid, extreme or malformed problems, simulation, optimization, schema generation and key insertion) the program performs no out-of-bounds or dangling access, no use of invalid iterators or null references, no undefined arithmetic or conversion.",
     ["inputs", "configurations"], "all problem directories and command lines",
     "tests run without sanitizers on small well formed inputs",
     ["src/Model/Networkproblem/Networkproblem.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp", "src/IpoptWrapper/ConstraintJacobian.cpp", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Model/Network/Net.cpp", "src/Model/Netfactory/Netfactory.cpp", "src/Auxillary/aux_json/Aux_json.cpp"],
     [("index arithmetic", "segment() and operator[] on Eigen vectors"), ("pointers between nodes and edges", "Net, Node, Edge"), ("json access", "operator[] on parsed files")],
     ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions"])
prop("C24", "Active elements realize exactly the control in force at each time",
     "At every time after the start the pressure rises over a compressor and falls over a control valve by the value of its control at that time, a short pipe has equal pressures, and all of them pass the flow unchanged. The control is the given series sampled at the control grid and interpolated linearly in between; each element uses its own control only, and published controls are those used.",
     ["inputs", "configurations"], "all numbers and mixes of controlled elements, control grids (from settings or simulation grid) and control series",
     "tests evaluate one compressor at one state with one control vector",
     [G + "Compressorstation.cpp", G + "Controlvalve.cpp", G + "Shortpipe.cpp", G + "Shortcomponent.cpp", "src/Grazer/helpers.cpp", "src/Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp"],
     [("equations", "evaluate of the elements"), ("control grid", "setup_controls, set_initial_controls"), ("control indices", "Networkproblem::set_control_indices")],
     ["output/*/states.json", "output/*/controls.json"])
prop("C25", "Optimized controls respect their bounds and constraints and reproduce the states",
     "The controls published by an optimization lie within their bounds, and the published states are the trajectory these controls produce from the initial state. If the optimizer reports an optimum, the constraint nodes' pressures satisfy their bounds at all constraint times, including the last time, and the reported cost is that of the published controls and not above that of the initial controls if these were feasible; a failed optimization is reported as such.",
     ["inputs", "configurations"], "all networks with controls and constraints, bounds, grids and constraint frequencies",
     "no test runs the network optimization end to end",
     ["src/Grazer/commands.cpp", "src/IpoptWrapper/Wrapper.cpp", "src/IpoptWrapper/Adaptor.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp", "src/Optimization_helpers/Optimization_helpers.cpp", G + "ConstraintSink.cpp"],
     [("bounds", "Optimization::initialize_bounds, IpoptWrapper::get_bounds_info"), ("results", "IpoptWrapper::finalize_solution, commands.cpp")],
     ["output/*/controls.json, states.json, messages of grazer run"])
prop("C26", "Post-processing tools compute what they claim from result files",
     "The stand-alone tools of helper_functions compute from result and input files exactly the quantities they name. An extracted initial condition is the published state of the first step at or after the given time (of the last step if the time is beyond the end) and continues that run. Tabulated series contain the published values at the published times and places. Means, sample deviations, quantiles and largest discrepancies over several runs are those of the published values. Included seeds are the published ones and reproduce the run. Tools that change an input file (pressures, inflow, categories, seeds, positions, numbers as text, a further coupling) change only the named quantity, by the given amount. A written path of the Ornstein-Uhlenbeck process starts at its mean, covers the given time in (a multiple of) the given number of equal steps up to its end, and stays within its cut-off.",
     ["inputs"], "all result files of successful runs and all sets of realizations",
     "the tools have no tests at all",
     ["helper_functions/" + f + ".cpp" for f in ("extract_new_initial_condition", "generate_printing_csv", "generate_control_printing_csv", "get_mean_sigma", "get_quantiles", "compute_reference_discrepance", "include_seed_in_boundaryvalues", "remove_seed_from_boundaryvalues", "increase_pressure", "change_inflow", "sum_outflow", "move_to_category", "normalize_jsons", "stringify_value_json", "insert_positions", "construct_gaspowerconnection", "oup")],
     [("tools", "helper_functions/*.cpp")],
     ["files written by the tools"])
prop("C27", "States, controls, constraints and equations are partitioned among the components",
     "Every component of a network owns a contiguous range of state indices, controlled components of control indices and constrained components of constraint indices; these ranges are disjoint and together cover exactly the network's totals. Every equation index is written exactly once per evaluation, so each component's equations depend on its own and its neighbours' states only.",
     ["programs", "inputs"], "all networks with any mix of component types",
     "tests check indices of single components",
     ["src/Model/Networkproblem/Networkproblem.cpp", "src/Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp", "src/Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp", "src/Model/Networkproblem/Componentclasses/SimpleConstraintcomponent.cpp", G + "Gasedge.cpp"],
     [("index assignment", "set_state_indices, set_control_indices, set_constraint_indices, boundary_equation_index")],
     ["index getters of components", "pattern of Networkproblem::evaluate"])
prop("C28", "A trajectory is determined by its state: restarts and time shifts change nothing",
     "Restarting a deterministic simulation at any of its time points, with the published state as initial state, reproduces the remaining trajectory; shifting all times of a problem by a constant shifts the results and changes nothing else. Extending the end time leaves the earlier results as they were, the simplified and the full Newton method agree up to the tolerance, and repeating a run gives identical results.",
     ["histories", "inputs"], "all deterministic networks, restart points, shifts and horizons",
     "tests never compare two simulations with each other",
     ["src/Model/Problemlayer/Timeevolver.cpp", "src/Newtonsolver/Newtonsolver.cpp", "src/Model/Networkproblem/Networkproblem.cpp"],
     [("time stepping", "Timeevolver::simulate, make_one_step"), ("solver state", "Newtonsolver's kept Jacobian and factorization")],
     ["output/*/states.json of pairs of runs"])
prop("C29", "Results depend on the network, not on how it is written down",
     "Two descriptions of one network give the same results: reversing a pipe, short pipe or line mirrors its profile and flips the sign of its flow and changes nothing else; a sink is a source of negative flow and an inner node a source of no flow; two parallel lines act as one with the sum of their admittances; turning all given phase angles turns all angles; attaching an edge by an ideal short pipe changes nothing; networks without a connection to each other do not influence each other.",
     ["inputs"], "all networks and all ways to describe them",
     "tests never compare two simulations with each other and mostly consist of single components",
     [G + "Gasnode.cpp", G + "Gasedge.cpp", G + "Pipe.cpp", G + "Flowboundarynode.cpp", "src/Model/Networkproblem/Power/Powernode.cpp", "src/Model/Network/Net.cpp"],
     [("direction of edges", "dir in Gasnode, Direction in Gasedge, get_starting_edges and get_ending_edges"), ("assembly per component", "Networkproblem::evaluate")],
     ["output/*/states.json of pairs of runs"])
prop("C30", "Drawn networks show the components at their places and the published values",
     "The drawing tools (draw_gaslib_graph, draw_power_graph, draw_heatmap_gaslib, draw_heatmap_power) write a complete TeX document in which each node of a drawn type appears once, in the colour of its type, at its coordinates up to a common shift and the division by the given factor, and each edge of a drawn type once, between its ends. In a heat map the colour of an edge (gas: the greatest pressure along it over all times; Shortpipes and Sinks are left out) or node (power: its greatest active power over all times) is the one that the scale shows for this component's own value; the scale runs from blue to red and ends at the greatest of these values.",
     ["inputs"], "all topologies with coordinates, result files and factors",
     "the tools have no tests at all",
     ["helper_functions/" + f + ".cpp" for f in ("draw_gaslib_graph", "draw_power_graph", "draw_heatmap_gaslib", "draw_heatmap_power")],
     [("drawing tools", "helper_functions/draw_*.cpp")],
     ["TeX files written by the tools"])
out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
