#!/usr/bin/env python3
"""Writes properties.jsonl; the text of every property lives here."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, **anch):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], **anch}})


prop("C01", "The nonlinear solver never reports a success it has not achieved",
     "A solve that reports success leaves a state at which the norm of the equations is at most the configured tolerance, and the reported residual is that norm; "
     "it never reports success otherwise, whatever the equations return (NaN, infinities, residuals that do not shrink), and never uses more than the configured number of iterations. "
     "A singular derivative matrix is reported as an error, a regular affine system is solved in one step, and the outcome does not depend on what the same solver solved before.",
     ["inputs", "histories"],
     "Every sequence of residual and derivative answers an equation system can give during a solve, every combination of solver modes and every history of earlier solves.",
     "Unit tests solve a handful of convergent systems; non-convergence, NaN, damping and reuse of a used solver combine into far more histories than a test samples.",
     ["src/Newtonsolver/Newtonsolver.cpp", "src/Newtonsolver/include/Newtonsolver.hpp"],
     [("success is derived from the final residual", "Newtonsolver::solve"), ("damped Newton with natural monotonicity test", "Newtonsolver::solve"),
      ("factorization failure raises SolverNumericalProblem", "Newtonsolver::solve")])

prop("C02", "A simulation is either complete and correct at every time or an error",
     "Simulating over a time grid stores the initial state unchanged at the first time and, at every later time, a state solving the equations between the previous stored state and this time with the control interpolated at this time. "
     "A failed attempt at a time step is retried a bounded number of times, at least as often as configured, each time starting from the last accepted state, with the simplified Newton method only given up after the full one has been tried; if no attempt succeeds, or the problem raises an error, the simulation raises an error and never returns normally.",
     ["histories", "fault_sequences"],
     "Every history of attempt outcomes (works, does not converge, yields NaN, throws) over the steps of a simulation, for both solver modes and every number of retries.",
     "Tests simulate networks whose every step converges at the first attempt; the retry path is never entered by them.",
     ["src/Model/Problemlayer/Timeevolver.cpp"],
     [("retry loop with backup of the initial guess", "Timeevolver::make_one_step"), ("time loop and storage", "Timeevolver::simulate")])

prop("C08", "Interpolated data give the defined value at every time or refuse the data",
     "Interpolated boundary, initial and control data return the stored value at an interpolation point, the straight-line value between two neighbouring points, and refuse times outside the covered interval beyond rounding. "
     "What is stored through any of the write operations is what is read back through every read operation, on owning and on mapped vectors alike; reading data from json keeps every value at its time whatever the order of the entries' components, and saving and re-reading changes nothing. "
     "Data that are unsorted, duplicate, empty, or of wrong length are refused.",
     ["inputs", "histories"],
     "Every sequence of write, read, resize and copy operations up to a depth, every query time at, between, next to and outside the points, every order of points and every listed defect of the json data.",
     "Tests read a few hand-made vectors; boundary positions, rounding of large times, mapped storage and malformed data are not reached.",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp"],
     [("lower_bound search and linear interpolation", "InterpolatingVector_Base::operator()"), ("json import with schema and ordering checks", "construct_from_json"),
      ("ordering and size checks", "InterpolatingVector::set_interpolation_points")])

prop("C09", "Equidistant grids have exactly the promised points",
     "A grid given by start, end and step width, by start, end and number of points, or by start, step and number starts exactly at its start, ends at its end, has strictly increasing points, start + i*step each up to rounding of the values themselves, and no step is larger than the desired one while no step more than needed is made. "
     "Specifications without such a grid (end not after start, step not positive, no points, one point for an interval) are refused with an error.",
     ["inputs"],
     "Every combination of the listed starts, interval lengths, step widths and numbers, up to 200000 points.",
     "Accumulated rounding only shows for many points or unlucky step widths; tests use small round numbers.",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/Timedata/Timedata.cpp"],
     [("grid construction", "make_from_start_delta_end, make_from_start_number_end, make_from_start_delta_number"), ("time grid of the simulation", "Timedata")])

prop("C03", "Reported derivatives are the derivatives of the equations",
     "For every network, the matrices of derivatives with respect to the last state, the new state and the controls are the true derivatives of the network's equations at every point where these are differentiable. "
     "An entry that is not reported is zero, and the matrix is the same whether it is built from scratch or written into an existing structure.",
     ["inputs", "configurations"],
     "Every network of bounded families (all edge and node types, orientations, parallel edges, triangles, stars of three and four edges, power nets, coupled nets) in every flow regime (zero, laminar, transition, turbulent, reversed).",
     "Tests compare a few components in isolation in one regime; reversed edges, zero flow, transition friction and combinations of components on one node are not reached.",
     ["src/Model/Networkproblem/Gas", "src/Model/Networkproblem/Power", "src/Model/Networkproblem/Gaspowerconnection", "src/Model/Networkproblem/Networkproblem.cpp"],
     [("derivative assembly over all components", "Networkproblem::d_evaluate_d_new_state, d_evaluate_d_last_state, d_evaluate_d_control"),
      ("balance law and friction derivatives", "Balancelaw/Isothermaleulerequation.cpp, Pipe_Balancelaw.cpp"), ("node equations", "Gasnode.cpp, Powernode.cpp")])

prop("C04", "Every component owns its own part of every vector and gets its own data",
     "For every network the index ranges of all components tile the state, control and constraint vectors without gap or overlap, every equation and constraint is set by evaluation whatever the vector held before, and the problem behaves the same when placed behind others in larger vectors. "
     "Initial values, boundary values, controls and bounds of the input files reach exactly the component with that id, and missing ones are errors.",
     ["inputs", "configurations"],
     "Every network of bounded families, three orders of the entries in every input file, additional entries for components that do not exist, and offsets of the network in larger vectors.",
     "Index mistakes only show for particular mixtures and orders of components; tests use a few fixed networks with index offset zero.",
     ["src/Model/Networkproblem/Networkproblem.cpp", "src/Model/Networkproblem/Network", "src/Model/Networkproblem/Netfactory"],
     [("distribution of start indices", "Networkproblem::init"), ("matching of json entries to components", "Networkproblem::set_initial_values, set_initial_controls, set_*_bounds")])

prop("C05", "A simulated network satisfies the physics at every node and edge at every time",
     "In the results of every simulation, flows balance at every gas node and power at every power node, all edges at a node have its pressure, boundary conditions hold at every time, pipes satisfy the isothermal Euler equations of the documented scheme, short edges, compressors, valves and gas-power connections satisfy their defining relation. "
     "The results give this for every node and edge at every time of the grid, and constraints have the value the results imply.",
     ["inputs", "configurations"],
     "Every network of bounded families with every flow regime, orientation, node type combination, boundary data with kinks and both solver modes.",
     "Tests cannot fix results of whole networks except for a few examples; the conservation laws are universal statements over topologies and data.",
     ["src/Model/Networkproblem/Gas", "src/Model/Networkproblem/Power", "src/Model/Networkproblem/Gaspowerconnection", "src/Model/Problemlayer/Timeevolver.cpp"],
     [("node balance", "Gasnode::evaluate_flow_node_balance, Powernode::P/Q"), ("implicit box scheme", "Implicitboxscheme::evaluate_point"), ("result output", "Networkproblem::json_save, add_results_to_json")])

prop("C06", "How a network is written down does not change what happens in it",
     "Reordering the entries of the input files, renaming components, turning round edges that have no inherent direction, shifting all times, or adding an unconnected copy of the network does not change the simulated results of any component (with the sign of flows along a turned edge reversed).",
     ["inputs", "configurations"],
     "Every network of bounded families times every one of seven rewritings.",
     "These are relations between two runs over all networks; tests only run single inputs whose order follows one convention.",
     ["src/Model/Networkproblem/Network", "src/Model/Networkproblem/Netfactory", "src/Model/Networkproblem/Networkproblem.cpp"],
     [("components are sorted by id on reading", "aux_json::sort_json_vectors_by_id"), ("directed attachment of edges to nodes", "Gasnode, Powernode setup")])

prop("C10", "The optimizer is given one consistent problem and returns what it reports",
     "Every value handed to the optimizer (objective, gradient, constraints, Jacobian, bounds) belongs to the controls of that very call, whatever the order and repetition of the calls and whatever controls failed to simulate in between; a failure is reported as such and leaves no stale value behind. "
     "The final solution, its states, cost, penalty and constraints belong together, the state cache returns a state only for equal controls, and control or constraint times that do not fit the state times are refused.",
     ["histories", "inputs"],
     "Every sequence of optimizer calls up to a depth over several controls including ones that cannot be simulated, every lookup history of the cache.",
     "Ipopt's order of calls is not under a test's control, and caching mistakes show only for particular histories such as failing, then returning to an earlier point.",
     ["src/IpoptWrapper", "src/IpoptWrapper/Adaptor.cpp"],
     [("caching of states per control", "Adaptor state cache"), ("derivative of the final solution", "ImplicitOptimizer::new_x, evaluate_*, final values"), ("callback adapter", "Ipopt_Wrapper eval_* and finalize_solution")])

prop("C11", "Gradients and constraint Jacobians of the optimization are true derivatives",
     "The gradient of the reduced objective and the Jacobian of the constraints with respect to the controls are the true derivatives of the values the same problem returns, for every grid of control, state and constraint times that is accepted, every penalty, weight and dimension including zero. "
     "Entries outside the reported structure are zero.",
     ["inputs", "configurations"],
     "All bounded combinations of dimensions, time grids (coinciding, coarser, starting late), dynamics (linear, nonlinear, control dependent), costs and penalties.",
     "Adjoint mistakes cancel in symmetric small cases; tests use one grid layout and dimension.",
     ["src/IpoptWrapper", "src/Optimization_helpers"],
     [("adjoint equations", "ImplicitOptimizer objective gradient and constraint jacobian"), ("Jacobian storage", "ConstraintJacobian")])

prop("C12", "Matrix handlers assemble exactly the entries that were set",
     "Whatever sequence of set, add and assemble operations is performed, in whatever order, through triplets or coefficient references, the matrix equals the one a plain map of entries would give; re-assembly into an existing structure leaves no old values. "
     "The constraint Jacobian's structure enumerates every entry that can be nonzero exactly once, and values and structure agree in order.",
     ["histories", "inputs"],
     "Every sequence of handler operations up to a depth on small matrices, every shape of constraint Jacobian up to bounds.",
     "Stale values and duplicates need particular operation orders that single-case tests do not contain.",
     ["src/Auxillary/Matrixhandler", "src/Optimization_helpers"],
     [("assembly", "Triplethandler::set_matrix, Coeffrefhandler"), ("packed row storage", "ConstraintJacobian")])

prop("C13", "A reported optimum is feasible, stationary and consistent with its states",
     "When the optimization reports success, the controls lie within their bounds, constraints hold up to the tolerance, the reported cost is the cost of the reported states under the reported controls, and no feasible direction improves the cost beyond tolerance. "
     "If no optimum was found this is reported, never presented as success.",
     ["inputs", "configurations"],
     "Every problem of a bounded family (bounds active or inactive, constraints active, infeasible, failing simulations) solved by the real Ipopt.",
     "Tests solve one unconstrained example; active bounds, infeasible constraints and early termination are not compared with an independent oracle.",
     ["src/IpoptWrapper"],
     [("solver status", "IpoptWrapper/Optimizer optimize()"), ("bounds and scaling handed to Ipopt", "Ipopt_Wrapper get_bounds_info")])

prop("C14", "A successful exit means complete and truthful results",
     "grazer run exits with status 0 only if the simulation or optimization really succeeded, the problem was copied and states.json (and controls.json) are complete and belong together: every component at every time of the grids asked for, the states those of the controls, controls within their bounds and constraints met at the end time. "
     "Whatever file operation fails, is cut short or is interrupted by a crash, no input file and no earlier output is changed, a failure is reported with status 1 and a message, and the next undisturbed run succeeds.",
     ["crash_points", "inputs"],
     "Every file operation of simulations and optimizations in every way it can go wrong, each followed by another run; numbers of time steps, starts, time and control grids, constraint spacings, bounds, bands and Newton limits that succeed or cannot succeed; every optimum simulated again.",
     "Tests never run the program, let alone with a full disk or a crash at a chosen point.",
     ["src/Grazer/commands.cpp", "src/Grazer/grazer.cpp", "src/Auxillary/Input_Output/Input_output.cpp"],
     [("simulation, optimization and output", "grazer::run"), ("exit status", "main"), ("copy of the problem", "io::prepare_output_directory")])

prop("C15", "The schema commands never lose or damage a user's file",
     "Inserting the $schema key leaves every problem file, at every moment and whatever operation fails or is interrupted by a crash, either as the user wrote it or with exactly the key added and all content kept in order; repeating it changes nothing, files without schema stay as they are. "
     "Making schemas only writes its five schema files, and nothing at all in a directory with foreign files. "
     "Success is only reported if everything was written, and after any failure the next undisturbed command succeeds.",
     ["crash_points", "inputs"],
     "Every file operation of the commands in every way it can go wrong, on directories with all, some or no files, existing keys and foreign files.",
     "Tests do not run these commands; loss needs a failure between two particular operations.",
     ["src/Auxillary/aux_json/Aux_json.cpp", "src/Auxillary/json_schema"],
     [("replacing a file", "aux_json::overwrite_json"), ("key insertion", "insert_schema_key_into_data_jsons"), ("schema generation", "make_full_factory_schemas, make_schemas")])

prop("C16", "Instances running at the same time do not disturb each other",
     "Any number of grazer runs in the same directory, started within the same millisecond, each get an output of their own: no two write the same file, each output is complete, and a killed instance does not hinder the others. "
     "Names are only given to one instance, existing files and directories are never reused, and names tell the time to the millisecond in the documented form. "
     "Inserting schema keys while others insert keys or run neither loses data nor shows anyone a half-written file.",
     ["schedules", "crash_points"],
     "Every interleaving of the file operations of two instances (three and four up to a number of preemptions), with one killed at any point, with names already taken.",
     "Races need two processes between particular operations of each other; tests run one.",
     ["src/Auxillary/Input_Output/Input_output.cpp", "src/Grazer/commands.cpp", "src/Auxillary/aux_json/Aux_json.cpp"],
     [("unique output directory", "io::unique_output_directory"), ("unique file", "io::create_new_output_file"), ("time stamp", "io::millisecond_datetime_timestamp")])

prop("C17", "Quantities with units mean what they say",
     "A quantity of value v and unit u is v times the number in front of the unit times the prefix (to the power of the unit for areas and volumes) times the unit's size in SI, plus the unit's offset; every unit and every prefix in every documented combination is accepted. "
     "A string that is not [number space][prefix]unit of the quantity at hand is refused with a message, whether by the JSON schema or by parsing, and never taken for another unit. "
     "A pipe is the same in whatever units its dimensions are written.",
     ["inputs"],
     "Every quantity with every unit, prefix, number and value from the alphabets; every string up to a length over an alphabet of fragments; pipes in every unit of length.",
     "Tests try a few units; ambiguous prefixes (m for milli or metre, da, mu) and wrong strings need every combination.",
     ["src/Auxillary/unit_conversion"],
     [("parsing of units", "Aux::unit::Measure::parse_to_si, parse_unit"), ("accepted units", "Aux::unit::Measure::get_schema"), ("use in the model", "Pipe, Isothermaleulerequation")])

prop("C07", "No input crashes grazer or is silently misread",
     "Whatever single defect a problem directory has, grazer run ends with status 1 and a message if the input cannot be right (a value missing, of wrong kind, out of range, naming nothing, or not covering the times), and never crashes, hangs or succeeds without complete, finite results. "
     "Additional keys and comments change nothing about the results. "
     "Nothing outside the output directory is ever written.",
     ["inputs"],
     "Every value of every input file of a simulation, an optimization and a coupled gas and power problem removed, renamed, doubled, reordered, exchanged, extended and replaced by each value of an alphabet; every file missing, a directory, empty, cut short or not JSON.",
     "Tests cover a handful of wrong inputs in isolated functions; the program as a whole must withstand every one.",
     ["src/Grazer", "src/Model", "src/Auxillary"],
     [("reading the problem", "grazer::run"), ("network and components", "Model::build_net, component constructors and schemas"), ("time grid", "Model::Timedata"), ("controls and bounds", "setup_controls, Optimization::initialize_bounds")])

prop("C18", "Defaults stand for the values they replace; schemas say what is accepted",
     "A network whose components take any of their properties or boundary values from the defaults of their type is the network in which these values are written out; own values win, and a value that is neither given nor a default, or a default for nothing, is refused. "
     "The schemas grazer generates for a set of defaults can always be made and accept a file exactly if grazer accepts the structure of that file with these defaults. "
     "Defaults are filled in only where values are missing and required values with a default are no longer required, for every schema.",
     ["inputs"],
     "Every set of properties of every component type as defaults in four ways, every pair of types, parts of quantities; every schema, default and datum with up to two (thorough: three) properties, one of them an object; every single change at every place of the input files under four sets of defaults.",
     "Tests check one or two hand-written schemas; whether file, defaults and generated schema agree needs every component type and combination.",
     ["src/Model/Componentfactory", "src/Auxillary/json_schema", "src/Model/Netfactory"],
     [("schemas of components and their defaults", "NodeType::get_schema, EdgeType::get_schema, make_instance"), ("defaults", "Aux::schema::add_defaults, apply_defaults, remove_defaults_from_required"), ("generated files", "Aux::schema::make_full_factory_schemas"), ("merging of the files", "insert_second_json_in_topology_json")])

prop("C19", "Stochastic power nodes: stable, cut off, reproducible from the seed",
     "For every sequence of random samples the power of a stochastic node follows the Euler-Maruyama recursion of the Ornstein-Uhlenbeck process with at least the requested number of steps and always a stable step size, and after every step lies between (1 - cut_off_factor) and (1 + cut_off_factor) times the prescribed power; unusable parameters are refused. "
     "The samples depend on the node's own seed only: a run with the reported seeds reproduces the results exactly, a shorter run is the beginning of a longer one, and other nodes, names and orders do not matter. "
     "Truncated samples always lie within their bounds.",
     ["inputs", "histories"],
     "Every sequence of samples from an alphabet of up to five values for every parameter set; a grid of parameters for the number of steps; every interleaving of four (thorough: five) draws from two generators; every seeding of two nodes.",
     "Tests draw a few random samples; bounds and stability must hold for every sequence, and reproducibility for every seeding.",
     ["src/Auxillary/Stochastics", "src/Model/Networkproblem/Power"],
     [("the process", "Aux::euler_maruyama_oup"), ("stability", "Aux::compute_stable_number_of_oup_steps"), ("generators", "Aux::Normaldistribution, Aux::Truncatednormaldist"), ("the node", "Model::Power::StochasticPQnode")])

prop("C20", "A simulation can be interrupted and continued; recorded seeds reproduce it",
     "The initial values that extract_new_initial_condition takes from a result file are exactly the state at the asked time, at the first later step if there is none at that time, or at the last step if there is none later. "
     "Simulating on from them gives, for every network, every step and every later time, the states the uninterrupted simulation gives. "
     "Seeds written into the boundary values by include_seed_in_boundaryvalues reproduce the results exactly, and remove_seed_from_boundaryvalues restores boundary values without seeds.",
     ["inputs", "histories"],
     "Every line of up to three (thorough: four) gas edges of four types, pressure given at either end, one or no edge against the flow; every power star of up to two (thorough: three) nodes of three types; the coupled network; interrupted after every step, asked on, between and outside all steps; every seeding of up to three stochastic nodes.",
     "No test covers the tools; that an interruption changes nothing has to hold after every step and for every kind of component.",
     ["helper_functions", "src/Model", "src/Grazer"],
     [("extraction", "helper_functions/extract_new_initial_condition.cpp"), ("seeds", "helper_functions/include_seed_in_boundaryvalues.cpp, remove_seed_from_boundaryvalues.cpp"), ("results", "Equationcomponent::get_output_json_ref, json_save"), ("initial values", "set_initial_values")])

prop("C21", "Tables made from results say what the results say",
     "generate_printing_csv and generate_control_printing_csv write, for every component of every result file, exactly its times, points and values, to the documented files and to no others; numbers read back are the numbers of the results. "
     "For unknown components, components without controls, and names that lead out of the working directory nothing is written and the failure is reported. "
     "A tool that could not write its output does not report success.",
     ["inputs"],
     "Every component of synthetic results over an alphabet of identifiers, values, times and points, of simulations of lines and stars of up to four power nodes or seven gas edges, of a coupled network and of optimizations; identifiers that lead elsewhere, all names of up to four parts from five directories; components without data; targets that are directories or full devices.",
     "No test covers the tools; lookups depend on the order of all components in the results.",
     ["helper_functions", "src/Auxillary/Input_Output"],
     [("tables of states", "helper_functions/generate_printing_csv.cpp"), ("tables of controls", "helper_functions/generate_control_printing_csv.cpp"), ("containment", "io::absolute_file_path_in_root")])

prop("C22", "Tools that edit a problem change exactly what they are asked to change",
     "Whatever sequence of normalize_jsons, move_to_category, increase_pressure, change_inflow, insert_positions, construct_gaspowerconnection and the two seed tools is applied, the problem's files then contain what the described effects of these tools, one after the other, make of the original files, and every other value is as it was. "
     "What a tool cannot do (inflow that is not constant or zero, seeds of unknown components, a connection that is already there, components without positions or numbers) it reports, and leaves the files alone. "
     "Whatever file operation fails or is never reached, every file of the problem is the old or the new one, and the tool does not report a success it has not had.",
     ["histories", "inputs", "fault_sequences", "crash_points"],
     "All sequences of two (thorough: three) of 27 operations from seven initial problems, states reached twice are continued once; every operation with each of its file operations failing, cut short or never happening.",
     "No test covers the tools; they edit several files in turn, and what they find depends on what was done before.",
     ["helper_functions"],
     [("moves", "helper_functions/move_to_category.cpp"), ("scaling", "helper_functions/change_inflow.cpp, increase_pressure.cpp"), ("positions", "helper_functions/insert_positions.cpp"), ("connections", "helper_functions/construct_gaspowerconnection.cpp")])

prop("C23", "Drawings show the network where it is, coloured by the results",
     "draw_gaslib_graph and draw_power_graph draw every node at its position relative to the centre, divided by the scale, and every connection between the nodes it joins; the two heat maps colour every node or connection by its own maximal power or pressure on the scale from the smallest to the largest drawn value, and the legend names that scale. "
     "A drawing that could not be written is not reported as success.",
     ["inputs"],
     "Every assignment of node types to up to three nodes in four arrangements, with sets of up to three connections; every series of values from an alphabet of three for up to three components and two times; several scales; targets that are directories or full devices.",
     "No test covers the tools; a colour depends on the order of all components and on all their values.",
     ["helper_functions"],
     [("positions", "helper_functions/draw_gaslib_graph.cpp, draw_power_graph.cpp"), ("colours and legends", "helper_functions/draw_heatmap_gaslib.cpp, draw_heatmap_power.cpp")])

prop("C24", "The network graph is what its nodes and edges say, whatever is attached",
     "After any sequence of attaching and removing edges, every node knows exactly the edges that start and end there, and every attempt reports whether it changed anything. "
     "A net is accepted exactly if both nodes of every edge belong to it and the edge is attached to both; lookups by identifier then find exactly the node or edge that has it and fail for all others.",
     ["inputs", "histories"],
     "Every graph of up to three nodes and two (thorough: three) edges, every sequence of up to three changes, every net that lacks one node or edge, every identifier and some that nobody has.",
     "The tests build one graph; consistency has to hold for every graph and every order of changes.",
     ["src/Model/Network"],
     [("edges of a node", "Node::attach_starting_edge, attach_ending_edge, remove_edge"), ("consistency of a net", "Net::Net"), ("lookup", "Net::get_node_by_id, get_edge_by_id, exists_node, exists_edge")])

prop("C25", "Gas law, friction and smoothing follow their formulas in every regime",
     "Pressure and density are inverse to each other; flux, friction factor and source term are those of the isothermal Euler equations with laminar, transitional and turbulent friction (Swamee-Jain; the exact factor solves the equation of Colebrook and White), continuous with continuous slope over both borders, and friction never accelerates. "
     "The power of a gas power connection and the smoothed absolute value are the documented piecewise functions. "
     "Every analytic derivative is the derivative of its function, and functions refuse arguments outside their regime.",
     ["inputs"],
     "Every combination of 4 (thorough: 9) diameters, 4 (9) roughnesses, 60 (400) Reynolds numbers per regime, densities, pressures, flows in both directions, and points below, at and above every border.",
     "The tests evaluate a few numbers; mistakes show in one regime, direction or side of a border only.",
     ["src/Model/Balancelaw", "src/Model/Networkproblem/Gaspowerconnection", "src/Auxillary/Mathfunctions"],
     [("laws", "Isothermaleulerequation::flux, source, lambda_non_laminar, Swamee_Jain, p, rho"), ("exact friction", "Isothermaleulerequation::exact_turbulent_lambda"), ("power", "Gaspowerconnection::generated_power"), ("smoothing", "Aux::smooth_abs")])

prop("C26", "A command line does what its commands say, each where it was told, or nothing",
     "Any combination of grazer run, grazer schema make-full-factory and grazer schema insert-key on one command line has the effects and the exit status of these commands one after the other, each on its own directory; only a line that names the same command twice may be refused instead. "
     "A line that is no combination of commands with their directories is refused with a message and a non-zero exit status, and a line that asks for help or the version informs; both change nothing.",
     ["inputs", "programs"],
     "Every line of up to three (thorough: four) of 13 words; every combination of two (thorough: three) commands on two directories, one of which may be broken, with any word missing or help asked for anywhere.",
     "The tests call the commands as functions; no test parses a command line.",
     ["src/Grazer", "src/Auxillary/json_schema"],
     [("command line", "main in src/Grazer/grazer.cpp"), ("commands", "grazer::run, make_full_factory_schemas, insert_schema_key_into_data_jsons")])

#APPEND
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
