"""The checks: what each builds, how its evidence is counted and what its manifest entry says."""
TRUST = ("Trusted: the harness' reference computation, gcc, and that behaviours outside the stated alphabet and bounds "
         "do not matter. ")
CHECKS = {
    "C01": {
        "targets": ["h_newton"], "level": "model_checking",
        "technique": "bounded exhaustive exploration of the real solver against an adversarial equation system",
        "note": TRUST + "Every sequence of residual/Jacobian answers (good, bad, NaN, infinite, singular) up to the depth is executed.",
        "rule": "every sequence of residual and Jacobian answers of an adversarial equation system, up to the depth; "
                "non-trivial when at least one Newton step was attempted",
    },
    "C02": {
        "targets": ["h_evolve"], "level": "model_checking",
        "technique": "bounded exhaustive exploration of the real time evolver over all solution-attempt outcome histories",
        "note": TRUST + "Every history of attempt outcomes (works, never converges, NaN) for up to 2 time steps and 2 retries is executed.",
        "rule": "every sequence of solution-attempt outcomes (works, never converges, NaN)",
    },
    "C06": {
        "targets": ["h_order"], "level": "model_checking",
        "technique": "exhaustive enumeration of small networks and of equivalent ways to write them, simulated by the real code and compared",
        "note": TRUST + "Every network of the listed families with seven rewritings (orders, names, directions, date, unconnected copy).",
        "rule": "every network of the bounded families times every rewriting",
    },
    "C08": {
        "targets": ["h_interp"], "level": "model_checking",
        "technique": "bounded exhaustive exploration of operation sequences on the real classes against a list model",
        "note": TRUST + "Every sequence of up to 3 (thorough: 4) operations out of 22 on an owning, a mapped and a read-only vector.",
        "rule": "every sequence of operations up to the depth, every order of points, every listed json defect",
    },
    "C09": {
        "targets": ["h_grid"], "level": "model_checking",
        "technique": "exhaustive enumeration of grid specifications on the real code against the defining formula",
        "note": TRUST + "Every combination of the listed starts, lengths, steps and counts, including invalid ones.",
        "rule": "every combination of start, length, step and number from the alphabets; non-trivial with more than two points or when invalid",
    },
    "C03": {
        "targets": ["h_jacobian"], "level": "model_checking",
        "technique": "exhaustive enumeration of small networks and flow regimes; reported derivatives of the real code against fourth order differences of its equations",
        "note": TRUST + "Every network of the listed families, singular ones included, in every listed flow regime; both matrix handlers.",
        "rule": "every network of the bounded families times every flow regime",
    },
    "C04": {
        "targets": ["h_layout"], "level": "model_checking",
        "technique": "exhaustive enumeration of small networks and orders of their input on the real code against the input itself",
        "note": TRUST + "Every network of the listed families, three orders of every input file, plain and behind other components in larger vectors.",
        "rule": "every network of the bounded families times the orders of its input",
    },
    "C05": {
        "targets": ["h_flow"], "level": "model_checking",
        "technique": "exhaustive enumeration of small networks simulated by the real code against an independent formulation of the physics",
        "note": TRUST + "Every network of the listed families (2 and 3 gas nodes, stars, all edge and node types, orientations, regimes; power nets; coupled nets) is simulated.",
        "rule": "every network of the bounded families with every flow regime and solver mode",
    },
    "C11": {
        "targets": ["h_gradient"], "level": "model_checking",
        "technique": "exhaustive enumeration of time grids, dimensions and networks; the real optimizer's values and derivatives against an independent simulation and its differences",
        "note": TRUST + "Every combination of state, control and constraint grids, dimensions and offsets, and every controlled network of the families.",
        "rule": "every combination of grids and dimensions, and every controlled network of the bounded families",
    },
    "C10": {
        "targets": ["h_protocol"], "level": "model_checking",
        "technique": "bounded exhaustive exploration of call sequences on the real optimization wrapper, optimizer and state cache against fresh evaluations",
        "note": TRUST + "Every sequence of 4 (thorough: 5) calls out of 17, with four points, one of which cannot be simulated; every sequence of 3 cache operations.",
        "rule": "every sequence of evaluation calls at four points up to the depth; every sequence of cache operations",
    },
    "C12": {
        "targets": ["h_matrix"], "level": "model_checking",
        "technique": "exhaustive enumeration of grids and of operation sequences on the real matrix classes against dense matrices",
        "note": TRUST + "Every pair of subsets of the control and constraint times; every sequence of up to 3 (thorough: 4) coefficient additions.",
        "rule": "every pair of non-empty subsets of times with every block size; every sequence of additions up to the depth",
    },
    "C13": {
        "targets": ["h_optimum"], "level": "model_checking",
        "technique": "exhaustive enumeration of small control problems optimized by the real code; first order conditions checked independently",
        "note": TRUST + "Every combination of grids, dimensions, bounds and constraint bands; Ipopt itself is the installed library.",
        "rule": "every combination of grids, dimensions, bounds, constraint bands and starting points; non-trivial when an optimum is reported",
    },
    "C14": {
        "targets": ["grazer"], "level": "model_checking", "python": "faults:run14",
        "technique": "exhaustive fault and crash injection into the real executable: every file operation in every way it can go wrong",
        "note": TRUST + "File operations are intercepted at the C library; one failure (thorough: a crash, then another failure) per history.",
        "rule": "every file operation of every run times every way to fail, each followed by an undisturbed run; every listed outcome of optimization and simulation",
    },
    "C15": {
        "targets": ["grazer"], "level": "model_checking", "python": "faults:run15",
        "technique": "exhaustive fault and crash injection into the real executable: every file operation in every way it can go wrong",
        "note": TRUST + "File operations are intercepted at the C library; a crash is the end of the process, data written before it are kept.",
        "rule": "every file operation of every schema command times every way to fail, each followed by an undisturbed repetition (thorough: by a second failure first)",
    },
    "C16": {
        "targets": ["grazer", "d_output"], "level": "model_checking", "python": "interleave",
        "technique": "stateless exploration of the interleavings of real grazer processes at the level of file operations under a controlled scheduler",
        "note": TRUST + "Two instances under every schedule, three and more up to a number of preemptions, with and without one being killed; "
                        "only operations on files they share are scheduling points, and that the others are not shared is checked.",
        "rule": "every interleaving of the operations on shared files of 2 instances (3 and 4 up to a preemption bound), clock readings equal",
    },
    "C07": {
        "targets": ["grazer"], "level": "model_checking", "python": "malformed",
        "technique": "exhaustive enumeration of single defects of the input of the real executable against an independent description of valid input",
        "note": TRUST + "Single defects of three problems; the description of valid input is necessary, not sufficient, so input it admits may be refused. "
                        "Thorough: also with address and undefined behaviour sanitizers.",
        "rule": "every single defect of the listed kinds at every place of every input file; states are distinct defects",
    },
    "C17": {
        "targets": ["h_units"], "level": "model_checking",
        "technique": "exhaustive enumeration of quantities, units, prefixes, numbers and of all short strings on the real code against a table and a grammar",
        "note": TRUST + "Every unit with every prefix and number, every string up to a length over the alphabets, pipes in every unit.",
        "rule": "every combination of quantity, number, prefix, unit and value, every string up to the length",
    },
    "C18": {
        "targets": ["h_schema"], "level": "model_checking",
        "technique": "exhaustive enumeration of defaults and of small schemas on the real code against the spelled out input and an independent judge",
        "note": TRUST + "Every set of defaults of every type, every small schema, default and datum, every single change of a network's files.",
        "rule": "every set of properties of every type as defaults, every small schema with every default and datum, every change at every place of the files",
    },
    "C19": {
        "targets": ["h_stochastic"], "level": "model_checking",
        "technique": "exhaustive enumeration of sample sequences of a scripted distribution and of interleavings of generators on the real code against the defining recursion",
        "note": TRUST + "Every sequence of samples from the alphabet for every set of parameters; small power networks with every listed seeding.",
        "rule": "every parameter set times every sequence of samples, every interleaving of draws of two generators, every seeding of two nodes",
    },
    "C20": {
        "targets": ["grazer", "extract_new_initial_condition", "include_seed_in_boundaryvalues", "remove_seed_from_boundaryvalues"],
        "level": "model_checking", "python": "restart:run20",
        "technique": "exhaustive enumeration of small networks and of all points of their histories; the real executables continue from every one of them, "
                     "compared with the uninterrupted history",
        "note": TRUST + "Every network of the listed families, interrupted after every step; every asked time on, between and outside the steps.",
        "rule": "every network of the bounded families times every point at which its simulation is interrupted; every seeding of up to three nodes",
    },
    "C21": {
        "targets": ["d_output", "grazer", "generate_printing_csv", "generate_control_printing_csv", "extract_new_initial_condition"],
        "level": "model_checking", "python": "restart:run21",
        "technique": "exhaustive enumeration of results and identifiers on the real executables against the results themselves",
        "note": TRUST + "Every component of every listed result file, identifiers that lead elsewhere, targets that cannot be written.",
        "rule": "every component of every result file of the families, every listed identifier",
    },
    "C22": {
        "targets": ["normalize_jsons", "move_to_category", "increase_pressure", "change_inflow", "insert_positions", "include_seed_in_boundaryvalues",
                    "remove_seed_from_boundaryvalues", "construct_gaspowerconnection", "sum_outflow"],
        "level": "model_checking", "python": "rewriting",
        "technique": "explicit-state exploration of the problem's files under every sequence of tools, each transition executed by the real tool and compared with its model",
        "note": TRUST + "Seven initial problems, 27 operations, sequences of 2 (thorough: 3), reached states are kept once; every single file operation disturbed.",
        "rule": "every operation in every state of the files reachable from the initial problems up to the depth",
    },
    "C23": {
        "targets": ["draw_gaslib_graph", "draw_power_graph", "draw_heatmap_gaslib", "draw_heatmap_power"],
        "level": "model_checking", "python": "drawing",
        "technique": "exhaustive enumeration of small networks and results on the real executables; the drawings are read back and compared",
        "note": TRUST + "Every assignment of types, every small set of edges, every series of values from an alphabet.",
        "rule": "every network of the families, every series of values of up to three components and two times",
    },
    "C24": {
        "targets": ["h_graph"], "level": "model_checking",
        "technique": "exhaustive enumeration of small graphs and of sequences of changes on the real classes against lists",
        "note": TRUST + "Every graph of up to 3 nodes and 2 (thorough: 3) edges, every sequence of up to 3 changes, every net lacking a node or an edge.",
        "rule": "every graph with every sequence of changes",
    },
    "C25": {
        "targets": ["h_laws"], "level": "model_checking",
        "technique": "exhaustive enumeration of grids of arguments including every border of regimes; the real functions against the defining formulas and their differences",
        "note": TRUST + "Every combination of the listed diameters, roughnesses, densities, flows; values between grid points are not visited.",
        "rule": "every combination of arguments from the grids",
    },
    "C26": {
        "targets": ["grazer"], "level": "model_checking", "python": "commandline",
        "technique": "exhaustive enumeration of command lines on the real executable against a reference grammar and the single commands run one after the other",
        "note": TRUST + "Every line of up to three (thorough: four) of 13 words, every combination of two (thorough: three) commands, words left out or added.",
        "rule": "every command line up to the length and every combination of commands",
    },
}
NOT_APPLICABLE = {}
