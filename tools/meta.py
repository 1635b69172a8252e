#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place where the property texts live)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "qiskit_optimization/problems/"
C = "qiskit_optimization/converters/"
A = "qiskit_optimization/algorithms/"
AP = "qiskit_optimization/applications/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
            anchors={
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
            note=note,
        )
    )


prop(
    "C01", "Expressions denote exactly the polynomial they were given",
    "A linear or quadratic expression, an objective or a constraint denotes the same polynomial whatever form its "
    "coefficients arrive in (dict keyed by names, indices or both, list, numpy array of any dtype, sparse matrix, with "
    "repeated, symmetric, zero and negative entries) and after any later coefficient or constant assignment. Its value "
    "and gradient at a point given as list, array or dict are those of that polynomial, and the coefficient views (array, "
    "symmetric array, dict by name or index) all describe it.",
    ["inputs", "histories"], "all coefficient sets, input formats, edits and evaluation points",
    "The unit tests evaluate a handful of fixed 5-variable expressions in integer coefficients; the claim quantifies over "
    "every coefficient set, format and point.",
    [P + "linear_expression.py", P + "quadratic_expression.py", P + "quadratic_objective.py", P + "linear_constraint.py",
     P + "quadratic_constraint.py"],
    [("LinearExpression._coeffs_to_dok_matrix / evaluate / evaluate_gradient", P + "linear_expression.py"),
     ("QuadraticExpression._triangle_matrix / _symmetric_matrix / evaluate", P + "quadratic_expression.py"),
     ("QuadraticObjective.evaluate / evaluate_gradient", P + "quadratic_objective.py")],
    ["to_array/to_dict/evaluate/evaluate_gradient of expressions, objectives, constraints"],
    "Generated coefficient sets, formats, edits and points against an independent polynomial evaluator; exact dyadic arithmetic.",
)
prop(
    "C02", "Program tables follow every edit history; rejected edits change nothing",
    "After any sequence of edits (adding single variables or lists and dicts of variables, adding and removing "
    "constraints, setting objective, bounds, types and names, clearing), the variables, constraints, name and index "
    "look-ups and counts of a program are exactly what the edits say, in insertion order, with distinct generated names. "
    "An edit that must be rejected (duplicate or unknown name, empty range, invalid sense or format) raises an error and "
    "leaves the program as it was.",
    ["histories"], "all histories of program edits, valid and invalid",
    "The tests run fixed scripts of a few edits; index maps, generated names and rejected edits interact only over longer "
    "histories.",
    [P + "quadratic_program.py", P + "variable.py", P + "constraint.py"],
    [("QuadraticProgram._add_variable(s)/_add_linear_constraint/remove_*", P + "quadratic_program.py"),
     ("Variable bound setters", P + "variable.py"), ("ConstraintSense.convert", P + "constraint.py")],
    ["QuadraticProgram.variables, variables_index, linear_constraints, get_*, get_num_*"],
    "Stateful: operation sequences compared after every step with a list model of a program.",
)
prop(
    "C03", "Feasibility answers are exact for every point and constraint",
    "For every program and point of the right length, the feasibility query reports feasible exactly when each value lies "
    "within its variable's bounds and every linear and quadratic constraint holds in its sense, where a bound or "
    "inequality attained exactly is satisfied, and an equality also when attained up to floating-point rounding. The violated variables and "
    "constraints it lists are precisely the violated ones, in program order, also after constraints were removed or bounds "
    "changed; a point of the wrong length is rejected and the query leaves the program unchanged.",
    ["inputs", "histories"], "all programs, constraint senses and points, after any removals",
    "Tests check a few points of one program; off-by-one senses and boundary points need generated points on and beside "
    "every boundary.",
    [P + "quadratic_program.py"],
    [("QuadraticProgram.get_feasibility_info / is_feasible", P + "quadratic_program.py")],
    ["get_feasibility_info, is_feasible"],
    "Generated programs and points on/inside/outside the boundaries against exact rational-style evaluation.",
)
prop(
    "C04", "Substituting variables preserves the meaning of a program",
    "Replacing variables by constants or by weighted other variables yields a program over the remaining variables (same "
    "names, types and order) in which, at every point, the objective value and the feasibility equal those of the original "
    "program at the point with the substituted values filled in, including the bounds of the replaced variables. If the "
    "substitution leaves no room for a variable or breaks a constraint outright, the result is marked infeasible; a "
    "contradictory or chained substitution is rejected, and the original program is never changed.",
    ["inputs"], "all programs and substitution maps over them",
    "Tests cover one small program with a few fixed substitutions; weights of both signs, shared targets, bounds and "
    "quadratic products combine in too many ways for examples.",
    [P + "quadratic_program.py"],
    [("SubstituteVariables.substitute_variables and its objective/constraint/bound steps", P + "quadratic_program.py")],
    ["QuadraticProgram.substitute_variables"],
    "Generated programs and substitutions; metamorphic comparison of both programs at generated points.",
)
prop(
    "C05", "Docplex and LP-file exchange preserves the program",
    "Exporting a program to a docplex model and importing it back, or writing it to an LP file and reading it back, yields "
    "a program with the same variables (names, types, bounds), objective and constraints (names, senses) up to exact "
    "polynomial equality. A docplex model built from linear and quadratic terms on either side of its constraints is "
    "imported as the same mathematical program, and a model with features that cannot be represented is rejected instead "
    "of being changed silently.",
    ["programs", "inputs"], "all programs within the common subset, and docplex models with or without unsupported features",
    "Tests round-trip a few fixed models; sides, senses, constants, squares, infinite bounds and names vary independently.",
    [P + "quadratic_program.py"],
    [("QuadraticProgram.to_docplex / from_docplex", P + "quadratic_program.py"),
     ("QuadraticProgram.write_to_lp_file / read_from_lp_file / export_as_lp_string", P + "quadratic_program.py")],
    ["to_docplex, from_docplex, write_to_lp_file, read_from_lp_file, export_as_lp_string"],
    "Round trips and differential evaluation through docplex's own term iterators; DOcplex is trusted.",
)
prop(
    "C06", "QUBO and Ising translations agree on every bitstring",
    "For every unconstrained binary program, the energy of the Ising operator in each computational basis state plus the "
    "offset equals the objective value of the corresponding bitstring (negated when maximizing), with variable i on qubit i. "
    "For every diagonal Pauli-Z operator of degree at most two, however its terms are nested, scaled, repeated or ordered, "
    "the imported program's objective equals the operator's energy plus offset on every bitstring, linear option included; "
    "programs and operators outside these classes are rejected.",
    ["inputs"], "all QUBOs and all diagonal operators of degree at most two",
    "Tests compare a few fixed operators; signs, squares, offsets and qubit order need all bitstrings of generated programs.",
    [P + "quadratic_program.py"],
    [("QuadraticProgram.to_ising / from_ising", P + "quadratic_program.py")],
    ["to_ising, from_ising"],
    "All 2^n bitstrings of generated programs and operators (n<=6) against an independent diagonal.",
)
prop(
    "C07", "Integer-to-binary conversion encodes exactly the integer points",
    "Converting a program with bounded integer variables yields a program without integer variables in which each "
    "assignment of the new binaries encodes a point of the original domain, every original point is encoded, and objective "
    "value and feasibility of an assignment equal those of the point it encodes. Interpreting an assignment returns exactly "
    "that point, in the original variable order and for ranges of any size; other variables and their names are kept.",
    ["inputs"], "all programs with bounded integer variables and all assignments",
    "Tests use two or three fixed ranges; power-of-two boundaries, negative ranges and mixed products need enumeration.",
    [C + "integer_to_binary.py"],
    [("IntegerToBinary._encode_var / _substitute_int_var / interpret", C + "integer_to_binary.py")],
    ["IntegerToBinary.convert, interpret"],
    "Enumeration of all binary assignments of generated programs, plus sampled wide ranges up to 10^6.",
)
prop(
    "C08", "Inequality-to-equality conversion keeps exactly the feasible points",
    "Converting inequality constraints with slack variables yields equality constraints only, and a point of the original "
    "program is feasible exactly when some slack values within their bounds make its extension feasible, with the same "
    "objective value (with integer slacks: for programs whose constraints take integer values after rounding the "
    "right-hand side inwards). Interpreting an extended point drops the slacks and keeps the original order; in integer "
    "mode fractional coefficients are rejected, and constraints no point can satisfy are not made satisfiable.",
    ["inputs", "configurations"], "all programs with linear and quadratic constraints, senses and slack modes",
    "Tests compare one conversion with fixed expected slack ranges; slack bounds depend on every sign and bound combination.",
    [C + "inequality_to_equality.py"],
    [("InequalityToEquality._add_slack_var_constraint / _add_integer_slack / _add_continuous_slack / interpret",
      C + "inequality_to_equality.py")],
    ["InequalityToEquality.convert, interpret, mode"],
    "For every original point the set of admissible slack values is solved exactly and compared with feasibility.",
)
prop(
    "C09", "Penalty conversion adds penalty times squared violation; auto penalty separates",
    "Converting linear equality constraints into penalty terms yields an unconstrained program whose objective is the "
    "original objective plus (minus when maximizing) the penalty times the sum of squared constraint violations at every "
    "point, with the same variables and sense. With an automatic penalty and integer-valued constraints over bounded "
    "variables, no infeasible point is as good as the best feasible one; inequality or quadratic constraints are "
    "rejected, and a penalty set by the user is used as given until it is changed.",
    ["inputs", "histories"], "all programs with linear equalities, penalties set in any order, all points",
    "Tests check a fixed penalty expansion; the automatic bound and converter state depend on ranges and history.",
    [C + "linear_equality_to_penalty.py"],
    [("LinearEqualityToPenalty.convert / _auto_define_penalty / interpret", C + "linear_equality_to_penalty.py")],
    ["LinearEqualityToPenalty.convert, penalty, interpret"],
    "All integer points of generated programs, converter histories, exact polynomial comparison.",
)
prop(
    "C10", "QUBO conversion preserves the optimum and its interpretation",
    "For every program with binary and bounded integer variables, linear constraints with integer coefficients and at "
    "least one feasible point, the converted program is unconstrained and binary, and with the automatic penalty each of "
    "its optima is interpreted as an optimal feasible point of the original program with the same objective value. At "
    "encodings of feasible points with suitable slacks the converted objective equals the original one; programs with "
    "continuous variables, quadratic constraints or fractional constraint coefficients are reported incompatible and rejected.",
    ["inputs"], "all integer programs with linear constraints, penalties, and all QUBO assignments",
    "Tests convert a few fixed programs and compare coefficients; that optima survive the whole chain needs enumeration of "
    "both programs.",
    [C + "quadratic_program_to_qubo.py", C + "inequality_to_equality.py", C + "integer_to_binary.py",
     C + "linear_equality_to_penalty.py"],
    [("QuadraticProgramToQubo.convert / interpret / get_compatibility_msg", C + "quadratic_program_to_qubo.py")],
    ["QuadraticProgramToQubo.convert, interpret, is_compatible"],
    "Both programs solved by enumeration; every optimum of the QUBO interpreted.",
)
prop(
    "C11", "A reused converter behaves like a fresh one",
    "For every history of conversions, mode or penalty changes, rejected conversions and interpretations on one converter "
    "object, each conversion returns the program that a fresh converter with the same settings would return, and "
    "interpretation refers to the last conversion. Converting never changes the source program, and later edits of the "
    "source or the returned program affect neither the other one nor the converter.",
    ["histories"], "all histories of one converter object over several programs",
    "Every test builds a new converter; leaked state only shows over histories.",
    [C + "integer_to_binary.py", C + "inequality_to_equality.py", C + "linear_equality_to_penalty.py",
     C + "quadratic_program_to_qubo.py"],
    [("per-conversion state of the converters (_conv, _src, _dst, _penalty)", C)],
    ["convert, interpret of all four converters"],
    "Stateful histories compared step by step with fresh converters.",
)
prop(
    "C12", "Minimum-eigensolver optimizer returns optima and faithful samples",
    "With an exact eigensolver, the returned point is an optimal feasible point of the given program with its true "
    "objective value and success status (programs whose feasible set is empty give an infeasible status). For any "
    "eigenstate an eigensolver returns (vector, state function, amplitude or count dictionary), the reported samples are "
    "exactly the measurable bitstrings with their probabilities, the QUBO samples and the interpreted samples carry the "
    "true values, the true feasibility status and sorted order, and the best sample is the result; the given program is "
    "not changed.",
    ["inputs", "configurations"], "all compatible programs, converters, and eigenstates in all representations",
    "Tests run a few fixed programs on QAOA/exact solvers; qubit order, probabilities and status need arbitrary states.",
    [A + "minimum_eigen_optimizer.py", A + "optimization_algorithm.py"],
    [("MinimumEigenOptimizer.solve / _solve_internal", A + "minimum_eigen_optimizer.py"),
     ("OptimizationAlgorithm._eigenvector_to_solutions / _interpret / _interpret_samples / _get_feasibility_status",
      A + "optimization_algorithm.py")],
    ["MinimumEigenOptimizer.solve, MinimumEigenOptimizationResult"],
    "Enumeration for exact solvers; injected eigenstates with every sample recomputed.",
)
prop(
    "C13", "Recursive optimizer reductions are sound and unrolled correctly",
    "Each elimination step of the recursive optimizer fixes or ties one variable according to the strongest correlation of "
    "the inner solver's samples, the reduced program equals the current one under that substitution at every point, and "
    "the final assignment, unrolled through all steps, is reported with its true objective value and feasibility status "
    "in the original variables. With an exact inner optimizer the result is an optimal feasible point; the history option "
    "only decides what is recorded, and the given program is not changed.",
    ["inputs", "histories"], "all compatible programs, minimum sizes, history settings and inner sample distributions",
    "Tests solve three fixed programs; wrong signs or unrolling order appear only for some correlation patterns.",
    [A + "recursive_minimum_eigen_optimizer.py", A + "optimization_algorithm.py", P + "quadratic_program.py"],
    [("RecursiveMinimumEigenOptimizer._solve_internal / _find_strongest_correlation / _find_value",
      A + "recursive_minimum_eigen_optimizer.py"), ("OptimizationResult.get_correlations", A + "optimization_algorithm.py")],
    ["RecursiveMinimumEigenOptimizer.solve, RecursiveMinimumEigenOptimizationResult"],
    "Injected sample distributions, replacements recomputed; enumeration for the exact case.",
)
prop(
    "C14", "Grover optimizer reports true values of measured candidates",
    "For every compatible program the Grover optimizer's search circuits mark and amplify exactly the assignments whose "
    "QUBO value lies below the current threshold, and the returned point is the best candidate it measured, reported with "
    "its true objective value and feasibility status; samples carry measured probabilities, true values and sorted order. "
    "The optimizer can be reused, respects its iteration limits, leaves the given program unchanged and rejects "
    "incompatible programs.",
    ["inputs", "schedules"], "all small compatible programs, simulator seeds, statevector and shot back ends",
    "Tests check the final optimum of a few programs under one seed; the search is random and may hide wrong values.",
    [A + "grover_optimizer.py", A + "optimization_algorithm.py"],
    [("GroverOptimizer.solve / _get_a_operator / _get_oracle / _measure", A + "grover_optimizer.py")],
    ["GroverOptimizer.solve, GroverOptimizationResult, the circuits executed"],
    "Executed circuits simulated and compared with the QUBO table; results recomputed. No optimality claim is made.",
)
prop(
    "C15", "Classical optimizers return optimal or consistently reported points",
    "The CPLEX-based optimizer returns an optimal feasible point of an integer program with its true value, or an "
    "infeasible/failure status when no solution exists. On convex programs (concave when maximizing) with bounds, linear "
    "and convex quadratic constraints, the SLSQP and COBYLA optimizers return a point that is feasible and optimal up to "
    "their numerical tolerances; multi-start search returns the best of its trials in the program's own sense from "
    "starting points within the bounds, every reported value and status is that of the reported point, and incompatible "
    "variables are rejected.",
    ["inputs", "configurations"], "all integer programs; all convex programs; trials, clipping, options",
    "Tests check a few fixed programs mostly minimizing; senses, constraints signs and bounds vary independently.",
    [A + "cplex_optimizer.py", A + "slsqp_optimizer.py", A + "cobyla_optimizer.py", A + "multistart_optimizer.py"],
    [("CplexOptimizer.solve", A + "cplex_optimizer.py"), ("SlsqpOptimizer.solve", A + "slsqp_optimizer.py"),
     ("CobylaOptimizer.solve", A + "cobyla_optimizer.py"), ("MultiStartOptimizer.multi_start_solve", A + "multistart_optimizer.py")],
    ["solve of the three optimizers, multi_start_solve"],
    "Enumeration (integer programs), active-set enumeration / feasible grids (convex), stub local solver (multi start). "
    "CPLEX, SLSQP and COBYLA tolerances are trusted; batches of 8 convex cases may miss by numerics at most 4 times.",
)
prop(
    "C16", "ADMM runs the documented iteration and reports its best iterate",
    "For every compatible program, each ADMM iteration poses to the discrete and the continuous block solver exactly the "
    "augmented-Lagrangian sub-problems of the decomposition (binary block, continuous block, auxiliary block), updates "
    "multipliers and penalty by the documented rules for two or three blocks, and stops by the documented criteria. The "
    "result is the iterate with the best merit value, expressed in the original variables with its true objective value "
    "and feasibility status; programs that mix discrete and continuous variables in one objective product are rejected and "
    "the given program is not changed.",
    ["inputs", "histories", "configurations"], "all compatible programs, parameters, and answers of the block solvers",
    "Tests solve a few fixed programs to tolerance; wrong terms often still converge on them.",
    [A + "admm_optimizer.py"],
    [("ADMMOptimizer.solve / _create_step1_problem / _create_step2_problem / _update_x1 / _update_y / _update_lambda_mult / "
      "_update_rho / _get_best_merit_solution", A + "admm_optimizer.py")],
    ["ADMMOptimizer.solve, ADMMState, the sub-problems posed to the block solvers"],
    "A reference ADMM fed with the same block answers; all sub-problems compared as polynomials. Binaries occurring only "
    "in inequality constraints are not part of the discrete block (heuristic limitation, reported honestly).",
)
prop(
    "C17", "Warm-start QAOA encodes the relaxed solution and aggregates faithfully",
    "The optimizer solves the continuous relaxation of the (QUBO) program with the pre-solver, prepares for each "
    "relaxed solution the initial state with probability equal to the relaxed value clipped by epsilon on each qubit and "
    "the mixer having that state as eigenstate, and runs QAOA on the program's Ising operator once per solution. The "
    "result, one run or an average of several runs, contains exactly the samples the runs gave with their probabilities, "
    "true values and statuses; epsilons outside [0, 0.5] and incompatible programs are rejected.",
    ["inputs", "configurations"], "all compatible programs, relaxed solutions, epsilons, numbers of initial solutions",
    "Tests check one max-cut example; clipping, qubit order and aggregation are sampled once.",
    [A + "warm_start_qaoa_optimizer.py", A + "minimum_eigen_optimizer.py"],
    [("WarmStartQAOAOptimizer.solve / _relax_problem", A + "warm_start_qaoa_optimizer.py"),
     ("WarmStartQAOAFactory.create_initial_state / create_mixer", A + "warm_start_qaoa_optimizer.py"),
     ("MeanAggregator.aggregate", A + "warm_start_qaoa_optimizer.py")],
    ["WarmStartQAOAOptimizer.solve, WarmStartQAOAFactory, the circuits passed to QAOA"],
    "Recording pre-solver and eigensolver; circuits simulated, samples recomputed.",
)
prop(
    "C18", "Goemans-Williamson reports true cuts and a valid SDP bound",
    "For every max-cut program each reported cut is a bipartition of the vertices with its true cut value and a "
    "probability of 1/number of reported cuts, honouring the sorting and uniqueness options, and the result "
    "is the first reported cut (with sorting: the best). The SDP solution has unit diagonal, is positive semidefinite and bounds the maximum cut "
    "from above; runs with equal seeds agree, non-binary programs are rejected, a failing SDP "
    "solver gives a failure status.",
    ["inputs", "schedules"], "all weighted graphs, options and seeds",
    "Tests solve one four-node graph with one seed.",
    [A + "goemans_williamson_optimizer.py"],
    [("GoemansWilliamsonOptimizer.solve / _extract_adjacency_matrix / _solve_max_cut_sdp / _generate_random_cuts / "
      "max_cut_value", A + "goemans_williamson_optimizer.py")],
    ["GoemansWilliamsonOptimizer.solve, GoemansWilliamsonOptimizationResult"],
    "Every cut recomputed from the graph; SDP checked against enumeration. The SDP solver's tolerance is trusted.",
)
prop(
    "C19", "Graph applications model their graph problem at every assignment",
    "For every graph (given as networkx graph on nodes 0..n-1, adjacency array or edge list; weighted or not) the programs "
    "of max-cut, graph partition, stable set, vertex cover and clique have one binary variable per node, and at every "
    "assignment feasibility and objective value are exactly those of the graph problem's definition. Interpreting an "
    "assignment (vector or result) returns the node sets it denotes; the application object is not changed by building "
    "programs, and changing its input graph or parameters later does not change programs already built.",
    ["inputs"], "all graphs, weights, parameters and 2^n assignments",
    "Tests compare one or two fixed graphs' coefficients.",
    [AP + "max_cut.py", AP + "graph_partition.py", AP + "stable_set.py", AP + "vertex_cover.py", AP + "clique.py",
     AP + "graph_optimization_application.py"],
    [("to_quadratic_program / interpret of the five applications", AP)],
    ["to_quadratic_program, interpret, graph"],
    "All assignments of generated graphs up to 8 nodes against the definitions.",
)
prop(
    "C20", "Set, number and knapsack applications model their problem everywhere",
    "For every family of subsets, list of numbers and list of items with a capacity, the programs of set packing, exact "
    "cover, number partitioning and knapsack have one binary variable per subset, number or item, and at every assignment "
    "feasibility and objective value are exactly those of the problem's definition. Interpreting an assignment (vector or "
    "result) returns the chosen subsets, the two number lists or the chosen items, and the input data are not changed.",
    ["inputs"], "all families, lists, items, capacities and 2^n assignments",
    "Tests use one fixed instance per application.",
    [AP + "set_packing.py", AP + "exact_cover.py", AP + "number_partition.py", AP + "knapsack.py"],
    [("to_quadratic_program / interpret of the four applications", AP)],
    ["to_quadratic_program, interpret"],
    "All assignments of generated instances up to 9 variables against the definitions.",
)
prop(
    "C21", "TSP and routing programs: feasible points are tours, value is length",
    "For every complete weighted graph, the feasible points of the TSP program are exactly the encodings of tours visiting "
    "each node once, with objective equal to the tour length, and interpretation returns the tour. For every depot and "
    "number of vehicles, the feasible points of the routing program are exactly the edge sets of that many routes which "
    "start and end at the depot and together visit every other node once, with objective equal to the total length, and "
    "interpretation returns these routes; depot and vehicle number may be changed later.",
    ["inputs"], "all complete weighted graphs, depots, vehicle numbers and assignments",
    "Tests compare two fixed instances; subtours and odd depots need enumeration.",
    [AP + "tsp.py", AP + "vehicle_routing.py"],
    [("Tsp.to_quadratic_program / interpret", AP + "tsp.py"),
     ("VehicleRouting.to_quadratic_program / interpret / _build_depot_nodes", AP + "vehicle_routing.py")],
    ["to_quadratic_program, interpret"],
    "Every assignment for small sizes; every plan and perturbations for larger ones.",
)
prop(
    "C22", "Instance files, random instances and measured states are read faithfully",
    "Parsing a Gset file yields exactly the weighted graph it lists, parsing a TSPLIB EUC_2D file yields the complete "
    "graph with the nodes' coordinates and rounded Euclidean distances, and unsupported TSPLIB types are rejected. Random "
    "instances with the same seed are identical and within the stated ranges. The most likely bitstring read from counts, "
    "probabilities, state vectors or state functions is the one with the largest probability, with variable i first read "
    "from qubit i.",
    ["inputs"], "all well-formed files, seeds, sizes, and measured states",
    "Tests parse one sample file each (unweighted) and one fixed state.",
    [AP + "max_cut.py", AP + "tsp.py", AP + "vehicle_routing.py", AP + "optimization_application.py"],
    [("Maxcut.parse_gset_format", AP + "max_cut.py"), ("Tsp.parse_tsplib_format / create_random_instance", AP + "tsp.py"),
     ("VehicleRouting.create_random_instance", AP + "vehicle_routing.py"),
     ("OptimizationApplication.sample_most_likely", AP + "optimization_application.py")],
    ["parse_gset_format, parse_tsplib_format, create_random_instance, sample_most_likely"],
    "Generated files and states with known content.",
)

prop(
    "C23", "Result objects and base-class helpers report one consistent solution",
    "An optimization result gives the same values by position, by name, as array and as dictionary, in the order of the "
    "program's variables; unknown names, positions out of range, other key types and solutions of the wrong size are "
    "rejected with the documented errors. It stays as it is when the program, point or sample list behind it is edited "
    "later. Its samples are those it was given (or the solution itself with probability one), and the correlation matrix is computed from exactly these; an optimizer written against the base class gets "
    "its converted answers interpreted in the original variables with true value, status, merged probabilities and order.",
    ["inputs", "configurations"], "all variables, values, samples and keys; all converter chains and converted answers",
    "Tests look up a few values of one result; merging of samples and correlations are only seen through solvers.",
    [A + "optimization_algorithm.py"],
    [("OptimizationResult", A + "optimization_algorithm.py"),
     ("OptimizationAlgorithm._interpret / _interpret_samples / _prepare_converters / _verify_compatibility",
      A + "optimization_algorithm.py")],
    ["OptimizationResult, OptimizationAlgorithm subclasses"],
    "Generated results with every access path recomputed; a user-defined optimizer with generated answers.",
)

prop(
    "C24", "Drawing a graph application shows its graph and exactly the solution",
    "Drawing a graph application, with or without given positions and whatever order the graph lists its nodes in, shows "
    "every node once with its label and every edge. With a solution, the node colours of max-cut, graph partition, stable "
    "set, vertex cover and clique tell exactly which nodes are chosen, and for TSP and vehicle routing exactly the edges of "
    "the tour or routes are highlighted, each route in its own colour; without a solution nothing is highlighted and the "
    "application is never changed.",
    ["inputs"], "all graphs, input forms, solutions and positions",
    "No test draws anything.",
    [AP + "graph_optimization_application.py", AP + "max_cut.py", AP + "tsp.py", AP + "vehicle_routing.py"],
    [("GraphOptimizationApplication.draw", AP + "graph_optimization_application.py"),
     ("_draw_result / _node_color(s) / _edgelist / _edge_color of the applications", AP)],
    ["draw (the matplotlib figure)"],
    "The figure (Agg back end) is read back: node offsets, face colours, labels and line segments.",
)

prop(
    "C25", "Applications and programs solved end to end give the true optimum",
    "For every small instance, an application turned into a program, solved by an exact route (CPLEX; the minimum-eigen "
    "optimizer or the recursive optimizer over an exact eigensolver; CPLEX on the QUBO or on the stage-wise converted "
    "program) and interpreted by the application yields a valid solution of the combinatorial problem with the best possible "
    "value, and an instance without a solution is never reported as solved. For integer programs with linear constraints, every "
    "equivalent detour (LP file, docplex, Ising operator, negated objective, slack form, repeated QUBO conversion, copy) "
    "leads every exact optimizer to an optimal point of the original program.",
    ["inputs", "configurations"], "all small instances of all applications, all integer programs, all exact routes",
    "Each test exercises one stage on one instance with a known answer; errors that two stages make consistently, or that "
    "arise between stages, show only when the whole chain is compared with the combinatorial definition.",
    [AP, C, A + "minimum_eigen_optimizer.py", A + "recursive_minimum_eigen_optimizer.py", A + "cplex_optimizer.py",
     P + "quadratic_program.py"],
    [("to_quadratic_program / interpret of every application", AP),
     ("convert / interpret of the converters", C),
     ("solve of CplexOptimizer, MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer", A)],
    ["application.interpret(optimizer.solve(application.to_quadratic_program()))"],
    "End-to-end runs against a search over the combinatorial definitions and against enumeration of the program.",
)
prop(
    "C26", "A reused optimizer solves as a new one does and leaves programs alone",
    "What an optimizer returns depends only on its settings, the program and the random seed: after any history of earlier "
    "solves (other programs, infeasible ones, ones it rejected), solving a program gives the result a newly made optimizer "
    "with the same settings gives, with the same seed; it rejects what the new one rejects. Solving never changes the "
    "program, and later solves never change earlier results.",
    ["histories", "configurations"], "all histories of solves on one optimizer, all optimizers and settings",
    "Tests make a new optimizer for each solve; leftovers in optimizers, converters, aggregators and block solvers need a "
    "history of different programs.",
    [A],
    [("solve of all OptimizationAlgorithm subclasses", A), ("ADMMState, converters and pre-solvers kept by optimizers", A)],
    ["OptimizationAlgorithm.solve and its result"],
    "Histories of solves on one optimizer against a new optimizer per step; deterministic eigensolver stand-ins.",
)
prop(
    "C27", "Programs own their data: inputs, outputs and copies are independent",
    "Coefficient containers of any accepted kind passed to a program are not "
    "changed by it, and overwriting them later, or using one container for several expressions, does not change or link what was "
    "built; overwriting the arrays and dictionaries its expressions hand out (to_array, to_dict, gradients) does not change "
    "it; points passed to evaluations are not "
    "changed. A deep copy, a converted, substituted or imported program owns all its parts, and no edit of it or of its "
    "source reaches the other.",
    ["inputs", "histories"], "all containers, programs, derivations and later edits",
    "Tests never touch inputs or outputs after use and compare a derived program only once, right after deriving it.",
    [P, C],
    [("LinearExpression / QuadraticExpression coefficient storage and views", P),
     ("copy.deepcopy of programs and element back-links", P + "quadratic_program_element.py"),
     ("convert of the converters", C)],
    ["QuadraticProgram construction, to_array/to_dict, deepcopy, convert, substitute_variables, from_docplex"],
    "Containers, outputs and one side of a derivation are overwritten or edited; the other side is compared with its snapshot.",
)

TECH = "property-based testing (Hypothesis generators, shrinking, explicit oracle)"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "python3 run.py {} --tier quick".format(p["id"]),
                "thorough_cmd": "python3 run.py {} --tier thorough".format(p["id"]),
                "evidence_file": "evidence/{}.json".format(p["id"]),
                "technique": TECH,
                "level": "exploration",
                "level_note": p["note"] + " Assurance: no counterexample among the generated cases counted in the evidence.",
            }
            for p in PROPS
        ],
        "not_applicable": [],
        "notes": "No hooks are needed: the checks drive the public API (and recording stand-ins for solvers). "
        "run.py re-executes itself with /opt/venv/bin/python; Hypothesis is vendored in vendor/. "
        "Replay a violation with: python3 run.py <id> --replay <path>.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
